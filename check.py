#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property on the current working tree of /repo:
 1. extracts the real functions, runs Verus over them (lib/verusrun.py), attributes the obligations of the
    property's cone;
 2. runs the bounded counterexample search on the real code (lib/harness.py);
 3. reports. exit 0: held; exit 1: VIOLATION line.
"""
import json, os, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/lib')
import harness, verusrun

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(harness.BUILD + '/replay', exist_ok=True)

    ver = verusrun.decide(prop, tier)
    proved = ver['status'] == 'proved'
    ms = harness.budgets(prop, tier, proved)
    h = harness.search(prop, seed, ms)

    known = [l.split('property=' + prop + ' ', 1)[1].strip() for l in open(V + '/known_findings.txt') if l.startswith('KNOWN-FINDING:') and 'property=%s ' % prop in l]
    violation = None
    replay = '%s/replay/%s.txt' % (harness.BUILD, prop)
    if h['fail']:
        violation = h['fail']
        with open(replay, 'w') as f:
            f.write('property: %s\ncase: %s\nfails: %s\nexecutor: %s\n' % (prop, h['case'], h['fail'], h['executor']))
            f.write('re-run: python3 %s/replay.py %s\n' % (V, replay))
            if ver['failed']: f.write('\nfailed obligations (Verus):\n' + ver['failed_text'] + '\n')
        line = 'VIOLATION property=%s replay=%s' % (prop, replay)
    elif ver['status'] == 'failed':
        violation = 'obligations not discharged: ' + ', '.join(ver['failed'])
        with open(replay, 'w') as f:
            f.write('property: %s\nfailed obligations: %s\nno failing input found by the search (%d evaluations)\n\n%s\n' % (prop, ', '.join(ver['failed']), h['evals'], ver['failed_text']))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)

    rule = h['rule']
    cov = dict(ver['coverage'])
    cov['status'] = ver['status']
    ex = {'evaluations': h['evals'], 'distinct_nontrivial': h['distinct'], 'rule': rule, 'samples': h['samples'][:8]}
    if ver['level'] == 'proof' and proved:
        level = 'proof'
        cov['bounded_search_alongside'] = ex
    elif ver['level'] == 'proof':
        level = 'other'
        cov.update({'explanation': 'Not all obligations of this property could be discharged on this tree (%s); the listed obligations are proved, the rest is decided by the bounded stand-in below, which is not a proof.' % ver['why'], 'bounded_stand_in': ex})
        cov.update({k: ex[k] for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples')})
    else:
        level = ver['level']
        cov.update(ex)
        cov['explanation'] = ver['why']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0, 'assumptions': ver['assumptions'] + h['assumptions']}
    with open(V + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s: %s; contracts: %s (%s of %s obligations); search: %d evaluations, %s' % (prop, 'VIOLATED' if violation else 'held', ver['status'], cov.get('discharged', 0), cov.get('obligations', 0), h['evals'], 'no counterexample' if not h['fail'] else h['fail']))
    if violation:
        print(line)
        return 1
    if not h['ran'] and not proved:
        print('check of %s could not run: %s' % (prop, h['error']), file=sys.stderr)
        return 2
    return 0

if __name__ == '__main__': sys.exit(main())
