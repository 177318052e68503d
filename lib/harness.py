"""Builds and runs the counterexample search / replay harness on the real code of /repo."""
import os, re, shutil, subprocess, hashlib, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None)

def sh(cmd, timeout=600, cwd=None, env=None, cap=True):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'

def build_bb():
    rc, o, e = sh(['cargo', 'build', '--release', '--offline', '--target-dir', BUILD + '/bb'], cwd=V + '/harness/bb')
    if rc: raise RuntimeError('harness/bb does not build: ' + e[-2000:])
    return BUILD + '/bb/release/bb'

def build_repo_bin():
    """the real binary, debug profile, built outside of /repo"""
    rc, o, e = sh(['cargo', 'build', '--offline', '--manifest-path', REPO + '/Cargo.toml', '--target-dir', BUILD + '/bin'], cwd=REPO)
    if rc: raise RuntimeError('/repo does not build: ' + e[-2000:])
    return BUILD + '/bin/debug/ripcalc'

def prepare_internal():
    d = BUILD + '/internal'
    src = d + '/src'
    if os.path.exists(src): shutil.rmtree(src)
    shutil.copytree(REPO + '/src', src)
    toml = open(REPO + '/Cargo.toml').read()
    toml = toml.replace('[features]\n', '[features]\nt8 = []\n' + ''.join('C%02d = []\n' % i for i in range(1, 18)), 1)
    if '[features]' not in toml: toml += '\n[features]\nt8 = []\n' + ''.join('C%02d = []\n' % i for i in range(1, 18))
    if '[workspace]' not in toml: toml += '\n[workspace]\n'
    toml += '\n[profile.vh]\ninherits = "release"\nopt-level = 2\ndebug-assertions = true\noverflow-checks = true\npanic = "unwind"\n'
    write(d + '/Cargo.toml', toml)
    if os.path.exists(REPO + '/Cargo.lock'): write(d + '/Cargo.lock', open(REPO + '/Cargo.lock').read())
    # appended access module (private items), and the harness entry point; the code itself is unmodified
    en = src + '/cmds/enumerate.rs'
    if os.path.exists(en):
        with open(en, 'a') as f:
            f.write('\n#[cfg(feature = "C13")]\npub mod vh_access {\n    pub fn iter<A: crate::addr::IpAddress>(n: crate::net::IpNetwork<A>) -> impl Iterator<Item = A> { super::NetworkIter::new(n) }\n}\n')
    m = open(src + '/main.rs').read()
    m = re.sub(r'\bfn\s+main\s*\(\s*\)', '#[allow(dead_code)]\nfn ripcalc_real_main()', m, count=1)
    m += '\nmod vh;\nfn main() { vh::vh_main() }\n'
    open(src + '/main.rs', 'w').write(m)
    open(src + '/vh.rs', 'w').write(open(V + '/harness/vh.rs').read().replace('@COMMON@', V + '/harness/common.rs'))
    return d

def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)

def build_internal(prop, t8=True):
    d = prepare_internal()
    err = ''
    for feats in ([prop + ',t8', prop] if t8 else [prop]):
        rc, o, e = sh(['cargo', 'build', '--profile', 'vh', '--offline', '--features', feats, '--target-dir', BUILD + '/int'], cwd=d)
        if rc == 0: return BUILD + '/int/vh/ripcalc', feats
        err = e
    return None, err[-3000:]

def dictionary():
    """integer literals of the current sources: candidate special values for the search"""
    vals = set()
    for dp, dn, fn in os.walk(REPO + '/src'):
        for f in fn:
            if f.endswith('.rs'):
                t = open(os.path.join(dp, f), errors='replace').read()
                t = t.split('#[cfg(test)]')[0]
                for m in re.finditer(r'\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?\b', t):
                    s = m.group(1).replace('_', '')
                    try: v = int(s, 0) if not (s.isdigit()) else int(s)
                    except ValueError: continue
                    if 0 <= v < 1 << 128: vals.add(v)
                for m in re.finditer(r'(\d+)\.(\d+)\.(\d+)\.(\d+)', t):
                    q = [int(x) for x in m.groups()]
                    if max(q) < 256: vals.add(q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3])
    p = BUILD + '/dict.txt'
    write(p, '\n'.join('%x' % v for v in sorted(vals)) + '\n')
    return p

def parse(out):
    r = {'evals': 0, 'distinct': 0, 'small': 0, 'samples': [], 'case': None, 'fail': None, 'done': False}
    for l in out.splitlines():
        k, _, v = l.partition(' ')
        if k == 'EVALS': r['evals'] = int(v)
        elif k == 'DISTINCT': r['distinct'] = int(v)
        elif k == 'SMALL': r['small'] = int(v)
        elif k == 'SAMPLE': r['samples'].append(v)
        elif k == 'CASE': r['case'] = v
        elif k == 'FAIL': r['fail'] = v; r['done'] = True
        elif k == 'HOLDS': r['done'] = True
    return r

HAS_BB = {'C%02d' % i for i in range(1, 18)} - {'C03'}
HAS_INT = {'C%02d' % i for i in range(1, 16)}

def budgets(prop, tier, proved):
    if tier == 'thorough': return {'int': 120000, 'bb': 90000}
    return {'int': 4000 if proved else 40000, 'bb': 3000 if proved else 40000}

def run_one(cmd, ms):
    rc, o, e = sh(cmd, timeout=ms / 1000 + 120)
    r = parse(o)
    if r['fail'] is None and not r['done']:
        # the executor itself died: a crash of the code under test outside of its own guards, or a time out
        r['error'] = 'exit %s: %s' % (rc, e[-500:])
    return r

def search(prop, seed, ms):
    res = {'evals': 0, 'distinct': 0, 'samples': [], 'fail': None, 'case': None, 'executor': None, 'ran': False, 'error': '', 'assumptions': [], 'rule': ''}
    d = dictionary()
    rules = []
    if prop in HAS_INT:
        b, info = build_internal(prop)
        if b:
            r = run_one([b, prop, str(seed), str(ms['int']), d], ms['int'])
            merge(res, r, 'internal')
            rules.append('in-process calls of the real functions, random structured and fixed boundary cases' + (', plus an exhaustive pass over an 8-bit address type' if 't8' in info else ''))
        else: res['error'] += 'in-process harness does not compile against this tree: ' + info
    if prop in HAS_BB and not res['fail']:
        try:
            bb = build_bb(); rb = build_repo_bin()
            r = run_one([bb, rb, prop, str(seed), str(ms['bb']), d], ms['bb'])
            merge(res, r, 'black-box')
            rules.append('runs of the real program with generated command lines, output compared with an independent oracle')
        except RuntimeError as e: res['error'] += str(e)
    res['rule'] = 'Seeded (VERIF_SEED) case generation, bounded by time: ' + '; '.join(rules) + '. Distinct by case text; trivial cases are not generated.'
    res['assumptions'] = ['bounded search: oracles in harness/common.rs are an independent implementation on u128 values']
    return res

def merge(res, r, who):
    res['evals'] += r['evals']; res['distinct'] += r['distinct']; res['samples'] += r['samples'][:6]
    if r['done']: res['ran'] = True
    if r['fail'] and not res['fail']: res.update(fail=r['fail'], case=r['case'], executor=who)
    if r.get('error'): res['error'] += who + ': ' + r['error']
