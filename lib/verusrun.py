"""Contract-based deductive verification of /repo's current sources: extraction, Verus, attribution of obligations."""
import bisect, json, os, re, shutil, time
import harness
V, BUILD, REPO = harness.V, harness.BUILD, harness.REPO
EXTRACT = BUILD + '/extract/release/extract'
SPEC = V + '/spec'

def build_extract():
    rc, o, e = harness.sh(['cargo', 'build', '-q', '--release', '--offline', '--manifest-path', V + '/tools/extract/Cargo.toml', '--target-dir', BUILD + '/extract'])
    if rc: raise RuntimeError('extractor does not build: ' + e[-1000:])

class Run:
    """one extraction and one Verus run"""
    def __init__(self, tag, ebody=(), ext=(), probe=False, args=(), timeout=400, nocompute=()):
        d = BUILD + '/verus'; os.makedirs(d, exist_ok=True)
        self.rs, js = '%s/%s.rs' % (d, tag), '%s/%s.json' % (d, tag)
        cmd = [EXTRACT, REPO, SPEC, self.rs, js, '--reference', SPEC + '/reference.json']
        for x in sorted(ebody): cmd += ['--external-body', x]
        for x in sorted(ext): cmd += ['--external', x]
        if probe: cmd += ['--probe', '1']
        rc, o, e = harness.sh(cmd, timeout=60)
        if rc: raise RuntimeError('extraction failed: ' + e[-1500:])
        self.rep = json.load(open(js))
        self.src = open(self.rs).read()
        if nocompute:   # leave facts that evaluation refutes to the solver, which reports them as failed obligations
            L = self.src.split('\n')
            for i in nocompute: L[i - 1] = L[i - 1].replace(' by (compute_only)', '')
            self.src = '\n'.join(L); open(self.rs, 'w').write(self.src)
        self.cmd = ['verus', self.rs, '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '4'] + list(args)
        t0 = time.time()
        rc, o, e = harness.sh(self.cmd, timeout=timeout, cwd=d)
        self.wall = time.time() - t0
        self.rc = rc
        self.diags = []
        raw = []
        for l in e.splitlines():
            try:
                x = json.loads(l)
                if x.get('level') == 'error' and x.get('spans'): self.diags.append(x)
                elif x.get('level') == 'error': raw.append(x.get('message', ''))
            except ValueError: raw.append(l)
        self.raw = '\n'.join(raw)
        try: self.out = json.loads(o)
        except ValueError: self.out = {}
        self.res = self.out.get('verification-results', {})
        self.fns = {}
        for m in self.out.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                k = f['function'].split('::', 1)[1]
                if k == 'main_program': k = 'main'   # the extraction renames it: the verified text is a library
                self.fns[k] = f; f['module'] = m.get('module', '')
        # position -> function
        self.marks = []
        for m in re.finditer(r'/\*@fn (\S+) @\*/', self.src):
            self.marks.append((m.start(), self.src.index('/*@endfn@*/', m.start()), m.group(1)))
        self.marks.sort()
        self.ran = bool(self.fns) and not self.res.get('encountered-vir-error', True)
        for dg in self.diags:
            dg['fn'] = self.where(dg)
            if not dg['fn']:   # a lemma: its name is enough
                for sp in dg['spans']:
                    if not sp['is_primary'] or not sp['file_name'].endswith(os.path.basename(self.rs)): continue
                    n = [m.group(1) for m in re.finditer(r'\bfn (\w+)', self.src[:len(self.src.encode()[:sp['byte_start']].decode('utf8', 'ignore'))])][-1:]
                    k = [x for x in self.fns if n and x.split('::')[-1] == n[0] and self.fns[x]['mode:'] != 'exec']
                    if len(k) == 1: dg['lemma'] = k[0]

    def at(self, byte):
        # spans are byte offsets, marks character offsets: the text is ASCII apart from comments
        b = len(self.src.encode()[:byte].decode('utf8', 'ignore')) if not self.src.isascii() else byte
        i = bisect.bisect_right(self.marks, (b, 1 << 60, '')) - 1
        # derive blocks and functions do not nest
        return self.marks[i][2] if i >= 0 and self.marks[i][0] <= b <= self.marks[i][1] else None

    def where(self, dg):
        sp = sorted(dg['spans'], key=lambda s: ('failed' in (s.get('label') or ''), not ('at the end' in (s.get('label') or '') or 'at this exit' in (s.get('label') or '')), not s['is_primary']))
        for s in sp:
            if not s['file_name'].endswith(os.path.basename(self.rs)): continue
            f = self.at(s['byte_start'])
            if f: return f
        return None

def keys_of(direct, run):
    """names of the function breakdown for one entry of a %property line"""
    if direct.startswith('lemma:'):
        n = direct[6:]
        return [k for k, f in run.fns.items() if k.split('::')[-1] == n and f['mode:'] != 'exec']
    if direct.startswith('table:'):   # facts about constant tables of the repository
        return keys_of('lemma:' + direct[6:], run)
    if direct.startswith('derive:'):
        t = direct[7:]
        return [t + '::' + m for m in ('eq', 'cmp', 'partial_cmp') if t + '::' + m in run.fns]
    return [direct]

def cone(direct, rep, run):
    """the functions and, transitively, the functions of the repository they call (by name: an over-approximation)"""
    fns = rep['functions']
    byname = {}
    for k in fns:
        if not k.startswith('derive:'): byname.setdefault(k.split('::')[-1], []).append(k)
    todo = [k for k in direct if k in fns]; seen = set(todo)
    while todo:
        for c in fns[todo.pop()]['calls']:
            for k in byname.get(c, []):
                if k not in seen: seen.add(k); todo.append(k)
    return seen

def trusted_scan(src):
    r = {'assume_specification': [], 'external_body': [], 'axiom': [], 'external': [], 'external_type_specification': [], 'admit_or_assume': []}
    mods = [(m.start(), m.group(1)) for m in re.finditer(r'^\s*(?:pub )?mod (\w+)\s*\{', src, re.M)]
    def mod(pos):   # the last module opened before pos (the support modules do not nest)
        i = bisect.bisect_right(mods, (pos, '~')) - 1
        return mods[i][1] + '::' if i >= 0 else ''
    for m in re.finditer(r'assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]', src): r['assume_specification'].append(m.group(1))
    for m in re.finditer(r'#\[verifier::external_body\]', src):
        x = re.search(r'\b(?:fn|struct|enum|const|static)\s+(\w+)', src[m.end():m.end() + 400]); k = re.search(r'/\*@fn (\S+) @\*/\s*$', src[:m.start()])
        r['external_body'].append(k.group(1) if k else mod(m.start()) + x.group(1) if x else '?')
    for m in re.finditer(r'\baxiom\s+fn\s+(\w+)', src): r['axiom'].append(mod(m.start()) + m.group(1))
    for m in re.finditer(r'#\[verifier::external\]', src):
        x = re.search(r'\b(?:fn|struct|enum|impl)\b[^{;]*', src[m.end():m.end() + 200]); r['external'].append(' '.join(x.group(0).split()) if x else '?')
    for m in re.finditer(r'external_type_specification', src): 
        x = re.search(r'struct\s+\w+\(([^)]*)\)', src[m.end():m.end() + 200]); r['external_type_specification'].append(x.group(1) if x else '?')
    for m in re.finditer(r'\b(admit|assume)\s*\(', src): r['admit_or_assume'].append(src[m.start():m.start() + 60])
    return {k: sorted(set(v)) for k, v in r.items()}

DROPS = 'The extraction keeps the text of every function; it drops doc comments, attributes, #[cfg(test)] code and the items listed under extraction_dropped, makes everything public, writes out derived PartialEq/PartialOrd/Ord field by field, leaves out `return` in the last statement of a function and parentheses around a single name, call or element, and replaces the token patterns listed under rewrites by calls of contract-carrying wrappers of the same operation.'
ASSUME = [
    'Verus 0.2026.09.13 and its Z3 are correct; vstd contracts of the standard library are correct',
    'the contracts assumed in /verif/spec for the standard library (integer conversions, sorting, HashSet, iterator chains, number parsing, string functions, formatting of strings and numbers), for num-bigint, regex and console, and for process exit are correct; the evidence lists each of them under trusted_base',
    'a value that implements Display is shown by format strings as its fmt writes it (axiom_shown; what fmt writes for addresses and networks is proved)',
    'writing to standard output and standard error succeeds; colors (escape sequences of the console crate) are not part of the text',
    'usize is 64 bits wide; arithmetic overflow is a failed obligation, not wrapped; memory suffices; slices, Vecs and strings are at most isize::MAX long',
    DROPS,
]

def decide(prop, tier):
    r = {'status': 'none', 'level': 'other', 'why': 'no contracts for this property; bounded stand-in', 'failed': [], 'failed_text': '', 'coverage': {}, 'assumptions': []}
    try:
        build_extract()
        return _decide(prop, tier, r)
    except Exception as ex:   # the verifier could not be run at all: the bounded stand-in decides, and the evidence says so
        r.update(status='none', why='the deductive check could not run: %s' % str(ex)[:600])
        return r

def _decide(prop, tier, r):
    t0 = time.time()
    ebody, ext = set(), set()
    front = {}
    run = None
    nocompute = set()
    for rnd in range(10):
        run = Run('all', ebody, ext, nocompute=nocompute)
        if run.ran: break
        refuted = {sp['line_start'] for d in run.diags if 'simplifies to false' in d['message'] for sp in d['spans'] if sp['is_primary']} - nocompute
        if refuted: nocompute |= refuted; continue
        new = set()
        for dg in run.diags:
            f = dg['fn']
            if f and not f.startswith('derive:'):
                new.add(f); front.setdefault(f, dg['message'])
        if not new: break
        for f in new:
            if f in ebody: ext.add(f)
            else: ebody.add(f)
    decl = run.rep['properties'].get(prop)
    level = 'proof' if decl else 'other'
    r['level'] = level
    if not decl: return r
    if not run.ran:
        msg = '; '.join(d['message'] for d in run.diags[:3]) or run.raw[-300:]
        r.update(status='none', why='the verifier does not accept the extracted sources: ' + msg[:400])
        return r
    fns = run.rep['functions']
    ref = json.load(open(SPEC + '/reference.json'))
    direct = [k for k in decl if not k.startswith('lemma:')]
    missing = [k for k in direct if k not in fns and not (k.startswith('table:') and keys_of(k, run))]
    con = cone(direct, run.rep, run)
    newfns = {k for k in fns if k not in ref and not k.startswith('derive:') and not fns[k]['contract']}
    lemmas = [k for k, f in run.fns.items() if f['mode:'] != 'exec']
    units = set()
    for k in direct: units.update(keys_of(k, run))
    units |= {k for k in con if not k.startswith('derive:') and not fns[k]['trusted_by_spec'] and not fns[k]['external']}
    units |= {k for k, f in run.fns.items() if f['mode:'] == 'exec' and k.split('::')[-1] in ('eq', 'cmp', 'partial_cmp')}
    nobody = {k for k in units if k in fns and k not in run.fns and k in run.rep['functions'] and k not in ebody and k not in ext and not fns[k]['external_body']}
    # trait declarations have no body; everything else must have been looked at
    decls = {k for k in nobody if re.search(r'/\*@fn %s @\*/[^{]*?;\s*/\*@endfn@\*/' % re.escape(k), run.src, re.S)}
    units -= decls
    obl = sorted(units) + sorted(lemmas)
    bad = {}
    for k in obl:
        if k in ebody or k in ext: bad[k] = 'front: ' + front.get(k, '?')
        elif k not in run.fns: bad[k] = 'not verified (no body in the verifier run)'
        elif not run.fns[k]['success']: bad[k] = '; '.join(sorted({d['message'] for d in run.diags if k in (d['fn'], d.get('lemma'))})) or 'failed'
    # second opinion on failures: other seed, larger limit
    retry = {}
    for seed in (7, 23):
        still = [k for k in bad if k in run.fns and retry.get(k) != 'ok']
        if not still or time.time() - t0 > 300: break
        mods = sorted({run.fns[k]['module'] for k in still})
        args = ['--rlimit', '40', '--smt-option', 'smt.random_seed=%d' % seed]
        for m in mods: args += ['--verify-root'] if m in ('', 'root', 'crate') else ['--verify-only-module', m]
        r2 = Run('retry', ebody, ext, args=args, timeout=150, nocompute=nocompute)
        for k in still:
            f = r2.fns.get(k)
            if f and f['success']: retry[k] = 'ok'
            elif f:
                msgs = [d['message'] for d in r2.diags if k in (d['fn'], d.get('lemma'))]
                retry[k] = 'rlimit' if any('rlimit' in m for m in msgs) or not msgs else '; '.join(sorted(set(msgs)))
            else: retry.setdefault(k, 'no answer')   # the retry ran out of time: the first answer stands
        if not any(v in ('rlimit', 'no answer') for v in retry.values()): break
    for k, v in retry.items():
        if v == 'ok': bad.pop(k)
    definite, undecided = [], []
    for k in missing: undecided.append('%s: function not found' % k)
    directnames = set()
    for k in direct: directnames.update(keys_of(k, run))
    if decl:
        for k in [x for x in decl if x.startswith('lemma:')]:
            if not keys_of(k, run): undecided.append(k + ': lemma not checked')
    for k, m in sorted(bad.items()):
        probs = fns.get(k, {}).get('problems', [])
        news = sorted(c for c in cone([k], run.rep, run) if c in newfns) if k in fns else []
        if k not in directnames: undecided.append('%s (dependency): %s' % (k, m))
        elif m.startswith('front') or k not in run.fns: undecided.append('%s: %s' % (k, m))
        elif probs: undecided.append('%s: annotations could not be placed (%s)' % (k, '; '.join(probs)))
        elif news: undecided.append('%s: calls functions without contract (%s)' % (k, ', '.join(news)))
        elif 'rlimit' in m or retry.get(k) == 'rlimit': undecided.append('%s: solver limit' % k)
        else: definite.append(k)
    vac = None
    if tier == 'thorough':
        p = Run('probe', ebody, ext, probe=True, nocompute=nocompute)
        vac = {k: not p.fns[k]['success'] for k in units if k in p.fns and '/*@probe@*/' in p.src[p.src.find('/*@fn %s @*/' % k):p.src.find('/*@endfn@*/', p.src.find('/*@fn %s @*/' % k))]}
        for k, v in vac.items():
            if not v: undecided.append('%s: contract is vacuous (assert(false) was accepted at its entry)' % k)
    tb = trusted_scan(run.src)
    used = {k: run.fns[k] for k in obl if k in run.fns}
    cov = {
        'obligations': len(obl), 'discharged': len([k for k in obl if k not in bad]),
        'obligation_rule': 'one per function of the property (body against its contract: postconditions, callee preconditions, loop invariants, termination, overflow and bounds), per function they call inside the repository, and per lemma',
        'checker_cmd': ' '.join(run.cmd), 'back_end': 'Verus %s, Z3' % run.out.get('verus', {}).get('version', '?'),
        'property_functions': sorted(k for k in decl), 'functions_under_contract': sorted(units), 'lemmas': len(lemmas),
        'verifier_summary': {k: run.res.get(k) for k in ('verified', 'errors', 'success')},
        'solver_time_ms': sum(f['time'] for f in used.values()), 'solver_time_ms_by_function': {k: used[k]['time'] for k in sorted(units) if k in used}, 'rlimit_units': sum(f['rlimit'] for f in used.values()), 'verifier_wall_s': round(time.time() - t0, 1),
        'trusted_base': ['Verus and Z3', 'vstd contracts of the standard library', 'rustc, the standard library and num-bigint behave as their contracts say'] + ['assumed contract: ' + x for x in tb['assume_specification']] + ['trusted body: ' + x for x in tb['external_body'] if x not in fns or x in con] + ['assumed lemma: ' + x for x in tb['axiom']] + ['not looked at: ' + x for x in tb['external']] + ['opaque type: ' + x for x in tb['external_type_specification']] + ['assumption in text: ' + x for x in tb['admit_or_assume']],
        'extraction_dropped': run.rep['dropped'], 'rewrites': run.rep['rewrites'],
        'not_discharged': {k: m for k, m in bad.items()}, 'retried': retry,
    }
    if vac is not None: cov['vacuity_probes'] = {'functions': len(vac), 'assert_false_refused': sum(vac.values())}
    text = '\n'.join((d.get('rendered') or d['message']) for d in run.diags if d['fn'] in definite or d.get('lemma') in definite)
    r.update(coverage=cov, assumptions=ASSUME)
    if definite: r.update(status='failed', failed=definite, failed_text=text[:20000], why='failed obligations: ' + ', '.join(definite) + ('; undecided: ' + '; '.join(undecided) if undecided else ''))
    elif undecided or bad: r.update(status='undecided', why='; '.join(undecided)[:2000])
    else: r.update(status='proved', why='all obligations discharged')
    return r
