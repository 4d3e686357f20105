"""check.py PROPERTY: extract /repo's current sources, analyse every unit the property depends on, report.
exit 0: every obligation that could be decided holds (undecided ones are listed in the evidence); exit 1: violation; exit 2: no answer."""
import sys, os, time, json, shutil, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
VERIF = extract.VERIF
EVID = os.path.join(VERIF, 'evidence')
CMD = 'python3 engine/check.py %s'
TRUSTED = ['clang 18 front end (source -> LLVM IR, -O1 with passes disabled)', 'engine/irexport.cpp (IR -> JSON)',
           'engine: abstract domain, loop summaries and the exact rational LP of lp.cpp', 'models of the C++ standard library in engine/stl.py',
           'engine/units.py, kernels.py, contracts.py: the specifications']

# a failing obligation of a category counts against these properties, besides the properties of the unit it occurs in
CROSS = {'mem': ['C01'], 'init': ['C01', 'C20'], 'pre': ['C01'], 'crash': ['C01'], 'ub': ['C20'], 'assert': ['C20'], 'div0': ['C20', 'C06'], 'term': ['C22'],
         'canon': ['C02'], 'leak': ['C26'], 'global': ['C19'], 'throw': ['C21'], 'frame': ['C18'], 'keep': ['C21']}
NOTOWN = {'leak', 'global'}                       # do not count against the properties of the unit itself
CROSSPROPS = {p for v in CROSS.values() for p in v}

KPROPS = {}
def kernel_props():
    """a kernel unit counts for every property whose public operations can call the kernel (call graph of the current tree)"""
    import spec
    calls = {}
    for n, f in MOD.fns.items():
        c = calls.setdefault(n, set())
        for b in f.get('blocks', ()):
            for i in b:
                if i['op'] in ('call', 'invoke') and i['callee'][0] == 'fn': c.add(i['callee'][1])
    reach = {}
    for u in spec.UNITS.values():
        if u.name.startswith('k.'): continue
        f = MOD.defined(u.fn)
        if f is None: continue
        if f['name'] not in reach:
            seen = {f['name']}; todo = [f['name']]
            while todo:
                for y in calls.get(todo.pop(), ()):
                    if y not in seen: seen.add(y); todo.append(y)
            reach[f['name']] = seen
        for k in spec.UNITS.values():
            if k.name.startswith('k.'):
                g = MOD.defined(k.fn)
                if g is not None and g['name'] in reach[f['name']]: KPROPS.setdefault(k.name, set()).update(u.props)
def props_of(u): return list(u.props) + list(KPROPS.get(u.name, ()))
def is_alias(case): return any(str(c).startswith('=') for c in (case if isinstance(case, tuple) else (case,)))
WIP = set()
def relevant(prop, u, case):
    if u.name in WIP: return False
    if u.name.startswith('py.'): return prop == 'C25'
    if prop == 'C17': return is_alias(case)
    if prop in props_of(u): return True
    if prop in CROSSPROPS:
        if prop == 'C06': return 'C05' in props_of(u)
        if prop == 'C21': return 'C05' in props_of(u) or 'C14' in props_of(u) or 'C07' in props_of(u)
        return True
    return False
def counts(prop, u, case, cat):
    """does a failed obligation of this category, in this case of this unit, break the property?"""
    if prop == 'C17': return is_alias(case) and cat not in ('leak', 'global')
    if prop == 'C18' and cat == 'frame': return True
    if cat == 'keep': return prop == 'C21'
    if prop == 'C06': return cat == 'div0' or cat == 'throw' and ('C05' in props_of(u) or 'C06' in props_of(u))
    if prop in CROSS.get(cat, ()): return True
    return prop in props_of(u) and cat not in NOTOWN

MOD = None
def job(t):
    import spec, contracts, units, kernels, units2, units3, units4, units5, units6
    name, i, limit = t
    u = spec.UNITS[name]
    r = spec.run_case(MOD, contracts.TABLE, u, u.cases[i], limit=limit)
    r['idx'] = i
    for k in ('ctx', 'm'): r.pop(k, None)
    return r

def findings_file():
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l.split(' :: ')[0].split()[1:] if '=' in x)
                d['text'] = l.split(' :: ', 1)[1].strip() if ' :: ' in l else ''
                r.append(d)
    return r

def write_evidence(prop, tier, level, coverage, t0):
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, prop + '.json')
    d = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': coverage, 'wall_s': round(time.time() - t0, 2)}
    with open(p + '.tmp', 'w') as f: json.dump(d, f, indent=1, default=str)
    os.replace(p + '.tmp', p)

def run_units(prop, tier, js, budget):
    """analyse all relevant cases; returns (results, unit table)"""
    global MOD
    from multiprocessing import Pool
    from interp import Module
    import spec, units, kernels, units2, units3, units4, units5, units6
    MOD = Module(js)
    kernel_props()
    tasks = []; missing = []
    for n, u in spec.UNITS.items():
        if MOD.defined(u.fn) is None:
            if any(relevant(prop, u, c) for c in u.cases): missing.append(u.fn)
            continue
        for i, c in enumerate(u.cases):
            if relevant(prop, u, c): tasks.append((n, i))
    tasks.sort(key=lambda t: -COST.get(t[0], 0))
    res = []
    if tasks:
        end = time.time() + budget
        lim = min(budget, 300 if tier == 'quick' else 1200)
        with Pool(min(8, os.cpu_count() or 1)) as p:
            it = p.imap_unordered(job, [(n, i, lim) for n, i in tasks], chunksize=1)
            for _ in tasks:
                left = end - time.time()
                try: res.append(it.next(max(left, 0.01)))
                except Exception as e:
                    if type(e).__name__ == 'TimeoutError': break
                    res.append({'unit': '?', 'case': '?', 'idx': -1, 'error': 'internal: %s' % e, 'fails': [], 'bad': [], 'good': {}, 'obs': {}, 'functions': [], 'loops': 0, 'time': 0})
            p.terminate()
    done = {(r['unit'], r['idx']) for r in res}
    for n, i in tasks:
        if (n, i) not in done:
            res.append({'unit': n, 'case': str(spec.UNITS[n].cases[i]), 'idx': i, 'error': 'time budget used up', 'fails': [], 'bad': [], 'good': {}, 'obs': {}, 'functions': [], 'loops': 0, 'time': 0})
    return res, missing
COST = {'k.multiply': 9, 'k.square': 9, 'div_rem': 5, 'k.divide': 7, 'op/': 4, 'op%': 4}

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    level = 'proof' if prop not in PARTIAL else 'other'
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    viol = []; known = []; cov = {}
    try:
        js = extract.extract(tmp, bindings=prop == 'C25')
        import spec
        kf = [d for d in findings_file() if d.get('property') == prop]
        def report(key, text, rec):
            for d in kf:
                if d.get('key') == key: known.append((d, text)); return
            viol.append((key, text, rec))
        n_ob = n_ok = 0; und = []; fns = set(); loops = set(); ncase = 0; samples = []; missing = []
        mods = structural_checks(prop)
        for fn in mods:
            r = fn(js)
            n_ob += r['obligations']; n_ok += r['discharged']; ncase += r.get('cases', 0); fns |= set(r.get('functions', ()))
            for key, text, rec in r['violations']: report(key, text, rec)
            und += r.get('undecided', [])
            samples += r.get('samples', [])[:4]
        res, missing = run_units(prop, tier, js, 780 if tier == 'quick' else 6000)
        for r in res:
            u = spec.UNITS.get(r['unit'])
            if u is None: und.append({'unit': r['unit'], 'reason': r['error']}); continue
            case = u.cases[r['idx']]
            ncase += 1; fns |= set(r['functions']); loops |= set(map(str, r.get('loopsites', ())))
            if r['error']: und.append({'unit': r['unit'], 'case': r['case'], 'reason': r['error'].strip()[-300:]})
            g = sum(v for c, v in r['good'].items() if counts(prop, u, case, c))
            f = {}
            for x in r['fails']:
                if counts(prop, u, case, x['cat']): f.setdefault((x['cat'], x['what'], x['fn'], x['file'], x['line']), x)
            o = sum(v for c, v in r['obs'].items() if counts(prop, u, case, c))
            b = [x for x in r['bad'] if counts(prop, u, case, x[0])]
            n_ob += g + o + len(b); n_ok += g + o - len(f)
            for x in f.values():
                report('%s|%s|%s|%s' % (r['unit'], x['cat'], x['what'], x['fn'].split('(')[0]),
                       '%s: %s not established at %s:%s in %s, analysing %s [%s]: %s' % (x['cat'], x['what'], os.path.relpath(x['file'], extract.REPO) if x['file'].startswith('/') else x['file'], x['line'], x['fn'].split('(')[0], u.fn, r['case'], x['detail'][:300]),
                       {'unit': r['unit'], 'case': r['case'], **x})
            for c, w, d in b:
                report('%s|%s|%s|%s' % (r['unit'], c, w, u.fn.split('(')[0]), '%s: %s does not hold for %s [%s]: %s' % (c, w, u.fn, r['case'], (d or '')[:400]), {'unit': r['unit'], 'case': r['case'], 'cat': c, 'what': w, 'detail': d, 'fn': u.fn})
            if len(samples) < 12 and not r['error'] and r['idx'] % 7 == 1: samples.append({'unit': r['unit'], 'case': r['case'], 'paths': r['outs'], 'obligations': o + g, 'loops': r['loops']})
        if n_ob == 0 and not viol:
            print('ERROR: no obligation of %s could be decided: %s' % (prop, und[:3])); 
            level2 = 'other'
        cov = {'obligations': n_ob, 'discharged': n_ok, 'checker_cmd': CMD % prop, 'trusted_base': TRUSTED,
               'cases_analysed': ncase, 'functions_analysed': sorted(x[:160] for x in fns), 'loops_summarised': sorted(loops), 'undecided': und[:200], 'undecided_count': len(und),
               'functions_absent': missing, 'samples': samples or ['none'],
               'known_findings': [d.get('key') for d, t in known],
               'rule': 'every obligation (memory bound, initialisation, arithmetic definedness, termination measure, post-condition) generated by the abstract interpretation of the functions listed, over all operands of the representation classes of the cases, is discharged',
               'explanation': EXPL.get(prop, 'abstract interpretation of the LLVM IR of /repo/src over symbolic operands of unbounded size; see DESIGN.md')}
        write_evidence(prop, tier, level, cov, t0)
    except extract.ExtractError as e:
        print('ERROR: %s' % e); shutil.rmtree(tmp, ignore_errors=True); sys.exit(2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for d, t in known: print('KNOWN-FINDING: property=%s %s' % (prop, d['text'] or t))
    if viol:
        rp = os.path.join(EVID, '%s.violations.json' % prop)
        with open(rp, 'w') as f: json.dump([{'key': k, 'text': t, 'record': r} for k, t, r in viol], f, indent=1, default=str)
        for k, t, r in viol[:25]: print('  ' + t)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    rp = os.path.join(EVID, '%s.violations.json' % prop)
    if os.path.exists(rp): os.remove(rp)
    print('%s: %d of %d obligations discharged in %d cases, %d undecided cases, %.1f s' % (prop, n_ok, n_ob, ncase, len(und), time.time() - t0))
    for x in und[:5]: print('   undecided: %s' % str(x)[:220])
    sys.exit(2 if n_ob == 0 else 0)

EXPL = {}
PARTIAL = {'C01', 'C06', 'C21', 'C02', 'C17', 'C18', 'C20', 'C22', 'C26'}          # properties for which some inputs or functions stay outside what is proved (DESIGN.md)
def structural_checks(prop):
    try: import structural
    except ImportError: return []
    return structural.CHECKS.get(prop, [])
if __name__ == '__main__': main()
