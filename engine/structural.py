"""Structural rules over the whole linked program (C19) and over the Python bindings (C24, C25).
Each check: js -> {'obligations', 'discharged', 'violations': [(key, text, record)], 'functions', 'samples', 'undecided', 'cases'}"""
import json, os, re, subprocess
import extract

CHECKS = {}
def check(prop):
    def d(f): CHECKS.setdefault(prop, []).append(f); return f
    return d
_cache = {}
def load(js):
    if js not in _cache: _cache[js] = json.load(open(js))
    return _cache[js]
def relf(f): return os.path.relpath(f, extract.REPO) if f and f.startswith('/') else (f or '?')
class Report:
    def __init__(self): self.n = 0; self.ok = 0; self.v = []; self.und = []; self.fns = set(); self.samples = []
    def add(self, ok, key, text, rec=None):
        self.n += 1
        if ok: self.ok += 1
        else: self.v.append((key, text, rec or {}))
    def out(self): return {'obligations': self.n, 'discharged': self.ok, 'violations': self.v, 'functions': self.fns, 'samples': self.samples, 'undecided': self.und}

# ---------------------------------------------------------------- C19: no shared mutable state
# library and run-time functions whose result depends on their arguments only
PURE = re.compile(r'^(llvm\..*|__cxa_(begin_catch|end_catch|rethrow|throw|allocate_exception|free_exception|bad_cast|throw_bad_array_new_length|pure_virtual|guard_(acquire|release|abort))|__assert_fail|abort|'
                  r'mem(cpy|cmp|move|set|chr)|strlen|strcmp|strncmp|strcpy|strncpy|malloc|free|calloc|realloc|__gxx_personality_v0|_Unwind_Resume|__clang_call_terminate|'
                  r'nan|nanf|log|log2|log10|log1p|exp|exp2|pow|sqrt|floor|ceil|trunc|round|fabs|fmod|ldexp|scalbn|frexp|modf|copysign|isnan|isinf|ilogb|logb|fma|abs|labs|llabs|div|ldiv|lldiv|'
                  r'_Znwm|_Znam|_ZdlPv|_ZdaPv|_ZdlPvm|_ZdaPvm|_ZSt9terminatev|_ZSt\d+__throw_.*|__atexit_.*|__dso_handle)$')
# functions that read or write state shared by the whole process or thread
STATE = re.compile(r'^(s?rand|rand_r|s?random|[de]rand48|[jlmn]rand48|setlocale|newlocale|uselocale|localeconv|nl_langinfo|getenv|setenv|putenv|unsetenv|strtok|time|clock|clock_gettime|gettimeofday|localtime|gmtime|'
                   r'fe(set|get)round|feholdexcept|fesetenv|feupdateenv|feclearexcept|feraiseexcept|fetestexcept|isspace|isalpha|isalnum|isupper|islower|ispunct|toupper|tolower|strcoll|strxfrm|'
                   r'strtod|strtof|strtold|atof|sscanf|scanf|fopen|fclose|fread|fwrite|fgets|fputs|puts|printf|fprintf|putchar|read|write|open|getpid|gettid|pthread_self|pthread_getspecific|pthread_setspecific|signal|sigaction|'
                   r'__errno_location|srandom|mbstowcs|wcstombs|mbrtowc|setjmp|longjmp|atexit|system)$')
STATECPP = re.compile(r'std::(locale|ios_base|basic_ios|(basic_)?([io]|io)?stringstream|(basic_)?[io]?o?stream|basic_ostream|basic_istream|cout|cin|cerr|clog|random_device|chrono::_V2::\w+::now|use_facet|__basic_file)|std::__cxx11::(basic_)?[io]?stringstream|std::ostream& |std::istream& ')
MUTABLE_OK = re.compile(r'^(_ZTV|_ZTI|_ZTS|__dso_handle$|_ZGV|DW\.ref\.|_ZStL8__ioinit$|__tls_guard$|__gxx_personality)')
IGNORE_CTOR = re.compile(r'^(__cxx_global_var_init|_GLOBAL__sub_I_)')

@check('C19')
def c19(js):
    d = load(js); R = Report()
    defined = {f['name']: f for f in d['functions'] if f.get('blocks')}
    own = {n for n, f in defined.items() if (f.get('file') or '').startswith(extract.REPO)}
    R.fns |= {defined[n]['demangled'] for n in own}
    guards = {}
    for g in d['globals']:
        if g['name'].startswith('_ZGV'): guards[g['name'][4:]] = g
    users = {}
    for g in d['globals']:
        name = g['name']
        if name.startswith('llvm.'): continue
        if g['const'] and not g['tls']: R.add(True, '', ''); continue
        if MUTABLE_OK.match(name): R.add(True, '', ''); continue
        where = '%s:%s' % (relf(g.get('file')), g.get('line', '?'))
        us = sorted({x for x in g['users']})
        usd = ', '.join(sorted({defined[x]['demangled'].split('(')[0] for x in us if x in defined})[:4]) or 'no function'
        if g['decl']:
            R.add(not us, 'global|' + name, 'the mutable object %s of another component is used by %s' % (g['demangled'], usd), {'global': name, 'users': us}); continue
        gd = guards.get(name[2:] if name.startswith('_Z') else name)
        if g.get('consttype') and gd is not None and not g['tls']:
            bad = None
            for fn in {x for x in gd['users'] if x in defined}:
                bad = bad or init_depends(defined[fn], gd['name'], name)
            R.add(bad is None, 'init|' + name, 'the function-local constant %s (%s) is initialised from the operands of the first call: %s' % (g['demangled'], where, bad), {'global': name})
            continue
        if g.get('consttype') and not g['tls']:
            R.add(False, 'dyninit|' + name, 'the constant %s (%s), used by %s, is initialised dynamically: a call made earlier during static initialisation reads it uninitialised' % (g['demangled'], where, usd), {'global': name, 'users': us}); continue
        R.add(False, 'global|' + name, 'the %s object %s (%s) outlives a call and is used by %s' % ('thread-local' if g['tls'] else 'mutable static', g['demangled'], where, usd), {'global': name, 'users': us})
    for n in own:
        f = defined[n]
        for b in f['blocks']:
            for i in b:
                if i['op'] not in ('call', 'invoke'): continue
                c = i['callee']
                if c[0] != 'fn':
                    if c[0] == 'asm': R.und.append({'function': f['demangled'], 'reason': 'inline assembly'})
                    continue
                if c[1] in defined: continue
                dm = demangle(c[1])
                site = '%s:%s' % (relf(i.get('file')), i.get('line'))
                if STATE.match(c[1]) or STATECPP.search(dm):
                    R.add(False, 'call|%s|%s' % (f['demangled'].split('(')[0], c[1]), '%s calls %s at %s, which depends on state shared by the process' % (f['demangled'].split('(')[0], dm[:80], site), {'function': f['demangled'], 'callee': dm})
                elif PURE.match(c[1]) or re.match(r'^(std::(__cxx11::basic_string|allocator|exception|runtime_error|overflow_error|out_of_range|logic_error|invalid_argument|domain_error|range_error|length_error|underflow_error|bad_alloc|vector)|operator (new|delete))', dm): R.add(True, '', '')
                else: R.add(True, '', ''); R.und.append({'function': f['demangled'][:80], 'reason': 'callee not classified: ' + dm[:80]})
    # library code pulled in by the sources (templates) is followed through the same classification of its external callees
    reach = set(); todo = list(own)
    calls = {n: {i['callee'][1] for b in f['blocks'] for i in b if i['op'] in ('call', 'invoke') and i['callee'][0] == 'fn'} for n, f in defined.items()}
    while todo:
        n = todo.pop()
        if n in reach: continue
        reach.add(n); todo += [x for x in calls.get(n, ()) if x in defined]
    for n in sorted(reach - own):
        for c in calls[n]:
            if c in defined: continue
            dm = demangle(c)
            R.add(not (STATE.match(c) or STATECPP.search(dm)), 'call|%s|%s' % (n, c), '%s, instantiated by the library, calls %s, which depends on state shared by the process' % (defined[n]['demangled'].split('(')[0][:80], dm[:80]), {'function': n, 'callee': c})
    R.samples.append({'globals': len(d['globals']), 'functions': len(own), 'external callees': len({c for n in reach for c in calls[n] if c not in defined})})
    return R.out()

def init_depends(f, guard, gname):
    """the initialiser of a function-local constant uses an argument of the function: description, or None"""
    acq = rel = None
    blocks = f['blocks']
    for n, b in enumerate(blocks):
        for i in b:
            if i['op'] in ('call', 'invoke') and i['callee'][0] == 'fn' and i['callee'][1] in ('__cxa_guard_acquire', '__cxa_guard_release') and guard in json.dumps(i['ops']):
                if i['callee'][1].endswith('acquire'): acq = n
                else: rel = n
    if acq is None or rel is None: return 'initialisation code not recognised'
    # blocks on paths acquire -> release
    sx = {n: targets(b) for n, b in enumerate(blocks)}
    fwd = set(); todo = list(sx[acq])
    while todo:
        n = todo.pop()
        if n in fwd: continue
        fwd.add(n)
        if n != rel: todo += sx[n]
    pred = {}
    for n, ss in sx.items():
        for s in ss: pred.setdefault(s, set()).add(n)
    back = set(); todo = [rel]
    while todo:
        n = todo.pop()
        if n in back or n == acq: continue
        back.add(n); todo += pred.get(n, ())
    region = fwd & back
    args = {a['id'] for a in f['args']}
    tainted = set(args); slots = set()
    for _ in range(20):
        n0 = len(tainted) + len(slots)
        for b in blocks:
            for i in b:
                ops = [o[1] for o in i.get('ops', ()) if isinstance(o, list) and o and o[0] == 'v']
                if i['op'] == 'store':
                    if ops and i['ops'][0][0] == 'v' and i['ops'][0][1] in tainted and i['ops'][1][0] == 'v': slots.add(i['ops'][1][1])
                elif any(o in tainted for o in ops) or (i['op'] == 'load' and ops and ops[0] in slots):
                    if 'id' in i: tainted.add(i['id'])
        if len(tainted) + len(slots) == n0: break
    for n in region:
        for i in blocks[n]:
            ops = [o[1] for o in i.get('ops', ()) if isinstance(o, list) and o and o[0] == 'v']
            if i['op'] in ('store', 'call', 'invoke', 'load') and any(o in tainted or o in slots for o in ops):
                return '%s:%s' % (relf(i.get('file')), i.get('line'))
    return None
def targets(b):
    t = b[-1]; r = [o[1] for o in t.get('ops', ()) if isinstance(o, list) and o and o[0] == 'b']
    r += [t[k] for k in ('normal', 'unwind', 'default') if isinstance(t.get(k), int)]
    return r + [x[1] for x in t.get('cases', ())]
_dm = {}
def demangle(n):
    if n not in _dm:
        _dm[n] = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip() or n if n.startswith('_Z') else n
    return _dm[n]

@check('C24')
def c24(js):
    import bindings
    return bindings.c24(js)
@check('C25')
def c25(js):
    import bindings
    return bindings.c25(js)
