"""Specification harness: symbolic BigInteger arguments, result checks."""
import sys, time, traceback
sys.setrecursionlimit(50000)
from alg import *
from state import State, STATS
from interp import *
import interp

NMAX = (1 << 26) - 1          # limbs: every bit count then fits an int
U = 'std::vector<unsigned int, std::allocator<unsigned int>>'
UC = 'std::vector<unsigned char, std::allocator<unsigned char>>'
S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
IMAX = (1 << 31) - 1

class Big:
    """a symbolic canonical BigInteger argument"""
    def __init__(self, name, base, val, sign, n, arr, buf, st):
        self.name = name; self.base = base; self.val = val; self.sign = sign; self.n = n; self.arr = arr; self.buf = buf
        self.ptr = Ptr(base, ZERO)

class Ctx:
    """one case of one unit: initial state and arguments"""
    def __init__(self, m):
        self.m = m; self.st = State(); self.objs = {}; self.label = []
        self.st.ghost = {'watch': set()}
    def obj(self, name):
        base = ('o', ('arg', name)); self.st.alive.add(base)
        return Ptr(base, ZERO)
    def big(self, name, case):
        """case: 's' small, 's0','s+','s-' by sign, '+1','-1' one limb, '+n','-n' two or more limbs"""
        st = self.st; m = self.m
        base = ('o', ('arg', name)); st.alive.add(base)
        self.label.append('%s:%s' % (name, case))
        if case[0] == 's':
            lo, hi = {'s': (-IMAX, IMAX), 's+': (1, IMAX), 's-': (-IMAX, -1), 's0': (0, 0), 's1': (1, 1), 's-1': (-1, -1)}[case]
            v = const(lo) if lo == hi else fresh(name, lo, hi, 0)
            b = m.newbuf(st, ZERO, 4, [])
            st.cells[(base, 0)] = (4, v); st.cells[(base, 8)] = (24, Vec(b))
            o = Big(name, base, v, v, ZERO, None, b, st)
        else:
            sg = 1 if case[0] == '+' else -1
            if case[1] == '1': n = const(1)
            elif case[1].isdigit(): n = const(int(case[1:]))
            else: n = fresh(name + '.n', 2, NMAX, 0)
            arr = Arr(name, 32)
            b = m.newbuf(st, n, 4, [(ZERO, n, E(arr, BETA))])
            st.cells[(base, 0)] = (4, const(sg)); st.cells[(base, 8)] = (24, Vec(b))
            if case[1] == '1': st.assume_ge(E(arr, ZERO) - (1 << 31))
            else: st.assume_ge(E(arr, n - 1) - 1)
            o = Big(name, base, P(arr, n).scale(sg), const(sg), n, arr, b, st)
        o.cells = {k: v for k, v in st.cells.items() if k[0] == base}; o.bufv = st.bufs[b]
        self.objs[name] = o
        return o
    def vec(self, name, n=None, lo=0, hi=NMAX, w=4):
        st = self.st; m = self.m
        if n is None: n = fresh(name + '.n', lo, hi, 0)
        arr = Arr(name, 8 * w)
        base = ('o', ('arg', name)); st.alive.add(base)
        b = m.newbuf(st, n, w, [(ZERO, n, E(arr, BETA))])
        st.cells[(base, 0)] = (24, Vec(b))
        o = Big(name, base, P(arr, n), None, n, arr, b, st)
        o.cells = {(base, 0): st.cells[(base, 0)]}; o.bufv = st.bufs[b]
        self.objs[name] = o
        return o

class Check:
    """collects the outcome of the postconditions of one unit"""
    def __init__(self): self.items = []      # (category, ok, what, detail)
    def add(self, cat, ok, what, detail=None): self.items.append((cat, bool(ok), what, detail))

def cases(m, st, d):
    return m.split_ge(st, d)

def read_big(m, st, ptr):
    """[(state, value, problem)] of the object at ptr; problem: description when it is not canonical"""
    base = ptr.base
    c = st.cells.get((base, 0)); v = st.cells.get((base, 8))
    if c is None or v is None or not isinstance(v[1], Vec) or v[1].buf not in st.bufs: return [(st, None, 'no live object')]
    sg = c[1]
    if not isinstance(sg, Poly): return [(st, None, 'sign not initialised')]
    sg = m.sgn(st, sg, 32)
    buf = st.bufs[v[1].buf]
    out = []
    for nz, s1 in m.split_ge(st, buf.size - 1):
        if not nz:
            ok = s1.prove_ge(s1.norm(sg) + IMAX)
            out.append((s1, s1.norm(sg), None if ok else 'small value may be INT_MIN'))
            continue
        for ge2, s2 in m.split_ge(s1, buf.size - 2):
            for ps, s3 in m.split_ge(s2, s2.norm(sg) - 1):
                g = s3.norm(sg)
                e = const(1) if ps else const(-1)
                prob = None
                if not s3.prove_eq(g - e): prob = 'sign of a value with digits is not +-1'
                for s4, t, k in m.seg_find(s3, buf, s3.norm(buf.size - 1)):
                    top = s4.norm(inst_(t, buf, s4.norm(buf.size - 1)))
                    p2 = prob
                    if p2 is None:
                        if not s4.prove_ge(top - 1): p2 = 'leading digit may be zero'
                        elif not ge2 and not s4.prove_ge(top - (1 << 31)): p2 = 'single digit below 2^31 kept as an array'
                    val = m.seg_sum(s4, buf, ZERO, s4.norm(buf.size))
                    if val is None: out.append((s4, None, 'value of the digits not determined')); continue
                    out.append((s4, val * e, p2))
    return out

def unchanged(m, st, o):
    for k, v in o.cells.items():
        c = st.cells.get(k)
        if c is None: return 'released'
        if isinstance(v[1], Poly):
            if not isinstance(c[1], Poly) or not st.prove_eq(m.sgn(st, c[1], 32) - v[1]): return 'sign'
        elif c[1] != v[1]:
            b = st.bufs.get(c[1].buf)
            if b is None: return 'digits'
            if b != o.bufv and not samebuf(m, st, b, o.bufv): return 'digits'
    b = st.bufs.get(o.buf)
    if o.cells and any(isinstance(v[1], Vec) and st.cells[k][1] == v[1] for k, v in o.cells.items()):
        if b is None or (b is not o.bufv and b != o.bufv and not samebuf(m, st, b, o.bufv)): return 'digits'
    return None
def samebuf(m, st, a, b):
    if not st.prove_eq(a.size - b.size): return False
    x = m.seg_sum(st, a, ZERO, a.size); y = m.seg_sum(st, b, ZERO, a.size)
    return x is not None and y is not None and st.prove_eq(x - y)

class Unit:
    """a function under analysis. setup(ctx, case) -> (args, post) ; post(ctx, check, out) checks one outcome"""
    def __init__(self, name, fn, cases, setup, props):
        self.name = name; self.fn = fn; self.cases = cases; self.setup = setup; self.props = props
UNITS = {}
def unit(name, fn, cases, setup, props):
    UNITS[name] = Unit(name, fn, cases, setup, props)

def run_case(mod, contracts, u, case, debug=False, limit=None):
    """analyse one case; returns a plain dict"""
    m = Machine(mod, contracts)
    m.debug = debug
    m.deadline = time.time() + limit if limit else None
    t0 = time.time()
    ctx = Ctx(m); ck = Check()
    f = mod.find(u.fn)
    if f is None or f['decl']: return {'error': 'function %s not found' % u.fn, 'unit': u.name, 'case': str(case)}
    try:
        args, post = u.setup(ctx, case)
        m.stack_root = f
        m.record = True
        outs = m.exec_fn(ctx.st, f, args)
        for o in outs:
            if o.kind == 'ret': m.record = False
            post(ctx, ck, o)
            m.record = True
        ctx.outs = outs
        err = None
    except AnalysisError as e:
        if isinstance(e, Unrecognised) or any(not a.used for a in getattr(m, 'annots', ())): m.obs = {}; ck.items = []
        err = str(e) + (' [in %s]' % ' > '.join(x['demangled'].split('(')[0] for x in m.stack) if m.stack else '')
        if debug: traceback.print_exc()
        outs = []
    except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, NonAffine, RuntimeError, AssertionError, ZeroDivisionError) as e:
        err = 'internal: ' + ''.join(traceback.format_exception(e)[-3:])
        if debug: traceback.print_exc()
        outs = []
    if err and err.startswith('internal') and any(not a.used for a in getattr(m, 'annots', ())): m.obs = {}; ck.items = []
    fails = []
    for k, v in sorted(m.obs.items(), key=str):
        if v[1]: fails.append({'cat': k[0], 'file': k[1], 'line': k[2], 'fn': k[3], 'what': k[4], 'detail': str(v[2]['detail']), 'stack': v[2]['stack']})
    bad = [(c, w, str(d) if d is not None else None) for c, ok, w, d in ck.items if not ok]
    good = {}
    for c, ok, w, d in ck.items:
        if ok: good[c] = good.get(c, 0) + 1
    obc = {}
    for k, v in m.obs.items():
        obc[k[0]] = obc.get(k[0], 0) + 1
    return {'unit': u.name, 'case': '/'.join(ctx.label) or str(case), 'error': err, 'outs': len(outs), 'fails': fails, 'bad': bad, 'good': good, 'obs': obc,
            'functions': sorted(m.functions), 'loops': len(m.loopsites), 'loopsites': sorted(m.loopsites), 'time': time.time() - t0, 'ctx': ctx if debug else None, 'm': m if debug else None}

# ---------------------------------------------------------------- postcondition helpers
def dump(s):
    from alg import astr
    for k, v in s.sub.items(): print('   SUB', astr(k), '=', str(v)[:250])
    for n, cc in s.cons.items(): print('   ', str(n + cc)[:250], '>=0')
    print('   NEQ', [str(x)[:200] for x in s.neqs], 'bnd', {astr(k): v for k, v in s.bnd.items()})
def feasible(o):
    return not o.st.infeasible()

def expect_value(ctx, ck, o, ptr, val, what, cat='value'):
    """the object at ptr is canonical and has the value val (a poly, or a function of (state, value) -> bool)"""
    m = ctx.m
    for s, v, prob in read_big(m, o.st, ptr):
        if prob is not None and s.infeasible(): continue
        ck.add('canon', prob is None, '%s is canonical' % what, prob and '%s; %s' % (prob, show(s, ctx)))
        if v is None: ck.add(cat, False, '%s has a determined value' % what); continue
        if callable(val): ok = val(s, s.norm(v))
        else: ok = s.prove_eq(s.norm(v - val))
        if not ok and s.infeasible(): continue
        if not ok and m.debug: dump(s)
        ck.add(cat, ok, '%s has the specified value' % what, None if ok else 'got %s%s; %s' % (s.norm(v), '' if callable(val) else ' want %s' % s.norm(val), show(s, ctx)))
def expect_unchanged(ctx, ck, o, names):
    for nm in names:
        r = unchanged(ctx.m, o.st, ctx.objs[nm])
        if r is not None and o.st.infeasible(): continue
        ck.add('frame', r is None, 'operand %s is left unchanged' % nm, r)
def expect_kept(ctx, ck, o, frame):
    """after an exception: every object as before (the operands in frame would have to stay as they are anyway)"""
    for nm, x in ctx.objs.items():
        r = unchanged(ctx.m, o.st, x)
        if r is not None and o.st.infeasible(): continue
        ck.add('keep', r is None, 'operation that throws leaves %s unchanged' % nm, r)
        if nm in frame: ck.add('frame', r is None, 'operand %s is left unchanged' % nm, r)
def show(s, ctx):
    return 'where ' + ', '.join('%s=%s' % (k, s.norm(v.val)) for k, v in ctx.objs.items() if v.val is not None)[:600]
def throws(ctx, ck, o, allowed=(), what='no exception'):
    """o is a throw: allowed = list of (exception name, condition)"""
    for name, cond in allowed:
        if o.val == name and (cond is None or cond(o.st)):
            ck.add('throw', True, 'exception as specified'); return
    if o.st.infeasible(): return
    ck.add('throw', False, what, 'throws %s at %s; %s' % (o.val, loc(o.where) if isinstance(o.where, dict) else '?', show(o.st, ctx)))
def truth(m, st, v):
    """[(state, bool)] of an i1 / i8 value"""
    if isinstance(v, bool): return [(st, v)]
    if isinstance(v, Poly):
        return [(s, not t) for t, s in m.split_eq(st, v)]
    raise AnalysisError('truth value %s' % (v,))
def expect_pred(ctx, ck, o, ptr, pred, what, cat='value'):
    """the object at ptr is canonical and pred(state, value) returns None"""
    m = ctx.m
    for s, v, prob in read_big(m, o.st, ptr):
        if prob is not None and s.infeasible(): continue
        ck.add('canon', prob is None, '%s is canonical' % what, prob and '%s; %s' % (prob, show(s, ctx)))
        if v is None: ck.add(cat, False, '%s has a determined value' % what); continue
        e = pred(s, s.norm(v))
        if e and s.infeasible(): continue
        if e and m.debug: dump(s)
        ck.add(cat, e is None, '%s is as specified' % what, e and '%s: got %s; %s' % (e, s.norm(v), show(s, ctx)))
