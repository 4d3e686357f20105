"""Further public operations: conversions, shifts, bit operations, byte arrays, queries."""
from spec import *
from interp import AnalysisError
from units import *
from units import unit, simple, leak, B, BIGCASES, ABSCASES, pairs

def conv(name, fn, w, signed):
    """integer conversion: exact when representable, std::overflow_error otherwise"""
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    def setup(ctx, case):
        a = ctx.big('x', case)
        def post(ctx, ck, o):
            if o.kind == 'throw':
                def out(s):
                    return s.prove_ge(s.norm(a.val - (hi + 1))) or s.prove_ge(s.norm(-a.val + (lo - 1)))
                throws(ctx, ck, o, [('std::overflow_error', out)], 'throws exactly when the value is not representable')
                if not o.st.infeasible(): expect_kept(ctx, ck, o, ['x']); leak(ctx, ck, o)
                return
            s = o.st
            v = ctx.m.sgn(s, o.val, w) if signed else ctx.m.uns(s, o.val, w)
            ok = s.prove_eq(s.norm(v - a.val))
            if not ok and s.infeasible(): return
            if not ok and ctx.m.debug: dump(s)
            ck.add('value', ok, 'converted value', None if ok else 'got %s; %s' % (s.norm(v), show(s, ctx)))
            expect_unchanged(ctx, ck, o, ['x']); leak(ctx, ck, o)
        return [a.ptr], post
    unit(name, fn, ['s+', 's-', 's0', '+1', '-1', '+2', '-2', '+n', '-n'], setup, ('C14',))
conv('to.int', B + 'operator int()', 32, True); conv('to.uint', B + 'operator unsigned int()', 32, False)
conv('to.long', B + 'operator long()', 64, True); conv('to.ulong', B + 'operator unsigned long()', 64, False)

# ---------------------------------------------------------------- construction from digit arrays
from contracts import U, C
import stl
def vecarg(ctx, name, case, w=4):
    st = ctx.st
    n = {'empty': ZERO, 'one': const(1), 'pos': None, 'neg': None, 'any': None}[case]
    if n is None: n = fresh(name + '.n', 1, NMAX, 0)
    o = ctx.vec(name, n, w=w)
    if case == 'pos': st.assume_ge(-E(o.arr, n - 1) + ((1 << (8 * w - 1)) - 1))
    if case == 'neg': st.assume_ge(E(o.arr, n - 1) - (1 << (8 * w - 1)))
    ctx.label.append('%s:%s' % (name, case))
    return o
def c_signed(ctx, case):
    r = ctx.obj('ret'); o = vecarg(ctx, 'value', case)
    v = o.val - (exp2(o.n.scale(32)) if case == 'neg' else ZERO)
    ctx.extern = {ctx.st.cells[(o.base, 0)][1].buf}; own = dict(ctx.objs); ctx.objs.clear()
    return [r, o.ptr], simple(ctx, r, v, ())
unit('ctor.digits', B + 'BigInteger(%s)' % U, ['empty', 'pos', 'neg'], c_signed, ('C09', 'C10'))
def c_magn(ctx, case):
    r = ctx.obj('ret'); o = vecarg(ctx, 'value', case[0])
    v = o.val.scale(-1 if case[1] == 'neg' else 1)
    ctx.objs.clear()
    return [r, o.ptr, const(1 if case[1] == 'neg' else 0)], simple(ctx, r, v, ())
unit('ctor.magnitude', B + 'BigInteger(%s, bool)' % U, [(a, b) for a in ('empty', 'any') for b in ('pos', 'neg')], c_magn, ('C10',))
def c_parts(ctx, case):
    a = ctx.big('x', case); r = ctx.obj('ret')
    st = ctx.st; b = ('o', ('arg', 'digits')); st.alive.add(b)
    st.cells[(b, 0)] = st.cells[(a.base, 8)]
    for k in [k for k in st.cells if k[0] == a.base]: del st.cells[k]
    ctx.objs.clear()
    return [r, a.sign, Ptr(b, ZERO)], simple(ctx, r, a.val, ())
unit('ctor.parts', B + 'BigInteger(int, %s)' % U, list(BIGCASES), c_parts, ('C23',))

def vec_value(ctx, ck, o, ptr, what):
    """[(state, size, digits buffer, value)] of a returned vector"""
    bid, buf = stl.bufof(ctx.m, o.st, ptr, {})
    v = ctx.m.seg_sum(o.st, buf, ZERO, o.st.norm(buf.size))
    if v is None: ck.add('value', o.st.infeasible(), '%s has a determined value' % what)
    return buf, v
def u_touint(ctx, case):
    a = ctx.big('x', case); r = ctx.obj('ret')
    def post(ctx, ck, o):
        if o.kind != 'ret': return throws(ctx, ck, o)
        m = ctx.m
        neg = '-' in case
        bid, buf = stl.bufof(m, o.st, r, {})
        for nz, s in m.split_ge(o.st, buf.size - 1):
            if not nz:
                ck.add('value', s.prove_eq(s.norm(a.val)) or s.infeasible(), 'empty only for zero'); continue
            v = m.seg_sum(s, buf, ZERO, s.norm(buf.size))
            if v is None: ck.add('value', s.infeasible(), 'digits have a determined value'); continue
            want = a.val + (exp2(s.norm(buf.size).scale(32)) if neg else ZERO)
            if not (s.prove_ge(s.norm(a.n + 1 - buf.size)) if a.arr is not None else s.prove_eq(s.norm(buf.size) - 1)) and not s.infeasible() or case == 's0' and not s.infeasible():
                raise AnalysisError('size of the digit sequence outside what the callers\' analysis assumes')
            ok = s.prove_eq(s.norm(v - want)) or s.infeasible()
            if not ok and m.debug: dump(s)
            ck.add('value', ok, "two's-complement digits", None if ok else 'got %s want %s' % (s.norm(v), s.norm(want)))
            for s2, t, k in m.seg_find(s, buf, s.norm(buf.size - 1)):
                top = s2.norm(inst_(t, buf, s2.norm(buf.size - 1)))
                ok = s2.prove_ge(top - (1 << 31) if neg else -top + ((1 << 31) - 1)) or s2.infeasible()
                if not ok and m.debug: dump(s2)
                ck.add('value', ok, 'top bit is the sign', None if ok else str(top))
        expect_unchanged(ctx, ck, o, ['x']); leak(ctx, ck, o)
    return [r, a.ptr], post
unit('to_uint32', B + 'to_uint32_array() const', list(ABSCASES), u_touint, ('C09',))
TWOS = 'NumericsHelpers::dangerous_make_twos_complement(%s&)' % U
def k_twos(ctx, case):
    n = ZERO if case == 'empty' else fresh('n', 1, NMAX, 0)
    o = ctx.vec('d', n)
    if case == 'zero':
        b = ctx.st.bufs[o.buf]; ctx.st.bufs[o.buf] = Buf(b.size, b.w, ((ZERO, n, ZERO),), b.kind)
    if case == 'nonzero': ctx.st.assume_ge(o.val - 1)
    def post(ctx, ck, o2):
        if o2.kind != 'ret': return throws(ctx, ck, o2)
        bid, buf = stl.bufof(ctx.m, o2.st, o.ptr, {})
        v = ctx.m.seg_sum(o2.st, buf, ZERO, o2.st.norm(n))
        want = exp2(n.scale(32)) - o.val if case == 'nonzero' else ZERO
        ok = v is not None and o2.st.prove_eq(o2.st.norm(v - want)) and o2.st.prove_eq(buf.size - n) or o2.st.infeasible()
        ck.add('value', ok, "two's complement", None if ok else 'got %s want %s' % (v, want))
    return [o.ptr], post
unit('k.twos', TWOS, ['empty', 'zero', 'nonzero'], k_twos, ())

# ---------------------------------------------------------------- shifts
SH = ['0', 'min', 'zero'] 
def shiftunit(name, fn, left, free):
    """case (operand, direction, small): count = +-(32 d + small) with d unbounded"""
    def setup(ctx, case):
        ca, dr, s = case
        a = ctx.big('x', ca)
        ctx.label.append('%s%s' % (dr, s))
        if dr == 'min': k = const(-(1 << 31))
        else:
            lim = (1 << 31) - 1
            k = fresh('d', 0, (lim - s) // 32, 0).scale(32) + s
            if s == 0: ctx.st.assume_ge(k - 32)
            if dr == '-': k = -k
            if dr == '0': k = ZERO
        r = ctx.obj('ret') if free else a.ptr
        L = k if left else -k
        def pred(s_, v):
            if dr == 'min':       # by 2^31 bits to the right, of an integer with less than 2^31 bits
                w = -1 if ca in ('s-', '-1', '-n') else 0
                return None if s_.prove_eq(s_.norm(v) - w) or s_.infeasible() else 'not %d' % w
            for up, s2 in ctx.m.split_ge(s_, L):
                if up:
                    if not s2.prove_eq(s2.norm(v - a.val * exp2(s2.norm(L)))) and not s2.infeasible(): return 'not x*2^k: want %s' % s2.norm(a.val * exp2(s2.norm(L)))
                else:
                    e = exp2(s2.norm(-L))
                    if e is None: return 'count too large for the analysis'
                    d = s2.norm(a.val - s2.norm(v) * e)
                    if not (s2.prove_ge(d) and s2.prove_ge(s2.norm(e - 1 - d))) and not s2.infeasible(): return 'not floor(x/2^k): difference %s' % d
            return None
        def post(ctx, ck, o):
            if o.kind != 'ret': return throws(ctx, ck, o)
            expect_pred(ctx, ck, o, r, pred, 'shifted value'); leak(ctx, ck, o)
        return ([r] if free else []) + [a.ptr, k], post
    cs = [(c, dr, s) for c in ABSCASES for dr in '+-' for s in range(32)] + [(c, '0', 0) for c in ABSCASES] + [(c, 'min', 0) for c in ABSCASES if left or c == 's0']
    unit(name, fn, cs, setup, ('C10',))
shiftunit('op<<=', B + 'operator<<=(int)', True, False); shiftunit('op>>=', B + 'operator>>=(int)', False, False)
shiftunit('op<<', 'operator<<(BigInteger, int)', True, True); shiftunit('op>>', 'operator>>(BigInteger, int)', False, True)

# ---------------------------------------------------------------- a zero modulus, a negative exponent
def modpow0(ctx, case):
    a = ctx.big('value', case[0]); e = ctx.big('exponent', case[1]); z = ctx.big('modulus', 's0')
    def post(ctx, ck, o):
        if o.kind == 'throw':
            throws(ctx, ck, o, [('std::out_of_range', lambda s: s.prove_ge(s.norm(-e.val - 1))), ('DivideByZero', None)], 'throws for a zero modulus')
            if not o.st.infeasible(): expect_kept(ctx, ck, o, list(ctx.objs)); leak(ctx, ck, o)
            return
        if not o.st.infeasible(): ck.add('throw', False, 'a zero modulus raises the divide-by-zero exception', show(o.st, ctx))
    return [ctx.obj(RETOBJ), a.ptr, e.ptr, z.ptr], post
unit('mod_pow.zero', B + 'mod_pow(BigInteger const&, BigInteger const&, BigInteger const&)', pairs(), modpow0, ('C06',))

# ---------------------------------------------------------------- double
def ctor_double(ctx, case):
    """sign and biased exponent given, mantissa symbolic"""
    sign, e = case
    st = ctx.st
    man = fresh('man', 0, (1 << 52) - 1, 0)
    bits = man + (e << 52) + (sign << 63)
    o = ctx.obj('self')
    if e < 2047:
        m_ = man + ((1 << 52) if e else 0); x = (e or 1) - 1075
        want = m_.scale(1 << x) if x >= 0 else fd(m_, const(1 << -x))
        if sign: want = -want
    def post(ctx, ck, o_):
        if o_.kind == 'throw':
            throws(ctx, ck, o_, [('std::overflow_error', lambda s: e == 2047)], 'only infinities and NaN are rejected')
            if not o_.st.infeasible(): leak(ctx, ck, o_)
            return
        if e == 2047:
            if not o_.st.infeasible(): ck.add('throw', False, 'infinities and NaN are rejected')
            return
        expect_value(ctx, ck, o_, o, want, 'result'); leak(ctx, ck, o_)
    ctx.label.append('%s exp %d' % ('-' if sign else '+', e))
    return [o, FP(('arg', 'value'), bits)], post
unit('ctor.double', B + 'BigInteger(double)', [(s, e) for s in (0, 1) for e in range(2048)], ctor_double, ('C15',))
