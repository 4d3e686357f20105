"""Queries about the leading bits and the bit pattern; cases fix the bit length of the leading digit."""
from spec import *
from interp import AnalysisError
from units import unit, simple, leak, B, BIGCASES, ABSCASES, pairs

def lead(ctx, case):
    """operand of the class case[0] whose leading digit (or small magnitude) has case[1] bits"""
    ca, b = case
    a = ctx.big('x', ca)
    ctx.label.append('b%d' % b)
    st = ctx.st
    if b:
        t = E(a.arr, a.n - 1) if a.arr is not None else a.val.scale(-1 if '-' in ca else 1)
        st.assume_ge(st.norm(t) - (1 << (b - 1))); st.assume_ge(-st.norm(t) + ((1 << b) - 1))
    return a
LEAD = [('s0', 0)] + [(c, b) for c in ('s+', 's-') for b in range(1, 32)] + [(c, 32) for c in ('+1', '-1')] + [(c, b) for c in ('+n', '-n') for b in range(1, 33)]
def topexp(a, case):
    """exponent e with 2^(e-1) <= |x| < 2^e"""
    return const(case[1]) if a.arr is None else (a.n - 1).scale(32) + case[1]
def bitlen(ctx, case):
    a = lead(ctx, case)
    neg = '-' in case[0]
    def post(ctx, ck, o):
        if o.kind != 'ret': return throws(ctx, ck, o)
        s = o.st
        r = s.norm(ctx.m.uns(s, o.val, 64))
        e = topexp(a, case)
        # the answer is e, except for a negated power of two: e - 1
        for t, s2 in ctx.m.split_eq(s, r - e):
            if t:
                ok = True if not neg else s2.prove_ge(s2.norm(-a.val - exp2(e - 1) - 1))
            else:
                ok = neg and s2.prove_eq(s2.norm(r - e + 1)) and s2.prove_eq(s2.norm(-a.val - exp2(e - 1)))
            if not ok and s2.infeasible(): continue
            if not ok and ctx.m.debug: dump(s2)
            ck.add('value', ok, 'bit length', None if ok else 'returns %s where %s-1 < log2 |x| <= %s; %s' % (r, e, e, show(s2, ctx)))
        expect_unchanged(ctx, ck, o, ['x']); leak(ctx, ck, o)
    return [a.ptr], post
unit('bit_length', B + 'get_bit_length() const', LEAD, bitlen, ('C23',))
def pow2(ctx, case):
    a = lead(ctx, case)
    def post(ctx, ck, o):
        if o.kind != 'ret': return throws(ctx, ck, o)
        for s, t in truth(ctx.m, o.st, o.val):
            if '-' in case[0] or case[0] == 's0': ok = not t
            else:
                d = s.norm(a.val - exp2(topexp(a, case) - 1))
                ok = s.prove_eq(d) if t else s.prove_ne(d)
            if not ok and s.infeasible(): continue
            if not ok and ctx.m.debug: dump(s)
            ck.add('value', ok, 'truth value', None if ok else 'returns %s; %s' % (t, show(s, ctx)))
        expect_unchanged(ctx, ck, o, ['x']); leak(ctx, ck, o)
    return [a.ptr], post
unit('is_power_of_two', B + 'is_power_of_two() const', LEAD, pow2, ('C23',))

# ---------------------------------------------------------------- bitwise operators
import contracts
from interp import tmpl_sum
from units import unop
unop('invert', B + 'operator~()', lambda x: -x - 1, ('C09',))
FULL = (1 << 32) - 1
def opdig(m, s, op, x, y):
    return m.uns(s, m.bitval(s, op, x, y, 32), 32)
SOP = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}
def operand_digits(m, st, v, n):
    """[(state, sign, digit array or None for a constant sequence, size)] of the integer v"""
    out = []
    for zero, s in m.split_eq(st, v):
        if zero: out.append((s, 0, None, ZERO)); continue
        for s2, sg in contracts.sign_split(m, s, v):
            s2 = s2.copy()
            arr = contracts.ghost_digits(m, s2, s2.norm(v))
            N = m.__dict__.setdefault('ndigits', {}).get(arr.id)
            if N is None: N = m.ndigits[arr.id] = fresh('N', 1, (1 << 26) + 1, 0)
            out += [(s3, sg, arr, s3.norm(N)) for s3 in contracts.twos_sizes(m, s2, v, sg, arr, N, n)]
    return out
def bitwise_value(m, st, op, a, na, b, nb):
    """[(state, value of the operation)]"""
    out = []
    for s, sx, X, NX in operand_digits(m, st, a, na):
        for s2, sy, Y, NY in operand_digits(m, s, b, nb):
            for ge, s3 in m.split_ge(s2, s2.norm(NX - NY)):
                lo, hi = (NY, NX) if ge else (NX, NY)
                def dig(j, inner):
                    x = (E(X, j) if X is not None else ZERO) if inner or ge else const(FULL * sx)
                    y = (E(Y, j) if Y is not None else ZERO) if inner or not ge else const(FULL * sy)
                    return opdig(m, s3, op, s3.norm(x), s3.norm(y))
                tot = -exp2(s3.norm(hi).scale(32)).scale(SOP[op](sx, sy))
                lo = s3.norm(lo); hi = s3.norm(hi)
                for inner, l, h in ((True, ZERO, lo), (False, lo, hi)):
                    lc, hc = l.cval(), h.cval()
                    if lc is not None and hc is not None:
                        for j in range(lc, hc): tot = tot + dig(const(j), inner).scale(1 << 32 * j)
                    else: tot = tot + tmpl_sum(dig(BETA, inner), 32, l, h)
                out.append((s3, s3.norm(tot)))
    return out
def bitwise(name, fn, op, free):
    def setup(ctx, case):
        if case[0] == '=': a = b = ctx.big('x', case[1])
        else: a = ctx.big('lhs', case[0]); b = ctx.big('rhs', case[1])
        r = ctx.obj('ret') if free else a.ptr
        def post(ctx, ck, o):
            if o.kind != 'ret': return throws(ctx, ck, o)
            m = ctx.m
            for s, v, prob in read_big(m, o.st, r):
                if prob is not None and s.infeasible(): continue
                ck.add('canon', prob is None, 'result is canonical', prob and '%s; %s' % (prob, show(s, ctx)))
                if v is None: ck.add('value', False, 'result has a determined value'); continue
                for s2, want in bitwise_value(m, s, op, a.val, a.n, b.val, b.n):
                    ok = s2.prove_eq(s2.norm(v - want)) or s2.infeasible()
                    if not ok and m.debug: dump(s2)
                    if not ok and (case[0] == '=' or '1' in case[0] + case[1] or 'n' in case[0] + case[1]) and not m.__dict__.get('twosused'):
                        raise AnalysisError('the digits do not come from to_uint32_array(): not comparable')
                    ck.add('value', ok, "result has the two's-complement digits of the operation", None if ok else 'got %s want %s; %s' % (s2.norm(v), want, show(s2, ctx)))
            expect_unchanged(ctx, ck, o, ['rhs'] if case[0] != '=' else []); leak(ctx, ck, o)
        return ([r] if free else []) + [a.ptr, b.ptr], post
    unit(name, fn, pairs(ABSCASES) + ([('=', c) for c in ABSCASES] if not free else []), setup, ('C09',))
for nm, op in (('&', 'and'), ('|', 'or'), ('^', 'xor')):
    bitwise('op%s=' % nm, B + 'operator%s=(BigInteger const&)' % nm, op, False)
    bitwise('op%s' % nm, 'operator%s(BigInteger, BigInteger const&)' % nm, op, True)

# ---------------------------------------------------------------- conversion to double
INF = 0x7FF << 52
def to_double(ctx, case):
    """the 53 leading bits: bit pattern  sign, bit length + 1022, mantissa without its leading bit;  infinity from 2^1024 on"""
    a = lead(ctx, case)
    neg = '-' in case[0]
    def post(ctx, ck, o):
        if o.kind != 'ret': return throws(ctx, ck, o)
        s0 = o.st; v = o.val
        def bad(s, what):
            if not s.infeasible(): ck.add('value', False, 'result', '%s; %s' % (what, show(s, ctx)))
        expect_unchanged(ctx, ck, o, ['x']); leak(ctx, ck, o)
        if not isinstance(v, FP): return bad(s0, 'no floating point value')
        if v.bits is None:
            if v.expr[0] == 'sitofp' and isinstance(v.expr[1], Poly) and s0.prove_ge(a.val + (1 << 53)) and s0.prove_ge(-a.val + (1 << 53)):
                if s0.prove_eq(s0.norm(v.expr[1] - a.val)): ck.add('value', True, 'result')
                else: bad(s0, 'converts %s' % s0.norm(v.expr[1]))
                return
            if s0.infeasible(): return
            raise AnalysisError('floating point result %s' % (v.expr,))
        L = topexp(a, case); A = -a.val if neg else a.val
        for big, s in ctx.m.split_ge(s0, L - 1025):
            if s.infeasible(): continue
            b = s.norm(v.bits - ((1 << 63) if neg else 0))
            if big:
                if s.prove_eq(b - INF): ck.add('value', True, 'result')
                else: bad(s, 'bits %s instead of infinity' % b)
                continue
            M = s.norm(b - (L + 1022).scale(1 << 52) + (1 << 52))       # mantissa with its leading bit
            # M * 2^(L-53) <= |x| < (M+1) * 2^(L-53)
            k = s.norm(L - 53)
            ok = s.prove_ge(M - (1 << 52)) and s.prove_ge(-M + ((1 << 53) - 1))
            if ok:
                if a.arr is None or s.prove_ge(-k):
                    ok = s.prove_eq(s.norm(M - A * exp2(-k)))
                else: ok = s.prove_ge(s.norm(A - M * exp2(k))) and s.prove_ge(s.norm((M + 1) * exp2(k) - A - 1))
            if not ok and ctx.m.debug: dump(s); print('M', M, 'A', A, 'k', k)
            if ok: ck.add('value', True, 'result')
            else: bad(s, 'mantissa %s' % M)
    return [a.ptr], post
unit('to.double', B + 'operator double()', LEAD, to_double, ('C15',))
