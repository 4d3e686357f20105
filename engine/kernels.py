"""Units that verify the summaries of contracts.py against the bodies of the digit kernels."""
from spec import *
from units import leak
from contracts import C, U
import contracts
from interp import Unrecognised
import stl
DEBUG = 0

def digits(ctx, name, n, lo=0, hi=None, arr=None):
    """a raw digit array of n elements"""
    a = Arr(name, 32, lo, hi) if arr is None else arr
    b = ctx.m.newbuf(ctx.st, n, 4, [(ZERO, n, E(a, BETA))])
    ctx.extern = getattr(ctx, 'extern', set()) | {b}
    p = Ptr(('b', b), ZERO)
    return p, P(a, n), a, b
def size(ctx, name, lo=0, hi=NMAX): return fresh(name, lo, hi, 0)

def ret_cmp(ctx, ck, o, diff, what):
    """returned int is the sign of diff"""
    st = o.st
    if o.kind != 'ret': throws(ctx, ck, o); return
    r = ctx.m.sgn(st, o.val, 32); d = st.norm(diff)
    for c, s in ctx.m.split_ge(st, r):
        if not c: ok = s.prove_ge(s.norm(-d - 1)); k = '<'; ck_ok(ck, s, ok, what, k, d); continue
        for c2, s2 in ctx.m.split_ge(s, s.norm(r) - 1):
            if c2: ck_ok(ck, s2, s2.prove_ge(s2.norm(d - 1)), what, '>', d)
            else: ck_ok(ck, s2, s2.prove_eq(s2.norm(d)), what, '=', d)
def ck_ok(ck, s, ok, what, k, d):
    if not ok and s.infeasible(): return
    if not ok and DEBUG: dump(s)
    ck.add('value', ok, what, None if ok else 'returns %s while the difference is %s' % (k, s.norm(d)))

def k_compare(vec):
    def setup(ctx, case):
        n = size(ctx, 'n', 1 if vec else 0)
        m_ = n if case == 'same' else size(ctx, 'm', 1 if vec else 0)
        if vec:
            a = ctx.vec('lhs', n); b = ctx.vec('rhs', m_); args = [a.ptr, b.ptr]; u, v = a.val, b.val
        else:
            p, u, _, _ = digits(ctx, 'lhs', n); q, v, _, _ = digits(ctx, 'rhs', m_); args = [p, n, q, m_]
        if case == 'longer': ctx.st.assume_ge(n - m_ - 1)
        if case == 'shorter': ctx.st.assume_ge(m_ - n - 1)
        d = {'same': u - v, 'longer': const(1), 'shorter': const(-1)}[case]
        return args, lambda ctx, ck, o: ret_cmp(ctx, ck, o, d, 'three-way comparison')
    return setup
for nm, sig, vec in (('k.compare', C + 'compare(unsigned int const*, int, unsigned int const*, int)', False), ('k.compare.v', C + 'compare(%s, %s)' % (U, U), True)):
    unit(nm, sig, ['same', 'longer', 'shorter'], k_compare(vec), ())

def post_digits(ctx, ck, o, bid, n, want, what):
    """the n digits of storage bid have the value want"""
    st = o.st
    if o.kind != 'ret':
        throws(ctx, ck, o); return False
    buf = st.bufs[bid]
    v = ctx.m.seg_sum(st, buf, ZERO, st.norm(n))
    if v is None: ck.add('value', st.infeasible(), '%s has a determined value' % what); return
    ok = st.prove_eq(v - want) or st.infeasible()
    ck.add('value', ok, what, None if ok else 'got %s want %s' % (st.norm(v), st.norm(want)))
def post_same(ctx, ck, o, bid, n, want, what):
    st = o.st; buf = st.bufs.get(bid)
    v = buf and ctx.m.seg_sum(st, buf, ZERO, st.norm(n))
    ok = v is not None and st.prove_eq(v - want) or st.infeasible()
    ck.add('frame', ok, what, None if ok else str(v and st.norm(v)))

def zeros(ctx, name, n):
    b = ctx.m.newbuf(ctx.st, n, 4, [(ZERO, n, ZERO)])
    ctx.extern = getattr(ctx, 'extern', set()) | {b}
    return Ptr(('b', b), ZERO), b

def k_multiply(ctx, case):
    st = ctx.st
    n = size(ctx, 'n'); m_ = size(ctx, 'm')
    st.assume_ge(n - m_)
    if case == 'school': st.assume_ge(const(31) - m_)
    else: st.assume_ge(m_ - 32)
    p, u, _, pb = digits(ctx, 'lhs', n); q, v, _, qb = digits(ctx, 'rhs', m_); r, rb = zeros(ctx, 'bits', n + m_)
    def post(ctx, ck, o):
        post_digits(ctx, ck, o, rb, n + m_, u * v, 'product')
        if o.kind == 'ret':
            post_same(ctx, ck, o, pb, n, u, 'left factor unchanged'); post_same(ctx, ck, o, qb, m_, v, 'right factor unchanged')
    return [p, n, q, m_, r, n + m_], post
unit('k.multiply', C + 'multiply(unsigned int*, int, unsigned int*, int, unsigned int*, int)', ['school', 'split'], k_multiply, ())
def k_multiply1(ctx, case):
    n = size(ctx, 'n', 1)
    a = ctx.vec('lhs', n); r = ctx.obj('ret'); x = fresh('rhs', 0, (1 << 32) - 1, 0)
    def post(ctx, ck, o):
        if o.kind != 'ret': return throws(ctx, ck, o)
        bid, buf = stl.bufof(ctx.m, o.st, r, {})
        ck.add('value', o.st.prove_eq(buf.size - n - 1), 'size of the product')
        post_digits(ctx, ck, o, bid, n + 1, a.val * x, 'product')
        leak(ctx, ck, o)
    return [r, a.ptr, x], post
unit('k.multiply1', C + 'multiply(%s, unsigned int)' % U, ['any'], k_multiply1, ())
def k_square(ctx, case):
    st = ctx.st
    n = size(ctx, 'n')
    st.assume_ge(const(31) - n if case == 'school' else n - 32)
    p, u, _, pb = digits(ctx, 'x', n); r, q, _, rb = digits(ctx, 'bits', n + n)
    def post(ctx, ck, o):
        post_digits(ctx, ck, o, rb, n + n, u * u, 'square')
        if o.kind == 'ret': post_same(ctx, ck, o, pb, n, u, 'factor unchanged')
    return [p, n, r, n + n], post
unit('k.square', C + 'square(unsigned int*, int, unsigned int*, int)', ['school', 'split'], k_square, ())
def k_subcore(ctx, case):
    st = ctx.st
    n = size(ctx, 'n'); m_ = size(ctx, 'm'); c = size(ctx, 'c')
    st.assume_ge(n - m_); st.assume_ge(c - n)
    p, u, _, pb = digits(ctx, 'lhs', n); q, v, _, qb = digits(ctx, 'rhs', m_); r, w, _, rb = digits(ctx, 'core', c)
    st.assume_ge(w - u - v)
    def post(ctx, ck, o):
        post_digits(ctx, ck, o, rb, c, w - u - v, 'difference')
    return [p, n, q, m_, r, c], post
unit('k.subtract_core', C + 'subtract_core(unsigned int*, int, unsigned int*, int, unsigned int*, int)', ['any'], k_subcore, ())
from contracts import CU, MU
def k_linear(op):
    def setup(ctx, case):
        st = ctx.st
        n = size(ctx, 'n'); m_ = size(ctx, 'm', 1 if op == 'add_self' else 0)
        st.assume_ge(n - m_)
        p, u, _, pb = digits(ctx, 'lhs', n); q, v, _, qb = digits(ctx, 'rhs', m_)
        args = [p, n, q, m_]
        if op in ('add', 'subtract'):
            d = n + 1 if op == 'add' else n
            r, w, _, rb = digits(ctx, 'bits', d); args += [r, d]
        else: d = n; rb = pb
        if op != 'add' and op != 'add_self': st.assume_ge(u - v); want = u - v
        else:
            want = u + v
            if op == 'add_self': st.assume_ge(exp2(n.scale(32)) - 1 - want)
        def post(ctx, ck, o):
            post_digits(ctx, ck, o, rb, d, want, op)
            if o.kind == 'ret':
                post_same(ctx, ck, o, qb, m_, v, 'right operand unchanged')
                if rb != pb: post_same(ctx, ck, o, pb, n, u, 'left operand unchanged')
        return args, post
    return setup
for op, sig in (('add', (CU, CU, MU)), ('subtract', (CU, CU, MU)), ('add_self', (MU, MU)), ('subtract_self', (MU, MU))):
    unit('k.' + op, C + '%s(%s)' % (op, ', '.join(sig)), ['any'], k_linear(op), ())
def k_div1(kind):
    def setup(ctx, case):
        st = ctx.st
        n = size(ctx, 'n', 1)
        a = ctx.vec('lhs', n); d = fresh('rhs', 1, (1 << 32) - 1, 0)
        if kind == 'r':
            from annot import HornerMod
            an = HornerMod(a.arr, n, d); ctx.m.annots = [an]
            def post(ctx, ck, o):
                if o.kind != 'ret': return throws(ctx, ck, o)
                from units import quot_ok
                e = quot_ok(o.st, a.val, d, None, o.st.norm(ctx.m.uns(o.st, o.val, 32)), 1, 1)
                if e and not o.st.infeasible() and not an.used: raise Unrecognised('no digit loop of the expected form')
                ck.add('value', e is None or o.st.infeasible(), 'remainder', e)
            return [a.ptr, d], post
        r = ctx.obj('ret')
        args = [r, a.ptr, d]
        if kind == 'qr':
            base = ('o', ('arg', 'rem')); st.alive.add(base); st.cells[(base, 0)] = (4, fresh('old', 0, (1 << 32) - 1)); args.append(Ptr(base, ZERO))
        def post(ctx, ck, o):
            if o.kind != 'ret': return throws(ctx, ck, o)
            s = o.st
            bid, buf = stl.bufof(ctx.m, s, r, {})
            ck.add('value', s.prove_eq(buf.size - n), 'size of the quotient')
            q = ctx.m.seg_sum(s, buf, ZERO, s.norm(n))
            from units import quot_ok
            rem = s.norm(s.cells[(base, 0)][1]) if kind == 'qr' else None
            e = 'undetermined' if q is None else quot_ok(s, a.val, d, q, rem, 1, 1)
            if e and DEBUG: dump(s)
            ck.add('value', e is None or s.infeasible(), 'quotient', e and '%s: q=%s r=%s' % (e, q, rem))
            leak(ctx, ck, o)
        return args, post
    return setup
unit('k.divide1', C + 'divide(%s&, unsigned int)' % U, ['any'], k_div1('q'), ())
unit('k.divrem1', C + 'divide(%s&, unsigned int, unsigned int&)' % U, ['any'], k_div1('qr'), ())
unit('k.remainder1', C + 'remainder(%s const&, unsigned int)' % U, ['any'], k_div1('r'), ())

# ---------------------------------------------------------------- long division
from contracts import LZ, GUESS, SUBD, ADDD
W32 = 1 << 32
def k_lz(ctx, case):
    s = case
    x = fresh('value', *((1 << (31 - s), (1 << (32 - s)) - 1) if s < 32 else (0, 0)), 0) if s < 32 else ZERO
    def post(ctx, ck, o):
        if o.kind != 'ret': return throws(ctx, ck, o)
        ck.add('value', o.st.prove_eq(ctx.m.sgn(o.st, o.val, 32) - s) or o.st.infeasible(), 'number of leading zero bits', str(o.val))
    return [x], post
unit('k.leading_zeros', LZ, list(range(33)), k_lz, ())
def k_guess(ctx, case):
    q = fresh('q', 0, W32 - 1, 0); vh = fresh('valHi', 0, (1 << 64) - 1, 0); vl, dh, dl = (fresh(n, 0, W32 - 1, 0) for n in ('valLo', 'divHi', 'divLo'))
    def post(ctx, ck, o):
        if o.kind != 'ret': return throws(ctx, ck, o)
        for s, t in truth(ctx.m, o.st, o.val):
            d = q * (dh.scale(W32) + dl) - vh.scale(W32) - vl
            ok = s.prove_ge(d - 1) if t else s.prove_ge(-d)
            if not ok and s.infeasible(): continue
            if not ok and DEBUG: dump(s)
            ck.add('value', ok, 'quotient estimate is too big', 'returns %s' % t)
    return [q, vh, vl, dh, dl], post
unit('k.guess', GUESS, ['any'], k_guess, ())
def k_subd(ctx, case):
    st = ctx.st
    n = size(ctx, 'n'); m_ = size(ctx, 'm'); q = fresh('q', 0, W32 - 1, 0)
    st.assume_ge(n - m_)
    p, u, a, pb = digits(ctx, 'lhs', n); r, v, _, rb = digits(ctx, 'rhs', m_)
    def post(ctx, ck, o):
        if o.kind != 'ret': return throws(ctx, ck, o)
        c = ctx.m.uns(o.st, o.val, 32)
        post_digits(ctx, ck, o, pb, n, u - q * v + c * exp2(m_.scale(32)), 'dividend less q times the divisor')
        post_same(ctx, ck, o, rb, m_, v, 'divisor unchanged')
    return [p, n, r, m_, q], post
unit('k.subtract_divisor', SUBD, ['any'], k_subd, ())
def k_addd(ctx, case):
    st = ctx.st
    n = size(ctx, 'n'); m_ = size(ctx, 'm')
    st.assume_ge(n - m_)
    p, u, a, pb = digits(ctx, 'lhs', n); r, v, _, rb = digits(ctx, 'rhs', m_)
    def post(ctx, ck, o):
        if o.kind != 'ret': return throws(ctx, ck, o)
        c = ctx.m.uns(o.st, o.val, 32)
        post_digits(ctx, ck, o, pb, n, u + v - c * exp2(m_.scale(32)), 'dividend plus the divisor')
        post_same(ctx, ck, o, rb, m_, v, 'divisor unchanged')
    return [p, n, r, m_], post
unit('k.add_divisor', ADDD, ['any'], k_addd, ())
DIVIDE = C + 'divide(%s, %s, %s)' % (MU, CU, MU)
def k_divide(ctx, case):
    from annot import Knuth, Estimate
    mc, s, full = case
    st = ctx.st
    ctx.label.append('%s/%s/%s' % case)
    m_ = const(mc) if mc < 3 else fresh('m', 0, NMAX - 3, 0) + 3
    n = fresh('d', 0, NMAX, 0) + m_
    st.assume_ge(const(NMAX) - n)
    p, u, a, pb = digits(ctx, 'lhs', n); r, v, b, rb = digits(ctx, 'rhs', m_)
    top = E(b, m_ - 1)
    st.assume_ge(top - (1 << (31 - s))); st.assume_ge(-top + ((1 << (32 - s)) - 1))
    if full:
        q, _, _, qb = digits(ctx, 'bits', n - m_ + 1); args = [q, n - m_ + 1]
    else: q = NULL; qb = None; args = [NULL, ZERO]
    kn = Knuth(pb, u, n, rb, v, m_, s, qb)
    ctx.m.annots = [kn, Estimate(kn)]; ctx.m.knuth = kn
    def post(ctx, ck, o):
        if o.kind != 'ret': return throws(ctx, ck, o)
        if not kn.used: raise Unrecognised('no division loop of the expected form')
        for ok, fn in ((kn.guesses, contracts.GUESS), (kn.subs, contracts.SUBD)):
            if not ok and ctx.m.mod.defined(fn) is None: raise Unrecognised('%s is not part of the division loop' % fn)
        if o.kind != 'ret': return throws(ctx, ck, o)
        s_ = o.st
        rem = ctx.m.seg_sum(s_, s_.bufs[pb], ZERO, s_.norm(n))
        if rem is None: ck.add('value', s_.infeasible(), 'remainder is determined'); return
        if full:
            quo = ctx.m.seg_sum(s_, s_.bufs[qb], ZERO, s_.norm(n - m_ + 1))
            ck.add('value', quo is not None and s_.prove_eq(s_.norm(u - v * quo - rem)) or s_.infeasible(), 'dividend = divisor * quotient + remainder', '%s; %s' % (quo, rem))
        else:
            from annot import exact
            ck.add('value', exact(s_, u - rem, v) is not None or s_.infeasible(), 'remainder is congruent to the dividend', str(rem))
        ck.add('value', s_.prove_ge(s_.norm(rem)) and s_.prove_ge(s_.norm(v - 1 - rem)) or s_.infeasible(), 'remainder is below the divisor', str(rem))
        post_same(ctx, ck, o, rb, m_, v, 'divisor unchanged')
    return [p, n, r, m_] + args, post
unit('k.divide', DIVIDE, [(mc, s, f) for mc in (1, 2, 3) for s in range(32) for f in (True, False)], k_divide, ())
