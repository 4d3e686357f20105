"""Byte strings."""
from spec import *
from interp import AnalysisError
from contracts import U, C
import stl
from units import unit, simple, leak, B, BIGCASES, ABSCASES, pairs, RETOBJ
from units3 import lead

byte_of = limb_byte
NBYTES = 4 * NMAX
def bytesarg(ctx, case):
    """(be, zero high bytes?, r, k, sign bit): 4k+r significant bytes, k = 'k' for any number above 1, below zero bytes or none"""
    be, z, r, k, top = case
    st = ctx.st
    D = Arr('D', 32)
    kk = const(k) if k != 'k' else fresh('k', 2, NMAX - 1, 0)
    b = kk.scale(4) + r
    zz = ZERO
    if z == 1: zz = const(1)
    elif z: zz = fresh('z', 2, NBYTES, 0)
    n = b + zz
    st.assume_ge(const(NBYTES) - n)
    if r: t = E(D, kk); w = r
    elif k: t = E(D, kk - 1); w = 4
    else: t = None
    if t is not None:
        lo, hi = (1 << (8 * w - 1), (1 << (8 * w)) - 1) if top == 'hi' else (1 << (8 * w - 8), (1 << (8 * w - 1)) - 1)
        st.assume_ge(t - lo); st.assume_ge(-t + hi)
    T = byte_of(lambda q: E(D, q), BETA)
    base = ('o', ('arg', 'value')); st.alive.add(base)
    if t is None: segs = [(ZERO, n, ZERO)]
    elif be:
        Tb = byte_of(lambda q: E(D, q), n - 1 - BETA)
        segs = [(ZERO, zz, ZERO), (zz, n, Tb)]
    else: segs = [(ZERO, b, T), (b, n, ZERO)]
    segs = [s for s in segs if not (s[1] - s[0]) == ZERO] or [(ZERO, ZERO, ZERO)]
    buf = ctx.m.newbuf(st, n, 1, segs)
    st.cells[(base, 0)] = (24, Vec(buf))
    val = P(D, kk) + (t * exp2(kk.scale(32)) if r else ZERO) if t is not None else ZERO
    ctx.extern = {buf}
    return Ptr(base, ZERO), val, n, b, top == 'hi' and t is not None, w if t is not None else 0, t
def ctor_bytes(ctx, case):
    uns = case[0]
    p, val, n, b, hi, w, t = bytesarg(ctx, case[1:])
    if hi and not uns and not case[2]: val = val - exp2(b.scale(8))
    r = ctx.obj('self')
    ctx.label.append('%s %s %s bytes %s%s top %s' % ('unsigned' if uns else 'signed', 'big-endian' if case[1] else 'little-endian', ('no', 'one', 'some')[case[2]] + ' high zero', '4*%s+' % case[4], case[3], case[5]))
    return [r, p, const(1 if uns else 0), const(1 if case[1] else 0)], simple(ctx, r, val, ())
BYTECASES = [(u, be, z, r, k, top) for u in (1, 0) for be in (0, 1) for z in (0, 1, 2) for r in range(4) for k in (0, 1, 'k') for top in (('lo', 'hi') if r or k else ('lo',))]
unit('ctor.bytes', B + 'BigInteger(%s, bool, bool)' % UC, BYTECASES, ctor_bytes, ('C11',))

# ---------------------------------------------------------------- export
def mag(case_, low):
    """range of the leading word's magnitude for w significant two's-complement bytes"""
    w, hi = case_
    a, b = 1 << (8 * w - 8), 1 << (8 * w - 1)
    lo_, hi_ = (b, (1 << 8 * w) - 1) if hi else ((a if w > 1 or low < 0 else 1), b - 1)
    return lo_, hi_
def exported(ctx, case):
    """sign, form, (w, hi): the value needs w bytes (above whole digits), the highest bit of these bytes is (hi) unlike / like the sign"""
    sg, form, w, hi = case
    st = ctx.st; m = ctx.m
    lo, up = (1 << (8 * w - 1), (1 << 8 * w) - 1) if hi else (1 << (8 * w - 8), (1 << (8 * w - 1)) - 1)
    ctx.label.append('%s %s, %d bytes %s' % (sg, form, w, 'and a sign byte' if hi else ''))
    if form == 'small' or form == '1' or form == 'pow':
        if sg == '-' : lo += 1; up += 1
        if w == 1 and sg == '-' and not hi: lo = 1
    if sg == '0': lo = up = 0
    base = ('o', ('arg', 'x')); st.alive.add(base)
    if form == 'small':
        v = fresh('x', lo, min(up, IMAX), 0) if lo != min(up, IMAX) else const(lo)
        V = -v if sg == '-' else v
        b = m.newbuf(st, ZERO, 4, [])
        st.cells[(base, 0)] = (4, V); st.cells[(base, 8)] = (24, Vec(b))
        o = Big('x', base, V, V, ZERO, None, b, st)
        return_ = (ZERO, [], V)
    else:
        arr = Arr('x', 32)
        n = const(1) if form == '1' else fresh('n', 2, NMAX, 0)
        if form == '1': lo = max(lo, 1 << 31); up = min(up, (1 << 32) - 1)
        if form == 'pow': up = min(up, (1 << 32) - 1)
        if form in ('1', 'n', 'pos'): nz = ZERO
        elif form == 'pow': nz = n - 1
        else:
            nz = fresh('nz', 1, NMAX, 0); st.assume_ge(n - 2 - nz)
        segs = [(ZERO, nz, ZERO), (nz, n, E(arr, BETA))] if nz != ZERO else [(ZERO, n, E(arr, BETA))]
        b = m.newbuf(st, n, 4, segs)
        top = E(arr, n - 1)
        st.assume_ge(top - lo); st.assume_ge(-top + up)
        if sg == '-' and form != 'pow': st.assume_ge(E(arr, nz) - 1)
        st.cells[(base, 0)] = (4, const(-1 if sg == '-' else 1)); st.cells[(base, 8)] = (24, Vec(b))
        val = P(arr, n) - (P(arr, nz) if nz != ZERO else ZERO)
        o = Big('x', base, -val if sg == '-' else val, None, n, arr, b, st)
        D = lambda f: byte_of(f, BETA)
        if sg == '+': dig = [(ZERO, n - 1, lambda q: E(arr, q))]; T = top
        else:
            dig = [(ZERO, nz, lambda q: ZERO), (nz, nz + 1, lambda q: -E(arr, q)), (nz + 1, n - 1, lambda q: -E(arr, q) - 1)]
            T = -top - (0 if st.prove_eq(n - 1 - nz) else 1)
            if form in ('1', 'pow'): dig = [d for d in dig[:1] if form == 'pow']
        return_ = (n - 1, dig, T)
    o.cells = {k: v for k, v in st.cells.items() if k[0] == base}; o.bufv = st.bufs[b]
    ctx.objs['x'] = o
    return o, return_
def byte_at(x, r): return fd(x, const(1 << 8 * r)) - fd(x, const(256 << 8 * r)).scale(256)
def expected(st, full, dig, T, w, extra, sg, be):
    """[(lo, hi, template)] of the exported string"""
    ln = full.scale(4) + w + extra
    pos = ln - 1 - BETA if be else BETA
    out = []
    for lo, hi, f in dig: out.append((lo.scale(4), hi.scale(4), byte_of(f, pos)))
    for r in range(w): out.append((full.scale(4) + r, full.scale(4) + r + 1, byte_at(T, r)))
    if extra: out.append((ln - 1, ln, const(255 if sg == '-' else 0)))
    if be: out = [(ln - h, ln - l, t) for l, h, t in out]
    return ln, [(st.norm(l), st.norm(h), t) for l, h, t in out]
def same_content(m, st, buf, want):
    for lo, hi, t in want:
        if st.prove_ge(lo - hi): continue
        one = st.prove_eq(hi - lo - 1)
        for l2, h2, t2 in buf.segs:
            if st.prove_ge(lo - h2) or st.prove_ge(l2 - hi): continue
            if st.prove_eq(st.norm(t - t2)): continue
            at = lo if one else l2 if st.prove_eq(h2 - l2 - 1) else None
            if at is not None:
                at = st.norm(at)
                if st.prove_eq(st.norm(inst(t, 8, at) - inst_(t2, buf, at))): continue
            s = st.copy()        # the common part may be empty after all
            if not (s.assume_ge(hi - 1 - l2) and s.assume_ge(h2 - 1 - lo)) or s.infeasible(): continue
            return 'at [%s, %s): %s instead of %s' % (l2, h2, t2, st.norm(t))
    return None
def export(count, get):
    def setup(ctx, case):
        uns, be = case[0], case[1]
        sg, form, w, hi = case[2:]
        o, (full, dig, T) = exported(ctx, case[2:])
        ctx.label.append('%s %s-endian' % ('unsigned' if uns else 'signed', 'big' if be else 'little'))
        r = ctx.obj('ret'); bw = ctx.obj('written')
        def post(ctx, ck, out):
            st = out.st
            if uns and sg == '-':
                if out.kind == 'throw': ck.add('throw', True, 'negative value refused'); leak(ctx, ck, out); expect_unchanged(ctx, ck, out, ['x'])
                elif not st.infeasible(): ck.add('throw', False, 'unsigned export of a negative value is refused', show(st, ctx))
                return
            if out.kind == 'throw': return throws(ctx, ck, out)
            expect_unchanged(ctx, ck, out, ['x']); leak(ctx, ck, out)
            ln, want = expected(st, full, dig, T, w, 1 if hi and not uns else 0, sg, be)
            if st.infeasible(): return
            if get: n = out.val
            else:
                c = st.cells.get((bw.base, 0)); n = c[1] if c else None
            if get or count:
                ok = isinstance(n, Poly) and st.prove_eq(st.norm(n - ln))
                ck.add('value', ok, 'byte count', None if ok else 'count %s instead of %s; %s' % (n, ln, show(st, ctx)))
            if get: return
            v = st.cells.get((r.base, 0))
            if v is None or not isinstance(v[1], Vec) or v[1].buf not in st.bufs: ck.add('value', False, 'returns a byte string'); return
            buf = st.bufs[v[1].buf]
            if count: ln = ZERO
            ok = st.prove_eq(st.norm(buf.size - ln))
            if not ok: ck.add('value', False, 'length of the byte string', '%s instead of %s; %s' % (st.norm(buf.size), ln, show(st, ctx))); return
            if count: return
            p = same_content(ctx.m, st, buf, want)
            ck.add('value', p is None, 'bytes of the value', p and p + '; ' + show(st, ctx))
        a = [o.ptr, const(1 if uns else 0)]
        if get: return a, post
        return [r, o.ptr] + ([const(1 if count else 0)] if count is not None else []) + [const(1 if uns else 0), const(1 if be else 0)] + ([bw] if count is not None else []), post
    return setup
EXFORMS = [('0', 'small', 1, 0)] + [(sg, 'small', w, hi) for sg in '+-' for w in (1, 2, 3, 4) for hi in (0, 1) if (w, hi) != (4, 1)] \
    + [('+', '1', 4, 1), ('-', '1', 4, 0), ('-', '1', 4, 1)] + [(sg, f, w, hi) for sg, fs in (('+', ('pos',)), ('-', ('n', 'nz', 'pow'))) for f in fs for w in (1, 2, 3, 4) for hi in (0, 1)]
unit('to.bytes', B + 'to_byte_array(bool, bool)', [(u, be) + f for u in (0, 1) for be in (0, 1) for f in EXFORMS], export(None, False), ('C11',))
MODEFN = B + 'to_byte_array(BigInteger::GetBytesMode, bool, bool, int*)'
unit('to.bytes.mode', MODEFN, [(u, be) + f for u in (0, 1) for be in (0, 1) for f in EXFORMS], lambda ctx, case: export(0, False)(ctx, case), ('C11',))
unit('count.bytes', MODEFN, [(u, be) + f for u in (0, 1) for be in (0, 1) for f in EXFORMS], export(1, False), ('C11',))
unit('get_byte_count', B + 'get_byte_count(bool)', [(u, 0) + f for u in (0, 1) for f in EXFORMS], export(1, True), ('C11',))
