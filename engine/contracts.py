"""Summaries of digit kernels used at their call sites.  Every summary is itself verified against the body by a unit of kernels.py; a kernel
that no longer exists under its name and signature is simply analysed in place."""
from alg import *
from interp import *
import stl

W32 = 1 << 32
def digits(m, st, p, n, inst, what, write=False):
    """range of n digits behind pointer p -> (state, bufid, buf, a, b) or None when not a plain digit array; obligations recorded"""
    if not isinstance(p, Ptr): return None
    if p.base[0] == 'null': return (st, None, None, ZERO, ZERO) if st.norm(n) == ZERO else None
    if p.base[0] != 'b': return None
    bid = p.base[1]; buf = st.bufs.get(bid)
    if buf is None or buf.w != 4: return None
    a = divoff(st, p.off, 4, inst); b = st.norm(a + n)
    s = stl.check_range(m, st, buf, a, b, inst, what)
    if s is None: return None
    return s, bid, buf, s.norm(a), s.norm(b)
def value(m, st, buf, a, b):
    """sum of the digits [a,b) weighted from a"""
    if buf is None or st.norm(a) == st.norm(b): return ZERO
    v = m.seg_sum(st, buf, a, b)
    if v is None: return None
    return st.norm(v * exp2(st.norm(a).scale(-32)))

def compare_ptr(m, st, f, args, inst):
    l, ln, r, rn = args
    ln = m.sgn(st, ln, 32); rn = m.sgn(st, rn, 32)
    if not (st.prove_ge(ln) and st.prove_ge(rn)): return None
    x = digits(m, st, l, ln, inst, 'left operand')
    if x is None: return None
    st = x[0]
    y = digits(m, st, r, rn, inst, 'right operand')
    if y is None: return None
    st = y[0]
    out = []
    for ge, s in m.split_ge(st, ln - rn):
        if not ge: out.append(Out('ret', s, const(-1))); continue
        for gt, s2 in m.split_ge(s, s.norm(ln - rn) - 1):
            if gt: out.append(Out('ret', s2, const(1))); continue
            u = value(m, s2, x[2], s2.norm(x[3]), s2.norm(x[4])); v = value(m, s2, y[2], s2.norm(y[3]), s2.norm(y[4]))
            if u is None or v is None: return None
            for c, s3 in m.split_ge(s2, u - v):
                if not c: out.append(Out('ret', s3, const(-1))); continue
                for c2, s4 in m.split_ge(s3, s3.norm(u - v) - 1): out.append(Out('ret', s4, const(1) if c2 else ZERO))
    return out
def compare_vec(m, st, f, args, inst):
    b = [stl.bufof(m, st, a, inst) for a in args]
    if not all(st.prove_ge(x[1].size - 1) for x in b): return None
    return compare_ptr(m, st, f, [Ptr(('b', b[0][0]), ZERO), b[0][1].size, Ptr(('b', b[1][0]), ZERO), b[1][1].size], inst)

C = 'BigIntegerCalculator::'
U = 'std::vector<unsigned int, std::allocator<unsigned int>>'
TABLE = {
    C + 'compare(unsigned int const*, int, unsigned int const*, int)': compare_ptr,
    C + 'compare(%s, %s)' % (U, U): compare_vec,
}
def put(m, st, bid, a, n, val, name):
    """digits [a, a+n) of storage bid become fresh digits with the given value: list of states"""
    s = st.copy()
    W = Arr(name, 32)
    if s.norm(n) == ZERO: return [s]
    out = []
    for s2 in m.store_seg(s, bid, a, s.norm(a + n), E(W, BETA - a)):
        if s2.assume_eq(P(W, s2.norm(n)) - val): out.append(s2)
    return out
def apart(m, st, x, y):
    """two digit ranges do not overlap"""
    return x[1] is None or y[1] is None or x[1] != y[1] or st.prove_ge(x[3] - y[4]) or st.prove_ge(y[3] - x[4])
def need(m, inst, st, ok, what, detail=None):
    m.ob('pre', ok, inst, st, what, detail)

def mul_ptr(square):
    def h(m, st, f, args, inst):
        if square:
            l, ln, d, dn = args; r, rn = l, ln
        else: l, ln, r, rn, d, dn = args
        ln, rn, dn = (m.sgn(st, x, 32) for x in (ln, rn, dn))
        if not (st.prove_ge(ln) and st.prove_ge(rn) and st.prove_eq(dn - ln - rn) and st.prove_ge(ln - rn)): return None
        x = digits(m, st, l, ln, inst, 'left factor')
        if x is None: return None
        y = digits(m, x[0], r, rn, inst, 'right factor')
        if y is None: return None
        z = digits(m, y[0], d, dn, inst, 'product')
        if z is None: return None
        st = z[0]
        if z[1] is None: return [Out('ret', st)]
        u = value(m, st, *x[2:5]); v = u if square else value(m, st, *y[2:5])
        if u is None or v is None: return None
        if not (apart(m, st, x, z) and apart(m, st, y, z)): return None
        if not square:
            o = value(m, st, *z[2:5])
            need(m, inst, st, o is not None and st.prove_eq(o), 'product digits are cleared beforehand', lambda: str(o))
        return [Out('ret', s) for s in put(m, st, z[1], z[3], dn, u * v, 'prod')]
    return h
TABLE[C + 'multiply(unsigned int*, int, unsigned int*, int, unsigned int*, int)'] = mul_ptr(False)
TABLE[C + 'square(unsigned int*, int, unsigned int*, int)'] = mul_ptr(True)
def linear(spec):
    """summary of a kernel (l, ln, r, rn[, d, dn]): spec(st, u, v, w, ln, rn, dn) -> (destination 0|2, new value) with obligations, or None"""
    def h(m, st, f, args, inst):
        lens = [m.sgn(st, x, 32) for x in args[1::2]]
        if not all(st.prove_ge(x) for x in lens): return None
        ds = []
        for p, n in zip(args[0::2], lens):
            x = digits(m, st, p, n, inst, 'digits')
            if x is None: return None
            st = x[0]; ds.append(x)
        vals = [value(m, st, *x[2:5]) for x in ds]
        if any(v is None for v in vals): return None
        r = spec(st, vals, lens)
        if r is None: return None
        k, val = r
        if any(not apart(m, st, x, ds[k]) for i, x in enumerate(ds) if i != k): return None
        if ds[k][1] is None: return [Out('ret', st)]
        return [Out('ret', s) for s in put(m, st, ds[k][1], ds[k][3], lens[k], val, 'r')]
    return h
def s_add(st, v, n):
    if not (st.prove_ge(n[0] - n[1]) and st.prove_eq(n[2] - n[0] - 1)): return None
    return 2, v[0] + v[1]
def s_subtract(st, v, n):
    if not (st.prove_ge(n[0] - n[1]) and st.prove_eq(n[2] - n[0]) and st.prove_ge(v[0] - v[1])): return None
    return 2, v[0] - v[1]
def s_addself(st, v, n):
    if not (st.prove_ge(n[0] - n[1]) and st.prove_ge(n[1] - 1) and st.prove_ge(exp2(n[0].scale(32)) - 1 - v[0] - v[1])): return None
    return 0, v[0] + v[1]
def s_subself(st, v, n):
    if not (st.prove_ge(n[0] - n[1]) and st.prove_ge(v[0] - v[1])): return None
    return 0, v[0] - v[1]
def s_subcore(st, v, n):
    if not (st.prove_ge(n[0] - n[1]) and st.prove_ge(n[2] - n[0]) and st.prove_ge(v[2] - v[0] - v[1])): return None
    return 2, v[2] - v[0] - v[1]
CU = 'unsigned int const*, int'; MU = 'unsigned int*, int'
TABLE[C + 'add(%s, %s, %s)' % (CU, CU, MU)] = linear(s_add)
TABLE[C + 'subtract(%s, %s, %s)' % (CU, CU, MU)] = linear(s_subtract)
TABLE[C + 'add_self(%s, %s)' % (MU, MU)] = linear(s_addself)
TABLE[C + 'subtract_self(%s, %s)' % (MU, MU)] = linear(s_subself)
TABLE[C + 'subtract_core(%s, %s, %s)' % (MU, MU, MU)] = linear(s_subcore)
def divide_ptr(m, st, f, args, inst):
    """left := left mod right, bits := left / right (truncated; bits may be empty)"""
    l, ln, r, rn, d, dn = args
    ln, rn, dn = (m.sgn(st, x, 32) for x in (ln, rn, dn))
    if not (st.prove_ge(rn - 1) and st.prove_ge(ln - rn)): return None
    full = st.prove_eq(dn - ln + rn - 1)
    if not (full or st.prove_eq(dn)): return None
    x = digits(m, st, l, ln, inst, 'dividend')
    if x is None: return None
    y = digits(m, x[0], r, rn, inst, 'divisor')
    if y is None: return None
    st = y[0]
    if full:
        z = digits(m, st, d, dn, inst, 'quotient')
        if z is None: return None
        st = z[0]
    u = value(m, st, *x[2:5]); v = value(m, st, *y[2:5])
    if u is None or v is None or x[1] is None or y[1] is None: return None
    if not apart(m, st, x, y) or full and not (apart(m, st, x, z) and apart(m, st, y, z)): return None
    # the leading divisor digit is not zero
    found = m.seg_find(st, y[2], st.norm(y[4] - 1))
    if not all(s.prove_ge(s.norm(inst_(t, y[2], s.norm(y[4] - 1))) - 1) for s, t, k in found): return None
    Q = Arr('quot', 32); k = st.norm(ln - rn + 1)
    if full: outs = m.store_seg(st.copy(), z[1], z[3], z[4], E(Q, BETA - z[3]))
    else: outs = [st]
    out = []
    for s in outs:
        q = s.norm(P(Q, k)); r = s.norm(u - v * q)
        if s.assume_ge(r) and s.assume_ge(s.norm(v - 1 - r)):
            out += [Out('ret', s2) for s2 in put(m, s, x[1], x[3], ln, r, 'rem')]
    return out
TABLE[C + 'divide(%s, %s, %s)' % (MU, CU, MU)] = divide_ptr

def twos_vec(m, st, f, args, inst):
    """digits := (2^(32 n) - digits) mod 2^(32 n)"""
    bid, buf = stl.bufof(m, st, args[0], inst)
    if buf.w != 4: return None
    n = st.norm(buf.size)
    if n == ZERO: return [Out('ret', st)]
    v = m.seg_sum(st, buf, ZERO, n)
    if v is None: return None
    out = []
    for nz, s in m.split_ge(st, v - 1):
        if not nz: out.append(Out('ret', s)); continue
        out += [Out('ret', s2) for s2 in put(m, s, bid, ZERO, n, exp2(n.scale(32)) - v, 'twos')]
    return out
TABLE['NumericsHelpers::dangerous_make_twos_complement(%s&)' % U] = twos_vec

# ---------------------------------------------------------------- two's-complement digits of a BigInteger
def ghost_digits(m, st, v):
    """(array of the infinite two's-complement digits of the integer v, [(state, sign, size)]) with facts; v: normalised poly.
    The digits of an integer are unique, so one array per integer serves every size."""
    for k, arr in m.__dict__.setdefault('twosdigits', []):
        if st.norm(k) == st.norm(v) or st.prove_eq(st.norm(k - v)): return arr
    arr = Arr('D', 32)
    m.twosdigits.append((v, arr))
    return arr
def sign_split(m, st, v):
    return [(s, 0 if ge else 1) for ge, s in m.split_ge(st, v)]
def objvalue(m, st, p):
    """[(state, value, size)] of a canonical object, None when it has no determined value"""
    o = st.norm(p.off).cval()
    c = st.cells.get((p.base, o)); d = st.cells.get((p.base, o + 8))
    if c is None or d is None or not isinstance(d[1], Vec) or not isinstance(c[1], Poly): return None
    buf = st.bufs[d[1].buf]; g = m.sgn(st, c[1], 32)
    out = []
    for nz, s in m.split_ge(st, buf.size - 1):
        if not nz: out.append((s, s.norm(g), ZERO)); continue
        for ps, s2 in m.split_ge(s, s.norm(g) - 1):
            if not s2.prove_eq(s2.norm(g) - (1 if ps else -1)): return None
            v = m.seg_sum(s2, buf, ZERO, s2.norm(buf.size))
            if v is None: return None
            out.append((s2, v if ps else -v, s2.norm(buf.size)))
    return out
def twos_facts(m, st, v, sg, arr, N):
    """arr[0,N) are the two's-complement digits of v and the top one carries the sign"""
    ok = st.assume_eq(st.norm(P(arr, N) - v - exp2(N.scale(32)).scale(sg)))
    return ok and st.assume_ge(st.norm((E(arr, N - 1) - (1 << 31)).scale(1) if sg else -E(arr, N - 1) + ((1 << 31) - 1)))
def twos_sizes(m, st, v, sg, arr, N, n):
    """states in which arr[0,N) are the digits of v, an integer of n digits; small sizes as constants"""
    c = st.norm(n).cval(); out = []
    for k in [None] if c is None else range(1, c + 2):
        s = st.copy()
        if k is not None and not s.assume_eq(s.norm(N) - k): continue
        if k is None and not s.assume_ge(s.norm(n + 1 - N)): continue
        if twos_facts(m, s, v, sg, arr, s.norm(N)): out.append(s)
    return out
def to_uint32(m, st, f, args, inst):
    r, p = args
    if not isinstance(r, Ptr) or not isinstance(p, Ptr) or p.base[0] != 'o': return None
    vs = objvalue(m, st, p)
    if vs is None: return None
    m.twosused = True
    out = []
    for s, v, n in vs:
        v = s.norm(v)
        for zero, s1 in m.split_eq(s, v):
            s1 = s1.copy()
            if zero:
                stl.newvec(m, s1, r, ZERO, 4, []); out.append(Out('ret', s1)); continue
            for s2, sg in sign_split(m, s1, v):
                s2 = s2.copy()
                arr = ghost_digits(m, s2, s2.norm(v))
                key = ('ndig', arr.id)
                N = m.__dict__.setdefault('ndigits', {}).setdefault(arr.id, None)
                if N is None: N = m.ndigits[arr.id] = fresh('N', 1, (1 << 26) + 1, 0)
                for s3 in twos_sizes(m, s2, v, sg, arr, N, n):
                    stl.newvec(m, s3, r, s3.norm(N), 4, [(ZERO, s3.norm(N), E(arr, BETA))])
                    out.append(Out('ret', s3))
    return out
TABLE['BigInteger::to_uint32_array() const'] = to_uint32
IMAX = (1 << 31) - 1
def make_big(m, st, p, v):
    """object at p := canonical form of the integer v: list of states"""
    o = st.norm(p.off).cval(); out = []
    def put(s, sg, n, segs):
        s.cells[(p.base, o)] = (4, sg)
        stl.newvec(m, s, Ptr(p.base, const(o + 8)), n, 4, segs)
        return s
    for pos, s in m.split_ge(st, v - (IMAX + 1)):
        if pos: cs = [(s, 1)]
        else: cs = [(s2, 0 if ge else -1) for ge, s2 in m.split_ge(s, s.norm(v) + IMAX)]
        for s2, g in cs:
            s2 = s2.copy()
            if g == 0: out.append(put(s2, s2.norm(v), ZERO, [])); continue
            n = fresh('sz', 1, (1 << 27), 0); W = Arr('V', 32)
            if s2.assume_eq(s2.norm(P(W, n) - v.scale(g))) and s2.assume_ge(E(W, n - 1) - 1):
                out.append(put(s2, const(g), n, [(ZERO, n, E(W, BETA))]))
    return out
def ctor_digits(m, st, f, args, inst):
    """the integer with these two's-complement digits"""
    r, p = args
    if not isinstance(r, Ptr) or r.base[0] != 'o': return None
    bid, buf = stl.bufof(m, st, p, inst)
    out = []
    for nz, s in m.split_ge(st, buf.size - 1):
        if not nz: out += [Out('ret', x) for x in make_big(m, s, r, ZERO)]; continue
        v = m.seg_sum(s, buf, ZERO, s.norm(buf.size))
        if v is None: return None
        for s2, t, k in m.seg_find(s, buf, s.norm(buf.size - 1)):
            top = s2.norm(inst_(t, buf, s2.norm(buf.size - 1)))
            for neg, s3 in m.split_ge(s2, top - (1 << 31)):
                w = s3.norm(v - exp2(s3.norm(buf.size).scale(32)) if neg else v)
                out += [Out('ret', x) for x in make_big(m, s3, r, w)]
    return out
TABLE['BigInteger::BigInteger(%s)' % U] = ctor_digits
def remainder1(m, st, f, args, inst):
    """digits mod d"""
    bid, buf = stl.bufof(m, st, args[0], inst)
    d = m.uns(st, args[1], 32)
    if not (st.prove_ge(buf.size - 1) and st.prove_ge(d - 1)): return None
    v = m.seg_sum(st, buf, ZERO, st.norm(buf.size))
    if v is None: return None
    st = st.copy()
    c = fresh('rem', 0, W32 - 1); g = fresh('g', 0)
    if not (st.assume_eq(v - c - d * g) and st.assume_ge(d - 1 - c)): return []
    return [Out('ret', st, st.norm(c))]
TABLE[C + 'remainder(%s const&, unsigned int)' % U] = remainder1

# ---------------------------------------------------------------- pieces of the long division
def leading_zeros(m, st, f, args, inst):
    x = m.uns(st, args[0], 32); out = []
    if st.prove_ge(-x): return [Out('ret', st, const(32))]
    lo, hi = st.range(x)
    for s in range(33):
        a, b = (1 << (31 - s), (1 << (32 - s)) - 1) if s < 32 else (0, 0)
        if hi is not None and hi < a or lo is not None and lo > b: continue
        t = st.copy()
        if t.assume_ge(x - a) and t.assume_ge(b - x): out.append(Out('ret', t, const(s)))
    return out
LZ = C + 'leading_zeros(unsigned int)'
TABLE[LZ] = leading_zeros
def guess(m, st, f, args, inst):
    """q * (divHi, divLo) > (valHi, valLo)"""
    q, vh, vl, dh, dl = args
    q = m.uns(st, q, 64); vh = m.uns(st, vh, 64); vl, dh, dl = (m.uns(st, x, 32) for x in (vl, dh, dl))
    if not st.prove_ge(W32 - 1 - q): return None
    X = vh.scale(W32) + vl; T = dh.scale(W32) + dl
    k = getattr(m, 'knuth', None)
    out = []
    for s, r in ((st.copy(), 1), (st.copy(), 0)):
        if not s.assume_ge(s.norm(q * T - X - 1 if r else X - q * T)): continue
        if k is not None: k.guessed(s, q, T, X, r)
        if r and s.prove_ge(-q): continue
        out.append(Out('ret', s, const(r)))
    return out
GUESS = C + 'divide_guess_too_big(unsigned long, unsigned long, unsigned int, unsigned int, unsigned int)'
TABLE[GUESS] = guess
def sub_divisor(m, st, f, args, inst):
    """left[0,n) := left - q*right + carry*2^(32 n)"""
    l, ln, r, rn, q = args
    ln, rn = m.sgn(st, ln, 32), m.sgn(st, rn, 32); q = m.uns(st, q, 64)
    if not (st.prove_ge(rn) and st.prove_ge(ln - rn) and st.prove_ge(W32 - 1 - q)): return None
    x = digits(m, st, l, rn, inst, 'dividend')
    if x is None: return None
    y = digits(m, x[0], r, rn, inst, 'divisor')
    if y is None: return None
    st = y[0]
    if x[1] is None or not apart(m, st, x, y): return None
    u = value(m, st, *x[2:5]); v = value(m, st, *y[2:5])
    if u is None or v is None: return None
    c = fresh('carry', 0, W32 - 1)
    k = getattr(m, 'knuth', None)
    out = []
    for s in put(m, st, x[1], x[3], rn, u - q * v + c * exp2(st.norm(rn).scale(32)), 'sub'):
        for s2 in (k.subtracted(s, q, c) if k is not None else [s]): out.append(Out('ret', s2, s2.norm(c)))
    return out
SUBD = C + 'subtract_divisor(unsigned int*, int, unsigned int const*, int, unsigned long)'
TABLE[SUBD] = sub_divisor
def add_divisor(m, st, f, args, inst):
    """left[0,n) := left + right - carry*2^(32 n)"""
    l, ln, r, rn = args
    ln, rn = m.sgn(st, ln, 32), m.sgn(st, rn, 32)
    if not (st.prove_ge(rn) and st.prove_ge(ln - rn)): return None
    x = digits(m, st, l, rn, inst, 'dividend')
    if x is None: return None
    y = digits(m, x[0], r, rn, inst, 'divisor')
    if y is None: return None
    st = y[0]
    if x[1] is None or not apart(m, st, x, y): return None
    u = value(m, st, *x[2:5]); v = value(m, st, *y[2:5])
    if u is None or v is None: return None
    out = []
    for c in (0, 1):
        for s in put(m, st, x[1], x[3], rn, u + v - exp2(st.norm(rn).scale(32)).scale(c), 'add'):
            if not s.infeasible(): out.append(Out('ret', s, const(c)))
    return out
ADDD = C + 'add_divisor(unsigned int*, int, unsigned int const*, int)'
TABLE[ADDD] = add_divisor
