"""Conversions of the Python module (analysed in the binding's own IR)."""
from spec import *
from interp import AnalysisError
from units import unit, simple, leak, B
from units4 import byte_of, exported, expected, same_content, EXFORMS, NBYTES
from contracts import C
import contracts, pymodel
from pymodel import PyInt

def pyarg(ctx, case):
    """int argument: (sign, r, k, top): 4k+r significant bytes (magnitude, or two's complement when negative)"""
    sg, r, k, top = case
    st = ctx.st; m = ctx.m
    m.pyints = {}
    base = ('o', ('arg', 'value')); st.alive.add(base)
    if sg == '0': V = ZERO; x = PyInt(False, ZERO, ZERO, ZERO, ZERO, False)
    else:
        D = Arr('D', 32)
        kk = const(k) if k != 'k' else fresh('k', 2, NMAX - 2, 0)
        b = kk.scale(4) + r
        t, w = (E(D, kk), r) if r else (E(D, kk - 1), 4)
        full = 1 << 8 * w
        V = P(D, kk) + (t * exp2(kk.scale(32)) if r else ZERO)
        if sg == '+':
            lo, hi = (full >> 1, full - 1) if top == 'hi' else (full >> 8, (full >> 1) - 1)
            nb = (b.scale(8) - (0 if top == 'hi' else 7), b.scale(8) - (0 if top == 'hi' else 1))
        else:
            V = V - exp2(b.scale(8))
            one = b.cval() == 1
            if one: lo, hi = full >> 1, full - 1; nb = (const(1), const(8))
            elif top == 'lo': lo, hi = full >> 1, full - (full >> 8) - 1; nb = (b.scale(8) - 7, b.scale(8))
            else:
                # the top byte is 0xff and the next one below 0x80: the magnitude has 8(b-1) bits, or one more when it is a power of two
                lo, hi = full - (full >> 8), (full - (full >> 9) - 1 if w > 1 else full - 1); nb = (b.scale(8) - 8, b.scale(8) - 7)
                if w == 1: st.assume_ge(const((1 << 31) - 1) - E(D, kk - 1))
        st.assume_ge(t - lo); st.assume_ge(-t + hi)
        x = PyInt(sg == '-', b, byte_of(lambda q: E(D, q), BETA), nb[0], nb[1], top == 'hi')
    o = pymodel.newpy(m, st, V)
    m.pyints[o.base[1]] = x
    st.cells[(base, 0)] = (8, o)
    ctx.label.append('int %s 4*%s+%s bytes, top %s' % (sg, k, r, top))
    return Ptr(base, ZERO), V
def from_int(ctx, case):
    p, V = pyarg(ctx, case[:4])
    r = ctx.obj('ret')
    return [r, p, const(case[4])], simple(ctx, r, V, ())
PYCASES = [('0', 0, 0, 'lo')] + [('+', r, k, t) for r in range(4) for k in (0, 1, 'k') for t in ('lo', 'hi') if r or k] \
    + [('-', r, k, t) for r in range(4) for k in (0, 1, 'k') for t in ('lo', 'ff') if (r or k) and (t == 'lo' or (r, k) != (1, 0))]
unit('py.from_int', 'to_biginteger(pybind11::int_&, bool)', [c + (be,) for c in PYCASES for be in (0,)], from_int, ('C25',))

def to_int(ctx, case):
    uns, be = case[0], case[1]
    sg, form, w, hi = case[2:]
    ctx.m.pyints = {}
    o, (full, dig, T) = exported(ctx, case[2:])
    r = ctx.obj('ret')
    def post(ctx, ck, out):
        st = out.st
        if st.infeasible(): return
        if uns and sg == '-':
            ck.add('throw', out.kind == 'throw', 'negative value refused as unsigned'); return
        if out.kind == 'throw': return throws(ctx, ck, out)
        expect_unchanged(ctx, ck, out, ['x']); leak(ctx, ck, out)
        v = st.cells.get((r.base, 0))
        g = st.tags.get(('pybytes', v[1].base[1])) if v is not None and isinstance(v[1], Ptr) and v[1].base[0] == 'py' else None
        if g is None: raise Unrecognised('the result is not made from a byte string')
        segs, n, little, signed = g
        if not (little.is_const() and signed.is_const()): raise Unrecognised('byte order not constant')
        le, sd = little.cval() != 0, signed.cval() != 0
        ln, want = expected(st, full, dig, T, w, 1 if hi and sd else 0, sg, not le)
        ck.add('value', sd or sg != '-', 'negative value is handed over as signed')
        ok = st.prove_eq(st.norm(n - ln))
        if not ok: ck.add('value', False, 'length of the byte string', '%s instead of %s; %s' % (n, ln, show(st, ctx))); return
        p = same_content(ctx.m, st, Buf(n, 1, segs, 'vec'), want)
        ck.add('value', p is None, 'the bytes denote the value', p and p + '; ' + show(st, ctx))
    return [r, o.ptr, const(0 if uns else 1), const(be)], post
unit('py.to_int', 'to_py_int(BigInteger const&, bool, bool)', [(u, be) + f for u in (0, 1) for be in (0, 1) for f in EXFORMS], to_int, ('C25',))

def from_buffer(ctx, case):
    st = ctx.st; m = ctx.m
    nd, sg = case
    ctx.label.append('%s dimensions, stride %s' % (nd, sg))
    N = fresh('size', 0, NBYTES, 0); S = fresh('stride', 1, 1 << 31, 0)
    if sg == '-': S = -S
    m.pyints = {}
    fl = fresh('fmtlen', 0, 100, 0)
    m.pybuffer = x = {'itemsize': fresh('itemsize', 0, 1 << 20, 0), 'size': N, 'fmt': Arr('fmt', 8), 'fmtlen': fl, 'ndim': const(nd), 'shape': [N] + [fresh('shape', 0, 1 << 30, 0)] * (nd - 1),
                      'strides': [S] + [fresh('stride', 0, 1 << 30, 0)] * (nd - 1), 'readonly': fresh('readonly', 0, 1, 0), 'arr': Arr('bytes', 8)}
    base = ('o', ('arg', 'b')); st.alive.add(base); st.cells[(base, 0)] = (8, pymodel.newpy(m, st))
    this = ctx.obj('this'); r = ctx.obj('ret')
    def ctor(m, st, f, args, inst):
        st = st.copy()
        b, buf = m.stl.bufof(m, st, args[1], inst)
        st.tags[('made',)] = (buf, m.uns(st, args[2], 1), m.uns(st, args[3], 1))
        m.stl.dropold(st, m.stl.setvec(m, st, Ptr(args[0].base, args[0].off + 8), m.newbuf(st, ZERO, 4, [])))
        st.cells[(args[0].base, st.norm(args[0].off).cval())] = (4, ZERO)
        return [Out('ret', st, None)]
    m.contracts = dict(m.contracts)
    for f in m.mod.fns.values():
        if f['demangled'] == B + 'BigInteger(%s, bool, bool)' % UC: m.contracts[f['name']] = ctor
    def post(ctx, ck, o):
        s = o.st
        if s.infeasible(): return
        eq = s.tags.get(('streq', x['fmt'].id))
        isB = eq is not None and eq[0] and eq[1] == b'B'
        notB = eq is not None and not eq[0] and eq[1] == b'B'
        if o.kind == 'throw':
            ck.add('throw', o.val == 'std::runtime_error' and (notB or nd != 1), 'only buffers of another format are refused', '%s' % (o.val,)); leak(ctx, ck, o); return
        if eq is None and nd == 1: raise Unrecognised('format is not compared')
        ck.add('value', isB and nd == 1, 'only one-dimensional byte buffers are accepted', '%s dimensions, format %s' % (nd, eq))
        g = s.tags.get(('made',))
        if g is None: raise Unrecognised('the value is not made from a byte string')
        buf, uns, be = g
        if nd != 1: return
        ok = s.prove_eq(s.norm(buf.size - N))
        ck.add('value', ok, 'all bytes are read', '%s of %s' % (buf.size, N))
        t = [u for lo, hi, u in buf.segs if not s.prove_ge(lo - hi)]
        ok = ok and same_content(m, s, buf, [(ZERO, N, E(x['arr'], BETA))]) is None
        ck.add('value', ok, 'the bytes of the buffer in order', str(buf))
        ck.add('value', s.prove_eq(uns) and s.prove_eq(be), 'signed, little-endian', '%s %s' % (uns, be))
        leak(ctx, ck, o)
    return [r, this, Ptr(base, ZERO)], post
BUFFN = 'pybind11_init_pybiginteger(pybind11::module_&)::<buffer constructor>'
unit('py.buffer', BUFFN, [(1, '+'), (1, '-'), (0, '+'), (2, '+')], from_buffer, ('C25',))
