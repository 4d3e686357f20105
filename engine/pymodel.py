"""Summaries of the CPython and pybind11 entry points used by the binding's conversions (documented behaviour of the C API)."""
import re
from alg import *
from interp import *
from interp import inst_
import interp

def newpy(m, st, v=None):
    """a new Python int object: its address"""
    k = interp.serial(); st.tags[('py', k)] = v
    return Ptr(('py', k), ZERO)
def pyobj(m, st, p, inst):
    """the Python object a handle at address p refers to"""
    v = st.cells.get((p.base, st.norm(p.off).cval()))
    if v is None or not isinstance(v[1], Ptr) or v[1].base[0] != 'py': raise AnalysisError('no Python object at %s' % (p,))
    return v[1].base[1]
def pyvalue(st, k):
    v = st.tags.get(('py', k))
    if v is None: raise AnalysisError('value of the Python object is not known')
    return v
RELS = {'<': lambda m, s, d: [(not t, x) for t, x in m.split_ge(s, d)], '>=': lambda m, s, d: m.split_ge(s, d),
        '>': lambda m, s, d: [(not t, x) for t, x in m.split_ge(s, -d)], '<=': lambda m, s, d: m.split_ge(s, -d),
        '==': lambda m, s, d: m.split_eq(s, d), '!=': lambda m, s, d: [(not t, x) for t, x in m.split_eq(s, d)]}
RELS['equal'] = RELS['==']; RELS['not_equal'] = RELS['!=']
API = re.compile(r'^pybind11::detail::object_api<pybind11::handle>::(?:operator)?(<=|>=|==|!=|<|>|equal|not_equal|is)\((?:pybind11::detail::object_api<pybind11::handle>) const&\) const$')
def R(st, v=None): return [Out('ret', st, v)]

def model(m, st, f, args, inst):
    dem, nm = f['demangled'], f['name']
    if nm == '_PyLong_NumBits':
        return [Out('ret', s, v) for s, v in m.pyints[handle(args[0])].bits(m, st)]
    if nm == '_PyLong_Sign':
        v = pyvalue(st, handle(args[0]))
        return [Out('ret', s2, const(1) if pos else ZERO if ge else const(-1)) for ge, s in m.split_ge(st, v) for pos, s2 in (m.split_ge(s, v - 1) if ge else [(False, s)])]
    if nm == '_PyLong_AsByteArray': return as_bytes(m, st, args, inst)
    if nm == '_PyLong_FromByteArray':
        p, n, little, signed = args[0], m.uns(st, args[1], 64), m.sgn(st, args[2], 32), m.sgn(st, args[3], 32)
        st = st.copy()
        a = st.norm(p.off) if p.base != ('null',) else ZERO
        buf = st.bufs.get(p.base[1]) if p.base[0] == 'b' else None
        if buf is None:
            if not st.prove_eq(n): m.ob('mem', False, inst, st, 'bytes of released storage are read'); return []
            buf = Buf(ZERO, 1, (), 'vec')
        st = m.stl.check_range(m, st, buf, a, a + n, inst, 'bytes handed to Python')
        if st is None: return []
        res = []
        for s, segs in m.stl.slices(m, st, buf, a, a + n, ZERO):
            s = s.copy(); o = newpy(m, s)
            s.tags[('pybytes', o.base[1])] = (tuple(segs), s.norm(n), s.norm(little), s.norm(signed))
            res.append(Out('ret', s, o))
        return res
    if not dem.startswith('pybind11::'):
        if dem.startswith('pybind11::int_ pybind11::reinterpret_'):
            st = st.copy(); dst = args[0]; h = args[1]
            o = h if isinstance(h, Ptr) and h.base[0] == 'py' else st.cells[(h.base, st.norm(h.off).cval())][1]
            st.cells[(dst.base, st.norm(dst.off).cval())] = (8, o)
            return R(st)
        return None
    mt = API.match(dem)
    if mt:
        a, b = pyobj(m, st, args[0], inst), pyobj(m, st, args[1], inst)
        d = pyvalue(st, a) - pyvalue(st, b)
        if mt.group(1) == 'is':
            if a == b: return R(st, const(1))
            # equal values need not be the same object (bool, subclasses, large values)
            return [o for eq, s in m.split_eq(st, d) for o in ([Out('ret', s, const(1)), Out('ret', s.copy(), ZERO)] if eq else [Out('ret', s, ZERO)])]
        return [Out('ret', s, const(int(t))) for t, s in RELS[mt.group(1)](m, st, d)]
    mt = re.match(r'^pybind11::int_::int_<(int|long|unsigned int|unsigned long|long long), 0>\(', dem)
    if mt:
        st = st.copy(); w = 32 if 'int' in mt.group(1) else 64
        v = m.uns(st, args[1], w) if 'unsigned' in mt.group(1) else m.sgn(st, args[1], w)
        st.cells[(args[0].base, st.norm(args[0].off).cval())] = (8, newpy(m, st, v))
        return R(st)
    if re.match(r'^pybind11::(int_|object|handle|buffer)::~', dem): return R(st)
    if dem.startswith('pybind11::buffer::request('): return request(m, st, args, inst)
    if dem.startswith('pybind11::buffer_info::~buffer_info'):
        st = st.copy(); b = args[0].base
        for k in [k for k in st.cells if k[0] == b]:
            v = st.cells.pop(k)[1]
            if isinstance(v, Vec): st.bufs.pop(v.buf, None)
        return R(st)
    return None
def handle(p):
    if not isinstance(p, Ptr) or p.base[0] != 'py': raise AnalysisError('no Python object: %s' % (p,))
    return p.base[1]

class PyInt:
    """an int argument: b significant bytes with the content T (a template), in two's complement when negative"""
    def __init__(self, neg, b, T, lo, hi, top):
        self.neg = neg; self.b = b; self.T = T; self.lo = lo; self.hi = hi; self.top = top
    def bits(self, m, st):
        if self.b == ZERO: return [(st, ZERO)]
        # bits = 8b - j: one case per j (the number of leading zero bits of the top byte of the magnitude)
        d = (self.hi - self.lo)
        return [(st.copy(), self.lo + i) for i in range(int(d.cval()) + 1)]
def as_bytes(m, st, args, inst):
    x = m.pyints[handle(args[0])]
    p = args[1]; n = m.uns(st, args[2], 64); little = m.sgn(st, args[3], 32); signed = m.sgn(st, args[4], 32)
    if not (little.is_const() and signed.is_const()): raise AnalysisError('byte order of a conversion is not constant')
    little, signed = little.cval() != 0, signed.cval() != 0
    if x.neg and not signed: return R(st, const(-1))
    need = x.b + (1 if signed and not x.neg and x.top else 0)
    res = []
    for fits, s in m.split_ge(st, n - need):
        if not fits: res.append(Out('ret', s, const(-1))); continue
        if s.prove_eq(n): res.append(Out('ret', s, ZERO)); continue
        buf = s.bufs.get(p.base[1]) if p.base[0] == 'b' else None
        if buf is None: m.ob('mem', False, inst, s, 'bytes written to released storage'); continue
        a = s.norm(p.off)
        s = m.stl.check_range(m, s, buf, a, a + n, inst, 'bytes written by Python')
        if s is None: continue
        fill = const(255 if x.neg else 0)
        T = x.T if x.b != ZERO else ZERO
        if little: segs = [(a, a + x.b, inst_t(T, BETA - a)), (a + x.b, a + n, fill)]
        else: segs = [(a, a + n - x.b, fill), (a + n - x.b, a + n, inst_t(T, a + n - 1 - BETA))]
        sts = [s]
        for lo, hi, t in segs:
            nx = []
            for s1 in sts:
                if s1.norm(lo) == s1.norm(hi): nx.append(s1); continue
                for ne, s2 in m.split_ge(s1, s1.norm(hi - lo) - 1): nx += m.store_seg(s2, p.base[1], lo, hi, t) if ne else [s2]
            sts = nx
        res += [Out('ret', s1, ZERO) for s1 in sts]
    return res
def inst_t(t, at): return t if t.is_const() else inst(t, 8, at)

def request(m, st, args, inst):
    b = args[0].base; o0 = st.norm(args[0].off).cval()
    st = st.copy()
    x = m.pybuffer
    def put(o, sz, v): st.cells[(b, o0 + o)] = (sz, v)
    put(0, 8, Ptr(('ext', 0), ZERO)); put(8, 8, x['itemsize']); put(16, 8, x['size'])
    put(24, 32, Vec(m.newbuf(st, x['fmtlen'], 1, [(ZERO, x['fmtlen'], E(x['fmt'], BETA))], 'str')))
    put(56, 8, x['ndim'])
    n = x['ndim'].cval()
    put(64, 24, Vec(m.newbuf(st, const(n), 8, [(const(i), const(i + 1), x['shape'][i]) for i in range(n)] or [(ZERO, ZERO, ZERO)])))
    put(88, 24, Vec(m.newbuf(st, const(n), 8, [(const(i), const(i + 1), x['strides'][i]) for i in range(n)] or [(ZERO, ZERO, ZERO)])))
    put(112, 1, x['readonly'])
    return R(st)
def ext_load(m, st, off, ty, inst):
    """a byte of the exported buffer: element i is at i * stride"""
    from annot import exact
    x = m.pybuffer
    if x['ndim'] != const(1):
        m.ob('value', False, inst, st, 'only one-dimensional buffers are read', lambda: '%s dimensions' % x['ndim'])
        return fresh('ext', 0, 255)
    if ty != 'i8': raise AnalysisError('access to the exported buffer')
    off = st.norm(off); i = ZERO if off == ZERO else exact(st, off, x['strides'][0])
    m.ob('value', i is not None, inst, st, 'an element of the exported buffer is read', lambda: 'offset %s, stride %s' % (off, x['strides'][0]))
    if i is None: return fresh('ext', 0, 255)
    ok = st.prove_ge(i) and st.prove_ge(x['size'] - 1 - i)
    m.ob('mem', ok, inst, st, 'read inside the exported buffer', lambda: 'element %s of %s' % (i, x['size']))
    return E(x['arr'], i)
