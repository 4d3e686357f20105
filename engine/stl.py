"""Models of the library calls, by resolved (demangled) callee."""
import re
from alg import *
from interp import *
from interp import _floordiv, inst_
import pymodel
import interp

EW = {'unsigned int': 4, 'unsigned char': 1, 'char': 1, 'signed char': 1, 'unsigned long': 8, 'long': 8, 'int': 4, 'unsigned short': 2, 'bool': None,
      'unsigned long long': 8}
VEC = re.compile(r'^std::vector<([a-z ]+), std::allocator<[a-z ]+>\s*>::(.*)$')
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
MAXSZ = 1 << 48

def R(st, v=None): return [Out('ret', st, v)]

def vecof(m, st, p, inst):
    e = st.cells.get((p.base, st.norm(p.off).cval()))
    if e is None or not isinstance(e[1], Vec):
        m.ob('mem', False, inst, st, 'use of a container outside its lifetime')
        raise AnalysisError('no container at %s (%s)' % (p, loc(inst)))
    return e[1].buf
def bufof(m, st, p, inst):
    b = vecof(m, st, p, inst)
    return b, st.bufs[b]
def setvec(m, st, p, bid):
    key = (p.base, st.norm(p.off).cval())
    old = st.cells.get(key)
    st.cells[key] = (24, Vec(bid))
    if st.ghost.get('watch') and p.base in st.ghost['watch']:
        st.trail = st.trail + (('write', p.base, key[1], None),)
    return old
def dropold(st, old, keep=None):
    if old is not None and isinstance(old[1], Vec) and old[1].buf != keep: st.bufs.pop(old[1].buf, None)
def newvec(m, st, p, size, w, segs, kind='vec'):
    bid = m.newbuf(st, size, w, segs, kind)
    dropold(st, setvec(m, st, p, bid))
    return bid
def uninit_seg(n, w): return [(ZERO, n, E(Arr('uninit', 8 * w), BETA))]

def slices(m, st, buf, a, b, dest):
    """content [a,b) moved to start at dest: [(st, segs)]"""
    a = st.norm(a); b = st.norm(b)
    if a == b: return [(st, [])]
    out = []
    d = dest - a
    for s1, seg1 in m.cut(st, buf, a, False):
        if not seg1: continue
        b2 = Buf(buf.size, buf.w, tuple(seg1), buf.kind)
        for s2, seg2 in m.cut(s1, b2, b, True):
            out.append((s2, [(lo + d, hi + d, inst(t, 8 * buf.w, BETA - d)) for lo, hi, t in seg2]))
    return out

def reversed_segs(segs, n, w, d=ZERO):
    """content [0, n) in the opposite order, from d on"""
    return [(n - hi + d, n - lo + d, inst(t, 8 * w, n - 1 + d - BETA)) for lo, hi, t in reversed(segs)]
def revbase(m, st, p):
    """the iterator inside a std::reverse_iterator object"""
    e = st.cells.get((p.base, st.norm(p.off).cval())) if isinstance(p, Ptr) else None
    if e is None or not isinstance(e[1], Ptr): raise AnalysisError('reverse iterator %s' % (p,))
    return e[1]
def rangeof(m, st, p, q, inst, what):
    """iterator pair into one buffer -> (bufid, buf, a, b) or None for an empty/unusable range"""
    if p.base != q.base: 
        m.ob('mem', False, inst, st, '%s: both iterators belong to one container' % what); raise AnalysisError('iterator pair %s %s at %s' % (p, q, loc(inst)))
    if p.base[0] == 'null': return None
    if p.base[0] == 'g': raise AnalysisError('range over a global')
    if p.base[0] == 'o': raise AnalysisError('range over object')
    buf = st.bufs.get(p.base[1])
    if buf is None:
        m.ob('mem', False, inst, st, '%s over released or reallocated storage' % what); raise AnalysisError('dangling range')
    a = divoff(st, p.off, buf.w, inst); b = divoff(st, q.off, buf.w, inst)
    return p.base[1], buf, a, b

def check_range(m, st, buf, a, b, inst, what):
    ok = st.prove_ge(a) and st.prove_ge(b - a) and st.prove_ge(buf.size - b)
    m.ob('mem', ok, inst, st, what + ' inside the storage', lambda: 'range [%s, %s) of %s' % (st.norm(a), st.norm(b), st.norm(buf.size)))
    if ok: return st
    st = st.copy()
    if m.optimistic: return st
    if not (st.assume_ge(a) and st.assume_ge(b - a) and st.assume_ge(buf.size - b)): return None
    return st

def szarg(m, st, p, inst):
    n = m.uns(st, p, 64)
    ok = st.prove_ge(-n + MAXSZ)
    m.ob('mem', ok, inst, st, 'requested size is sane', lambda: 'size %s' % n)
    if not ok:
        st = st.copy()
        if not m.optimistic and not st.assume_ge(-n + MAXSZ): return None, None
    return st, n

def loadelem(m, st, p, w, inst):
    return m.load(st, p, 'i%d' % (8 * w), inst)

def vmethod(m, st, ew, name, sig, f, args, inst):
    w = EW.get(ew)
    if w is None: return None
    ty = 'i%d' % (8 * w)
    me = args[0] if args else None
    n = name
    if n == 'vector':
        st = st.copy()
        if sig == '()' or sig.startswith('(std::allocator'):
            newvec(m, st, me, ZERO, w, []); return R(st)
        if sig.startswith('(unsigned long, std::allocator'):
            st, k = szarg(m, st, args[1], inst)
            if st is None: return []
            st = st.copy(); newvec(m, st, me, k, w, [(ZERO, k, ZERO)]); return R(st)
        if sig.startswith('(unsigned long, %s const&' % ew):
            st, k = szarg(m, st, args[1], inst)
            if st is None: return []
            res = []
            for s, v in loadelem(m, st, args[2], w, inst):
                s = s.copy(); newvec(m, s, me, k, w, [(ZERO, k, m.uns(s, v, 8 * w))]); res += R(s)
            return res
        if sig.startswith('(std::vector') and '&&' in sig:
            b, buf = bufof(m, st, args[1], inst)
            old = setvec(m, st, me, b); dropold(st, old, b)
            e = m.newbuf(st, ZERO, w, []); setvec(m, st, args[1], e)
            return R(st)
        if sig.startswith('(std::vector'):
            b, buf = bufof(m, st, args[1], inst)
            newvec(m, st, me, buf.size, w, buf.segs); return R(st)
        if sig.startswith('(std::initializer_list'):
            p, k = args[1], st.norm(args[2])
            return [Out('ret', s) for s in copyinto_new(m, st, me, p, k, w, inst)]
        return None
    if n.startswith('vector<') or (n == 'assign' or n.startswith('assign<')) and 'iterator' in sig + n or n.startswith('vector<'):
        if len(args) >= 3 and isinstance(args[1], Ptr) and isinstance(args[2], Ptr):
            rev = 'reverse_iterator' in n + sig
            if rev: args = [args[0], revbase(m, st, args[2]), revbase(m, st, args[1])]
            r = rangeof(m, st, args[1], args[2], inst, 'copied range')
            if r is None:
                st = st.copy(); newvec(m, st, me, ZERO, w, []); return R(st)
            bid, buf, a, b = r
            if buf.w != w: return None
            st = check_range(m, st, buf, a, b, inst, 'copied range')
            if st is None: return []
            res = []
            for s, segs in slices(m, st, buf, a, b, ZERO):
                s = s.copy()
                if rev: segs = reversed_segs(segs, s.norm(b - a), w)
                newvec(m, s, me, s.norm(b - a), w, m.tidy(s, segs)); res += R(s)
            return res
        return None
    if n == '~vector':
        st = st.copy(); key = (me.base, st.norm(me.off).cval())
        e = st.cells.get(key)
        if e is None or not isinstance(e[1], Vec):
            m.ob('mem', False, inst, st, 'destruction of a container outside its lifetime'); return R(st)
        if e[1].buf not in st.bufs: m.ob('mem', False, inst, st, 'double release of storage')
        st.bufs.pop(e[1].buf, None); del st.cells[key]
        return R(st)
    if n == 'operator=':
        if me == args[1]: return R(st, me)
        st = st.copy()
        if '&&' in sig:
            b, buf = bufof(m, st, args[1], inst)
            old = setvec(m, st, me, b); dropold(st, old, b)
            e = m.newbuf(st, ZERO, w, []); setvec(m, st, args[1], e)
            return R(st, me)
        if sig.startswith('(std::initializer_list'):
            return [Out('ret', s, me) for s in copyinto_new(m, st, me, args[1], st.norm(args[2]), w, inst)]
        b, buf = bufof(m, st, args[1], inst)
        newvec(m, st, me, buf.size, w, buf.segs); return R(st, me)
    if n not in VM: return None
    bid, buf = bufof(m, st, me, inst)
    if n == 'size' or n == 'length': return R(st, buf.size)
    if n == 'capacity': return R(st, buf.size)
    if n == 'max_size': return R(st, const((1 << 63) // w - 1))
    if n == 'empty': return [Out('ret', s, const(int(t))) for t, s in m.split_eq(st, buf.size)]
    if n in ('data', 'begin', 'cbegin'): return R(st, Ptr(('b', bid), ZERO))
    if n in ('end', 'cend'): return R(st, Ptr(('b', bid), buf.size.scale(w)))
    if n == 'operator[]':
        i = m.uns(st, args[1], 64)
        return R(st, Ptr(('b', bid), i.scale(w)))
    if n == 'at':
        i = m.uns(st, args[1], 64)
        return [Out('ret', s, Ptr(('b', bid), i.scale(w))) if t else Out('throw', s, 'std::out_of_range', inst) for t, s in m.split_ge(st, buf.size - i - 1)]
    if n == 'front': return R(st, Ptr(('b', bid), ZERO))
    if n == 'back': return R(st, Ptr(('b', bid), (buf.size - 1).scale(w)))
    if n in ('push_back', 'emplace_back') or n.startswith('emplace_back<'):
        res = []
        if len(args) > 1:
            vs = loadelem(m, st, args[1], w, inst)
        else: vs = [(st, ZERO)]
        for s, v in vs:
            s = s.copy(); v = m.uns(s, v, 8 * w)
            segs = m.tidy(s, list(buf.segs) + [(buf.size, buf.size + 1, v)])
            nb = newvec(m, s, me, buf.size + 1, w, segs)
            res += R(s, Ptr(('b', nb), buf.size.scale(w)) if n != 'push_back' else None)
        return res
    if n == 'pop_back':
        ok = st.prove_ge(buf.size - 1)
        m.ob('mem', ok, inst, st, 'removal from a non-empty container')
        st = st.copy()
        if not ok and not m.optimistic and not st.assume_ge(buf.size - 1): return []
        res = []
        for s, segs in m.cut(st, buf, buf.size - 1, True):
            s = s.copy(); s.bufs[bid] = Buf(s.norm(buf.size - 1), w, tuple(m.tidy(s, segs)), buf.kind); res += R(s)
        return res
    if n == 'clear':
        st = st.copy(); st.bufs[bid] = Buf(ZERO, w, (), buf.kind)
        if st.ghost.get('watch') and me.base in st.ghost['watch']: st.trail = st.trail + (('write', me.base, st.norm(me.off).cval(), None),)
        return R(st)
    if n in ('reserve', 'shrink_to_fit'):
        st = st.copy(); newvec(m, st, me, buf.size, w, buf.segs); return R(st)
    if n in ('resize', 'assign'):
        st, k = szarg(m, st, args[1], inst)
        if st is None: return []
        res = []
        vs = [(st, ZERO)] if len(args) < 3 else loadelem(m, st, args[2], w, inst)
        for s, v in vs:
            v = m.uns(s, v, 8 * w)
            if n == 'assign':
                s = s.copy(); newvec(m, s, me, k, w, [(ZERO, k, v)]); res += R(s); continue
            for t, s2 in m.split_ge(s, k - buf.size):
                if t:
                    s2 = s2.copy(); newvec(m, s2, me, k, w, m.tidy(s2, list(buf.segs) + [(buf.size, k, v)])); res += R(s2)
                else:
                    for s3, segs in m.cut(s2, buf, k, True):
                        s3 = s3.copy(); s3.bufs[bid] = Buf(k, w, tuple(m.tidy(s3, segs)), buf.kind); res += R(s3)
        return res
    if n == 'swap':
        st = st.copy()
        b2, buf2 = bufof(m, st, args[1], inst)
        setvec(m, st, me, b2); setvec(m, st, args[1], bid)
        return R(st)
    if n == 'erase':
        if len(args) >= 3 and isinstance(args[2], Ptr) and args[2].base == ('b', bid):
            a = divoff(st, args[1].off, w, inst); b = divoff(st, args[2].off, w, inst)
        else:
            a = divoff(st, args[1].off, w, inst); b = a + 1
        st = check_range(m, st, buf, a, b, inst, 'erased range')
        if st is None: return []
        res = []
        for s, segs in m.cut(st, buf, a, True):
            for s2, seg2 in slices(m, s, buf, b, buf.size, a):
                s2 = s2.copy(); s2.bufs[bid] = Buf(s2.norm(buf.size - (b - a)), w, tuple(m.tidy(s2, segs + seg2)), buf.kind)
                res += R(s2, Ptr(('b', bid), a.scale(w)))
        return res
    return None
VM = {'size', 'length', 'capacity', 'max_size', 'empty', 'data', 'begin', 'cbegin', 'end', 'cend', 'operator[]', 'at', 'front', 'back', 'push_back',
      'emplace_back', 'pop_back', 'clear', 'reserve', 'shrink_to_fit', 'resize', 'assign', 'swap', 'erase'}

def copyinto_new(m, st, me, p, k, w, inst):
    """new container at me with k elements copied from p"""
    st = st.copy()
    if p.base[0] == 'g':
        g = m.mod.globals.get(p.base[1]); ini = g and g.get('init')
        c = st.norm(k).cval()
        if not ini or c is None: raise AnalysisError('initialiser from %s' % (p,))
        o = st.norm(p.off).cval()
        vals = [int(x) for x in ini[2:]] if ini[0] == 'arr' else ([0] * (ini[1] // w) if ini[0] == 'zero' else [int(ini[2])])
        vals = vals[o // w:o // w + c]
        newvec(m, st, me, k, w, [(const(j), const(j + 1), const(v % (1 << (8 * w)))) for j, v in enumerate(vals)]); return [st]
    if p.base[0] == 'o':
        c = st.norm(k).cval(); o = st.norm(p.off).cval()
        segs = []
        for j in range(c):
            e = st.cells.get((p.base, o + j * w))
            if e is None: raise AnalysisError('initialiser list element')
            segs.append((const(j), const(j + 1), m.uns(st, e[1], 8 * w)))
        newvec(m, st, me, k, w, segs); return [st]
    buf = st.bufs.get(p.base[1])
    if buf is None: raise AnalysisError('copy from released storage at %s' % loc(inst))
    a = divoff(st, p.off, w, inst)
    st = check_range(m, st, buf, a, a + k, inst, 'copied range')
    if st is None: return []
    res = []
    for s, segs in slices(m, st, buf, a, a + k, ZERO):
        s = s.copy(); newvec(m, s, me, k, w, m.tidy(s, segs)); res.append(s)
    return res

def do_copy(m, st, first, last, dest, inst, backward=False, rev=False):
    """std::copy family; returns [(st, destend)]"""
    if first == last: return [(st, dest)]
    r = rangeof(m, st, first, last, inst, 'copied range')
    if r is None: return [(st, dest)]
    bid, buf, a, b = r
    st = check_range(m, st, buf, a, b, inst, 'source range')
    if st is None: return []
    n = st.norm(b - a)
    if dest.base[0] != 'b':
        raise AnalysisError('copy to %s' % (dest,))
    db = st.bufs.get(dest.base[1])
    if db is None:
        m.ob('mem', False, inst, st, 'copy into released storage'); return []
    if db.w != buf.w: raise AnalysisError('copy between element sizes')
    d = divoff(st, dest.off, db.w, inst)
    if backward: d = d - n
    st = check_range(m, st, db, d, d + n, inst, 'destination range')
    if st is None: return []
    res = []
    for t, s in m.split_ge(st, n - 1):
        if not t: res.append((s, dest)); continue
        for s2, segs in slices(m, s, buf, a, b, ZERO if rev else d):
            if rev: segs = reversed_segs(segs, s2.norm(n), buf.w, d)
            db2 = s2.bufs[dest.base[1]]
            for s3, pre in m.cut(s2, db2, d, True):
                for s4, post in m.cut(s3, db2, d + n, False):
                    s4 = s4.copy(); s4.bufs[dest.base[1]] = Buf(db2.size, db2.w, tuple(m.tidy(s4, pre + segs + post)), db2.kind)
                    res.append((s4, Ptr(dest.base, dest.off + n.scale(db2.w)) if not backward else Ptr(dest.base, d.scale(db2.w))))
    return res

def do_fill(m, st, p, n, v, inst):
    """fill n elements from p with v"""
    if p.base[0] != 'b': raise AnalysisError('fill of %s at %s' % (p, loc(inst)))
    buf = st.bufs.get(p.base[1])
    if buf is None:
        m.ob('mem', False, inst, st, 'fill of released storage'); return []
    a = divoff(st, p.off, buf.w, inst)
    st = check_range(m, st, buf, a, a + n, inst, 'filled range')
    if st is None: return []
    res = []
    for t, s in m.split_ge(st, n - 1):
        if not t: res.append(s); continue
        res += m.store_seg(s, p.base[1], a, a + n, v)
    return res

def veceq(m, st, b1, b2):
    """[(bool, st)] content equality of two buffers"""
    if b1 is b2: return [(True, st)]
    res = []
    for t, s in m.split_eq(st, b1.size - b2.size):
        if not t: res.append((False, s)); continue
        x = m.seg_sum(s, b1, ZERO, b1.size); y = m.seg_sum(s, b2, ZERO, b1.size)
        if x is None or y is None:
            res.append((True, s.copy())); res.append((False, s)); continue
        for t2, s2 in m.split_eq(s, x - y): res.append((t2, s2))
    return res

NOOP = re.compile(r'^(std::(__new_)?allocator<.*>::~?(__new_)?allocator\(.*\)|std::__new_allocator<.*>::~?__new_allocator\(.*\)|std::exception::~?exception\(.*\)'
                  r'|std::(overflow_error|out_of_range|runtime_error|logic_error|invalid_argument|domain_error|length_error|range_error|underflow_error)::~?\w+\(.*\)'
                  r'|DivideByZero::~?DivideByZero\(.*\))$')

def model(m, st, f, args, inst):
    dem = f['demangled']; nm = f['name']
    if nm.startswith('llvm.'): return intrinsic(m, st, nm, f, args, inst)
    if 'pybind11::' in dem or nm.startswith('_PyLong_'):
        r = pymodel.model(m, st, f, args, inst)
        if r is not None: return r
    mt = VEC.match(dem)
    if mt:
        ew, rest = mt.group(1), mt.group(2)
        if rest.startswith('operator[]'): name, sig = 'operator[]', rest[len('operator[]'):]
        else:
            # method name up to the parameter list (templates may contain parentheses rarely)
            d = 0; k = 0
            for k, ch in enumerate(rest):
                if ch == '<': d += 1
                elif ch == '>': d -= 1
                elif ch == '(' and d == 0: break
            name, sig = rest[:k], rest[k:]
            if name.startswith('emplace_back<'): name = 'emplace_back'
        r = vmethod(m, st, ew, name, sig, f, args, inst)
        if r is not None: return r
    elif ' std::vector<' in dem[:30] and '::emplace_back<' in dem:
        mm = re.search(r'std::vector<([a-z ]+), ', dem)
        r = vmethod(m, st, mm.group(1), 'emplace_back', '', f, args, inst)
        if r is not None: return r
    if NOOP.match(dem): return R(st)
    if (dem.startswith('bool std::operator==<char,') or dem.startswith('bool std::operator!=<char,')) and 'basic_string' in dem:
        r = streq(m, st, dem, args, inst)
        return [Out('ret', s, const(int(t == ('==' in dem[:20])))) for t, s in r]
    if dem.startswith('bool std::operator==<') and 'std::vector<' in dem or dem.startswith('bool std::operator!=<') and 'std::vector<' in dem:
        b1 = bufof(m, st, args[0], inst)[1]; b2 = bufof(m, st, args[1], inst)[1]
        neg = '!=' in dem[:24]
        return [Out('ret', s, const(int(t != neg))) for t, s in veceq(m, st, b1, b2)]
    h = dem.split('(')[0]
    if 'std::reverse<' in h and len(args) == 2:
        return [Out('ret', s) for s, d in do_copy(m, st, args[0], args[1], args[0], inst, rev=True)]
    if 'std::reverse_copy<' in h and len(args) == 3:
        return [Out('ret', s, d) for s, d in do_copy(m, st, args[0], args[1], args[2], inst, rev=True)]
    if 'std::copy<' in h and 'reverse_iterator' in h and isinstance(args[0], Ptr) and isinstance(args[1], Ptr):
        return [Out('ret', s, d) for s, d in do_copy(m, st, revbase(m, st, args[1]), revbase(m, st, args[0]), args[2], inst, rev=True)]
    if 'reverse_iterator' in h and ('std::copy' in h or 'std::move' in h or 'std::fill' in h): raise AnalysisError('%s at %s' % (dem, loc(inst)))
    if 'std::copy<' in dem or 'std::move<' in dem and len(args) == 3:
        return [Out('ret', s, d) for s, d in do_copy(m, st, args[0], args[1], args[2], inst)]
    if 'std::copy_backward<' in dem:
        return [Out('ret', s, d) for s, d in do_copy(m, st, args[0], args[1], args[2], inst, True)]
    if 'std::copy_n<' in dem and len(args) == 3:
        w = st.bufs[args[0].base[1]].w if args[0].base[0] == 'b' and args[0].base[1] in st.bufs else 4
        n = m.sgn(st, args[1], 64)
        return [Out('ret', s, d) for s, d in do_copy(m, st, args[0], Ptr(args[0].base, args[0].off + n.scale(w)), args[2], inst)]
    if 'std::fill<' in dem:
        if args[0] == args[1]: return R(st)
        r = rangeof(m, st, args[0], args[1], inst, 'filled range')
        if r is None: return R(st)
        bid, buf, a, b = r
        # type of the value
        mm = re.search(r', ([a-z ]+)>\(', dem)
        vt = {'int': 'i32', 'unsigned int': 'i32', 'unsigned char': 'i8', 'char': 'i8', 'long': 'i64', 'unsigned long': 'i64'}.get(mm.group(1).strip() if mm else '')
        if vt is None: raise AnalysisError('fill value type in %s' % dem)
        res = []
        for s, v in m.load(st, args[2], vt, inst):
            res += [Out('ret', s2) for s2 in do_fill(m, s, args[0], s.norm(b - a), m.uns(s, v, 8 * buf.w), inst)]
        return res
    if 'std::fill_n<' in dem:
        mm = re.findall(r', ([a-z ]+)(?=[,>])', dem.split('(')[0])
        vt = {'int': 'i32', 'unsigned int': 'i32', 'unsigned char': 'i8', 'char': 'i8', 'long': 'i64', 'unsigned long': 'i64'}.get(mm[-1].strip() if mm else '')
        if vt is None: raise AnalysisError('fill value type in %s' % dem)
        buf = st.bufs.get(args[0].base[1]); n = m.sgn(st, args[1], 64)
        res = []
        for s, v in m.load(st, args[2], vt, inst):
            for s2 in do_fill(m, s, args[0], n, m.uns(s, v, 8 * buf.w), inst): res.append(Out('ret', s2, Ptr(args[0].base, args[0].off + n.scale(buf.w))))
        return res
    if nm == '__assert_fail':
        if m.ob_assert(inst, st): pass
        return []
    if nm == '__cxa_allocate_exception': return R(st, Ptr(('exc',), ZERO))
    if nm in ('__cxa_free_exception', '__cxa_end_catch'): return R(st)
    if nm == '__cxa_begin_catch':
        s = st.copy(); s.tags['caught'] = s.tags.pop('exc', None); return R(s, Ptr(('exc',), ZERO))
    if nm == '__cxa_rethrow':
        s = st.copy(); return [Out('throw', s, s.tags.get('caught'), inst)]
    if nm == '__cxa_throw':
        t = args[1].base[1] if isinstance(args[1], Ptr) and args[1].base[0] == 'g' else '?'
        g = m.mod.globals.get(t)
        name = (g['demangled'] if g else t).replace('typeinfo for ', '')
        return [Out('throw', st, name, inst)]
    if nm in ('__clang_call_terminate', '_ZSt9terminatev', 'abort', 'exit'):
        m.ob('crash', False, inst, st, 'process termination'); return []
    if nm in ('_Znam', '_Znwm', 'malloc'):
        n = m.uns(st, args[0], 64)
        ok = st.prove_ge(-n + MAXSZ); m.ob('mem', ok, inst, st, 'requested size is sane', lambda: 'size %s' % n)
        s = st.copy(); b = m.newbuf(s, n, 1, uninit_seg(n, 1), 'heap:' + nm)
        s.tags[('heap', b)] = loc(inst)
        return R(s, Ptr(('b', b), ZERO))
    if nm in ('_ZdaPv', '_ZdlPv', '_ZdaPvm', '_ZdlPvm', 'free'):
        p = args[0]
        if p.base[0] == 'null': return R(st)
        if p.base[0] != 'b': raise AnalysisError('delete of %s' % (p,))
        b = st.bufs.get(p.base[1])
        if b is None:
            m.ob('mem', False, inst, st, 'double release of storage'); return R(st)
        pair = {'heap:_Znam': '_Zda', 'heap:_Znwm': '_Zdl', 'heap:malloc': 'fre'}.get(b.kind)
        m.ob('leak', pair is not None and nm.startswith(pair) and st.norm(p.off) == ZERO, inst, st, 'release matches the allocation')
        s = st.copy(); del s.bufs[p.base[1]]; s.tags.pop(('heap', p.base[1]), None)
        return R(s)
    if dem.startswith(STR): return string(m, st, dem[len(STR):], f, args, inst)
    if dem.startswith('std::__cxx11::to_string('):
        s = st.copy()
        v = m.sgn(s, args[1], 32) if '(int)' in dem else m.sgn(s, args[1], 64)
        n = fresh('len', 1, 32)
        b, arr = m.freshbuf(s, 'dec', n, 1, 'str')
        dropold(s, setvec(m, s, args[0], b)); s.tags[('dec', b)] = v
        return R(s)
    if f['decl']:
        if f['ret'] in ('double', 'float') or nm in ('log', 'nan', 'log10', 'pow', 'floor', 'ldexp'):
            return R(st, FP((nm,) + tuple(a.expr if isinstance(a, FP) else str(a) for a in args)))
        if nm.startswith('_ZNSt8ios_base4Init') or nm == '__cxa_atexit': return R(st)
    return None

def string(m, st, rest, f, args, inst):
    name = rest.split('(')[0]; sig = rest[len(name):]
    me = args[0]
    if name.startswith('basic_string'):
        st = st.copy()
        if sig.startswith('(char const*, unsigned long'):
            n = m.uns(st, args[2], 64); p = args[1]
            if p.base[0] != 'b': raise AnalysisError('string from %s' % (p,))
            return [Out('ret', s) for s in mkstr(m, st, me, p, n, inst)]
        if sig.startswith('(char const*'):
            p = args[1]
            if p.base[0] == 'g':
                g = m.mod.globals[p.base[1]]; ini = g['init']; o = st.norm(p.off).cval()
                vals = [int(x) % 256 for x in ini[2:]][o:]
                vals = vals[:vals.index(0)]
                dropold(st, setvec(m, st, me, m.newbuf(st, const(len(vals)), 1, [(const(i), const(i + 1), const(v)) for i, v in enumerate(vals)], 'str')))
                return R(st)
            raise AnalysisError('string from %s' % (p,))
        if sig.startswith('(std::__cxx11::basic_string') and '&&' in sig:
            b, buf = bufof(m, st, args[1], inst)
            dropold(st, setvec(m, st, me, b), b); setvec(m, st, args[1], m.newbuf(st, ZERO, 1, [], 'str')); return R(st)
        if sig.startswith('(std::__cxx11::basic_string'):
            b, buf = bufof(m, st, args[1], inst)
            nb = m.newbuf(st, buf.size, 1, buf.segs, 'str')
            if ('dec', b) in st.tags: st.tags[('dec', nb)] = st.tags[('dec', b)]
            dropold(st, setvec(m, st, me, nb)); return R(st)
        if sig == '()' or sig.startswith('(std::allocator'):
            dropold(st, setvec(m, st, me, m.newbuf(st, ZERO, 1, [], 'str'))); return R(st)
        if sig.startswith('(unsigned long, char, '):
            n = m.uns(st, args[1], 64); v = m.uns(st, args[2], 8)
            dropold(st, setvec(m, st, me, m.newbuf(st, n, 1, [(ZERO, n, v)], 'str'))); return R(st)
        return None
    if name == '~basic_string':
        st = st.copy(); key = (me.base, st.norm(me.off).cval()); e = st.cells.pop(key, None)
        if e is not None: st.bufs.pop(e[1].buf, None)
        return R(st)
    bid, buf = bufof(m, st, me, inst)
    if name in ('size', 'length'): return R(st, buf.size)
    if name == 'empty': return [Out('ret', s, const(int(t))) for t, s in m.split_eq(st, buf.size)]
    if name in ('begin', 'data', 'c_str', 'cbegin'): return R(st, Ptr(('b', bid), ZERO))
    if name in ('end', 'cend'): return R(st, Ptr(('b', bid), buf.size))
    if name == 'operator[]': return R(st, Ptr(('b', bid), m.uns(st, args[1], 64)))
    if name == 'at':
        i = m.uns(st, args[1], 64)
        return [Out('ret', s, Ptr(('b', bid), i)) if t else Out('throw', s, 'std::out_of_range', inst) for t, s in m.split_ge(st, buf.size - i - 1)]
    if name == 'front': return R(st, Ptr(('b', bid), ZERO))
    if name == 'back': return R(st, Ptr(('b', bid), buf.size - 1))
    if name == 'push_back' or name == 'operator+=' and sig.startswith('(char)'):
        s = st.copy(); v = m.uns(s, args[1], 8)
        nb = m.newbuf(s, buf.size + 1, 1, m.tidy(s, list(buf.segs) + [(buf.size, buf.size + 1, v)]), 'str')
        dropold(s, setvec(m, s, me, nb)); return R(s, me)
    if name == 'reserve': return R(st)
    return None

def streq(m, st, dem, args, inst):
    """comparison of two texts: decided when both are constant, else both outcomes, remembered in the state"""
    def text(p, cstr):
        if cstr:
            if p.base[0] != 'g': raise AnalysisError('comparison with %s' % (p,))
            o = st.norm(p.off).cval(); v = [int(x) % 256 for x in m.mod.globals[p.base[1]]['init'][2:]][o:]
            return bytes(v[:v.index(0)]), None
        b, buf = bufof(m, st, p, inst)
        n = st.norm(buf.size).cval()
        if n is not None and n < 64:
            v = [st.norm(inst_(m.seg_find(st, buf, const(i))[0][1], buf, const(i))).cval() for i in range(n)]
            if None not in v: return bytes(v), None
        a = [ATOMS[x].a[0] for x in buf.segs[0][2].atoms() if ATOMS[x].kind == 'E'] if len(buf.segs) == 1 else []
        return None, a[0].id if len(a) == 1 else None
    par = dem[dem.index('('):]
    first = 'char const*' in par.split(',')[0] and par.startswith('(char const*')
    x, y = text(args[0], first), text(args[1], not first and par.rstrip(')').endswith('char const*'))
    if x[0] is not None and y[0] is not None: return [(x[0] == y[0], st)]
    c, a = (x[0], y[1]) if x[0] is not None else (y[0], x[1])
    out = []
    for t in (True, False):
        s = st.copy()
        if c is not None and a is not None:
            old = s.tags.get(('streq', a))
            if old is not None and (old[1] == c and old[0] != t or old[0] and t and old[1] != c): continue
            if old is None or t: s.tags[('streq', a)] = (t, c)
        out.append((t, s))
    return out
def mkstr(m, st, me, p, n, inst):
    buf = st.bufs.get(p.base[1])
    if buf is None:
        m.ob('mem', False, inst, st, 'string made from released storage'); return []
    a = divoff(st, p.off, buf.w, inst)
    st = check_range(m, st, buf, a, a + n, inst, 'text range')
    if st is None: return []
    res = []
    for t, s in m.split_ge(st, n - 1):
        if not t:
            s = s.copy(); dropold(s, setvec(m, s, me, m.newbuf(s, ZERO, 1, [], 'str'))); res.append(s); continue
        for s2, segs in slices(m, s, buf, a, a + n, ZERO):
            for lo, hi, tm in segs:
                m.ob('init', not any(ATOMS[x].kind == 'E' and ATOMS[x].a[0].name.startswith('uninit') for x in tm.atoms()), inst, s2, 'text contains only written characters',
                     lambda: 'segment [%s,%s)' % (lo, hi))
            s2 = s2.copy(); dropold(s2, setvec(m, s2, me, m.newbuf(s2, n, 1, m.tidy(s2, segs), 'str'))); res.append(s2)
    return res

def ob_assert(self, inst, st):
    self.ob('assert', False, inst, st, 'assertion holds'); return False
Machine.ob_assert = ob_assert

def clear_obj(st, base):
    for k in [k for k in st.cells if k[0] == base]: del st.cells[k]

def intrinsic(m, st, nm, f, args, inst):
    n = nm.split('.')
    k = n[1]
    if k == 'lifetime':
        p = args[1]
        if isinstance(p, Ptr) and p.base[0] == 'o':
            st = st.copy()
            if n[2] == 'start': clear_obj(st, p.base); st.alive.add(p.base)
            else:
                vs = [v for kk, (sz, v) in st.cells.items() if kk[0] == p.base and isinstance(v, Vec)]
                for v in vs:
                    if v.buf in st.bufs:
                        b = st.bufs[v.buf]
                        m.ob('leak', False if st.prove_ge(b.size - 1) and False else True, inst, st, 'storage released before the end of scope')
                clear_obj(st, p.base)
        elif isinstance(p, Ptr) and p.base[0] == 'b' and n[2] == 'start':
            st = st.copy(); b = st.bufs.get(p.base[1])
            if b is not None: st.bufs[p.base[1]] = Buf(b.size, b.w, tuple(uninit_seg(b.size, b.w)), b.kind)
        return R(st)
    if k in ('assume',):
        return [Out('ret', s) for t, s in m.split_eq(st, args[0]) if not t]
    if k in ('dbg', 'experimental', 'donothing', 'prefetch', 'sideeffect', 'invariant'): return R(st)
    if k == 'expect': return R(st, args[0])
    if k == 'trap':
        m.ob('crash', False, inst, st, 'process termination'); return []
    w = width(f['ret']) if f['ret'] else None
    if k == 'abs':
        res = []
        for s, x in m.signcases(st, args[0], w):
            for t, s2 in m.split_ge(s, x):
                x2 = s2.norm(x)
                if t: res += R(s2, x2)
                else:
                    if s2.norm(args[1]).cval() == 1:
                        m.ob('ub', s2.prove_ge(x2 + ((1 << (w - 1)) - 1)), inst, s2, 'absolute value is representable')
                    res += R(s2, -x2)
        return res
    if k in ('smax', 'smin', 'umax', 'umin'):
        g = m.sgn if k[0] == 's' else m.uns
        a, b = g(st, args[0], w), g(st, args[1], w)
        return [Out('ret', s, a if t == (k[1:] == 'max') else b) for t, s in m.split_ge(st, a - b)]
    if k in ('memset',):
        p, v, ln = args[0], m.uns(st, args[1], 8), st.norm(args[2])
        if p.base[0] == 'o':
            st = st.copy(); o = st.norm(p.off).cval(); L = ln.cval()
            if v != ZERO or L is None or o is None: raise AnalysisError('memset of an object at %s' % loc(inst))
            for kk in [q for q in st.cells if q[0] == p.base and isinstance(q[1], int) and o <= q[1] < o + L]:
                sz, old = st.cells[kk]
                if isinstance(old, Vec): del st.cells[kk]
                else: st.cells[kk] = (sz, ZERO if isinstance(old, Poly) else NULL if isinstance(old, Ptr) else FP(('const', 'double', 0), ZERO))
            st.tags[('zero', p.base)] = st.tags.get(('zero', p.base), ()) + ((o, o + L),)
            return R(st)
        if ln == ZERO: return R(st)
        if p.base[0] == 'exc': return R(st)
        if p.base[0] != 'b': raise AnalysisError('memset through %s' % (p,))
        buf = st.bufs.get(p.base[1])
        if buf is None: raise AnalysisError('memset of released storage')
        if v == ZERO: val = ZERO
        elif v.cval() is not None: val = const(sum(v.cval() << (8 * i) for i in range(buf.w)))
        elif buf.w == 1: val = v
        else: raise AnalysisError('memset value')
        cnt = divoff(st, ln, buf.w, inst)
        return [Out('ret', s) for s in do_fill(m, st, p, cnt, val, inst)]
    if k in ('memcpy', 'memmove'):
        d, s_, ln = args[0], args[1], st.norm(args[2])
        if ln == ZERO: return R(st)
        if d.base[0] == 'b' and s_.base[0] == 'b':
            return [Out('ret', s) for s, _ in do_copy(m, st, s_, Ptr(s_.base, s_.off + ln), d, inst)]
        if d.base[0] == 'o' and s_.base[0] == 'o':
            st = st.copy(); a = st.norm(s_.off).cval(); b = st.norm(d.off).cval(); L = ln.cval()
            for (bs, o), e in list(st.cells.items()):
                if bs == s_.base and isinstance(o, int) and a <= o < a + L:
                    if isinstance(e[1], Vec): raise AnalysisError('bytewise copy of a container')
                    st.cells[(d.base, o - a + b)] = e
            return R(st)
        if d.base[0] == 'b' and s_.base[0] == 'g':
            buf = st.bufs[d.base[1]]; g = m.mod.globals.get(s_.base[1]); ini = g.get('init')
            if ini and ini[0] == 'arr' and ini[1] == buf.w:
                o = st.norm(d.off).cval() // buf.w; a = st.norm(s_.off).cval() // buf.w; c = ln.cval() // buf.w
                cur = [st]
                for j in range(c):
                    cur = [q for s in cur for q in m.buf_store(s, d.base[1], const(o + j), const(int(ini[2 + a + j]) % (1 << 8 * buf.w)), inst)]
                return [Out('ret', s) for s in cur]
            if ini and ini[0] == 'zero':
                return [Out('ret', s) for s in do_fill(m, st, d, divoff(st, ln, buf.w, inst), ZERO, inst)]
        if d.base[0] == 'b' and s_.base[0] == 'o' or d.base[0] == 'o' and s_.base[0] in ('b', 'g'):
            raise AnalysisError('memcpy between %s and %s at %s' % (s_, d, loc(inst)))
        raise AnalysisError('memcpy at %s' % loc(inst))
    if k in ('ctlz', 'cttz', 'ctpop'):
        x = m.uns(st, args[0], w)
        res = []
        for t, s in m.split_eq(st, x):
            if t:
                if k != 'ctpop' and s.norm(args[1]).cval() == 1: m.ob('ub', False, inst, s, 'argument of a bit count is not zero')
                res += R(s, const(0 if k == 'ctpop' else w)); continue
            s = s.copy()
            if k == 'ctlz':
                z = fresh('clz', 0, w - 1)
                e = exp2(z)
                for q in (e * x - (1 << (w - 1)), -(e * x) + ((1 << w) - 1)): s.assume_ge(q)
                res += R(s, z)
            elif k == 'cttz':
                z = fresh('ctz', 0, w - 1); o = fresh('odd', 0); s.assume_eq(x - exp2(z) * (o.scale(2) + 1)); res += R(s, z)
            else: res += R(s, bitcount(x, w))
        return res
    if k in ('fshl', 'fshr'):
        a, b, c = m.uns(st, args[0], w), m.uns(st, args[1], w), st.norm(args[2]).cval()
        if c is None: raise AnalysisError('rotate by a variable amount')
        c %= w
        if c == 0: return R(st, a if k == 'fshl' else b)
        if k == 'fshr': c = w - c
        return R(st, st.norm(a.scale(1 << c) + m.floordiv(st, b, const(1 << (w - c)))))
    if n[-1].startswith('i') and len(n) > 3 and n[2] == 'with' or 'with.overflow' in nm:
        w = int(n[-1][1:]); op = n[1]
        g = m.sgn if op[0] == 's' else m.uns
        a, b = g(st, args[0], w), g(st, args[1], w)
        r = st.norm(a + b if op[1:] == 'add' else a - b if op[1:] == 'sub' else a * b)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op[0] == 's' else (0, (1 << w) - 1)
        res = []
        for t, s in m.split_ge(st, r - lo):
            if not t: res.append(Out('ret', s, Agg({0: s.norm(r), 1: const(1)}))); continue
            for t2, s2 in m.split_ge(s, hi - r): res.append(Out('ret', s2, Agg({0: s2.norm(r), 1: const(int(not t2))})))
        return res
    if k == 'eh': return R(st, const(1))
    if k in ('is', 'fabs', 'floor', 'ceil', 'trunc', 'sqrt', 'fmuladd', 'log', 'log10', 'pow', 'round', 'copysign', 'maxnum', 'minnum'):
        if w: return [Out('ret', st.copy(), const(1)), Out('ret', st, const(0))]
        return R(st, FP((k,) + tuple(a.expr if isinstance(a, FP) else str(a) for a in args)))
    if k == 'bswap':
        return R(st, fresh('bswap', 0, (1 << w) - 1))
    raise AnalysisError('intrinsic %s at %s' % (nm, loc(inst)))
_bc = {}
def bitcount(x, w):
    if x not in _bc: _bc[x] = fresh('popcount', 0, w)
    return _bc[x]
