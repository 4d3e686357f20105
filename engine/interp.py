"""Abstract interpreter over the exported LLVM IR (path partitioned, callees inlined, loops by inferred invariants)."""
import re, json, re, sys, time
from fractions import Fraction
from alg import *
from state import bitrange, State, prim, STATS
import alg

class AnalysisError(Exception):
    """the analyser met something it does not model: no verdict"""

class Unrecognised(AnalysisError):
    """the code is not of the form the supplied loop invariants are for: nothing found is a verdict"""

class Ptr:
    __slots__ = ('base', 'off')
    def __init__(self, base, off): self.base = base; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.base, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and self.base == o.base and self.off == o.off
    def __hash__(self): return hash((self.base, self.off))
NULL = Ptr(('null',), ZERO)
class FP:
    """opaque floating point value; bits: its integer bit pattern when known"""
    __slots__ = ('expr', 'bits')
    def __init__(self, expr, bits=None): self.expr = expr; self.bits = bits
    def __repr__(self): return 'FP%s' % (self.expr,)
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()
class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
class Vec:
    __slots__ = ('buf',)
    def __init__(self, buf): self.buf = buf
    def __repr__(self): return 'Vec(%s)' % self.buf
    def __eq__(self, o): return isinstance(o, Vec) and o.buf == self.buf
    def __hash__(self): return hash(self.buf)
class Buf:
    """size elements of w bytes; segs: tuple of (lo, hi, template) covering [0,size)"""
    __slots__ = ('size', 'w', 'segs', 'kind')
    def __init__(self, size, w, segs, kind='vec'): self.size = size; self.w = w; self.segs = segs; self.kind = kind
    def __repr__(self): return 'Buf(%s,%s)' % (self.size, ', '.join('[%s,%s)=%s' % s for s in self.segs))
    def __eq__(self, o): return isinstance(o, Buf) and o.size == self.size and o.w == self.w and o.segs == self.segs
    def __ne__(self, o): return not self == o
    __hash__ = None
MISSING = ('missing',)

class Out:
    __slots__ = ('kind', 'st', 'val', 'where')
    def __init__(self, kind, st, val=None, where=None): self.kind = kind; self.st = st; self.val = val; self.where = where

def width(ty):
    if ty.startswith('i') and ty[1:].isdigit(): return int(ty[1:])
    return None
TYSIZE = {'ptr': 8, 'double': 8, 'float': 4}
def tysize(ty):
    w = width(ty)
    if w is not None: return (w + 7) // 8
    return TYSIZE.get(ty)

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {f['name']: f for f in d['functions']}
        self.globals = {g['name']: g for g in d['globals']}
        self.structs = d['structs']
        self.bydem = {}
        for f in d['functions']: self.bydem.setdefault(f['demangled'], []).append(f)
        for f in d['functions']:
            if f['decl']: continue
            f['loopof'] = {l['header']: l for l in f['loops']}
            for l in f['loops']: l['set'] = set(l['blocks'])
    def find(self, dem):
        l = self.bydem.get(dem)
        if l: return l[0]
        if dem.endswith('<buffer constructor>'):
            l = [f for f in self.fns.values() if not f['decl'] and f['demangled'].startswith('pybind11_init_') and '::operator()(pybind11::buffer' in f['demangled'] and f['args'] and f['args'][0]['sretty'] == '%class.BigInteger']
            return l[0] if len(l) == 1 else None
        # the same function with another passing convention or qualification
        if self.fuzzy is None:
            self.fuzzy = {}
            for f in self.fns.values():
                if not f['decl'] and '(' in f['demangled']: self.fuzzy.setdefault(self.norm(f['demangled']), []).append(f)
        l = self.fuzzy.get(self.norm(dem), [])
        return l[0] if len(l) == 1 else None
    fuzzy = None
    @staticmethod
    def norm(d):
        d = d.replace('[abi:cxx11]', '')
        return re.sub(r'\bconst\b|[& ]', '', d)
    def defined(self, dem):
        f = self.find(dem)
        return f if f and not f['decl'] else None

_serial = [0]
def serial():
    _serial[0] += 1
    return _serial[0]

class Fork(Exception): pass

class Machine:
    def __init__(self, mod, contracts=None):
        self.mod = mod
        self.obs = {}              # (cat, file, line, fn, what) -> [ok count, fail count, detail]
        self.record = True
        self.optimistic = False
        self.contracts = contracts or {}
        self.bcmps = []            # the same for branch conditions, with the loop depth they occur at
        self.cmps = None           # collects comparison differences inside loops
        self.writes = None
        self.stack = []
        self.maxpaths = 6000
        self.steps = 0
        self.deadline = None
        self.notes = []
        self.functions = set()
        self.loopcount = 0
        self.loopsites = set()
        self.depth = 0
        self.debug = False
        self.loopdepth = 0
        self.segsplit = None
        import stl
        self.stl = stl
    # ---------------------------------------------------------------- obligations
    def ob(self, cat, ok, inst, st, what, detail=None):
        if not self.record: return ok
        if not ok and st.infeasible(): return True
        f = self.stack[-1] if self.stack else None
        key = (cat, inst.get('file', f and f.get('file', '?')), inst.get('line', 0), f and f['demangled'], what)
        e = self.obs.setdefault(key, [0, 0, None])
        if ok: e[0] += 1
        else:
            e[1] += 1
            if e[2] is None:
                e[2] = {'st': st, 'detail': detail() if callable(detail) else detail, 'trail': list(st.trail), 'stack': [x['demangled'] for x in self.stack]}
        return ok
    def bitval(self, st, op, a, b, w):
        """bitwise operation of w-bit values"""
        M = (1 << w) - 1
        ac, bc = a.cval(), b.cval()
        if ac is not None and bc is None: a, b, ac, bc = b, a, bc, ac
        if ac is not None:
            ac &= M; bc &= M
            return const({'and': ac & bc, 'or': ac | bc, 'xor': ac ^ bc}[op])
        if bc is not None:
            bc &= M
            if op == 'and':
                if bc == 0: return ZERO
                if bc == M: return a
                # work with a modulo 2^(top bit)
                top = bc.bit_length()
                u = self.uns(st, a, w) if not (bc & (bc + 1) == 0) else a
                r = ZERO; k = 0; v = bc; pos = 0
                while v:
                    while not v & 1: v >>= 1; pos += 1
                    s0 = pos
                    while v & 1: v >>= 1; pos += 1
                    lo = self.floordiv(st, u, const(1 << s0)); hi = self.floordiv(st, u, const(1 << pos)) if pos < w or u is a else ZERO
                    r = r + lo.scale(1 << s0) - hi.scale(1 << pos)
                return st.norm(r)
            if op == 'xor':
                if bc == 0: return a
                if bc == M: return st.norm(-a - 1)   # ~a
                if bc == 1 << (w - 1): return a + bc
            if op == 'or':
                if bc == 0: return a
                if bc == M: return const(M)
        ua = self.uns(st, a, w); ub = self.uns(st, b, w)
        if op in ('or', 'xor') :
            if self.disjoint(st, ua, ub) or self.disjoint(st, ub, ua):
                return st.norm(ua + ub)
            if st.norm(ua - ub) == ZERO: return ua if op == 'or' else ZERO
        elif st.norm(ua - ub) == ZERO: return ua
        (l1, h1), (l2, h2) = st.tight(ua), st.tight(ub)
        if None not in (l1, h1, l2, h2) and 0 <= l1 <= h1 and 0 <= l2 <= h2:
            l, h = bitrange(op, l1, h1, l2, h2)
            if l is not None and l == h: return const(l)
        return bit(op, ua, ub)
    # ---------------------------------------------------------------- integer views
    def uns(self, st, p, w):
        if p is UNDEF: raise AnalysisError('undef')
        p = st.norm(p)
        M = 1 << w
        lo, hi = st.range(p)
        if lo is not None and hi is not None and lo >= 0 and hi < M: return p
        if p.is_const(): return const(p.cval() % M)
        if not (hi is not None and hi < 0) and not (lo is not None and lo >= M):
            if st.prove_ge(p) and st.prove_ge(-p + (M - 1)): return p
        if self.optimistic and (lo is None or hi is None): return p
        for k in (-1, 1):
            q = p - k * M
            l2, h2 = st.range(q)
            if (h2 is None or h2 >= 0) and (l2 is None or l2 < M):
                if st.prove_ge(q) and st.prove_ge(-q + (M - 1)): return q
        r = self.quotshift(st, p, M)
        if r is not None: return r
        q = fd(p, const(M), st.range)
        r = p - q.scale(M)
        if any(len(m[0]) > 1 for m in p.t) and not self.optimistic:
            l, h = st.range(q)
            if (l is None or h is None or h - l > 1) and st.prove_ge(p + M) and st.prove_ge(-p + (M - 1)): st.assume_ge(q + 1); st.assume_ge(-q)
        return st.norm(r)
    def quotshift(self, st, p, M):
        """p mod M where the constraints speak about the quotient of a value that cancels against p"""
        big = [m for m in p.t if len(m[0]) > 1]
        if not big: return None
        fds = {a for n in st.cons for a in n.atoms() if ATOMS[a].kind == 'FD' and ATOMS[a].a[1].cval() == M}
        for a in fds:
            n = ATOMS[a].a[0]
            for sg in (1, -1):
                if any(p.t[m] != -sg * n.t.get(m, 0) for m in big): continue
                for k in (0, 1, -1):
                    q = p + (var(a).scale(sg) + k).scale(M)
                    if st.prove_ge(q) and st.prove_ge(-q + (M - 1)): return q
        return None
    def sgn(self, st, p, w):
        if p is UNDEF: raise AnalysisError('undef')
        p = st.norm(p)
        H = 1 << (w - 1)
        lo, hi = st.range(p)
        if lo is not None and hi is not None and lo >= -H and hi < H: return p
        if p.is_const(): return const((p.cval() + H) % (2 * H) - H)
        if not (hi is not None and hi < -H) and not (lo is not None and lo >= H):
            if st.prove_ge(p + H) and st.prove_ge(-p + (H - 1)): return p
        if self.optimistic and (lo is None or hi is None): return p
        return self.uns(st, p + H, w) - H
    # ---------------------------------------------------------------- branching
    def split_ge(self, st, d):
        """list of (truth, state) for d >= 0"""
        d = st.norm(d)
        if d.is_const(): return [(d.constpart() >= 0, st)]
        if self.cmps is not None: self.cmps.append(d)
        if st.prove_ge(d): return [(True, st)]
        if st.prove_ge(-d - 1): return [(False, st)]
        a = st.copy(); b = st.copy(); r = []
        if a.assume_ge(d): r.append((True, a))
        if b.assume_ge(-d - 1): r.append((False, b))
        return r
    def split_eq(self, st, d):
        d = st.norm(d)
        if d.is_const(): return [(d.constpart() == 0, st)]
        if self.cmps is not None: self.cmps.append(d); self.cmps.append(-d)
        if st.prove_ne(d):
            if st.prove_ge(d - 1) or st.prove_ge(-d - 1): return [(False, st)]
            a = st.copy()          # shown by a case distinction: keep the fact
            return [(False, a)] if a.assume_ne(d) else []
        if st.prove_eq(d):
            a = st.copy()
            return [(True, a)] if a.assume_eq(d) else []
        r = self.powercases(st, d)
        if r is not None: return r
        w = self.wrapatom(st, d)
        if w is not None:
            r = []
            for v in (w, w + 1):
                s = st.copy()
                if s.assume_eq(v): r += self.split_eq(s, d)
            return r
        a = st.copy(); b = st.copy(); r = []
        if a.assume_eq(d): r.append((True, a))
        if b.assume_ne(d): r.append((False, b))
        return r
    def powercases(self, st, d):
        """x & (x-1) == 0, and x & -x == x: only for powers of two and zero; by the position of the leading bit"""
        for a in d.atoms():
            at = ATOMS[a]
            if at.kind != 'BIT' or at.a[0] != 'and': continue
            c = d.t.get((((a, 1),), ()), 0)
            if c not in (1, -1): continue
            x, y = st.norm(at.a[1]), st.norm(at.a[2])
            t = d.scale(c) - var(a)
            if t == ZERO and st.norm(x - y) == const(1): u = x
            elif t == ZERO and st.norm(y - x) == const(1): u = y
            elif st.norm(x + y).cval() in (1 << 32, 1 << 64) and st.norm(t + x) == ZERO: u = x
            elif st.norm(x + y).cval() in (1 << 32, 1 << 64) and st.norm(t + y) == ZERO: u = y
            else: continue
            l, h = st.range(u)
            if l is None or h is None or l < 1 or h >> 64: continue
            r = []
            for j in range(l.bit_length() - 1, h.bit_length()):
                s = st.copy()
                if s.assume_eq(s.norm(u) - (1 << j)): r.append((True, s))
                s = st.copy()
                if j and s.assume_ge(s.norm(u) - (1 << j) - 1) and s.assume_ge(-s.norm(u) + ((2 << j) - 1)): r.append((False, s))
            return r
        return None
    def wrapatom(self, st, d):
        """d is a remainder n - m*floor(n/m) (plus a constant) whose quotient takes one of two values: the condition that tells them apart"""
        for a in d.atoms():
            at = ATOMS[a]
            if at.kind != 'FD': continue
            c = d.t.get((((a, 1),), ()), 0); den = at.a[1].cval()
            if not c or not den: continue
            t = d - var(a).scale(c) + at.a[0].scale(Fraction(c, den))
            if not t.is_const(): continue
            l, h = st.range(var(a))
            if l is not None and h is not None and h - l == 1: return var(a) - h
        return None
    def signcases(self, st, p, w):
        """p as signed w-bit value where a lone opaque bit operation is split on its operands' signs: [(st, poly)]"""
        p = st.norm(p)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and not m[1] and len(m[0]) == 1 and m[0][0][1] == 1:
                at = ATOMS[m[0][0][0]]
                if at.kind == 'BIT':
                    H = 1 << (w - 1)
                    res = []
                    for t1, s1 in self.split_ge(st, at.a[1] - H):
                        for t2, s2 in self.split_ge(s1, s1.norm(at.a[2]) - H):
                            t = {'and': t1 and t2, 'or': t1 or t2, 'xor': t1 != t2}[at.a[0]]
                            q = s2.norm(p)
                            s3 = s2.copy()
                            if q.is_const(): res.append((s3, self.sgn(s3, q, w))); continue
                            if t: ok = s3.assume_ge(q - H); v = q - 2 * H
                            else: ok = s3.assume_ge(-q + (H - 1)); v = q
                            if ok: res.append((s3, v))
                    return res
        return [(st, self.sgn(st, p, w))]
    # ---------------------------------------------------------------- memory
    def getbuf(self, st, bid):
        return st.bufs.get(bid)
    def newbuf(self, st, size, w, segs, kind='vec'):
        b = serial(); st.bufs[b] = Buf(size, w, tuple(segs), kind)
        return b
    def freshbuf(self, st, name, size, w, kind='vec'):
        arr = Arr(name, 8 * w)
        return self.newbuf(st, size, w, [(ZERO, size, E(arr, BETA))], kind), arr
    def seg_find(self, st, buf, idx):
        """list of (state, template) for element idx (known in range)"""
        segs = buf.segs
        if len(segs) == 1: return [(st, segs[0][2], 0)]
        out = []; cur = [st]
        # try to place it without splitting
        for k, (lo, hi, t) in enumerate(segs):
            if (k == 0 or st.prove_ge(idx - lo)) and (k == len(segs) - 1 or st.prove_ge(hi - idx - 1)):
                return [(st, t, k)]
        for k, (lo, hi, t) in enumerate(segs):
            nxt = []
            for s in cur:
                if k == len(segs) - 1: out.append((s, t, k)); continue
                for tr, s2 in self.split_ge(s, hi - idx - 1):
                    if tr: out.append((s2, t, k))
                    else: nxt.append(s2)
            cur = nxt
        return out
    def buf_load(self, st, bid, idx, inst, what='read'):
        """[(st, poly)]"""
        buf = st.bufs.get(bid)
        if buf is None:
            self.ob('mem', False, inst, st, '%s of released or reallocated storage' % what); 
            return [(st, fresh('stale', 0, (1 << 32) - 1))]
        idx = st.norm(idx)
        lim = buf.size + 1 if buf.kind == 'str' else buf.size
        ok = st.prove_ge(idx) and st.prove_ge(lim - idx - 1)
        self.ob('mem', ok, inst, st, '%s inside the storage' % what, lambda: 'index %s, size %s' % (st.norm(idx), st.norm(buf.size)))
        if not ok:
            st = st.copy()
            if not self.optimistic and not (st.assume_ge(idx) and st.assume_ge(lim - idx - 1)): return []
        res = []
        if buf.kind == 'str':
            for t, s in self.split_ge(st, buf.size - idx - 1):
                if not t: res.append((s, ZERO))
                else:
                    for s2, tm, k in self.seg_find(s, buf, idx): res.append((s2, s2.norm(inst_(tm, buf, idx))))
            return res
        found = self.seg_find(st, buf, idx)
        if len(found) > 1 and self.segsplit is not None: self.segsplit.append((bid, idx))
        for s, t, k in found:
            v = s.norm(inst_(t, buf, idx))
            if any(ATOMS[a].kind == 'E' and ATOMS[a].a[0].name.startswith('uninit') for a in v.atoms()):
                self.ob('init', False, inst, s, 'read of uninitialised element')
            res.append((s, v))
        return res
    def buf_store(self, st, bid, idx, val, inst):
        buf = st.bufs.get(bid)
        if buf is None:
            self.ob('mem', False, inst, st, 'write to released or reallocated storage'); return [st]
        idx = st.norm(idx)
        ok = st.prove_ge(idx) and st.prove_ge(buf.size - idx - 1)
        self.ob('mem', ok, inst, st, 'write inside the storage', lambda: 'index %s, size %s' % (st.norm(idx), st.norm(buf.size)))
        if not ok:
            st = st.copy()
            if not self.optimistic and not (st.assume_ge(idx) and st.assume_ge(buf.size - idx - 1)): return []
        return self.store_seg(st, bid, idx, idx + 1, val)
    def store_seg(self, st, bid, lo, hi, tmpl):
        """overwrite [lo,hi) (known in range, lo <= hi) with a template: list of states"""
        buf = st.bufs[bid]
        lo = st.norm(lo); hi = st.norm(hi)
        if lo == hi: return [st]
        work = [(st, [])]
        res = []
        # cut at lo: pieces before, then skip to hi
        states = [st]
        for s in states:
            for s1, pre in self.cut(s, buf, lo, True):
                for s2, post in self.cut(s1, buf, hi, False):
                    s3 = s2.copy()
                    segs = list(pre) + [(lo, hi, tmpl)] + list(post)
                    s3.bufs[bid] = Buf(buf.size, buf.w, tuple(self.tidy(s3, segs)), buf.kind)
                    res.append(s3)
        return res
    def tidy(self, st, segs):
        out = []
        for lo, hi, t in segs:
            if lo == hi or st.norm(lo) == st.norm(hi): continue
            if out and out[-1][2] == t: out[-1] = (out[-1][0], hi, t)
            else: out.append((lo, hi, t))
        return out
    def cut(self, st, buf, at, before):
        """segments strictly before (or from) position at: [(st, segs)]"""
        segs = buf.segs; n = len(segs)
        # find k with lo_k <= at <= hi_k
        for k, (lo, hi, t) in enumerate(segs):
            okl = (k == 0) or st.norm(lo - at) == ZERO or st.prove_ge(at - lo)
            okh = (k == n - 1) or st.prove_ge(hi - at)
            if okl and okh:
                if before:
                    r = list(segs[:k])
                    if not st.norm(lo - at) == ZERO: r.append((lo, at, t))
                else:
                    r = []
                    if not st.norm(hi - at) == ZERO: r.append((at, hi, t))
                    r += list(segs[k + 1:])
                return [(st, r)]
        out = []; cur = [st]
        for k, (lo, hi, t) in enumerate(segs):
            nxt = []
            for s in cur:
                br = [(True, s)] if k == n - 1 else self.split_ge(s, hi - at)
                for tr, s2 in br:
                    if tr:
                        if before: out.append((s2, list(segs[:k]) + [(lo, at, t)]))
                        else: out.append((s2, [(at, hi, t)] + list(segs[k + 1:])))
                    else: nxt.append(s2)
            cur = nxt
        return out
    def seg_sum(self, st, buf, a, b):
        """sum_{a<=k<b} content[k]*2^(bits*k) or None when the segment order is undecided"""
        bits = 8 * buf.w
        a = st.norm(a); b = st.norm(b)
        tot = ZERO
        n = len(buf.segs)
        for k, (lo, hi, t) in enumerate(buf.segs):
            l = st.norm(lo) if k else None
            h = st.norm(hi) if k < n - 1 else None
            # max(lo,a), min(hi,b)
            if l is None or st.prove_ge(a - l): l2 = a
            elif st.prove_ge(l - a): l2 = l
            else: return None
            if h is None or st.prove_ge(h - b): h2 = b
            elif st.prove_ge(b - h): h2 = h
            else: return None
            if l2 == h2: continue
            if not st.prove_ge(h2 - l2):
                if st.prove_ge(l2 - h2): continue
                return None
            s = tmpl_sum(fixed(st, st.norm(t)) if t.deps() else t, bits, l2, h2)
            if s is None: return None
            tot = tot + s
        return st.norm(tot)
    # cells of plain objects
    def load_cell(self, st, base, off, ty, inst):
        o = st.norm(off)
        c = o.cval()
        if base[0] == 'g':
            return self.load_global(st, base[1], o, ty, inst)
        if c is None: raise AnalysisError('symbolic offset %s into object %s at %s' % (o, base, loc(inst)))
        e = st.cells.get((base, c))
        if e is None:
            if base not in st.alive:
                self.ob('mem', False, inst, st, 'access to an object outside its lifetime'); return fresh_of(ty)
            self.ob('init', False, inst, st, 'read of an uninitialised variable', 'offset %d of %s' % (c, base))
            return fresh_of(ty)
        sz, v = e
        if v is UNDEF:
            self.ob('init', False, inst, st, 'read of an uninitialised variable', 'offset %d of %s' % (c, base))
            return fresh_of(ty)
        if sz != tysize(ty):
            if isinstance(v, Poly) and ty in ('i8', 'i1', 'i16', 'i32') and tysize(ty) < sz: return v
            raise AnalysisError('load of %s from a %d byte cell at %s' % (ty, sz, loc(inst)))
        if isinstance(v, FP) and width(ty):
            if v.bits is None: v = FP(v.expr, fresh('fpbits', 0, (1 << width(ty)) - 1)); st.cells[(base, c)] = (sz, v)
            return v.bits
        if isinstance(v, Poly) and ty in ('double', 'float'): return FP(('bits', v), v)
        return v
    def load_global(self, st, name, off, ty, inst):
        g = self.mod.globals.get(name)
        if g is None or not g['const'] or 'init' not in g: raise AnalysisError('read of global %s at %s' % (name, loc(inst)))
        ini = g['init']
        if ini[0] == 'c' and off == ZERO: return const(int(ini[2]))
        if ini[0] == 'zero': return ZERO
        if ini[0] == 'arr':
            es = ini[1]; vals = [int(x) for x in ini[2:]]
            if tysize(ty) != es: raise AnalysisError('global element size')
            i = fd(off, const(es))
            c = st.norm(i).cval()
            if c is not None:
                ok = 0 <= c < len(vals)
                self.ob('mem', ok, inst, st, 'read inside a constant table')
                return const(vals[c] % (1 << (8 * es))) if ok else fresh('oob', 0, 255)
            ok = st.prove_ge(i) and st.prove_ge(-i + (len(vals) - 1))
            self.ob('mem', ok, inst, st, 'read inside a constant table', lambda: 'index %s of %d' % (st.norm(i), len(vals)))
            return fresh('table', min(vals), max(vals))
        raise AnalysisError('read of global %s' % name)
    def load(self, st, p, ty, inst):
        """[(st, value)]"""
        if not isinstance(p, Ptr): raise AnalysisError('load through %r at %s' % (p, loc(inst)))
        if p.base[0] == 'null':
            self.ob('mem', False, inst, st, 'dereference of a null pointer'); return []
        if p.base[0] == 'ext':
            import pymodel
            return [(st, pymodel.ext_load(self, st, p.off, ty, inst))]
        if p.base[0] == 'b':
            buf = st.bufs.get(p.base[1])
            w = buf.w if buf else tysize(ty)
            if buf and w != tysize(ty): raise AnalysisError('load of %s from %d byte elements at %s' % (ty, w, loc(inst)))
            return self.buf_load(st, p.base[1], divoff(st, p.off, w, inst), inst)
        return [(st, self.load_cell(st, p.base, p.off, ty, inst))]
    def store(self, st, p, ty, v, inst):
        if not isinstance(p, Ptr): raise AnalysisError('store through %r at %s' % (p, loc(inst)))
        if p.base[0] == 'null':
            self.ob('mem', False, inst, st, 'write through a null pointer'); return []
        if p.base[0] == 'b':
            buf = st.bufs.get(p.base[1])
            w = buf.w if buf else tysize(ty)
            if buf and w != tysize(ty): raise AnalysisError('store of %s to %d byte elements at %s' % (ty, w, loc(inst)))
            if v is UNDEF:
                self.ob('init', False, inst, st, 'use of an uninitialised value'); v = fresh_of(ty)
            if not isinstance(v, Poly): raise AnalysisError('store of %r to a buffer at %s' % (v, loc(inst)))
            v = self.uns(st, v, 8 * w)
            return self.buf_store(st, p.base[1], divoff(st, p.off, w, inst), v, inst)
        if p.base[0] == 'g':
            self.ob('global', False, inst, st, 'write to a global object', p.base[1]); return [st]
        c = st.norm(p.off).cval()
        if c is None: raise AnalysisError('symbolic offset %s in store at %s' % (p.off, loc(inst)))
        if p.base not in st.alive:
            self.ob('mem', False, inst, st, 'write to an object outside its lifetime'); return [st]
        st = st.copy(); sz = tysize(ty)
        if isinstance(v, Poly): v = st.norm(v)
        st.cells[(p.base, c)] = (sz, v)
        if st.ghost.get('watch') and p.base in st.ghost['watch']:
            st.trail = st.trail + (('write', p.base, c, loc(inst)),)
        return [st]
    # ---------------------------------------------------------------- functions
    def call_fn(self, st, f, args, inst):
        """list of Out"""
        dem = f['demangled']
        h = self.contracts.get(f['name']) or self.contracts.get(dem)
        if h is not None and (not self.stack or self.stack_root is not f or any(x is f for x in self.stack)):
            if not (self.stack and h is self.contracts.get('::inline')):
                r = h(self, st, f, args, inst)
                if r is not None: return r
        r = self.stl.model(self, st, f, args, inst)
        if r is not None: return r
        if f['decl']: raise AnalysisError('call of undefined function %s at %s' % (dem, loc(inst)))
        if sum(1 for x in self.stack if x is f) >= 2: raise AnalysisError('recursion into %s without a summary' % dem)
        return self.exec_fn(st, f, args)
    stack_root = None
    annots = ()
    def exec_fn(self, st, f, args):
        self.stack.append(f)
        if 'file' in f and f['file'].startswith('/repo'): self.functions.add(f['demangled'])
        try:
            fr = Frame(self, f)
            env = {a['id']: v for a, v in zip(f['args'], args)}
            res = fr.region([(st, env, 0, None)], None)
            outs = [Out('ret', s, v) for s, v in res.rets] + res.throws
            for o in outs:
                dead = [k for k in o.st.alive if k[0] == 'o' and k[1][0] == fr.id]
                if dead:
                    ds = set(dead); o.st = s = o.st.copy()
                    s.alive -= ds
                    s.cells = {k: v for k, v in s.cells.items() if k[0] not in ds}
                    bd = [b for b, x in s.bufs.items() if x.kind == ('stack', fr.id)]
                    for b in bd: del s.bufs[b]
            if len(outs) > 6: outs = self.merge_pure(st, f, outs)
            return outs
        finally:
            self.stack.pop()
    def merge_pure(self, st0, f, outs):
        """join the outcomes of a function that only computes an integer"""
        w = width(f['ret'])
        if w is None or any(o.kind != 'ret' for o in outs): return outs
        for o in outs:
            if not isinstance(o.val, Poly): return outs
            if o.st.cells != st0.cells or len(o.st.bufs) != len(st0.bufs): return outs
            for b, x in o.st.bufs.items():
                if st0.bufs.get(b) is not x: return outs
        vals = [o.st.norm(o.val) for o in outs]
        if any(not v.is_const() for v in vals): return outs
        cs = [v.cval() for v in vals]
        if min(cs) < 0 or max(cs) > 64 or len(set(cs)) < 7: return outs
        # symbols constrained differently in the outcomes: atoms whose range changed
        s = st0.copy()
        z = fresh('j', min(cs), max(cs))
        cand = set()
        for o in outs:
            for a, b in o.st.bnd.items():
                if st0.bnd.get(a) != b: cand.add(a)
            for n in o.st.cons:
                if n not in st0.cons: cand |= n.atoms()
        cand = [a for a in cand if a not in st0.sub]
        facts = []
        for a in cand:
            x = var(a)
            for k in (8, 16, 31, 32, 63, 64):
                facts += [exp2(z) * x - (1 << (k - 1)), -exp2(z) * x + (1 << k) - 1, exp2(z) - x - 1, x.scale(2) - exp2(z), x - exp2(z - 1)]
            facts += [x - 1, -x]
        zi = z.atoms().pop()
        good = []
        for fct in facts:
            ok = True
            for o, c in zip(outs, cs):
                if not o.st.prove_ge(subst(fct, {zi: const(c)})): ok = False; break
            if ok: good.append(fct)
        for g in good: s.assume_ge(g)
        return [Out('ret', s, z)]

def fpreal(st, e):
    """(numerator, denominator) of a floating point expression that is exact: integers below 2^53 and divisions by powers of two"""
    if not isinstance(e, tuple): return None
    k = e[0]
    if k == 'const':
        import struct
        try: v = struct.unpack('<d', struct.pack('<Q', e[2] & ((1 << 64) - 1)))[0] if '64' in str(e[1]) or 'double' in str(e[1]) else None
        except struct.error: return None
        if v is None or v != v or abs(v) > 1e15: return None
        n, d = v.as_integer_ratio()
        return const(n), d
    if k in ('uitofp', 'sitofp') and isinstance(e[1], Poly):
        x = e[1]
        return (x, 1) if st.prove_ge(x + (1 << 53)) and st.prove_ge((1 << 53) - x) else None
    if k in ('floor', 'ceil', 'trunc'):
        r = fpreal(st, e[1])
        if r is None: return None
        n, d = r
        if d == 1: return r
        if k == 'trunc' and not st.prove_ge(n): return None
        q = fd(st.norm(n), const(d)) if k != 'ceil' else -fd(st.norm(-n), const(d))
        return q, 1
    if k in ('fdiv', 'fmul'):
        a, b = fpreal(st, e[1]), fpreal(st, e[2])
        if a is None or b is None or b[0].cval() is None: return None
        c = b[0].cval()
        if k == 'fmul': n, d = c, b[1]
        else: n, d = b[1], c
        if n <= 0 or d <= 0 or n & (n - 1) or d & (d - 1): return None
        return a[0].scale(n), a[1] * d
    if k in ('fadd', 'fsub'):
        a, b = fpreal(st, e[1]), fpreal(st, e[2])
        if a is None or b is None or a[1] != 1 or b[1] != 1: return None
        x = a[0] + b[0] if k == 'fadd' else a[0] - b[0]
        return (x, 1) if st.prove_ge(x + (1 << 53)) and st.prove_ge((1 << 53) - x) else None
    return None
def loc(inst): return '%s:%s' % (inst.get('file', '?'), inst.get('line', '?'))
def inst_(t, buf, idx): return inst(t, 8 * buf.w, idx)
def fresh_of(ty):
    w = width(ty)
    if w: return fresh('any', 0, (1 << w) - 1)
    if ty == 'ptr': raise AnalysisError('unknown pointer')
    return FP(('any', serial()))
def divoff(st, off, w, inst):
    if w == 1: return off
    off = st.norm(off)
    for m, c in off.t.items():
        if type(c) is not int or c % w: 
            raise AnalysisError('misaligned offset %s at %s' % (off, loc(inst)))
    return Poly({m: c // w for m, c in off.t.items()})

def fixed(st, t):
    """t with the quotients that can have one value only replaced by it"""
    s = {}
    for a in t.atoms():
        if ATOMS[a].kind == 'FD':
            l, h = st.abound(a)
            if l is not None and l == h: s[a] = const(l)
    return subst(t, s) if s else t
def tmpl_sum(t, bits, a, b):
    """sum_{a<=k<b} t[k]*2^(bits*k), or None"""
    tot = ZERO
    opaque = None
    for m, c in t.t.items():
        ok = False
        deps = set()
        for x, _ in m[0]:
            deps.add(x); deps |= ATOMS[x].deps
        exb = 0
        for x, k in m[1]:
            if x == BETA_ID: exb = k
            elif BETA_ID in ATOMS[x].deps: deps.add(BETA_ID)
        if BETA_ID not in deps:
            if exb == 0:
                e = exp2(b.scale(bits)) - exp2(a.scale(bits))
                tot = tot + mono(m, c) * e.scale(Fraction(1, (1 << bits) - 1)); ok = True
        elif exb == 0:
            be = [(x, p) for x, p in m[0] if x == BETA_ID or BETA_ID in ATOMS[x].deps]
            if len(be) == 1 and be[0][1] == 1 and ATOMS[be[0][0]].kind == 'E':
                at = ATOMS[be[0][0]]; arr, idx = at.a
                d = idx - BETA
                if BETA_ID not in d.deps() and arr.bits == bits:
                    rest = mono((tuple(x for x in m[0] if x != be[0]), m[1]), c)
                    tot = tot + rest * exp2(-d.scale(bits)) * (P(arr, b + d) - P(arr, a + d)); ok = True
        if not ok:
            opaque = (opaque or ZERO) + mono(m, c)
    if opaque is not None:
        x = limb_bytes(opaque, a, b) if bits == 8 else byte_limbs(opaque, a, b) if bits == 32 else None
        if x is not None: return tot + x
        arr = ghost_arr(opaque, bits)
        tot = tot + P(arr, b) - P(arr, a)
    return tot
def limb_byte(digit, idx):
    q = fd(idx, const(4)); x = digit(q); r = (idx - q.scale(4)).scale(8)
    return fd(x, exp2(r)) - fd(x, exp2(r + 8)).scale(256)
_bytes = {}
def limb_bytes(t, a, b):
    """sum of the bytes [a, b) of the limbs of one array: prefixes of the number the limbs denote"""
    if t not in _bytes:
        _bytes[t] = None
        for x in t.deps():
            if ATOMS[x].kind == 'E' and ATOMS[x].a[0].bits == 32 and limb_byte(lambda q: E(ATOMS[x].a[0], q), BETA) == t: _bytes[t] = ATOMS[x].a[0]
    arr = _bytes[t]
    if arr is None: return None
    tot = ZERO
    for x, c in ((b, 1), (a, -1)):
        u = fd(x, const(4)); r = x - u.scale(4)
        if not r.is_const(): return None
        v = P(arr, u)
        if r != ZERO:
            e = E(arr, u)
            v = v + (e - fd(e, exp2(r.scale(8))) * exp2(r.scale(8))) * exp2(u.scale(32))
        tot = tot + v.scale(c)
    return tot
_limbs = {}
def byte_limbs(t, a, b):
    """sum of the limbs [a, b) each made of four consecutive bytes of one array"""
    if t not in _limbs:
        _limbs[t] = None
        for x in t.deps():
            if ATOMS[x].kind != 'E' or ATOMS[x].a[0].bits != 8: continue
            arr, i = ATOMS[x].a; d = i - BETA.scale(4)
            if BETA_ID in d.deps(): continue
            if sum((E(arr, i + j).scale(256 ** j) for j in range(4)), ZERO) == t: _limbs[t] = (arr, d)
    g = _limbs[t]
    if g is None: return None
    arr, d = g
    return exp2(-d.scale(8)) * (P(arr, b.scale(4) + d) - P(arr, a.scale(4) + d))
_ghost = {}
def ghost_arr(t, bits):
    k = (t, bits)
    if k not in _ghost:
        a = Arr('def', bits, None, None); a.tmpl = t
        _ghost[k] = a
    return _ghost[k]

class Res:
    def __init__(self): self.rets = []; self.throws = []; self.backs = []; self.exits = []; self.stops = []

class Frame:
    def __init__(self, m, f):
        self.m = m; self.f = f; self.id = serial()
        self.blocks = f['blocks']
    # value of an operand
    def val(self, st, env, o):
        k = o[0]
        if k == 'v': return env[o[1]]
        if k == 'c':
            v = int(o[2])
            if o[1] == 1: v &= 1
            elif v >> (o[1] - 1): v -= 1 << o[1]
            return const(v)
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'f':
            return FP(('const', o[1], int(o[2])), const(int(o[2])))
        if k == 'fn': return Ptr(('fn', o[1]), ZERO)
        if k == 'g': return Ptr(('g', o[1]), ZERO)
        if k == 'gep':
            b = self.val(st, env, o[1]); return Ptr(b.base, b.off + o[2])
        if k == 'zero':
            return ZERO if width(o[1]) else UNDEF
        return UNDEF
    def ival(self, st, env, o, inst):
        v = self.val(st, env, o)
        if v is UNDEF:
            self.m.ob('init', False, inst, st, 'use of an uninitialised value'); return fresh('undef')
        return v
    def region(self, items, loop, stop=None):
        """run from the items (st, env, block, prev) until return/throw; with a loop: until its header is re-entered
        (backs) or it is left (exits); stop: block at whose entry to stop (stops)"""
        res = Res(); m = self.m
        work = [(x[0], x[1], x[2], x[3], 0, len(x) > 4 and x[4]) for x in items]
        first = True
        n = 0
        while work:
            st, env, b, prev, ii, entered = work.pop()
            n += 1
            if n > m.maxpaths: raise AnalysisError('too many paths in %s' % self.f['demangled'])
            if m.deadline and time.time() > m.deadline: raise AnalysisError('analysis time limit reached in %s' % self.f['demangled'])
            if ii == 0 and not entered:
                lp = self.f['loopof'].get(b)
                if lp is not None and lp is not loop:
                    for kind, s2, e2, x, y in self.m_loop(lp, st, env, prev):
                        if kind == 'exit': self.goto(work, res, loop, stop, s2, e2, x, y)
                        elif kind == 'ret': res.rets.append((s2, x))
                        else: res.throws.append(x)
                    continue
                env = self.phis(st, env, b, prev)
            self.block(st, env, b, ii, work, res, loop, stop)
        return res
    def phis(self, st, env, b, prev):
        new = None
        for inst in self.blocks[b]:
            if inst['op'] != 'phi': break
            if new is None: new = dict(env)
            for pb, o in inst['ops']:
                if pb == prev:
                    new[inst['id']] = self.val(st, env, o); break
            else:
                if prev is None: pass
        return new if new is not None else env
    def goto(self, work, res, loop, stop, st, env, frm, to):
        if stop is not None and to == stop:
            res.stops.append((st, env, frm)); return
        if loop is not None:
            if to == loop['header']: res.backs.append((st, env, frm)); return
            if to not in loop['set']: res.exits.append((st, env, frm, to)); return
        work.append((st, env, to, frm, 0, False))
    def block(self, st, env, b, ii, work, res, loop, stop):
        m = self.m
        ins = self.blocks[b]
        env = dict(env)
        while ii < len(ins):
            i = ins[ii]; op = i['op']
            if op == 'phi': ii += 1; continue
            m.steps += 1
            if op == 'br':
                ops = i['ops']
                if len(ops) == 1:
                    self.goto(work, res, loop, stop, st, env, b, ops[0][1]); return
                c = self.val(st, env, ops[0])
                if c is UNDEF:
                    m.ob('init', False, i, st, 'branch on an uninitialised value'); c = None
                cv = None if c is None else st.norm(c).cval()
                if cv is None:
                    if c is not None:
                        for t, s in m.split_eq(st, c):
                            self.goto(work, res, loop, stop, s, env, b, (ops[2] if t else ops[1])[1])
                        return
                    for t in (1, 2): self.goto(work, res, loop, stop, st, env, b, ops[t][1])
                    return
                self.goto(work, res, loop, stop, st, env, b, (ops[1] if cv & 1 else ops[2])[1]); return
            if op == 'switch':
                c = self.ival(st, env, i['ops'][0], i)
                cur = [st]
                for cv, tgt in i['cases']:
                    nxt = []
                    w = cv[1]
                    for s in cur:
                        k = int(cv[2])
                        d = (m.uns(s, c, w) - (k % (1 << w)))
                        for t, s2 in m.split_eq(s, d):
                            if t: self.goto(work, res, loop, stop, s2, env, b, tgt)
                            else: nxt.append(s2)
                    cur = nxt
                for s in cur: self.goto(work, res, loop, stop, s, env, b, i['default'])
                return
            if op == 'ret':
                v = self.val(st, env, i['ops'][0]) if i['ops'] else None
                if isinstance(v, Poly):
                    v = st.norm(v)
                res.rets.append((st, v)); return
            if op == 'unreachable':
                return
            if op == 'resume':
                v = self.val(st, env, i['ops'][0])
                exc = st.tags.get('exc')
                s = st.copy(); s.tags.pop('exc', None)
                res.throws.append(Out('throw', s, exc, i)); return
            if op in ('call', 'invoke'):
                outs = self.call(st, env, i)
                cont = []
                for o in outs:
                    if o.kind == 'ret':
                        e2 = env
                        if i['ty'] != 'void':
                            e2 = dict(env); e2[i['id']] = o.val
                        cont.append((o.st, e2))
                    else:
                        if op == 'invoke':
                            s = o.st.copy(); s.tags['exc'] = o.val
                            self.goto(work, res, loop, stop, s, env, b, i['unwind'])
                        else: res.throws.append(o)
                if op == 'invoke':
                    for s, e2 in cont: self.goto(work, res, loop, stop, s, e2, b, i['normal'])
                    return
                if not cont: return
                for s, e2 in cont[1:]: work.append((s, e2, b, None, ii + 1, True))
                st, env = cont[0]
                env = dict(env)
                ii += 1; continue
            r = self.simple(st, env, i)
            if r is None: ii += 1; continue
            # r: list of (st, value)
            if not r: return
            for s, v in r[1:]:
                e2 = dict(env)
                if v is not None: e2[i['id']] = v
                work.append((s, e2, b, None, ii + 1, True))
            st, v = r[0]
            if v is not None: env[i['id']] = v
            ii += 1
        raise AnalysisError('block without terminator')
    def call(self, st, env, i):
        m = self.m
        cal = i['callee']
        if cal[0] != 'fn':
            raise AnalysisError('indirect call at %s' % loc(i))
        f = m.mod.fns[cal[1]]
        args = [self.val(st, env, o) for o in i['ops']]
        return m.call_fn(st, f, args, i)
    # ---- simple instructions: None (no result) or list of (st, value)
    def simple(self, st, env, i):
        m = self.m; op = i['op']
        if op == 'alloca':
            base = ('o', (self.id, i['id']))
            st.alive.add(base)
            t = i['aty']
            mt = re.match(r'\[(\d+) x i(\d+)\]', t)
            if mt and int(mt.group(1)) > 0 and int(mt.group(2)) % 8 == 0:
                w = int(mt.group(2)) // 8; n = int(mt.group(1))
                arr = Arr('uninit', 8 * w)
                b = m.newbuf(st, const(n), w, [(ZERO, const(n), E(arr, BETA))], ('stack', self.id))
                env[i['id']] = Ptr(('b', b), ZERO)
            else:
                env[i['id']] = Ptr(base, ZERO)
            return None
        if op == 'load':
            p = self.val(st, env, i['ops'][0])
            return m.load(st, p, i['ty'], i)
        if op == 'store':
            v = self.val(st, env, i['ops'][0]); p = self.val(st, env, i['ops'][1])
            o = i['ops'][0]
            ty = self.optype(o)
            return [(s, None) for s in m.store(st, p, ty, v, i)]
        if op == 'getelementptr':
            p = self.val(st, env, i['ops'][0])
            if not isinstance(p, Ptr): raise AnalysisError('address arithmetic on %r at %s' % (p, loc(i)))
            off = p.off + i['off']
            for o, sc, w in i['var']:
                v = self.ival(st, env, o, i)
                off = off + m.sgn(st, v, w).scale(sc)
            env[i['id']] = Ptr(p.base, off); return None
        if op in ('add', 'sub', 'mul', 'shl'):
            w = width(i['ty'])
            a = self.ival(st, env, i['ops'][0], i); b = self.ival(st, env, i['ops'][1], i)
            if w == 1:
                x, y = st.norm(a).cval(), st.norm(b).cval()
                if x is None or y is None: raise AnalysisError('symbolic i1 arithmetic')
                env[i['id']] = const({'add': x ^ y, 'sub': x ^ y, 'mul': x & y, 'shl': x}[op] & 1); return None
            nsw = i.get('nsw')
            if op == 'shl':
                s = m.uns(st, b, w)
                ok = st.prove_ge(-s + (w - 1))
                m.ob('ub', ok, i, st, 'shift amount below the width', lambda: 'amount %s' % s)
                x = m.sgn(st, a, w) if nsw else m.uns(st, a, w)
                e = exp2(s)
                if e is None: raise AnalysisError('shift by non-affine amount %s at %s' % (s, loc(i)))
                r = x * e
                if nsw: m.ob('ub', in_s(st, r, w), i, st, 'no signed overflow in shift')
                elif st.range(r)[1] is None or st.range(r)[1] >= 1 << w:
                    r = self.lazywrap(st, r, w)
                env[i['id']] = r; return None
            if nsw:
                x = m.sgn(st, a, w); y = m.sgn(st, b, w)
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                r = st.norm(r)
                if m.record or not m.optimistic:
                    ok = in_s(st, r, w)
                    m.ob('ub', ok, i, st, 'no signed overflow in %s' % op, lambda: 'value %s' % r)
                env[i['id']] = r
                return None
            a = st.norm(a); b = st.norm(b)
            r = a + b if op == 'add' else a - b if op == 'sub' else None
            if r is None:
                # keep factors in natural range so that the product stays meaningful
                x = m.uns(st, a, w) if not a.is_const() else a
                y = m.uns(st, b, w) if not b.is_const() else b
                r = x * y
            env[i['id']] = st.norm(r) if len(r.t) < 60 else self.lazywrap(st, r, w)
            return None
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            return self.divide(st, env, i, op)
        if op in ('lshr', 'ashr'):
            w = width(i['ty'])
            a = self.ival(st, env, i['ops'][0], i); s = m.uns(st, self.ival(st, env, i['ops'][1], i), w)
            ok = st.prove_ge(-s + (w - 1))
            m.ob('ub', ok, i, st, 'shift amount below the width', lambda: 'amount %s' % s)
            x = m.uns(st, a, w) if op == 'lshr' else m.sgn(st, a, w)
            e = exp2(s)
            if e is None: raise AnalysisError('shift by non-affine amount %s at %s' % (s, loc(i)))
            env[i['id']] = m.floordiv(st, x, e); return None
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, env, i, op)
        if op == 'trunc':
            v = self.ival(st, env, i['ops'][0], i)
            w = width(i['ty'])
            if w == 1:
                u = m.uns(st, v, 1) if not (st.range(v)[0] in (0, 1) and st.range(v)[1] in (0, 1)) else st.norm(v)
                return [(s, const(0 if t else 1)) for t, s in m.split_eq(st, u)]
            env[i['id']] = v; return None
        if op == 'zext':
            v = self.ival(st, env, i['ops'][0], i); env[i['id']] = m.uns(st, v, self.opw(i['ops'][0])); return None
        if op == 'sext':
            v = self.ival(st, env, i['ops'][0], i)
            w = self.opw(i['ops'][0])
            if w == 1: env[i['id']] = -st.norm(v); return None
            env[i['id']] = m.sgn(st, v, w); return None
        if op == 'icmp': return self.icmp(st, env, i)
        if op == 'select':
            c = self.ival(st, env, i['ops'][0], i); cv = st.norm(c).cval()
            if cv is None:
                return [(s, self.val(s, env, i['ops'][2 if t else 1])) for t, s in m.split_eq(st, c)]
            env[i['id']] = self.val(st, env, i['ops'][1 if cv & 1 else 2]); return None
        if op == 'freeze':
            env[i['id']] = self.val(st, env, i['ops'][0]); return None
        if op == 'ptrtoint':
            p = self.val(st, env, i['ops'][0])
            env[i['id']] = self.addr(p); return None
        if op == 'extractvalue':
            v = self.val(st, env, i['ops'][0])
            if isinstance(v, Agg): env[i['id']] = v.v[i['idx'][0]]
            else: env[i['id']] = UNDEF if i['ty'] != 'ptr' else Ptr(('exc',), ZERO)
            return None
        if op == 'insertvalue':
            v = self.val(st, env, i['ops'][0]); x = self.val(st, env, i['ops'][1])
            d = dict(v.v) if isinstance(v, Agg) else {}
            d[i['idx'][0]] = x; env[i['id']] = Agg(d); return None
        if op == 'landingpad':
            env[i['id']] = Agg({0: Ptr(('exc',), ZERO), 1: ZERO})
            # a pad that only cleans up resumes; a pad with a catch-all continues
            return None
        if op in ('sitofp', 'uitofp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fpext', 'fptrunc', 'frem'):
            a = []
            for o in i['ops']:
                v = self.ival(st, env, o, i)
                if isinstance(v, Poly): v = m.sgn(st, v, self.opw(o)) if op == 'sitofp' else m.uns(st, v, self.opw(o))
                a.append(v.expr if isinstance(v, FP) else v)
            x = self.val(st, env, i['ops'][0])
            b = st.norm(x.bits) if op == 'fneg' and isinstance(x, FP) and x.bits is not None else None
            if b is not None:
                w = 8 * TYSIZE[i['ty']]; top = 1 << (w - 1)
                b = b + top if st.prove_ge(b) and st.prove_ge(top - 1 - b) else b - top if st.prove_ge(b - top) else None
            env[i['id']] = FP((op,) + tuple(a), b); return None
        if op in ('fptosi', 'fptoui'):
            v = self.val(st, env, i['ops'][0]); r = fpreal(st, v.expr) if isinstance(v, FP) else None
            if r is not None:
                x = r[0] if r[1] == 1 else m.floordiv(st, r[0], const(r[1])) if st.prove_ge(r[0]) else None
                if x is not None and st.prove_ge(x) and st.prove_ge((1 << (width(i['ty']) - (op == 'fptosi'))) - 1 - x): env[i['id']] = x; return None
            env[i['id']] = fresh('fpint'); return None
        if op == 'fcmp':
            return [(st.copy(), const(1)), (st, const(0))]
        if op == 'bitcast':
            v = self.val(st, env, i['ops'][0])
            if isinstance(v, FP) and width(i['ty']):
                env[i['id']] = v.bits if v.bits is not None else fresh('fpbits', 0, (1 << width(i['ty'])) - 1)
            elif isinstance(v, Poly) and i['ty'] in ('double', 'float'): env[i['id']] = FP(('bits', v), v)
            else: env[i['id']] = v
            return None
        if op == 'fence': return None
        raise AnalysisError('instruction %s at %s' % (op, loc(i)))
    def lazywrap(self, st, r, w):
        lo, hi = st.range(r)
        M = 1 << w
        if lo is not None and hi is not None and lo >= -M and hi < M: return r
        return self.m.uns(st, r, w)
    def optype(self, o):
        if o[0] == 'c': return 'i%d' % o[1]
        if o[0] in ('null', 'fn', 'g', 'gep'): return 'ptr'
        if o[0] in ('f', 'undef', 'zero', 'const', 'ce'): return o[1]
        return self.tyof(o[1])
    def tyof(self, vid):
        t = self.f.get('tymap')
        if t is None:
            t = {a['id']: a['ty'] for a in self.f['args']}
            for b in self.blocks:
                for x in b: t[x['id']] = x['ty']
            self.f['tymap'] = t
        return t[vid]
    def opw(self, o): return width(self.optype(o))
    def addr(self, p):
        if not isinstance(p, Ptr): raise AnalysisError('address of %r' % (p,))
        if p.base[0] == 'null': return p.off
        k = p.base
        a = _addr.get(k)
        if a is None: a = _addr[k] = fresh('addr', 1, (1 << 47), 0)
        return a + p.off
    def divide(self, st, env, i, op):
        m = self.m; w = width(i['ty'])
        a = self.ival(st, env, i['ops'][0], i); b = self.ival(st, env, i['ops'][1], i)
        if op[0] == 'u':
            x = m.uns(st, a, w); y = m.uns(st, b, w)
            ok = st.prove_ge(y - 1) or st.prove_ne(y)
            m.ob('div0', ok, i, st, 'divisor is not zero', lambda: 'divisor %s' % y)
            st = st.copy()
            if not st.assume_ge(y - 1): return []
            q = m.floordiv(st, x, y)
            env[i['id']] = q if op == 'udiv' else st.norm(x - q * y)
            return [(st, env[i['id']])]
        x = m.sgn(st, a, w); y = m.sgn(st, b, w)
        res = []
        zero = False
        for tx, s1 in m.split_ge(st, x):
            for ty_, s2 in m.split_ge(s1, s1.norm(y) - 1):
                if ty_:
                    self.sdiv1(s2, x, y, tx, True, op, res, w, i)
                else:
                    s3 = s2.copy()
                    ok = s2.prove_ge(-y - 1) or s2.prove_ne(y)
                    m.ob('div0', ok, i, s2, 'divisor is not zero', lambda: 'divisor %s' % y)
                    if s3.assume_ge(-y - 1): self.sdiv1(s3, x, y, tx, False, op, res, w, i)
        return res
    def sdiv1(self, st, x, y, xp, yp, op, res, w, i):
        m = self.m
        x = st.norm(x); y = st.norm(y)
        X = x if xp else -x; Y = y if yp else -y
        q = m.floordiv(st, X, Y)
        Q = q if xp == yp else -q
        if not xp and not yp:
            ok = in_s(st, Q, w)
            m.ob('ub', ok, i, st, 'no overflow in division')
        if op == 'sdiv': res.append((st, st.norm(Q)))
        else:
            r = X - q * Y
            res.append((st, st.norm(r if xp else -r)))
    def bitop(self, st, env, i, op):
        m = self.m; w = width(i['ty'])
        a = self.ival(st, env, i['ops'][0], i); b = self.ival(st, env, i['ops'][1], i)
        a = st.norm(a); b = st.norm(b)
        if w == 1:
            x, y = a.cval(), b.cval()
            if x is None or y is None:
                # one side decides
                if op == 'and' and (x == 0 or y == 0): env[i['id']] = ZERO; return None
                if op == 'or' and (x == 1 or y == 1): env[i['id']] = const(1); return None
                sym_ = b if x is not None else a
                res = []
                for t, s in m.split_eq(st, sym_):
                    e2 = 0 if t else 1
                    if x is not None: z = (x, e2)
                    elif y is not None: z = (e2, y)
                    else:
                        for t2, s2 in m.split_eq(s, b):
                            k = (e2, 0 if t2 else 1)
                            res.append((s2, const({'and': k[0] & k[1], 'or': k[0] | k[1], 'xor': k[0] ^ k[1]}[op])))
                        continue
                    res.append((s, const({'and': z[0] & z[1], 'or': z[0] | z[1], 'xor': z[0] ^ z[1]}[op])))
                return res
            env[i['id']] = const({'and': x & y, 'or': x | y, 'xor': x ^ y}[op] & 1); return None
        env[i['id']] = m.bitval(st, op, a, b, w); return None
    def icmp(self, st, env, i):
        m = self.m; pred = i['pred']
        a = self.ival(st, env, i['ops'][0], i); b = self.ival(st, env, i['ops'][1], i)
        ty = self.optype(i['ops'][0])
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise AnalysisError('pointer compared with integer')
            if a.base == b.base:
                d = a.off - b.off
                m.bcmps.append((st.norm(d), m.loopdepth))
                if pred in ('eq', 'ne'): return [(s, const(int(t == (pred == 'eq')))) for t, s in m.split_eq(st, d)]
                if pred in ('ult', 'slt'): return [(s, const(int(not t))) for t, s in m.split_ge(st, d)]
                if pred in ('uge', 'sge'): return [(s, const(int(t))) for t, s in m.split_ge(st, d)]
                if pred in ('ugt', 'sgt'): return [(s, const(int(not t))) for t, s in m.split_ge(st, -d)]
                return [(s, const(int(t))) for t, s in m.split_ge(st, -d)]
            if pred in ('eq', 'ne'): return [(st, const(int(pred == 'ne')))]
            raise AnalysisError('ordering of unrelated pointers at %s' % loc(i))
        w = width(ty)
        if pred in ('eq', 'ne'):
            d = st.norm(a - b)
            lo, hi = st.range(d)
            if lo is None or hi is None or lo <= -(1 << w) or hi >= 1 << w:
                ra, rb = st.range(a), st.range(b)
                H = 1 << (w - 1)
                if all(x[0] is not None and x[1] is not None and -H <= x[0] and x[1] < H for x in (ra, rb)): d = m.sgn(st, a, w) - m.sgn(st, b, w)
                else: d = m.uns(st, a, w) - m.uns(st, b, w)
            m.bcmps.append((st.norm(d), m.loopdepth))
            return [(s, const(int(t == (pred == 'eq')))) for t, s in m.split_eq(st, d)]
        if pred[0] == 's':
            cases = []
            for s, x in m.signcases(st, a, w):
                for s2, y in m.signcases(s, b, w): cases.append((s2, s2.norm(x), y))
        else: cases = [(st, m.uns(st, a, w), m.uns(st, b, w))]
        res = []
        for s, x, y in cases:
            d = s.norm(x - y)
            k = pred[1:]
            m.bcmps.append((d if k in ('ge', 'lt') else -d, m.loopdepth))
            if k == 'ge': r = [(t, q) for t, q in m.split_ge(s, d)]
            elif k == 'lt': r = [(not t, q) for t, q in m.split_ge(s, d)]
            elif k == 'le': r = [(t, q) for t, q in m.split_ge(s, -d)]
            else: r = [(not t, q) for t, q in m.split_ge(s, -d)]
            res += [(q, const(int(t))) for t, q in r]
        return res
    def m_loop(self, lp, st, env, prev):
        import loops
        for an in self.m.annots:
            r = an.run(self, lp, st, env, prev)
            if r is not None: return r
        return loops.analyse(self, lp, st, env, prev)

_addr = {}
def in_s(st, r, w):
    H = 1 << (w - 1)
    lo, hi = st.range(r)
    if lo is not None and hi is not None and lo >= -H and hi < H: return True
    return st.prove_ge(r + H) and st.prove_ge(-r + (H - 1))

def _floordiv(self, st, x, d):
    x = st.norm(x); d = st.norm(d)
    if d.is_const(): return st.norm(fd(x, d, st.range))
    def bnd(n, dd=None):
        if dd is None: return st.range(n)
        # symbolic denominator: quotient known to be a constant?
        lo, hi = st.range(n)
        if st.prove_ge(n) and st.prove_ge(dd - n - 1): return 0
        return None
    return st.norm(fd(x, d, bnd))
Machine.floordiv = _floordiv
def _disjoint(self, st, a, b):
    """a is a multiple of 2^k and 0 <= b < 2^k for some k"""
    lo, hi = st.range(b)
    if lo is not None and hi is not None and lo >= 0:
        k = hi.bit_length()
        if all(type(c) is int and c % (1 << k) == 0 for m, c in a.t.items()): return True
    if not any(m[1] for m in a.t):
        if not all(type(c) is int for c in a.t.values()) or not a.t: return False
        g = 1
        while g < 1 << 64 and all(c % (2 * g) == 0 for c in a.t.values()): g *= 2
        return g > 1 and st.prove_ge(b) and st.prove_ge(-b + (g - 1))
    # symbolic: every monomial of a divisible by 2^s for the smallest power s occurring
    cands = set()
    for m in list(a.t):
        for x, k in m[1]: cands.add((x, k))
    for x, k in cands:
        if k <= 0: continue
        p2 = exp2(var(x).scale(k))
        ok = True
        for m, c in a.t.items():
            ex = dict(m[1])
            if ex.get(x, 0) >= k: continue
            # constant multiple 2^j with j >= bound of the exponent
            l, h = st.abound(x)
            if h is None or type(c) is not int or c % (1 << max(0, h * k)): ok = False; break
        if ok and st.prove_ge(b) and st.prove_ge(p2 - b - 1): return True
    return False
Machine.disjoint = _disjoint
