"""Abstract state: relational constraints over monomials, plus memory.  Deciding entailment is exact linear
programming over the monomials (a polyhedral domain with lazily added product and definition facts)."""
import ctypes, os, time
from fractions import Fraction
from math import gcd
from alg import *
import alg
from alg import _c

_lib = None
def lib():
    global _lib
    if _lib is None:
        b = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build', 'liblp.so')
        _lib = ctypes.CDLL(b)
        _lib.lp_infeasible.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int]
    return _lib

STATS = {'lp': 0, 'lpt': 0.0, 'prove': 0, 'hit': 0}

def clear_neg(p):
    """p times the power of two that makes every exponent non-negative"""
    neg = {}
    for m in p.t:
        for a, k in m[1]:
            if k < neg.get(a, 0): neg[a] = k
    if not neg: return p
    return p * exp2(sum((var(a).scale(-k) for a, k in neg.items()), ZERO))

def lowest(p):
    """p times the power of two that makes the least exponent of every variable zero"""
    lo = None
    for m in p.t:
        e = dict(m[1])
        if lo is None: lo = e; continue
        lo = {a: min(k, e.get(a, 0)) for a, k in list(lo.items()) + [x for x in m[1] if x[0] not in lo] for k in (lo.get(a, 0),)}
    lo = {a: k for a, k in (lo or {}).items() if k}
    if not lo: return p
    return p * exp2(sum((var(a).scale(-k) for a, k in lo.items()), ZERO))

def prim(p):
    """positive multiple of p with integer coefficients of gcd 1 over the non-constant part;
    the constant is floored when all monomials are integers (no negative exponents)"""
    t = p.t
    if not t: return p
    whole = all(k >= 0 for m in t for _, k in m[1])
    l = 1
    for c in t.values():
        if type(c) is Fraction: l = l * c.denominator // gcd(l, c.denominator)
    if l != 1: p = p.scale(l); t = p.t
    g = 0
    for m, c in t.items():
        if m != ONE: g = gcd(g, c)
        if g == 1: break
    if g > 1:
        t2 = {m: c // g for m, c in t.items() if m != ONE}
        c0 = t.get(ONE, 0) // g if whole else _c(Fraction(t.get(ONE, 0), g))
        if c0: t2[ONE] = c0
        p = Poly(t2)
    return p

INF = None
def iadd(a, b): return None if a is None or b is None else a + b
def imul(l1, h1, l2, h2):
    """interval product with None as infinity"""
    cands = []
    for x, xi in ((l1, -1), (h1, 1)):
        for y, yi in ((l2, -1), (h2, 1)):
            if x == 0 or y == 0: cands.append(0); continue
            sx = xi if x is None else (1 if x > 0 else -1)
            sy = yi if y is None else (1 if y > 0 else -1)
            if x is None or y is None: cands.append('+' if sx * sy > 0 else '-')
            else: cands.append(x * y)
    lo = None if '-' in cands else min((c for c in cands if c not in ('+',)), default=None)
    hi = None if '+' in cands else max((c for c in cands if c not in ('-',)), default=None)
    return lo, hi

class Infeasible(Exception): pass

def or_min(a, b, c, d):
    m = 1 << 63
    while m:
        if ~a & c & m:
            t = (a | m) & -m
            if t <= b: a = t; break
        elif a & ~c & m:
            t = (c | m) & -m
            if t <= d: c = t; break
        m >>= 1
    return a | c
def or_max(a, b, c, d):
    m = 1 << 63
    while m:
        if b & d & m:
            t = (b - m) | (m - 1)
            if t >= a: b = t; break
            t = (d - m) | (m - 1)
            if t >= c: d = t; break
        m >>= 1
    return b | d
def and_min(a, b, c, d):
    m = 1 << 63
    while m:
        if ~a & ~c & m:
            t = (a | m) & -m
            if t <= b: a = t; break
            t = (c | m) & -m
            if t <= d: c = t; break
        m >>= 1
    return a & c
def and_max(a, b, c, d):
    m = 1 << 63
    while m:
        if b & ~d & m:
            t = (b & ~m) | (m - 1)
            if t >= a: b = t; break
        elif ~b & d & m:
            t = (d & ~m) | (m - 1)
            if t >= c: d = t; break
        m >>= 1
    return b & d
def bitrange(op, a, b, c, d):
    """exact bounds of x op y for x in [a,b], y in [c,d] (Warren, Hacker's Delight 4-3); for xor a superset"""
    if max(b, d) >> 64 or min(a, c) < 0: return None, None
    if op == 'or': return or_min(a, b, c, d), or_max(a, b, c, d)
    if op == 'and': return and_min(a, b, c, d), and_max(a, b, c, d)
    M = (1 << 64) - 1      # x ^ y = (x & ~y) | (~x & y)
    if max(b, d) > 1 << 34: return 0, (1 << max(b.bit_length(), d.bit_length())) - 1
    M = (1 << max(b.bit_length(), d.bit_length())) - 1
    p = and_min(a, b, M - d, M - c), and_max(a, b, M - d, M - c); q = and_min(M - b, M - a, c, d), and_max(M - b, M - a, c, d)
    return max(p[0], q[0]), or_max(p[0], p[1], q[0], q[1])

class State:
    __slots__ = ('sub', 'cons', 'neqs', 'bnd', 'ncache', 'pcache', 'icache', 'cells', 'bufs', 'alive', 'tags', 'trail', 'ghost', 'nosplit')
    def __init__(self):
        self.sub = {}; self.cons = {}; self.neqs = []; self.bnd = {}; self.ncache = {}; self.pcache = {}; self.icache = {}
        self.cells = {}; self.bufs = {}; self.alive = set(); self.tags = {}; self.trail = (); self.ghost = {}; self.nosplit = 0
    def copy(self):
        s = State.__new__(State)
        s.sub = self.sub; s.cons = self.cons; s.neqs = self.neqs; s.bnd = self.bnd; s.ncache = self.ncache; s.pcache = self.pcache; s.icache = self.icache
        s.cells = dict(self.cells); s.bufs = dict(self.bufs); s.alive = set(self.alive); s.tags = dict(self.tags); s.trail = self.trail; s.ghost = self.ghost; s.nosplit = self.nosplit
        return s
    # sub/cons/neqs/bnd are replaced (never mutated) on change
    def norm(self, p):
        s = self.sub
        if not s or p.deps().isdisjoint(s): return p
        r = self.ncache.get(p)
        if r is None:
            r = p
            n = 0
            while not r.deps().isdisjoint(s):
                r = subst(r, s); n += 1
                if n > 30: raise RuntimeError('substitution does not terminate')
            self.ncache[p] = r
        return r
    # ---- intervals
    def abound(self, a):
        r = self.icache.get(a)
        if r is not None: return r
        at = ATOMS[a]; lo, hi = at.lo, at.hi
        k = at.kind
        self.icache[a] = (lo, hi) if k != 'P' else (None, None)
        if k == 'FD':
            d = at.a[1].cval()
            l, h = self.interval(at.a[0])
            if d is not None:
                lo = None if l is None else l // d
                hi = None if h is None else h // d
            else:
                dl, dh = self.interval(at.a[1])
                if l is not None and l >= 0:
                    lo = 0
                    if h is not None: hi = h // (dl if dl and dl >= 1 else 1)
        elif k == 'P':
            l, h = self.interval(at.a[1])
            if l is not None and l >= 0:
                lo = 0
                if h is not None and h <= 16: hi = (1 << (at.a[0].bits * h)) - 1
            else: lo = None
        elif k == 'BIT':
            lo = 0
            (l1, h1), (l2, h2) = self.tight(at.a[1]), self.tight(at.a[2])
            if None not in (l1, h1, l2, h2) and 0 <= l1 <= h1 and 0 <= l2 <= h2:
                lo, hi = bitrange(at.a[0], l1, h1, l2, h2)
                if lo is None: lo = 0
            elif at.a[0] == 'and':
                hi = h1 if h2 is None else h2 if h1 is None else min(h1, h2)
            else:
                hi = None if h1 is None or h2 is None else (1 << max(h1.bit_length(), h2.bit_length())) - 1
                if at.a[0] == 'or' and l1 is not None and l2 is not None: lo = max(l1, l2)
        b = self.bnd.get(a)
        if b is not None:
            if b[0] is not None and (lo is None or b[0] > lo): lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi): hi = b[1]
        self.icache[a] = (lo, hi)
        return lo, hi
    def ebound(self, ex):
        lo = hi = 0
        for a, k in ex:
            l, h = self.abound(a)
            if k < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        L = 0 if lo is None else (1 << lo if 0 <= lo <= 4096 else (Fraction(1, 1 << -lo) if -4096 < lo < 0 else 0))
        H = None if hi is None or hi > 4096 else (1 << hi if hi >= 0 else 1)
        return L, H
    def minterval(self, m):
        lo = hi = 1
        for a, p in m[0]:
            l, h = self.abound(a)
            if p == 2 and (l is None or l < 0):
                c = [abs(x) for x in (l, h) if x is not None]
                l, h = 0, (max(c) ** 2 if l is not None and h is not None else None)
                lo, hi = imul(lo, hi, l, h); continue
            for _ in range(p): lo, hi = imul(lo, hi, l, h)
        if m[1]:
            l, h = self.ebound(m[1]); lo, hi = imul(lo, hi, l, h)
        return lo, hi
    def interval(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            if m == ONE:
                if lo is not None: lo += c
                if hi is not None: hi += c
                continue
            if lo is None and hi is None: break
            l, h = self.minterval(m)
            if c < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi
    def tight(self, p):
        """interval of an integer p where quotients are also replaced by their real bounds"""
        lo, hi = self.range(p)
        for a in p.atoms():
            at = ATOMS[a]
            if at.kind != 'FD': continue
            d = at.a[1].cval(); c = p.t.get((((a, 1),), ()), 0)
            if not d or not c or d < 0: continue
            q = p - var(a).scale(c) + at.a[0].scale(Fraction(c, d))
            w = Fraction(abs(c) * (d - 1), d)
            l, h = self.interval(q)
            if c > 0: l = None if l is None else l - w
            else: h = None if h is None else h + w
            if l is not None: l = -((-l) // 1); lo = l if lo is None or l > lo else lo
            if h is not None: h = h // 1; hi = h if hi is None or h < hi else hi
        return lo, hi
    def ival(self, p):
        return self.interval(self.norm(p))
    def range(self, p):
        """numeric bounds of p, sharpened with the constraint store"""
        p = self.norm(p)
        lo, hi = self.interval(p)
        pp = p.nonconst(); c0 = p.constpart()
        for q, s in ((pp, 1), (-pp, -1)):
            if not q.t: continue
            g = prim(q)
            b = self.cons.get(g)      # g + b >= 0
            if b is not None:
                m0 = next(iter(g.t)); k = Fraction(q.t[m0], g.t[m0]) if m0 in q.t else None
                if k is not None and k > 0:
                    v = -b * k       # q >= v
                    if s > 0:
                        v = v + c0
                        v = int(v) if v == int(v) else v
                        if lo is None or v > lo: lo = v
                    else:
                        v = -v + c0
                        v = int(v) if v == int(v) else v
                        if hi is None or v < hi: hi = v
        return lo, hi
    # ---- assumptions
    def _touch(self):
        self.pcache = {}; self.icache = {}
    def assume_ge(self, p):
        """add p >= 0; False when contradictory"""
        p = self.norm(p)
        z = lowest(p)
        if z is not p: p = self.norm(z)
        p = prim(p)
        if p.is_const(): return p.constpart() >= 0
        c = p.constpart(); n = p.nonconst()
        old = self.cons.get(n)
        if old is not None and old <= c: return True
        lo, hi = self.interval(p)
        if hi is not None and hi < 0: return False
        if lo is not None and lo >= 0: return True
        o = self.cons.get(-n)           # -n + o >= 0
        if o is not None:
            if o + c < 0: return False
            if o + c == 0: return self.assume_eq(n + c)
        for q in self.neqs:
            if q == p or q == -p: c -= 1; p = p - 1; break
        if o is not None and o + c == 0: return self.assume_eq(n + c)
        if o is not None and o + c < 0: return False
        self.cons = dict(self.cons); self.cons[n] = c
        if len(n.t) == 1:
            (m, k), = n.t.items()
            if not m[1] and len(m[0]) == 1 and m[0][0][1] == 1:
                a = m[0][0][0]
                l, h = self.abound(a)
                if k > 0: l2, h2 = -(c // k), h
                else: l2, h2 = l, c // -k
                if l2 is not None and h2 is not None:
                    if l2 > h2: return False
                self.bnd = dict(self.bnd); self.bnd[a] = (l2, h2)
                self._touch()
                if l2 is not None and l2 == h2: return self.assume_eq(var(a) - l2)
                return True
        self._touch()
        return self._tighten(p)
    def _tighten(self, p):
        """p >= 0 tightens quotients with few possible values"""
        n = p.nonconst()
        for m, k in n.t.items():
            if m[1] or len(m[0]) != 1 or m[0][0][1] != 1: continue
            a = m[0][0][0]
            if ATOMS[a].kind != 'FD': continue
            l, h = self.abound(a)
            if l is None or h is None or h - l > 3 or l == h: continue
            rh = self.interval(p - mono(m, k))[1]
            if rh is None: continue
            if k > 0: l2, h2 = max(l, -(rh // k)), h
            else: l2, h2 = l, min(h, rh // -k)
            if l2 > h2: return False
            if (l2, h2) != (l, h):
                self.bnd = dict(self.bnd); self.bnd[a] = (l2, h2); self._touch()
                if l2 == h2: return self.assume_eq(var(a) - l2)
        return True
    def assume_ne(self, p):
        p = self.norm(p)
        if p.is_const(): return p.constpart() != 0
        if self.prove_ge(p): return self.assume_ge(p - 1)
        if self.prove_ge(-p): return self.assume_ge(-p - 1)
        q = prim(p)
        self.neqs = self.neqs + [q]; self._touch()
        return True
    def assume_eq(self, p):
        p = self.norm(p)
        if p.is_const(): return p.constpart() == 0
        for a in p.atoms():
            if ATOMS[a].kind == 'FD' and len(p.nonconst().t) > 1:
                l, h = self.abound(a)
                if l is not None and l == h:
                    if not self.assume_eq(var(a) - l): return False
                    return self.assume_eq(p)
        q = prim(p)
        lo, hi = self.interval(q)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
        cand = []
        for m, c in q.t.items():
            if m[1] or len(m[0]) != 1 or m[0][0][1] != 1: continue
            a = m[0][0][0]
            at = ATOMS[a]
            rest = Poly({mm: cc for mm, cc in q.t.items() if mm != m})
            if a in rest.deps(): continue
            if abs(c) != 1:
                if any(mm != ONE or True for mm in rest.t) and any(cc % c for cc in rest.t.values()): continue
            # preference
            r = {'sym': 10 * at.rank, 'FD': 9, 'BIT': 8, 'E': 5, 'P': 1}[at.kind]
            if at.kind == 'E' and at.a[0].name[0] == 'D': r = -1    # ghost digits stay
            if at.kind == 'P': r = 2 + min(3, sum(1 for mm in rest.t if mm[1]) == 0)
            key = (r, -len(at.deps), a)
            cand.append((key, a, c, rest))
        if not cand:
            z = lowest(q)
            if z is not q: return self.assume_eq(z)
            # keep as two inequalities (and as a rewrite for the prover)
            n = q.nonconst(); c = q.constpart()
            self.cons = dict(self.cons)
            if n not in self.cons or self.cons[n] > c: self.cons[n] = c
            if -n not in self.cons or self.cons[-n] > -c: self.cons[-n] = -c
            self._touch()
            if not self._tighten(q): return False
            return self._tighten(self.norm(-q))
        ok = None
        b = max(cand, key=lambda x: x[0])
        if ATOMS[b[1]].kind != 'P' and any(k < 0 for m in b[3].t for _, k in m[1]):
            z = clear_neg(q)
            if z is not q: return self.assume_eq(z)
        for _, a, c, rest in sorted(cand, key=lambda x: x[0], reverse=True)[:4]:
            val = rest.scale(Fraction(-1, c)) if abs(c) != 1 else (rest if c == -1 else -rest)
            facts = self.defs(a)
            l, h = self.abound(a)
            try: ok = self._subst(a, val); break
            except NonAffine: continue
        if ok is None:
            n = q.nonconst(); c = q.constpart()
            self.cons = dict(self.cons); self.cons[n] = min(c, self.cons.get(n, c)); self.cons[-n] = min(-c, self.cons.get(-n, -c)); self._touch()
            return True
        if not ok: return False
        for f in facts:
            if not self.assume_ge(f): return False
        if l is not None and not self.assume_ge(val - l): return False
        if h is not None and not self.assume_ge(-val + h): return False
        return True
    def _subst(self, a, val):
        s1 = {a: val}
        new = {}
        redo = []
        for k, v in self.sub.items():
            if a in v.deps():
                nv = subst(v, s1); dd = nv.deps()
                if k in dd or not dd.isdisjoint(self.sub): redo.append((var(k), nv)); continue   # would be cyclic: assert it again
                new[k] = nv
            else: new[k] = v
        new[a] = val
        reb = [(atom_rebuild(ATOMS[k], s1, {}), v) for k, v in new.items() if k != a and a in ATOMS[k].deps] + redo
        oldcons = self.cons; oldneq = self.neqs
        # constraints: rebuild
        save = (self.sub, self.cons, self.neqs, self.bnd, self.ncache, self.pcache, self.icache)
        self.sub = new; self.ncache = {}; self._touch()
        try:
            pend = []; cons = {}
            for n, c in oldcons.items():
                if a in n.deps(): pend.append(n + c)
                else: cons[n] = c
            self.cons = cons
            pend = [self.norm(p) for p in pend]
            nq = []; 
            for q in oldneq:
                q2 = self.norm(q)
                if q2.is_const():
                    if q2.constpart() == 0: return False
                else: nq.append(prim(q2))
            self.neqs = nq
        except NonAffine:
            self.sub, self.cons, self.neqs, self.bnd, self.ncache, self.pcache, self.icache = save
            raise
        # bounds recorded on atoms that depend on a
        bn = {}
        for k, b in self.bnd.items():
            if k == a:
                if b[0] is not None: pend.append(val - b[0])
                if b[1] is not None: pend.append(-val + b[1])
            elif a in ATOMS[k].deps:
                v = self.norm(var(k))
                if b[0] is not None: pend.append(v - b[0])
                if b[1] is not None: pend.append(-v + b[1])
            else: bn[k] = b
        self.bnd = bn; self._touch()
        for q, v in reb:
            if not self.assume_eq(q - v): return False
        for p in pend:
            if not self.assume_ge(p): return False
        return True
    def defs(self, a):
        """defining inequalities of a structured atom (each >= 0)"""
        at = ATOMS[a]; k = at.kind
        v = var(a)
        if k == 'FD':
            n, d = at.a
            return [n - d * v, d * v + d - 1 - n]
        if k == 'BIT':
            op, x, y = at.a
            if op == 'and': return [x - v, y - v, v]
            if op == 'or': return [v - x, v - y, x + y - v]
            return [x + y - v, v - x + y, v - y + x, v]
        if k == 'P':
            arr, idx = at.a
            if self.nonneg(idx):
                e = exp2(idx.scale(arr.bits))
                return [v, e - 1 - v]
        return []
    def nonneg(self, p, depth=1):
        p = self.norm(p)
        lo, _ = self.interval(p)
        if lo is not None and lo >= 0: return True
        q = prim(p)
        if q.is_const(): return q.constpart() >= 0
        n = q.nonconst(); b = self.cons.get(n)
        if b is not None and b <= q.constpart(): return True
        if depth <= 0: return False
        return self.prove_ge(p, depth - 1)
    # ---- entailment
    def prove_ge(self, p, depth=2):
        p = prim(self.norm(p))
        if p.is_const(): return p.constpart() >= 0
        k = (p, depth)
        r = self.pcache.get(k)
        STATS['prove'] += 1
        if r is not None: STATS['hit'] += 1; return r
        self.pcache[k] = False     # recursion guard
        r = self._prove(p, depth)
        if not r and depth >= 1: r = self.quotbound(p, depth - 1)
        if not r and depth == 2 and self.nosplit < 2: r = self.cases(p)
        self.pcache[k] = r
        return r
    def quotbound(self, p, depth):
        """floor(n/d) <= K if n < (K+1)d, floor(n/d) >= K if n >= Kd (d > 0 not constant)"""
        for m, c in p.t.items():
            if m[1] or len(m[0]) != 1 or m[0][0][1] != 1 or type(c) is not int: continue
            a = m[0][0][0]; at = ATOMS[a]
            if at.kind != 'FD' or at.a[1].is_const(): continue
            n, d = at.a
            rest = Poly({k: v for k, v in p.t.items() if k != m})
            if a in rest.deps(): continue
            if abs(c) == 1: K = rest if c < 0 else -rest
            elif rest.cval() is not None and type(rest.cval()) is int: K = const(rest.cval() // -c if c < 0 else -(rest.cval() // c))
            else: continue
            g = (K + 1) * d - 1 - n if c < 0 else n - K * d
            if self.nonneg(d - 1) and self.prove_ge(g, depth): return True
        return False
    def cases(self, p):
        """case distinction on a two-valued quotient"""
        g = p.deps(); todo = []
        if not g: return False
        near = set(p.atoms())
        for n in self.cons:
            x = n.atoms()
            if not x.isdisjoint(near): near |= x
        for a in near:
            if ATOMS[a].kind != 'FD' or (ATOMS[a].deps.isdisjoint(g) and a not in g): continue
            l, h = self.abound(a)
            if l is not None and h is not None and h - l == 1: todo.append((a, l, h))
        for a, l, h in todo[:2]:
            ok = True
            for v in (l, h):
                s = self.copy(); s.nosplit = self.nosplit + 1
                if s.assume_eq(var(a) - v) and not s.prove_ge(p): ok = False; break
            if ok: return True
        return False
    def prove_eq(self, p):
        p = self.norm(p)
        if not p.t: return True
        if p.is_const(): return False
        return self.prove_ge(p) and self.prove_ge(-p)
    def prove_ne(self, p):
        p = self.norm(p)
        if p.is_const(): return p.constpart() != 0
        q = prim(p)
        for x in self.neqs:
            if x == q or x == -q: return True
        if self.prove_ge(p - 1) or self.prove_ge(-p - 1): return True
        # split on the recorded disequalities between digits
        k = ('ne', p)
        r = self.pcache.get(k)
        if r is None:
            self.pcache[k] = r = False
            for x in [x for x in self.neqs if len(x.t) <= 4][-3:]:
                ok = True
                for y in (x - 1, -x - 1):
                    s = self.copy()
                    if s.assume_ge(y):
                        q = s.norm(p)
                        if not (s.prove_ge(q - 1) or s.prove_ge(-q - 1)): ok = False; break
                if ok: self.pcache[k] = r = True; break
        return r
    def _prove(self, p, depth):
        lo, hi = self.interval(p)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        n = p.nonconst(); c = p.constpart()
        b = self.cons.get(n)
        if b is not None and b <= c: return True
        for lvl in ((0, 1) if depth > 0 else (0,)):
            r = self.lp(p, lvl, depth)
            if r is not None: return r
        return False
    def infeasible(self):
        """the constraint store contradicts itself"""
        r = self.pcache.get('inf')
        if r is None:
            r = self.pcache['inf'] = any(self.lp(None, lvl, 2) for lvl in (0, 1))
        return r
    def lp(self, p, lvl, depth):
        """True when the collected facts refute p <= -1; None when undecided"""
        goal = -p - 1 if p is not None else ZERO
        cons = [goal] if p is not None else []; seen = set(); monos = set(); done_atoms = set()
        bym = {}
        for n, c in self.cons.items():
            for m in n.t: bym.setdefault(m, []).append((n, c))
        used = set()
        queue = []
        def addmonos(q):
            for m in q.t:
                if m != ONE and m not in monos:
                    monos.add(m); queue.append(m)
        addmonos(goal)
        if p is None:
            for n, c in self.cons.items():
                used.add(n); seen.add(n + c); cons.append(n + c); addmonos(n)
        def addc(q):
            if q in seen: return
            seen.add(q); cons.append(q); addmonos(q)
        parts = {}
        exps = []
        epend = {}; subp = {}; parr = set(); edone = set()
        def elem(a):
            arr, idx = ATOMS[a].a
            if arr.tmpl is not None: return
            if arr.id not in parr and lvl:
                if not subp:
                    subp[None] = 1
                    for x in self.sub:
                        if ATOMS[x].kind == 'P': subp.setdefault(ATOMS[x].a[0].id, []).append(x)
                if arr.id in subp:
                    parray(arr)
                    for x in subp[arr.id]: near(x)
            if arr.id in parr:
                eadd(arr, idx)
                if lvl: eadd(arr, idx + 1)
            else: epend.setdefault(arr.id, []).append((arr, idx))
        points = {}
        def eadd(arr, idx):
            """a prefix point of arr: bounds, and order facts against the points known so far"""
            idx = self.norm(idx)
            lst = points.setdefault(arr.id, [])
            if (arr.id, idx) in edone or len(lst) > 7: return
            edone.add((arr.id, idx))
            if not self.nonneg(idx, min(depth, 1)): return
            q = self.norm(P(arr, idx)); ex = self.norm(exp2(idx.scale(arr.bits)))
            addc(prim(q)); addc(prim(ex - 1 - q))
            for i2, q2, e2 in lst:
                d = self.norm(idx - i2)
                if self.nonneg(d, min(depth, 1)): x, y = q - q2, ex - e2
                elif self.nonneg(-d, min(depth, 1)): x, y = q2 - q, e2 - ex
                else: continue
                for f in (x, y - x):
                    f = prim(f)
                    if f.t and not f.is_const(): addc(f)
            lst.append((idx, q, ex))
        ecache = []; rev = {}
        def near(a):
            # elements of the same array that the constraints speak about, next to this prefix
            if not ecache:
                d = {}
                for n in self.cons:
                    for x in n.atoms():
                        if ATOMS[x].kind == 'E': d.setdefault(ATOMS[x].a[0].id, set()).add(x)
                ecache.append(d)
            arr, idx = ATOMS[a].a
            eadd(arr, idx)
            for x in self.sub:
                at = ATOMS[x]
                if at.kind == 'P' and at.a[0] is arr: eadd(arr, at.a[1])
                elif at.kind == 'E' and at.a[0] is arr and (at.a[1] - idx).is_const(): eadd(arr, at.a[1])
            for x in ecache[0].get(arr.id, ()):
                if (ATOMS[x].a[1] - idx).is_const(): elem(x)
        def parray(arr):
            if arr.id not in parr:
                parr.add(arr.id)
                for x in epend.pop(arr.id, ()): eadd(*x)
        cap = (200 if lvl else 90) + (len(cons) if p is None else 0)
        if lvl:
            # weights 2^(..) under which the atoms of the goal occur in the store: weighted copies of the goal and of the definitions
            clo = []; todo = [a for g in (self.cons if p is None else (goal,)) for m in g.t if not m[1] and len(m[0]) == 1 for a, _ in m[0]]
            for dd in range(3):
                nxt = []
                for a in todo:
                    if a in clo: continue
                    clo.append(a)
                    if ATOMS[a].kind == 'FD': nxt += [x for f in self.defs(a) for x in self.norm(f).atoms()]
                todo = nxt
            if clo:
                cs = set(clo); Rs = []
                for n in self.cons:
                    for m in n.t:
                        if m[1] and len(m[0]) == 1 and m[0][0][1] == 1 and m[0][0][0] in cs:
                            R = ((), m[1])
                            if R not in Rs: Rs.append(R)
                for R in Rs[:5]:
                    rp = mono(R)
                    if p is not None: addc(prim(goal * rp))
                    for a in clo:
                        if ATOMS[a].kind == 'FD':
                            for f in self.defs(a):
                                f = self.norm(f)
                                if f.t: addc(prim(f * rp))
        rounds = 0
        while queue and len(cons) < cap:
            m = queue.pop(0)
            for n, c in bym.get(m, ()):
                if n not in used:
                    used.add(n); addc(n + c)
            l, h = self.minterval(m)
            mp = mono(m)
            for a, pw in m[0]:
                kd = ATOMS[a].kind
                if kd == 'E': elem(a)
                elif kd == 'P':
                    parray(ATOMS[a].a[0])
                    near(a)
                    if lvl:
                        # prefixes of other arrays whose sums are expressed by this one
                        if not rev:
                            rev[None] = 1
                            for x, v in self.sub.items():
                                if ATOMS[x].kind == 'P':
                                    for y in v.atoms():
                                        if ATOMS[y].kind == 'P': rev.setdefault(y, []).append(x)
                        for x in rev.get(a, ())[:3]:
                            parray(ATOMS[x].a[0]); near(x)
            if l is not None: cons.append(mp - l)
            if h is not None: cons.append(-mp + h)
            if not m[1] and len(m[0]) == 1 and m[0][0][1] == 1:
                a = m[0][0][0]; at = ATOMS[a]
                if at.kind == 'FD' or at.kind == 'BIT':
                    for f in self.defs(a):
                        f = self.norm(f)
                        if f.t: addc(prim(f))
            elif not m[0]:
                # pure exponential: compare with the others
                if len(m[1]) > 1: self._explemma(m[1], (), addc, depth)
                for e2 in exps:
                    self._explemma(m[1], e2, addc, depth)
                exps.append(m[1])
            else:
                # product: P atoms scaled by the rest
                for a, pw in m[0]:
                    if ATOMS[a].kind == 'P':
                        R = (tuple(x for x in m[0] if x[0] != a) if pw == 1 else tuple((x, q - (x == a)) for x, q in m[0]), m[1])
                        rl, rh = self.minterval(R)
                        if rl is not None and rl >= 0: self._plemmas(a, parts, addc, R, depth)
                if lvl: self._products(m, bym, addc, monos)
        if len(cons) < 2: return None
        return True if self._solve(cons) else None
    def _plemmas(self, a, parts, addc, R, depth):
        at = ATOMS[a]; arr, idx = at.a
        lst = parts.setdefault((arr.id, R), [])
        rp = mono(R)
        if self.nonneg(idx, min(depth, 1)):
            e = exp2(idx.scale(arr.bits))
            addc(prim((e - 1 - var(a)) * rp))
            addc(prim(var(a) * rp))
        for b in lst:
            i2 = ATOMS[b].a[1]
            d = self.norm(idx - i2)
            for x, y, dd, ix, iy in ((a, b, d, idx, i2), (b, a, -d, i2, idx)):
                if self.nonneg(dd, min(depth, 1)):
                    addc(prim((var(x) - var(y)) * rp))
                    addc(prim((exp2(ix.scale(arr.bits)) - exp2(iy.scale(arr.bits)) - var(x) + var(y)) * rp))
                    break
        lst.append(a)
    def _explemma(self, e1, e2, addc, depth):
        p1 = Poly({(((a, 1),), ()): k for a, k in e1}); p2 = Poly({(((a, 1),), ()): k for a, k in e2})
        d = self.norm(p1 - p2)
        m1 = mono(((), e1)); m2 = mono(((), e2))
        lo, hi = self.range(d)
        if lo is None and hi is None:
            if self.nonneg(d, min(depth, 1)): lo = 0
            elif self.nonneg(-d, min(depth, 1)): hi = 0
        g = 0
        for a, k in d.t.items():
            if a != ONE: g = gcd(g, k)
        def up(v): return v if g == 0 else -((-v) // g) * g if d.constpart() == 0 else v
        if lo is not None and lo >= 0:
            lo = up(lo)
            if lo <= 512: addc(prim(m1 - m2.scale(1 << lo)))
        if hi is not None and hi <= 0:
            h = up(-hi)
            if h <= 512: addc(prim(m2 - m1.scale(1 << h)))
    def _products(self, m, bym, addc, monos):
        facs = []
        for a, pw in m[0]:
            R = dict(m[0]); R[a] -= 1
            if not R[a]: del R[a]
            facs.append((a, (tuple(sorted(R.items())), m[1])))
        for a, R in facs:
            rl, rh = self.minterval(R)
            if rl is None or rl < 0: continue
            rp = mono(R)
            l, h = self.abound(a)
            if l is not None: addc(prim((var(a) - l) * rp))
            if h is not None: addc(prim((-var(a) + h) * rp))
            am = (((a, 1),), ())
            cnt = 0
            for n, c in bym.get(am, ()):
                if len(n.t) > 11: continue
                addc(prim((n + c) * rp)); cnt += 1
                if cnt > 8: break
            if ATOMS[a].kind == 'FD':
                for f in self.defs(a):
                    f = self.norm(f)
                    if f.t: addc(prim(f * rp))
    def _solve(self, cons):
        t0 = time.time()
        ids = {}; ptr = [0]; col = []; co = []
        for q in cons:
            for m, c in q.t.items():
                if m == ONE: continue
                i = ids.get(m)
                if i is None: i = ids[m] = len(ids)
                col.append(i); co.append(c)
            co.append(q.t.get(ONE, 0)); ptr.append(len(col))
        P_ = (ctypes.c_int * len(ptr))(*ptr); C_ = (ctypes.c_int * max(1, len(col)))(*col)
        r = lib().lp_infeasible(len(ids), len(cons), P_, C_, ' '.join(map(str, co)).encode(), 400)
        STATS['lp'] += 1; STATS['lpt'] += time.time() - t0
        return r == 1
