"""Polynomials over symbolic integer atoms with exponential factors 2^(affine).

mono  = (atoms, exps): atoms = sorted tuple of (atom id, power), exps = sorted tuple of (atom id, coef)
        denoting prod atom^power * 2^(sum coef*atom)
Poly  = immutable map mono -> rational coefficient (int where possible)

Atoms (interned):
  sym(name)          an unknown integer
  E(arr, idx)        element idx of the symbolic array arr
  P(arr, idx)        prefix value  sum_{k<idx} E(arr,k) * 2^(bits(arr)*k)
  FD(num, den)       floor(num/den), den > 0
  BIT(op, a, b)      opaque bitwise combination of two non-negative words
"""
from fractions import Fraction
from math import gcd

class Atom:
    __slots__ = ('id', 'kind', 'a', 'deps', 'lo', 'hi', 'name', 'rank')
ATOMS = []
_intern = {}
ONE = ((), ())

def _mk(kind, a, deps, lo, hi, name, rank):
    key = (kind, a) if kind != 'sym' else None
    if key is not None:
        at = _intern.get(key)
        if at is not None: return at
    at = Atom(); at.id = len(ATOMS); at.kind = kind; at.a = a; at.deps = deps; at.lo = lo; at.hi = hi; at.name = name; at.rank = rank
    ATOMS.append(at)
    if key is not None: _intern[key] = at
    return at

def sym(name, lo=None, hi=None, rank=1):
    """rank: higher ranks are eliminated first by equalities (0 = inputs, 1 = temporaries, 2 = loop counters)"""
    at = _mk('sym', None, frozenset(), lo, hi, name, rank)
    return at

class Arr:
    """a symbolic array: immutable unknown content, elements of `bits` bits, elements in [lo,hi]"""
    n = 0
    __slots__ = ('id', 'name', 'bits', 'lo', 'hi', 'tmpl')
    def __init__(self, name, bits, lo=0, hi=None, tmpl=None):
        self.id = Arr.n; Arr.n += 1; self.name = '%s#%d' % (name, self.id); self.bits = bits; self.lo = lo
        self.hi = hi if hi is not None else (1 << bits) - 1; self.tmpl = tmpl
    def __repr__(self): return self.name

def _c(x):
    if type(x) is Fraction and x.denominator == 1: return int(x)
    return x

class Poly:
    __slots__ = ('t', '_h', '_d')
    def __init__(self, t):
        self.t = t; self._h = None; self._d = None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o):
        if type(o) is int: o = const(o)
        return isinstance(o, Poly) and self.t == o.t
    def __ne__(self, o): return not self == o
    def __add__(self, o):
        if type(o) is not Poly:
            if o == 0: return self
            o = const(o)
        if not o.t: return self
        if not self.t: return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v: t[m] = _c(v)
            else: del t[m]
        return Poly(t)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if type(o) is not Poly: o = const(o)
        return self + (-o)
    def __rsub__(self, o): return const(o) - self
    def scale(self, k):
        if k == 0: return ZERO
        if k == 1: return self
        return Poly({m: _c(c * k) for m, c in self.t.items()})
    def __mul__(self, o):
        if type(o) is not Poly: return self.scale(o)
        if len(self.t) > len(o.t): self, o = o, self
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2); v = t.get(m, 0) + c1 * c2
                if v: t[m] = _c(v)
                elif m in t: del t[m]
        return Poly(t)
    __rmul__ = __mul__
    def is_const(self): return not self.t or (len(self.t) == 1 and ONE in self.t)
    def cval(self): return self.t.get(ONE, 0) if self.is_const() else None
    def constpart(self): return self.t.get(ONE, 0)
    def nonconst(self):
        if ONE not in self.t: return self
        t = dict(self.t); del t[ONE]; return Poly(t)
    def atoms(self):
        """atoms occurring directly (not inside other atoms)"""
        s = set()
        for m in self.t:
            for a, _ in m[0]: s.add(a)
            for a, _ in m[1]: s.add(a)
        return s
    def deps(self):
        if self._d is None:
            s = set()
            for a in self.atoms():
                s.add(a); s |= ATOMS[a].deps
            self._d = frozenset(s)
        return self._d
    def is_affine(self): return all(not m[1] and (m == ONE or (len(m[0]) == 1 and m[0][0][1] == 1)) for m in self.t)
    def __repr__(self): return pstr(self)

_mm = {}
def mmul(m1, m2):
    if m1 == ONE: return m2
    if m2 == ONE: return m1
    k = (m1, m2)
    r = _mm.get(k)
    if r is not None: return r
    if not m1[0]: at = m2[0]
    elif not m2[0]: at = m1[0]
    else:
        d = dict(m1[0])
        for a, p in m2[0]: d[a] = d.get(a, 0) + p
        at = tuple(sorted(d.items()))
    if not m1[1]: ex = m2[1]
    elif not m2[1]: ex = m1[1]
    else:
        d = dict(m1[1])
        for a, p in m2[1]:
            v = d.get(a, 0) + p
            if v: d[a] = v
            else: del d[a]
        ex = tuple(sorted(d.items()))
    r = (at, ex); _mm[k] = r
    return r

ZERO = Poly({})
_consts = {}
def const(c):
    p = _consts.get(c)
    if p is None:
        p = ZERO if c == 0 else Poly({ONE: _c(c)})
        if type(c) is int and len(_consts) < 10000: _consts[c] = p
    return p
def var(at):
    if type(at) is not int: at = at.id
    return Poly({(((at, 1),), ()): 1})
def mono(m, c=1): return Poly({m: c})
def fresh(name, lo=None, hi=None, rank=1): return var(sym(name, lo, hi, rank))

def exp2(p):
    """2^p for affine p with integer coefficients"""
    if type(p) is int: return const(1 << p) if p >= 0 else const(Fraction(1, 1 << -p))
    if not p.is_affine(): return None
    ex = []; c = 0
    for m, k in p.t.items():
        if type(k) is not int: return None
        if m == ONE: c = k
        else: ex.append((m[0][0][0], k))
    if abs(c) > 8192: return None
    co = (1 << c) if c >= 0 else Fraction(1, 1 << -c)
    return Poly({((), tuple(sorted(ex))): co})

def mdeps(a_polys):
    s = set()
    for p in a_polys: s |= p.deps()
    return frozenset(s)

def E(arr, idx):
    if arr.tmpl is not None: return inst(arr.tmpl, arr.bits, idx)
    return var(_mk('E', (arr, idx), idx.deps(), arr.lo, arr.hi, None, 1))

UNROLL = 10
def P(arr, idx):
    """prefix value, normalised to an index without small constant offset"""
    c = idx.constpart()
    base = idx.nonconst()
    if not base.t:
        c = int(c)
        if 0 <= c <= UNROLL:
            r = ZERO
            for k in range(c): r = r + E(arr, const(k)).scale(1 << (arr.bits * k))
            return r
        return var(_mk('P', (arr, idx), idx.deps(), 0, None, None, 1))
    if type(c) is not int: raise ValueError('fractional index')
    if c == 0 or abs(c) > UNROLL:
        return var(_mk('P', (arr, idx), idx.deps(), None, None, None, 1))
    r = var(_mk('P', (arr, base), base.deps(), None, None, None, 1))
    if c > 0:
        for k in range(c):
            r = r + E(arr, base + k) * exp2((base + k).scale(arr.bits))
    else:
        for k in range(1, -c + 1):
            r = r - E(arr, base - k) * exp2((base - k).scale(arr.bits))
    return r

# bound variable used by comprehension templates
BETA = var(sym('beta', 0, None, -1))
BETA_ID = BETA.atoms().pop()
def inst(tmpl, bits, idx):
    if BETA_ID not in tmpl.deps(): return tmpl
    return subst(tmpl, {BETA_ID: idx})

class NonAffine(Exception): pass
class NotInt(NonAffine, ValueError): pass
def fd(num, den, bounds=None):
    """floor(num/den); den a Poly known positive. bounds: function giving (lo,hi) of a poly or None"""
    dc = den.cval()
    if dc is not None:
        if dc == 1: return num
        # pull out the multiples of den
        out = {}; rest = {}
        lcm = 1
        for m, c in num.t.items():
            if type(c) is Fraction: lcm = lcm * c.denominator // gcd(lcm, c.denominator)
        if lcm != 1: raise NotInt('fractional numerator')
        for m, c in num.t.items():
            if m[1] and any(k < 0 for _, k in m[1]): raise NotInt('negative exponent in numerator')
            q, r = divmod(c, dc)
            if m != ONE and 2 * r > dc: q += 1; r -= dc      # symmetric residue keeps coefficients small
            if q: out[m] = q
            if r: rest[m] = r
        outp = Poly(out); rp = Poly(rest)
        if not rp.t: return outp
        # constants: keep 0 <= const < den
        if rp.is_const():
            return outp + (rp.cval() // dc)
        # common factor
        g = dc
        for m, c in rp.t.items():
            if m != ONE: g = gcd(g, c)
        if g > 1:
            cc = rp.constpart() // g
            rp = Poly({m: c // g for m, c in rp.t.items() if m != ONE}) + cc
            dc //= g
            if dc == 1: return outp + rp
            return outp + fd(rp, const(dc), bounds)
        # floor((p + floor(q/m)) / n) with unit-coefficient FD: flatten
        for m, c in rp.t.items():
            if c in (1,) and len(m[0]) == 1 and m[0][0][1] == 1 and not m[1]:
                a = ATOMS[m[0][0][0]]
                if a.kind == 'FD' and a.a[1].is_const():
                    q, mm = a.a; k = mm.cval()
                    others = rp - mono(m)
                    if all(type(x) is int for x in others.t.values()):
                        return outp + fd(others.scale(k) + q, const(k * dc), bounds)
        if bounds is not None:
            lo, hi = bounds(rp)
            if lo is not None and hi is not None and lo // dc == hi // dc: return outp + (lo // dc)
        num, den = rp, const(dc)
    else:
        outp = ZERO
        # exact power-of-two denominators: pull out monomials divisible by it
        if len(den.t) == 1:
            (dm, dcf), = den.t.items()
            out = {}; rest = {}
            for m, c in num.t.items():
                done = False
                if type(c) is int and c % dcf == 0:
                    q = mdiv(m, dm)
                    if q is not None: out[q] = c // dcf; done = True
                if not done: rest[m] = c
            outp = Poly(out); num = Poly(rest)
            if not num.t: return outp
        if bounds is not None:
            r = bounds(num, den)
            if r is not None: return outp + r
    lo = hi = None
    if bounds is not None and den.is_const():
        lo, hi = bounds(num)
        d = den.cval()
        lo = lo // d if lo is not None else None
        hi = hi // d if hi is not None else None
    at = _mk('FD', (num, den), mdeps((num, den)), None, None, None, 1)
    return outp + var(at)

def nonneg(a):
    """the atom cannot be negative, whatever the state"""
    at = ATOMS[a]
    if at.lo is not None: return at.lo >= 0
    if at.kind == 'BIT': return True
    if at.kind != 'FD': return False
    return all(c >= 0 and not any(not nonneg(x) for x, _ in m[0]) for m, c in at.a[0].t.items())
def mdiv(m, d):
    """m/d when exact with non-negative exponent structure (syntactic), else None"""
    at = dict(m[0])
    for a, p in d[0]:
        v = at.get(a, 0) - p
        if v < 0: return None
        if v: at[a] = v
        else: del at[a]
    ex = dict(m[1])
    for a, p in d[1]:
        v = ex.get(a, 0) - p
        if v: ex[a] = v
        elif a in ex: del ex[a]
    for a, v in ex.items():
        if v < 0 or not nonneg(a): return None
    return (tuple(sorted(at.items())), tuple(sorted(ex.items())))

def bit(op, a, b):
    """opaque and/or/xor of two non-negative words"""
    if a.is_const() and b.is_const():
        x, y = a.cval(), b.cval()
        return const({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
    if repr_key(b) < repr_key(a): a, b = b, a
    return var(_mk('BIT', (op, a, b), mdeps((a, b)), 0, None, None, 1))
_rk = {}
def repr_key(p):
    k = _rk.get(p)
    if k is None:
        k = len(_rk); _rk[p] = k
    return k

def atom_rebuild(at, sub, memo):
    k = at.kind
    if k == 'sym': return var(at)
    if k == 'E': return E(at.a[0], _subst(at.a[1], sub, memo))
    if k == 'P': return P(at.a[0], _subst(at.a[1], sub, memo))
    if k == 'FD': return fd(_subst(at.a[0], sub, memo), _subst(at.a[1], sub, memo))
    if k == 'BIT': return bit(at.a[0], _subst(at.a[1], sub, memo), _subst(at.a[2], sub, memo))
    raise ValueError(k)


def _subst(p, sub, memo):
    if not (p.deps() & sub.keys()): return p
    r = ZERO; keep = {}
    for m, c in p.t.items():
        hit = False
        for a, _ in m[0]:
            if a in sub or (ATOMS[a].deps and not ATOMS[a].deps.isdisjoint(sub)): hit = True; break
        if not hit:
            for a, _ in m[1]:
                if a in sub or (ATOMS[a].deps and not ATOMS[a].deps.isdisjoint(sub)): hit = True; break
        if not hit:
            keep[m] = c; continue
        q = const(c)
        for a, pw in m[0]:
            x = _asub(a, sub, memo)
            for _ in range(pw): q = q * x
        if m[1]:
            ex = ZERO
            for a, k in m[1]: ex = ex + _asub(a, sub, memo).scale(k)
            e = exp2(ex)
            if e is None: raise NonAffine()
            q = q * e
        r = r + q
    return r + Poly(keep)

def _asub(a, sub, memo):
    x = memo.get(a)
    if x is None:
        if a in sub:
            x = sub[a]
        else:
            at = ATOMS[a]
            x = atom_rebuild(at, sub, memo) if at.deps and not at.deps.isdisjoint(sub) else var(a)
        memo[a] = x
    return x

def subst(p, sub):
    return _subst(p, sub, {})

def astr(a):
    at = ATOMS[a]
    if at.kind == 'sym': return '%s.%d' % (at.name, at.id)
    if at.kind == 'E': return '%s[%s]' % (at.a[0].name, pstr(at.a[1]))
    if at.kind == 'P': return 'P(%s,%s)' % (at.a[0].name, pstr(at.a[1]))
    if at.kind == 'FD': return 'floor((%s)/(%s))' % (pstr(at.a[0]), pstr(at.a[1]))
    return '%s(%s,%s)' % (at.a[0], pstr(at.a[1]), pstr(at.a[2]))
def mstr(m):
    s = ['%s%s' % (astr(a), '' if p == 1 else '^%d' % p) for a, p in m[0]]
    if m[1]: s.append('2^(' + '+'.join('%s%s' % ('' if k == 1 else str(k) + '*', astr(a)) for a, k in m[1]) + ')')
    return '*'.join(s)
def cstr(c):
    if type(c) is int and abs(c) > 1 << 20:
        for k in (31, 32, 63, 64):
            if c == 1 << k: return '2^%d' % k
            if c == -(1 << k): return '-2^%d' % k
            if c == (1 << k) - 1: return '(2^%d-1)' % k
            if c == -(1 << k) + 1: return '-(2^%d-1)' % k
    return str(c)
def pstr(p):
    if not p.t: return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (x[0] == ONE, x[0])):
        if m == ONE: out.append(cstr(c))
        elif c == 1: out.append(mstr(m))
        elif c == -1: out.append('-' + mstr(m))
        else: out.append(cstr(c) + '*' + mstr(m))
    return ' + '.join(out).replace('+ -', '- ')
