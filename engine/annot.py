"""Loops with a supplied invariant schema, and entailments that need products of facts.  The schema is only a hint: that it holds at the entry
and is preserved by every path through the body is established by the analysis like any other fact."""
from alg import *
from interp import *
from state import prim
import interp, loops
from alg import _c as alg_c

def entail(st, goal, facts=(), prods=(), neg=()):
    """goal >= 0 follows from the state and from the products f*g of provably non-negative factors"""
    goal = st.norm(goal)
    if st.prove_ge(goal): return True
    cons = [-goal - 1]
    for f in facts:
        f = st.norm(f)
        if st.prove_ge(f): cons.append(prim(f))
        elif st_debug: print('   unproven fact', f)
    for f, g in prods:
        f = st.norm(f); g = st.norm(g)
        if st.prove_ge(f) and st.prove_ge(g): cons.append(prim(st.norm(f * g)))
        elif st_debug: print('   unproven factors', st.prove_ge(f), f, '**', st.prove_ge(g), g)
    for g in neg:        # the negated goal, weighted
        if st.prove_ge(g): cons.append(prim(st.norm((-goal - 1) * g)))
    ms = {m for c in cons for m in c.t}
    for m in ms:
        l, h = st.minterval(m)
        if l is not None: cons.append(mono(m) - l)
        if h is not None: cons.append(-mono(m) + h)
    if st._solve([c for c in cons if c.t]): return True
    s = st.copy()
    for c in cons[1:]:
        if not s.assume_ge(c): return True
    return s.prove_ge(s.norm(goal))
def lemma(st, goal, facts=(), prods=(), neg=()):
    """adds goal >= 0 to the state when it is entailed"""
    if not entail(st, goal, facts, prods, neg): return False
    st.assume_ge(goal)
    return True

def mono_div(m, d):
    at = dict(m[0])
    for a, k in d[0]:
        v = at.get(a, 0) - k
        if v < 0: return None
        if v: at[a] = v
        else: del at[a]
    ex = dict(m[1])
    for a, k in d[1]:
        v = ex.get(a, 0) - k
        if v: ex[a] = v
        else: ex.pop(a, None)
    return (tuple(sorted(at.items())), tuple(sorted(ex.items())))
def order(m): return (sum(k for _, k in m[0]), tuple(sorted(((a, k) for a, k in m[0]), reverse=True)), tuple(sorted(m[1], reverse=True)))
def polydiv(x, y):
    """x / y when the division is exact, else None"""
    if not y.t: return None
    lm = max(y.t, key=order); lc = y.t[lm]
    q = ZERO; r = x
    for _ in range(60):
        if not r.t: return q
        m = max(r.t, key=order)
        d = mono_div(m, lm)
        if d is None: return None
        t = mono(d, alg_c(loops.Fraction(r.t[m]) / lc))
        q = q + t; r = r - t * y
    return None

def exact(st, x, y):
    """x / y when it is a polynomial with integer values, else None"""
    q = polydiv(st.norm(x), st.norm(y))
    if q is None: return None
    for m, c in q.t.items():
        if type(c) is not int:
            if not m[1] or c.denominator & (c.denominator - 1): return None
            k = c.denominator.bit_length() - 1
        else: k = 0
        if m[1] and not st.prove_ge(Poly({(((a, 1),), ()): v for a, v in m[1]}) - k): return None
    return q

class Annot:
    active = None
    """heads(fr, lp, st, env) -> [(state, env, info)] | None ; back(fr, st, env, info): records the obligations of the next head"""
    def run(self, fr, lp, st, env, prev):
        m = fr.m
        sh = lp.get('shape')
        if sh is None: sh = lp['shape'] = loops.Shape(fr.f, lp)
        env = fr.phis(st, env, lp['header'], prev)
        hs = self.heads(fr, sh, st, env)
        if hs is None: return None
        m.loopsites.add((fr.f['demangled'], fr.blocks[lp['header']][-1].get('line', 0)))
        out = []
        m.loopdepth += 1
        try:
            for s, e, info in hs:
                self.active = info
                try: res = fr.region([(s, e, lp['header'], None, True)], lp)
                finally: self.active = None
                loops.collect(out, res)
                for s2, e2, latch in res.backs: self.back(fr, sh, s2, fr.phis(s2, e2, lp['header'], latch), info)
        finally: m.loopdepth -= 1
        m.ob('term', True, fr.blocks[lp['header']][-1], None, 'loop terminates')
        return out
    def need(self, fr, sh, st, ok, what, detail=None):
        fr.m.ob('value', ok, fr.blocks[sh.header][-1], st, what, detail)
        if not ok and fr.m.debug: print('ANNOT', what, detail and detail())

class HornerMod(Annot):
    """r := (r * 2^32 + digit) mod d from the leading digit downwards: after k steps  upper = (r + d*g) * 2^(32 (n-k)), 0 <= r < d"""
    def __init__(self, arr, n, d): self.arr = arr; self.n = n; self.d = d; self.used = False
    def heads(self, fr, sh, st, env):
        if len(sh.phis) != 2: return None
        idx = acc = None
        for i in sh.phis:
            v = env.get(i['id'])
            if not isinstance(v, Poly): return None
            v = st.norm(v)
            if v == ZERO and acc is None and i['ty'] != 'ptr': acc = i
            elif st.norm(v - self.n).is_const() or self.n.is_const(): idx = i
        if idx is None or acc is None: return None
        self.idx = idx['id']; self.acc = acc['id']; self.v0 = st.norm(env[self.idx])
        self.used = True
        s = st.copy(); e = dict(env)
        r = fresh('left', 0, None, 2); c = fresh('rem', 0, None, 1); g = fresh('g', 0, None, 1)
        if not (s.assume_ge(self.n - r) and s.assume_ge(self.d - 1 - c)): return None
        e[self.idx] = self.v0 - self.n + r; e[self.acc] = c
        if not s.assume_eq(P(self.arr, self.n) - P(self.arr, r) - exp2(r.scale(32)) * (c + self.d * g)): return None
        return [(s, e, (r, c, g))]
    def back(self, fr, sh, s, e, info):
        r = info[0] - 1
        v = e[self.idx]
        ok = isinstance(v, Poly) and s.prove_eq(s.norm(v - self.v0 + self.n - r))
        self.need(fr, sh, s, ok, 'digits are taken one by one', lambda: str(v))
        c = s.norm(e[self.acc])
        self.need(fr, sh, s, s.prove_ge(r), 'index stays in range')
        self.need(fr, sh, s, s.prove_ge(c) and s.prove_ge(self.d - 1 - c), 'partial remainder is below the divisor', lambda: str(c))
        x = s.norm((P(self.arr, self.n) - P(self.arr, r)) * exp2(r.scale(-32)) - c)
        self.need(fr, sh, s, exact(s, x, self.d) is not None, 'partial remainder is congruent to the digits taken', lambda: str(x))

W32 = 1 << 32
class Knuth(Annot):
    """long division, digit by digit from the top.  Before the quotient digit j is formed:
       dividend = left[0 .. j+m] (as a number) + divisor * quotient digits above j,  left[j .. j+m] < divisor * 2^32,  left above is zero"""
    def __init__(self, lb, U, len_, vb, V, m, s, bb):
        self.lb = lb; self.U = U; self.len = len_; self.vb = vb; self.V = V; self.m = m; self.s = s; self.bb = bb
        self.active = None; self.used = self.guesses = self.subs = self.ests = False
    # -- outer loop
    def heads(self, fr, sh, st, env):
        if self.active is not None or len(fr.m.stack) > 4: return None
        ps = [i for i in sh.phis if isinstance(env.get(i['id']), Poly)]
        if len(ps) != 1 or len(sh.phis) != 1: return None
        d = st.norm(env[ps[0]['id']] - self.len)
        if not (d.is_const() or st.norm(d + self.m).is_const()): return None
        if st.prove_eq(self.len): return None
        L = self.content(fr.m, st)
        if L is None or not st.prove_eq(st.norm(L - self.U)): return None
        self.phi = ps[0]['id']; self.v0 = st.norm(env[self.phi]); self.used = True
        hs = []
        # the quotient digit j = len - m - c is next; c digits are done
        for kind in ('first', 'later', 'end'):
            s = st.copy(); e = dict(env)
            h = self.state(fr.m, s, kind)
            if h is None: continue
            c, info = h
            e[self.phi] = s.norm(self.v0 - c)
            hs.append((s, e, info))
        return hs
    def content(self, m, st):
        buf = st.bufs.get(self.lb)
        return None if buf is None else m.seg_sum(st, buf, ZERO, st.norm(self.len))
    def state(self, m, s, kind):
        n, m_, V = self.len, self.m, self.V
        buf = s.bufs[self.lb]
        bb = s.bufs.get(self.bb) if self.bb is not None else None
        W0 = Arr('low', 32); Lw = Arr('Dwin', 32); Q = Arr('q', 32)
        if kind == 'first':
            c = ZERO; j = s.norm(n - m_)
            s.bufs[self.lb] = Buf(buf.size, 4, tuple(m.tidy(s, [(ZERO, j, E(W0, BETA)), (j, n, E(Lw, BETA - j))])), buf.kind)
            win = P(Lw, m_); t = ZERO
            if not s.assume_eq(self.U - P(W0, j) - exp2(j.scale(32)) * win): return None
            G = ZERO
        elif kind == 'later':
            j = fresh('j', 0, None, 1); c = s.norm(n - m_ - j)
            if not s.assume_ge(n - m_ - 1 - j): return None
            s.bufs[self.lb] = Buf(buf.size, 4, tuple(m.tidy(s, [(ZERO, j, E(W0, BETA)), (j, s.norm(j + m_ + 1), E(Lw, BETA - j)), (s.norm(j + m_ + 1), n, ZERO)])), buf.kind)
            win = P(Lw, m_ + 1); t = E(Lw, m_)
            G = P(Q, n - m_ - j) * exp2((j + 1).scale(32))
            if bb is not None: self.setq(m, s, bb, j + 1, E(Q, BETA - j - 1))
            if not s.assume_eq(self.U - P(W0, j) - exp2(j.scale(32)) * win - V * G): return None
            if not s.assume_ge(V.scale(W32) - 1 - win): return None
        else:
            j = const(-1); c = s.norm(n - m_ + 1)
            R = Arr('r', 32)
            s.bufs[self.lb] = Buf(buf.size, 4, tuple(m.tidy(s, [(ZERO, m_, E(R, BETA)), (m_, n, ZERO)])), buf.kind)
            win = P(R, m_); t = None; G = P(Q, n - m_ + 1)
            if bb is not None: self.setq(m, s, bb, ZERO, E(Q, BETA))
            if not s.assume_eq(self.U - win - V * G): return None
            if not s.assume_ge(V - 1 - win): return None
        info = {'kind': kind, 'j': j, 'win': win, 't': t, 'c': c, 'G': G, 'Lw': Lw, 'done': False}
        return c, info
    def setq(self, m, s, bb, lo, tm):
        lo = s.norm(lo)
        r = m.cut(s, bb, lo, True)
        s.bufs[self.bb] = Buf(bb.size, 4, tuple(m.tidy(s, list(r[0][1]) + [(lo, s.norm(bb.size), tm)])), bb.kind)
    def run(self, fr, lp, st, env, prev):
        if self.active is not None: return None
        return Annot.run(self, fr, lp, st, env, prev)
    def back(self, fr, sh, s, e, info):
        m = fr.m; n, m_, V = self.len, self.m, s.norm(self.V)
        need = lambda ok, what, d=None: self.need(fr, sh, s, ok, what, d)
        if s.infeasible(): return
        if info['kind'] == 'end': need(False, 'stops behind the last digit'); return
        j = s.norm(info['j'] - 1)
        v = e[self.phi]
        if not isinstance(v, Poly) or not s.prove_eq(s.norm(v - self.v0 + n - m_ - j)):
            if not isinstance(v, Poly) or s.norm(v - self.v0 + info['c']).is_const():
                need(False, 'quotient digits are formed one by one', lambda: str(v)); return
            raise AnalysisError('unexpected form of the division loop')
        for more, s in m.split_ge(s, j):
            if s.infeasible(): continue
            j = s.norm(j); hi = s.norm(j + m_ + 1)      # digits [0, hi) hold the rest
            s = s.copy()
            buf = s.bufs[self.lb]
            if info['t'] is not None and s.prove_ge(-s.norm(info['t'])) and not s.assume_eq(info['t']): continue
            zero = m.seg_sum(s, buf, hi, s.norm(n))
            need(zero is not None and s.prove_eq(zero), 'digits above are cleared', lambda: str(zero))
            w = m.seg_sum(s, buf, s.norm(j if more else ZERO), hi)
            win = None if w is None else s.norm(w * exp2((j if more else ZERO).scale(-32)))
            ok = win is not None and entail(s, (V.scale(W32) if more else V) - 1 - win, (V - 1 - info['win'],))
            if not ok and m.debug: print('WIN', win, 'V', V)
            need(ok, 'partial remainder is below the divisor', lambda: str(win))
            tot = m.seg_sum(s, buf, ZERO, hi)
            rest = None if tot is None else s.norm(self.U - tot)
            if self.bb is not None:
                qs = m.seg_sum(s, s.bufs[self.bb], s.norm(j + 1), s.norm(n - m_ + 1))
                ok = rest is not None and qs is not None and s.prove_eq(s.norm(rest - V * qs))
            else: ok = rest is not None and exact(s, rest, V) is not None; qs = None
            if not ok and m.debug: print('TOT', rest, 'Q', qs, 'V', V)
            need(ok, 'dividend = divisor * quotient digits + rest', lambda: '%s / %s' % (rest, qs))
            ok = s.bufs.get(self.vb) is not None
    # -- facts about the quotient estimate
    def scaled(self, st, T=None):
        """B = weight 2^(32 (m-2))"""
        return exp2((st.norm(self.m) - 2).scale(32))
    def guessed(self, st, q, T, X, big):
        """q*T > X (big) or q*T <= X  for the leading parts T, X of divisor and dividend: the same, up to one, for the whole numbers"""
        a = self.active
        if a is None: return
        self.guesses = True
        S = 1 << self.s; Y = self.scaled(st); V = st.norm(self.V); w = st.norm(a['win'])
        nz = lambda p: st.norm(p)
        dv = nz(V.scale(S) - T * Y)         # 0 <= dv <= Y - S
        dw = nz(w.scale(S) - X * Y)         # 0 <= dw <= Y - S  (above -1 when m = 1)
        if big:
            lemma(st, q - 1, (q * T - X - 1, X), (), [T])
            lemma(st, q * V - w - 1, (Y - S - dw,), [(q * T - X - 1, Y), (q, dv)])
        else:
            lemma(st, w + V - 1 - q * V, (dw, dv, Y), [(X - q * T, Y), (q, Y - S - dv), (W32 - 1 - q, Y), (T - (1 << 63), Y)])
        if st_debug: print('GUESS', big, [st.prove_ge(nz(p)) for p in (dv, Y - S - dv, dw, Y - S - dw)], st.prove_ge(nz(q * V - w - 1) if big else nz(w + V - 1 - q * V)))
    def toolow_goal(self, v): return (v + 1) * self.V - self.active['win'] - 1
    def toolow(self, st, v):
        a = self.active
        S = 1 << self.s; Y = exp2((st.norm(self.m) - 1).scale(32)); V = st.norm(self.V); w = st.norm(a['win'])
        v = st.norm(v)
        goal = self.toolow_goal(v)
        prods = []; facts = []
        for x in v.atoms():
            if ATOMS[x].kind == 'FD':
                num, den = ATOMS[x].a
                num, den = st.norm(num), st.norm(den)
                f = var(x)
                prods += [(den * f + den - 1 - num, Y), (f + 1, V.scale(S) - den * Y)]; facts.append(num * Y + Y - S - w.scale(S))
        r = lemma(st, goal, facts, prods)
        if st_debug: print('ENTER', v, r)
        return r
    def subtracted(self, st, q, c):
        """borrow out of left - q*divisor: the leading digit, or one more when the estimate was one too high"""
        a = self.active
        if a is None: return [st]
        self.subs = True
        V = st.norm(self.V); w = st.norm(a['win']); t = st.norm(a['t'])
        lemma(st, w + V - 1 - q * V)
        Bm = exp2(st.norm(self.m).scale(32))
        out = []
        for k in (0, 1):
            s = st.copy()
            if s.assume_eq(s.norm(c - t - k)): out.append(s)
        lo = entail(st, c - t); hi = entail(st, t + 1 - c)
        if st_debug: print('BORROW', lo, hi)
        return out if lo and hi else [st]
class Estimate(Annot):
    """the loop that lowers the estimate q of a quotient digit: 0 <= q < 2^32 and (q+1) * divisor > partial dividend"""
    used = True
    def __init__(self, kn): self.kn = kn
    def run(self, fr, lp, st, env, prev):
        if self.kn.active is None or self.active is not None or len(fr.m.stack) > 4: return None
        return Annot.run(self, fr, lp, st, env, prev)
    def heads(self, fr, sh, st, env):
        if len(sh.phis) != 1 or sh.phis[0]['ty'] != 'i64': return None
        v = env.get(sh.phis[0]['id'])
        if not isinstance(v, Poly): return None
        v = st.norm(v); st = st.copy()
        self.need(fr, sh, st, st.prove_ge(v) and st.prove_ge(W32 - 1 - v), 'first estimate is a digit', lambda: str(v))
        self.need(fr, sh, st, self.kn.toolow(st, v), 'first estimate is not below the quotient digit', lambda: str(v))
        self.kn.ests = True
        self.phi = sh.phis[0]['id']
        e = dict(env); e[self.phi] = q = fresh('est', 0, W32 - 1, 1)
        if not st.assume_ge(self.kn.toolow_goal(q)): return None
        return [(st, e, q)]
    def back(self, fr, sh, s, e, q):
        v = s.norm(e[self.phi])
        if s.infeasible(): return
        self.need(fr, sh, s, s.prove_ge(v) and s.prove_ge(q - 1 - v), 'estimate decreases and stays non-negative', lambda: str(v))
        self.need(fr, sh, s, entail(s, self.kn.toolow_goal(v)), 'estimate is not below the quotient digit', lambda: str(v))
st_debug = False
