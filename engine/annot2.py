"""Supplied invariants of the text conversion loops: reading a numeral (the value so far is the fold of the digits so far)."""
from annot import *
from spec import read_big, NMAX, IMAX

def bigs(m, st):
    """BigInteger objects among the live cells: base -> (sign, buffer id)"""
    r = {}
    for (b, o), v in st.cells.items():
        if o == 8 and isinstance(v[1], Vec) and v[1].buf in st.bufs and st.bufs[v[1].buf].w == 4 and (b, 0) in st.cells and isinstance(st.cells[(b, 0)][1], Poly): r[b] = (st.cells[(b, 0)][1], v[1].buf)
    return r
def setbig(m, st, base, case, name):
    """an arbitrary non-negative canonical value of the given form in the object: its value"""
    old = st.cells[(base, 8)][1].buf
    st.bufs.pop(old, None)
    if case == 's':
        v = fresh(name, 0, IMAX, 0)
        st.cells[(base, 0)] = (4, v); st.cells[(base, 8)] = (24, Vec(m.newbuf(st, ZERO, 4, [])))
        return v
    n = const(1) if case == '1' else fresh(name + '.n', 2, NMAX - 1, 0)
    arr = Arr(name, 32)
    b = m.newbuf(st, n, 4, [(ZERO, n, E(arr, BETA))])
    st.cells[(base, 0)] = (4, const(1)); st.cells[(base, 8)] = (24, Vec(b))
    st.assume_ge(E(arr, n - 1) - ((1 << 31) if case == '1' else 1))
    return P(arr, n)

class Parse(Annot):
    """reading digits:  after t characters the number read is the fold v -> 10 v + digit of them, and all of them are digits"""
    def __init__(self, sb, n): self.sb = sb; self.n = n; self.used = False; self.busy = False
    def run(self, fr, lp, st, env, prev):
        m = fr.m
        if self.busy or len(m.stack) > 3 or ('parsed',) in st.tags: return None
        if not any(b for b in bigs(m, st)): return None
        self.busy = True
        try: return Annot.run(self, fr, lp, st, env, prev)
        finally: self.busy = False
    def pos(self, v):
        return isinstance(v, Ptr) and v.base == ('b', self.sb)
    def heads(self, fr, sh, st, env):
        m = fr.m; lp = sh.lp
        # what one iteration changes
        rec, opt = m.record, m.optimistic
        m.record = False
        try: res = fr.region([(st.copy(), dict(env), sh.header, None, True)], lp)
        finally: m.record = rec; m.optimistic = opt
        if not res.backs: return None
        acc = set(); cells = {}; phis = {}
        for s, e, latch in res.backs:
            e = fr.phis(s, e, sh.header, latch)
            for i in sh.phis:
                a, b = env.get(i['id']), e.get(i['id'])
                if isinstance(a, Poly) and isinstance(b, Poly):
                    d = s.norm(b - a)
                    if d != ZERO: phis.setdefault(i['id'], []).append(d)
                elif self.pos(a) and self.pos(b):
                    d = s.norm(b.off - a.off)
                    if d != ZERO: phis.setdefault(i['id'], []).append(d)
                elif a != b: return None
            ob = bigs(m, st)
            for k, v in st.cells.items():
                w = s.cells.get(k)
                if k[0] in ob:
                    if w is None: return None
                    if k[1] == 8 and w[1] == v[1] and s.bufs.get(v[1].buf) == st.bufs.get(v[1].buf): continue
                    if w[1] != v[1]: acc.add(k[0])
                    continue
                if w is None or w[1] == v[1]: continue
                if self.pos(v[1]) and self.pos(w[1]): cells.setdefault(k, []).append(s.norm(w[1].off - v[1].off))
                elif isinstance(v[1], Poly) and isinstance(w[1], Poly): cells.setdefault(k, []).append(s.norm(w[1] - v[1]))
                else: return None
            if any(s.bufs.get(b) != x for b, x in st.bufs.items() if b in s.bufs and not any(b == y[1] for y in ob.values())): return None
        if any(any(d != const(1) for d in x) for x in list(cells.values()) + list(phis.values())): return None
        if not cells and not phis: return None
        if not acc:      # a leading zero changes nothing
            acc = {b for b, (sg, bf) in bigs(m, st).items() if st.prove_eq(st.norm(sg)) and b[1][1] != 'self'}
        if len(acc) != 1: return None
        self.acc = acc.pop(); self.cells = list(cells); self.phis = list(phis)
        sg, bf = bigs(m, st)[self.acc]
        if not (st.prove_eq(st.norm(sg)) and st.prove_eq(st.bufs[bf].size)): return None
        # the position of the next character: a pointer into the text, or an index
        ptrs = [st.cells[k][1] for k in self.cells if self.pos(st.cells[k][1])] + [env[i] for i in self.phis if self.pos(env[i])]
        if ptrs: start = st.norm(ptrs[0].off)
        else:
            vs = [st.cells[k][1] for k in self.cells] + [env[i] for i in self.phis]
            if len(vs) != 1: return None
            start = st.norm(vs[0])
        self.start = start; self.used = True
        self.need(fr, sh, st, st.prove_ge(self.n - start), 'reading starts inside the text', lambda: str(start))
        hs = []
        for case in 's1n':
            s = st.copy(); e = dict(env)
            t = fresh('t', 0, None, 1)
            if not s.assume_ge(self.n - start - t): continue
            h = setbig(m, s, self.acc, case, 'h')
            for k in self.cells:
                sz, v = s.cells[k]
                s.cells[k] = (sz, Ptr(v.base, v.off + t) if isinstance(v, Ptr) else v + t)
            for i in self.phis:
                v = e[i]; e[i] = Ptr(v.base, v.off + t) if isinstance(v, Ptr) else v + t
            s.tags[('parsed',)] = (h, start + t, start)
            hs.append((s, e, (t, h)))
        return hs
    def back(self, fr, sh, s, e, info):
        m = fr.m; t, h = info
        if s.infeasible(): return
        t1 = t + 1; p = s.norm(self.start + t)
        for k in self.cells:
            v = s.cells.get(k)
            ok = v is not None and (s.prove_eq(s.norm((v[1].off if isinstance(v[1], Ptr) else v[1]) - self.v0(k, fr) - t1)))
            self.need(fr, sh, s, ok, 'characters are taken one by one', lambda: str(v))
        for i in self.phis:
            v = e[i]; v = v.off if isinstance(v, Ptr) else v
            self.need(fr, sh, s, s.prove_eq(s.norm(v - self.e0[i] - t1)), 'characters are taken one by one', lambda: str(v))
        self.need(fr, sh, s, s.prove_ge(self.n - p - 1), 'position stays inside the text')
        c = s.norm(self.char(m, s, p))
        self.need(fr, sh, s, s.prove_ge(c - 48) and s.prove_ge(57 - c), 'only digits are taken', lambda: str(c))
        for s2, v, prob in read_big(m, s, Ptr(self.acc, ZERO)):
            if s2.infeasible(): continue
            self.need(fr, sh, s2, prob is None, 'number read so far is canonical', lambda: prob)
            self.need(fr, sh, s2, v is not None and s2.prove_eq(s2.norm(v - h.scale(10) - c + 48)), 'number read = 10 * number before + digit', lambda: str(v))
    def char(self, m, s, p):
        return inst(s.bufs[self.sb].segs[0][2], 8, p)
    def v0(self, k, fr):
        v = self.c0[k]; return v.off if isinstance(v, Ptr) else v
    # entry values
    def _entry(self, st, env):
        self.c0 = {k: v[1] for k, v in st.cells.items()}
        self.e0 = {k: (v.off if isinstance(v, Ptr) else v) for k, v in env.items() if isinstance(v, (Ptr, Poly))}
_h = Parse.heads
def heads(self, fr, sh, st, env):
    r = _h(self, fr, sh, st, env)
    if r is not None: self._entry(st, env)
    return r
Parse.heads = heads

BASE = 10 ** 9
class Text(Annot):
    """digits to base 10^9, then to characters.
    outer loop: with r source digits left, the c entries of the destination are base-10^9 digits (the last not zero) of the number the other digits form
    inner loop: left part replaced + carry * 10^(9 j) = 2^32 * left part before + source digit
    characters: i entries written, nine characters each, from the end"""
    def __init__(self, arr, n, sb):
        self.arr = arr; self.n = n; self.sb = sb; self.used = self.usedin = self.usedchars = False
        self.outer = self.inner = self.chars = None; self.texts = {}
    def run(self, fr, lp, st, env, prev):
        m = fr.m
        if len(m.stack) > 3: return None
        for kind in (self.Outer, self.Inner, self.Groups, self.Last):
            k = kind(self)
            r = k.run(fr, lp, st, env, prev)
            if r is not None: return r
        return None

    class Part(Annot):
        db = None
        def __init__(self, own): self.own = own
    class Outer(Part):
        def heads(self, fr, sh, st, env):
            o = self.own; m = fr.m; n = o.n
            if o.outer is not None or ('conv',) in st.tags: return None
            ps = [i for i in sh.phis]
            if len(ps) != 2 or any(not isinstance(env.get(i['id']), Poly) for i in ps): return None
            idx = cnt = None
            for i in ps:
                v = st.norm(env[i['id']])
                if v == ZERO: cnt = i['id']
                elif st.norm(v - n).is_const(): idx = i['id']
            if idx is None and all(st.norm(env[i['id']]) == ZERO for i in ps):
                # which of the two counts down
                rec = m.record; m.record = False
                o.outer = self; self.active = None
                try: res = fr.region([(st.copy(), dict(env), sh.header, None, True)], sh.lp)
                finally: m.record = rec; o.outer = None
                for s, e, latch in res.backs[:1]:
                    e = fr.phis(s, e, sh.header, latch)
                    for i in ps:
                        if isinstance(e[i['id']], Poly) and s.prove_eq(s.norm(e[i['id']] + 1)): idx = i['id']
                if idx is not None: cnt = [i['id'] for i in ps if i['id'] != idx][0]
            if idx is None or cnt is None: return None
            v0 = st.norm(env[idx])
            db = [b for b, x in st.bufs.items() if b != o.sb and x.w == 4 and len(x.segs) == 1 and st.norm(x.segs[0][2]) == ZERO and st.prove_ge(x.size - 1)]
            if len(db) != 1: return None
            self.db = db[0]; self.idx = idx; self.cnt = cnt; self.v0_ = v0
            o.used = True; o.outer = self
            hs = [(self.tag(st.copy(), None, ZERO, ZERO), dict(env), dict(r=n, c=ZERO, D=ZERO, d=None))]
            s = st.copy(); e = dict(env)
            r = fresh('left', 0, None, 2); c = fresh('c', 1, None, 2); D = fresh('value', 1, None, 1)
            d = Arr('dec', 32, 0, BASE - 1)
            if not (s.assume_ge(n - 1 - r) and s.assume_ge((n - r).scale(32) - 1 - (c - 1).scale(29))): return hs
            e[idx] = v0 - n + r; e[cnt] = c
            buf = s.bufs[self.db]
            s.bufs[self.db] = Buf(buf.size, 4, ((ZERO, c, E(d, BETA)), (c, buf.size, ZERO)), buf.kind)
            s.assume_ge(E(d, c - 1) - 1)
            s.assume_ge(exp2((n - r).scale(32)) - 1 - D)
            if not s.assume_eq(P(o.arr, n) - P(o.arr, r) - exp2(r.scale(32)) * D): return None
            hs.append((self.tag(s, d, c, D), e, dict(r=r, c=c, D=D, d=d)))
            return hs
        def tag(self, s, d, c, D): s.tags[('conv',)] = (self.db, d, c, D); s.tags.pop(('inner',), None); return s
        def run(self, fr, lp, st, env, prev):
            try: return Annot.run(self, fr, lp, st, env, prev)
            finally:
                if self.own.outer is self: self.own.outer = None
        def back(self, fr, sh, s, e, h):
            o = self.own; m = fr.m; n = o.n
            if s.infeasible(): return
            need = lambda ok, what, d=None: self.need(fr, sh, s, ok, what, d)
            r = s.norm(h['r'] - 1)
            need(isinstance(e[self.idx], Poly) and s.prove_eq(s.norm(e[self.idx] - self.v0_ + n - r)), 'source digits are taken one by one', lambda: str(e[self.idx]))
            g = s.tags.get(('inner',))
            if g is None: raise AnalysisError('conversion loop of unexpected form')
            d2, c, Lp, PW, kap = g
            c1 = s.norm(e[self.cnt]); k = s.norm(c1 - c).cval()
            need(k is not None and 0 <= k <= 2, 'number of decimal digits', lambda: '%s after %s' % (c1, c))
            if k is None or not 0 <= k <= 2: return
            need(s.prove_ge(c1 - 1), 'there are decimal digits')
            need(s.prove_ge((n - r).scale(32) - 1 - (c1 - 1).scale(29)), 'number of decimal digits is bounded', lambda: str(c1))
            tot = Lp; top = None
            buf = s.bufs[self.db]
            if not s.prove_eq(c):
                need(o.same(m, s, buf, ZERO, c, d2 and E(d2, BETA)), 'decimal digits are left as converted')
                top = E(d2, c - 1) if d2 is not None else ZERO
            pw = PW
            for q in range(k):
                fs = m.seg_find(s, buf, s.norm(c + q))
                if len(fs) != 1: raise AnalysisError('decimal digit not determined')
                v = s.norm(inst_(fs[0][1], buf, s.norm(c + q)))
                need(s.prove_ge(v) and s.prove_ge(BASE - 1 - v), 'appended digit is below 10^9', lambda: str(v))
                tot = tot + v * pw; pw = pw.scale(BASE); top = v
            need(top is not None and s.prove_ge(s.norm(top) - 1), 'leading decimal digit is not zero', lambda: str(top))
            D1 = h['D'].scale(1 << 32) + E(o.arr, r)
            need(s.prove_eq(s.norm(tot - D1)), 'decimal digits denote the digits taken', lambda: '%s instead of %s' % (s.norm(tot), s.norm(D1)))
    class Inner(Part):
        def heads(self, fr, sh, st, env):
            o = self.own; m = fr.m
            if o.outer is None or o.inner is not None or ('inner',) in st.tags: return None
            out = o.outer; h = out.active; db = out.db
            ps = sh.phis
            if h is None or len(ps) != 2 or any(not isinstance(env.get(i['id']), Poly) for i in ps): return None
            sdig = E(o.arr, st.norm(h['r'] - 1)); idx = car = None
            for i in ps:
                v = st.norm(env[i['id']])
                if v == ZERO and idx is None: idx = i['id']
                elif v == st.norm(sdig): car = i['id']
            if idx is None or car is None: return None
            self.idx = idx; self.car = car; self.s = sdig; self.h = h; self.db = db
            o.inner = self; o.usedin = True
            c = h['c']; d = h['d']; buf = st.bufs[db]
            s = st.copy(); s.tags[('inner',)] = (None, ZERO, ZERO, const(1), sdig)
            hs = [(s, dict(env), dict(j=ZERO, k=sdig, L=ZERO, Lp=ZERO, PW=const(1), d2=None, end=False))]
            if c == ZERO: return hs
            for end in (False, True):
                s = st.copy(); e = dict(env)
                if end: j = c
                else:
                    j = fresh('j', 1, None, 1)
                    if not s.assume_ge(c - 1 - j): continue
                k = fresh('carry', 1 if end else 0, (1 << 32) - 1, 1); PW = fresh('weight', 1, None, 0); Lp = fresh('new', 0, None, 2)
                L = h['D'] if end else fresh('old', 0, None, 1)
                d2 = Arr('dec2', 32, 0, BASE - 1)
                segs = [(ZERO, j, E(d2, BETA))] + ([] if end else [(j, c, E(d, BETA))]) + [(c, buf.size, ZERO)]
                s.bufs[db] = Buf(buf.size, 4, tuple(segs), buf.kind)
                e[idx] = j; e[car] = k
                s.assume_ge(PW - exp2(j.scale(29)))
                if not s.assume_eq(Lp + k * PW - L.scale(1 << 32) - sdig): continue
                s.tags[('inner',)] = (d2, j, Lp, PW, k)
                hs.append((s, e, dict(j=j, k=k, L=L, Lp=Lp, PW=PW, d2=d2, end=end)))
            return hs
        def run(self, fr, lp, st, env, prev):
            o = self.own
            try: r = Annot.run(self, fr, lp, st, env, prev)
            finally:
                if o.inner is self: o.inner = None
            if r is None: return None
            m = fr.m; h = self.h; c = h['c']; res = []; n = o.n; r1 = st.norm(h['r'] - 1)
            for x in r:
                if x[0] != 'exit': res.append(x); continue
                s = x[1]
                if s.infeasible(): continue
                d2, j, Lp, PW, k = s.tags[('inner',)]
                self.need(fr, x_shape(lp), s, s.prove_eq(s.norm(j - c)), 'all decimal digits are converted', lambda: '%s of %s' % (j, c))
                if not s.prove_eq(s.norm(j - c)): continue
                for big, s1 in m.split_ge(s, k - BASE):
                    for one, s2 in ([(True, s1)] if big else m.split_ge(s1, k - 1)):
                        s2 = s2.copy()
                        if big or one:
                            # 2^(29 e) <= 10^(9 e) <= value < 2^(32 digits taken)  compares the exponents
                            D1 = h['D'].scale(1 << 32) + self.s
                            ok = entail(s2, D1 - PW.scale(BASE if big else 1), (), [(k - (BASE if big else 1), PW)]) and s2.prove_ge(PW - exp2(c.scale(29))) \
                                and s2.prove_ge(exp2((n - h['r']).scale(32) + 32) - 1 - D1)
                            if m.debug: print('BOUND', big, ok)
                            if ok and not s2.assume_ge((n - r1).scale(32) - 1 - (c + (1 if big else 0)).scale(29)): continue
                        res.append((x[0], s2) + tuple(x[2:]))
            return res
        def back(self, fr, sh, s, e, h):
            o = self.own; m = fr.m
            if s.infeasible(): return
            need = lambda ok, what, d=None: self.need(fr, sh, s, ok, what, d)
            j, c, d = h['j'], self.h['c'], self.h['d']
            if d is None or h['end']: need(False, 'conversion stops behind the last decimal digit'); return
            need(s.prove_eq(s.norm(e[self.idx] - j - 1)), 'decimal digits are taken one by one', lambda: str(e[self.idx]))
            need(s.prove_ge(c - 1 - j), 'conversion stops behind the last decimal digit')
            buf = s.bufs[self.db]
            fs = m.seg_find(s, buf, j)
            if len(fs) != 1: raise AnalysisError('decimal digit not determined')
            v = s.norm(inst_(fs[0][1], buf, j)); k1 = s.norm(m.uns(s, e[self.car], 32))
            need(s.prove_ge(v) and s.prove_ge(BASE - 1 - v), 'decimal digit is below 10^9', lambda: str(v))
            need((j == ZERO or o.same(m, s, buf, ZERO, j, E(h['d2'], BETA))) and (s.prove_eq(s.norm(c - j - 1)) or o.same(m, s, buf, s.norm(j + 1), c, E(d, BETA))), 'other decimal digits stay as they are')
            x = s.norm(h['Lp'] + v * h['PW'] + k1 * h['PW'].scale(BASE) - (h['L'] + E(d, j) * h['PW']).scale(1 << 32) - self.s)
            need(s.prove_eq(x), 'digit * 2^32 + carry is divided by 10^9', lambda: str(x))
            for last, s2 in m.split_eq(s, c - j - 1):
                if last and not s2.infeasible(): self.need(fr, sh, s2, s2.prove_ge(s2.norm(k1) - 1), 'carry out of the leading decimal digit', lambda: str(k1))
    class Groups(Part):
        """nine characters for every entry but the last"""
        def heads(self, fr, sh, st, env):
            o = self.own; m = fr.m
            if o.outer is not None or o.chars is not None or ('conv',) not in st.tags or ('txt',) in st.tags: return None
            db, d, c, D = st.tags[('conv',)]
            ps = sh.phis
            if d is None or len(ps) != 2 or any(not isinstance(env.get(i['id']), Poly) for i in ps): return None
            idx = [i['id'] for i in ps if st.norm(env[i['id']]) == ZERO]
            if len(idx) != 1: return None
            idx = idx[0]; pos = [i['id'] for i in ps if i['id'] != idx][0]
            lim = st.norm(env[pos])
            bs = [b for b, x in st.bufs.items() if x.w == 1 and x.kind != 'str' and st.prove_ge(x.size - lim) and st.prove_ge(lim - 9)]
            if len(bs) != 1: return None
            self.idx = idx; self.pos = pos; self.lim = lim; self.b = bs[0]; self.d = d; self.c = c
            o.chars = self; o.usedchars = True
            s = st.copy(); s.tags[('txt',)] = (None, ZERO, lim)
            hs = [(s, dict(env), dict(i=ZERO, a=None))]
            s = st.copy(); e = dict(env)
            i = fresh('i', 1, None, 1)
            if not s.assume_ge(c - 1 - i): return hs
            a = Arr('txt', 8, 48, 57)
            buf = s.bufs[self.b]
            cut = m.cut(s, buf, lim, False)
            if len(cut) != 1: return None
            lo = s.norm(lim - i.scale(9))
            s.bufs[self.b] = Buf(buf.size, 1, tuple([(ZERO, lo, E(Arr('uninit', 8), BETA)), (lo, lim, E(a, BETA))] + list(cut[0][1])), buf.kind)
            e[idx] = i; e[pos] = lo
            s.tags[('txt',)] = (a, i, lim)
            hs.append((s, e, dict(i=i, a=a)))
            return hs
        def run(self, fr, lp, st, env, prev):
            try: return Annot.run(self, fr, lp, st, env, prev)
            finally:
                if self.own.chars is self: self.own.chars = None
        def back(self, fr, sh, s, e, h):
            m = fr.m; i = h['i']
            if s.infeasible(): return
            need = lambda ok, what, d=None: self.need(fr, sh, s, ok, what, d)
            need(s.prove_ge(self.c - 2 - i), 'the last entry is not padded')
            need(s.prove_eq(s.norm(e[self.idx] - i - 1)), 'entries are taken one by one', lambda: str(e[self.idx]))
            lo = s.norm(self.lim - i.scale(9))
            need(s.prove_eq(s.norm(e[self.pos] - lo + 9)), 'nine characters per entry', lambda: str(s.norm(e[self.pos] - lo)))
            buf = s.bufs[self.b]
            need(h['a'] is None or self.own.same(m, s, buf, lo, self.lim, E(h['a'], BETA)), 'characters written stay as they are')
            x = self.own.numeral(m, s, buf, lo, 9)
            ok = x is not None and s.prove_eq(s.norm(x - E(self.d, i)))
            need(ok, 'nine characters denote the entry', lambda: str(x and s.norm(x - E(self.d, i))))
    class Last(Part):
        """few iterations: run them one after another"""
        def run(self, fr, lp, st, env, prev):
            o = self.own; m = fr.m
            if ('conv',) not in st.tags or o.outer is not None and (o.inner is not None or ('inner',) not in st.tags): return None
            db, d, c, D = st.tags[('conv',)]
            sh = lp.get('shape')
            if sh is None:
                import loops
                sh = lp['shape'] = loops.Shape(fr.f, lp)
            e = fr.phis(st, env, lp['header'], prev)
            if o.chars is None and o.outer is None and not any(isinstance(e.get(i['id']), Poly) and d is not None and st.norm(e[i['id']]) == st.norm(E(d, c - 1)) for i in sh.phis): return None
            out = []; work = [(st, e)]
            m.loopsites.add((fr.f['demangled'], fr.blocks[lp['header']][-1].get('line', 0)))
            for _ in range(14):
                if not work: return out
                res = fr.region([(s, e, lp['header'], None, True) for s, e in work], lp)
                loops_collect(out, res)
                work = [(s, fr.phis(s, e, lp['header'], latch)) for s, e, latch in res.backs if not s.infeasible()]
            raise AnalysisError('digit loop of unexpected form')
    def same(self, m, s, buf, lo, hi, t):
        """the part [lo, hi) has the content t"""
        if t is None: return False
        for a, b, u in buf.segs:
            if s.prove_ge(lo - b) or s.prove_ge(a - hi): continue
            if s.norm(t - u) != ZERO:
                if not (s.prove_eq(b - a - 1) and s.prove_eq(s.norm(inst(t, 8 * buf.w, a) - inst_(u, buf, a)))): return False
        return True
    def numeral(self, m, s, buf, end, k):
        """value of the k characters before position end, None when one is not a digit"""
        x = ZERO
        for q in range(k):
            p = s.norm(end - 1 - q)
            fs = m.seg_find(s, buf, p)
            if len(fs) != 1: return None
            v = s.norm(inst_(fs[0][1], buf, p))
            if not (s.prove_ge(v - 48) and s.prove_ge(57 - v)): return None
            x = x + (v - 48).scale(10 ** q)
        return x
def loops_collect(out, res):
    import loops
    loops.collect(out, res)
def x_shape(lp): return lp['shape']
