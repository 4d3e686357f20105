"""Loop analysis: a cut point behind the header's exit tests, hypotheses about every loop-carried slot (unchanged, linear in the
iteration count, general), widening with thresholds for ranges, affine equalities over derived columns (prefix sums, weighted slots,
region sums) by null-space computation, and a final run in which every obligation of the body is recorded."""
import time
from fractions import Fraction
from alg import *
from state import prim, STATS
import interp
from interp import AnalysisError, Ptr, FP, UNDEF, Agg, Vec, Buf, Out, Arr, width, loc

class Weaken(Exception): pass

def rng(st, p):
    """tight numeric range where the entailment engine can supply it"""
    return st.range(p)

class Shape:
    """control structure of a natural loop, cut behind the chain of exit tests that starts at the header"""
    def __init__(self, f, lp):
        self.lp = lp; self.header = lp['header']; S = lp['set']
        blocks = f['blocks']
        succ = {}; preds = {}
        for b in S:
            succ[b] = successors(blocks[b])
            for x in succ[b]:
                if x in S: preds.setdefault(x, set()).add(b)
        inner = {l['header'] for l in f['loops'] if l is not lp and l['header'] in S}
        cur = self.header; chain = []; best = None
        while True:
            ins = [x for x in succ[cur] if x in S]
            if len(set(ins)) != 1 or ins[0] == self.header: break
            nxt = ins[0]
            if nxt in inner or len(preds[nxt]) != 1: break
            chain.append(cur)
            if len(succ[cur]) > 1 and blocks[cur][-1]['op'] in ('br', 'switch'): best = len(chain)
            cur = nxt
        self.chain = chain[:best] if best else []
        self.cut = None
        if self.chain:
            last = self.chain[-1]
            self.cut = [x for x in succ[last] if x in S][0]
        self.phis = [i for i in blocks[self.header] if i['op'] == 'phi']
        # a word shifted right by at least 16 bits per iteration: few iterations
        ins = {i['id']: i for b in S for i in blocks[b] if 'id' in i}
        self.short = False
        for i in self.phis:
            for b, o in i['ops']:
                x = ins.get(o[1]) if o[0] == 'v' else None
                if x is not None and x['op'] == 'lshr' and x['ops'][0] == ['v', i['id']] and x['ops'][1][0] == 'c' and int(x['ops'][1][2]) >= 16: self.short = True

def successors(ins):
    t = ins[-1]; op = t['op']
    if op == 'br': return [o[1] for o in t['ops'] if o[0] == 'b']
    if op == 'switch': return [t['default']] + [x[1] for x in t['cases']]
    if op == 'invoke': return [t['normal'], t['unwind']]
    return []

THR_HI = sorted({0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 63, 64, 99, 127, 255, 999999999, 1000000000, (1 << 26) - 1, 1 << 26, (1 << 27) - 1, 1 << 27}
                | {(1 << k) - 1 for k in range(1, 65)} | {(1 << k) - 2 for k in (31, 32, 33, 63, 64)} | {1 << 31, 1 << 32, 1 << 48})
THR_LO = sorted([2, 1, 0, -1, -2, -3] + [-(1 << k) for k in (8, 26, 27, 31, 32, 33, 34, 48, 62, 63)] + [-(1 << k) + 1 for k in (31, 32, 33)], reverse=True)

def analyse(fr, lp, st, env, prev):
    m = fr.m
    sh = lp.get('shape')
    if sh is None: sh = lp['shape'] = Shape(fr.f, lp)
    m.loopsites.add((fr.f['demangled'], fr.blocks[lp['header']][-1].get('line', 0)))
    env = fr.phis(st, env, sh.header, prev)
    out = []
    if sh.cut is None:
        if sh.short:
            res = interp.Res(); res.stops = [(st, env, None)]
            r = unroll(fr, sh, lp, res, 4)
            if r is not None: return r
        entries = [(st, env, None)]
    else:
        m.loopdepth += 1; bc = m.bcmps; m.bcmps = []
        try: res = fr.region([(st, env, sh.header, None, True)], lp, sh.cut)
        finally:
            tests = m.bcmps; m.bcmps = bc; m.bcmps.extend(tests)
            m.loopdepth -= 1
        if sh.short or any(d.cval() is not None for d, _ in tests):
            r = unroll(fr, sh, lp, res, 4 if sh.short else UNROLL)
            if r is not None: return r
        collect(out, res)
        entries = res.stops
    work = [(s, e, frm, (), 0) for s, e, frm in entries]
    while work:
        s, e, frm, phases, depth = work.pop(0)
        done = set()
        while True:
            fx = Fix(fr, sh, s, e, frm, st)
            fx.merged = done; fx.phases = phases; fx.mayphase = depth < 4
            try: r = fx.run()
            except Merge as mg:
                s = s.copy(); done = done | {mg.key}
                if m.debug: print('   ' * m.loopdepth, 'merge', mg.key)
                s = merge_buf(m, s, mg.key, mg.buf)
                continue
            except Phase as ph:
                if m.debug: print('   ' * m.loopdepth, 'phase', ph.base, ph.c)
                t = ph.base.cval()
                if t is not None and ph.c == 1 and 0 < -t <= UNROLL and not phases and sh.cut is not None:
                    stops = peel(fr, sh, lp, s, e, frm, -t, out)
                    if stops is not None:
                        work = [(s2, e2, f2, (), depth + 1) for s2, e2, f2 in stops] + work
                        break
                for side, s2 in m.split_ge(s, ph.base): work.insert(0, (s2, e, frm, phases + ((ph.base, ph.c, side),), depth + 1))
                break
            for o in r:
                if o[0] == 'phase': work.append((o[1], o[2], o[3], (), depth))
                else: out.append(o)
            break
    return out

UNROLL = 5
def unroll(fr, sh, lp, res, limit):
    """exact treatment of a loop whose exit tests compare constants and that leaves within a few iterations"""
    m = fr.m; rec, cm, bc, opt = m.record, m.cmps, m.bcmps, m.optimistic
    res0 = res; out = []
    for final in (False, True):
        if final and not rec: break
        m.record = final; m.cmps = None if not final else cm
        res = res0; out = []
        m.loopdepth += 1
        try:
            n = 0
            while True:
                collect(out, res)
                stops = res.stops
                if not stops: break
                n += 1
                if n > limit: return None
                nxt = interp.Res()
                for s, e, frm in stops:
                    r = fr.region([(s, e, sh.header, None, True)] if sh.cut is None else [(s, e, sh.cut, frm, False)], lp)
                    collect(out, r)
                    for s2, e2, latch in r.backs:
                        e2 = fr.phis(s2, e2, sh.header, latch)
                        m.bcmps = []
                        if sh.cut is None: nxt.stops.append((s2, e2, None)); continue
                        r2 = fr.region([(s2, e2, sh.header, None, True)], lp, sh.cut)
                        if not sh.short and all(d.cval() is None for d, _ in m.bcmps): return None
                        collect(out, r2); nxt.stops += r2.stops
                    if len(nxt.stops) > 8: return None
                res = nxt
        except AnalysisError:
            if final: raise
            return None
        finally:
            m.record, m.cmps, m.bcmps = rec, cm, bc
            m.loopdepth -= 1
    if rec: m.ob('term', True, fr.blocks[sh.header][-1], None, 'loop terminates')
    return out

def peel(fr, sh, lp, s, e, frm, t, out):
    """the first t iterations one by one; states at the cut behind them"""
    m = fr.m; o = []; stops = [(s, e, frm)]
    m.loopdepth += 1
    try:
        for _ in range(t):
            nxt = []
            for s, e, frm in stops:
                r = fr.region([(s, e, sh.cut, frm, False)], lp)
                collect(o, r)
                for s2, e2, latch in r.backs:
                    e2 = fr.phis(s2, e2, sh.header, latch)
                    r2 = fr.region([(s2, e2, sh.header, None, True)], lp, sh.cut)
                    collect(o, r2); nxt += r2.stops
            stops = nxt
            if len(stops) > 8: return None
    finally: m.loopdepth -= 1
    out += o
    return stops

class Phase(Exception):
    """the body decides on the iteration number: analyse the iterations on both sides of the decision separately"""
    def __init__(self, base, c): self.base = base; self.c = c
class Merge(Exception):
    """the loop reads a container across the boundary of differently described parts: describe it by one array"""
    def __init__(self, key, buf): self.key = key; self.buf = buf
def merge_buf(m, s, key, b):
    bits = 8 * b.w; top = 0
    for lo, hi, t in b.segs:
        h = s.range(t)[1]; top = (1 << bits) - 1 if h is None else max(top, h)
    W = Arr('M', bits, 0, min(top, (1 << bits) - 1))
    cuts = [hi for lo, hi, t in b.segs]
    s.bufs[key[1] if key[0] == 'raw' else s.cells[key[1]][1].buf] = Buf(b.size, b.w, ((ZERO, b.size, E(W, BETA)),), b.kind)
    tot = ZERO
    for lo, hi, t in b.segs:
        x = interp.tmpl_sum(s.norm(t) if t.deps() else t, bits, s.norm(lo), s.norm(hi))
        if x is None: tot = None; break
        tot = tot + x
        if not s.assume_eq(P(W, s.norm(hi)) - tot): return s
    for lo, hi, t in b.segs:
        if s.prove_ge(hi - lo - 1):
            for x in ([lo, hi - 1] if s.norm(hi - lo - 1) != ZERO else [lo]):
                x = s.norm(x)
                s.assume_eq(E(W, x) - interp.inst_(t, b, x))
    return s

def collect(out, res):
    for s, e, a, b in res.exits: out.append(('exit', s, e, a, b))
    for s, v in res.rets: out.append(('ret', s, None, v, None))
    for o in res.throws: out.append(('throw', o.st, None, o, None))

class Fix:
    def __init__(self, fr, sh, st0, env0, frm0, pre):
        self._arr0 = Arr.n - 1
        self.fr = fr; self.m = fr.m; self.sh = sh; self.st0 = st0; self.env0 = env0; self.frm0 = frm0
        self.k = fresh('k', 0, None, 3); self.kid = self.k.atoms().pop()
        self.ints = {}       # sid -> ('inv',) | ('iv', c) | ('gen', symbol)
        self.w = {}
        self.v0 = {}; self.mul = {}
        self.other = {}      # sid -> 'inv' | 'any' for non-integer slots
        self.content = {}    # bkey -> ('same',) | ('whole', arr) | ('hull', lo, hi, arr)
        self.lo = {}; self.hi = {}    # sid -> index into thresholds / None
        self.elhi = {}       # bkey -> element bound
        self.cands = []      # inequality candidates (polys over head symbols)
        self.eqs = []        # list of (vector [(coef, col)], const poly)
        self.trail_extra = ()
        self.edges = {}; self.edgetried = set(); self.newid = set(); self.phases = (); self.mayphase = False
        self.nohull = set(); self.notmpl = set(); self.hfacts = {}
        self.phi_ids = {i['id']: i for i in sh.phis}
        s = st0
        for i in sh.phis: self.slot(('phi', i['id']), env0.get(i['id'], UNDEF), width(i['ty']) or 64)
        for key, (sz, v) in s.cells.items():
            if not isinstance(v, Vec): self.slot(('cell', key), v, 8 * sz)
        for bk, b in self.bufkeys(s).items():
            self.slot(('size', bk), b.size, 64); self.content[bk] = ('same',)
    def bufkeys(self, s):
        r = {}; owned = set()
        for key, (sz, v) in s.cells.items():
            if isinstance(v, Vec):
                b = s.bufs.get(v.buf)
                owned.add(v.buf)
                if b is not None: r[('cell', key)] = b
        for bid, b in s.bufs.items():
            if bid not in owned: r[('raw', bid)] = b
        return r
    def slot(self, sid, v, w):
        self.w[sid] = w
        if isinstance(v, Poly): self.ints[sid] = ('inv',); self.v0[sid] = self.st0.norm(v)
        elif isinstance(v, Ptr): self.ints[sid] = ('inv',); self.v0[sid] = v
        else: self.other[sid] = 'inv'; self.v0[sid] = v
    # ------------------------------------------------------------- head construction
    def form(self, sid):
        """current head value of an integer slot (or pointer)"""
        h = self.ints[sid]; v = self.v0[sid]
        if h[0] == 'inv': return v
        if isinstance(v, Ptr):
            return Ptr(v.base, v.off + self.k.scale(h[1]) if h[0] == 'iv' else h[1])
        return v + self.k.scale(h[1]) if h[0] == 'iv' else h[1]
    def gens(self):
        return [sid for sid, h in self.ints.items() if h[0] == 'gen']
    def head(self):
        s = self.st0.copy(); env = dict(self.env0)
        for i in self.sh.phis:
            sid = ('phi', i['id'])
            if sid in self.ints: env[i['id']] = self.form(sid)
            elif self.other.get(sid) == 'any': env[i['id']] = FP(('loop', self.kid, i['id'])) if isinstance(self.v0[sid], FP) else UNDEF
        for sid in self.ints:
            if sid[0] == 'cell' and self.ints[sid][0] != 'inv': s.cells[sid[1]] = (s.cells[sid[1]][0], self.form(sid))
        for sid, h in self.other.items():
            if sid[0] == 'cell' and h == 'any':
                s.cells[sid[1]] = (s.cells[sid[1]][0], FP(('loop', self.kid, sid[1])) if isinstance(self.v0[sid], FP) else UNDEF)
            if sid[0] == 'cell' and h == 'gone': s.cells.pop(sid[1], None)
        if any(h[0] != 'inv' for h in self.ints.values()) or any(c[0] != 'same' for c in self.content.values()): pass
        # ranges of general slots
        ok = True
        for sid in self.gens():
            x = self.symof(sid)
            l, h = self.bounds(sid)
            if l is not None: ok = s.assume_ge(x - l) and ok
            if h is not None: ok = s.assume_ge(-x + h) and ok
        sb = s.copy() if self.cands else None
        for c in self.cands: ok = s.assume_ge(c) and ok
        for base, c, side in self.phases:
            d = base + self.k.scale(c)
            ok = s.assume_ge(d if side else -d - 1) and ok
        e0 = self.bufkeys(self.st0)
        for bk, c in self.content.items():
            hs = self.ints[('size', bk)]
            if c[0] == 'same' and hs[0] == 'inv' and bk not in self.newid: continue
            b = e0[bk]
            size = self.form(('size', bk))
            if hs[0] != 'inv' and not s.prove_ge(size): s.assume_ge(size)
            segs = None
            if c[0] == 'same':
                segs = b.segs
                if hs[0] != 'inv': c = self.content[bk] = ('whole', self.newarr(bk, b))
            if c[0] == 'hull':
                lo, hi, arr = c[1], c[2], c[3]
                segs = self.hullsegs(bk, s, b, lo, hi, arr, size)
                if segs is None and sb is not None: segs = self.hullsegs(bk, sb, b, lo, hi, arr, size)
                if segs is None:
                    self.nohull.add(bk); c = self.content[bk] = ('whole', self.newarr(bk, b)); self.dropedge(bk)
                elif bk in self.edges: segs = self.edgesegs(bk, s, lo, hi, arr, segs)
            if c[0] == 'whole': segs = ((ZERO, size, E(c[1], BETA)),)
            nb = Buf(size, b.w, tuple(segs), b.kind)
            if bk[0] == 'cell':
                old = s.cells[bk[1]][1].buf
                if bk in self.newid:
                    s.bufs.pop(old, None); nid = self.m.newbuf(s, size, b.w, segs, b.kind); s.cells[bk[1]] = (24, Vec(nid))
                else: s.bufs[old] = nb
            else: s.bufs[bk[1]] = nb
        if not ok: raise Weaken('infeasible head')
        for vec, cst in self.eqs:
            p = self.eqpoly(vec)
            if p is None: continue
            if not s.assume_eq(p - cst): raise Weaken('infeasible equality')
        s.trail = s.trail + tuple(x for x in self.trail_extra if x not in s.trail)
        return s, env
    def symof(self, sid):
        h = self.ints[sid]
        return h[1]
    def bounds(self, sid):
        l = self.lo.get(sid); h = self.hi.get(sid)
        return l, h
    def newarr(self, bk, b):
        hi = self.elhi.get(bk)
        return Arr('L', 8 * b.w, 0, hi)
    def hullsegs(self, bk, s, b, lo, hi, arr, size):
        lo = s.norm(lo); hi = s.norm(hi)
        s.assume_ge(lo); s.assume_ge(hi - lo); s.assume_ge(size - hi)     # established at entry and at every back edge (hullok)
        m = self.m
        if s.prove_ge(lo - b.size):
            if s.norm(lo - b.size) != ZERO or s.norm(hi - size) != ZERO: return None
            return m.tidy(s, list(b.segs) + [(lo, hi, E(arr, BETA))])
        if s.norm(size - b.size) != ZERO: return None
        facts = self.hfacts[bk] = []
        z = {self.kid: ZERO}
        for pt, before in ((lo, True), (hi, False)):
            r = m.cut(s, b, pt, before)
            if len(r) != 1:
                # the border stays within the part it starts in: assumed here, proved at the entry and at every back edge (hullok)
                p0 = subst(pt, z); found = None
                order = list(b.segs) if not before else list(reversed(b.segs))
                for sl, sh, t in order:
                    if self.st0.prove_ge(p0 - sl) and self.st0.prove_ge(sh - p0): found = (sl, sh); break
                if found is None: return None
                for f in (pt - found[0], found[1] - pt):
                    if self.kid in f.deps(): facts.append(f); s.assume_ge(f)
                r = m.cut(s, b, pt, before)
                if len(r) != 1: return None
            if before: pre = r
            else: post = r
        return m.tidy(s, list(pre[0][1]) + [(lo, hi, E(arr, BETA))] + list(post[0][1]))
    # ------------------------------------------------------------- one pass over the body
    def once(self, record):
        """run the body from the head: list of (passing state, env), outs"""
        m = self.m; fr = self.fr; sh = self.sh
        s, env = self.head()
        rec = m.record
        m.record = False
        if sh.cut is None: heads = [(s, env, None)]
        else:
            res = fr.region([(s, env, sh.header, None, True)], sh.lp, sh.cut)
            heads = res.stops
        m.record = record and rec
        outs = []; backs = []
        try:
            for s1, e1, frm in heads:
                if sh.cut is None: res = fr.region([(s1, e1, sh.header, None, True)], sh.lp)
                else: res = fr.region([(s1, e1, sh.cut, frm, False)], sh.lp)
                collect(outs, res)
                for s2, e2, latch in res.backs:
                    e2 = fr.phis(s2, e2, sh.header, latch)
                    if sh.cut is None: backs.append((s2, e2, s1, s2, e2, latch)); continue
                    r2 = fr.region([(s2, e2, sh.header, None, True)], sh.lp, sh.cut)
                    collect(outs, r2)
                    for s3, e3, f3 in r2.stops: backs.append((s3, e3, s1, s2, e2, f3))
            if self.phases:
                todo = backs; backs = []
                for b in todo:
                    l = [(b[0], True)]
                    for base, c, side in self.phases:
                        l = [(s4, i and t == side) for s3, i in l for t, s4 in (m.split_ge(s3, base + (self.k + 1).scale(c)) if i else [(False, s3)])]
                    for s4, i in l:
                        if i: backs.append((s4,) + b[1:])
                        else: outs.append(('phase', s4, b[1], b[5]))
            backs = [b[:5] for b in backs]
        finally: m.record = rec
        return backs, outs, heads
    # ------------------------------------------------------------- comparing
    def value(self, s, e, sid):
        if sid[0] == 'phi': return e.get(sid[1], UNDEF)
        if sid[0] == 'edge': return self.edgeval(s, self.getbuf(s, sid[1]), sid[1], self.k + 1)
        if sid[0] == 'cell':
            c = s.cells.get(sid[1]); return None if c is None else c[1]
        b = self.getbuf(s, sid[1])
        return None if b is None else b.size
    # the border element of a region that the next iteration updates again (a carry kept in the output)
    def edgeval(self, s, b, bk, k):
        c = self.content.get(bk)
        if b is None or c is None or c[0] != 'hull': return UNDEF
        at = subst(c[2] if self.edges[bk] == 'hi' else c[1], {self.kid: k})
        if self.edges[bk] == 'hi': at = at - 1
        at = s.norm(at)
        for lo, hi, t in b.segs:
            if (s.norm(at - lo) == ZERO or s.prove_ge(at - lo)) and (s.norm(hi - at) == const(1) or s.prove_ge(hi - at - 1)): return s.norm(inst(t, 8 * b.w, at))
        return UNDEF
    def edgesegs(self, bk, s, lo, hi, arr, segs):
        x = self.form(('edge', bk)); out = []
        lo = s.norm(lo); hi = s.norm(hi); s.assume_ge(s.norm(hi - lo - 1))
        for l, h, t in segs:
            if t == E(arr, BETA):
                out += [(l, s.norm(h - 1), t), (s.norm(h - 1), h, x)] if self.edges[bk] == 'hi' else [(l, s.norm(l + 1), x), (s.norm(l + 1), h, t)]
            else: out.append((l, h, t))
        return self.m.tidy(s, out)
    def dropedge(self, bk):
        if bk in self.edges:
            del self.edges[bk]
            for d in (self.ints, self.w, self.v0, self.lo, self.hi, self.mul, self.other): d.pop(('edge', bk), None)
            self.eqs = [x for x in self.eqs if not any(c[1] in (bk, ('edge', bk)) for _, c in x[0])]
    def findedge(self, bk, c, backs):
        side = None
        for s, e, s1, _, _ in backs:
            b = self.getbuf(s, bk); hb = self.getbuf(s1, bk)
            r = () if b is hb else self.changed(s, b, hb)
            if r is None: return False
            if r == (): continue
            if s.norm(r[0] - c[2] + 1) == ZERO and s.norm(r[1] - subst(c[2], {self.kid: self.k + 1})) == ZERO: x = 'hi'
            elif s.norm(r[1] - c[1] - 1) == ZERO and s.norm(r[0] - subst(c[1], {self.kid: self.k + 1})) == ZERO: x = 'lo'
            else: return False
            if side not in (None, x): return False
            side = x
        if side is None: return False
        s0 = self.st0; z = {self.kid: ZERO}
        if not s0.prove_ge(subst(c[2] - c[1], z) - 1): return False
        self.edges[bk] = side
        b0 = self.bufkeys(s0)[bk]
        v = self.edgeval(s0, b0, bk, ZERO)
        if v is UNDEF: del self.edges[bk]; return False
        self.slot(('edge', bk), v, 8 * b0.w)
        return True
    def bid(self, bk): return bk[1] if bk[0] == 'raw' else self.st0.cells[bk[1]][1].buf
    def getbuf(self, s, bk):
        if bk[0] == 'raw': return s.bufs.get(bk[1])
        c = s.cells.get(bk[1])
        if c is None or not isinstance(c[1], Vec): return None
        return s.bufs.get(c[1].buf)
    def unscale(self, sid, v):
        m = self.mul.get(sid, 1)
        return v if m == 1 or not isinstance(v, Poly) else v.scale(Fraction(1, m))
    def congruence(self, sid, vals):
        """largest power of two that divides the value of the slot at the entry and at the back edges"""
        if sid[0] == 'size' or isinstance(self.v0[sid], Ptr): return 1
        g = 1 << self.w[sid]
        for v in vals:
            if not isinstance(v, Poly): return 1
            for m, c in v.t.items():
                if m[1] or type(c) is not int: return 1
                while c % g: g >>= 1
        return g if g < 1 << self.w[sid] else 1
    def setgen(self, sid, vals=()):
        x = fresh('x', None, None, 2)
        m = self.mul[sid] = self.congruence(sid, [self.v0[sid]] + list(vals)) if vals else 1
        if m > 1: x = x.scale(m)
        self.ints[sid] = ('gen', x)
        v = self.v0[sid]
        v = v.off if isinstance(v, Ptr) else v
        w = self.w[sid]
        l, h = self.st0.range(v)
        self.lo[sid] = next((t for t in THR_LO if l is not None and t <= l), None)
        self.hi[sid] = next((t for t in THR_HI if h is not None and t >= h), None)
        if sid[0] == 'size': self.lo[sid] = max(0, self.lo[sid] or 0)
        if self.lo[sid] is not None and self.lo[sid] < 0 and not v.is_const() and self.st0.prove_ge(v): self.lo[sid] = 0
        if not v.is_const() and (self.hi[sid] is None or self.hi[sid] >= 1 << 32):
            for t in ((1 << 32) - 1, (1 << w) - 1):
                if (self.hi[sid] is None or self.hi[sid] > t) and self.st0.prove_ge(-v + t): self.hi[sid] = t; break
        # not numeric: entry value within the type's range?
        if self.lo[sid] is None:
            for t in THR_LO:
                if self.st0.prove_ge(v - t): self.lo[sid] = t; break
        if self.hi[sid] is None:
            for t in THR_HI:
                if self.st0.prove_ge(-v + t): self.hi[sid] = t; break
    def weaken(self, backs):
        """adapt the hypotheses to the observed back states; True when something changed"""
        ch = False
        k1 = self.k + 1
        for sid, h in list(self.ints.items()):
            if h[0] == 'gen':
                m = self.mul.get(sid, 1)
                if m > 1:
                    vals = [self.value(s, e, sid) for s, e, s1, _, _ in backs]
                    vals = [s[0].norm(v) if isinstance(v, Poly) else v for s, v in zip(backs, vals)]
                    if self.congruence(sid, vals) % m: self.setgen(sid, vals); ch = True
                continue
            v0 = self.v0[sid]
            ptr = isinstance(v0, Ptr)
            o0 = v0.off if ptr else v0
            deltas = set(); bad = False; vals = []
            for s, e, s1, _, _ in backs:
                v = self.value(s, e, sid)
                if v is None:
                    if sid[0] == 'cell' or sid[0] == 'size':
                        # the object ended its life inside the body
                        bad = 'gone'; break
                    raise AnalysisError('loop-carried slot vanished')
                if v is UNDEF: bad = 'any'; break
                if ptr:
                    if not isinstance(v, Ptr) or v.base != v0.base:
                        if sid[0] == 'cell' and False: pass
                        bad = 'any'; break
                    v = v.off
                if not isinstance(v, Poly): bad = 'any'; break
                vals.append(s.norm(v))
                if h[0] == 'inv':
                    d = s.norm(v - o0)
                    if not d.is_const():
                        # modulo the word size?
                        if s.prove_eq(d): d = ZERO
                    deltas.add(d)
                else:
                    d = s.norm(v - o0 - k1.scale(h[1]))
                    if d.t and s.prove_eq(d): d = ZERO
                    deltas.add(d)
            if bad and sid[0] == 'edge':
                self.dropedge(sid[1]); ch = True; continue
            if bad:
                self.other[sid] = bad; del self.ints[sid]; ch = True
                if sid[0] == 'size':
                    self.content.pop(sid[1], None)
                    if sid[1][0] == 'cell': self.other[('cell', sid[1][1])] = 'gone'
                continue
            if not deltas or deltas == {ZERO}: continue
            ch = True
            if h[0] == 'inv' and len(deltas) == 1:
                d = deltas.pop()
                c = d.cval()
                if c is not None and type(c) is int:
                    w = self.w[sid]
                    self.ints[sid] = ('iv', c); continue
            self.setgen(sid, vals)
        for sid, h in list(self.other.items()):
            if h != 'inv': continue
            for s, e, s1, _, _ in backs:
                v = self.value(s, e, sid)
                if v is None:
                    self.other[sid] = 'gone'; ch = True; break
                if not same(v, self.v0[sid]):
                    self.other[sid] = 'any'; ch = True; break
        if ch: mode = 'slots'
        else: mode = 'mem'
        for bk, c in list(self.content.items()):
            for s, e, s1, _, _ in backs:
                b = self.getbuf(s, bk); hb = self.getbuf(s1, bk)
                if b is None or hb is None:
                    self.content.pop(bk, None); self.ints.pop(('size', bk), None); self.other[('size', bk)] = 'gone'
                    if bk[0] == 'cell': self.other[('cell', bk[1])] = 'gone'
                    ch = True; break
                if bk[0] == 'cell' and s.cells[bk[1]][1] != s1.cells[bk[1]][1] and bk not in self.newid:
                    self.newid.add(bk); ch = True
                if c[0] == 'same' and b is not hb and not (self.ints[('size', bk)][0] == 'inv' and self.changed(s, b, hb) == ()):
                    c = self.content[bk] = ('whole', self.newarr(bk, b)); ch = True
        if mode == 'mem' and not ch:
            for bk, c in list(self.content.items()):
                if c[0] == 'whole' and bk not in self.nohull:
                    r = self.findhull(bk, backs)
                    self.nohull.add(bk)
                    if r is not None and self.hullentry(bk, r):
                        arr = self.newarr(bk, self.bufkeys(self.st0)[bk])
                        self.content[bk] = ('hull', r[0], r[1], arr); ch = True
                elif c[0] == 'hull' and not self.hullok(bk, c, backs):
                    self.dropedge(bk)
                    self.content[bk] = ('whole', self.newarr(bk, self.bufkeys(self.st0)[bk])); self.nohull.add(bk); ch = True
                elif c[0] == 'hull' and c[3].tmpl is not None and not self.tmplok(bk, c, backs):
                    self.notmpl.add(bk); self.content[bk] = ('hull', c[1], c[2], self.newarr(bk, self.bufkeys(self.st0)[bk])); ch = True
                elif c[0] == 'hull' and c[3].tmpl is None and bk not in self.notmpl:
                    t = self.findtmpl(bk, backs); self.notmpl.add(bk)
                    if t is not None:
                        self.notmpl.discard(bk)
                        b0 = self.bufkeys(self.st0)[bk]; arr = self.newarr(bk, b0); arr.tmpl = t
                        lo = c[1]
                        # elements just below that are the same function of their position
                        for _ in range(4):
                            if self.kid in lo.deps(): break
                            for l, h, v in b0.segs:
                                if self.st0.norm(h - lo) == ZERO and self.st0.norm(h - l) == const(1) and self.st0.prove_eq(inst(t, 8 * b0.w, self.st0.norm(l)) - v): lo = self.st0.norm(l); break
                            else: break
                        self.content[bk] = ('hull', lo, c[2], arr); ch = True
                elif c[0] == 'hull' and c[3].tmpl is None and bk not in self.edgetried:
                    self.edgetried.add(bk)
                    if self.findedge(bk, c, backs): ch = True
        for s, e, s1, _, _ in backs:
            if s.trail is not s1.trail:
                for x in s.trail:
                    if x not in s1.trail and x not in self.trail_extra: self.trail_extra += (x,); ch = True
        return ch
    def changed(self, s, b, hb):
        """hull of the positions whose content differs from the head's: () or (a, b) or None"""
        lo = hi = None
        hs = hb.segs
        for (l, h, t) in b.segs:
            ok = False
            for (l2, h2, t2) in hs:
                if t2 == t or s.norm(t2) == s.norm(t):
                    if (s.norm(l - l2) == ZERO or s.prove_ge(l - l2)) and (s.norm(h2 - h) == ZERO or s.prove_ge(h2 - h)): ok = True; break
            if not ok:
                if lo is None: lo = l
                hi = h
        if lo is None: return ()
        return s.norm(lo), s.norm(hi)
    def invariant(self, p):
        """poly over loop-invariant atoms only"""
        d = p.deps()
        return self.vdeps().isdisjoint(d) and not self.modarrs(d)
    def modarrs(self, deps):
        """some atom reads content that the loop may rewrite"""
        for a in deps:
            at = ATOMS[a]
            if at.kind in ('E', 'P') and at.a[0].id > self._arr0 and at.a[0].tmpl is None: return True
        return False
    def vdeps(self):
        s = {self.kid}
        for sid in self.gens(): s |= self.symof(sid).atoms()
        return s
    def linear(self, p):
        """p = base + slope*k with invariant base"""
        c = p.t.get((((self.kid, 1),), ()), 0)
        base = p - self.k.scale(c)
        if not self.invariant(base) or type(c) is not int: return None
        if not self.headonly(base): return None
        return base, c
    def headonly(self, p):
        """only atoms that exist at the loop entry: no symbols created inside the body"""
        lim = self.kid
        for a in p.deps():
            at = ATOMS[a]
            if a > lim and at.kind == 'sym': return False
            if at.kind in ('E', 'P') and at.a[0].id > self._arr0: return False
        return True
    def findhull(self, bk, backs):
        lo = hi = None
        for s, e, s1, _, _ in backs:
            b = self.getbuf(s, bk); hb = self.getbuf(s1, bk)
            if b is hb: continue
            r = self.changed(s, b, hb)
            if r == () or r is None: continue
            a, z = self.linear(r[0]), self.linear(r[1])
            if a is None or z is None: return None
            if lo is None: lo, hi = a, z
            else:
                if a != lo:
                    if a[1] <= lo[1] and s.prove_ge(lo[0] - a[0]): lo = a
                    elif not (a[1] >= lo[1] and s.prove_ge(a[0] - lo[0])): return None
                if z != hi:
                    if z[1] >= hi[1] and s.prove_ge(z[0] - hi[0]): hi = z
                    elif not (z[1] <= hi[1] and s.prove_ge(hi[0] - z[0])): return None
        if lo is None: return None
        s0 = self.st0; k = self.k
        (la, ls), (ha, hs) = lo, hi
        if ls >= 0 and hs >= 0:
            if ls == 0 and hs == 0: return (la, ha)
            if ls == 0: return (la, ha + k.scale(hs) - hs)
            L = la; c1 = la + k.scale(ls); c2 = ha + k.scale(hs) - hs
            if ls == hs:
                d = s0.norm(c1 - c2)
                if s0.prove_ge(d): return (L, c1)
                if s0.prove_ge(-d): return (L, c2)
            elif hs > ls: return (L, c2)
            return None
        if ls <= 0 and hs <= 0:
            if hs == 0: return (la + k.scale(ls) - ls, ha)
            c1 = ha + k.scale(hs); c2 = la + k.scale(ls) - ls
            if ls == hs:
                d = s0.norm(c2 - c1)
                if s0.prove_ge(d): return (c1, ha)
                if s0.prove_ge(-d): return (c2, ha)
        return None
    def findtmpl(self, bk, backs):
        """the written elements as one function of their position over loop-invariant values, or None"""
        t = None; found = False; later = []
        for s, e, s1, _, _ in backs:
            b = self.getbuf(s, bk); hb = self.getbuf(s1, bk)
            if b is hb: continue
            ns = self.newsegs(s, b, hb)
            ls = [self.linear2(s.norm(lo)) for lo, hi, v in ns]
            if len(ns) > 1 and all(l is not None and abs(l[1]) == len(ns) and l[1] == ls[0][1] for l in ls):
                self.width = 8 * b.w; v2 = self.strided(s, ns, ls)
                if v2 is None or t is not None and t != v2: return None
                t = v2; found = True
                continue
            for lo, hi, v in ns:
                if s.norm(hi - lo) != const(1): return None
                v = s.norm(v); p = s.norm(lo)
                l = self.linear2(p)
                if l is not None and l[1] == 0: later.append((s, 8 * b.w, p, v)); continue
                if l is None or abs(l[1]) != 1: return None
                try: v2 = subst(v, {self.kid: (BETA - l[0]).scale(l[1])})
                except (NonAffine, ValueError): return None
                if not self.invariant(v2) or not self.headonly(v2): return None
                found = True
                if t is None: t = v2
                elif t != v2 and not s.prove_eq(inst(t, 8 * b.w, p) - v):
                    # the other way round: the first function may hold only under its own path's conditions
                    if t.is_const() and not v2.is_const(): t = v2
                    else: return None
        if found and not all(s.prove_eq(inst(t, w, p) - v) for s, w, p, v in later): return None
        return t if found else None
    def strided(self, s, ns, ls):
        """the pieces of one value written side by side in every iteration"""
        c = ls[0][1]; n = len(ns)
        vs = [s.norm(v) for _, _, v in ns]
        if all(v.is_const() and v == vs[0] for v in vs): return vs[0]
        b0 = ls[0][0]
        off = [(l[0] - b0).cval() for l in ls]
        if any(type(o) is not int for o in off) or not all(s.norm(hi - lo) == const(1) for lo, hi, _ in ns): return None
        A = b0 + min(off); order = [o - min(off) for o in off]
        if sorted(order) != list(range(n)): return None
        w = self.width
        for up in (True, False):
            d = BETA - A if up else A + (n - 1) - BETA
            x = ZERO
            for o, v in zip(order, vs): x = x + v.scale(1 << w * (o if up else n - 1 - o))
            M = 1 << w * n; red = {}
            for m, q in x.t.items():
                if type(q) is int:
                    q %= M
                    if 2 * q > M: q -= M
                if q: red[m] = q
            for x in (Poly(red), x):
                k = fd(d, const(n))
                try: x = subst(x, {self.kid: k.scale(1 if (c > 0) == up else -1)})
                except (NonAffine, ValueError): continue
                if not self.invariant(x) or not self.headonly(x): continue
                r = (d - k.scale(n)).scale(w)
                try:
                    t = fd(x, exp2(r)) - fd(x, exp2(r + w)).scale(1 << w)
                    if all(s.prove_eq(inst(t, w, s.norm(l)) - v2) for l, _, v2 in ns): return t
                except (NonAffine, ValueError): pass
        return None
    def newsegs(self, s, b, hb):
        r = []
        for (l, h, t) in b.segs:
            for (l2, h2, t2) in hb.segs:
                if (t2 == t or s.norm(t2) == s.norm(t)) and (s.norm(l - l2) == ZERO or s.prove_ge(l - l2)) and (s.norm(h2 - h) == ZERO or s.prove_ge(h2 - h)): break
            else: r.append((l, h, t))
        return r
    def tmplok(self, bk, c, backs):
        for s, e, s1, _, _ in backs:
            b = self.getbuf(s, bk); hb = self.getbuf(s1, bk)
            if b is hb: continue
            for lo, hi, v in self.newsegs(s, b, hb):
                if v == c[3].tmpl: continue
                if s.norm(hi - lo) != const(1) or not s.prove_eq(inst(c[3].tmpl, 8 * b.w, s.norm(lo)) - v): return False
            # outside the hull nothing may carry the template
        return True
    def hullentry(self, bk, r):
        s = self.st0; z = {self.kid: ZERO}
        lo = subst(r[0], z); hi = subst(r[1], z)
        return s.prove_ge(lo) and s.prove_ge(hi - lo) and s.prove_ge(self.bufkeys(s)[bk].size - hi)
    def hullok(self, bk, c, backs):
        for s, e, s1, _, _ in backs:
            b = self.getbuf(s, bk); hb = self.getbuf(s1, bk)
            if b is hb: r = ()
            else: r = self.changed(s, b, hb)
            k1 = {self.kid: self.k + 1}
            lo = subst(c[1], k1); hi = subst(c[2], k1)
            if not all(s.prove_ge(subst(f, k1)) for f in self.hfacts.get(bk, ())): return False
            if not (s.prove_ge(lo) and s.prove_ge(hi - lo - (1 if bk in self.edges else 0)) and s.prove_ge(b.size - hi)): return False
            if r == (): continue
            if not (s.prove_ge(r[0] - lo) and s.prove_ge(hi - r[1])): return False
        return True
    # ------------------------------------------------------------- inequality candidates
    def snap(self, s, e):
        d = {self.kid: self.k + 1}
        for sid in self.gens():
            v = self.value(s, e, sid)
            v = v.off if isinstance(v, Ptr) else v
            d[self.symof(sid).atoms().pop()] = self.unscale(sid, v)
        return d
    def entrysnap(self):
        d = {self.kid: ZERO}
        for sid in self.gens():
            v = self.v0[sid]
            d[self.symof(sid).atoms().pop()] = self.unscale(sid, v.off if isinstance(v, Ptr) else v)
        return d
    def bordercands(self, b, idx):
        """a scan stops at a border between parts at the latest"""
        if not self.headonly2(idx): return []
        out = []
        for (_, B, t), (_, _, u) in zip(b.segs, b.segs[1:]):
            if (t == ZERO) == (u == ZERO) or not self.invariant(B): continue
            x = self.st0.norm(interp.inst_(t, b, B - 1) if u == ZERO else interp.inst_(u, b, B))

            if self.st0.prove_ge(x - 1): out.append(prim(idx - B + 1 if u == ZERO else B - idx))
        return out
    def borders(self):
        vd = self.vdeps(); ids = {self.bid(bk): bk for bk in self.bufkeys(self.st0)}; es = self.entrysnap(); new = []
        for bid, idx in self.m.segsplit:
            bk = ids.get(bid)
            if bk is None or bk in self.merged or vd.isdisjoint(idx.deps()): continue
            for q in self.bordercands(self.bufkeys(self.st0)[bk], idx):
                if q in self.cands or q in self.dropped or q in new or q.is_const(): continue
                try: q0 = subst(q, es)
                except NonAffine: continue
                if self.st0.prove_ge(q0): new.append(q)
                else: self.dropped.add(q)
        self.cands += new
        return bool(new)
    def gencands(self, cmps, backs=()):
        vd = self.vdeps(); seen = set(self.cands) | self.dropped
        es = self.entrysnap()
        new = []
        pool = []
        for d in cmps:
            if vd.isdisjoint(d.deps()) or not self.headonly2(d): continue
            if len(d.t) > 6: continue
            pool.append(d)
            try: pool.append(subst(d, {self.kid: self.k - 1}))
            except NonAffine: pass
        G = self.gens()
        for s, e, s1, _, _ in backs:      # remainders of a division by an invariant
            for sid in G:
                v = self.value(s, e, sid); v = v.off if isinstance(v, Ptr) else v
                if not isinstance(v, Poly): continue
                for a in s.norm(v).atoms():
                    if ATOMS[a].kind == 'FD':
                        d = ATOMS[a].a[1]
                        if not d.is_const() and self.invariant(d) and self.headonly(d): pool += [d - 1 - self.symof(sid), self.symof(sid)]
        invs = [self.st0.norm(v) for sid, v in self.v0.items() if isinstance(v, Poly) and self.ints.get(sid, ('',))[0] == 'inv' and not v.is_const()][:4]
        for sid in G:
            x = self.symof(sid)
            for sid2 in G:
                if sid2 != sid and self.w[sid] == self.w[sid2]: pool.append(x - self.symof(sid2))
            v = self.v0[sid]; v = v.off if isinstance(v, Ptr) else v
            if not v.is_const(): pool.append(v - x)
            pool.append(self.k - x); pool.append(x - self.k)
        for d in pool:
            for q in (d, d + 1, d - 1, -d, -d - 1, 1 - d):
                q = prim(q)
                if q in seen or q.is_const(): continue
                seen.add(q)
                try: q0 = subst(q, es)
                except NonAffine: continue
                if self.st0.prove_ge(q0): new.append(q)
        return new
    def headonly2(self, d):
        for a in d.deps():
            at = ATOMS[a]
            if at.kind == 'sym' and a > self.lastsym: return False
            if at.kind in ('E', 'P') and at.a[0].id > self._arr0 and (at.a[0].id > self.lastarr or at.a[0].tmpl is None): return False
            if at.kind == 'FD': return False
        return True
    dropped = None
    def checkineq(self, backs):
        """weaken ranges/candidates that fail at a back state; True when something changed"""
        ch = False
        for s, e, s1, _, _ in backs:
            sn = self.snap(s, e)
            for sid in self.gens():
                v = self.value(s, e, sid)
                v = v.off if isinstance(v, Ptr) else v
                if v is UNDEF or not isinstance(v, Poly):
                    raise AnalysisError('loop-carried slot of unknown kind')
                l, h = self.lo.get(sid), self.hi.get(sid)
                if l is not None and not s.prove_ge(v - l):
                    self.lo[sid] = next((t for t in THR_LO if t < l and s.prove_ge(v - t)), None); ch = True
                if h is not None and not s.prove_ge(-v + h):
                    self.hi[sid] = next((t for t in THR_HI if t > h and s.prove_ge(-v + t)), None); ch = True
            keep = []
            for c in self.cands:
                try: ok = s.prove_ge(subst(c, sn))
                except NonAffine: ok = False
                if ok: keep.append(c)
                else: self.dropped.add(c); ch = True
            self.cands = keep
            for bk, c in self.content.items():
                if c[0] == 'same' or c[0] == 'hull' and c[3].tmpl is not None: continue
                b = self.getbuf(s, bk)
                top = self.elhi.get(bk)
                if top is None: continue
                for lo, hi, t in b.segs:
                    l, h = s.range(t)
                    if (h is None or h > top) and top != (1 << 8 * b.w) - 1:
                        full = (1 << 8 * b.w) - 1
                        n = next((x for x in THR_HI if x > top and h is not None and x >= h and x <= full), full)
                        self.elhi[bk] = n; ch = True; top = n
                        a = self.newarr(bk, b)
                        self.content[bk] = ('whole', a) if c[0] == 'whole' else ('hull', c[1], c[2], a); c = self.content[bk]
        return ch
    # ------------------------------------------------------------- equalities
    def region_bounds(self, bk, kv=None):
        c = self.content[bk]
        if c[0] == 'hull': return (c[1], c[2])
        return (ZERO, None)
    def coleval(self, col, s, e, where):
        """value of a column: where = 'head' | 'back' | 'entry'"""
        t = col[0]
        sub = None if where == 'head' else {self.kid: self.k + 1} if where == 'back' else {self.kid: ZERO}
        def kp(p): return p if sub is None else subst(p, sub)
        if t == 'slot':
            sid = col[1]
            if where == 'head': v = self.symof(sid)
            elif where == 'entry': v = self.v0[sid]; v = v.off if isinstance(v, Ptr) else v
            else: v = self.value(s, e, sid); v = v.off if isinstance(v, Ptr) else v
            return v * kp(col[2]) * col[3]
        if t == 'sum':
            bk = col[1]; b = self.getbuf(s, bk)
            lo, hi = self.region_bounds(bk)
            hi = b.size if hi is None else kp(hi); lo = kp(lo)
            if where == 'head':
                c = self.content[bk]; arr = c[3] if c[0] == 'hull' else c[1]
                top = self.form(('size', bk)) if c[0] == 'whole' else hi
                if arr.tmpl is not None: hd = interp.tmpl_sum(arr.tmpl, 8 * b.w, lo, top)
                elif bk in self.edges:
                    x = self.form(('edge', bk))
                    if self.edges[bk] == 'hi': hd = P(arr, top - 1) - P(arr, lo) + x * exp2((top - 1).scale(8 * b.w))
                    else: hd = P(arr, top) - P(arr, lo + 1) + x * exp2(lo.scale(8 * b.w))
                else: hd = P(arr, top) - P(arr, lo)
                return hd * col[2]
            r = self.m.seg_sum(s, b, lo, hi)
            return None if r is None else r * col[2]
        if t == 'pre': return P(col[1], kp(col[2])) * col[3]
        if t == 'exp': return kp(col[1]) * col[2]
        if t == 'kap': return kp(self.k) * col[1]
        if t == 'prod': return P(col[1], kp(col[2])) * P(col[3], kp(col[4])) * col[5]
    def eqpoly(self, vec):
        tot = ZERO
        for a, col in vec:
            v = self.coleval(col, self.st0, self.env0, 'head')
            if v is None: return None
            tot = tot + v.scale(a)
        return tot
    def colkey(self, col): return col
    def splitmono(self, m):
        """(variant atoms, exponent poly part with k, invariant factor poly)"""
        vd = self.vdeps()
        va = []; inv = []
        for a, p in m[0]:
            if a in vd or not ATOMS[a].deps.isdisjoint(vd) or self.modarrs(var(a).deps()) or not self.headonly2(var(a)): va.append((a, p))
            else: inv.append((a, p))
        ex = []; exi = []
        for a, c in m[1]:
            if a in vd or not ATOMS[a].deps.isdisjoint(vd) or not self.headonly2(var(a)): ex.append((a, c))
            else: exi.append((a, c))
        return va, tuple(ex), mono((tuple(inv), tuple(exi)))
    def equalities(self, backs):
        t0 = time.time()
        cols = []; seen = set()
        def add(c):
            if c not in seen and len(cols) < 60: seen.add(c); cols.append(c)
        one = const(1)
        for sid in self.gens(): add(('slot', sid, one, one))
        for bk, c in self.content.items():
            if c[0] in ('hull', 'whole'): add(('sum', bk, one))
            if c[0] == 'hull' and c[3].tmpl is not None:
                for a in sorted(c[3].tmpl.deps()):
                    at = ATOMS[a]
                    if at.kind == 'E' and at.a[0].bits == c[3].bits and BETA_ID not in (at.a[1] - BETA).deps():
                        for x in (c[1], c[2]):
                            if self.kid in x.deps(): add(('pre', at.a[0], subst(at.a[1], {BETA_ID: x}), one))
        kx = self.kid
        D = {}
        modarr = {c[3].id if c[0] == 'hull' else c[1].id for c in self.content.values() if c[0] != 'same'}
        gsym = {self.symof(sid).atoms().pop(): sid for sid in self.gens()}
        def delta(col):
            r = []
            for s, e, s1, _, _ in backs:
                try:
                    h = self.coleval(col, s1, e, 'head'); b = self.coleval(col, s, e, 'back')
                    if h is None or b is None: return None
                    r.append(s.norm(b - h))
                except (NonAffine, ValueError, RuntimeError): return None
            return r
        def propose_pre(E_at, f_m, M):
            pass
        def propose_E(a, rest_exps, finv):
            """E(arr, idx) with idx = c + s*k: prefix column"""
            at = ATOMS[a]; arr, idx = at.a
            if arr.id in modarr or arr.id > self.lastarr or not self.headonly2(idx): return
            l = self.linear2(idx)
            if l is None or abs(l[1]) != 1: return
            ik = idx.scale(arr.bits)
            # remaining exponent must match bits*idx in its dependence on k
            want = arr.bits * l[1]
            got = dict(rest_exps).get(kx, 0)
            if set(dict(rest_exps)) - {kx}: return
            if got == want:
                base = exp2(-(l[0].scale(arr.bits)))
                f = finv * base
            else: return
            if f.is_const(): f = const(1)
            add(('pre', arr, idx if l[1] > 0 else idx + 1, f))
        for rnd in range(4):
            for c in cols:
                if c not in D: D[c] = delta(c)
            n0 = len(cols)
            mons = set()
            for c in cols:
                if D[c] is None: continue
                for d in D[c]: mons |= set(d.t)
            # atoms of arrays used in equalities assumed on the way to the back edge
            for s, e, s1, _, _ in backs:
                for a, v in s.sub.items():
                    if a in s1.sub: continue
                    for x in [a] + list(v.atoms()):
                        if ATOMS[x].kind == 'E':
                            l = self.linear2(ATOMS[x].a[1])
                            if l is not None and abs(l[1]) == 1: propose_E(x, ((kx, ATOMS[x].a[0].bits * l[1]),), exp2(l[0].scale(ATOMS[x].a[0].bits)))
            for M in mons:
                va, ex, inv = self.splitmono(M)
                exd = dict(ex)
                onlyk = set(exd) <= {kx}
                if not va:
                    if not ex:
                        if M != ONE or True: add(('kap', inv))
                    elif onlyk: add(('exp', mono(((), ex)), inv))
                    continue
                if not onlyk: continue
                if len(va) == 1 and va[0][1] == 1:
                    a = va[0][0]
                    if a in gsym: add(('slot', gsym[a], mono(((), ex)), inv)); continue
                    if ATOMS[a].kind == 'E': propose_E(a, ex, inv); continue
                if len(va) == 2 and all(p == 1 for _, p in va):
                    # a_k * P(b, k): product of two prefixes
                    for (a, _), (b, _) in (va, va[::-1]):
                        if ATOMS[a].kind == 'E' and ATOMS[b].kind == 'P':
                            (a1, i1), (a2, i2) = ATOMS[a].a, ATOMS[b].a
                            l1, l2 = self.linear2(i1), self.linear2(i2)
                            if l1 and l2 and abs(l1[1]) == 1 and abs(l2[1]) == 1 and a1.id not in modarr and a2.id not in modarr and exd.get(kx, 0) == a1.bits * l1[1]:
                                add(('prod', a1, i1 if l1[1] > 0 else i1 + 1, a2, i2, const(1)))
                # intermediate value: same atom in another column's delta with a different factor
                for c in list(cols):
                    if D.get(c) is None: continue
                    for d in D[c]:
                        for M2 in d.t:
                            va2, ex2, inv2 = self.splitmono(M2)
                            if va2 == va and M2 != M and dict(ex2).get(kx, 0) == exd.get(kx, 0):
                                f = mdivp(inv, inv2)
                                if f is None: continue
                                if c[0] == 'slot': add(('slot', c[1], c[2], c[3] * f))
                                elif c[0] == 'sum': add(('sum', c[1], c[2] * f))
                            elif va2 == va and c[0] == 'slot' and M2 != M:
                                dk = exd.get(kx, 0) - dict(ex2).get(kx, 0)
                                if dk:
                                    f = mdivp(inv, inv2)
                                    if f is None:
                                        # no common factor: scale both sides
                                        add(('slot', c[1], c[2] * exp2(self.k.scale(dk)), c[3] * unit_(inv)))
                                        for c2 in list(cols):
                                            if c2[0] in ('sum', 'slot') and c2 != c and D.get(c2) is not None and any(M in d2.t for d2 in D[c2]):
                                                add(('sum', c2[1], c2[2] * unit_(inv2)) if c2[0] == 'sum' else ('slot', c2[1], c2[2], c2[3] * unit_(inv2)))
                                        continue
                                    # align weights: c scaled by 2^(dk*k), corrected for the step
                                    add(('slot', c[1], c[2] * exp2(self.k.scale(dk)), c[3] * f * exp2(const(-dk)) if False else c[3] * f))
            # flags: slots that change by constants, weighted like the digits
            for c in list(cols):
                if c[0] == 'slot' and c[2] == one and c[3] == one and D.get(c) and all(d.is_const() for d in D[c]):
                    for x in list(cols):
                        if x[0] == 'exp': add(('slot', c[1], x[1], one))
            if len(cols) == n0: break
        good = [c for c in cols if D.get(c, None) is not None or (c not in D)]
        for c in good:
            if c not in D: D[c] = delta(c)
        good = [c for c in good if D[c] is not None]
        if self.m.debug and self.m.debug > 1:
            for c in cols: self.dbg('  col', c, D.get(c))
        rows = {}
        for ci, c in enumerate(good):
            for j, d in enumerate(D[c]):
                for M, v in d.t.items(): rows.setdefault((j, M), {})[ci] = v
        basis = nullspace(list(rows.values()), len(good))
        eqs = []
        for vec in basis:
            v = [(a, good[i]) for i, a in sorted(vec.items())]
            tot = ZERO; cst = ZERO
            try:
                for a, c in v:
                    h = self.coleval(c, self.st0, self.env0, 'head')
                    e = self.coleval(c, self.st0, self.env0, 'entry')
                    if e is None: raise ValueError
                    tot = tot + h.scale(a); cst = cst + e.scale(a)
            except (ValueError, NonAffine, RuntimeError): continue
            if self.vdeps().isdisjoint(tot.deps()) and not any(ATOMS[a].kind in ('P', 'E') and ATOMS[a].a[0].id in modarr for a in tot.atoms()): continue
            cst = self.st0.norm(cst)
            if tot == cst: continue
            eqs.append((v, cst))
        return eqs
    def linear2(self, p):
        c = p.t.get((((self.kid, 1),), ()), 0)
        base = p - self.k.scale(c)
        if self.kid in base.deps() or type(c) is not int: return None
        if not self.vdeps().isdisjoint(base.deps()): return None
        return base, c
    def checkeqs(self, backs):
        keep = []
        for vec, cst in self.eqs:
            ok = True
            for s, e, s1, _, _ in backs:
                tot = ZERO
                try:
                    for a, c in vec:
                        v = self.coleval(c, s, e, 'back')
                        if v is None: ok = False; break
                        tot = tot + v.scale(a)
                    if not ok: break
                    if not s.prove_eq(tot - cst): ok = False; break
                except (NonAffine, ValueError): ok = False; break
            if ok: keep.append((vec, cst))
        ch = len(keep) != len(self.eqs)
        self.eqs = keep
        return ch
    # ------------------------------------------------------------- driver
    def run(self):
        m = self.m
        rec, opt, cm, ssp = m.record, m.optimistic, m.cmps, m.segsplit
        self.dropped = set()
        m.loopcount += 1
        self.dbg = m.debug and (lambda *a: print('   ' * m.loopdepth, *a)) or (lambda *a: None)
        m.loopdepth += 1
        try:
            m.record = False
            # 1. slot hypotheses
            m.optimistic = True
            m.segsplit = []
            for bk, b in self.bufkeys(self.st0).items():
                top = max((self.st0.range(t)[1] if self.st0.range(t)[1] is not None else 1 << 70 for _, _, t in b.segs), default=0)
                full = (1 << 8 * b.w) - 1
                self.elhi[bk] = next((x for x in THR_HI if x >= top and x <= full), full)
            for it in range(40):
                m.cmps = []; m.bcmps = []
                m.segsplit = []
                self.mark()
                backs, outs, heads = self.once(False)
                if it <= 2 and backs: early = [c for c in self.eqtests(m.cmps, backs) if c not in self.cands]
                else: early = []
                ch = True
                if early: self.cands += [c for c in early if c not in self.cands]
                else: ch = self.weaken(backs)
                self.dbg('pass', it, 'changed' if ch else 'stable', len(backs), 'backs', self.describe())
                if not backs: break
                if ch: continue
                if self.checkineq(backs): continue
                if m.segsplit and self.borders(): continue
                break
            else: raise AnalysisError('loop hypotheses do not settle in %s' % self.fr.f['demangled'])
            if m.segsplit:
                vd = self.vdeps(); ids = {self.bid(bk): bk for bk in self.bufkeys(self.st0)}
                for bid, idx in m.segsplit:
                    bk = ids.get(bid)
                    if bk is None or bk in self.merged or vd.isdisjoint(idx.deps()): continue
                    b = self.bufkeys(self.st0)[bk]
                    if any(c in self.cands for c in self.bordercands(b, idx)): continue
                    if self.mayphase and len(b.segs) > 1:
                        l = self.linear(idx)
                        if l is not None and l[1] == 1 and all(self.invariant(B) for _, B, _ in b.segs[:-1]):
                            for _, B, _ in b.segs[:-1]:
                                if self.st0.prove_ge(B - l[0] - 1): raise Phase(l[0] - B, 1)
                    if len(b.segs) > 1: raise Merge(bk, b)
            m.segsplit = None
            if self.mayphase and len(backs) > 1: self.findphase(backs, list(dict.fromkeys(d for d, l in m.bcmps if l == m.loopdepth)))
            # 2. candidates, equalities
            if backs:
                self.cands += self.gencands(list(dict.fromkeys(m.cmps)), backs)
                self.dbg('candidates', len(self.cands))
                self.eqs = []
                for it in range(6):
                    m.cmps = []
                    try:
                        self.mark()
                        backs, outs, heads = self.once(False)
                    except Weaken: self.cands = []; continue
                    if it == 0: self.cands += [c for c in self.gencands(list(dict.fromkeys(m.cmps)), backs) if c not in self.cands]
                    ch = self.weaken(backs)
                    ch = self.checkineq(backs) or ch
                    if not ch: break
                self.eqs = self.equalities(backs)
                self.dbg('equalities', len(self.eqs), [str(self.eqpoly(v)) + ' == ' + str(c) for v, c in self.eqs])
                m.optimistic = opt; retried = False
                for it in range(40):
                    m.cmps = []
                    self.mark()
                    try: backs, outs, heads = self.once(False)
                    except Weaken as w:
                        self.dbg('weaken', w)
                        if self.eqs: self.eqs = []
                        elif self.cands: self.cands = []
                        else: raise AnalysisError('infeasible loop head')
                        continue
                    ch = self.weaken(backs)
                    ch = self.checkineq(backs) or ch
                    ce = self.checkeqs(backs)
                    self.dbg('verify', it, ch, ce, len(self.cands), len(self.eqs), self.describe())
                    if not ch and ce and it < 12:
                        self.eqs = merge_eqs(self.eqs, self.equalities(backs)); self.dbg('again', len(self.eqs))
                        self.checkeqs(backs)
                    if not ch and not retried and self.eqs:
                        # the equalities may determine what is written
                        retried = True
                        again = [bk for bk, c in self.content.items() if c[0] == 'hull' and c[3].tmpl is None and bk in self.notmpl and self.findtmpl(bk, backs) is not None]
                        self.notmpl.difference_update(again)
                        if again: continue
                    if not ch and not ce: break
                else: raise AnalysisError('loop invariants do not settle in %s at %s' % (self.fr.f['demangled'], loc(self.fr.blocks[self.sh.header][-1])))
            # 3. final pass
            m.record = rec; m.optimistic = opt
            m.cmps = cm
            mcm = [] if cm is None else cm
            self.mark()
            if rec:
                m.cmps = []
                backs, outs, heads = self.once(True)
                self.termination(backs, heads, m.cmps)
                if cm is not None: cm.extend(m.cmps)
                m.cmps = cm
            return outs
        finally:
            m.record, m.optimistic, m.cmps, m.segsplit = rec, opt, cm, ssp
            m.loopdepth -= 1
    def findphase(self, backs, cmps):
        for d in cmps:
            l = self.linear(d)
            if l is None or l[1] == 0: continue
            for base, c in (l, (const(-1), 1)) if l[0] == ZERO else (l,):
                d2 = base + self.k.scale(c)
                t = any(b[0].prove_ge(d2) for b in backs); f = any(b[0].prove_ge(-d2 - 1) for b in backs)
                if t and f: raise Phase(base, c)
    def mark(self):
        self.lastsym = len(ATOMS)
        self.lastarr = Arr.n - 1
        for h in self.ints.values(): pass
    def eqtests(self, cmps, backs):
        """bounds of the iteration count implied by tests of the form k != b"""
        out = []; cs = set(cmps)
        for d in dict.fromkeys(cmps):
            if -d not in cs or not self.headonly2(d): continue
            l = self.linear(d)
            if l is None or l[1] != -1: continue
            try:
                if not self.st0.prove_ge(subst(d, {self.kid: ZERO})): continue
                for s, e, s1, _, _ in backs:
                    s = s.copy()
                    if s.assume_ge(s.norm(d)) and not s.prove_ge(s.norm(subst(d, {self.kid: self.k + 1}))): break
                else: out.append(d)
            except NonAffine: pass
        return out[:3]
    def termination(self, backs, heads, cmps):
        m = self.m
        inst = self.fr.blocks[self.sh.header][-1]
        if not backs: m.ob('term', True, inst, self.st0, 'loop terminates'); return
        pool = []
        for d in cmps:
            for q in (d, d + 1, -d, -d + 1, d - 1, -d - 1):
                if q not in pool and self.headonly2(q) and not self.vdeps().isdisjoint(q.deps()): pool.append(q)
        for sid in self.gens():
            for q in (self.symof(sid), -self.symof(sid)): pool.append(q)
        for sid, h in self.ints.items():
            if h[0] == 'iv' and not isinstance(self.v0[sid], Ptr): pool.append(self.form(sid))
        for q in pool[:200]:
            if all(h.prove_ge(q) for h, _, _ in heads):
                ok = True
                for s, e, s1, _, _ in backs:
                    try:
                        if not s.prove_ge(q - subst(q, self.snap(s, e)) - 1): ok = False; break
                    except NonAffine: ok = False; break
                if ok:
                    m.ob('term', True, inst, self.st0, 'loop terminates'); return
        m.ob('term', False, inst, self.st0, 'loop terminates', lambda: 'no decreasing measure found among %d candidates' % len(pool))
    def describe(self):
        r = []
        for sid, h in self.ints.items():
            if h[0] == 'iv': r.append('%s=%s' % (sname(sid), self.form(sid)))
            if h[0] == 'gen': r.append('%s:%s[%s,%s]' % (sname(sid), self.form(sid), self.lo.get(sid), self.hi.get(sid)))
        for bk, c in self.content.items():
            if c[0] != 'same': r.append('%s %s' % (sname(bk), c))
        return '; '.join(r)

def sname(s):
    return str(s)

def unit_(p):
    """monomial without its numeric coefficient"""
    (m, c), = p.t.items()
    return mono(m)
def merge_eqs(a, b):
    r = list(a)
    for x in b:
        if x not in r: r.append(x)
    return r

def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, FP): return a.expr == b.expr
    if isinstance(a, Agg): return True
    return a == b

def mdivp(a, b):
    """quotient of two single-monomial polys as a poly, or None"""
    (m1, c1), = a.t.items(); (m2, c2), = b.t.items()
    at = dict(m1[0])
    for x, p in m2[0]:
        v = at.get(x, 0) - p
        if v < 0: return None
        if v: at[x] = v
        elif x in at: del at[x]
    ex = dict(m1[1])
    for x, k in m2[1]:
        v = ex.get(x, 0) - k
        if v: ex[x] = v
        elif x in ex: del ex[x]
    return Poly({(tuple(sorted(at.items())), tuple(sorted(ex.items()))): 1})

def nullspace(rows, n):
    """basis of {v : row . v = 0 for all rows}, sparse dict vectors"""
    piv = {}     # pivot col -> row dict normalised
    for r in rows:
        r = {c: Fraction(v) for c, v in r.items() if v}
        # reduce
        for c in sorted(r):
            if c in piv and r.get(c):
                f = r[c]
                for k, v in piv[c].items():
                    nv = r.get(k, 0) - f * v
                    if nv: r[k] = nv
                    else: r.pop(k, None)
        r = {c: v for c, v in r.items() if v}
        # after substitution new pivot columns may appear
        again = True
        while again and r:
            again = False
            for c in list(r):
                if c in piv:
                    f = r[c]
                    for k, v in piv[c].items():
                        nv = r.get(k, 0) - f * v
                        if nv: r[k] = nv
                        else: r.pop(k, None)
                    again = True; break
        if not r: continue
        # choose the last column as pivot so that the early (plain) columns stay free
        p = max(r)
        f = r[p]
        r = {k: v / f for k, v in r.items()}
        for q, row in piv.items():
            if p in row:
                g = row[p]
                for k, v in r.items():
                    nv = row.get(k, 0) - g * v
                    if nv: row[k] = nv
                    else: row.pop(k, None)
        piv[p] = r
    out = []
    for c in range(n):
        if c in piv: continue
        v = {c: Fraction(1)}
        for p, row in piv.items():
            if c in row: v[p] = -row[c]
        l = 1
        from math import gcd
        for x in v.values(): l = l * x.denominator // gcd(l, x.denominator)
        out.append({k: int(x * l) for k, x in v.items()})
    return out
