"""Text."""
from spec import *
from interp import AnalysisError
from units import unit, simple, leak, B
from annot2 import Parse

def textarg(ctx, first):
    """text of any length and content; first: class of its first character"""
    st = ctx.st
    n = ZERO if first == 'empty' else fresh('len', 1, NMAX, 0)
    arr = Arr('text', 8)
    base = ('o', ('arg', 'text')); st.alive.add(base)
    b = ctx.m.newbuf(st, n, 1, [(ZERO, n, E(arr, BETA))] if first != 'empty' else [(ZERO, ZERO, ZERO)], 'str')
    st.cells[(base, 0)] = (24, Vec(b)); ctx.extern = {b}
    o = Big('text', base, None, None, n, arr, b, st); o.cells = {(base, 0): st.cells[(base, 0)]}; o.bufv = st.bufs[b]
    ctx.objs['text'] = o
    if first != 'empty':
        c = E(arr, ZERO)
        if first in '-+': st.assume_eq(c - ord(first))
        elif first == 'digit': st.assume_ge(c - 48); st.assume_ge(57 - c)
        elif first == 'low': st.assume_ge(const(47) - c); st.assume_ne(c - 43); st.assume_ne(c - 45)
        else: st.assume_ge(c - 58)
    ctx.label.append('text %s' % first)
    return o, b
FIRST = ('empty', '-', '+', 'digit', 'low', 'high')
def parse(try_):
    def setup(ctx, case):
        o, sb = textarg(ctx, case[0])
        an = Parse(sb, o.n); ctx.m.annots = [an]
        if try_: t = ctx.big('result', case[1]); del ctx.objs['result']; r = t.ptr; args = [o.ptr, r]
        else: r = ctx.obj('ret'); args = [r, o.ptr]
        def post(ctx, ck, out):
            s = out.st
            if out.kind == 'throw': return throws(ctx, ck, out)
            g = s.tags.get(('parsed',))
            if g is None:
                if s.infeasible(): return
                if case[0] not in ('empty', 'low', 'high'): raise Unrecognised('no digit loop of the expected form')
                an.used = True
                expect_value(ctx, ck, out, r, ZERO, 'result'); expect_unchanged(ctx, ck, out, ['text']); leak(ctx, ck, out)
                return
            h, p, start = g
            want = 1 if case[0] in ('-', '+') else 0
            if not s.infeasible(): ck.add('value', s.prove_eq(s.norm(start - want)), 'digits start behind the sign', str(start))
            # the digits taken are the longest run
            for more, s2 in ctx.m.split_ge(s, s.norm(o.n - p - 1)):
                if s2.infeasible(): continue
                if more:
                    c = s2.norm(E(o.arr, p))
                    ok = all(t == 0 or s3.infeasible() or any(s4.infeasible() or not t4 for t4, s4 in ctx.m.split_ge(s3, const(57) - c)) and not any(t4 and not s4.infeasible() for t4, s4 in ctx.m.split_ge(s3, const(57) - c))
                             for t, s3 in ctx.m.split_ge(s2, c - 48))
                    ck.add('value', ok, 'the longest run of digits is read', None if ok else 'stops at %s' % c)
            s = out.st
            expect_value(ctx, ck, out, r, -h if case[0] == '-' else h, 'result')
            expect_unchanged(ctx, ck, out, ['text']); leak(ctx, ck, out)
            if try_:
                for s2, t in truth(ctx.m, s, out.val): ck.add('value', t or s2.infeasible(), 'try_parse reports success')
        return args, post
    return setup
unit('parse', B + 'parse(%s const&)' % S, [(f,) for f in FIRST], parse(False), ('C12',))
unit('try_parse', B + 'try_parse(%s const&, BigInteger&)' % S, [(f, c) for f in FIRST for c in ('s', '-1', '+n')], parse(True), ('C12',))

from annot2 import Text, BASE
def to_text(ctx, case):
    a = ctx.big('x', case); r = ctx.obj('ret')
    if a.arr is not None:
        an = Text(a.arr, a.n, a.buf); ctx.m.annots = [an]
    def post(ctx, ck, o):
        s = o.st; m = ctx.m
        if o.kind == 'throw': return throws(ctx, ck, o)
        if s.infeasible(): return
        expect_unchanged(ctx, ck, o, ['x']); leak(ctx, ck, o)
        v = s.cells.get((r.base, 0))
        if v is None or not isinstance(v[1], Vec) or v[1].buf not in s.bufs: ck.add('value', False, 'returns a text'); return
        if a.arr is None:
            t = s.tags.get(('dec', v[1].buf))
            if t is None: raise Unrecognised('text not determined')
            ck.add('value', s.prove_eq(s.norm(t - a.val)), 'text denotes the value', str(t)); return
        g = s.tags.get(('conv',)); x = s.tags.get(('txt',))
        if g is None or x is None or g[1] is None: raise Unrecognised('no conversion loops of the expected form')
        db, d, c, D = g; txt, i, lim = x
        buf = s.bufs[v[1].buf]
        sg = -1 if case[0] == '-' else 1
        ck.add('value', s.prove_eq(s.norm(D.scale(sg) - a.val)), 'all digits are converted', str(D))
        ck.add('value', s.prove_eq(s.norm(i - c + 1)), 'all groups of nine characters are written', str(i))
        low = i.scale(9)
        k = s.norm(buf.size - low).cval()
        neg = 1 if sg < 0 else 0
        if k is None or not neg < k <= 10: ck.add('value', False, 'length of the text', '%s; %s' % (s.norm(buf.size - low), show(s, ctx))); return
        end = s.norm(buf.size - low)
        if not s.prove_eq(low): ck.add('value', txt is not None and an.same(m, s, buf, end, buf.size, E(txt, BETA + lim - buf.size)), 'the lower groups are at the end', str(buf))
        y = an.numeral(m, s, buf, end, k - neg)
        ck.add('value', y is not None and s.prove_eq(s.norm(y - E(d, c - 1))), 'leading characters denote the leading group', str(y))
        if k - neg: 
            f = s.norm(inst_(m.seg_find(s, buf, const(neg))[0][1], buf, const(neg)))
            ck.add('value', s.prove_ge(f - 49), 'no leading zero', str(f))
        if neg:
            f = s.norm(inst_(m.seg_find(s, buf, ZERO)[0][1], buf, ZERO)); ck.add('value', s.prove_eq(f - 45), 'minus sign', str(f))
    return [r, a.ptr], post
unit('to_string', B + 'to_string[abi:cxx11]() const', [(c) for c in ('s', '+1', '-1', '+n', '-n')], to_text, ('C12',))
