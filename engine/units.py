"""The public operations of BigInteger with their specifications, as cases over the representation classes of the operands."""
from spec import *
from spec import UNITS

BIGCASES = ('s', '+1', '-1', '+n', '-n')
def pairs(cs=BIGCASES): return [(a, b) for a in cs for b in cs]
def triples(cs=BIGCASES): return [(a, b, c) for a in cs for b in cs for c in cs]

RETOBJ = 'ret'
def simple(ctx, ret, val, frame=(), what='result', allowed=(), target=None):
    """standard postcondition: result object at ret has the value val; operands in frame unchanged"""
    def post(ctx, ck, o):
        if o.kind == 'throw':
            throws(ctx, ck, o, allowed)
            if not o.st.infeasible():
                expect_unchanged(ctx, ck, o, [n for n in ctx.objs])
            leak(ctx, ck, o)
            return
        expect_value(ctx, ck, o, ret, val(o.st) if callable(val) and getattr(val, 'perstate', False) else val, what)
        expect_unchanged(ctx, ck, o, frame)
        leak(ctx, ck, o)
    return post

def leak(ctx, ck, o):
    st = o.st
    owned = {v.buf for _, v in st.cells.values() if isinstance(v, Vec)}
    bad = [b for b in st.bufs if b not in owned and b not in getattr(ctx, 'extern', ())]
    ck.add('leak', not bad, 'no storage is lost', bad and 'lost: %s' % [(st.tags.get(('heap', b)) or b) for b in bad])

def binop_free(name, fn, value, props, cs=None):
    """BigInteger op(BigInteger lhs, const BigInteger& rhs)"""
    def setup(ctx, case):
        a = ctx.big('lhs', case[0]); b = ctx.big('rhs', case[1]); r = ctx.obj(RETOBJ)
        return [r, a.ptr, b.ptr], simple(ctx, r, value(a.val, b.val), ('rhs',))
    unit(name, fn, cs or pairs(), setup, props)
def binop_self(name, fn, value, props, cs=None, alias=True):
    """BigInteger& BigInteger::op=(const BigInteger&), also with both operands the same object"""
    def setup(ctx, case):
        if case[0] == '=':
            a = ctx.big('x', case[1])
            return [a.ptr, a.ptr], simple(ctx, a.ptr, value(a.val, a.val), ())
        a = ctx.big('lhs', case[0]); b = ctx.big('rhs', case[1])
        return [a.ptr, b.ptr], simple(ctx, a.ptr, value(a.val, b.val), ('rhs',))
    unit(name, fn, (cs or pairs()) + ([('=', c) for c in BIGCASES] if alias else []), setup, props)
def binop_static(name, fn, value, props, cs=None, alias=True):
    """static BigInteger BigInteger::f(BigInteger&, const BigInteger&)"""
    def setup(ctx, case):
        r = ctx.obj(RETOBJ)
        if case[0] == '=':
            a = ctx.big('x', case[1])
            return [r, a.ptr, a.ptr], simple(ctx, r, value(a.val, a.val), ('x',))
        a = ctx.big('lhs', case[0]); b = ctx.big('rhs', case[1])
        return [r, a.ptr, b.ptr], simple(ctx, r, value(a.val, b.val), ('lhs', 'rhs'))
    unit(name, fn, (cs or pairs()) + ([('=', c) for c in BIGCASES] if alias else []), setup, props)
def unop(name, fn, value, props, cs=BIGCASES, static=False, frame=True):
    def setup(ctx, case):
        a = ctx.big('x', case); r = ctx.obj(RETOBJ)
        return [r, a.ptr], simple(ctx, r, value(a.val), ('x',) if frame else ())
    unit(name, fn, list(cs), setup, props)

ADD = lambda x, y: x + y
SUB = lambda x, y: x - y
MUL = lambda x, y: x * y
B = 'BigInteger::'
binop_self('op+=', B + 'operator+=(BigInteger const&)', ADD, ('C03',))
binop_self('op-=', B + 'operator-=(BigInteger const&)', SUB, ('C03',))
binop_free('op+', 'operator+(BigInteger, BigInteger const&)', ADD, ('C03',))
binop_free('op-', 'operator-(BigInteger, BigInteger const&)', SUB, ('C03',))
binop_static('add', B + 'add(BigInteger&, BigInteger const&)', ADD, ('C03',))
binop_static('subtract', B + 'subtract(BigInteger&, BigInteger const&)', SUB, ('C03',))
unop('neg', B + 'operator-()', lambda x: -x, ('C03',))
unop('pos', B + 'operator+()', lambda x: x, ('C03',))
unop('negate', B + 'negate(BigInteger const&)', lambda x: -x, ('C03',))
def incdec(name, fn, d, post):
    def setup(ctx, case):
        a = ctx.big('x', case)
        if post:
            r = ctx.obj(RETOBJ)
            def chk(ctx, ck, o):
                if o.kind == 'throw': throws(ctx, ck, o); return
                expect_value(ctx, ck, o, r, a.val, 'previous value'); expect_value(ctx, ck, o, a.ptr, a.val + d, 'object')
                leak(ctx, ck, o)
            return [r, a.ptr, ZERO], chk
        return [a.ptr], simple(ctx, a.ptr, a.val + d, ())
    unit(name, fn, list(BIGCASES), setup, ('C03',))
incdec('preinc', B + 'operator++()', 1, False); incdec('predec', B + 'operator--()', -1, False)
incdec('postinc', B + 'operator++(int)', 1, True); incdec('postdec', B + 'operator--(int)', -1, True)

binop_self('op*=', B + 'operator*=(BigInteger const&)', MUL, ('C04',))
binop_free('op*', 'operator*(BigInteger, BigInteger const&)', MUL, ('C04',))
binop_static('multiply', B + 'multiply(BigInteger&, BigInteger const&)', MUL, ('C04',))

# ---------------------------------------------------------------- construction
def ctor(name, sig, lo, hi, props, val=None):
    def setup(ctx, case):
        r = ctx.obj(RETOBJ); x = fresh('v', lo, hi, 0)
        return [r, x], simple(ctx, r, x, ())
    unit(name, B + 'BigInteger(%s)' % sig, ['any'], setup, props)
ctor('ctor.int', 'int', -(1 << 31), (1 << 31) - 1, ('C14',)); ctor('ctor.uint', 'unsigned int', 0, (1 << 32) - 1, ('C14',))
ctor('ctor.long', 'long', -(1 << 63), (1 << 63) - 1, ('C14',)); ctor('ctor.ulong', 'unsigned long', 0, (1 << 64) - 1, ('C14',))
def c_default(ctx, case):
    r = ctx.obj(RETOBJ)
    return [r], simple(ctx, r, ZERO, ())
unit('ctor.default', B + 'BigInteger()', ['any'], c_default, ('C23',))
for nm, v in (('zero', 0), ('one', 1), ('minus_one', -1), ('min_int', -(1 << 31))):
    def c_const(ctx, case, v=v):
        r = ctx.obj(RETOBJ)
        return [r], simple(ctx, r, const(v), ())
    unit('const.' + nm, B + nm + '()', ['any'], c_const, ('C23',))
def c_copy(ctx, case):
    r = ctx.obj(RETOBJ); a = ctx.big('x', case)
    return [r, a.ptr], simple(ctx, r, a.val, ('x',))
unit('ctor.copy', B + 'BigInteger(BigInteger const&)', list(BIGCASES), c_copy, ('C18',))
def c_assign(ctx, case):
    if case[0] == '=':
        a = ctx.big('x', case[1]); return [a.ptr, a.ptr], simple(ctx, a.ptr, a.val, ())
    a = ctx.big('lhs', case[0]); b = ctx.big('rhs', case[1])
    return [a.ptr, b.ptr], simple(ctx, a.ptr, b.val, ('rhs',))
unit('assign', B + 'operator=(BigInteger const&)', pairs() + [('=', c) for c in BIGCASES], c_assign, ('C18',))

# ---------------------------------------------------------------- comparison, sign, queries
def cmp3(name, fn, props, static=False):
    def setup(ctx, case):
        if case[0] == '=': a = b = ctx.big('x', case[1])
        else: a = ctx.big('lhs', case[0]); b = ctx.big('rhs', case[1])
        def post(ctx, ck, o):
            from kernels import ret_cmp
            ret_cmp(ctx, ck, o, a.val - b.val, 'three-way comparison')
            if o.kind == 'ret': expect_unchanged(ctx, ck, o, list(ctx.objs)); leak(ctx, ck, o)
        return [a.ptr, b.ptr], post
    unit(name, fn, pairs() + [('=', c) for c in BIGCASES], setup, props)
cmp3('compare_to', B + 'compare_to(BigInteger const&) const', ('C13',))
cmp3('Compare', 'Compare(BigInteger&, BigInteger&)', ('C13',))
def boolfn(name, fn, pred, props, two=True):
    """pred(a, b) -> list of (poly, kind): truth of the result as a condition: kind 'ge' poly>=0, 'eq' poly==0, negated with '!'"""
    def setup(ctx, case):
        if two and case[0] == '=': a = b = ctx.big('x', case[1]); args = [a.ptr, a.ptr]
        elif two: a = ctx.big('lhs', case[0]); b = ctx.big('rhs', case[1]); args = [a.ptr, b.ptr]
        else: a = b = ctx.big('x', case); args = [a.ptr]
        p, kind = pred(a.val, b.val)
        ctx.st.ghost['d'] = p
        def post(ctx, ck, o):
            if o.kind != 'ret': return throws(ctx, ck, o)
            for s, t in truth(ctx.m, o.st, o.val):
                neg = kind[0] == '!'; k = kind.lstrip('!'); want = t != neg
                d = s.norm(p)
                if k == 'ge': ok = s.prove_ge(d) if want else s.prove_ge(-d - 1)
                else: ok = s.prove_eq(d) if want else s.prove_ne(d)
                if not ok and s.infeasible(): continue
                if not ok and ctx.m.debug: dump(s)
                ck.add('value', ok, 'truth value', None if ok else 'returns %s although %s; %s' % (t, 'that does not follow for the difference %s' % d, show(s, ctx)))
            expect_unchanged(ctx, ck, o, list(ctx.objs)); leak(ctx, ck, o)
        return args, post
    unit(name, fn, pairs() + [('=', c) for c in BIGCASES] if two else list(BIGCASES), setup, props)
boolfn('equals', B + 'equals(BigInteger const&) const', lambda a, b: (a - b, 'eq'), ('C13',))
for nm, f in (('lt', lambda a, b: (b - a - 1, 'ge')), ('gt', lambda a, b: (a - b - 1, 'ge')), ('le', lambda a, b: (b - a, 'ge')), ('ge', lambda a, b: (a - b, 'ge')),
              ('eq', lambda a, b: (a - b, 'eq')), ('ne', lambda a, b: (a - b, '!eq'))):
    boolfn('cmp.' + nm, 'vp_' + nm, f, ('C13',))
boolfn('is_zero', B + 'is_zero() const', lambda a, b: (a, 'eq'), ('C23',), two=False)
boolfn('is_one', B + 'is_one() const', lambda a, b: (a - 1, 'eq'), ('C23',), two=False)
def lowdigit(a):
    """a number congruent to a modulo every power of two up to 2^32"""
    for x in a.atoms():
        if ATOMS[x].kind == 'P': return E(ATOMS[x].a[0], ZERO)
    return a
def even_pred(a, b):
    a = lowdigit(a)
    return (a - fd(a, const(2)).scale(2), 'eq')
boolfn('is_even', B + 'is_even() const', even_pred, ('C23',), two=False)
def signof(name, fn):
    def setup(ctx, case):
        a = ctx.big('x', case)
        def post(ctx, ck, o):
            from kernels import ret_cmp
            ret_cmp(ctx, ck, o, a.val, 'sign')
            if o.kind == 'ret':
                r = ctx.m.sgn(o.st, o.val, 32)
                ck.add('value', o.st.prove_ge(r + 1) and o.st.prove_ge(-r + 1), 'sign is -1, 0 or 1')
                expect_unchanged(ctx, ck, o, ['x'])
        return [a.ptr], post
    unit(name, fn, list(BIGCASES), setup, ('C23',))
signof('sign', B + 'sign() const')
def absu(ctx, case):
    a = ctx.big('x', case); r = ctx.obj(RETOBJ)
    v = a.val if case in ('s+', 's0', '+1', '+n') else -a.val
    return [r, a.ptr], simple(ctx, r, v, ('x',))
unit('abs', B + 'abs(BigInteger&)', ['s+', 's-', 's0', '+1', '-1', '+n', '-n'], absu, ('C23',))

# ---------------------------------------------------------------- division
ABSCASES = ('s+', 's-', 's0', '+1', '-1', '+n', '-n')
def mag(a, case): return a.val if '+' in case or case == 's0' else -a.val
def sg(case): return -1 if '-' in case else 1
def quot_ok(s, A, Bv, q, r, sa, sb):
    """q, r are the truncated quotient and remainder of sa*A by sb*B (magnitudes A, B)"""
    if q is not None and r is not None:
        if not s.prove_eq(s.norm((q * Bv).scale(sb) + r - A.scale(sa))): return 'q*b+r differs from a'
    if r is None: r = s.norm(A.scale(sa) - (q * Bv).scale(sb))
    m = s.norm(r.scale(sa))           # 0 <= m < B
    if not s.prove_ge(m): return 'remainder has the wrong sign'
    if not s.prove_ge(s.norm(Bv - 1 - m)): return 'remainder is not smaller than the divisor'
    if q is None:
        # congruence: the difference is a multiple of the divisor
        from annot import exact
        c = fd(A, Bv)
        if exact(s, A - m, Bv) is not None: return None
        for cand in [ZERO, s.norm(c)] + [s.norm(var(a)) for a in s.norm(A - m).atoms() if ATOMS[a].kind == 'FD']:
            if s.prove_eq(s.norm(A - m - cand * Bv)): return None
        return 'dividend and remainder are not congruent: %s' % s.norm(A - m)
    return None
def division(name, fn, kind, form, props, cases=None):
    """kind 'q' | 'r'; form 'free' | 'self' | 'static'"""
    def setup(ctx, case):
        same = case[0] == '='
        if same: a = b = ctx.big('x', case[1]); ca = cb = case[1]
        else: a = ctx.big('lhs', case[0]); b = ctx.big('rhs', case[1]); ca, cb = case
        A, Bv = mag(a, ca), mag(b, cb); sa, sb = sg(ca), sg(cb)
        r = a.ptr if form == 'self' else ctx.obj(RETOBJ)
        args = [r, a.ptr, b.ptr] if form != 'self' else [a.ptr, b.ptr]
        frame = {'free': ['rhs'], 'self': [] if same else ['rhs'], 'static': ['x'] if same else ['lhs', 'rhs']}[form]
        def post(ctx, ck, o):
            if o.kind == 'throw':
                throws(ctx, ck, o, [('DivideByZero', lambda s: s.prove_eq(s.norm(b.val)))], 'throws exactly for a zero divisor')
                if not o.st.infeasible():
                    if form != 'free': expect_kept(ctx, ck, o, frame)
                    leak(ctx, ck, o)
                return
            if o.st.prove_eq(o.st.norm(b.val)):
                if not o.st.infeasible(): ck.add('throw', False, 'division by zero throws', show(o.st, ctx))
                return
            expect_pred(ctx, ck, o, r, lambda s, v: quot_ok(s, A, Bv, v if kind == 'q' else None, v if kind == 'r' else None, sa, sb), 'quotient' if kind == 'q' else 'remainder')
            expect_unchanged(ctx, ck, o, frame); leak(ctx, ck, o)
        return args, post
    unit(name, fn, pairs(ABSCASES) + ([('=', c) for c in ABSCASES] if form != 'free' else []), setup, props)
for nm, k, op in (('/', 'q', 'divide'), ('%', 'r', 'remainder')):
    division('op' + nm + '=', B + 'operator%s=(BigInteger const&)' % nm, k, 'self', ('C05',))
    division('op' + nm, 'operator%s(BigInteger, BigInteger const&)' % nm, k, 'free', ('C05',))
    division(op, B + op + '(BigInteger&, BigInteger const&)', k, 'static', ('C05',))
def divrem(ctx, case):
    """quotient returned, remainder stored; '=a' remainder object is the dividend, '=b' the divisor, '==' one object for both operands"""
    ca, cb, al = case
    a = ctx.big('lhs', ca)
    b = a if al[:2] == '==' else ctx.big('rhs', cb)
    rem = {'': None, '=a': a, '=b': b, '==': None, '===': a}[al]
    if rem is None: rem = ctx.big('rem', 's')
    q = ctx.obj(RETOBJ)
    A, Bv = mag(a, ca), mag(b, cb); sa, sb = sg(ca), sg(cb)
    frame = [n for n, x in ctx.objs.items() if x is not rem]
    def post(ctx, ck, o):
        if o.kind == 'throw':
            throws(ctx, ck, o, [('DivideByZero', lambda s: s.prove_eq(s.norm(b.val)))], 'throws exactly for a zero divisor')
            if not o.st.infeasible(): expect_kept(ctx, ck, o, frame); leak(ctx, ck, o)
            return
        if o.st.prove_eq(o.st.norm(b.val)):
            if not o.st.infeasible(): ck.add('throw', False, 'division by zero throws', show(o.st, ctx))
            return
        for s, v, prob in read_big(ctx.m, o.st, q):
            if prob is not None and s.infeasible(): continue
            ck.add('canon', prob is None, 'quotient is canonical', prob)
            if v is None: ck.add('value', False, 'quotient has a determined value'); continue
            for s2, w, prob in read_big(ctx.m, s, rem.ptr):
                if prob is not None and s2.infeasible(): continue
                ck.add('canon', prob is None, 'remainder is canonical', prob)
                if w is None: ck.add('value', False, 'remainder has a determined value'); continue
                e = quot_ok(s2, A, Bv, s2.norm(v), s2.norm(w), sa, sb)
                if e and s2.infeasible(): continue
                ck.add('value', e is None, 'quotient and remainder', e and '%s: q=%s r=%s; %s' % (e, s2.norm(v), s2.norm(w), show(s2, ctx)))
        expect_unchanged(ctx, ck, o, frame); leak(ctx, ck, o)
    return [q, a.ptr, b.ptr, rem.ptr], post
unit('div_rem', B + 'div_rem(BigInteger&, BigInteger&, BigInteger&)', [(a, b, '') for a in ABSCASES for b in ABSCASES] + [(a, b, x) for a in ABSCASES for b in ABSCASES for x in ('=a', '=b')]
     + [(a, a, x) for a in ABSCASES for x in ('==', '===')], divrem, ('C05',))
