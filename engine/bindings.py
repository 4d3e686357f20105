"""C24: every Python method of the binding table is evaluated to a term over its parameters (syntax tree of the
lambda, helpers and locals inlined) and compared with the operation of that name."""
import json, os, re, shutil, subprocess, tempfile
import extract
SRC = 'bindings/python/python-bindings.cpp'
FALLBACK_VERSION = '#pragma once\nstatic constexpr auto BIGINTEGERCPP_VERSION = "0";\n'
def layout(tmp):
    """copy of the binding source and the headers, with a version header when the build has not generated one"""
    shutil.copytree(os.path.join(extract.REPO, 'bindings'), os.path.join(tmp, 'bindings'))
    shutil.copytree(os.path.join(extract.REPO, 'include'), os.path.join(tmp, 'include'))
    v = os.path.join(tmp, 'include/public/bigintegercpp/version.h')
    if not os.path.exists(v): open(v, 'w').write(FALLBACK_VERSION)
    return os.path.join(tmp, SRC)
def pyflags():
    import glob
    pb = sorted(glob.glob('/opt/vp/venv/lib/python3*/site-packages/pybind11/include') + glob.glob('/usr/include/pybind11/..') + glob.glob('/usr/lib/python3*/*-packages/pybind11/include'))
    py = sorted(glob.glob('/usr/include/python3.*'))
    if not pb or not py: raise extract.ExtractError('pybind11 or Python headers not found')
    return ['-std=c++17', '-w', '-I' + pb[0]] + ['-I' + p for p in py[-1:]] + ['-I' + os.path.join(extract.REPO, 'include')]
def dump(src, flt):
    p = subprocess.run([extract.CXX] + pyflags() + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise extract.ExtractError('compiling the bindings failed:\n' + p.stderr[-2000:])
    dec = json.JSONDecoder(); s = p.stdout; i = 0; docs = []
    while True:
        while i < len(s) and s[i] in ' \n\t\r': i += 1
        if i >= len(s): break
        if s[i] != '{': i = s.index('\n', i); continue
        d, i = dec.raw_decode(s, i); docs.append(d)
    return docs

class Unknown(Exception): pass
BIN = {'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div', 'operator%': 'rem', 'operator&': 'and', 'operator|': 'or', 'operator^': 'xor', 'operator<<': 'shl', 'operator>>': 'shr',
       'operator<': 'lt', 'operator<=': 'le', 'operator>': 'gt', 'operator>=': 'ge', 'operator==': 'eq', 'operator!=': 'ne',
       'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'div', 'remainder': 'rem', 'pow': 'pow', 'mod_pow': 'modpow', 'compare_to': 'cmp', 'equals': 'eq', 'log': 'log', 'log10': 'log10',
       'max': 'max', 'min': 'min', 'greatest_common_divisor': 'gcd'}
UN = {'operator-': 'neg', 'operator+': 'pos', 'operator~': 'not', 'abs': 'abs', 'negate': 'neg', 'operator!': 'lnot', 'log': 'log', 'log10': 'log10'}
ASSIGN = {'operator+=': 'add', 'operator-=': 'sub', 'operator*=': 'mul', 'operator/=': 'div', 'operator%=': 'rem', 'operator&=': 'and', 'operator|=': 'or', 'operator^=': 'xor', 'operator<<=': 'shl', 'operator>>=': 'shr'}
COMM = {'add', 'mul', 'and', 'or', 'xor', 'eq', 'ne', 'max', 'min', 'gcd'}
PASS = {'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr'}

def norm(t):
    if not isinstance(t, tuple): return t
    t = tuple(norm(x) for x in t)
    h = t[0]
    if h == 'toint': return t[1]                       # a count or an exponent: narrowing checked by the conversion itself
    if h == 'pos': return t[1]
    if h in ('gt', 'ge') and len(t) == 3: return norm(({'gt': 'lt', 'ge': 'le'}[h], t[2], t[1]))
    if h in ('lt', 'le', 'eq', 'ne') and len(t) == 3:
        a, b = t[1], t[2]
        if isinstance(a, tuple) and a[0] == 'cmp' and b == ('lit', 0): return norm((h, a[1], a[2]))
        if isinstance(b, tuple) and b[0] == 'cmp' and a == ('lit', 0): return norm((h, b[2], b[1]))
    if h == 'lnot' and isinstance(t[1], tuple):
        x = t[1]
        r = {'lt': lambda: ('le', x[2], x[1]), 'le': lambda: ('lt', x[2], x[1]), 'eq': lambda: ('ne', x[1], x[2]), 'ne': lambda: ('eq', x[1], x[2]), 'lnot': lambda: x[1]}.get(x[0])
        if r: return norm(r())
    if h == 'pyint' and isinstance(t[1], tuple) and t[1][0] == 'pystr' and isinstance(t[1][1], tuple) and t[1][1][0] == 'to_string': return ('pyint', t[1][1][1])
    if h in COMM: t = (h,) + tuple(sorted(t[1:], key=repr))
    return t
def unknown(t): return isinstance(t, tuple) and (t[0] == '?' or any(unknown(x) for x in t))
def show(t):
    if not isinstance(t, tuple): return str(t)
    if t[0] == 'p': return 'arg%d' % t[1]
    if t[0] == 'lit': return str(t[1])
    return '%s(%s)' % (t[0], ', '.join(show(x) for x in t[1:]))

class Eval:
    def __init__(self, src): self.src = src; self.helpers = {}; self.effects = []
    def helper(self, name):
        if name not in self.helpers:
            r = []
            for d in dump(self.src, name):
                if d.get('kind') == 'FunctionTemplateDecl': r += [x for x in d.get('inner', ()) if x.get('kind') == 'FunctionDecl']
                if d.get('kind') in ('FunctionDecl', 'CXXMethodDecl'): r.append(d)
            self.helpers[name] = [d for d in r if d.get('name') == name and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', ()))]
        return self.helpers[name]
    def strip(self, n):
        while n.get('kind') in PASS and n.get('inner'): n = n['inner'][0]
        return n
    def ev(self, n, env):
        k = n.get('kind')
        if k in PASS:
            return self.ev(n['inner'][0], env)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'CXXUnresolvedConstructExpr'):
            ty = (n.get('type') or {}).get('qualType', '')
            a = [self.ev(x, env) for x in n.get('inner', ())]
            a = [x for x in a if x != ('default',)]
            return self.construct(ty, a)
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            if rd['id'] in env: return env[rd['id']]
            return ('?', rd.get('name'))
        if k in ('IntegerLiteral',): return ('lit', int(n['value']))
        if k == 'CXXBoolLiteralExpr': return ('lit', bool(n['value']))
        if k == 'StringLiteral': return ('str', n.get('value'))
        if k == 'CXXDefaultArgExpr': return ('default',)
        if k == 'UnaryOperator':
            op = n['opcode']; v = self.ev(n['inner'][0], env)
            if op == '!': return ('lnot', v)
            if op == '-': return ('lit', -v[1]) if v[0] == 'lit' else ('neg', v)
            if op == '*' : return v
            if op == '&': return v
            return ('?', op)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=':
                v = self.ev(n['inner'][1], env); self.assign(n['inner'][0], v, env); return v
            a, b = (self.ev(x, env) for x in n['inner'])
            m = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne', '+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr', '&&': 'land', '||': 'lor'}.get(op)
            return (m, a, b) if m else ('?', op)
        if k == 'ConditionalOperator':
            return self.cond(*[self.ev(x, env) for x in n['inner']])
        if k == 'CXXOperatorCallExpr':
            f = self.callee(n['inner'][0]); args = n['inner'][1:]
            if f in ASSIGN and len(args) == 2:
                v = (ASSIGN[f], self.ev(args[0], env), self.ev(args[1], env)); self.assign(args[0], v, env); return v
            if f == 'operator=' and len(args) == 2:
                v = self.ev(args[1], env); self.assign(args[0], v, env); return v
            if f in ('operator++', 'operator--') and len(args) == 1:
                v = ('add' if f.endswith('++') else 'sub', self.ev(args[0], env), ('lit', 1)); self.assign(args[0], v, env); return v
            a = [self.ev(x, env) for x in args]
            if len(a) == 2 and f in BIN: return (BIN[f], a[0], a[1])
            if len(a) == 1 and f in UN: return (UN[f], a[0])
            return ('?', f)
        if k == 'CXXMemberCallExpr':
            m = n['inner'][0]; name = m.get('name', ''); obj = m['inner'][0]; o = self.ev(obj, env)
            a = [self.ev(x, env) for x in n['inner'][1:]]
            return self.member(name, o, a, n)
        if k == 'CallExpr':
            f = self.callee(n['inner'][0]); args = n['inner'][1:]
            return self.call(f, args, env, n)
        if k == 'LambdaExpr': return ('lambda', n)
        if k == 'InitListExpr' and len(n.get('inner', ())) == 1: return self.ev(n['inner'][0], env)
        return ('?', k)
    def cond(self, c, a, b): return a if a == b else ('if', c, a, b)
    def assign(self, n, v, env):
        n = self.strip(n)
        if n.get('kind') == 'DeclRefExpr':
            i = n['referencedDecl']['id']; env[i] = v
            if i in env.get('refs', {}): self.effects.append((env['refs'][i], v))
        else: self.effects.append(('?', v))
    def callee(self, n):
        n = self.strip(n)
        if n.get('kind') == 'DeclRefExpr': return n['referencedDecl'].get('name', '?')
        if n.get('kind') == 'MemberExpr': return n.get('name', '?')
        return '?'
    def construct(self, ty, a):
        t = re.sub(r'\bconst\b|&|\s', '', ty).replace('pybind11::', 'py::')
        if t.endswith('BigInteger'):
            if not a: return ('lit', 0)
            if len(a) == 1: return a[0]
            return ('?', 'BigInteger')
        if t == 'py::int_' and len(a) == 1: return a[0] if a[0][0] in ('pyint', 'p') else ('pyint', a[0])
        if t == 'py::str' and len(a) == 1: return a[0] if a[0][0] == 'pystr' else ('pystr', a[0])
        if t == 'py::float_' and len(a) == 1: return a[0] if a[0][0] == 'float' else ('float', a[0])
        if t == 'py::bytes' and len(a) >= 1:
            return a[0] if a[0][0] == 'bytes' else ('bytes', a[0])
        if 'basic_string' in t or t in ('std::string', 'string'):
            if len(a) >= 2 and a[0][0] == 'begin' and a[1][0] == 'end' and a[0][1] == a[1][1]: return a[0][1]
            if len(a) == 1: return a[0]
        if t.startswith('std::vector') and len(a) == 1: return a[0]
        if 'iterator' in t and len(a) == 1: return a[0]
        if len(a) == 1 and a[0][0] in ('tuple', 'pyint', 'bytes', 'float', 'hash', 'bool'): return a[0]
        return ('?', ty)
    def member(self, name, o, a, n):
        a = [x for x in a if x != ('default',)]
        if name.startswith('operator '): return ('toint', o) if re.match(r'operator (unsigned )?(int|long|short)', name) else ('bool', o) if name == 'operator bool' else ('todouble', o) if name == 'operator double' else o
        if name == 'cast':
            ty = (n.get('type') or {}).get('qualType', '')
            return ('toint', o) if ty in ('int', 'long', 'int32_t', 'int64_t') else ('?', 'cast')
        if name in ASSIGN: return ('?', name)
        if name in BIN and len(a) == 1: return (BIN[name], o, a[0])
        if name in UN and not a: return (UN[name], o)
        if name == 'to_byte_array':
            a = a[:2] + [('lit', False)] * (2 - len(a))
            return ('to_byte_array', o, a[0], a[1])
        if name in ('begin', 'cbegin', 'end', 'cend'): return (name.lstrip('c'), o)
        return (name, o) + tuple(a)
    def call(self, f, args, env, n):
        if f == 'div_rem' and len(args) == 3:
            a, b = self.ev(args[0], env), self.ev(args[1], env)
            self.assign(args[2], ('rem', a, b), env); return ('div', a, b)
        if f in ('move', 'forward', 'as_const') and len(args) == 1: return self.ev(args[0], env)
        a = [self.ev(x, env) for x in args]; d = [x for x in a if x != ('default',)]
        if f == 'to_biginteger': return d[0] if len(d) == 1 or d[1] == ('lit', False) else ('?bigendian', d[0])
        if f == 'to_py_int':
            ok = all(x == w for x, w in zip(d[1:], (('lit', True), ('lit', False))))
            return ('pyint', d[0]) if ok else ('pyint_as', ) + tuple(d)
        if f == 'make_tuple': return ('tuple',) + tuple(d)
        if f == 'hash' and len(d) == 1: return ('hash', d[0])
        if f in BIN and len(d) >= 2: return (BIN[f],) + tuple(d)
        if f in UN and len(d) == 1: return (UN[f], d[0])
        if f in ('zero', 'one', 'minus_one') and not d: return ('lit', {'zero': 0, 'one': 1, 'minus_one': -1}[f])
        ty = (self.strip(n['inner'][0]).get('referencedDecl') or {}).get('type', {}).get('qualType')
        for h in self.helper(f):
            if h.get('type', {}).get('qualType') == ty or len(self.helper(f)) == 1:
                return self.body(h, a, env)
        return ('?', f)
    def body(self, fn, a, outer=None):
        env = {'refs': {}}
        ps = [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        for i, p in enumerate(ps):
            v = a[i] if i < len(a) else ('?', 'missing')
            if v == ('default',):
                v = self.ev(p['inner'][0], {}) if p.get('inner') else ('?', 'default')
            env[p['id']] = v
            q = p.get('type', {}).get('qualType', '')
            if '&' in q and 'const' not in q: env['refs'][p['id']] = v
        b = [c for c in fn['inner'] if c.get('kind') == 'CompoundStmt']
        r = self.block(b[-1], env)
        return r if r is not None else ('none',)
    def block(self, n, env):
        """term returned, None when control falls through, ('throw',) when it never returns"""
        k = n.get('kind')
        if k == 'CompoundStmt':
            for i, c in enumerate(n.get('inner', ())):
                if c.get('kind') == 'IfStmt':
                    parts = [x for x in c['inner']]
                    cnd = self.ev(parts[0], env)
                    e1 = dict(env); e2 = dict(env)
                    r1 = self.block(parts[1], e1); r2 = self.block(parts[2], e2) if len(parts) > 2 else None
                    rest = {'kind': 'CompoundStmt', 'inner': n['inner'][i + 1:]}
                    if r1 is None: r1 = self.block(rest, e1)
                    if r2 is None: r2 = self.block(rest, e2)
                    if r1 == ('throw',): return r2
                    if r2 == ('throw',): return r1
                    if r1 is None and r2 is None: return None
                    return self.cond(cnd, r1, r2)
                r = self.block(c, env)
                if r is not None: return r
            return None
        if k == 'DeclStmt':
            for d in n.get('inner', ()):
                if d.get('kind') == 'VarDecl':
                    init = [x for x in d.get('inner', ()) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                    env[d['id']] = self.ev(init[0], env) if init else ('?', 'uninitialised ' + d.get('name', ''))
                    q = d.get('type', {}).get('qualType', '')
                    if init and q.endswith('&') and 'const' not in q:
                        x = self.strip(init[0])
                        if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] in env['refs']: env['refs'][d['id']] = env['refs'][x['referencedDecl']['id']]
            return None
        if k == 'ReturnStmt': return self.ev(n['inner'][0], env) if n.get('inner') else ('none',)
        if k == 'CXXTryStmt': return self.block(n['inner'][0], env)
        if k == 'NullStmt': return None
        x = self.strip(n)
        if x.get('kind') == 'CXXThrowExpr': return ('throw',)
        v = self.ev(n, env)
        if k not in PASS and v[0] == '?' and k in ('ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt', 'CXXForRangeStmt', 'IfStmt'): return ('?', k)
        return None

def entries(docs):
    """(kind, python name, callable node, extra argument nodes, line)"""
    r = []
    def walk(n):
        if n.get('kind') == 'CXXMemberCallExpr':
            m = n['inner'][0]
            if m.get('kind') == 'MemberExpr' and m.get('name', '').startswith('def'):
                a = n['inner'][1:]
                nm = a[0] if a else {}
                while nm.get('inner'): nm = nm['inner'][0]
                if nm.get('kind') == 'StringLiteral': r.append((m['name'], json.loads(nm['value']), a[1], a[2:], n))
                elif m['name'] == 'def' and a: r.append((m['name'], '__init__', a[0], a[1:], n))
        for c in n.get('inner', ()):
            if isinstance(c, dict): walk(c)
    for d in docs: walk(d)
    return r
def find(n, kind):
    if n.get('kind') == kind: return n
    for c in n.get('inner', ()):
        x = find(c, kind)
        if x: return x
def findall(n, kind, out):
    if n.get('kind') == kind: out.append(n)
    for c in n.get('inner', ()): findall(c, kind, out)
    return out

P0, P1, P2 = ('p', 0), ('p', 1), ('p', 2)
OPS = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'mod': 'rem', 'truediv': 'div', 'floordiv': 'div', 'lshift': 'shl', 'rshift': 'shr', 'and': 'and', 'or': 'or', 'xor': 'xor', 'pow': 'pow'}
CMP = {'lt': 'lt', 'le': 'le', 'gt': 'gt', 'ge': 'ge', 'eq': 'eq', 'ne': 'ne'}
def expected(name, arity):
    """list of acceptable terms, or None when the method is not specified"""
    if name.startswith('__') and name.endswith('__'):
        b = name[2:-2]
        if b == 'pow' and arity == 3: return [('modpow', P0, P1, P2)]
        if b in OPS and arity == 2: return [(OPS[b], P0, P1)]
        if b[:1] == 'r' and b[1:] in OPS and arity == 2: return [('pyint', (OPS[b[1:]], P1, P0))]
        if b in CMP and arity == 2: return [(CMP[b], P0, P1)]
        if b == 'divmod': return [('tuple', ('div', P0, P1), ('rem', P0, P1))]
        if b == 'rdivmod': return [('tuple', ('pyint', ('div', P1, P0)), ('pyint', ('rem', P1, P0)))]
    return {'__neg__': [('neg', P0)], '__pos__': [P0], '__abs__': [('abs', P0)], '__invert__': [('not', P0)],
            '__bytes__': [('bytes', ('to_byte_array', P0, ('lit', False), ('lit', False)))], 'to_array': [('bytes', ('to_byte_array', P0, P1, P2))],
            '__int__': [('pyint', P0)], '__index__': [('pyint', P0)], '__float__': [('float', ('pyint', P0))], '__str__': [('to_string', P0)], '__repr__': None,
            '__copy__': [P0], '__deepcopy__': [P0], '__hash__': [('hash', ('pyint', P0))], '__bool__': [('lnot', ('is_zero', P0)), ('ne', P0, ('lit', 0))],
            'zero': [('zero',), ('lit', 0)], 'one': [('one',), ('lit', 1)], 'minus_one': [('minus_one',), ('lit', -1)], 'is_power_of_two': [('is_power_of_two', P0)], 'is_even': [('is_even', P0)],
            'is_zero': [('is_zero', P0)], 'is_one': [('is_one', P0)],
            'log': [('log', P0), ('log', P0, P1)][arity - 1:arity] if arity else None, 'log10': [('log10', P0)], 'get_bit_Length': [('get_bit_length', P0)], 'get_bit_length': [('get_bit_length', P0)], 'sign': [('sign', P0)]}.get(name)
KIND = (('B', re.compile(r'BigInteger')), ('I', re.compile(r'\bint_\b')))
def kindof(q): return next((k for k, r in KIND if r.search(q)), 'o')
BINARY = ('add', 'sub', 'mul', 'mod', 'truediv', 'floordiv', 'lshift', 'rshift', 'and', 'or', 'xor', 'pow', 'divmod')

HASHING = ('__hash__', '__int__', '__index__')
def c25(js): return c24(js, True)
def c24(js, conv=False):
    from structural import Report
    R = Report()
    tmp = tempfile.mkdtemp(prefix='vp-bind-')
    try:
        src = layout(tmp)
        docs = dump(src, 'pybind11_init_')
        E = Eval(src)
        seen = {}
        es = entries(docs)
        for kind, name, fn, extra, node in es:
            rng = node.get('range', {}).get('end', {})
            lam = find(fn, 'LambdaExpr')
            names = [json.loads(s['value']) for x in extra for s in findall(x, 'StringLiteral', []) if kindarg(x)]
            if name not in HASHING + ('__init__', '__eq__') if conv else name == '__init__': continue
            E.effects = []
            if lam is not None:
                meth = next(c for c in findall(lam, 'CXXMethodDecl', []) if c.get('name') == 'operator()')
                ps = [c for c in meth.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
                kinds = ''.join(kindof(p['type']['qualType']) for p in ps)
                ret = meth['type']['qualType'].split('(')[0].strip()
                t = norm(E.body(meth, [('p', i) for i in range(len(ps))]))
            else:
                ref = find(fn, 'DeclRefExpr')
                if ref is None: R.und.append({'method': name, 'reason': 'callable not recognised'}); continue
                d = ref['referencedDecl']; q = d['type']['qualType']
                static = kind.startswith('def_static')
                nargs = 0 if re.search(r'\(\s*(void)?\s*\)', q) else q.count(',') + 1
                kinds = '' if static else 'B'
                kinds += 'B' * nargs if static else 'o' * nargs
                fnm = d.get('name'); a = tuple(('p', i) for i in range(len(kinds)))
                ret = q.split('(')[0].strip()
                t = norm((BIN.get(fnm) if len(a) >= 2 and fnm in BIN else UN.get(fnm) if len(a) == 1 and fnm in UN else fnm,) + a)
            seen.setdefault(name, []).append((kinds, t, ret))
            if name == '__init__' and kinds != 'I': continue           # construction from a buffer: analysed in the IR
            exp = [P0] if name == '__init__' else expected(name, len(kinds))
            if exp is None: R.und.append({'method': name, 'reason': 'not specified'}); continue
            key = 'method|%s|%s' % (name, kinds)
            R.fns.add('Python %s(%s)' % (name, kinds))
            if name in ('__deepcopy__',): t2 = [t]
            if any(norm(x) == t for x in exp): R.add(True, key, '')
            elif unknown(t): R.und.append({'method': name, 'overload': kinds, 'reason': 'term not fully known: ' + show(t)[:200]})
            else: R.add(False, key, 'Python method %s (parameters %s) computes %s, not %s' % (name, kinds, show(t), ' or '.join(show(x) for x in exp)), {'method': name, 'term': repr(t)})
            for who, v in E.effects:
                if isinstance(who, tuple) and who[0] == 'p': R.add(False, 'effect|%s|%s' % (name, kinds), 'Python method %s (parameters %s) changes its operand %s' % (name, kinds, show(who)))
            if name.startswith('__') and name[2:-2] in BINARY and name != '__divmod__' and not unknown(t):
                R.add('BigInteger' in ret, 'type|' + key, 'Python method %s (parameters %s) returns %s, not a BigInteger' % (name, kinds, ret))
            if name == 'to_array':
                R.add(names[:2] == ['is_unsigned', 'is_bigendian'], 'args|to_array', 'the parameters of to_array are named %s in this order' % names)
            if name == 'log' and len(kinds) == 2: R.add(names[:2] == ['value', 'base_value'], 'args|log|' + kinds, 'the parameters of log are named %s in this order' % names)
        if conv:
            for n in HASHING + ('__init__',): R.add(n in seen, 'missing|' + n, 'the Python method %s is missing' % n)
            return R.out()
        have = {(n, k) for n, l in seen.items() for k, _, _ in l}
        for b in BINARY:
            for k in ('BB', 'BI'):
                R.add(('__%s__' % b, k) in have, 'overload|__%s__|%s' % (b, k), 'the Python operator __%s__ has no overload for (%s)' % (b, ', '.join({'B': 'BigInteger', 'I': 'int'}[c] for c in k)))
            R.add(('__r%s__' % b, 'BI') in have, 'overload|__r%s__|BI' % b, 'the Python operator __r%s__ has no overload for an int left operand' % b)
        for b in ('lt', 'le', 'gt', 'ge', 'eq'):
            for k in ('BB', 'BI'): R.add(('__%s__' % b, k) in have, 'overload|__%s__|%s' % (b, k), 'the Python comparison __%s__ has no overload for %s' % (b, k))
        for k in ('BBB', 'BIB', 'BBI', 'BII'): R.add(('__pow__', k) in have, 'overload|__pow__|' + k, 'the three-argument __pow__ has no overload for %s' % k)
        for n in ('__neg__', '__pos__', '__abs__', '__invert__', '__int__', '__index__', '__float__', '__str__', '__hash__', '__bytes__', 'to_array', 'zero', 'one', 'minus_one'):
            R.add(n in seen, 'missing|' + n, 'the Python method %s is missing' % n)
        R.samples.append({'methods': len(seen), 'overloads': len(have)})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return R.out()
def kindarg(x):
    q = (x.get('type') or {}).get('qualType', '')
    return 'arg' in q
