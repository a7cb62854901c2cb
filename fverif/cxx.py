"""C++ front end: clang's AST (JSON) of the real sources, translated
mechanically into the same intermediate form as the Fortran front end.

The preprocessor runs with NDEBUG (assert() is dropped).  Anything outside the
subset raises Unsupported and the function is reported as out of reach."""
import json, os, re, subprocess
from fractions import Fraction
from fparse import Unit, Var, Stmt, FError, Unsupported, desugar_block, lower_loops, strip_ret
import build, stubgen

SRC = os.path.join(build.REPO, 'source')
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
ONE = ('num', Fraction(1), 'I')
ZERO = ('num', Fraction(0), 'I')
WRAP = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
        'SubstNonTypeTemplateParmExpr', 'FullExpr'}
CASTS = {'ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr'}
MATH = {'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'acos', 'asin', 'atan', 'fabs', 'abs', 'pow',
        'max', 'min', 'atan2', 'isnan', 'fmax', 'fmin'}


def flags(dim):
    return ['-std=c++17', '-DNDEBUG', '-DNDIM=%d' % dim, '-I' + STUBS, '-I' + stubgen.directory(), '-I' + SRC, '-I' + os.path.join(SRC, 'fortran'), '-w',
            '-Wno-everything']


def dump(path, dim, filt):
    r = subprocess.run(['clang++', *flags(dim), '-fsyntax-only', '-ferror-limit=0', '-Xclang', '-ast-dump=json', '-Xclang',
                        '-ast-dump-filter=' + filt, path], capture_output=True, text=True)
    out, i, s = [], 0, r.stdout
    dec = json.JSONDecoder()
    while True:
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            break
        o, i = dec.raw_decode(s, i)
        out.append(o)
    if r.returncode:
        raise FError('clang: ' + r.stderr[:600])
    return out


def inner(n):
    return [c for c in n.get('inner', []) if c.get('kind')]


def body_of(fn):
    for c in inner(fn):
        if c['kind'] == 'CompoundStmt':
            return c
    return None


def ctype(q):
    """'double' / 'int' ... -> (letter, is_pointer, is_reference)"""
    q = re.sub(r'\bconst\b', '', q).strip()
    ref = q.endswith('&')
    q = q.rstrip('&').strip()
    ptr = q.endswith('*')
    q = q.rstrip('*').strip()
    t = {'double': 'R', 'float': 'R', 'int': 'I', 'short': 'I', 'long': 'I', 'unsigned int': 'I', 'unsigned long': 'I',
         'size_t': 'I', 'unsigned': 'I', 'bool': 'L', 'std::size_t': 'I', 'unsigned short': 'I'}.get(q)
    return t, ptr, ref


SCAL = {'double': 'R', 'int': 'I', 'short': 'I', 'unsigned int': 'I', 'bool': 'L'}


def vtype(q, tu=None):
    """element type and rank of an array-like type: (letter, rank, pair?) with
    rank counting the std::vector levels; None for other types"""
    q = re.sub(r'\bconst\b', '', q).strip().rstrip('&').strip()
    rank = 0
    while True:
        m = re.match(r'^(?:std::)?vector<(.*)>$', q)
        if not m:
            break
        q = re.sub(r',\s*(?:std::)?allocator<.*>\s*$', '', m.group(1)).strip()
        rank += 1
    pair = False
    if re.match(r'^(?:double_pair|(?:std::)?pair<double, double>)$', q):
        q, pair = 'double', True
    if q not in SCAL or (rank == 0 and not pair):
        return None
    return SCAL[q], rank, pair


class Fn:
    """translation of one function definition"""

    def __init__(self, node, name, tu, cls=None):
        self.node, self.tu, self.cls = node, tu, cls
        self.u = Unit('function', name, [])
        self.u.vecobj = {}
        self.names = {}            # clang decl id -> variable name
        self.members = {}
        self.msize = {}
        self.ntmp = 0
        self.byval = {}
        self.vecs = {}             # variable -> (vector levels, pair?)
        self.objs = {}             # parameter -> class of a vector of objects

    # -------------------------------------------------- variables
    def newvar(self, base, typ, dims=None):
        n, k = base.lower(), 0
        while n in self.u.vars:
            k += 1
            n = '%s_%d' % (base.lower(), k)
        v = self.u.var(n)
        v.type, v.dims = typ, dims
        return n

    def member(self, name, q):
        n = 'this_' + name.lower()
        if n not in self.u.vars:
            t, ptr, ref = ctype(q)
            dims = None
            m = re.match(r'^(?:const )?(double|int) ?\[(\d+)\]$', q)
            m2 = vtype(q)
            if m:
                t, dims = {'double': 'R', 'int': 'I'}[m.group(1)], [(ZERO, ('num', Fraction(int(m.group(2)) - 1), 'I'))]
            elif m2:
                t, dims = self.vector(n, m2)
            elif ptr:
                dims = [(ZERO, None)]
            if m:
                self.msize[n] = int(m.group(2))
            if t is None and self.tu.isenum(q):
                t = 'I'
            if t is None:
                raise Unsupported('member %s of type %s' % (name, q))
            v = self.u.var(n)
            v.type, v.dims = t, dims
            self.members[n] = name
        return n

    def vector(self, n, m2):
        """dimensions of a vector (of vectors) of scalars or pairs; the sizes
        are pseudo members (rectangular)"""
        t, rank, pair = m2
        dims = []
        for r in range(rank):
            z = '%s__n%d' % (n, r)
            if z not in self.u.vars:
                v = self.u.var(z)
                v.type, v.dims = 'I', None
                self.members[z] = None
            dims.append((ZERO, ('bin', '-', ('name', z), ONE)))
        if pair:
            dims.append((ZERO, ONE))
        self.vecs[n] = (rank, pair)
        return t, dims

    def translate(self):
        fn, u = self.node, self.u
        rt = fn['type']['qualType'].split('(')[0].strip()
        t, ptr, ref = ctype(rt)
        if rt == 'void':
            u.kind = 'subroutine'
        else:
            if t is None or ptr:
                raise Unsupported('return type ' + rt)
            u.result = '<ret>'
            u.var('<ret>').type = t
        params = [c for c in inner(fn) if c['kind'] == 'ParmVarDecl']
        for p in params:
            q = p['type'].get('desugaredQualType', p['type']['qualType'])
            t, ptr, ref = ctype(q)
            m2 = vtype(q)
            m3 = re.match(r'^(?:const )?(?:std::)?vector<(\w+)(?:, .*)?> ?&$', q)
            dims = None
            if m2:
                t = m2[0]
            elif m3 and t is None:
                self.objs[p['id']] = (p['name'].lower(), m3.group(1))
                u.vecobj[p['name'].lower()] = m3.group(1)
                continue
            elif ptr:
                dims = [(ZERO, None)]
            if t is None and self.tu.isenum(q):
                t = 'I'
            if t is None:
                raise Unsupported('parameter of type ' + q)
            n = self.newvar(p.get('name') or 'unused', t, dims)
            if m2:
                u.vars[n].dims = self.vector(n, m2)[1]
            self.names[p['id']] = n
            u.args.append(n)
            if not ptr and not ref and not m2:
                self.byval[n] = None
        body = self.block(body_of(fn))
        # parameters passed by value that the body assigns: work on a copy
        w = set()
        assigned(body, w)
        pre = []
        for n in self.byval:
            if n in w:
                c = self.newvar(n + '__v', u.vars[n].type)
                body = rename(body, n, c)
                pre.append(Stmt('assign', (c, None, ('name', n)), 0))
        u.params = {self.names[p['id']]: p['type']['qualType'] for p in params if p['id'] in self.names}
        u.order = [self.names.get(p['id']) or self.objs[p['id']][0] for p in params]
        u.args += sorted(self.members)
        u.vecs = dict(self.vecs)
        u.cname, u.cls, u.static = qualified(fn, self.tu), self.tu.classof.get(fn['mangledName']), fn['mangledName'] in self.tu.static
        u.msize = dict(self.msize)
        u.body = pre + body
        u.members = dict(self.members)
        u.node = fn
        u.body = strip_ret(desugar_block(lower_loops(u.body, u)))
        return u

    # -------------------------------------------------- statements
    def block(self, n):
        out = []
        for c in inner(n):
            out += self.stmt(c)
        return out

    def body(self, n):
        return self.block(n) if n['kind'] == 'CompoundStmt' else self.stmt(n)

    def line(self, n):
        return n.get('range', {}).get('begin', {}).get('line', 0)

    def stmt(self, n):
        k = n['kind']
        if k in WRAP:
            return self.stmt(inner(n)[0])
        if k in CASTS and n.get('castKind') == 'ToVoid':
            return []
        if k == 'CompoundStmt':
            return self.block(n)
        if k == 'NullStmt':
            return []
        if k == 'DeclStmt':
            out = []
            for v in inner(n):
                if v['kind'] == 'VarDecl':
                    out += self.decl(v)
                elif v['kind'] not in ('UsingDirectiveDecl', 'TypedefDecl', 'UsingDecl', 'StaticAssertDecl'):
                    raise Unsupported('declaration ' + v['kind'])
            return out
        if k == 'ReturnStmt':
            c = inner(n)
            out = []
            if c:
                out.append(Stmt('assign', ('<ret>', None, self.expr(c[0])), self.line(n)))
            return out + [Stmt('return', None, self.line(n))]
        if k == 'IfStmt':
            c = inner(n)
            if n.get('hasInit') or n.get('hasVar'):
                raise Unsupported('if with declaration')
            a = self.body(c[1])
            b = self.body(c[2]) if len(c) > 2 else []
            return [Stmt('if', (self.cond(c[0]), a, b), self.line(n))]
        if k == 'ForStmt':
            return self.forloop(n)
        if k == 'WhileStmt':
            c = inner(n)
            return [Stmt('while', (self.cond(c[0]), self.body(c[1])), self.line(n))]
        if k == 'BreakStmt':
            return [Stmt('exit', None, self.line(n))]
        if k == 'ContinueStmt':
            return [Stmt('cycle', None, self.line(n))]
        if k == 'BinaryOperator' and n['opcode'] == '=':
            l, r = inner(n)
            pre = []
            while self.strip(r)['kind'] == 'BinaryOperator' and self.strip(r)['opcode'] == '=':
                pre = self.stmt(self.strip(r))            # a = b = c
                r = inner(self.strip(r))[0]
                break
            return pre + [self.assign(l, self.expr(r), n)]
        if k == 'CompoundAssignOperator':
            l, r = inner(n)
            return [self.assign(l, ('bin', n['opcode'][:-1], self.expr(l), ('paren', self.expr(r))), n)]
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            l = inner(n)[0]
            return [self.assign(l, ('bin', n['opcode'][0], self.expr(l), ONE), n)]
        if k == 'CXXForRangeStmt':
            return self.rangefor(n)
        if k == 'CallExpr' or k == 'CXXMemberCallExpr' or k == 'CXXOperatorCallExpr':
            return self.callstmt(n)
        raise Unsupported('statement ' + k)

    def rangefor(self, n):
        c = n.get('inner', [])
        body, lv, rng = c[-1], c[-2], None
        for d in c:
            for v in inner(d) if d.get('kind') == 'DeclStmt' else []:
                if v.get('name', '').startswith('__range'):
                    rng = self.expr(inner(v)[0])
        if rng is None or rng[0] != 'name' or rng[1] not in self.vecs or self.vecs[rng[1]] != (1, False):
            raise Unsupported('range of for')
        a, size = rng[1], ('name', rng[1] + '__n0')
        v = inner(lv)[0]
        q = v['type'].get('desugaredQualType', v['type']['qualType'])
        if '&' in q and 'const' not in q:
            raise Unsupported('for over references')
        s = self.prefix(a, size, v, body)
        if s:
            return s
        x = self.newvar(v['name'], self.u.vars[a].type)
        self.names[v['id']] = x
        i = self.newvar('i__' + x, 'I')
        bd = [Stmt('assign', (x, None, ('idx', a, [('name', i)])), self.line(n))] + self.body(body)
        return [Stmt('do', (i, ZERO, ('bin', '-', size, ONE), None, bd), self.line(n))]

    def prefix(self, a, size, v, body):
        """for (x : a) if (cond(x)) count++; else break;  becomes a call of the
        search contract (PrefixCount in contract.py)"""
        c = [x for x in inner(body)] if body['kind'] == 'CompoundStmt' else [body]
        if len(c) != 1 or c[0]['kind'] != 'IfStmt':
            return None
        p = inner(c[0])
        if len(p) != 3:
            return None
        one = lambda x: inner(x)[0] if x['kind'] == 'CompoundStmt' and len(inner(x)) == 1 else x
        th, el = one(p[1]), one(p[2])
        neg = False
        if th['kind'] == 'BreakStmt':
            th, el, neg = el, th, True
        if el['kind'] != 'BreakStmt' or th['kind'] != 'UnaryOperator' or th['opcode'] != '++':
            return None
        b = self.strip(p[0])
        if b.get('kind') != 'BinaryOperator' or b['opcode'] not in ('<', '>', '<=', '>='):
            return None
        l, r = [self.strip(x) for x in inner(b)]
        op = b['opcode']
        isv = lambda e: e.get('kind') == 'DeclRefExpr' and e['referencedDecl']['id'] == v['id']
        if isv(l):
            l, r, op = r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        if not isv(r) or isv(l):
            return None
        if neg:
            op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
        cnt, x = self.expr(inner(th)[0]), self.expr(l)
        if cnt[0] != 'name' or self.uses(x, cnt[1]):
            return None
        k = {'>': 1, '>=': 2, '<': 3, '<=': 4}[op]
        return [Stmt('call', ('prefix__', [cnt, x, ('name', a), size, ('num', Fraction(k), 'I')]), self.line(body))]

    def uses(self, e, n):
        if isinstance(e, (tuple, list)):
            return (len(e) > 1 and e[0] in ('name', 'idx') and e[1] == n) or any(self.uses(x, n) for x in e)
        return False

    def assign(self, l, e, n):
        x = self.lvalue(l)
        if x[0] == 'name':
            return Stmt('assign', (x[1], None, e), self.line(n))
        return Stmt('assign', (x[1], x[2], e), self.line(n))

    def decl(self, v):
        q = v['type'].get('desugaredQualType', v['type']['qualType'])
        ini = inner(v)
        m = re.match(r'^(?:const )?(double|int|short) ?((?:\[\d+\])+)$', q)
        if m:
            dims = [(ZERO, ('num', Fraction(int(x) - 1), 'I')) for x in re.findall(r'\[(\d+)\]', m.group(2))]
            n = self.newvar(v['name'], 'R' if m.group(1) == 'double' else 'I', dims)
            self.names[v['id']] = n
            out = []
            if ini:
                self.initlist(ini[0], n, [], [int(x) for x in re.findall(r'\[(\d+)\]', m.group(2))], out, v)
            return out
        t, ptr, ref = ctype(q)
        if t is None or ptr or ref:
            raise Unsupported('local of type ' + q)
        n = self.newvar(v['name'], t)
        self.names[v['id']] = n
        if v.get('storageClass') == 'static':
            raise Unsupported('static local')
        if not ini:
            return []
        return [Stmt('assign', (n, None, self.expr(ini[0])), self.line(v))]

    def initlist(self, e, n, pre, shape, out, v):
        if e['kind'] != 'InitListExpr':
            raise Unsupported('array initialiser')
        items = inner(e)
        if len(shape) > 1:
            for i, x in enumerate(items):
                self.initlist(x, n, pre + [i], shape[1:], out, v)
            return
        for i in range(shape[0]):
            if i < len(items) and items[i]['kind'] != 'ImplicitValueInitExpr':
                r = self.expr(items[i])
            else:
                r = ('num', Fraction(0), 'D')
            ix = [('num', Fraction(j), 'I') for j in pre + [i]]
            out.append(Stmt('assign', (n, ix, r), self.line(v)))

    def forloop(self, n):
        c = n.get('inner', [])
        ini, cond, inc, body = c[0], c[2], c[3], c[4]
        v = None
        pre = []
        if ini.get('kind') == 'DeclStmt' and len(inner(ini)) == 1:
            v = inner(ini)[0]
            pre = self.decl(v)
            name = self.names[v['id']]
        elif ini.get('kind') == 'BinaryOperator' and ini['opcode'] == '=':
            x = self.lvalue(inner(ini)[0])
            if x[0] != 'name':
                raise Unsupported('for')
            name = x[1]
            pre = [Stmt('assign', (name, None, self.expr(inner(ini)[1])), self.line(n))]
        else:
            raise Unsupported('for header')
        lo = pre[-1].a[2]
        b = self.strip(cond)
        if b.get('kind') != 'BinaryOperator' or b['opcode'] not in ('<', '<=', '>=', '>', '!='):
            raise Unsupported('for condition')
        l, r = inner(b)
        bop = b['opcode']
        if self.expr(l) != ('name', name) and self.expr(r) == ('name', name):
            l, r, bop = r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}[bop]
        if self.expr(l) != ('name', name):
            raise Unsupported('for condition')
        hi = self.expr(r)
        i = self.strip(inc)
        step = None
        if i.get('kind') == 'UnaryOperator' and i['opcode'] in ('++', '--') and self.expr(inner(i)[0]) == ('name', name):
            step = 1 if i['opcode'] == '++' else -1
        elif i.get('kind') == 'CompoundAssignOperator' and i['opcode'] in ('+=', '-='):
            s = self.expr(inner(i)[1])
            if s[0] == 'num':
                step = int(s[1]) * (1 if i['opcode'] == '+=' else -1)
        never = None
        if bop == '!=' and step in (1, -1):
            # an endless loop (until overflow) when the bound is already passed
            bop = '<' if step > 0 else '>'
            never = Stmt('if', (('bin', bop, hi, lo), [Stmt('stop', None, 0)], []), 0)
        if step is None or (step > 0) != (bop[0] == '<'):
            raise Unsupported('for increment')
        if bop == '<':
            hi = ('bin', '-', hi, ONE)
        elif bop == '>':
            hi = ('bin', '+', hi, ONE)
        bd = self.body(body)
        cl, ch = cint(lo), cint(hi)
        w = set()
        assigned(bd, w)
        if name in w:
            raise Unsupported('loop variable assigned')
        if cl is not None and ch is not None and step == 1 and ch - cl < 12 and has_op(bd, ('exit', 'return')):
            # unroll: the remaining iterations are the continuation
            rest = []
            for j in range(ch, cl - 1, -1):
                it = subst_name(bd, name, ('num', Fraction(j), 'I'))
                rest = seq(it, rest)
            return rest
        st = None if step == 1 else ('num', Fraction(step), 'I')
        return ([never] if never and not (cl is not None and ch is not None) else []) + [Stmt('do', (name, lo, hi, st, bd), self.line(n))]

    def isostream(self, n):
        n = self.strip(n)
        if n['kind'] == 'CXXOperatorCallExpr' and len(inner(n)) == 3:
            return self.isostream(inner(n)[1])
        return bool(re.search(r'\b(basic_)?ostream\b', n.get('type', {}).get('desugaredQualType', n.get('type', {}).get('qualType', ''))))

    def callstmt(self, n):
        if n['kind'] == 'CXXOperatorCallExpr':
            op = self.strip(inner(n)[0]).get('referencedDecl', {}).get('name')
            c = inner(n)
            if op == 'operator<<' and self.isostream(c[1]):
                return []                       # output is dropped
            if op == 'operator=' and len(c) == 3:
                return [self.assign(c[1], self.expr(c[2]), n)]
        name, f = self.callee(n)
        if name in ('printf', 'fprintf', 'flush'):
            return []
        if name in ('abort', 'exit'):
            return [Stmt('stop', None, self.line(n))]
        e = self.call(n, True)
        return [Stmt('call', (e[1], e[2]), self.line(n))]

    # -------------------------------------------------- expressions
    def strip(self, n):
        while n.get('kind') in WRAP or (n.get('kind') in CASTS and n.get('castKind') in
                                        ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'IntegralCast')):
            n = inner(n)[0]
        return n

    def cond(self, n):
        return self.expr(n)

    def lvalue(self, n):
        n = self.strip(n)
        e = self.expr(n)
        if e[0] not in ('name', 'idx'):
            raise Unsupported('assignment target')
        return e

    def callee(self, n):
        f = self.strip(inner(n)[0])
        if f['kind'] == 'DeclRefExpr':
            return f['referencedDecl'].get('name'), f
        if f['kind'] == 'MemberExpr':
            return f['name'], f
        return '?', f

    def expr(self, n):
        k = n['kind']
        if k in WRAP:
            return self.expr(inner(n)[0]) if k != 'ParenExpr' else ('paren', self.expr(inner(n)[0]))
        if k in CASTS:
            ck = n.get('castKind')
            e = self.expr(inner(n)[0])
            if ck == 'IntegralToFloating':
                return ('num', e[1], 'D') if e[0] == 'num' else ('idx', 'dble', [e])
            if ck == 'FloatingToIntegral':
                return ('idx', 'int', [e])
            if ck in ('IntegralToBoolean',):
                return ('bin', '/=', e, ZERO)
            if ck == 'FloatingToBoolean':
                return ('bin', '/=', e, ('num', Fraction(0), 'D'))
            if ck in ('LValueToRValue', 'NoOp', 'IntegralCast', 'FloatingCast', 'ArrayToPointerDecay', 'FunctionToPointerDecay'):
                src = self.strip(inner(n)[0])
                if ck == 'IntegralCast' and ctype(src.get('type', {}).get('qualType', ''))[0] == 'L':
                    return ('idx', 'merge', [ONE, ZERO, e])
                return e
            raise Unsupported('cast %s' % ck)
        if k == 'FloatingLiteral':
            v = float(n['value'])
            if v == 3.141592653589793:
                return ('paren', ('bin', '*', ('num', Fraction(4), 'D'), ('idx', 'atan', [('num', Fraction(1), 'D')])))
            return ('num', Fraction(repr(v)), 'D')
        if k == 'IntegerLiteral':
            return ('num', Fraction(int(n['value'])), 'I')
        if k == 'CXXBoolLiteralExpr':
            return ('log', bool(n['value']))
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in self.names:
                return ('name', self.names[d['id']])
            if d['kind'] == 'EnumConstantDecl':
                return ('num', Fraction(self.tu.enum(d['name'], d.get('type', {}).get('qualType', ''))), 'I')
            return ('paren', self.tu.constant(self, d))
        if k == 'MemberExpr':
            b = self.strip(inner(n)[0])
            if b['kind'] == 'CXXThisExpr':
                q = n['type'].get('desugaredQualType', n['type']['qualType'])
                return ('name', self.member(n['name'], q))
            if n['name'] in ('first', 'second'):
                return self.index(self.expr(b), ZERO if n['name'] == 'first' else ONE)
            raise Unsupported('member of object')
        if k == 'BinaryOperator':
            l, r = inner(n)
            op = n['opcode']
            a, b = self.expr(l), self.expr(r)
            if op == '%':
                return ('idx', 'mod', [a, b])
            op = {'&&': '.and.', '||': '.or.', '!=': '/='}.get(op, op)
            if op in ('+', '-', '*', '/', '.and.', '.or.', '==', '/=', '<', '>', '<=', '>='):
                return ('bin', op, a, b)
            raise Unsupported('operator ' + op)
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '-':
                return ('un', '-', self.expr(inner(n)[0]))
            if op == '+':
                return self.expr(inner(n)[0])
            if op == '!':
                return ('un', '.not.', self.expr(inner(n)[0]))
            if op == '*':
                e = self.expr(inner(n)[0])
                if e[0] == 'name':
                    return ('idx', e[1], [ZERO])
            raise Unsupported('operator ' + op)
        if k == 'ConditionalOperator':
            c, a, b = inner(n)
            return ('idx', 'merge', [self.expr(a), self.expr(b), self.expr(c)])
        if k == 'ArraySubscriptExpr':
            return self.index(self.expr(inner(n)[0]), self.expr(inner(n)[1]))
        if k == 'CXXOperatorCallExpr':
            c = inner(n)
            op = self.strip(c[0]).get('referencedDecl', {}).get('name')
            if op == 'operator[]':
                return self.index(self.expr(c[1]), self.expr(c[2]))
            raise Unsupported('operator call %s' % op)
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            return self.call(n)
        raise Unsupported('expression ' + k)

    def index(self, a, i):
        if a[0] == 'name':
            return ('idx', a[1], [i])
        if a[0] == 'idx':
            return ('idx', a[1], a[2] + [i])
        if a[0] == 'paren':
            return self.index(a[1], i)
        raise Unsupported('subscript')

    def call(self, n, stmt=False):
        name, f = self.callee(n)
        args = inner(n)[1:]
        if f['kind'] == 'MemberExpr' and name in ('size', 'empty') and not args:
            b = self.expr(inner(f)[0])
            if b[0] in ('name', 'idx') and b[1] in self.vecs:
                r = 0 if b[0] == 'name' else len(b[2])
                if r < self.vecs[b[1]][0]:
                    z = ('name', '%s__n%d' % (b[1], r))
                    return z if name == 'size' else ('bin', '==', z, ZERO)
        if f['kind'] == 'MemberExpr':
            o = self.strip(inner(f)[0])
            if o['kind'] == 'CXXOperatorCallExpr' and self.strip(inner(o)[0]).get('referencedDecl', {}).get('name') == 'operator[]':
                b = self.strip(inner(o)[1])
                if b['kind'] == 'DeclRefExpr' and b['referencedDecl']['id'] in self.objs:
                    return self.objcall(n, f, self.objs[b['referencedDecl']['id']][0], self.expr(inner(o)[2]), args)
        if name in MATH and f['kind'] == 'DeclRefExpr' and not self.tu.defines(f['referencedDecl']):
            a = [self.expr(x) for x in args]
            if name == 'pow':
                return ('bin', '**', ('paren', a[0]), ('paren', a[1]))
            return ('idx', {'fabs': 'abs', 'fmax': 'max', 'fmin': 'min'}.get(name, name), a)
        if f['kind'] == 'DeclRefExpr' or (f['kind'] == 'MemberExpr' and self.strip(inner(f)[0])['kind'] == 'CXXThisExpr'):
            uname, u = self.tu.function(f, self, len(args))
            args = [self.tu.defarg.get((name, len(args)), {}).get(i, x) if x['kind'] == 'CXXDefaultArgExpr' else x for i, x in enumerate(args)]
            a = [self.expr(x) for x in args]
            if u is not None:
                for m in sorted(u.members):
                    mm = self.u.vars.get(m)
                    if mm is None:
                        v = self.u.var(m)
                        v.type, v.dims = u.vars[m].type, u.vars[m].dims
                        self.members[m] = u.members[m]
                        if m in u.vecs:
                            self.vecs[m] = u.vecs[m]
                        if m in u.msize:
                            self.msize[m] = u.msize[m]
                    a.append(('name', m))
                if not stmt:
                    self.pure(u)
            return ('idx', uname, a)
        raise Unsupported('call ' + str(name))

    def pure(self, u):
        w = set()
        assigned(u.body, w)
        for s in calls(u.body):
            w |= {x[1] for x in s.a[1] if x[0] in ('name', 'idx')}
        if w & set(u.args):
            raise Unsupported('call of %s, which has side effects, inside an expression' % u.name)

    def objcall(self, n, f, obj, i, args):
        """objs[i].f(args): the members of the objects are arrays with the
        object number as last subscript"""
        uname, u = self.tu.function(f, self, len(args))
        self.pure(u)
        a = [self.expr(x) for x in args]
        for m in sorted(u.members):
            v = u.vars[m]
            if v.dims is None and u.members[m] is None:
                w = obj + m[4:]                 # a size, shared by all objects
                if w not in self.u.vars:
                    self.u.var(w).type = 'I'
                    self.members[w] = None
                a.append(('name', w))
                continue
            w = obj + m[4:]
            if w not in self.u.vars:
                x = self.u.var(w)
                x.type = v.type
                ren = {m2: obj + m2[4:] for m2 in u.members}
                dims = [tuple(map_expr(y, lambda e: ('name', ren[e[1]]) if e and e[0] == 'name' and e[1] in ren else None) for y in d)
                        for d in (v.dims or [])]
                x.dims = dims + [(ZERO, ('bin', '-', ('name', obj + '__count'), ONE))]
                self.members[w] = ('obj', obj, u.members[m], m)
                if m in u.vecs:
                    self.vecs[w] = u.vecs[m]
            if obj + '__count' not in self.u.vars:
                self.u.var(obj + '__count').type = 'I'
                self.members[obj + '__count'] = None
            a.append(('idx', w, [ZERO + ('section',)] * len(v.dims or []) + [i]))
        return ('idx', uname, a)


def calls(block):
    for s in block:
        if s.op == 'call':
            yield s
        elif s.op == 'if':
            yield from calls(s.a[1])
            yield from calls(s.a[2])
        elif s.op in ('do', 'while', 'doforever'):
            yield from calls(s.a[-1])


def cint(e):
    if e[0] == 'num':
        return int(e[1])
    if e[0] == 'paren':
        return cint(e[1])
    if e[0] == 'bin' and e[1] in '+-*':
        a, b = cint(e[2]), cint(e[3])
        if a is None or b is None:
            return None
        return a + b if e[1] == '+' else a - b if e[1] == '-' else a * b
    return None


def seq(block, rest):
    """block followed by rest, where 'exit' leaves both"""
    out = []
    for i, s in enumerate(block):
        if s.op == 'exit':
            return out
        if s.op == 'cycle':
            return out + rest
        if s.op == 'if' and has_op(s.a[1] + s.a[2], ('exit', 'cycle')):
            r = block[i + 1:]
            return out + [Stmt('if', (s.a[0], seq(s.a[1] + r, rest), seq(s.a[2] + r, rest)), s.line)]
        out.append(s)
        if s.op == 'return':
            return out
    return out + rest


def has_op(block, ops):
    for s in block:
        if s.op in ops:
            return True
        if s.op == 'if' and (has_op(s.a[1], ops) or has_op(s.a[2], ops)):
            return True
        if s.op in ('do', 'while', 'doforever') and 'return' in ops and has_op(s.a[-1], ('return',)):
            return True
    return False


def assigned(block, w):
    for s in block:
        if s.op == 'assign':
            w.add(s.a[0])
        elif s.op == 'if':
            assigned(s.a[1], w)
            assigned(s.a[2], w)
        elif s.op == 'do':
            w.add(s.a[0])
            assigned(s.a[4], w)
        elif s.op in ('while', 'doforever'):
            assigned(s.a[-1], w)


def map_expr(e, f):
    if isinstance(e, tuple):
        r = f(e)
        if r is not None:
            return r
        return tuple(map_expr(x, f) for x in e)
    if isinstance(e, list):
        return [map_expr(x, f) for x in e]
    return e


def map_block(block, fe, fn=lambda n: n):
    out = []
    for s in block:
        if s.op == 'assign':
            n, ix, r = s.a
            a = (fn(n), map_expr(ix, fe), map_expr(r, fe))
        elif s.op == 'if':
            a = (map_expr(s.a[0], fe), map_block(s.a[1], fe, fn), map_block(s.a[2], fe, fn))
        elif s.op == 'do':
            a = (fn(s.a[0]),) + tuple(map_expr(x, fe) for x in s.a[1:4]) + (map_block(s.a[4], fe, fn),)
        elif s.op == 'while':
            a = (map_expr(s.a[0], fe), map_block(s.a[1], fe, fn))
        elif s.op == 'doforever':
            a = (map_block(s.a[0], fe, fn),)
        elif s.op == 'call':
            a = (s.a[0], map_expr(s.a[1], fe))
        else:
            a = s.a
        out.append(Stmt(s.op, a, s.line, s.label))
    return out


def subst_name(block, n, e):
    return map_block(block, lambda x: e if x == ('name', n) else None)


def rename(block, n, c):
    def fe(x):
        if x == ('name', n):
            return ('name', c)
        if x and x[0] == 'idx' and x[1] == n:
            return ('idx', c, [map_expr(y, fe) for y in x[2]])
    return map_block(block, fe, lambda m: c if m == n else m)


def qualified(fn, tu):
    cls = tu.classof.get(fn['mangledName'])
    if cls and fn['mangledName'] in tu.static:
        return cls + '::' + fn['name']
    return fn['name']


def path_of(file):
    p = os.path.join(STUBS, file)
    return p if os.path.exists(p) else os.path.join(SRC, file)


class TU:
    """one source file for one NDIM"""

    def __init__(self, file, dim, filters):
        self.file, self.dim = file, dim
        self.path = path_of(file)
        self.patch = file in PATCHFILES
        self.units, self.errs, self.defs = {}, {}, {}
        self.busy = set()
        self.ctors = []
        self.classof = {}
        self.static = set()
        self.enums, self.enumtypes, self.consts, self.byid, self.enumv, self.defarg = {}, set(), {}, {}, {}, {}
        for f in filters:
            self.scan(f)

    def scan(self, filt):
        for o in dump(self.path, self.dim, filt):
            self.collect(o, None)

    def collect(self, o, cls):
        k = o.get('kind')
        if k == 'CXXConstructorDecl' and body_of(o) is not None:
            self.ctors.append(o)
        if k == 'CXXMethodDecl' and o.get('storageClass') == 'static':
            self.static.add(o.get('mangledName'))
        if k == 'EnumDecl':
            self.enumtypes.add(o.get('name'))
            v = -1
            for c in inner(o):
                if c['kind'] == 'EnumConstantDecl':
                    x = [y for y in inner(c) if 'value' in y]
                    v = int(x[0]['value']) if x else v + 1
                    self.enums[c['name']] = v
        if k == 'CXXMethodDecl':
            self.byid[o['id']] = o['type']['qualType']
            ps = [c for c in inner(o) if c['kind'] == 'ParmVarDecl']
            if any(inner(c) for c in ps):
                self.defarg.setdefault((o['name'], len(ps)), {}).update({i: inner(c)[0] for i, c in enumerate(ps) if inner(c)})
        if k in ('CXXMethodDecl', 'FunctionDecl') and body_of(o) is not None and o.get('mangledName'):
            self.defs[o['mangledName']] = o
            p = uname(o['mangledName'], o['name'], False)
            if len(p) > 1:
                self.classof[o['mangledName']] = '::'.join(p[:-1]) + (cls if cls and cls[0] == '<' else '')
        elif k == 'ClassTemplateSpecializationDecl':
            ta = [c['type']['qualType'] for c in inner(o) if c['kind'] == 'TemplateArgument' and 'type' in c]
            for c in inner(o):
                self.collect(c, '<%s>' % ','.join(ta))
        elif k in ('CXXRecordDecl', 'NamespaceDecl', 'LinkageSpecDecl'):
            for c in inner(o):
                self.collect(c, o.get('name'))

    def defines(self, d):
        return d.get('mangledName') in self.defs

    def enum(self, n, q=''):
        t = q.split('::')[-1]
        if self.patch and t:
            if t in ('EnergyInterpolationType', 'ConcInterpolationType'):
                return ['LINEAR', 'PBG', 'HARMONIC', 'UNDEFINED'].index(n)
            if t not in self.enumv:
                self.enumv[t] = {}
                for o in dump(self.path, self.dim, t):
                    if o.get('kind') == 'EnumDecl' and o.get('name') == t:
                        v = -1
                        for c in inner(o):
                            if c['kind'] == 'EnumConstantDecl':
                                x = [y for y in inner(c) if 'value' in y]
                                v = int(x[0]['value']) if x else v + 1
                                self.enumv[t][c['name']] = v
            if n in self.enumv[t]:
                return self.enumv[t][n]
        if n not in self.enums:
            raise Unsupported('enumerator ' + n)
        return self.enums[n]

    def isenum(self, q):
        q = re.sub(r'\bconst\b', '', q).strip()
        if self.patch and re.search(r'\b(Energy|Conc|Diffusion)InterpolationType$', q):
            return True
        return q.startswith('enum ') or q.split('::')[-1] in self.enumtypes

    def constant(self, fn, d):
        n = d.get('name')
        if n not in self.consts:
            self.consts[n] = None
            for o in dump(self.path, self.dim, n):
                if o.get('kind') == 'VarDecl' and o.get('name') == n and 'const' in o['type']['qualType'] and inner(o):
                    self.consts[n] = inner(o)[0]
        if self.consts[n] is None:
            raise Unsupported('variable %s declared elsewhere' % n)
        return fn.expr(self.consts[n])

    def function(self, f, caller, nargs=None):
        return self.unit(self.find(f, nargs))

    def find(self, f, nargs=None):
        d = f.get('referencedDecl') or {}
        name = d.get('name') or f.get('name')
        cand = [m for m, o in self.defs.items() if o['name'] == name]
        if not cand:
            self.scan(name)
            cand = [m for m, o in self.defs.items() if o['name'] == name]
        if len(cand) > 1:
            dd = self.byid.get(f.get('referencedMemberDecl'))
            sig = d.get('type', {}).get('qualType') or dd
            cand = [m for m in cand if self.defs[m]['type']['qualType'] == sig] or cand
        if len(cand) > 1 and nargs is not None:
            cand = [m for m in cand if len([c for c in inner(self.defs[m]) if c['kind'] == 'ParmVarDecl']) == nargs] or cand
        if len(cand) != 1:
            raise Unsupported('call to ' + name)
        return cand[0]

    def unit(self, mangled):
        if mangled in self.busy:
            raise Unsupported('recursion')
        name = uname(mangled, self.defs[mangled]['name'])
        np = lambda m: len([c for c in inner(self.defs[m]) if c['kind'] == 'ParmVarDecl'])
        if any(m != mangled and uname(m, self.defs[m]['name']) == name for m in self.defs):
            name += '_%d' % np(mangled)            # overloads
            if self.patch:
                q = ' '.join(c['type']['qualType'] for c in inner(self.defs[mangled]) if c['kind'] == 'ParmVarDecl')
                name += 'h' if 'PatchHierarchy' in q else 'l' if 'PatchLevel' in q else 'p' if 'Patch' in q else ''
        if name not in self.units:
            self.busy.add(mangled)
            try:
                u = None
                if self.patch:
                    import cxxp
                    try:
                        u = cxxp.PFn(self.defs[mangled], name, self).translate()
                    except Unsupported as e:
                        if str(e) != 'no patch data':
                            raise
                if u is None:
                    u = Fn(self.defs[mangled], name, self).translate()
                u.srcfile = self.file
                u.file = self.file
                u.mangled = mangled
                self.units[name] = u
            finally:
                self.busy.discard(mangled)
        return name, self.units[name]


def uname(mangled, name, join=True):
    m = re.match(r'_ZN?K?((?:\d+[A-Za-z_]\w*?)+)', mangled)
    parts, i = [], 2
    s = mangled
    if s.startswith('_ZNK'):
        i = 4
    elif s.startswith('_ZN'):
        i = 3
    while i < len(s) and s[i].isdigit():
        j = i
        while s[j].isdigit():
            j += 1
        n = int(s[i:j])
        parts.append(s[j:j + n])
        i = j + n
        m = re.match(r'I([a-z]+)E', s[i:])
        if m:
            parts[-1] += ('_' + m.group(1)) if join else ''
            i += m.end()
    if s[i:i + 2] == 'cl':
        parts.append('call' if join else 'operator()')
    if not join:
        return parts
    return '__'.join(parts).lower() or name.lower()


# files read and the functions in them that carry contracts
FILES = [
    ('TiltingFolchPlapp2005.cc', ['TiltingFolchPlapp2005']),
    ('TiltingMoelans2011.cc', ['TiltingMoelans2011']),
    ('computeWeights3Pairs.cc', ['computeWeights3Pairs']),
    ('inst_ArrayOperation.cc', ['MultiplyOperation', 'AddOperation']),
    ('EventInterval.cc', ['EventInterval']),
    ('TemperatureHistory.cc', ['TemperatureHistory']),
    ('CALPHADMobility.cc', ['CALPHADMobility', 'computeDiffusionMobility']),
]


# methods that work on SAMRAI patches (cxxp.py)
PATCHFILES = {f: [f[:-3]] for f in """
    ConstantHeatCapacityStrategy.cc LinearMeltingTemperatureStrategy.cc MovingFrameRHS.cc NKRHeatCapacityStrategy.cc
    PartitionPhaseConcentrationsStrategy.cc RigidBodyMotionConcRHS.cc RigidBodyMotionRHS.cc PhaseFluxStrategyIsotropic.cc
    PhaseFluxStrategySimple.cc PhaseFluxStrategyAnisotropy.cc ScalarCompositionDiffusionStrategy.cc SimpleTemperatureRHSStrategy.cc
    TbasedCompositionDiffusionStrategy.cc WangSinteringCompositionDiffusionStrategy.cc BiasDoubleWellFreeEnergyStrategy.cc
    BiasDoubleWellBeckermannFreeEnergyStrategy.cc BiasDoubleWellUTRCFreeEnergyStrategy.cc DeltaTemperatureFreeEnergyStrategy.cc
    PhaseFreeEnergyStrategy.cc TemperatureFreeEnergyStrategy.cc GaussianTemperatureStrategy.cc GradientTemperatureStrategy.cc
    computeQDiffs.cc QuatGradModulusStrategy.cc HierarchyStencilOps.cc DerivDiffusionCoeffForQuat.cc QuatFaceCoeff.cc
    EnergyEvaluationStrategy.cc MultiOrderPEnergyEvaluationStrategy.cc TwoPhasesEnergyEvaluationStrategy.cc
    PhaseRigidBodyForces.cc RigidBodyForces.cc WangRigidBodyForces.cc QuatLinearRefine.cc QuatWeightedAverage.cc
    ScalarTemperatureStrategy.cc UniformPartitionCoefficientStrategy.cc ConstantMeltingTemperatureStrategy.cc
    PhaseIndependentConcentrationsStrategy.cc PhaseConcentrationsStrategy.cc CompositionRHSStrategy.cc
    WangSinteringCompositionRHSStrategy.cc KKSCompositionRHSStrategy.cc MultiOrderRHSStrategy.cc ThreePhasesRHSStrategy.cc
    PhaseRHSStrategyWithQ.cc SinteringUWangRHSStrategy.cc
""".split()}
PATCHFILES['computeQDiffs.cc'] = ['compute']
PATCHFILES['MovingFrameRHS.cc'] = ['MovingFrameRHS', 'add_vdphidx']
PATCHFILES['EBSCompositionRHSStrategy.cc'] = ['EBSCompositionRHSStrategy', 'add_flux']
for _f in ('ScalarCompositionDiffusionStrategy.cc', 'TbasedCompositionDiffusionStrategy.cc', 'WangSinteringCompositionDiffusionStrategy.cc'):
    PATCHFILES[_f] = ['CompositionDiffusionStrategy']
FILES += sorted(PATCHFILES.items())


def load(dim, want=None):
    """units of the C++ functions; (units, errs)"""
    from concurrent.futures import ThreadPoolExecutor
    units, errs = {}, {}
    todo = [(f, x) for f, x in FILES if want is None or f in want]

    def one(t):
        try:
            return t[0], TU(t[0], dim, t[1]), None
        except Exception as e:
            return t[0], None, '%s: %s' % (type(e).__name__, str(e)[:300])
    stubgen.directory()
    with ThreadPoolExecutor(8) as ex:
        tus = list(ex.map(one, todo))
    for file, tu, e in tus:
        if tu is None:
            errs[file] = e
            continue
        for m in list(tu.defs):
            try:
                tu.unit(m)
            except Exception as e:
                errs[file + ':' + tu.defs[m]['name']] = '%s: %s' % (type(e).__name__, str(e)[:300])
        units.update(tu.units)
    return units, errs


# ------------------------------------------------------------- replay wrappers
def cty(v):
    return 'int' if v.type in 'IL' else 'double'


# construction of an object whose data members the wrapper then sets
CTOR = {'CALPHADMobility': '("x")', 'EventInterval': '(std::shared_ptr<SAMRAI::tbox::Database>(), "x")',
        'TemperatureHistory': '(nullos)'}


def fill(u, n, i, lhs, at=''):
    """statements storing argument i in the member lhs"""
    v = u.vars[n]
    idx = lambda z: '(*a%d)' % u.args.index(z)
    if n in u.vecs:
        rank, pair = u.vecs[n]
        base = n
        ns = [idx(d[1][2][1]) for d in v.dims[:rank]]
        out = '%s.resize(%s);' % (lhs, ns[0])
        ix, off, st = '', '0', '1'
        for r in range(rank):
            if r:
                out += '%s%s.resize(%s);' % (lhs, ix, ns[r])
            out += 'for (int i%d = 0; i%d < %s; i%d++) {' % (r, r, ns[r], r)
            ix += '[i%d]' % r
            off += ' + i%d * (%s)' % (r, st)
            st += ' * %s' % ns[r]
        tot = st + (' * 2' if pair else '')
        o = '%s%s' % (off, ' + %s * (%s)' % (at, tot) if at else '')
        rhs = 'std::make_pair(a%d[%s], a%d[%s + %s])' % (i, o, i, o, st) if pair else 'a%d[%s]' % (i, o)
        return out + '%s%s = %s;' % (lhs, ix, rhs) + '}' * rank
    if v.dims is None or (at and len(v.dims) == 1):
        return '*(typename std::remove_const<decltype(%s)>::type*)&%s = (decltype(%s))a%d[%s];' % (lhs, lhs, lhs, i, at or '0')
    return 'for (int i = 0; i < %d; i++) %s[i] = a%d[i];' % (u.msize.get(n), lhs, i)


def wrapper(u):
    """extern "C" function with the Fortran calling convention around one C++
    function; class data members are trailing arguments"""
    ps = ', '.join('%s* a%d' % (cty(u.vars[n]), i) for i, n in enumerate(u.args))
    rt = 'void' if u.kind == 'subroutine' else cty(u.vars[u.result])
    pre, post, args = [], [], []
    for n in u.order:
        if n in u.vecobj:
            cls = u.vecobj[n]
            cnt = n + '__count'
            pre.append('static std::vector<%s> v_%s; v_%s.clear();' % (cls, n, n))
            if cnt in u.args:
                pre.append('for (int k = 0; k < *a%d; k++) { v_%s.push_back(%s%s); auto& o = v_%s.back();' % (
                    u.args.index(cnt), n, cls, CTOR.get(cls, '()'), n))
                for i, m in enumerate(u.args):
                    q = u.members.get(m)
                    if isinstance(q, (tuple, list)) and q[1] == n:
                        pre.append(fill(u, m, i, 'o.' + q[2], 'k'))
                pre.append('}')
            args.append('v_' + n)
            continue
        i = u.args.index(n)
        q = u.params[n]
        if n in u.vecs:
            pre.append('std::vector<%s> v%d(a%d, a%d + *a%d);' % (cty(u.vars[n]), i, i, i, u.args.index(n + '__n0')))
            if 'const' not in q:
                post.append('for (size_t k = 0; k < v%d.size(); k++) a%d[k] = v%d[k];' % (i, i, i))
            args.append('v%d' % i)
        elif u.vars[n].dims is not None:
            args.append('a%d' % i)
        elif '&' in q and 'const' not in q:
            t = q.replace('&', '').strip()
            pre.append('%s v%d = *a%d;' % (t, i, i))
            post.append('*a%d = v%d;' % (i, i))
            args.append('v%d' % i)
        else:
            args.append('*a%d' % i)
    call = '%s(%s)' % (u.cname, ', '.join(args))
    if (u.members and u.cls and not u.static) or (u.cls and not u.static):
        if u.cls in CTOR:
            pre.append('static std::ostream nullos(nullptr); static %s theobj%s; %s* obj = &theobj;' % (u.cls, CTOR[u.cls], u.cls))
        else:
            pre.append('alignas(64) static char buf[sizeof(%s)]; %s* obj = (%s*)buf;' % (u.cls, u.cls, u.cls))
        for i, n in enumerate(u.args):
            m = u.members.get(n)
            if isinstance(m, str):
                pre.append(fill(u, n, i, 'obj->' + m))
                if u.vars[n].dims is None:
                    post.append('*a%d = obj->%s;' % (i, m))
                elif n in u.msize:
                    post.append('for (int i = 0; i < %d; i++) a%d[i] = obj->%s[i];' % (u.msize[n], i, m))
        call = 'obj->%s' % call
    r = '' if rt == 'void' else '%s r = ' % rt
    return 'extern "C" %s %s_(%s) { %s %s%s; %s %s }\n' % (rt, u.name, ps, ' '.join(pre), r, call, ' '.join(post),
                                                            '' if rt == 'void' else 'return r;')


def compile_units(dim, cunits, d):
    by = {}
    for u in cunits:
        by.setdefault(u.srcfile, []).append(u)
    out = []
    for f, us in sorted(by.items()):
        b = os.path.join(d, 'w_' + f.replace('/', '_'))
        with open(b, 'w') as g:
            g.write('#include <type_traits>\n#include <vector>\n#include <memory>\n#include <ostream>\n#include "%s"\n' % path_of(f))
            if f in PATCHFILES:
                import cxxp
                g.write(cxxp.HEAD)
                for c in sorted({x['cls'] for u in us for x in (getattr(u, 'strats', None) or {}).values()}):
                    g.write('#include "mocks/%s.h"\n' % c)
                ws = [cxxp.wrapper(u, dim) for u in sorted(us, key=lambda u: u.name)]
                for vt in sorted({x[1] for x in ws}):
                    g.write(vt)
                for x in ws:
                    g.write(x[2])
            else:
                for u in sorted(us, key=lambda u: u.name):
                    g.write(wrapper(u))
        o = b + '.o'
        out.append((f, o, subprocess.Popen(['g++', *[x for x in flags(dim) if not x.startswith('-W')], '-w', '-O1', '-fno-access-control', '-fPIC', '-c', b, '-o', o],
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    return out


# ------------------------------------------------- golden signatures
def meta(u):
    def d(x):
        if isinstance(x, Fraction):
            return {'q': str(x)}
        return [d(y) for y in x] if isinstance(x, (tuple, list)) else x
    return dict(kind=u.kind, ret=u.vars[u.result].type if u.kind == 'function' else None, cname=u.cname, cls=u.cls, static=u.static,
                params=u.params, members=u.members, msize=u.msize, vecs=u.vecs, order=u.order, vecobj=u.vecobj, pds=getattr(u, 'pds', None), strats=getattr(u, 'strats', None), mhier=getattr(u, "mhier", None), fptrs=getattr(u, "fptrs", None),
                vars={n: [u.vars[n].type, None if u.vars[n].dims is None else [[d(a), d(b)] for a, b in u.vars[n].dims]] for n in u.args})


def undo(x):
    if isinstance(x, dict):
        return Fraction(x['q'])
    return tuple(undo(y) for y in x) if isinstance(x, list) else x


def golden_unit(name, sig):
    """signature-only unit of a C++ function, as on the tree the contracts
    were written for"""
    file, args, m = sig
    u = Unit(m['kind'], name, [])
    u.args = list(args)
    for n, (t, dims) in m['vars'].items():
        v = u.var(n)
        v.type = t
        v.dims = None if dims is None else [tuple(undo(x) for x in p) for p in dims]
    if m['ret']:
        u.result = '<ret>'
        u.var('<ret>').type = m['ret']
    for k in ('cname', 'cls', 'static', 'params', 'members', 'msize', 'vecs', 'order', 'vecobj'):
        setattr(u, k, m[k])
    u.pds = m.get('pds')
    u.strats = m.get('strats')
    u.mhier = m.get("mhier")
    u.fptrs = m.get("fptrs")
    u.srcfile = u.file = file
    u.body = None
    return u
