"""Front end for the Python tools (utils/*.py): a symbolic interpreter of the
real source text.  Every execution path of a function is explored with
symbolic arguments (branches on undecided conditions fork), callees under
contract are used through their contracts, and the result, the arguments
afterwards and which objects are shared are compared with the contract."""
import ast, math, os
from fractions import Fraction
import sym
from sym import *

UTILS = os.path.join(os.environ.get('AMPE_REPO', '/repo'), 'utils')


class PyUnsupported(Exception):
    pass


class PyRaise(Exception):
    """the code raises an exception"""


class Prune(Exception):
    pass


class Restart(Exception):
    pass


class B:
    """a symbolic condition"""

    def __init__(self, c):
        self.c = P(c)


class Arr:
    def __init__(self, d, kind='array', tab=None, name=None):
        self.d, self.kind, self.tab, self.name = list(d), kind, tab, name

    def copy(self):
        return Arr([x.copy() if isinstance(x, Arr) else x for x in self.d], 'array', self.tab)

    def __len__(self):
        return len(self.d)


class Func:
    def __init__(self, node):
        self.node = node


class Mod:
    """numpy, math, random and their members"""

    def __init__(self, name):
        self.name = name


def floor_facts(x):
    f = app('floor', x, sort='I')
    return [ge0(x - f), gt0(f + 1 - x)]


sym.FACTS['floor'] = floor_facts
sym.MATH.setdefault('floor', math.floor)
PI = var('pi')
PIF = [gt(PI, const(Fraction(314159265358979, 10**14))), lt(PI, const(Fraction(314159265358980, 10**14)))]


def isnum(x):
    return isinstance(x, (int, Poly)) and not isinstance(x, bool) or isinstance(x, bool)


class Interp:
    def __init__(self, tree, ctx, models=None, glob=None, loops=None, fname=''):
        self.models = models or {}
        self.ctx0 = ctx
        self.glob = dict(glob or {})
        self.loops = loops
        self.funcs = {n.name: Func(n) for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.dec = []
        self.dropped = set()
        self.fresh_n = 0
        self.ghosts = []

    # ---- path exploration
    def explore(self, run):
        """yields (ctx, outcome) for every path; run() executes from the start"""
        stack = [[]]
        n = 0
        while stack:
            self.dec = stack.pop()
            self.pos, self.ctx, self.fresh_n, self.ghosts = 0, self.ctx0, 0, []
            self.pending = []
            n += 1
            if n > 400:
                raise PyUnsupported('too many paths')
            try:
                out = run()
            except Prune:
                out = None
            except PyRaise as e:
                out = ('raise', str(e))
            stack.extend(self.pending)
            if out is not None:
                yield self.ctx, out

    def pick(self, n):
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
            self.pos += 1
            return v
        for v in range(1, n):
            self.pending.append(self.dec[:self.pos] + [v])
        self.dec = self.dec[:self.pos] + [0]
        self.pos += 1
        return 0

    def assume(self, c):
        self.ctx = self.ctx.assume(P(c))
        if not self.ctx.feasible():
            raise Prune()

    def truth(self, v):
        if isinstance(v, B):
            d = self.ctx.decide(v.c)
            if d is not None:
                return d
            c = self.ctx.lit_simplify(v.c)
            if c.isconst():
                return bool(c.cval())
            if self.pick(2) == 0:
                self.assume(v.c)
                return True
            self.assume(lnot(v.c))
            return False
        if isinstance(v, Poly):
            if v.isconst():
                return bool(v.cval())
            return self.truth(B(lnot(eq(v, 0))))
        if isinstance(v, Arr):
            if v.kind == 'array' and len(v) != 1:
                raise PyRaise('ValueError: truth value of an array')
            return self.truth(v.d[0]) if v.kind == 'array' else len(v) > 0
        return bool(v)

    def fresh(self, base, sort='R'):
        self.fresh_n += 1
        return var('%s!%d' % (base, self.fresh_n), sort)

    # ---- expressions
    def num(self, v):
        return P(int(v)) if isinstance(v, bool) else P(v)

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b
            return r if isinstance(op, ast.Is) else not r
        if isinstance(a, Arr) and a.kind == 'array' or isinstance(b, Arr) and b.kind == 'array':
            return self.broadcast(lambda x, y: self.cmp(op, x, y), a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(a, (int, str)) and isinstance(b, (Arr, tuple)) and all(isinstance(x, (int, str)) for x in (b.d if isinstance(b, Arr) else b)):
                r = a in (b.d if isinstance(b, Arr) else b)
                return r if isinstance(op, ast.In) else not r
            raise PyUnsupported('in')
        if a is None or b is None or isinstance(a, (str, tuple, Arr)) or isinstance(b, (str, tuple, Arr)):
            if isinstance(op, (ast.Eq, ast.NotEq)) and not isinstance(a, (tuple, Arr)) and not isinstance(b, (tuple, Arr)):
                r = a == b if not isinstance(a, Poly) and not isinstance(b, Poly) else False
                return r if isinstance(op, ast.Eq) else not r
            raise PyRaise('TypeError: comparison')
        if isinstance(a, int) and isinstance(b, int):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[type(op)]
        a, b = self.num(a), self.num(b)
        c = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge, ast.Eq: eq, ast.NotEq: lambda x, y: lnot(eq(x, y))}[type(op)](a, b)
        c = P(c)
        return bool(c.cval()) if c.isconst() else B(c)

    def broadcast(self, f, a, b):
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a) != len(b):
                raise PyRaise('ValueError: shapes')
            return Arr([f(x, y) for x, y in zip(a.d, b.d)])
        if isinstance(a, Arr):
            return Arr([self.broadcast(f, x, b) if isinstance(x, Arr) else f(x, b) for x in a.d])
        return Arr([self.broadcast(f, a, x) if isinstance(x, Arr) else f(a, x) for x in b.d])

    def binop(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and a.kind == 'list' and isinstance(b, Arr) and b.kind == 'list' and isinstance(op, ast.Add):
                return Arr(a.d + b.d, 'list')
            if (isinstance(a, Arr) and a.kind == 'list' or not isinstance(a, Arr)) and (isinstance(b, Arr) and b.kind == 'list' or not isinstance(b, Arr)):
                if isinstance(op, ast.Mult):
                    n, l = (a, b) if isinstance(a, int) else (b, a)
                    if isinstance(n, int) and isinstance(l, Arr):
                        return Arr(l.d * n, 'list')
                raise PyRaise('TypeError: list arithmetic')
            return self.broadcast(lambda x, y: self.binop(op, x, y), a, b)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, B) or isinstance(b, B):
            raise PyUnsupported('operand')
        if isinstance(a, int) and isinstance(b, int):
            if isinstance(op, ast.Add): return a + b
            if isinstance(op, ast.Sub): return a - b
            if isinstance(op, ast.Mult): return a * b
            if isinstance(op, ast.Pow) and b >= 0: return a ** b
            if isinstance(op, ast.FloorDiv) and b: return a // b
            if isinstance(op, ast.Mod) and b: return a % b
        x, y = self.num(a), self.num(b)
        if isinstance(op, ast.Add): return x + y
        if isinstance(op, ast.Sub): return x - y
        if isinstance(op, ast.Mult): return x * y
        if isinstance(op, ast.Div):
            if y.iszero():
                raise PyRaise('ZeroDivisionError')
            return x / y
        if isinstance(op, ast.Pow): return power(x, y)
        if isinstance(op, ast.FloorDiv): return app('floor', x / y, sort='I')
        if isinstance(op, ast.Mod): return x - y * app('floor', x / y, sort='I')
        raise PyUnsupported('operator')

    def index(self, s, env):
        """a subscript as a tuple of ints / Polys / slices"""
        items = s.elts if isinstance(s, ast.Tuple) else [s]
        out = []
        for i in items:
            if isinstance(i, ast.Slice):
                q = [None if z is None else self.ev(z, env) for z in (i.lower, i.upper, i.step)]
                if not all(z is None or isinstance(z, int) for z in q):
                    raise PyUnsupported('symbolic slice')
                out.append(slice(*q))
            else:
                v = self.ev(i, env)
                if isinstance(v, Poly) and v.isconst():
                    c = Fraction(v.cval())
                    if c.denominator != 1:
                        raise PyRaise('IndexError: float index')
                    v = int(c)
                if isinstance(v, Poly) and poly_sort(v) != 'I':
                    raise PyUnsupported('real subscript')
                if not isinstance(v, (int, Poly)):
                    raise PyUnsupported('subscript')
                out.append(v)
        return out

    def getitem(self, a, ix):
        for q, i in enumerate(ix):
            if isinstance(a, dict):
                if i not in a: raise PyRaise('KeyError')
                a = a[i]
                continue
            if isinstance(a, tuple):
                a = Arr(a, 'list')
            if not isinstance(a, Arr):
                raise PyRaise('TypeError: not subscriptable')
            if isinstance(i, slice):
                if i == slice(None) and q == len(ix) - 1:
                    return a
                if q == len(ix) - 1:
                    return Arr(a.d[i], a.kind)
                raise PyUnsupported('slice')
            if isinstance(i, Poly):
                n = len(a)
                ok = land(ge(i, 0 if self.nowrap else -n), lt(i, n))
                if self.ctx.decide(ok) is not True:
                    if not self.truth(B(ok)):
                        raise PyRaise('IndexError')
                if self.ctx.decide(ge(i, 0)) is not True:
                    if not self.truth(B(ge(i, 0))):
                        i = i + n
                if not a.name:
                    raise PyUnsupported('symbolic subscript of %s' % a.name)
                e = a.d[0]
                if isinstance(e, Arr):
                    a = Arr([app('tab_' + a.name, i, P(c)) for c in range(len(e))], 'array', (a.name, i))
                elif all(isinstance(x, int) for x in a.d):
                    t = app('tab_' + a.name, i, sort='I')
                    lo, hi = min(a.d), max(a.d)
                    a = t
                    self.assume(ge(t, lo))
                    self.assume(le(t, hi))
                else:
                    a = app('tab_' + a.name, i)
            else:
                if not (0 if self.nowrap else -len(a)) <= i < len(a):
                    raise PyRaise('IndexError')
                e = a.d[i]
                if isinstance(e, Arr) and a.name:
                    e.tab = (a.name, P(i % len(a)))
                a = e
        return a

    def attr(self, v, n):
        if isinstance(v, Mod):
            if n == 'pi':
                return PI
            return Mod(v.name + '.' + n)
        if isinstance(v, Arr) and n == 'T' and not any(isinstance(x, Arr) for x in v.d):
            return v
        if isinstance(v, Arr) and n == 'size' and not any(isinstance(x, Arr) for x in v.d):
            return len(v)
        if isinstance(v, Arr) and n == 'shape':
            return (len(v),) + ((len(v.d[0]),) if v.d and isinstance(v.d[0], Arr) else ())
        if isinstance(v, Arr):
            return ('method', v, n)
        raise PyUnsupported('attribute ' + n)

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            v = e.value
            if isinstance(v, float):
                return const(Fraction(repr(v)))
            if v is None or isinstance(v, (int, str)):
                return v
            raise PyUnsupported('constant')
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.glob:
                return self.glob[e.id]
            if e.id in self.funcs:
                return self.funcs[e.id]
            if e.id in self.models:
                return ('model', e.id)
            if e.id in ('numpy', 'math', 'random', 'np'):
                return Mod({'np': 'numpy'}.get(e.id, e.id))
            if e.id in ('len', 'range', 'abs', 'int', 'float', 'min', 'max', 'sum', 'print', 'list', 'tuple', 'enumerate', 'zip', 'bool', 'all', 'any'):
                return Mod(e.id)
            raise PyRaise("NameError: name '%s' is not defined" % e.id)
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return (not v) if not isinstance(v, (B, Poly, Arr)) else (B(lnot(v.c)) if isinstance(v, B) else not self.truth(v))
            if isinstance(e.op, ast.USub):
                return self.binop(ast.Sub(), 0, v) if isinstance(v, Arr) else -v
            if isinstance(e.op, ast.UAdd):
                return v
            raise PyUnsupported('unary')
        if isinstance(e, ast.Compare):
            l = self.ev(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                r = self.ev(r, env)
                c = self.cmp(op, l, r)
                if len(e.ops) == 1:
                    return c
                if not self.truth(c):
                    return False
                l = r
            return True
        if isinstance(e, ast.BoolOp):
            for x in e.values[:-1]:
                v = self.ev(x, env)
                t = self.truth(v)
                if t != isinstance(e.op, ast.And):
                    return t if isinstance(v, B) else v
            return self.ev(e.values[-1], env)
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        if isinstance(e, ast.List):
            return Arr([self.ev(x, env) for x in e.elts], 'list')
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, env) for x in e.elts)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            out = []
            self.comp(e.generators, 0, dict(env), lambda en: out.append(self.ev(e.elt, en)))
            return Arr(out, 'list')
        if isinstance(e, ast.Attribute):
            return self.attr(self.ev(e.value, env), e.attr)
        if isinstance(e, ast.Subscript):
            return self.getitem(self.ev(e.value, env), self.index(e.slice, env))
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env)
            if any(isinstance(x, ast.Starred) for x in e.args):
                raise PyUnsupported('starred')
            args = [self.ev(x, env) for x in e.args]
            kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
            return self.call(f, args, kw)
        if isinstance(e, ast.JoinedStr):
            return ''
        raise PyUnsupported(type(e).__name__)

    def comp(self, gens, q, env, emit):
        if q == len(gens):
            return emit(env)
        for v in self.items(self.ev(gens[q].iter, env)):
            self.bind(gens[q].target, v, env)
            if all(self.truth(self.ev(c, env)) for c in gens[q].ifs):
                self.comp(gens, q + 1, env, emit)

    def items(self, v):
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Arr):
            return list(v.d)
        if isinstance(v, (tuple, list)):
            return list(v)
        raise PyUnsupported('iteration over a symbolic range')

    def fn1(self, n, x):
        x = self.num(x)
        if n == 'sqrt':
            return sqrt(x)
        if n in ('fabs', 'abs', 'absolute'):
            return absx(x)
        if n in ('floor',):
            if x.isconst():
                return math.floor(Fraction(x.cval()))
            return app('floor', x, sort='I')
        n = {'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan'}.get(n, n)
        if n == 'acos' and P(x).isconst() and Fraction(P(x).cval()) in (-1, 0, 1):
            return PI * Fraction(1 - int(P(x).cval()), 2)
        return app(n, x)

    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_user(f.node.name, args, kw)
        if isinstance(f, tuple) and f and f[0] == 'model':
            return self.call_user(f[1], args, kw)
        if isinstance(f, tuple) and f and f[0] == 'method':
            _, a, n = f
            if n == 'copy' and not args:
                return a.copy()
            if n == 'append' and a.kind == 'list':
                a.d.append(args[0])
                return None
            if n == 'dot':
                return self.dot(a, args[0])
            raise PyUnsupported('method ' + n)
        if not isinstance(f, Mod):
            raise PyUnsupported('call')
        n = f.name
        base = n.split('.')[-1]
        if n == 'print':
            return None
        if n == 'len':
            if isinstance(args[0], (Arr, tuple)):
                return len(args[0]) if not isinstance(args[0], Arr) else len(args[0].d)
            raise PyRaise('TypeError: object has no len()')
        if n == 'range':
            if all(isinstance(a, int) for a in args):
                return range(*args)
            raise PyUnsupported('symbolic range')
        if n in ('enumerate', 'zip', 'list', 'tuple'):
            its = [self.items(a) for a in args]
            if n == 'enumerate':
                return list(enumerate(its[0]))
            if n == 'zip':
                return list(zip(*its))
            return Arr(its[0], 'list') if n == 'list' else tuple(its[0])
        if n == 'float':
            return self.num(args[0]) if isinstance(args[0], (int, Poly)) else args[0]
        if n == 'int' and isinstance(args[0], int):
            return int(args[0])
        if n in ('abs', 'math.fabs', 'math.sqrt', 'math.sin', 'math.cos', 'math.tan', 'math.asin', 'math.acos', 'math.atan', 'math.floor', 'math.exp') or \
           n.startswith('numpy.') and base in ('sqrt', 'sin', 'cos', 'abs', 'absolute', 'fabs', 'arcsin', 'arccos', 'floor', 'exp'):
            if isinstance(args[0], Arr):
                if not n.startswith('numpy') and n != 'abs':
                    raise PyRaise('TypeError')
                return Arr([self.fn1(base, x) for x in args[0].d])
            return self.fn1(base, args[0])
        if n in ('numpy.array', 'numpy.asarray', 'numpy.copy'):
            def conv(a):
                return Arr([conv(x) if isinstance(x, (Arr, tuple)) else x for x in (a.d if isinstance(a, Arr) else a)])
            if n == 'numpy.asarray' and isinstance(args[0], Arr) and args[0].kind == 'array':
                return args[0]
            return conv(args[0])
        if n in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.zeros_like', 'numpy.empty_like'):
            v = 1 if base == 'ones' else 0
            s = args[0]
            if base.endswith('_like'):
                return Arr([v] * len(s))
            if isinstance(s, int):
                return Arr([v] * s)
            s = list(s) if isinstance(s, tuple) else s.d
            if len(s) == 1:
                return Arr([v] * s[0])
            return Arr([Arr([v] * s[1]) for _ in range(s[0])])
        if n == 'numpy.dot':
            return self.dot(*args)
        if n == 'numpy.linalg.norm' and len(args) == 1:
            return sqrt(self.dot(args[0], args[0]))
        if n in ('numpy.sum', 'sum', 'math.fsum'):
            r = 0
            for x in self.items(args[0]):
                r = self.binop(ast.Add(), r, x)
            return r
        if n in ('min', 'max'):
            l = self.items(args[0]) if len(args) == 1 else args
            r = l[0]
            for x in l[1:]:
                if self.truth(self.cmp(ast.Lt() if n == 'min' else ast.Gt(), x, r)):
                    r = x
            return r
        if n == 'random.uniform':
            u = self.fresh('u')
            a, b = self.num(args[0]), self.num(args[1])
            self.assume(ge(u, a))
            self.assume(le(u, b))
            return u
        if n == 'random.random':
            u = self.fresh('u')
            self.assume(ge(u, 0))
            self.assume(lt(u, 1))
            return u
        raise PyUnsupported('call of ' + n)

    def dot(self, a, b):
        r = ZERO
        if len(a.d) != len(b.d):
            raise PyRaise('ValueError: shapes')
        for x, y in zip(a.d, b.d):
            r = r + self.num(x) * self.num(y)
        return r

    def bindargs(self, node, args, kw):
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise PyUnsupported('signature')
        names = [x.arg for x in a.args]
        if len(args) > len(names):
            raise PyRaise('TypeError: too many arguments')
        env = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names or k in env:
                raise PyRaise('TypeError: argument ' + k)
            env[k] = v
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.ev(d, {})
        for n in names:
            if n not in env:
                raise PyRaise('TypeError: missing argument ' + n)
        return env, names

    def call_user(self, name, args, kw):
        if name not in self.funcs and name in self.models:
            return self.models[name](self, *args)
        node = self.funcs[name].node
        env, names = self.bindargs(node, args, kw)
        if name in self.models:
            return self.models[name](self, *[env[n] for n in names])
        self.depth = getattr(self, 'depth', 0) + 1
        if self.depth > 20:
            raise PyUnsupported('recursion')
        try:
            r = self.block(node.body, env)
        finally:
            self.depth -= 1
        return r[1] if r and r[0] == 'return' else None

    # ---- statements
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
            if t.id in self.globals_of and env is not self.glob:
                raise PyUnsupported('assignment to a global')
        elif isinstance(t, (ast.Tuple, ast.List)):
            l = self.items(v)
            if len(l) != len(t.elts):
                raise PyRaise('ValueError: unpack')
            for x, y in zip(t.elts, l):
                self.bind(x, y, env)
        elif isinstance(t, ast.Subscript):
            a = self.ev(t.value, env)
            ix = self.index(t.slice, env)
            if not isinstance(a, Arr):
                raise PyRaise('TypeError: item assignment')
            if len(ix) > 1 and not isinstance(ix[0], slice):
                a = self.getitem(a, ix[:1])
                ix = ix[1:]
            if len(ix) != 1:
                raise PyUnsupported('subscript')
            i = ix[0]
            if isinstance(i, slice):
                n = len(a.d[i])
                vals = self.items(v) if isinstance(v, (Arr, tuple)) else [v] * n
                if len(vals) != n:
                    raise PyRaise('ValueError: shapes')
                a.d[i] = vals
            elif isinstance(i, int):
                if not (0 if self.nowrap else -len(a)) <= i < len(a):
                    raise PyRaise('IndexError')
                if a.kind == 'array' and isinstance(a.d[i], Arr):
                    vals = self.items(v)
                    if len(vals) != len(a.d[i]):
                        raise PyRaise('ValueError: shapes')
                    a.d[i].d[:] = vals
                else:
                    a.d[i] = v
            else:
                raise PyUnsupported('symbolic store')
        else:
            raise PyUnsupported('target')

    globals_of = frozenset()
    nowrap = False

    def block(self, body, env):
        for s in body:
            r = self.stmt(s, env)
            if r is not None:
                return r
        return None

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.bind(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                cur = self.ev(s.target, env)
                v = self.binop(s.op, cur, self.ev(s.value, env))
                if isinstance(cur, Arr):
                    cur.d[:] = v.d
                else:
                    self.bind(s.target, v, env)
            else:
                cur = self.getitem(self.ev(s.target.value, env), self.index(s.target.slice, env))
                self.bind(s.target, self.binop(s.op, cur, self.ev(s.value, env)), env)
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        elif isinstance(s, ast.If):
            return self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env)
            if self.loops and isinstance(it, range) and len(it) >= self.loops.minlen:
                return self.loops.run(self, s, it, env)
            for v in self.items(it):
                self.bind(s.target, v, env)
                r = self.block(s.body, env)
                if r is not None:
                    if r[0] == 'break':
                        break
                    if r[0] == 'return':
                        return r
            else:
                return self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(200):
                if not self.truth(self.ev(s.test, env)):
                    return self.block(s.orelse, env)
                r = self.block(s.body, env)
                if r is not None:
                    if r[0] == 'break':
                        return None
                    if r[0] == 'return':
                        return r
            raise PyUnsupported('while loop')
        elif isinstance(s, ast.Return):
            return ('return', None if s.value is None else self.ev(s.value, env))
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env)):
                raise PyRaise('AssertionError')
        elif isinstance(s, (ast.Pass, ast.Global, ast.Import, ast.ImportFrom, ast.FunctionDef)):
            pass
        elif isinstance(s, ast.Break):
            return ('break', None)
        elif isinstance(s, ast.Continue):
            return ('continue', None)
        elif isinstance(s, ast.Raise):
            raise PyRaise('raise statement')
        else:
            raise PyUnsupported(type(s).__name__)
        return None
