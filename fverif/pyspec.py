"""Contracts on the Python tools: verification of every path against the
contract, and executions of the real functions against the same contract."""
import ast, json, math, os, random, signal, sys, time, traceback
from fractions import Fraction
import numpy
import sym
from sym import *
import contract
import pyvc, f2py, fparse
from pyvc import Arr, B, Interp, PyRaise, PyUnsupported, Prune, Restart

_SRC = {}


def source(file):
    if file not in _SRC:
        text = open(os.path.join(pyvc.UTILS, file)).read()
        _SRC[file] = (text, ast.parse(text))
    return _SRC[file]


def literals(node):
    """the numbers a function mentions: boundary values for the executions"""
    out = {0., 1.}
    for n in ast.walk(node):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.add(float(n.value))
    return sorted(out)


class SymOps:
    sym = True

    def sqrt(self, x):
        return sqrt(P(x))

    def fn(self, n, x):
        return absx(P(x)) if n == 'abs' else app(n, P(x))

    def ite(self, c, a, b):
        return ite(P(c), P(a), P(b))

    lt, le, gt, ge, eq = (staticmethod(f) for f in (lt, le, gt, ge, eq))
    pi = pyvc.PI

    def c(self, x):
        return const(Fraction(repr(x)) if isinstance(x, float) else Fraction(x))

    def vals(self, q):
        return list(q.d)

    def arr(self, v):
        return Arr(v)

    def put(self, q, v):
        q.d[:] = v


class NumOps:
    sym = False
    pi = math.pi

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float('nan')

    def fn(self, n, x):
        try:
            return abs(x) if n == 'abs' else getattr(math, n)(x)
        except ValueError:
            return float('nan')

    def ite(self, c, a, b):
        return a if c else b

    def c(self, x):
        return float(x)

    lt = staticmethod(lambda a, b: a < b)
    le = staticmethod(lambda a, b: a <= b)
    gt = staticmethod(lambda a, b: a > b)
    ge = staticmethod(lambda a, b: a >= b)
    eq = staticmethod(lambda a, b: a == b)

    def vals(self, q):
        return [float(x) for x in q]

    def arr(self, v):
        return numpy.array(v, float)

    def put(self, q, v):
        for i, x in enumerate(v):
            q[i] = x


SYM, NUM = SymOps(), NumOps()


class Real:
    """the real functions, loaded from the source text (nothing is written)"""

    def __init__(self, file):
        text, tree = source(file)
        self.ns = {'__name__': 'tool_' + file.replace('.', '_'), '__file__': file}
        import io, contextlib
        self.out = io.StringIO()
        sys.dont_write_bytecode = True
        with contextlib.redirect_stdout(self.out):
            exec(compile(text, os.path.join(pyvc.UTILS, file), 'exec'), self.ns)


def moduleconsts(file, names=None):
    """evaluate the top-level assignments exactly"""
    text, tree = source(file)
    it = Interp(tree, Ctx().assume_all(pyvc.PIF))
    it.dec, it.pos, it.ctx, it.pending = [], 0, it.ctx0, []
    for s in tree.body:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.For, ast.If)):
            it.stmt(s, it.glob)
            if it.pending:
                raise PyUnsupported('undecided branch at module level')
    for n, v in it.glob.items():
        if isinstance(v, Arr):
            v.name = n
    return it.glob


def differs(got, want, ctx, path=''):
    """None if equal for all values, else (what, Result)"""
    if isinstance(got, Arr) or isinstance(want, Arr):
        if not (isinstance(got, Arr) and isinstance(want, Arr)):
            return path + ': an array expected' if isinstance(want, Arr) else path + ': no array expected', None
        if len(got) != len(want):
            return path + ': %d components, expected %d' % (len(got), len(want)), None
        for i, (a, b) in enumerate(zip(got.d, want.d)):
            d = differs(a, b, ctx, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(got, tuple) or isinstance(want, tuple):
        if not (isinstance(got, tuple) and isinstance(want, tuple) and len(got) == len(want)):
            return path + ': shape of the result', None
        for i, (a, b) in enumerate(zip(got, want)):
            d = differs(a, b, ctx, '%s(%d)' % (path, i))
            if d:
                return d
        return None
    if got is None or want is None or isinstance(got, str) or isinstance(want, str):
        return None if got is want or got == want else (path + ': %s, expected %s' % (type(got).__name__, type(want).__name__), None)
    if isinstance(got, B) or isinstance(want, B):
        got, want = (x.c if isinstance(x, B) else P(int(x)) for x in (got, want))
    r = zero(P(got) - P(want), ctx)
    return None if r else (path or 'value', r)


def whichargs(v, args):
    """the arguments the result shares memory with"""
    out = set()
    for x in (v if isinstance(v, tuple) else (v,)):
        for i, a in enumerate(args):
            if isinstance(x, (Arr, numpy.ndarray)) and isinstance(a, (Arr, numpy.ndarray)):
                if x is a or isinstance(x, numpy.ndarray) and isinstance(a, numpy.ndarray) and numpy.shares_memory(x, a):
                    out.add(i)
    return out


def clone(args):
    m = {}

    def c(a):
        if isinstance(a, Arr):
            if id(a) not in m:
                m[id(a)] = Arr([c(x) for x in a.d], a.kind, a.tab, a.name)
            return m[id(a)]
        if isinstance(a, numpy.ndarray):
            if id(a) not in m:
                m[id(a)] = a.copy()
            return m[id(a)]
        if isinstance(a, list):
            return [c(x) for x in a]
        return a
    return [c(a) for a in args]


class PyContract:
    def __init__(self, props, file, fname, cfg, setup, model, gen, post=None, check=None, models=None, loops=None, glob=None, fresh=True, tol=1e-12,
                 more=1):
        self.__dict__.update(locals())

    lang = 'py'

    def program(self):
        return source(self.file)[1]

    def real(self):
        return Real(self.file)

    # ------------------------------------------------------------- proof
    def prove(self, deadline):
        """list of (kind, label, status, detail, time, n)"""
        t0 = time.time()
        lab = '%s:%s' % (self.file, self.fname)
        try:
            tree = self.program()
            if self.fname not in [n.name for n in tree.body if isinstance(n, ast.FunctionDef)]:
                raise PyUnsupported('function not found')
            glob = {}
            if self.glob is not None:
                glob = self.glob(self.cfg)
            args, facts = self.setup(self.cfg)
            ctx = Ctx().assume_all(list(pyvc.PIF) + list(facts))
            models = {n: m for n, m in (self.models(args) if self.models else {}).items() if n != self.fname}
            loops = self.loops(args) if self.loops else None
            while True:
                if time.time() - t0 > deadline:
                    raise PyUnsupported('time limit')
                if loops:
                    loops.checked = 0
                it = Interp(tree, ctx, models, glob, loops)
                it.nowrap = self.lang == 'f'
                state = {}

                def run():
                    a = clone(args)
                    state['args'] = a
                    return ('value', it.call_user(self.fname, list(a), {}), a)
                try:
                    n = 0
                    for c, out in it.explore(run):
                        n += 1
                        if time.time() - t0 > deadline:
                            raise PyUnsupported('time limit')
                        if out[0] == 'raise':
                            if not c.feasible():
                                continue
                            return [('post', lab + ': no exception', 'undecided', 'path %d raises %s' % (n, out[1]), time.time() - t0, 1)]
                        b = clone(args)
                        if self.post:
                            d = self.post(it, c, out[1], out[2], b)
                        else:
                            want = self.model(SYM, *b)
                            d = differs(out[1], want, c, 'result')
                            if not d and whichargs(out[1], out[2]) != whichargs(want, b):
                                d = ('sharing between the result and the arguments', None)
                        if d:
                            return [('post', lab + ': ' + d[0], 'undecided', 'path %d: %s' % (n, show(d[1].resid, 8) if d[1] is not None and d[1].resid is not None else d[0]), time.time() - t0, 1)]
                        for i, (x, y) in enumerate(zip(out[2], b)):
                            if isinstance(x, Arr):
                                d = differs(x, y, c, 'argument %d afterwards' % (i + 1))
                                if d:
                                    return [('frame', lab + ': ' + d[0], 'undecided', 'path %d' % n, time.time() - t0, 1)]
                except Restart:
                    continue
                if not n:
                    return [('post', lab, 'undecided', 'no path', time.time() - t0, 1)]
                t = time.time() - t0
                obls = [('post', lab + ': result on every path', 'proved', '', t, n), ('frame', lab + ': arguments afterwards', 'proved', '', 0, n),
                        ('safety', lab + ': no exception', 'proved', '', 0, n)]
                if it.loops is not None and it.loops.checked:
                    obls.append(('invariant', lab + ': search loop invariant', 'proved', '', 0, it.loops.checked))
                return obls
        except (PyUnsupported, PyRaise, SymError, RecursionError, z3.Z3Exception, SyntaxError, f2py.NoTranslation, fparse.FError) as e:
            return [('post', lab, 'undecided', 'out of reach: %s' % e, time.time() - t0, 1)]
        except Exception as e:
            return [('post', lab, 'undecided', 'front end: %s' % traceback.format_exc()[-400:], time.time() - t0, 1)]

    # --------------------------------------------------------- executions
    def trials(self, n, seed):
        real = self.real()
        f = real.ns.get(self.fname)
        if f is None:
            return None, 0, 0, 'function %s not found' % self.fname
        try:
            node = [x for x in self.program().body if isinstance(x, ast.FunctionDef) and x.name == self.fname]
        except (f2py.NoTranslation, fparse.FError, PyUnsupported):
            node = []
        pool = literals(node[0]) if node else [0., 1.]
        rng = random.Random('%s %s' % (seed, self.fname))
        runs = evals = 0
        import io, contextlib

        def alarm(*a):
            raise TimeoutError('no result within 10 s')
        old = signal.signal(signal.SIGALRM, alarm)
        try:
            for q in range(n):
                args = self.gen(rng, self.cfg, pool)
                inp = repr([a.tolist() if isinstance(a, numpy.ndarray) else a for a in args])
                a, b = clone(args), clone(args)
                runs += 1
                if self.lang == 'f':
                    with open(self.trace, 'w') as fh:
                        fh.write(inp)
                random.seed(q + seed * 1000)
                try:
                    signal.alarm(10)
                    with contextlib.redirect_stdout(io.StringIO()), numpy.errstate(all='ignore'):
                        got = f(*a)
                    signal.alarm(0)
                except Exception as e:
                    signal.alarm(0)
                    return dict(output='exception', input=inp[:1500], got='%s: %s' % (type(e).__name__, e), expected='a result'), evals, runs, None
                evals += 1
                if self.check:
                    bad = self.check(got, a, b, self.cfg, real)
                    if bad:
                        return dict(output=bad[0], input=inp[:1500], got=repr(bad[1])[:500], expected=repr(bad[2])[:500]), evals, runs, None
                else:
                    want = self.model(NUM, *b)
                    if not self.same(got, want):
                        return dict(output='result', input=inp[:1500], got=repr(got)[:500], expected=repr(want)[:500]), evals, runs, None
                    if whichargs(got, a) != whichargs(want, b):
                        return dict(output='sharing', input=inp[:1500], got='result shares memory with arguments %s' % sorted(whichargs(got, a)),
                                    expected=repr(sorted(whichargs(want, b)))), evals, runs, None
                for i, (x, y) in enumerate(zip(a, b)):
                    if isinstance(x, (numpy.ndarray, list)) and not self.same(x, y):
                        return dict(output='argument %d afterwards' % (i + 1), input=inp[:1500], got=repr(x)[:500], expected=repr(y)[:500]), evals, runs, None
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return None, evals, runs, None

    def same(self, g, w):
        if isinstance(w, (tuple, list, numpy.ndarray)):
            try:
                if isinstance(g, str) or g is None or len(g) != len(w):
                    return False
            except TypeError:
                return False
            if isinstance(w, numpy.ndarray) and w.ndim == 1 and all(isinstance(float(x), float) for x in w):
                # relative to the size of the vector
                m = max([abs(float(x)) for x in w if math.isfinite(x)] + [0.])
                return all(self.close(float(x), float(y), m) for x, y in zip(g, w))
            return all(self.same(x, y) for x, y in zip(g, w))
        if w is None or isinstance(w, str):
            return g is w or (w is not None and g == w)
        try:
            return self.close(float(g), float(w), abs(float(w)))
        except (TypeError, ValueError):
            return False

    def close(self, g, w, m):
        if w != w:
            return g != g
        if g == w:
            return True
        return abs(g - w) <= self.tol * m + 1e-300

    def run(self, env):
        self.env = env
        quick = os.environ.get('VERIF_TIER', 'quick') == 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1'))
        obls = self.prove(60 if quick else 300)
        und = any(o[2] != 'proved' for o in obls)
        n = (60 if not und else 400) * self.more * (1 if quick else 10)
        notes = []
        try:
            v, evals, runs, note = self.trials(n, seed)
        except (SyntaxError, ImportError) as e:
            v, evals, runs, note = None, 0, 0, 'the module does not load: %s' % e
        if note:
            notes.append(note)
        for o in obls:
            if o[2] != 'proved' and o[3]:
                notes.append('%s: %s' % (o[1], o[3][:300]))
        return obls, v, dict(evals=evals, runs=runs, notes=notes)


def py(props, file, fname, cfgs, **kw):
    for cfg in cfgs:
        for p in props.split():
            c = PyContract(p, file, fname, cfg, **kw)
            name = 'utils/%s %s%s' % (file, fname, '' if not cfg else ' ' + ','.join('%s=%s' % x for x in sorted(cfg.items())))
            contract.LEMMAS.append((p, name, c.run, {}))


class Search:
    """rule for a loop that tries the rows of a table and keeps the best: the
    modified variables that hold the value, the index or the image of the best
    row so far keep doing so (invariant found by elimination), every row tried
    is no better than the one kept"""

    def __init__(self, roles, J, minlen=8):
        self.roles, self.J, self.minlen = roles, J, minlen
        self.dropped, self.checked = set(), 0

    def match(self, v, j, ctx):
        """is v one of the roles at index j"""
        for name, f in self.roles.items():
            w = f(j)
            if isinstance(w, Arr) != isinstance(v, Arr) or isinstance(v, (B, tuple, str, type(None), range, Interp)):
                continue
            if isinstance(v, (pyvc.Func, pyvc.Mod, list, dict)):
                continue
            if differs(v, w, ctx) is None:
                return name
        return None

    def run(self, it, s, rng, env):
        if not isinstance(s.target, ast.Name) or s.orelse or rng.step != 1:
            raise PyUnsupported('loop shape')
        N0, N = rng.start, rng.stop
        mods, passed = set(), set()
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                mods.add(n.id)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                mods.add(n.value.id)
            if isinstance(n, ast.Call):
                passed |= {a.id for a in n.args if isinstance(a, ast.Name) and isinstance(env.get(a.id), Arr) and not env[a.id].name}
        mods.discard(s.target.id)
        # an array handed to a call keeps its value unless an iteration shows otherwise
        kept = {m: list(env[m].d) for m in passed - mods if '=' + m not in self.dropped}
        mods |= passed - set(kept)
        # which variables hold what before the loop
        cands = {}
        for v in env.values():
            if isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Poly) and poly_sort(v) == 'I':
                cands.setdefault(str(v), v)
        if any(isinstance(v, Poly) and not v.isconst() and it.ctx.decide(eq(v, N0)) is True for v in cands.values()):
            cands[str(N0)] = N0
        best = None
        for v in cands.values():
            r = {m: self.match(env[m], P(v), it.ctx) for m in mods if m in env}
            r = {m: x for m, x in r.items() if x and m not in self.dropped}
            sc = sum(1 for x in r.values() if x != 'index')
            if sc and (best is None or sc > best[0]):
                best = (sc, v, r)
        if best is None:
            raise PyUnsupported('no invariant for the loop')
        i0, role = P(best[1]), best[2]
        D = self.roles['value']
        k = it.fresh('k', 'I')
        it.ghosts.append(k)
        it.ghosts.append(i0)
        it.assume(ge(k, N0))
        it.assume(lt(k, N))
        it.assume(le(D(k), D(i0)))
        for m in mods:
            if isinstance(env.get(m), Arr) and sum(1 for v in env.values() if v is env[m]) > 1:
                raise PyUnsupported('shared array modified in the loop')
        for m in mods:
            if m in role:
                v = self.roles[role[m]](k)
                if isinstance(v, Arr) and isinstance(env[m], Arr):
                    env[m].d[:] = v.d
                else:
                    env[m] = v
            elif m in env or True:
                v = env.get(m)
                if isinstance(v, Arr):
                    v.d[:] = [it.fresh(m) for _ in v.d]
                elif isinstance(v, (int, Poly)) and not isinstance(v, bool):
                    env[m] = it.fresh(m, 'I' if isinstance(v, int) or poly_sort(v) == 'I' else 'R')
                else:
                    env.pop(m, None)
        if it.pick(2) == 1:
            # all rows tried
            it.assume(lor(lnot(land(ge(self.J, N0), lt(self.J, N))), le(D(k), D(self.J))))
            return None
        nn = it.fresh('n', 'I')
        it.assume(ge(nn, N0))
        it.assume(lt(nn, N))
        env[s.target.id] = nn
        it.ghosts.append(nn)
        r = it.block(s.body, env)
        bad = {m for m, v in kept.items() if not isinstance(env[m], Arr) or differs(env[m], Arr(v), it.ctx)}
        if bad:
            self.dropped |= {'=' + m for m in bad}
            raise Restart()
        if r is not None and r[0] in ('break', 'return'):
            return None if r[0] == 'break' else r
        # the invariant again, with nn tried as well
        for g in it.ghosts:
            if g is not nn and it.ctx.decide(eq(nn, g)) is True:
                it.ctx = it.ctx.assume(eq(D(nn), D(g)))
        if it.ctx.decide(eq(nn, N0)) is True:
            it.ctx = it.ctx.assume(eq(D(nn), D(P(N0))))
            nn = P(N0)
        for k2 in (k, nn):
            if not (prove(le(D(k2), D(k)), it.ctx) is True and prove(le(D(k2), D(nn)), it.ctx) is True):
                continue
            bad = [m for m in role if m not in env or differs(env[m], self.roles[role[m]](k2), it.ctx)]
            if not bad:
                self.checked += 1
                raise Prune()
            last = bad
        else:
            bad = locals().get('last')
            if not bad:
                raise PyUnsupported('the row kept is not the best one tried')
            keep = [m for m in role if m not in bad]
            if not any(role[m] != 'index' for m in keep):
                raise PyUnsupported('invariant not preserved')
            self.dropped |= set(bad)
            raise Restart()



class FReal:
    """the compiled units, called by reference"""

    def __init__(self, lib, fname, cu, dims, outs, ints):
        import ctypes

        def call(*args):
            cells, back = [], []
            for n, a in zip(cu.args, args):
                if isinstance(a, numpy.ndarray):
                    c = (ctypes.c_double * len(a))(*a)
                    back.append((a, c))
                else:
                    c = ctypes.c_int(int(a)) if n in ints else ctypes.c_double(float(a))
                cells.append(c)
            getattr(lib, fname + '_')(*[ctypes.byref(c) for c in cells])
            for a, c in back:
                a[:] = list(c)
            return tuple(cells[cu.args.index(o)].value for o in outs)
        self.ns = {fname: call}
        self.lib = lib


class FContract(PyContract):
    """a scalar Fortran unit; the result is the tuple of the scalars it sets"""
    lang = 'f'
    alldim = 2

    def program(self):
        src, tree, t = f2py.translate(self.file, [self.fname])
        self.tr = t
        return tree

    def real(self):
        t = f2py.Translator(open(os.path.join(f2py.FORT, self.file)).read(), self.file)
        u = t.units.get(self.fname)
        import types
        if u is None:
            return types.SimpleNamespace(ns={})
        lib = flib(self.env.tmp)
        ints = {n for n in u.args if u.vars.get(n) is not None and str(u.vars[n].type).lower().startswith('i')}
        return FReal(lib, self.fname, u, {}, self.outs, ints)

    def trials(self, n, seed):
        """in a child process: a stop statement or a failed bounds check ends it"""
        import multiprocessing, pickle, tempfile
        d = tempfile.mkdtemp(dir=self.env.tmp)
        self.trace = os.path.join(d, 'input')
        flib(self.env.tmp)
        pid = os.fork()
        if pid == 0:
            try:
                null = os.open('/dev/null', os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                r = PyContract.trials(self, n, seed)
                with open(os.path.join(d, 'result'), 'wb') as f:
                    pickle.dump(r, f)
            except BaseException:
                with open(os.path.join(d, 'error'), 'w') as f:
                    f.write(traceback.format_exc())
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        if os.path.exists(os.path.join(d, 'result')):
            with open(os.path.join(d, 'result'), 'rb') as f:
                return pickle.load(f)
        if os.path.exists(os.path.join(d, 'error')):
            return None, 0, 0, 'harness: ' + open(os.path.join(d, 'error')).read()[-400:]
        inp = open(self.trace).read() if os.path.exists(self.trace) else ''
        return dict(output='termination', input=inp[:1500], got='the program stops', expected='a result'), 0, 1, None

    def initial(self, fname, file=None):
        """saved state of a unit after its first call"""
        src, tree, t = f2py.translate(file or self.file, [fname])
        st = t.state.get(fname, []) if hasattr(t, 'state') else []
        if not st:
            return {}
        it = Interp(tree, Ctx().assume_all(pyvc.PIF), fmodels())
        it.dec, it.pos, it.ctx, it.pending = [], 0, it.ctx0, []
        v = it.call_user(fname + '__init', [], {})
        if it.pending:
            raise PyUnsupported('undecided branch in the first-call block')
        return dict(zip(st, v))


_LIB = {}


def flib(tmp):
    import ctypes, build
    k = (os.getpid(), tmp)
    if k not in _LIB:
        d = os.path.join(tmp, 'scalar%d' % os.getpid())
        so, bad = build.compile_lib(2, set(), d)
        if not os.path.exists(so):
            raise RuntimeError('compilation: %s' % bad)
        _LIB[k] = ctypes.CDLL(so)
    return _LIB[k]


def fmodels():
    def undef(it, *n):
        if not n:
            return it.fresh('undef')
        if len(n) == 1:
            return Arr([it.fresh('undef') for _ in range(n[0])])
        return Arr([Arr([it.fresh('undef') for _ in range(n[1])]) for _ in range(n[0])])
    return {'undef__': undef, 'undef__i': lambda it: it.fresh('undef', 'I')}


def fort(props, file, fname, cfgs, outs=(), **kw):
    for cfg in cfgs:
        for p in props.split():
            c = FContract(p, file, fname, cfg, **kw)
            c.outs = list(outs)
            old, c.models = c.models, None
            c.models = lambda args, old=old: dict(fmodels(), **(old(args) if old else {}))
            name = '%s %s%s' % (file, fname, '' if not cfg else ' ' + ','.join('%s=%s' % x for x in sorted(cfg.items())))
            contract.LEMMAS.append((p, name, c.run, {}))
