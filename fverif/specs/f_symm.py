"""Symmetry tables and the search for the nearest equivalent (source/fortran/quat.f)

The bodies are translated statement by statement from the current source
(f2py.py) and verified path by path; the saved tables are what the first-call
block computes, the search loop needs an invariant (kept row is the best)."""
import math, time
from fractions import Fraction
import numpy
from sym import *
import sym
import pyvc
from pyvc import Arr, PyUnsupported, PyRaise
from pyspec import fort, FContract, Search, differs, SYM, NUM
import contract, f2py, fparse
from specs.py_quat import (X, I, vec, norm2, normalized, product, conj, exact_table, numeric_table, rowdiff, rowimage, searchgen, dist, quat, E2, exact, PIF)

F = 'quat.f'
CNT = {4: 48, 2: 4, 1: 9}
DIFF = {4: ('quatdiffsq4', 'quatrotatediffsq4'), 2: ('quatdiffsq2', 'quatrotatediffsq2'), 1: ('quatdiffabs1', 'quatrotatediffabs1')}
CRIT = {4: (2 * app('sin', pyvc.PI * Fraction(1, 16)))**2, 2: (2 * app('sin', pyvc.PI * Fraction(1, 8)))**2, 1: pyvc.PI * Fraction(1, 4)}
J = I('anyrow')


def state(unit, n):
    """saved variables after the first call; tables get names"""
    c = FContract('C05', F, unit, {}, None, None, None)
    st = c.initial(unit)
    for k, v in st.items():
        if isinstance(v, Arr):
            v.name = ('f_q%d' if isinstance(v.d[0], Arr) or not isinstance(v.d[0], int) else 'f_c%d') % n
    return st


def tables(unit, n):
    """(rotations, inverse indices) among the saved arrays, by shape and type"""
    st = state(unit, n)
    T = [v for v in st.values() if isinstance(v, Arr) and len(v) == CNT[n] and (len(v.d[0]) == n if isinstance(v.d[0], Arr) else n == 1 and not all(isinstance(x, int) for x in v.d))]
    C = [v for v in st.values() if isinstance(v, Arr) and len(v) == CNT[n] and all(isinstance(x, int) for x in v.d)]
    if len(T) != 1 or len(C) != 1:
        raise PyUnsupported('tables not found')
    return T[0], C[0]


def same(a, b):
    from sym import Ctx
    ctx = Ctx().assume_all(PIF)
    return differs(a, b, ctx) is None


# ------------------------------------------------------------------- tables
def table(n):
    lab = 'table for %d components' % n

    def run(env):
        import pyspec
        t = time.time()
        # what the compiled code answers for every index
        c = FContract('C05', F, 'quatsymmrotate%d' % n, {}, None, None, None)
        c.env, c.outs = env, ['iq', 'q_prime'] if n == 1 else ['iq']
        viol, notes, cnt = None, [], CNT[n]
        try:
            got = inchild(env, lambda: rows(c.real().ns['quatsymmrotate%d' % n], n))
            if got is None:
                viol = dict(output='table', input='indices 1 to %d and their negatives' % cnt, got='the program stops', expected='a rotation')
            else:
                v = numeric_table('qr%d' % n, got[0], [x - 1 for x in got[1]], n, cnt)
                if v:
                    viol = v
        except Exception as e:
            notes.append('not executed: %s' % e)
        try:
            T, C = tables('quatsymmrotate%d' % n, n)
            T2, C2 = tables('quatfindsymm%d' % n, n)
            obls = exact_table(lab, T, Arr([x - 1 for x in C.d]), n, cnt)
            ok = same(T, T2) and same(C, C2)
            obls.append(('table', lab + ': the search and the rotation use the same table', 'proved' if ok else 'undecided', '', 0, cnt))
        except (PyUnsupported, PyRaise, KeyError, SymError, ValueError, TypeError, f2py.NoTranslation, fparse.FError) as e:
            obls = [('table', lab, 'undecided', 'out of reach: %s' % e, time.time() - t, 1)]
        for o in obls:
            if o[2] != 'proved':
                notes.append('%s: %s' % (o[1], o[3][:300]))
        return obls, viol, dict(evals=2 * cnt, runs=2 * cnt, notes=notes)
    contract.LEMMAS.append(('C05', 'quat.f ' + lab, run, {}))


def inchild(env, f):
    import os, pickle, tempfile
    import pyspec
    p = os.path.join(tempfile.mkdtemp(dir=env.tmp), 'r')
    pyspec.flib(env.tmp)
    pid = os.fork()
    if pid == 0:
        try:
            r = f()
            with open(p, 'wb') as fh:
                pickle.dump(r, fh)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    if not os.path.exists(p):
        return None
    with open(p, 'rb') as fh:
        return pickle.load(fh)


def rows(f, n):
    T, C = [], []
    for i in range(1, CNT[n] + 1):
        if n == 1:
            T.append(f(0., i, 0.)[1])
            C.append(f(0., -i, 0.)[0])
        else:
            q, o = numpy.array([1.] + [0.] * (n - 1)), numpy.zeros(n)
            f(q, i, o)
            T.append(o.tolist())
            C.append(f(q, -i, o)[0])
    return T, C


for _n in (4, 2, 1):
    table(_n)

_TT = {}


def truth(n):
    """the group written down independently of the code (order: the code's own,
    found by asking the compiled rotation for every index)"""
    if n not in _TT:
        if n == 1:
            _TT[n] = [k * math.pi / 2 for k in range(-4, 5)]
        elif n == 2:
            _TT[n] = [[1., 0.], [0., 1.], [-1., 0.], [0., -1.]]
        else:
            h = math.sqrt(.5)
            L = []
            for i in range(4):
                for s in (1., -1.):
                    L.append([s if j == i else 0. for j in range(4)])
            for i in range(4):
                for j in range(i):
                    for s in (h, -h):
                        for t in (h, -h):
                            L.append([s if k == i else t if k == j else 0. for k in range(4)])
            for b in range(16):
                L.append([.5 if b >> k & 1 else -.5 for k in range(4)])
            _TT[n] = L
    return _TT[n]


# ----------------------------------------------------------- applying a rotation
def rowvals(n, j, ctx, T):
    if j.isconst():
        v = T.d[int(j.cval()) - 1]
        return [P(x) for x in v.d] if n > 1 else [P(v)]
    return [app('tab_f_q%d' % n, j - 1, P(c)) for c in range(n)] if n > 1 else [app('tab_f_q1', j - 1)]


def rotpost(n):
    def post(it, ctx, got, after, before):
        iq = P(before[1])
        T, C = tables('quatsymmrotate%d' % n, n)
        q = [P(x) for x in before[0].d] if n > 1 else [P(before[0])]
        neg = ctx.decide(lt(iq, 0))
        if neg is None:
            return 'sign of the index on this path', None
        want = app('tab_f_c%d' % n, -iq - 1, sort='I') if neg else iq
        if differs(got[0], want, ctx):
            return 'index used', None
        for j in (want, P(1)):
            if j is not want and ctx.decide(eq(want, 1)) is not True:
                continue
            r = rowvals(n, j, ctx, T)
            w = product(q, r) if n > 1 else [q[0] + r[0]]
            g = after[2].d if n > 1 else [got[1]]
            if not any(differs(a, b, ctx) for a, b in zip(g, w)):
                if n > 1:
                    before[2] = after[2]
                return None
        return 'q_prime', None
    return post


def rotcheck(n):
    def f(got, a, b, cfg, real):
        iq = b[1]
        T = truth(n)
        o = [got[1]] if n == 1 else a[2].tolist()
        q = [b[0]] if n == 1 else b[0].tolist()
        eqs = [[q[0] + t] for t in T] if n == 1 else [product(q, t) for t in T]
        sc = max([abs(x) for x in q + o] + [1.])
        if not (1 <= got[0] <= CNT[n]):
            return 'index', got[0], 'between 1 and %d' % CNT[n]
        if iq > 0 and got[0] != iq:
            return 'index', got[0], iq
        if min(max(abs(x - y) for x, y in zip(o, e)) for e in eqs) > 1e-11 * sc:
            return 'q_prime', o, 'a symmetry equivalent of the argument'
        if iq == 1 and o != q:
            return 'q_prime', o, q
        # the recorded inverse undoes it
        f = real.ns['quatsymmrotate%d' % n]
        if n == 1:
            back = [f(got[1], -got[0], 0.)[1]]
        else:
            w = numpy.zeros(n)
            f(a[2].copy(), -got[0], w)
            back = w.tolist()
        if max(abs(x - y) for x, y in zip(back, q)) > 1e-11 * sc:
            return 'inverse rotation', back, q
        if n > 1:
            a[2][:] = b[2]
    return f


def rotgen(n):
    def f(rng, cfg, pool):
        N = CNT[n]
        iq = rng.choice([-1, 1]) * rng.randrange(1, N + 1)
        if n == 1:
            return [rng.uniform(-4, 4), iq, rng.uniform(-1, 1)]
        return [quat(rng, n, pool), iq, numpy.array([rng.gauss(0, 1) for _ in range(n)])]
    return f


def rotsetup(n):
    def f(cfg):
        N = CNT[n]
        i = I('iq')
        return [vec('q', n) if n > 1 else X('q'), i, vec('w', n) if n > 1 else X('w')], [ge(i, -N), le(i, N), lnot(eq(i, 0))]
    return f


for _n in (4, 2, 1):
    fort('C05', F, 'quatsymmrotate%d' % _n, [dict(n=_n)], outs=['iq'] + (['q_prime'] if _n == 1 else []), setup=rotsetup(_n), model=None, post=rotpost(_n),
         check=rotcheck(_n), gen=rotgen(_n), glob=lambda cfg, n=_n: state('quatsymmrotate%d' % n, n), more=4)


# ------------------------------------------------------------------- search
def image(n):
    return (lambda j: Arr([app('rowimage', j, P(c)) for c in range(n)])) if n > 1 else (lambda j: app('rowimage', j, ZERO))


def searchmodels(n):
    def f(args):
        q1, q2 = args[0], args[1]

        def d(it, a, b, s):
            if differs(a, q1, it.ctx) or differs(b, q2, it.ctx):
                raise PyUnsupported('comparison of something else')
            return (rowdiff(ONE),)

        def row(it, r):
            if n > 1:
                if not (isinstance(r, Arr) and r.tab and r.tab[0] == 'f_q%d' % n):
                    raise PyUnsupported('comparison with something else than a table row')
                return P(r.tab[1]) + 1
            at = sym.atom_of(P(r)) if not P(r).isconst() else None
            if at is not None and at.kind == 'f' and at.args[0] == 'tab_f_q1':
                return at.args[1][0] + 1
            T, C = tables('quatfindsymm1', 1)
            k = [i for i, x in enumerate(T.d) if (P(x) - P(r)).iszero()]
            if not k:
                raise PyUnsupported('not a table entry')
            return P(k[0] + 1)

        def dr(it, a, b, r, w, s):
            if differs(a, q1, it.ctx) or differs(b, q2, it.ctx):
                raise PyUnsupported('comparison of something else')
            j = row(it, r)
            if n > 1:
                w.d[:] = image(n)(j).d
                return (rowdiff(j),)
            return image(1)(j), rowdiff(j)
        return {DIFF[n][0]: d, DIFF[n][1]: dr}
    return f


def searchsetup(n):
    def f(cfg):
        # the image under the first row (no rotation) is the argument itself
        return [vec('p', n) if n > 1 else X('p'), image(n)(ONE), I('iq'), vec('w', n) if n > 1 else X('w')], []
    return f


def searchpost(n):
    def post(it, ctx, got, after, before):
        k = P(got[0])
        im = after[3] if n > 1 else got[1]
        if not k.isconst() and ctx.decide(eq(k, 1)) is True:
            k = ONE
        if differs(im, image(n)(k), ctx):
            return 'q2_prime is not the image of q2 under the reported rotation', None
        if prove(ge(k, 1), ctx) is not True or prove(le(k, CNT[n]), ctx) is not True:
            return 'reported index outside the table', None
        facts = ctx.assume(ge(J, 1)).assume(le(J, CNT[n])).assume(lor(gt(rowdiff(k), CRIT[n]), le(rowdiff(k), rowdiff(J))))
        if prove(le(rowdiff(k), rowdiff(J)), facts) is not True:
            return 'the nearest symmetry equivalent', None
        if n > 1:
            before[3] = after[3]
        return None
    return post


def fgen(n):
    g = searchgen(n)

    def f(rng, cfg, pool):
        a = g(rng, cfg, pool)
        N = CNT[n]
        a[2] = rng.choice([1, 1, rng.randrange(-N, N + 1), rng.choice([0, N, -N, N + 1, -N - 1, 1000, -1000, -1, 2])])
        return a + [numpy.zeros(n) if n > 1 else 0.]
    return f


def fcheck(n):
    def f(got, a, b, cfg, real):
        q1, q2 = b[0], b[1]
        g = got[1] if n == 1 else a[3].tolist()
        T = truth(n)
        eqs = [q2 + t for t in T] if n == 1 else [product(list(q2), t) for t in T]
        scale = max(1., abs(g)) if n == 1 else max([abs(x) for x in g] + [1e-300])
        off = min(abs(g - e) if n == 1 else max(abs(x - y) for x, y in zip(g, e)) for e in eqs)
        if off > 1e-9 * scale:
            return 'q2_prime', g, 'a symmetry equivalent of q2'
        if n == 1 and not any(abs(q1 - e) <= math.pi / 4 for e in eqs):
            eqs = eqs
        best = min(dist(n, q1, e) for e in eqs)
        if dist(n, q1, g) > best + 1e-7:
            return 'distance to the reference', dist(n, q1, g), best
        if not 1 <= got[0] <= CNT[n]:
            return 'iq', got[0], 'between 1 and %d' % CNT[n]
        import ctypes
        lib = real.lib
        i = ctypes.c_int(got[0])
        if n == 1:
            o = ctypes.c_double(0)
            lib.quatsymmrotate1_(ctypes.byref(ctypes.c_double(float(q2))), ctypes.byref(i), ctypes.byref(o))
            r = [o.value]
            g = [g]
        else:
            o = (ctypes.c_double * n)()
            getattr(lib, 'quatsymmrotate%d_' % n)((ctypes.c_double * n)(*q2), ctypes.byref(i), o)
            r = list(o)
        if max(abs(x - y) for x, y in zip(r, g)) > 1e-9 * scale:
            return 'image of q2 under the reported index', r, g
        if n > 1:
            a[3][:] = b[3]
    return f


for _n in (4, 2, 1):
    fort('C05', F, 'quatfindsymm%d' % _n, [dict(n=_n)], outs=['iq'] + (['q2_prime'] if _n == 1 else []), setup=searchsetup(_n), model=None, post=searchpost(_n),
         check=fcheck(_n), gen=fgen(_n), glob=lambda cfg, n=_n: state('quatfindsymm%d' % n, n), models=searchmodels(_n),
         loops=lambda args, n=_n: Search({'value': rowdiff, 'image': image(n), 'index': lambda j: P(j)}, J, minlen=4), more=4)


# -------------------------------------------------------------- dispatchers
def dispmodels(args):
    def rot(n):
        def m(it, q, iq, w):
            qs = [P(x) for x in q.d] if n > 1 else [P(q)]
            r = [app('rotated', P(n), P(iq), P(c), *qs) for c in range(n)]
            i2 = app('rotindex', P(n), P(iq), sort='I')
            if n > 1:
                w.d[:] = r
                return (i2,)
            return i2, r[0]
        return m

    def find(n):
        def m(it, a, b, iq, w):
            qs = [P(x) for x in a.d + b.d] if n > 1 else [P(a), P(b)]
            r = [app('found', P(n), P(iq), P(c), *qs) for c in range(n)]
            i2 = app('foundindex', P(n), P(iq), *qs, sort='I')
            if n > 1:
                w.d[:] = r
                return (i2,)
            return i2, r[0]
        return m
    out = {}
    for n in (1, 2, 4):
        out['quatsymmrotate%d' % n] = rot(n)
        out['quatfindsymm%d' % n] = find(n)
    return out


def disppost(kind, n):
    def post(it, ctx, got, after, before):
        iq = P(before[1 if kind == 'rotated' else 2])
        qs = [P(x) for x in before[0].d] + ([P(x) for x in before[1].d] if kind == 'found' else [])
        w = [app(kind, P(n), iq, P(c), *qs) for c in range(n)]
        i2 = app('rotindex', P(n), iq, sort='I') if kind == 'rotated' else app('foundindex', P(n), iq, *qs, sort='I')
        o = 2 if kind == 'rotated' else 3
        if differs(got[0], i2, ctx) or any(differs(a, b, ctx) for a, b in zip(after[o].d, w)):
            return 'the operation for %d components' % n, None
        before[o] = after[o]
    return post


def arr(x):
    return x if isinstance(x, numpy.ndarray) else numpy.array([float(x)])


def through(real, n, check, fname):
    """the check for n components, with scalars as vectors of length one"""
    def f(got, a, b, cfg, real2):
        if n == 1:
            o = len(a) - 2
            g = (got[0], float(a[o][0]))
            r = check(g, [x if not isinstance(x, numpy.ndarray) else float(x[0]) for x in a[:-1]],
                      [x if not isinstance(x, numpy.ndarray) else float(x[0]) for x in b[:-1]], cfg, Shim(real2.lib, 1))
            if not r:
                a[o][:] = b[o]
            return r
        return check(got, a[:-1], b[:-1], cfg, Shim(real2.lib, n))
    return f


class Shim:
    def __init__(self, lib, n):
        import ctypes
        self.lib = lib

        def f(q, i, o):
            j = ctypes.c_int(i)
            if n == 1:
                r = ctypes.c_double(0)
                lib.quatsymmrotate1_(ctypes.byref(ctypes.c_double(float(q))), ctypes.byref(j), ctypes.byref(r))
                return j.value, r.value
            r = (ctypes.c_double * n)()
            getattr(lib, 'quatsymmrotate%d_' % n)((ctypes.c_double * n)(*q), ctypes.byref(j), r)
            o[:] = list(r)
            return (j.value,)
        self.ns = {'quatsymmrotate%d' % n: f}


for _n in (4, 2, 1):
    fort('C05', F, 'quatsymmrotate', [dict(n=_n)], outs=['iq'], model=None, models=dispmodels, post=disppost('rotated', _n),
         setup=lambda cfg: ([vec('q', cfg['n']), I('iq'), vec('w', cfg['n']), cfg['n']], [ge(I('iq'), -CNT[cfg['n']]), le(I('iq'), CNT[cfg['n']]), lnot(eq(I('iq'), 0))]),
         check=through(None, _n, rotcheck(_n), 'quatsymmrotate'),
         gen=lambda rng, cfg, pool: [arr(x) if i != 1 else x for i, x in enumerate(rotgen(cfg['n'])(rng, cfg, pool))] + [cfg['n']])
    fort('C05', F, 'quatfindsymm', [dict(n=_n)], outs=['iq'], model=None, models=dispmodels, post=disppost('found', _n),
         setup=lambda cfg: ([vec('p', cfg['n']), vec('q', cfg['n']), I('iq'), vec('w', cfg['n']), cfg['n']], []),
         check=through(None, _n, fcheck(_n), 'quatfindsymm'),
         gen=lambda rng, cfg, pool: [arr(x) if i != 2 else x for i, x in enumerate(fgen(cfg['n'])(rng, cfg, pool))] + [cfg['n']], more=2)


# what the search assumes of its two comparison routines: the first row (the
# identity) changes nothing, so both measure the same distance
def identity(env):
    for n in (2, 4):
        q = [X('q%d' % i) for i in range(n)]
        e = [ONE] + [ZERO] * (n - 1)
        for i, x in enumerate(product(q, e)):
            env.eq('%d: product with the identity, component %d' % (n, i), x, q[i])
    env.eq('1: sum with the identity', X('q') + 0, X('q'))
    return env.done()


contract.LEMMAS.append(('C05', 'quat.f comparison without rotation equals comparison with the identity', identity, {}))
