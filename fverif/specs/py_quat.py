"""utils/quat.py: quaternion algebra of the pre-processing tools (C04) and
their symmetry operations (C05)."""
import math, itertools, time
from fractions import Fraction
import numpy
import sym
from sym import *
import contract
from pyvc import Arr, PI, PIF, PyUnsupported
from pyspec import py, moduleconsts, differs, Search, SYM, NUM, Real, PyRaise

F = 'quat.py'
LEN = [dict(n=2), dict(n=4)]
I = lambda n: var(n, 'I')
X = lambda n: var(n)


def vec(name, n):
    return Arr([X('%s%d' % (name, i)) for i in range(n)])


# ------------------------------------------------------------- inputs
def component(rng, pool):
    x = rng.random()
    if x < .5:
        return rng.gauss(0, 1)
    if x < .62:
        return 0.
    if x < .72:
        return rng.choice([1., -1., .5, -.5, 2., -3.])
    if x < .8:
        return rng.choice(pool) * rng.choice([1, -1]) * rng.choice([1, 1, 1 + 1e-9, 1 - 1e-9, 1.5, .5])
    if x < .86:
        return rng.gauss(0, 1) * 10. ** rng.randint(-16, -3)
    if x < .92:
        return rng.gauss(0, 1) * 10. ** rng.randint(1, 8)
    return rng.gauss(0, 3)


def quat(rng, n, pool):
    x = rng.random()
    if x < .5:
        v = numpy.array([rng.gauss(0, 1) for _ in range(n)])
        if x < .25:
            v /= math.sqrt(sum(v * v))
        return v
    if x < .56:
        v = numpy.zeros(n)
        v[rng.randrange(n)] = rng.choice([1., -1.])
        return v
    if x < .6:
        return numpy.zeros(n)
    if x < .66:
        m = 10. ** rng.uniform(-17, -13)
        v = numpy.array([rng.gauss(0, 1) for _ in range(n)])
        return v / math.sqrt(sum(v * v)) * m
    return numpy.array([component(rng, pool) for _ in range(n)])


def qgen(k, **extra):
    def gen(rng, cfg, pool):
        a = [quat(rng, cfg['n'], pool) for _ in range(k)]
        if k >= 2 and rng.random() < .1:
            a[1] = a[0].copy()
        if k >= 2 and rng.random() < .05:
            a[1] = -a[0]
        return a
    return gen


def nums(k):
    return lambda rng, cfg, pool: [component(rng, pool) for _ in range(k)]


# ------------------------------------------------------------- algebra
def norm2(v):
    r = 0
    for x in v:
        r = r + x * x
    return r


def normalized(o, v):
    m = o.sqrt(norm2(v))
    small = o.lt(m, o.c(1e-15))
    if not o.sym:
        return list(v) if small else [x / m for x in v]
    return [o.ite(small, x, P(x) / m) for x in v]


def product(a, b):
    if len(a) == 2:
        return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] + a[2] * b[0] + a[3] * b[1] - a[1] * b[3],
            a[0] * b[3] + a[3] * b[0] + a[1] * b[2] - a[2] * b[1]]


def conj(a):
    return [a[0]] + [-x for x in a[1:]]


def m_copy(o, q1, q2):
    o.put(q2, o.vals(q1))
    return q2


def m_dup(o, q):
    return o.arr(o.vals(q))


def m_add(o, a, b, q):
    o.put(q, [x + y for x, y in zip(o.vals(a), o.vals(b))])


def m_sub(o, a, b, q):
    o.put(q, [x - y for x, y in zip(o.vals(a), o.vals(b))])


def m_mul(o, a, b, q=0):
    v = product(o.vals(a), o.vals(b))
    if isinstance(q, (int, float, Poly)):
        return o.arr(v)
    o.put(q, v)


def m_rot(o, q, r):
    return o.arr(product(o.vals(q), o.vals(r)))


def m_conj(o, q1, q2=0):
    v = conj(o.vals(q1))
    if isinstance(q2, (int, float, Poly)):
        return o.arr(v)
    o.put(q2, v)


def m_mag(o, q):
    return o.sqrt(norm2(o.vals(q)))


def m_norm(o, q):
    o.put(q, normalized(o, o.vals(q)))


def m_diff(o, a, b, r):
    p = product(o.vals(b), o.vals(r))
    u, v = normalized(o, o.vals(a)), normalized(o, p)
    return o.sqrt(norm2([x - y for x, y in zip(v, u)])), o.arr(p)


def m_diff1(o, a, b, r):
    return o.fn('abs', b + r - a), b + r


def angle(f):
    def m(o, d):
        if not o.sym:
            return -1 if d > 2 else f * math.asin(.5 * d)
        return ite(gt(d, 2), const(-1), f * app('asin', P(d) * Fraction(1, 2)))
    return m


def made(o, *v):
    return o.arr(list(v))


def mnormed(o, *v):
    return o.arr(normalized(o, list(v)))


def mod(f):
    """contract as seen by callers"""
    return lambda it, *a: f(SYM, *a)


ALG = dict(copyQuat=mod(m_copy), duplicateQuat=mod(m_dup), addQuat=mod(m_add), subtractQuat=mod(m_sub), multiplyQuat=mod(m_mul),
           rotateQuat=mod(m_rot), conjugateQuat=mod(m_conj), quatMagnitude=mod(m_mag), normalizeQuat=mod(m_norm),
           makeQuat=lambda it, *v: Arr(list(v)), makeQuat2=lambda it, *v: Arr(list(v)))
K = dict(models=lambda args: ALG)


def qargs(*names):
    return lambda cfg: ([vec(n, cfg['n']) for n in names], [])


def sargs(*names):
    return lambda cfg: ([X(n) for n in names], [])


py('C04', F, 'makeQuat', [{}], setup=sargs('w', 'x', 'y', 'z'), model=made, gen=nums(4), **K)
py('C04', F, 'makeQuat2', [{}], setup=sargs('x', 'y'), model=made, gen=nums(2), **K)
py('C04', F, 'makeNormalizedQuat', [{}], setup=sargs('w', 'x', 'y', 'z'), model=mnormed, gen=nums(4), more=3, **K)
py('C04', F, 'makeNormalizedQuat2', [{}], setup=sargs('x', 'y'), model=mnormed, gen=nums(2), more=3, **K)
py('C04', F, 'copyQuat', LEN, setup=qargs('p', 'q'), model=m_copy, gen=qgen(2), **K)
py('C04', F, 'duplicateQuat', LEN, setup=qargs('p'), model=m_dup, gen=qgen(1), **K)
py('C04', F, 'addQuat', LEN, setup=qargs('p', 'q', 'r'), model=m_add, gen=qgen(3), **K)
py('C04', F, 'subtractQuat', LEN, setup=qargs('p', 'q', 'r'), model=m_sub, gen=qgen(3), **K)
py('C04', F, 'multiplyQuat', LEN, setup=qargs('p', 'q', 'r'), model=m_mul, gen=qgen(3), more=2, **K)
py('C04', F, 'multiplyQuat', [dict(n=2, call='returned'), dict(n=4, call='returned')], setup=qargs('p', 'q'), model=m_mul, gen=qgen(2), more=2, **K)
py('C04', F, 'rotateQuat', LEN, setup=qargs('p', 'q'), model=m_rot, gen=qgen(2), more=2, **K)
py('C04', F, 'conjugateQuat', LEN, setup=qargs('p', 'q'), model=m_conj, gen=qgen(2), **K)
py('C04', F, 'conjugateQuat', [dict(n=2, call='returned'), dict(n=4, call='returned')], setup=qargs('p'), model=m_conj, gen=qgen(1), **K)
py('C04', F, 'quatMagnitude', LEN, setup=qargs('p'), model=m_mag, gen=qgen(1), **K)
py('C04', F, 'normalizeQuat', LEN, setup=qargs('p'), model=m_norm, gen=qgen(1), more=4, **K)
py('C04', F, 'quatDiff', LEN, setup=qargs('p', 'q', 'r'), model=m_diff, gen=qgen(3), more=3, tol=1e-7, **K)
py('C04', F, 'quatDiff1', [{}], setup=sargs('p', 'q', 'r'), model=m_diff1, gen=nums(3), **K)


def dgen(rng, cfg, pool):
    return [rng.choice([0., 2., 1., 2.0000001, 3., -1., rng.uniform(0, 2), rng.uniform(-2, 2), rng.uniform(0, 2), rng.uniform(2, 5)])]


py('C04', F, 'quatAngle', [{}], setup=sargs('d'), model=angle(4), gen=dgen, tol=1e-9, **K)
py('C04', F, 'quatAngle2', [{}], setup=sargs('d'), model=angle(2), gen=dgen, tol=1e-9, **K)


# random orientations are unit quaternions
def unitpost(it, ctx, got, after, before):
    if not isinstance(got, Arr) or len(got) != 4:
        return 'four components', None
    mp, s = {}, ZERO
    for x in got.d:
        s = s + P(x) * P(x)
    for a in sorted(allatoms(s)):
        at = sym._byid[a]
        if at.kind == 'f' and at.args[0] == 'cos':
            c2 = P(1) - app('sin', at.args[1][0]) ** 2
            s2 = ZERO
            for m, c in s.t.items():
                e = dict(m).get(a, 0)
                rest = Poly({tuple((x, y) for x, y in m if x != a): c})
                s2 = s2 + rest * (c2 ** (e // 2)) * (P(at) ** (e % 2))
            s = s2
    # square roots of quantities that are not negative
    for f in range(2):
        for a in sorted(s.atoms()):
            at = sym._byid[a]
            if at.kind == 'q' and prove(ge(at.args[0], 0), ctx) is not True:
                return 'square root of a quantity that may be negative', None
    r = zero(sym.clear(s) - 1, ctx)
    return None if r else ('unit length', r)


def unitcheck(got, a, b, cfg, real):
    try:
        v = [float(x) for x in got]
    except (TypeError, ValueError):
        return 'result', got, 'four numbers'
    if len(v) != 4 or abs(norm2(v) - 1) > 1e-12 or cfg['n'] == 2 and (v[2] or v[3]):
        return 'result', got, 'a unit orientation'


py('C04', F, 'getQuatRandom', LEN, setup=lambda cfg: ([X('t'), cfg['n']], []), model=None, post=unitpost, check=unitcheck,
   gen=lambda rng, cfg, pool: [rng.uniform(-7, 7), cfg['n']], more=4)


# ------------------------------------------------------------- tables (C05)
def exact(v):
    """v as a + b*sqrt(2) with halves of integers, verified exactly; or None"""
    x = neval(P(v), sym.NumEnv({}, {}, {}))
    for a, b in itertools.product((0, 1, -1, 2, -2), repeat=2):
        a, b = Fraction(a, 2), Fraction(b, 2)
        if abs(pval((a, b)) - x) < 1e-9 and zero(P(v) - a - sqrt(const(2)) * b, Ctx()):
            return a, b
    return None


def pmul(x, y):
    return x[0] * y[0] + 2 * x[1] * y[1], x[0] * y[1] + x[1] * y[0]


def padd(x, y):
    return x[0] + y[0], x[1] + y[1]


def pneg(x):
    return -x[0], -x[1]


def pval(x):
    return float(x[0]) + float(x[1]) * math.sqrt(2)


class E2:
    """numbers a + b*sqrt(2), exactly"""

    def __init__(self, p):
        self.p = p

    def __add__(self, o): return E2(padd(self.p, o.p))
    def __sub__(self, o): return E2(padd(self.p, pneg(o.p)))
    def __mul__(self, o): return E2(pmul(self.p, o.p))
    def __neg__(self): return E2(pneg(self.p))
    def __radd__(self, o): return self if o == 0 else NotImplemented
    def __eq__(self, o): return self.p == o.p
    def __hash__(self): return hash(self.p)

    def sign(self):
        a, b = self.p
        if a >= 0 and b >= 0:
            return 1 if a or b else 0
        if a <= 0 and b <= 0:
            return -1
        d = a * a - 2 * b * b
        return (1 if d > 0 else -1 if d < 0 else 0) * (1 if a > 0 else -1)


ONE2 = E2((Fraction(1), Fraction(0)))


def table(props, name, tab, conjname, n, cnt):
    def run(env):
        t0 = time.time()
        v, obls, notes = None, [], []
        lab = 'utils/quat.py %s' % tab
        # the real tables
        try:
            real = Real(F)
            T = real.ns[tab]
            C = real.ns[conjname]
            v = numeric_table(tab, T, C, n, cnt)
        except Exception as e:
            v = dict(output='module', input='import of quat.py', got='%s: %s' % (type(e).__name__, e), expected='the tables')
        # exact evaluation of the source
        try:
            g = moduleconsts(F)
            T, C = g[tab], g[conjname]
            obls = exact_table(lab, T, C, n, cnt)
        except (PyUnsupported, PyRaise, KeyError, SymError, ValueError, TypeError) as e:
            obls = [('table', lab, 'undecided', 'out of reach: %s' % e, time.time() - t0, 1)]
        return obls, v, dict(evals=cnt, runs=1, notes=notes)
    contract.LEMMAS.append((props, name, run, {}))


def numeric_table(tab, T, C, n, cnt):
    if len(T) != cnt or len(C) != cnt:
        return dict(output=tab, input='number of entries', got='%d, %d' % (len(T), len(C)), expected=str(cnt))
    if n == 1:
        for i in range(cnt):
            if abs(T[i] / (math.pi / 2) - round(T[i] / (math.pi / 2))) > 1e-12:
                return dict(output=tab, input='entry %d' % i, got=repr(T[i]), expected='a multiple of pi/2')
            if abs(T[C[i]] + T[i]) > 1e-12:
                return dict(output=tab, input='inverse of entry %d' % i, got='%d: %r' % (C[i], T[C[i]]), expected=repr(-T[i]))
        if abs(T[0]) > 0 or len({round(x / (math.pi / 2)) for x in T}) != cnt:
            return dict(output=tab, input='entries', got=repr(T), expected='distinct, the first one zero')
        return None
    R = [[float(x) for x in r] for r in T]
    key = lambda r: tuple(round(x * 1e6) for x in r)
    keys = {key(r): i for i, r in enumerate(R)}
    if len(keys) != cnt or key(R[0]) != key([1.] + [0.] * (n - 1)):
        return dict(output=tab, input='entries', got='%d different, first %r' % (len(keys), R[0]), expected='%d different, the first one the identity' % cnt)
    for i in range(cnt):
        if abs(norm2(R[i]) - 1) > 1e-12:
            return dict(output=tab, input='entry %d' % i, got=repr(R[i]), expected='unit')
        p = product(R[i], R[int(C[i])])
        if max(abs(x - y) for x, y in zip(p, R[0])) > 1e-12:
            return dict(output=tab, input='entry %d times entry %d recorded as its inverse' % (i, C[i]), got=repr(p), expected=repr(R[0]))
        for j in range(cnt):
            if key(product(R[i], R[j])) not in keys and min(max(abs(x - y) for x, y in zip(product(R[i], R[j]), r)) for r in R) > 1e-9:
                return dict(output=tab, input='entry %d times entry %d' % (i, j), got=repr(product(R[i], R[j])), expected='an entry of the table')
    return None


def exact_table(lab, T, C, n, cnt):
    t0 = time.time()
    out = []

    def add(what, ok, m):
        out.append(('table', '%s: %s' % (lab, what), 'proved' if ok else 'undecided', '' if ok else what + ' not shown', time.time() - t0, m))
    if len(T) != cnt or len(C) != cnt or not all(isinstance(c, int) and 0 <= c < cnt for c in C.d):
        add('size', False, 1)
        return out
    if n == 1:
        k = [P(x) / (PI * Fraction(1, 2)) for x in T.d]
        ok = all(x.isconst() and Fraction(x.cval()).denominator == 1 for x in k)
        add('multiples of a quarter turn', ok, cnt)
        add('recorded inverses', all((P(T.d[i]) + P(T.d[C.d[i]])).iszero() for i in range(cnt)), cnt)
        add('distinct, identity first', P(T.d[0]).iszero() and len({str(x) for x in k}) == cnt, cnt)
        return out
    R = []
    for r in T.d:
        e = [exact(x) for x in r.d]
        if None in e:
            add('entries a+b*sqrt(2)', False, cnt)
            return out
        R.append(tuple(E2(x) for x in e))
    S = set(R)
    add('distinct, identity first', len(S) == cnt and R[0] == (ONE2,) + (E2((Fraction(0), Fraction(0))),) * (n - 1), cnt)
    add('unit length', all(norm2(r) == ONE2 for r in R), cnt)
    add('closed under products', all(tuple(product(a, b)) in S for a in R for b in R), cnt * cnt)
    add('recorded inverses', all(tuple(product(R[i], R[C.d[i]])) == R[0] for i in range(cnt)), cnt)
    # no two entries closer than the angle the search criterion relies on
    c = E2((Fraction(0), Fraction(1, 2))) if n == 4 else E2((Fraction(0), Fraction(0)))
    dot = lambda a, b: sum((x * y for x, y in zip(a, b)), 0)
    add('separation of the entries', all((c - dot(a, b)).sign() >= 0 for a, b in itertools.combinations(R, 2)), cnt * (cnt - 1) // 2)
    return out


TABS = {4: ('qr4', 'iq_qr4_conj', 48), 2: ('qr2', 'iq_qr2_conj', 4), 1: ('qr1', 'iq_qr1_conj', 9)}
for _n, (_t, _c, _k) in TABS.items():
    table('C05', 'utils/quat.py table %s' % _t, _t, _c, _n, _k)


def sphere(env):
    """unit vectors a, b, c: if the angle ab is at most half the angle bc then
    ac is at least ab (what makes the early exit of the search correct)"""
    x, y, z = X('ab'), X('bc'), X('ac')
    gram = ge(1 + 2 * x * y * z - x * x - y * y - z * z, 0)
    rng = [ge(v, -1) for v in (x, y, z)] + [le(v, 1) for v in (x, y, z)]
    q = sqrt(const(Fraction(1, 2)))
    m = X('m')
    env.holds('early exit, separation 45 degrees', le(z, x), [gram] + rng + [eq(m * m, (1 + q) * Fraction(1, 2)), gt(m, 0), ge(x, m), le(y, q)])
    env.holds('early exit, separation 90 degrees', le(z, x), [gram] + rng + [ge(x, q), le(y, 0)])
    a, b, c = X('a'), X('b'), X('c')
    env.holds('early exit on the line', le(absx(b - a), absx(c - a)), [le(absx(b - a), PI * Fraction(1, 4)), ge(absx(b - c), PI * Fraction(1, 2))] + PIF)
    return env.done()


contract.LEMMAS.append(('C05', 'utils/quat.py early exit of the search finds the nearest', sphere, {}))


# getters
def tabglob(cfg):
    return moduleconsts(F)


def idx(cfg):
    n = TABS[cfg['n']][2]
    return [I('j'), cfg['n']], [ge(I('j'), 0), lt(I('j'), n)]


def g_rot(o, j, n):
    if o.sym:
        t = TABS[n][0]
        return Arr([app('tab_' + t, j, P(c)) for c in range(n)]) if n > 1 else app('tab_' + t, j)
    r = truth(n)[j]
    return numpy.array(r) if n > 1 else r


def g_cidx(o, j, n):
    if o.sym:
        return app('tab_' + TABS[n][1], j, sort='I')
    return inverse(n)[j]


def g_conj(o, j, n):
    return g_rot(o, g_cidx(o, j, n), n)


_TR = {}


def truth(n):
    if n not in _TR:
        _TR[n] = Real(F).ns[TABS[n][0]].tolist()
    return _TR[n]


def inverse(n):
    T = truth(n)
    if n == 1:
        return [min(range(9), key=lambda j: abs(T[i] + T[j])) for i in range(9)]
    d = lambda i, j: max(abs(x - y) for x, y in zip(conj(T[i]), T[j]))
    return [min(range(len(T)), key=lambda j: d(i, j)) for i in range(len(T))]


def jgen(rng, cfg, pool):
    return [rng.randrange(TABS[cfg['n']][2]), cfg['n']]


L3 = [dict(n=1), dict(n=2), dict(n=4)]
py('C05', F, 'getNumberSymmetryRotations', L3, setup=lambda cfg: ([cfg['n']], []), model=lambda o, n: TABS[n][2],
   gen=lambda rng, cfg, pool: [cfg['n']], glob=tabglob)
py('C05', F, 'getQuatSymmetryRotation', L3, setup=idx, model=g_rot, gen=jgen, glob=tabglob)
py('C05', F, 'getQuatSymmetryRotationConjugateIdx', L3, setup=idx, model=g_cidx, gen=jgen, glob=tabglob)
py('C05', F, 'getQuatSymmetryRotationConjugate', L3, setup=idx, model=g_conj, gen=jgen, glob=tabglob)

# ------------------------------------------------------------- the search
J = I('anyrow')


def rowdiff(j):
    return app('rowdiff', j)


def rowimage(n):
    return lambda j: Arr([app('rowimage', j, P(c)) for c in range(n)])


def searchmodels(n):
    """quatDiff on a row of the table, as a function of the row"""
    def f(args):
        q1, q2 = args[0], args[1]

        def d(it, a, b, r):
            if not (isinstance(r, Arr) and r.tab and r.tab[0] == TABS[n][0]) or differs(a, q1, it.ctx) or differs(b, q2, it.ctx):
                raise PyUnsupported('comparison with something else than a table row %s %s %s' % (r.tab, differs(a, q1, it.ctx), differs(b, q2, it.ctx)))
            return rowdiff(r.tab[1]), rowimage(n)(r.tab[1])

        def d1(it, a, b, r):
            at = sym.atom_of(P(r)) if not P(r).isconst() else None
            if at is None or at.kind != 'f' or at.args[0] != 'tab_qr1':
                # a constant entry
                k = [i for i, x in enumerate(moduleconsts(F)['qr1'].d) if (P(x) - P(r)).iszero()]
                if not k:
                    raise PyUnsupported('not a table entry')
                j = P(k[0])
            else:
                j = at.args[1][0]
            if not (P(a) - P(q1)).iszero() or not (P(b) - P(q2)).iszero():
                raise PyUnsupported('other arguments')
            return rowdiff(j), app('rowimage', j, ZERO)
        m = dict(ALG)
        m['quatDiff'] = d
        m['quatDiff1'] = d1
        return m
    return f


def searchloops(n):
    return lambda args: Search({'value': rowdiff, 'image': rowimage(n) if n > 1 else (lambda j: app('rowimage', j, ZERO)), 'index': lambda j: P(j)}, J,
                               minlen=4)


def nearest(n):
    crit = {4: 2 * app('sin', PI * Fraction(1, 16)), 2: 2 * app('sin', PI * Fraction(1, 8)), 1: PI * Fraction(1, 4)}[n]

    def post(it, ctx, got, after, before):
        cands, seen = [], set()
        for k in list(it.ghosts) + [ZERO] + [P(sym._byid[a].args[1][0]) for a in sorted(allatoms(tuple(P(x) for x in (got.d if isinstance(got, Arr) else [got] if isinstance(got, Poly) else []))))
                                             if sym._byid[a].kind == 'f' and sym._byid[a].args[0] == 'rowimage']:
            if k not in seen:
                seen.add(k)
                cands.append(k)
        for k in cands:
            if differs(got, rowimage(n)(k) if n > 1 else app('rowimage', k, ZERO), ctx):
                continue
            facts = ctx.assume(ge(J, 0)).assume(lt(J, TABS[n][2])).assume(lor(gt(rowdiff(k), crit), le(rowdiff(k), rowdiff(J))))
            if prove(le(rowdiff(k), rowdiff(J)), facts) is True:
                return None
        return 'the nearest symmetry equivalent', None
    return post


def sargs2(n):
    def f(cfg):
        N = TABS[n][2]
        q = [vec('p', n), vec('q', n)] if n > 1 else [X('p'), X('q')]
        return q + [I('iq')], []
    return f


def equivalents(n, q):
    T = truth(n)
    return [q + t for t in T] if n == 1 else [product(list(q), t) for t in T]


def dist(n, a, b):
    if n == 1:
        return abs(a - b)
    a, b = normalized(NUM, list(a)), normalized(NUM, list(b))
    return math.sqrt(norm2([x - y for x, y in zip(a, b)]))


def searchcheck(n):
    def f(got, a, b, cfg, real):
        q1, q2 = b[0], b[1]
        eqs = equivalents(n, q2)
        try:
            g = float(got) if n == 1 else [float(x) for x in got]
            if n > 1 and len(g) != n:
                raise TypeError
        except (TypeError, ValueError):
            return 'result', got, 'an equivalent orientation'
        scale = max(1., abs(g)) if n == 1 else max([abs(x) for x in g] + [1e-300])
        off = min(abs(g - e) if n == 1 else max(abs(x - y) for x, y in zip(g, e)) for e in eqs)
        if off > 1e-9 * scale:
            return 'result', got, 'a symmetry equivalent of the argument'
        best = min(dist(n, q1, e) for e in eqs)
        if dist(n, q1, g) > best + 1e-7:
            return 'distance to the reference', dist(n, q1, g), best
    return f


def searchgen(n):
    def f(rng, cfg, pool):
        N = TABS[n][2]
        iq = rng.choice([0, 0, rng.randrange(-N, N + 1), rng.choice([-N, N, N - 1, 1 - N, -1, 1, N + 1, -N - 1, 1000, -1000])])
        if n == 1:
            q1 = rng.uniform(-math.pi, math.pi)
            q2 = q1 + rng.choice(truth(1)) + rng.choice([0, rng.uniform(-.8, .8), rng.uniform(-.1, .1)]) if rng.random() < .6 else rng.uniform(-4, 4)
            return [q1, q2, iq]
        q1 = quat(rng, n, pool)
        if norm2(q1) < 1e-20:
            q1 = numpy.array([1.] + [0.] * (n - 1))
        if rng.random() < .3:
            q1 = numpy.array([1.] + [0.] * (n - 1))
        q1 = q1 / math.sqrt(norm2(q1)) * rng.choice([1, 1, 1, 2.5, .3])
        d = numpy.array([rng.gauss(0, 1) for _ in range(n)]) * rng.choice([0, .05, .2, .4, .6, 1., 3.])
        g = rng.choice(truth(n))
        q2 = numpy.array(product(list(q1 / math.sqrt(norm2(q1)) + d), g))
        if norm2(q2) < 1e-20:
            q2 = q1.copy()
        q2 = q2 / math.sqrt(norm2(q2)) * rng.choice([1, 1, 1, 2., .7])
        return [q1, q2, iq]
    return f


for _n in (2, 4):
    py('C05', F, 'quatSymm', [dict(n=_n)], setup=sargs2(_n), model=None, post=nearest(_n), check=searchcheck(_n), gen=searchgen(_n), glob=tabglob,
       models=searchmodels(_n), loops=searchloops(_n), more=4)
py('C05', F, 'quatSymm1', [dict(n=1)], setup=sargs2(1), model=None, post=nearest(1), check=searchcheck(1), gen=searchgen(1), glob=tabglob,
   models=searchmodels(1), loops=searchloops(1), more=4)


# the fundamental representative is the equivalent nearest to no rotation
def funmodels(args):
    def s(it, a, b, iq=0):
        return Arr([app('symm', *(tuple(a.d) + tuple(b.d) + (P(iq), P(c)))) for c in range(len(b))])
    m = dict(ALG)
    m['quatSymm'] = s
    m['makeNormalizedQuat'] = lambda it, *v: Arr([P(x) for x in v] if tuple(v) == (1, 0, 0, 0) else normalized(SYM, [P(x) for x in v]))
    return m


def funpost(it, ctx, got, after, before):
    q = before[0].d
    want = Arr([app('symm', *((ONE, ZERO, ZERO, ZERO) + tuple(q) + (ZERO, P(c)))) for c in range(4)])
    return differs(got, want, ctx, 'result')


py('C05', F, 'quatMakeFundamental', [dict(n=4)], setup=lambda cfg: ([vec('q', 4)], []), model=None, post=funpost,
   check=lambda got, a, b, cfg, real: searchcheck(4)(got, None, [numpy.array([1., 0, 0, 0]), b[0]], cfg, real),
   gen=lambda rng, cfg, pool: [searchgen(4)(rng, cfg, pool)[1]], models=funmodels, more=3)
