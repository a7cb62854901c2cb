"""C03: tilting functions and pair weights (C++)."""
from contract import *
from vc import trans

P0, P1, P2 = (var(n, 'R') for n in ('p0', 'p1', 'p2'))
SAMP = [0., 1., -0.25, 1.25, 0.5, 0.25, 1e-3, 0.999]


def samp(k):
    k.tol = 1e-9
    k.more = 10

    def s2(rng, env):
        return rng.choice(SAMP) if rng.random() < 0.4 else rng.uniform(-0.3, 1.3)

    def s3(rng, env):
        return 1. - env['p0'] - env['p1'] if rng.random() < 0.6 else s2(rng, env)
    k.samplers.update(p0=s2, p1=s2, p2=s3)


def fp_g(a, b, c):
    return R(1, 4) * a**2 * (15 * (1 - a) * (1 + a - (c - b)**2) + a * (9 * a**2 - 5))


def fp_d0(a, b, c):
    return R(5, 2) * a * ((c - b)**2 * (3 * a - 2) + (1 - a)**2 * (3 * a + 2))


def fp_d1(a, b, c):
    """derivative of g0 with respect to p1 along the simplex"""
    return -R(1, 2) * fp_d0(b, a, c) + R(15, 2) * b**2 * (1 - b) * (c - a)


def inside(x):
    return land(ge(x, 0), le(x, 1))


@kernel('tiltingfolchplapp2005__g0', 'C03', dims=(2,))
def _(k):
    samp(k)
    k.result(ite(lt(P0, 0), ZERO, ite(gt(P0, 1), ONE, fp_g(P0, P1, P2))))


@kernel('tiltingfolchplapp2005__dg0dp0', 'C03', dims=(2,))
def _(k):
    samp(k)
    k.result(ite(inside(P0), fp_d0(P0, P1, P2), ZERO))


@kernel('tiltingfolchplapp2005__dg0dp1', 'C03', dims=(2,))
def _(k):
    samp(k)
    k.result(ite(land(inside(P0), inside(P1)), fp_d1(P0, P1, P2), ZERO))


def mo_g(a, b, c):
    return a**2 / (a**2 + b**2 + c**2)


@kernel('tiltingmoelans2011__g0', 'C03', dims=(2,))
def _(k):
    samp(k)
    k.result(ite(lt(P0, 0), ZERO, mo_g(P0, P1, P2)))


@kernel('tiltingmoelans2011__dg0dp0', 'C03', dims=(2,))
def _(k):
    samp(k)
    g = [diff(mo_g(P0, P1, P2), atom_of(x).id) for x in (P0, P1, P2)]
    k.result(ite(lt(P0, 0), ZERO, g[0] - (g[0] + g[1] + g[2]) / 3))


@kernel('tiltingmoelans2011__dg0dp1', 'C03', dims=(2,))
def _(k):
    samp(k)
    g = [diff(mo_g(P0, P1, P2), atom_of(x).id) for x in (P0, P1, P2)]
    k.result(ite(lt(P0, 0), ZERO, g[1] - (g[0] + g[1] + g[2]) / 3))


# ------------------------------------------------------------- pair weights
MAXP = R(99, 100)
CUT = (P0, P1, P2)


def clipped(w):
    """the phase fractions with component w (None: no component above 0.99)
    reduced to 0.99 and the deficit shared by the two others"""
    if w is None:
        return list(CUT)
    p = list(CUT)
    p[w] = const(MAXP)
    d = 1 - SumR(p, lambda x: x)
    return [p[i] if i == w else p[i] + R(1, 2) * d for i in range(3)]


def weights(p):
    """angles (over pi) of the triangle whose corners are the points of the
    three binary edges in the proportions of the pair"""
    def corner(a, b):
        v = [ZERO] * 3
        v[a], v[b] = p[a] / (p[a] + p[b]), p[b] / (p[a] + p[b])
        return v
    V = {(0, 1): corner(0, 1), (0, 2): corner(0, 2), (1, 2): corner(1, 2)}

    def d2(a, b):
        return SumR(range(3), lambda i: (V[b][i] - V[a][i])**2)
    out = {}
    ks = list(V)
    for a in ks:
        b, c = [x for x in ks if x != a]
        x = (d2(a, b) + d2(a, c) - d2(b, c)) / (2 * sqrt(d2(a, b)) * sqrt(d2(a, c)))
        x = ite(lt(x, -1), const(-1), x)
        x = ite(gt(x, 1), ONE, x)
        out[a] = trans('acos', x) / (4 * trans('atan', ONE))
    return out


@kernel('computeweights3pairs', 'C26', dims=(2,), cfgs=[{'case': c} for c in ('p0', 'p1', 'p2', 'none')])
def _(k):
    k.tol = 1e-7
    k.atol = 2e-7
    k.more = 5
    c = k.cfg['case']
    w = {'p0': 0, 'p1': 1, 'p2': 2, 'none': None}[c]
    big, rest = CUT[w] if w is not None else None, [x for i, x in enumerate(CUT) if w is None or i < w]

    def s(rng, env):
        env['#p'] = p = [rng.uniform(0.005, 1.) for _ in range(3)]
        if w is not None:
            p[w] = rng.choice([150., 1000., rng.uniform(200, 400)])
        elif rng.random() < 0.3:
            p[rng.randrange(3)] = rng.choice([0.5, 5., 20.])
        if rng.random() < 0.2:
            i = rng.randrange(3)
            if i != w:
                p[i] = rng.choice([0., -1e-4])
        t = sum(p)
        p[:] = [x / t for x in p]
        if rng.random() < 0.2:
            p[rng.randrange(3)] += rng.uniform(-1e-3, 1e-3)
        return p[0]
    k.samplers['p0'] = s
    k.samplers['p1'] = lambda rng, env: env['#p'][1]
    k.samplers['p2'] = lambda rng, env: env.pop('#p')[2]
    for x in rest:
        k.requires(le(x, MAXP))
    if big is not None:
        k.requires(gt(big, MAXP))
    r = weights(clipped(w))
    for nm, pr in (('w01', (0, 1)), ('w02', (0, 2)), ('w12', (1, 2))):
        k.scalar(nm, r[pr])


# ------------------------------------------------------------------- lemmas
@lemma('C03', 'tilting functions partition unity')
def _(env):
    s = 1 - P0 - P1
    env.eq('Folch-Plapp: the three functions add up to one on the simplex', fp_g(P0, P1, s) + fp_g(P1, P0, s) + fp_g(s, P0, P1), 1)
    env.eq('Moelans: the three functions add up to one', mo_g(P0, P1, P2) + mo_g(P1, P0, P2) + mo_g(P2, P0, P1), 1)
    for nm, g, d0, d1 in (('Folch-Plapp', fp_g, fp_d0, fp_d1), ('Moelans', mo_g, None, None)):
        env.eq(nm + ': one in its own pure phase', g(ONE, ZERO, ZERO), 1)
        env.eq(nm + ': zero in the second phase', g(ZERO, ONE, ZERO), 0)
        env.eq(nm + ': zero in the third phase', g(ZERO, ZERO, ONE), 0)
        env.eq(nm + ': symmetric in the two other phases', g(P0, P1, P2), g(P0, P2, P1))
    # the derivative contracts are derivatives along the simplex: differences
    # between two derivatives are differences of partial derivatives
    D = lambda f, x: diff(f, atom_of(x).id)
    g = mo_g(P0, P1, P2)
    m = lambda x: D(g, x) - (D(g, P0) + D(g, P1) + D(g, P2)) / 3
    env.eq('Moelans: projected derivatives add up to zero', m(P0) + m(P1) + m(P2), 0)
    t = s
    fg = fp_g(P0, P1, P2)

    def on(f):
        return subst(f, {atom_of(P2).id: s})
    for a, b, da, db in ((P0, P1, fp_d0(P0, P1, P2), fp_d1(P0, P1, P2)), (P1, P2, fp_d1(P0, P1, P2), fp_d1(P0, P2, P1))):
        env.eq('Folch-Plapp: derivative along the simplex, %s minus %s' % (show(a), show(b)), on(da - db), on(D(fg, a) - D(fg, b)))
    env.eq('Folch-Plapp: projected derivatives add up to zero', on(fp_d0(P0, P1, P2) + fp_d1(P0, P1, P2) + fp_d1(P0, P2, P1)), 0)
    return env.done()


@lemma('C26', 'pair weights are the angles of a triangle')
def _(env):
    a, b, c = [var('e%d' % i, 'R') for i in range(3)]
    co = lambda x, y, z: (x**2 + y**2 - z**2) / (2 * x * y)
    x, y, z = co(a, b, c), co(a, c, b), co(b, c, a)
    env.eq('angle sum: 1 = x^2 + y^2 + z^2 + 2xyz for the three cosines', x**2 + y**2 + z**2 + 2 * x * y * z, 1)
    w = weights(CUT)
    sw = {atom_of(P0).id: P1, atom_of(P1).id: P0}
    env.eq('exchange of phases 0 and 1 keeps w01', subst(w[0, 1], sw), w[0, 1])
    env.eq('exchange of phases 0 and 1 exchanges w02 and w12', subst(w[0, 2], sw), w[1, 2])
    return env.done()
