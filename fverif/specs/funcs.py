"""functions.f: interpolation, well, averaging functions (C01, C02, C03)."""
from contract import *
from vc import trans

PHI = var('phi', 'R')
SAMP = [0., 1., -0.25, 1.25, 0.5]
G = const(10)


def clamp(x):
    return maxx(0, minn(1, x))


def plus(x):
    return maxx(0, x)


# name -> (polynomial on the open piece, clamped above too?)
def core(t, x):
    return {
        'q': lambda: x**2, 'p': lambda: x**3 * (10 - 15 * x + 6 * x**2), 'h': lambda: x**2 * (3 - 2 * x),
        'w': lambda: x**2 * (2 - x), 'l': lambda: x, 'm': lambda: x**2 / (2 * x * (x - 1) + 1), '3': lambda: x**3,
        's': lambda: trans('log', trans('cosh', G * x)) / trans('log', trans('cosh', G)), 'c': lambda: ONE,
    }[t]()


TYPES = 'qphwlm3sc'
CLAMPED = 'phlm'


def interp_spec(t, x):
    x = P(x)
    if t == 'c':
        return ONE
    return core(t, clamp(x) if t in CLAMPED else plus(x))


def derivs(t, n, x=PHI):
    """[(condition, value of the n-th derivative on that piece)]; n-th
    derivatives of the clamped functions vanish outside"""
    f = core(t, x)
    for _ in range(n):
        f = diff(f, atom_of(x).id)
    out = [(lt(x, 0), ZERO)] if t != 'c' else [(lt(x, 0), f)]
    if t in CLAMPED:
        out += [(gt(x, 0) * lt(x, 1), f), (gt(x, 1), ZERO)]
    else:
        out += [(gt(x, 0), f)]
    # points where both one-sided derivatives agree
    if t != 'c':
        for p, outer in ((0, True), (1, t in CLAMPED)):
            v = subst(f, {atom_of(x).id: const(p)})
            if v.iszero() or not outer:
                if p == 0 or outer:
                    out.append((eq(x, p), v))
    else:
        out.append((eq(x, 0), f))
    return out


cfg = [{'type': t} for t in TYPES]


@kernel('interp_func', 'C01', dims=(2,), cfgs=cfg)
def _(k):
    k.sample('phi', SAMP, -0.5, 1.5)
    k.result(interp_spec(k.cfg['type'], PHI))


@kernel('deriv_interp_func', 'C01', dims=(2,), cfgs=cfg)
def _(k):
    k.sample('phi', SAMP, -0.5, 1.5)
    for c, v in derivs(k.cfg['type'], 1):
        k.result(v, c)


@kernel('second_deriv_interp_func', 'C01', dims=(2,), cfgs=[{'type': t} for t in 'qphwlc'])
def _(k):
    k.sample('phi', SAMP, -0.5, 1.5)
    for c, v in derivs(k.cfg['type'], 2):
        k.result(v, c)


@kernel('second_deriv_interp_func', 'C01', dims=(2,), cfgs=[{'type': 'a'}])
def _(k):
    # 'a' has no counterpart among the interpolation functions: a bounded
    # bump supported near the two ends, odd about the midpoint
    k.sample('phi', SAMP, -0.5, 1.5)
    a = R('0.08333333333333333')
    b = R('0.9166666666666666')
    k.result(ZERO, lor(le(PHI, 0), ge(PHI, 1)))
    k.result(324 * PHI, gt(PHI, 0) * lt(PHI, a))
    k.result(ZERO, ge(PHI, a) * le(PHI, b))
    k.result(-324 * (1 - PHI), gt(PHI, b) * lt(PHI, 1))


def well_spec(t, x):
    return 16 * x**2 * (1 - x)**2 if t == 'd' else (1 - x)**2


def dwell_spec(t, x, n=1):
    v = fresh('x', 'R')
    f = well_spec(t, v)
    for _ in range(n):
        f = diff(f, atom_of(v).id)
    return subst(f, {atom_of(v).id: P(x)})


WT = [{'type': t} for t in ('double', 'single')]


@kernel('well_func', 'C01', dims=(2,), cfgs=WT)
def _(k):
    k.sample('phi', SAMP, -0.5, 1.5)
    k.result(well_spec(k.cfg['type'][0], PHI))


@kernel('deriv_well_func', 'C01', dims=(2,), cfgs=WT)
def _(k):
    k.sample('phi', SAMP, -0.5, 1.5)
    k.result(dwell_spec(k.cfg['type'][0], PHI))


@kernel('second_deriv_well_func', 'C01', dims=(2,), cfgs=WT)
def _(k):
    k.sample('phi', SAMP, -0.5, 1.5)
    k.result(dwell_spec(k.cfg['type'][0], PHI, 2))


RT = [{'type1': a, 'type2': b} for a, b in ('pl', 'pp', 'll', 'hh', 'qq')]


def ratio_spec(a, b, x):
    x = clamp(x)
    return ONE if a == b else x**2 * (10 - 15 * x + 6 * x**2)


def cratio_spec(a, b, x):
    x = clamp(x)
    return ONE if a == b else (1 - x)**2 * (1 + 3 * x + 6 * x**2)


@kernel('interp_ratio_func', 'C01', dims=(2,), cfgs=RT)
def _(k):
    k.sample('phi', SAMP, -0.5, 1.5)
    k.result(ratio_spec(k.cfg['type1'], k.cfg['type2'], PHI))


@kernel('compl_interp_ratio_func', 'C01', dims=(2,), cfgs=RT)
def _(k):
    k.sample('phi', SAMP, -0.5, 1.5)
    k.result(cratio_spec(k.cfg['type1'], k.cfg['type2'], PHI))


def triple_spec(p):
    return SumR(range(3), lambda i: (R(2, 3) if i == 0 else -R(1, 3)) * dwell_spec('d', p[i]))


@kernel('deriv_triple_well_func', 'C01', dims=(2,))
def _(k):
    k.result(triple_spec([k.s('p0'), k.s('p1'), k.s('p2')]))


@lemma('C01', 'end points and range of the interpolation functions')
def _(env):
    for t in TYPES:
        if t != 'c':
            env.eq('%s(0) = 0' % t, interp_spec(t, ZERO), 0)
            env.eq('%s(x) = 0 for x < 0' % t, interp_spec(t, PHI), 0, [lt(PHI, 0)])
        env.eq('%s(1) = 1' % t, interp_spec(t, ONE), 1)
        if t in CLAMPED:
            env.eq('%s(x) = 1 for x > 1' % t, interp_spec(t, PHI), 1, [gt(PHI, 1)])
        if t in 'qphl3':
            env.holds('0 <= %s(x) <= 1 on [0,1]' % t, ge(core(t, PHI), 0) * le(core(t, PHI), 1), [ge(PHI, 0), le(PHI, 1)])
        if t in 'qphwl3':
            env.holds('%s nondecreasing on [0,1]' % t, ge(derivs(t, 1)[1][1], 0), [gt(PHI, 0), lt(PHI, 1)])
    for t in 'ds':
        env.holds('well %s >= 0' % t, ge(well_spec(t, PHI), 0))
        env.eq('well %s(1) = 0' % t, well_spec(t, ONE), 0)
        env.eq('well %s stationary at 1' % t, dwell_spec(t, ONE), 0)
    env.eq('double well vanishes at 0', well_spec('d', ZERO), 0)
    x = var('x', 'R')
    env.eq('ratio p/l times l is p', ratio_spec('p', 'l', x) * interp_spec('l', x), interp_spec('p', x))
    env.eq('complement ratio p/l', cratio_spec('p', 'l', x) * (1 - interp_spec('l', x)), 1 - interp_spec('p', x))
    for t in 'ph':
        env.eq('%s(x) + %s(1-x) = 1' % (t, t), interp_spec(t, x) + interp_spec(t, 1 - x), 1)
    p = [var('p%d' % i, 'R') for i in range(3)]
    env.eq('triple well forces sum to zero', SumR(range(3), lambda i: triple_spec([p[i], p[(i + 1) % 3], p[(i + 2) % 3]])), 0)
    env.eq('triple well force symmetric in the other phases', triple_spec(p), triple_spec([p[0], p[2], p[1]]))
    return env.done()


# ------------------------------------------------------------------ averages
TH = R(1, 10**16)
AT = [{'avg_type': t} for t in ('a', 'h')]


def avg_spec(t, a, b):
    if t == 'a':
        return (a + b) / 2
    return 2 * a * b / (a + b)


@kernel('average_func', 'C02', dims=(2,), cfgs=AT)
def _(k):
    a, b = k.s('phi1'), k.s('phi2')
    t = k.cfg['avg_type']
    k.sample('phi1 phi2', [0., 1., 0.5], 0., 2.)
    if t == 'a':
        k.result(avg_spec('a', a, b))
    else:
        ok = ge(a, TH) * ge(b, TH)
        k.result(avg_spec('h', a, b), ok)
        k.result(ZERO, lnot(ok))


@kernel('deriv_average_func', 'C02', dims=(2,), cfgs=AT)
def _(k):
    # derivative of the average with respect to the argument next_phi,
    # given the average avg_phi
    A, x = k.s('avg_phi'), k.s('next_phi')
    t = k.cfg['avg_type']
    k.sample('avg_phi', [0.], 0.2, 2.)
    k.sample('next_phi', [1.], 0.2, 2.)
    if t == 'a':
        k.result(R(1, 2))
    else:
        k.result(A**2 / (2 * x**2), ge(A, TH) * gt0(x))
        k.result(ZERO, lt(A, TH))


@lemma('C02', 'averages are means')
def _(env):
    a, b = var('a', 'R'), var('b', 'R')
    pos = [gt(a, 0), gt(b, 0)]
    for t in 'ah':
        f = avg_spec(t, a, b)
        env.eq(t + ' symmetric', f, avg_spec(t, b, a))
        env.eq(t + ' idempotent', avg_spec(t, a, a), a)
        env.holds(t + ' between its arguments', ge(f, a) * le(f, b), pos + [le(a, b)])
        d = diff(f, atom_of(a).id)
        env.eq(t + ' derivative contract is the partial derivative', (R(1, 2) if t == 'a' else f**2 / (2 * a**2)), d, pos)
    env.holds('harmonic <= arithmetic', le(avg_spec('h', a, b), avg_spec('a', a, b)), pos)
    return env.done()


@kernel('limitedinverse', 'C02', dims=(2,))
def _(k):
    v = k.s('val')
    k.sample('val', [0., 1e-4, -1e-4, 5e-5], -1., 1.)
    k.result(1 / v, gt(absx(v), R(1, 10**4)))
    k.result(const(10**4), le(absx(v), R(1, 10**4)))


@kernel('eval_grad_normi', 'C02', dims=(2,), cfgs=[{'floor_type': t} for t in 'mts'])
def _(k):
    n2, fl, mx = k.s('grad_norm2'), k.s('floor_grad_norm2'), k.s('max_grad_normi')
    t = k.cfg['floor_type']
    k.sample('grad_norm2', [0., 1.], 0., 1.)
    k.sample('floor_grad_norm2', [0.01, 1.], 0.01, 0.5)
    k.sample('max_grad_normi', [1.], 0.05, 2.)
    k.requires(ge0(n2), gt0(fl), gt0(mx))
    if t == 'm':
        k.result(1 / sqrt(n2), gt(n2, fl))
        k.result(mx, le(n2, fl))
    elif t == 's':
        k.result(1 / sqrt(n2 + fl))
    else:
        g2 = n2 * mx**2
        k.result(app('tanh', mx * sqrt(n2)) / sqrt(n2), gt(g2, R(1, 100)))
        # degree-5 Taylor polynomial of tanh(m x)/x
        k.result(mx * (1 - g2 / 3 + 2 * g2**2 / 15), le(g2, R(1, 100)))


@lemma('C02', 'floored reciprocal norms are positive and bounded')
def _(env):
    n2, m = var('n2', 'R'), var('m', 'R')
    g2 = n2 * m**2
    env.holds('taylor branch positive and below the cap', gt0(m * (1 - g2 / 3 + 2 * g2**2 / 15)) * le(m * (1 - g2 / 3 + 2 * g2**2 / 15), m),
              [ge0(n2), gt0(m), le(g2, R(1, 100))])
    return env.done()


# ------------------------------------------------- stiffness index functions
def voigt(d):
    return {(i, j): (i if i == j else {2: {(1, 2): 3}, 3: {(2, 3): 4, (1, 3): 5, (1, 2): 6}}[d][(min(i, j), max(i, j))])
            for i in range(1, d + 1) for j in range(1, d + 1)}


def packed(n):
    r, c = {}, 0
    for i in range(1, n + 1):
        for j in range(i, n + 1):
            c += 1
            r[(i, j)] = r[(j, i)] = c
    return r


for _nm, _t in (('single_index_stiffness2d', voigt(2)), ('single_index_stiffness3d', voigt(3)),
                ('storage_index_stiffness2d', packed(3)), ('storage_index_stiffness3d', packed(6))):
    @kernel(_nm, 'C03', dims=(2,))
    def _(k, t=_t):
        n = max(t)[0]
        i, j = k.choice('i', range(1, n + 1)), k.choice('j', range(1, n + 1))
        for (a, b), v in t.items():
            k.result(const(v), eq(i, a) * eq(j, b))
