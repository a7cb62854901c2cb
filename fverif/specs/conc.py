"""Composition fluxes and right-hand side (C07), diffusion coefficients (C08),
phase concentrations."""
from contract import *
from vc import trans
from specs.misc import grid
import specs.misc as misc

T16 = R(1, 10**16)
misc.ZEROBASED |= set('''concentrationflux add_cahnhilliarddoublewell_flux add_wang_sintering_flux
concentrationflux_spinodal computerhsconcentration addconcentrationfluxfromgradt addconcentrationfluxfromantitrapping
addconcentrationfluxfromantitrapping3phases addconcentrationfluxfromantitrappingmultiorderp add_flux add_flux_iso
add_flux_4th'''.split())


def gradface(k, f, dx):
    """components of the gradient of f at the lower side along d"""
    def g(I, d, t, *m):
        J = I.p(d, -1)
        if t == d:
            return (f(I, *m) - f(J, *m)) / dx(d)
        return R(1, 4) * (f(J.p(t), *m) - f(J.p(t, -1), *m) + f(I.p(t), *m) - f(I.p(t, -1), *m)) / dx(t)
    return g


def mean(f):
    return lambda I, d, *m: R(1, 2) * (f(I.p(d, -1), *m) + f(I, *m))


@kernel('concentrationflux', 'C07')
def _(k):
    k.box()
    k.ghost('ngconc ngphi', 1)
    c, p, dx = k.arr('conc'), k.arr('phi'), grid(k)
    for d in k.D:
        D, E = k.arr('diffconc{d}', d), k.arr('dphicoupl{d}', d)
        k.out('flux{d}', k.sides(d), lambda *I, d=d, D=D, E=E: (
            D(I) * (c(I) - c(Idx(I).p(d, -1))) + E(I) * (p(I) - p(Idx(I).p(d, -1)))) / dx(d), d)


def lapc(k, c, dx):
    return lambda I: SumR(k.D, lambda d: (c(I.p(d)) - 2 * c(I) + c(I.p(d, -1))) / dx(d)**2)


def addmu(k, mu, mob):
    """difference of a cell quantity defined on the patch and one layer of
    ghost cells, added on every side of those cells"""
    for d in k.D:
        old = k.arr('flux{d}', d)
        lo, hi = k.bx[d]

        def f(*I, d=d, old=old, lo=lo, hi=hi):
            J = Idx(I)
            return old(I) + mob(J, d) * (ge(hi + 1, I[d]) * mu(J) - ge(I[d], lo) * mu(J.p(d, -1)))
        reg = [(b[0] - 1, b[1] + (2 if x == d else 1)) for x, b in enumerate(k.bx)]
        k.out('flux{d}', reg, f, d)


@kernel('add_cahnhilliarddoublewell_flux', 'C07')
def _(k):
    k.box()
    k.ghost('ngconc', 2)
    k.ghost('ngflux', 1)
    c, dx, w = k.arr('conc'), grid(k), k.s('well_scale')
    ca, cb, L = k.s('ca'), k.s('cb'), lapc(k, c, dx)
    # chemical potential: derivative of w (c-ca)^2 (c-cb)^2 minus kappa lap(c)
    mu = lambda I: w * (2 * (c(I) - ca) * (c(I) - cb)**2 + 2 * (c(I) - ca)**2 * (c(I) - cb)) - k.s('kappa') * L(I)
    addmu(k, mu, lambda I, d: k.s('mobility') / dx(d))


@kernel('add_wang_sintering_flux', 'C07')
def _(k):
    k.box()
    k.ghost('ngconc', 2)
    k.ghost('ngflux ngdiff ngphi', 1)
    k.int('norder', [1, 2, 3], lo=1)
    n = k.i('norder')
    c, p, dx = k.arr('conc'), k.arr('phi'), grid(k)
    a, b, L = k.s('parameter_a'), k.s('parameter_b'), lapc(k, c, dx)
    s = lambda I, e: Sum(1, n, lambda m: p(I, m)**e)

    def mu(I):
        x = c(I)
        return 2 * a * x * (1 - x) * (1 - 2 * x) + 2 * b * (x - 3 * s(I, 2) + 2 * s(I, 3)) - k.s('kappa') * L(I)
    addmu(k, mu, lambda I, d: k.s('mobility') * k.arr('diff{d}', d)(I) / dx(d))
    for e, n_ in ((2, 'phi2sum'), (3, 'phi3sum')):
        k.out(n_, k.cells(1), lambda *I, e=e: s(Idx(I), e))


@kernel('concentrationflux_spinodal', 'C07')
def _(k):
    k.box()
    k.ghost('ngconc ngconca ngconcb ngeta', 1)
    k.choice('ncomp', [1])
    k.fixed['ncomp'] = 1
    c, eta, dx = k.arr('conc'), k.arr('eta'), grid(k)
    A, B = mean(k.arr('conca')), mean(k.arr('concb'))
    for d in k.D:
        D = k.arr('diffconc{d}', d)

        def f(*I, d=d, D=D):
            J = Idx(I[:-1])
            H = J.p(d, -1)
            return (D(J, 1) * (c(J, 1) - c(H, 1)) - k.s('kappa') * (A(J, d, 1) - B(J, d, 1)) * (eta(J) - eta(H))) / dx(d)
        k.out('flux{d}', k.sides(d) + [(const(1), const(1))], f, d)


@kernel('computerhsconcentration', 'C07')
def _(k):
    k.box()
    dx = grid(k)
    FL = [k.arr('flux{d}', d) for d in k.D]
    k.out('rhs', k.cells(), lambda *I: k.s('mobility') * SumR(k.D, lambda d: (FL[d](Idx(I).p(d)) - FL[d](I)) / dx(d)))


@kernel('addconcentrationfluxfromgradt', 'C07')
def _(k):
    k.box()
    k.ghost('ngt', 1)
    T, dx, ty = k.arr('temperature'), grid(k), k.st('avg_type')
    k.dom('temperature', 0.5, 2.)
    for d in k.D:
        old, mq = k.arr('flux{d}', d), k.arr('mq{d}', d)

        def f(*I, d=d, old=old, mq=mq):
            J = Idx(I).p(d, -1)
            return old(I) - mq(I) * (T(I) - T(J)) / dx(d) / avg(T(J), T(I), ty)
        k.out('flux{d}', k.sides(d), f, d)


def norm2(k, g, I, d, *m):
    return SumR(k.D, lambda t: g(I, d, t, *m)**2)


@kernel('addconcentrationfluxfromantitrapping', 'C07')
def _(k):
    k.box()
    k.ghost('ngp ngc ngd', 1)
    n = k.count('ncomp')
    p, dx = k.arr('phase'), grid(k)
    g = gradface(k, p, dx)
    cl, ca, dp = mean(k.arr('cl')), mean(k.arr('ca')), mean(k.arr('dphidt'))
    for d in k.D:
        old = k.arr('flux{d}', d)

        def f(*I, d=d, old=old):
            J, m = Idx(I[:-1]), I[-1]
            g2 = norm2(k, g, J, d)
            v = k.s('alpha') * g(J, d, d) / power(g2, R(1, 2)) * (cl(J, d, m) - ca(J, d, m)) * dp(J, d)
            return old(J, m) + ite(gt(absx(g2), T16), v, 0)
        k.out('flux{d}', k.sides(d) + [(const(1), n)], f, d)


@kernel('addconcentrationfluxfromantitrapping3phases', 'C07')
def _(k):
    k.box()
    k.ghost('ngp ngc ngd', 1)
    p, dx = k.arr('phase'), grid(k)
    g = gradface(k, p, dx)
    cs = [mean(k.arr(n)) for n in ('cl', 'ca', 'cb')]
    dp = mean(k.arr('dphidt'))
    for d in k.D:
        old = k.arr('flux{d}', d)

        def f(*I, d=d, old=old):
            J = Idx(I)
            g2 = norm2(k, g, J, d, 1)
            r = ZERO
            for q in (2, 3):
                h2 = norm2(k, g, J, d, q)
                # cosine of the angle between the two interface normals
                fac = -SumR(k.D, lambda t: g(J, d, t, 1) * g(J, d, t, q)) / power(g2, R(1, 2)) / power(h2, R(1, 2))
                v = k.s('alpha') * fac * g(J, d, d, 1) / power(g2, R(1, 2)) * (cs[0](J, d) - cs[q - 1](J, d)) * dp(J, d, q)
                r = r + ite(gt(absx(h2), T16), v, 0)
            return old(J) + ite(gt(absx(g2), T16), r, 0)
        k.out('flux{d}', k.sides(d), f, d)


@kernel('addconcentrationfluxfromantitrappingmultiorderp', 'C07')
def _(k):
    k.box()
    k.ghost('ngp ngc ngd', 1)
    n = k.int('norderp', [2, 3], lo=1)
    p, dx = k.arr('phase'), grid(k)
    g = gradface(k, p, dx)
    cl, ca, dp = mean(k.arr('cl')), mean(k.arr('ca')), mean(k.arr('dphidt'))
    for d in k.D:
        old = k.arr('flux{d}', d)

        def f(*I, d=d, old=old):
            J = Idx(I)
            g2 = norm2(k, g, J, d, n)
            S = lambda w: Sum(1, n - 1, w)
            h2 = SumR(k.D, lambda t: S(lambda m: g(J, d, t, m))**2)
            v = k.s('alpha') * g(J, d, d, n) / power(g2, R(1, 2)) * (cl(J, d) - ca(J, d)) * S(lambda m: dp(J, d, m))
            return old(J) - ite(gt(g2, T16), ite(gt(h2, T16), v, 0), 0)
        k.out('flux{d}', k.sides(d), f, d)


# ------------------------------------------------------- generic added fluxes
def addflux(k, f, dn='d{d}'):
    n = k.count('ncomp|depth')
    for d in k.D:
        old, D = k.arr('flux{d}', d), k.arr(dn + '|d{d}', d)

        def v(*I, d=d, old=old, D=D):
            J, i = Idx(I[:-1]), I[-1]
            return old(J, i) + Sum(1, n, lambda j: f(J, d, lambda *X: D(*X, i + (j - 1) * n), j))
        k.out('flux{d}', k.sides(d) + [(const(1), n)], v, d)


@kernel('add_flux', 'C07')
def _(k):
    k.box()
    k.ghost('ngconc|ng', 1)
    u, dx = k.arr('conc|data'), grid(k)
    addflux(k, lambda I, d, D, j: D(I) * (u(I, j) - u(I.p(d, -1), j)) / dx(d), 'diffconc{d}')


@kernel('add_flux_iso', 'C07')
def _(k):
    k.box()
    k.ghost('ngconc|ng', 1)
    k.ghost('ngdiff|ngd', 1)
    u, dx = k.arr('conc|data'), grid(k)

    def f(I, d, D, j):
        e = lambda J: D(J) * (u(J, j) - u(J.p(d, -1), j)) / (12 * dx(d))
        T = [t for t in k.D if t != d]
        return (12 - 2 * len(T)) * e(I) + SumR(T, lambda t: e(I.p(t)) + e(I.p(t, -1)))
    addflux(k, f)


@kernel('add_flux_4th', 'C07')
def _(k):
    k.box()
    k.ghost('ngconc|ng', 2)
    u, dx, b = k.arr('conc|data'), grid(k), k.arr('physb', sort='I')
    k.doms['physb'] = lambda rng, shape, env, arrays, dd: np.array([rng.choice([0, 1]) for _ in range(int(np.prod(shape)))]).reshape(shape)

    def f(I, d, D, j):
        lo, hi = k.bx[d]
        v = lambda x: u(I.p(d, x), j)
        low = lor(eq(I[d], lo) * eq(b(2 * d + 1), 1), eq(I[d], hi + 1) * eq(b(2 * d + 2), 1))
        two = (v(0) - v(-1)) / dx(d)
        four = (15 * (v(0) - v(-1)) - (v(1) - v(-2))) / (12 * dx(d))
        return D(I) * ite(low, two, four)
    addflux(k, f)


# ------------------------------------------------------ diffusion coefficients
ARR = lambda k, s, iT: k.s('d_' + s) * trans('exp', -k.s('q0_' + s) / k.s('gas_constant_r') * iT)


def faceavg(k, f, n=None):
    """average over the two cells of a side, with the selected mean; summed
    over n order parameters when n is given"""
    t = k.st('avg_type')

    def v(I, d, *m):
        if n is not None:
            return Sum(1, n, lambda q: avg(f(I.p(d, -1), q), f(I, q), t))
        return avg(f(I.p(d, -1), *m), f(I, *m), t)
    return v


def face_invT(k):
    T = k.arr('temp')
    k.dom('temp', 0.5, 2.)
    return lambda I, d: 2 / (T(I.p(d, -1)) + T(I))


def H(k, x):
    return interp(x, k.st('interp_type'))


@kernel('concentration_pfmdiffusion', 'C08')
def _(k):
    k.box()
    k.ghost('ngphi ngtemp', 1)
    p, iT = faceavg(k, k.arr('phi')), face_invT(k)
    k.pos('gas_constant_r')
    for d in k.D:
        def f(*I, d=d):
            J = Idx(I)
            h, t = H(k, p(J, d)), iT(J, d)
            return (1 - h) * ARR(k, 'liquid', t) + h * ARR(k, 'solida', t)
        k.out('diff{d}', k.sides(d), f, d)


@kernel('concentration_pfmdiffusion_scalar', 'C08')
def _(k):
    k.box()
    k.ghost('ngphi', 1)
    p = faceavg(k, k.arr('phi'))
    for d in k.D:
        def f(*I, d=d):
            h = H(k, p(Idx(I), d))
            return (1 - h) * k.s('d_liquid') + h * k.s('d_solida')
        k.out('diff{d}', k.sides(d), f, d)


def weights(k, names):
    """interpolated total fractions of the phases, each the sum of the side
    averages of its order parameters"""
    fs = []
    for nm, cnt in names:
        n = k.count(cnt) if cnt else None
        f = faceavg(k, k.arr(nm), n) if cnt else faceavg(k, k.arr(nm))
        fs.append(f)
    return fs


@kernel('concentration_pfmdiffusion_scalar_2phases', 'C08')
def _(k):
    k.box()
    k.ghost('ngphi', 1)
    A = faceavg(k, k.arr('phia'), k.count('nphia'))
    Lq = faceavg(k, k.arr('phil'))
    for d in k.D:
        k.out('diff{d}', k.sides(d), lambda *I, d=d: H(k, Lq(Idx(I), d)) * k.s('d_liquid')
              + H(k, A(Idx(I), d)) * k.s('d_solida'), d)


@kernel('concentration_pfmdiffusion_threephases', 'C08', dims=(2,))
def _(k):
    k.box()
    k.ghost('ngphi ngtemp', 1)
    p, iT = faceavg(k, k.arr('phi')), face_invT(k)
    k.pos('gas_constant_r')
    for d in k.D:
        def f(*I, d=d):
            J = Idx(I)
            return SumR(enumerate(('liquid', 'solida', 'solidb')), lambda e: H(k, p(J, d, e[0] + 1)) * ARR(k, e[1], iT(J, d)))
        k.out('diff{d}', k.sides(d), f, d)


def grown(k, d, g):
    return [(lo, hi + 1) if x == d else (lo - g, hi + g) for x, (lo, hi) in enumerate(k.bx)]


@kernel('concentration_pfmdiffusion_of_temperature', 'C08')
def _(k):
    k.box()
    k.ghost('ngphi ngtemp', 1)
    k.requires(ge(k.i('ngphi'), k.i('ngdiff')), ge(k.i('ngtemp'), k.i('ngdiff')))
    k.int('ngdiff', [0, 1], lo=0)
    p, iT = faceavg(k, k.arr('phi')), face_invT(k)
    k.pos('gas_constant_r')
    for d in k.D:
        reg = grown(k, d, k.i('ngdiff'))
        k.out('diffl{d}', reg, lambda *I, d=d: (1 - H(k, p(Idx(I), d))) * ARR(k, 'liquid', iT(Idx(I), d)), d)
        k.out('diffa{d}', reg, lambda *I, d=d: H(k, p(Idx(I), d)) * ARR(k, 'solida', iT(Idx(I), d)), d)


@kernel('concentration_pfmdiffusion_of_temperature_multiphases', 'C08')
def _(k):
    k.box()
    k.ghost('ngphi ngtemp', 1)
    n = k.int('nphi', [2, 3], lo=1)
    q, iT = k.arr('phi'), face_invT(k)
    S, Lq = faceavg(k, q, n - 1), faceavg(k, q)
    k.pos('gas_constant_r')
    for d in k.D:
        k.out('diffl{d}', k.sides(d), lambda *I, d=d: H(k, Lq(Idx(I), d, n)) * ARR(k, 'liquid', iT(Idx(I), d)), d)
        k.out('diffa{d}', k.sides(d), lambda *I, d=d: H(k, S(Idx(I), d)) * ARR(k, 'solid', iT(Idx(I), d)), d)


def three(k):
    k.box()
    k.ghost('ngphi', 1)
    k.count('nphil')
    L1 = faceavg(k, k.arr('phil'))
    return {'l': lambda I, d: L1(I, d, 1), 'a': faceavg(k, k.arr('phia'), k.count('nphia')),
            'b': faceavg(k, k.arr('phib'), k.count('nphib'))}


@kernel('concentration_pfmdiffusion_of_temperature_threephases', 'C08')
def _(k):
    w = three(k)
    k.ghost('ngtemp', 1)
    iT = face_invT(k)
    k.pos('gas_constant_r')
    for d in k.D:
        for x, s in (('l', 'liquid'), ('a', 'solida'), ('b', 'solidb')):
            k.out('diff%s{d}' % x, k.sides(d), lambda *I, d=d, x=x, s=s: H(k, w[x](Idx(I), d)) * ARR(k, s, iT(Idx(I), d)), d)


@kernel('concentration_pfmdiffusion_scalar_3phases', 'C08')
def _(k):
    w = three(k)
    for d in k.D:
        k.out('diff{d}', k.sides(d), lambda *I, d=d: SumR((('l', 'liquid'), ('a', 'solida'), ('b', 'solidb')),
              lambda e: H(k, w[e[0]](Idx(I), d)) * k.s('d_' + e[1])), d)


@kernel('concentrationdiffusion_beckermann', 'C08')
def _(k):
    k.box()
    k.ghost('ngphi ngk', 1)
    p, pc = faceavg(k, k.arr('phi')), mean(k.arr('partition_coeff'))
    k.dom('partition_coeff', 0.2, 1.)
    for d in k.D:
        def f(*I, d=d):
            h = H(k, p(Idx(I), d))
            return k.s('d_solid') + (k.s('d_liquid') - k.s('d_solid')) * (1 - h) / (1 - h + pc(Idx(I), d) * h)
        k.out('diff{d}', k.sides(d), f, d)


@kernel('concentration_diffcoeff_of_temperature', 'C08')
def _(k):
    k.box()
    k.ghost('ngtemp', 1)
    iT = face_invT(k)
    k.pos('gas_constant_r')
    # the 3D routine has no third phase
    th = lnot(eq(k.flag('three_phases'), 0)) if k.has('three_phases') else None
    for d in k.D:
        for x, s in (('l', 'liquid'), ('a', 'solida'), ('b', 'solidb')):
            f = lambda *I, d=d, s=s: ARR(k, s, iT(Idx(I), d))
            if x == 'b' and th is None:
                continue
            if x == 'b':
                k.outif('diffb{d}', k.sides(d), lambda *I: th, f, d)
            else:
                k.out('diff%s{d}' % x, k.sides(d), f, d)


TH = R(1, 100)
FAC = (1 / (R(1, 2) - TH))**4


def pairs(k, I, same):
    """sum over pairs of order parameters above the threshold"""
    a, b = k.arr('phia'), k.arr('phib')
    na, nb = k.i('nphia'), k.i('nphib')

    def t(f, m):
        x = f(I, m)
        return ite(gt(x, TH), (x - TH)**2, 0)
    return Sum(1, na, lambda i: t(a, i) * Sum(ite(same, i + 1, 1), nb, lambda j: t(b, j)))


def adddab(k, dab, reg, arrs):
    for d in k.D:
        lo, hi = k.bx[d]
        for nm, c in arrs:
            old = k.arr(nm, d)

            def f(*I, d=d, old=old, c=c, lo=lo, hi=hi):
                J = Idx(I)
                wu, wl = (ONE, ONE) if reg is None else (ge(hi + 1, I[d]), ge(I[d], lo))
                return old(I) + c * (wu * dab(J) + wl * dab(J.p(d, -1)))
            if reg is None:
                k.out(nm, grown(k, d, k.i('ngdiff')), f, d)
            else:
                k.out(nm, [(b[0] - 1, b[1] + (2 if x == d else 1)) for x, b in enumerate(k.bx)], f, d)


@kernel('ab_diffusion_of_temperature', 'C08')
def _(k):
    k.box()
    k.ghost('ngphi ngtemp', 1)
    k.int('ngdiff', [0, 1], lo=0, hi=1)
    k.count('nphia'), k.count('nphib')
    same = eq(k.choice('same_phase', [0, 1]), 1)
    T = k.arr('temp')
    k.dom('temp', 0.5, 2.)
    k.pos('gas_constant_r')
    dab = lambda I: R(1, 2) * FAC * k.s('d0|d0c') * trans('exp', -k.s('q0') / k.s('gas_constant_r') / T(I)) * pairs(k, I, same)
    adddab(k, dab, None, (('diffa{d}', ONE), ('diffb{d}', ONE - same)))


@kernel('add_ab_diffusion_single', 'C08')
def _(k):
    k.box()
    k.ghost('ngphi ngdiff', 1)
    p = k.arr('phi')
    adddab(k, lambda I: R(1, 2) * k.s('d0|d0c') * 16 * p(I)**2 * (1 - p(I))**2, 1, (('diff{d}', ONE),))


@kernel('add_ab_diffusion', 'C08')
def _(k):
    k.box()
    k.ghost('ngphi ngdiff', 1)
    k.count('nphia'), k.count('nphib')
    same = eq(k.choice('same_phase', [0, 1]), 1)
    adddab(k, lambda I: R(1, 2) * k.s('d0|d0c') * FAC * pairs(k, I, same), 1, (('diff{d}', ONE),))


@kernel('compute_concentration_from_phase_concentrations', 'C08')
def _(k):
    k.box()
    cl, cs, p = k.arr('cl'), k.arr('cs'), k.arr('phi')
    k.out('c', k.cells(), lambda *I: (1 - H(k, p(I))) * cl(I) + H(k, p(I)) * cs(I))
