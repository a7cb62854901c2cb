"""Right-hand sides of the phase, second phase and temperature equations."""
from contract import *
from vc import trans
from specs.misc import grid, clamp
from specs.energy import CubicN4, cubic
from specs.grad import lap
from specs.quat import mult

T12 = R(1, 10**12)
TAU = lambda: R(1, 2) * 4 * trans('atan', ONE)          # pi/2


def face(k, f):
    """normal difference and transverse averaged differences of a cell field
    at the lower face along d"""
    h = grid(k, 'h')

    def g(I, d, t):
        J = I.p(d, -1)
        if t == d:
            return (f(I) - f(J)) / h(d)
        return (f(J.p(t)) - f(J.p(t, -1)) + f(I.p(t)) - f(I.p(t, -1))) / (4 * h(t))
    return g, h


def fluxes(k, f):
    for d in k.D:
        k.out('flux%d' % d, k.sides(d), lambda *I, d=d: f(Idx(I), d))


@kernel('gradient_flux', 'C06')
def _(k):
    k.box()
    k.ghost('ngphase', 1)
    p, e, h = k.arr('phase'), k.s('epsilon'), grid(k, 'h')
    fluxes(k, lambda I, d: e**2 * (p(I) - p(I.p(d, -1))) / h(d))


def widened(k, w):
    """face difference averaged with the two transverse neighbours"""
    k.box()
    k.ghost('ngphase', 1)
    p, e, h = k.arr('phase'), k.s('epsilon'), grid(k, 'h')
    dl = lambda I, d: p(I) - p(I.p(d, -1))
    fluxes(k, lambda I, d: e**2 / (h(d) * (w + 2)) * (dl(I.p(1 - d, -1), d) + w * dl(I, d) + dl(I.p(1 - d), d)))


@kernel('gradient_flux_wide', 'C06', dims=(2,))
def _(k):
    widened(k, 6)


@kernel('compute_flux_isotropic', 'C06', dims=(2,))
def _(k):
    widened(k, 10)


def dcubic(m, q, v):
    """component m of the gradient of the cubic invariant, over 4/|v|, back in
    the sample frame"""
    cj = lambda x: [x[0], -x[1], -x[2], -x[3]]
    at = lambda x: (lambda m: x[m - 1])
    vec4 = lambda f: [f(i) for i in (1, 2, 3, 4)]
    r = mult(at(q), at(mult(at(v), at(cj(q)))))
    n4 = r[1]**4 + r[2]**4 + r[3]**4
    g = [r[0] * 0] + [r[i] * (r[i]**2 - n4) for i in (1, 2, 3)]
    return mult(at(cj(q)), at(mult(at(g), at(q))))[m - 1]


@kernel('compute_dgamma', 'C06', dims=(3,))
def _(k):
    q, v = k.arr('quat'), k.arr('n')
    Q, V = [q(m) for m in (1, 2, 3, 4)], [v(m) for m in (1, 2, 3, 4)]
    k.scalar('n4', cubic(Q, V))
    for m in (1, 2, 3, 4):
        k.out('dgamma', [(const(m), const(m))], lambda *I, m=m: dcubic(m, Q, V))


class CubicGrad(CubicN4):
    """contract of compute_dgamma( quat, n, dgamma, n4 ) as used by callers"""
    writes = {2, 3}

    def extent(self, E, i, s, pt, ctx):
        return const(4) if i < 3 else ONE

    def value(self, E, i, k, s, pt, ctx):
        v = []
        for j in (0, 1):
            p, u = self.vec(E, s.a[1][j], s, pt, ctx, const(4))
            for m in (1, 2, 3, 4):
                v.append(subst(p, {sym.atom_of(u).id: const(m)}))
        if i == 3:
            return app('cubic', *v)
        return app('dcubic', k[0], *v)


@kernel('anisotropic_gradient_flux', 'C06')
def _(k):
    k.box()
    k.ghost('ngphase ngq', 1)
    p, q, e = k.arr('phase'), k.arr('quat'), k.s('epsilon')
    g, h = face(k, p)
    k.samplers['knumber'] = lambda rng, env: rng.choice([4, 6])
    av = lambda I, d, m: R(1, 2) * (q(I, m) + q(I.p(d, -1), m))
    if k.dim == 2:
        qlen = k.choice('qlen', [2, 4])

        def flux(I, d):
            G = [g(I, d, 0), g(I, d, 1)]
            th = ite(gt(absx(G[0]), T12), trans('atan', G[1] / G[0]), TAU())
            c = minn(1, maxx(-1, av(I, d, 1)))
            ref = ite(eq(qlen, 4), 2 * trans('acos', c), trans('acos', c))
            kn = k.i('knumber')
            ang = kn * (th - ref)
            ee = e * (1 + k.s('nu') * trans('cos', ang))
            de = -kn * e * k.s('nu') * trans('sin', ang)
            # (eps^2 + eps eps' J) grad phi
            return ee**2 * G[d] + (ee * de * G[0] if d else -ee * de * G[1])
    else:
        k.fixed['qlen'] = 4
        k.opaquesub['compute_dgamma'] = CubicGrad()
        k.funcs['cubic'] = lambda lib, *a: cubic(a[:4], a[4:])
        k.funcs['dcubic'] = lambda lib, m, *a: dcubic(int(m), a[:4], a[4:])
        u = k.s('eps4')
        k.dom('eps4', 0.02, 0.2)

        def flux(I, d):
            G = [g(I, d, t) for t in k.D]
            g2 = SumR(k.D, lambda t: G[t]**2)
            s = power(g2, R(1, 2))
            a = [av(I, d, m) for m in (1, 2, 3, 4)] + [ZERO] + [x / s for x in G]
            on = gt(absx(g2), T12)
            gam = e * (1 - 3 * u) * (1 + 4 * u / (1 - 3 * u) * ite(on, app('cubic', *a), ZERO))
            return gam**2 * G[d] + 16 * e * gam * u * s * ite(on, app('dcubic', const(d + 2), *a), ZERO)
    fluxes(k, flux)


def div(k, extra=()):
    h = grid(k)
    FL = [k.arr('flux%d' % d) for d in k.D]
    return lambda I, *m: SumR(k.D, lambda d: (FL[d](I.p(d), *m) - FL[d](I, *m)) / h(d))


@kernel('computerhspbg', 'C06')
def _(k):
    k.box()
    p, t, eta, o, w = k.arr('phi'), k.arr('temp'), k.arr('eta'), k.arr('orient_grad_mod'), div(k)
    mis, eq_, s, s2 = k.s('misorientation_factor'), k.s('epsilonq'), k.s('phi_well_scale'), k.s('eta_well_scale')
    it, t1, t2 = k.st('energy_interp_type|phi_interp_type'), k.st('orient_interp_type1'), k.st('orient_interp_type2')
    wo, th = lnot(eq(k.flag('with_orient'), 0)), lnot(eq(k.flag('three_phase'), 0))

    def f(*I):
        I = Idx(I)
        v = w(I) - s * dwell(p(I), k.st('phi_well_type'))
        v = v - th * s2 * dinterp(p(I), it) * well(eta(I), k.st('eta_well_type'))
        return v - wo * (mis * t(I) * dinterp(p(I), t1) * o(I) + R(1, 2) * eq_**2 * dinterp(p(I), t2) * o(I)**2)
    k.out('rhs', k.cells(), f)


@kernel('computerhsthreephases', 'C06')
def _(k):
    k.box()
    p, s, w = k.arr('phi'), k.s('phi_well_scale'), div(k)

    def f(*I):
        J = Idx(I[:-1])
        r = [w(J, a + 1) - s * app('deriv_triple_well_func', p(J, a + 1), p(J, (a + 1) % 3 + 1), p(J, (a + 2) % 3 + 1))
             for a in range(3)]
        # projected on the plane of constant sum
        return SumR(range(3), lambda a: eq(I[-1], a + 1) * r[a]) - R(1, 3) * (r[0] + r[1] + r[2])
    k.out('rhs', k.cells() + [(const(1), const(3))], f)


@kernel('computerhseta', 'C06')
def _(k):
    k.box()
    p, eta, s, w = k.arr('phi'), k.arr('eta'), k.s('eta_well_scale'), div(k)
    k.out('rhs', k.cells(), lambda *I: w(Idx(I)) - s * interp(p(I), k.st('phi_interp_type')) * dwell(eta(I), k.st('eta_well_type')))


@kernel('phaserhs_fenergy', 'C06')
def _(k):
    k.box()
    p, r = k.arr('phi'), k.arr('rhs')
    k.out('rhs', k.cells(), lambda *I: r(I) + dinterp(p(I), k.st('energy_interp_type|phi_interp_type')) * (k.arr('fl')(I) - k.arr('fa')(I)))


@kernel('phaserhs_fenergy_multiorderp', 'C06')
def _(k):
    k.box()
    p, r = k.arr('phi'), k.arr('rhs')
    n = k.int('nphi', [2, 3, 4], lo=2)
    k.dom('phi', 0.1, 1.)

    def f(*I):
        J, a = I[:-1], I[-1]
        ss = Sum(1, n - 1, lambda b: p(J, b)**2)
        S = ss + p(J, n)**2
        fl, fa = k.arr('fl')(J), k.arr('fa')(J)
        # derivative of the solid fraction ss/S
        return r(I) + ite(eq(a, n), 2 * p(J, n) * ss / S**2, -2 * p(I) * p(J, n)**2 / S**2) * (fa - fl)
    k.out('rhs', k.cells() + [(1, n)], f)


@kernel('etarhs_fenergy', 'C06')
def _(k):
    k.box()
    p, e, r = k.arr('phi'), k.arr('eta'), k.arr('rhs')
    k.out('rhs', k.cells(), lambda *I: r(I) + interp(p(I), k.st('phi_interp_type')) * dinterp(e(I), k.st('eta_interp_type'))
          * (k.arr('fa')(I) - k.arr('fb')(I)))


@kernel('computerhstemp', 'C13')
def _(k):
    k.box()
    k.ghost('ngtemp', 1)
    k.dom('cp', 0.5, 2.)
    h, wp = grid(k), lnot(eq(k.flag('with_phase'), 0))
    T = k.arr('temp')
    k.out('rhs', k.cells(), lambda *I: k.s('thermal_diffusivity') * SumR(
        k.D, lambda d: (T(Idx(I).p(d)) - 2 * T(I) + T(Idx(I).p(d, -1))) / h(d)**2)
        + wp * k.s('latent_heat') / k.arr('cp')(I) * k.arr('phi_rhs')(I))


@kernel('computerhsbiaswell', 'C06')
def _(k):
    k.box()
    p, r = k.arr('phi'), k.arr('rhs')
    k.out('rhs', k.cells(), lambda *I: r(I) + k.s('alpha') / (2 * TAU())
          * trans('atan', k.s('gamma') * (k.arr('te')(I) - k.arr('temp')(I))) * p(I) * (1 - p(I)))


@kernel('computerhsbiaswellbeckermann', 'C06')
def _(k):
    k.box()
    p, r = k.arr('phi'), k.arr('rhs')
    k.out('rhs', k.cells(), lambda *I: r(I) + k.s('alpha') * (k.arr('te')(I) - k.arr('temp')(I)) * p(I) * (1 - p(I)))


@kernel('computerhsdeltatemperature', 'C06')
def _(k):
    k.box()
    k.ghost('ngtemp', 1)
    k.pos('tm')
    p, r, T = k.arr('phi'), k.arr('rhs'), k.arr('temp')

    def f(*I):
        I = Idx(I)
        w = R(3, 4) * T(I) + R(1, 4) * SumR(k.D, lambda d: T(I.p(d)) + T(I.p(d, -1))) / (2 * k.dim)
        return r(I) + k.s('latentheat') / k.s('tm') * (k.s('tm') - w) * dinterp(p(I), k.st('energy_interp_type|phi_interp_type'))
    k.out('rhs', k.cells(), f)


@kernel('computedphidtemperaturedeltatemperature', 'C06')
def _(k):
    k.box()
    k.pos('tm')
    k.out('rhs', k.cells(), lambda *I: k.s('mobility') * k.s('latentheat') / k.s('tm')
          * dinterp(k.arr('phi')(I), k.st('energy_interp_type|phi_interp_type')))


@kernel('addvdphidx', 'C06')
def _(k):
    k.box()
    k.ghost('ngphase', 1)
    k.dom('dx', 0.5, 2.)
    p, r = k.arr('phase'), k.arr('rhs')
    k.out('rhs', k.cells(), lambda *I: r(I) + k.s('vel') * (p(Idx(I).p(0)) - p(Idx(I).p(0, -1))) / (2 * k.arr('dx')(1)))


@kernel('addvdphidx_upwind3', 'C06')
def _(k):
    k.box()
    k.ghost('ngphase', 2)
    k.dom('dx', 0.5, 2.)
    p, r, h = k.arr('phase'), k.arr('rhs'), k.arr('dx')(1)
    ph = k.flag('physb')

    def f(*I):
        I = Idx(I)
        c = (p(I.p(0)) - p(I.p(0, -1))) / (2 * h)
        u = (-2 * p(I.p(0, -1)) - 3 * p(I) + 6 * p(I.p(0)) - p(I.p(0, 2))) / (6 * h)
        return r(I) + k.s('vel') * ite(land(eq(I[0], k.bx[0][1]), eq(ph, 1)), c, u)
    k.out('rhs', k.cells(), f)
