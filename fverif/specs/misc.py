"""Mobilities, temperature, smoothing, rigid-body motion, symmetry correction,
multi-order-parameter right-hand side."""
from contract import *
from vc import trans
from specs.quatgrad import back, rotd
from specs.funcs import clamp


def grid(k, n='dx'):
    """mesh spacing accessor by direction 0..dim-1, whatever the declared base"""
    k.dom(n, 0.5, 2.)
    a = k.arr(n)
    off = 0 if k.unit in ZEROBASED else 1
    return lambda d: a(d + off)


ZEROBASED = set('''computerhseta computerhstemp phi_interface_energy initgaussian initgaussiansource initgradient phasesetexactandrhs2d phasesetexactandrhs3d
'''.split())


# ------------------------------------------------------------ mobilities
def mobility(t, phi, alt):
    """1 - interpolated fraction, as a function of the clamped phase"""
    if t == 'p':
        x = clamp(phi)
        return 1 - x**3 * (10 - 15 * x + 6 * x**2)
    if t == 'e':
        x = clamp(phi)
        return 1 - (1 - trans('exp', alt * x)) / (1 - trans('exp', alt))
    x = maxx(R(1, 10**6), minn(1, phi))
    return minn(maxx(0, (1 - x) / x**2), alt)


MT = [{'func_type': t} for t in 'pei']


@kernel('quatmobility', 'C15', cfgs=MT)
def _(k):
    k.box()
    k.ghost('ngphase', 0)
    k.samplers['ngphase'] = lambda rng, env: 2
    k.samplers['ngmobility'] = lambda rng, env: rng.choice([0, 1, 2])
    k.requires(ge(k.i('ngmobility'), 0), ge(k.i('ngphase'), k.i('ngmobility')))
    k.pos('alt_scale_factor', 1.0, 4.0)
    k.dom('phase', -0.3, 1.3)
    a, s, m, p = k.s('alt_scale_factor'), k.s('scale_mobility'), k.s('min_mobility'), k.arr('phase')
    g = k.i('ngmobility')
    k.out('mobility', k.cells(g), lambda *I: m + (s - m) * mobility(k.cfg['func_type'], p(I), a))


def dmob(t, x, alt):
    """[(condition, derivative)]; exact wherever the mobility is differentiable"""
    out = [(lt(x, 0), ZERO), (gt(x, 1), ZERO)]
    mid = gt(x, 0) * lt(x, 1)
    if t == 'p':
        out.append((mid, -30 * x**2 * (1 - x)**2))
    elif t == 'e':
        out.append((mid, alt * trans('exp', alt * x) / (1 - trans('exp', alt))))
    else:
        mid = gt(x, R(1, 10**6)) * lt(x, 1)
        out.append((mid * lt((1 - x) / x**2, alt), (x - 2) / x**3))
        out.append((mid * gt((1 - x) / x**2, alt), ZERO))
    return out


@kernel('quatmobilityderiv', 'C15', cfgs=MT)
def _(k):
    k.box()
    k.pos('alt_scale_factor', 1.0, 4.0)
    k.dom('phase', -0.3, 1.3)
    a, s, m, p = k.s('alt_scale_factor'), k.s('scale_mobility'), k.s('min_mobility'), k.arr('phase')

    u = lambda I, j: dmob(k.cfg['func_type'], p(I), a)[j]
    for j in range(len(u([0] * k.dim, slice(None)))):
        # any value at the kinks
        k.out('dmobility', k.cells(), lambda *I, j=j: (s - m) * u(I, j)[1], when=lambda *I, j=j: u(I, j)[0])


# ------------------------------------------------------------ temperature
@kernel('source_temperature', 'C13')
def _(k):
    k.box()
    k.dom('cp', 0.5, 2.)
    c, s, cp = k.arr('conc'), k.arr('source'), k.arr('cp')
    k.requires(ge(k.i('nsp'), 2))
    k.samplers['nsp'] = lambda rng, env: rng.choice([2, 3])
    k.out('rhs', k.cells(), lambda *I: (s(1) * c(I) + s(2) * (1 - c(I))) / cp(I))


def center(k, d, i, half=R(1, 2)):
    """coordinate of the centre of cell i along d"""
    return k.arr('xlo|xlower')(d) + k.arr('dx')(d) * (i - k.bx[d][0] + half)


def r2(k, I):
    L, c = k.arr('ll'), k.arr('center')

    def dist(d):
        x = center(k, d, I[d]) - c(d)
        return ite(gt(L(d), 0), minn(absx(x), minn(absx(x + L(d)), absx(x - L(d)))), absx(x))
    return SumR(k.D, lambda d: dist(d)**2)


@kernel('initgaussian', 'C13')
def _(k):
    k.box()
    k.ghost('ng', 0)
    k.pos('standard_dev')
    b, p, sd = k.s('temperature_base'), k.s('temperature_peak'), k.s('standard_dev')
    k.out('var', k.cells(k.i('ng')), lambda *I: b + (p - b) * trans('exp', -r2(k, I) / (2 * sd**2)))


@kernel('initgaussiansource', 'C13')
def _(k):
    k.box()
    k.pos('standard_dev')
    k.dom('cp', 0.5, 2.)
    p, sd, cp = k.s('heat_peak'), k.s('standard_dev'), k.arr('cp')
    k.out('rhs', k.cells(), lambda *I: p * trans('exp', -r2(k, I) / (2 * sd**2)) / cp(I))


@kernel('initgradient', 'C13')
def _(k):
    k.box()
    k.ghost('ng', 0)
    g, r, t = k.arr('gradient'), k.arr('ref_position'), k.s('ref_temperature')
    k.out('var', k.cells(k.i('ng')), lambda *I: t + SumR(k.D, lambda d: g(d) * (center(k, d, I[d]) - r(d))))


@kernel('linearmeltingline', 'C13')
def _(k):
    k.box()
    c = k.arr('conc')
    k.out('temp', k.cells(), lambda *I: k.s('tref') + k.s('slope') * (c(I) - k.s('cref')))


@kernel('heat_capacity_nkr', 'C13')
def _(k):
    k.box()
    n, np_ = k.count('nc'), k.count('npow')
    k.requires(eq(k.i('ncoeffs'), (n + 1) * np_))
    k.samplers['ncoeffs'] = lambda rng, env: (env['nc'] + 1) * env['npow']
    k.doms['cp_powers'] = lambda rng, shape, env, arrays, dd: np.array([rng.choice([0, 1, 2, -2, 3]) for _ in range(int(np.prod(shape)))]).reshape(shape)
    k.dom('temp', 0.5, 2.)
    k.order = ['nc', 'npow', 'ncoeffs']
    c, te, co, pw = k.arr('conc'), k.arr('temp'), k.arr('cpcoeffs'), k.iarr('cp_powers')

    def f(*I):
        val = lambda m: Sum(1, np_, lambda p: co((m - 1) * np_ + p) * power(te(I), pw(p)))
        return Sum(1, n, lambda m: val(m) * c(I, m)) + val(n + 1) * (1 - Sum(1, n, lambda m: c(I, m)))
    k.out('cp', k.cells(), f)


# ------------------------------------------------------------ smoothing, motion
@kernel('smoothquat', 'C10')
def _(k):
    k.box()
    n, q, p, t = k.count('depth'), k.arr('quat'), k.arr('phase'), k.s('phase_threshold')
    D = k.dirs('symm_diff_{x}')
    k.outif('quat_out', k.cells() + [(1, n)], lambda *I: lt(p(I[:-1]), t), lambda *I:
            q(I) + R(1, 8 if k.dim == 2 else 6) * SumR(k.D, lambda d: D[d](Idx(I).p(d)) - D[d](I)))


@kernel('addrbmotion', 'C14')
def _(k):
    k.box()
    k.ghost('ngphase', 1)
    h, v, p, r = grid(k), k.arr('vel'), k.arr('phase'), k.arr('rhs')
    k.out('rhs', k.cells(), lambda *I: r(I) - SumR(k.D, lambda d: v(d + 1) * (p(Idx(I).p(d)) - p(Idx(I).p(d, -1))) / (2 * h(d))))


# ------------------------------------------------------------ symmetry correction of the orientation rhs
@kernel('correctrhsquatforsymmetry', 'C11')
def _(k):
    k.box()
    h, n = grid(k), k.symmetry()
    N, S, F_ = k.dirs('nonsymm_diff_{x}'), k.dirs('symm_diff_{x}'), k.dirs('facecoeff{x}')
    iq, q, mob, rhs = k.dirs('iqrot_{x}', 'I'), k.arr('quat'), k.arr('mobility'), k.arr('rhs')

    def tmp(I, m):
        I = Idx(I)
        return SumR(k.D, lambda d: (F_[d](I.p(d)) * (N[d](I.p(d), m) - back(n, iq, d, I, m, S)) -
                                    F_[d](I) * (N[d](I, m) - S[d](I, m))) / h(d)**2)

    def f(*I):
        J, m = I[:-1], I[-1]
        t = tmp(J, m)
        lam = Sum(1, n, lambda l: q(J, l) * tmp(J, l)) / Sum(1, n, lambda l: q(J, l)**2)
        return rhs(I) + mob(J) * ite(gt(n, 1), t - lam * q(I), tmp(J, const(1)))
    k.out('rhs', k.cells() + [(1, n)], f)


# ------------------------------------------------------------ rotation indices
@kernel('quat_symm_rotation', 'C05')
def _(k):
    k.box()
    k.ghost('ngq ngrot', 1)
    n, q = k.symmetry(False), k.arr('q')
    for d in k.D:
        reg = [(lo - (x != d), hi + 1) for x, (lo, hi) in enumerate(k.bx)]
        r = k.iarr('rot_{x}', d)
        k.out('rot_{x}', reg, lambda *I, d=d, r=r: qfind(n, r(I), lambda l: q(I, l), lambda l: q(Idx(I).p(d, -1), l)), d)


@kernel('quat_fundamental', 'C05')
def _(k):
    k.box()
    k.abox('q')
    n, q = k.symmetry(False), k.arr('quat')
    ref = lambda l: ite(gt(n, 1), eq(l, 1), 0)
    k.out('quat', k.cells() + [(1, n)], lambda *I: qrot(n, qfind(n, const(1), ref, lambda l: q(I[:-1], l)), I[-1], lambda l: q(I[:-1], l)))


# ------------------------------------------------------------ multi-order-parameter rhs
@kernel('computerhsmultiorder', 'C06')
def _(k):
    k.box()
    n, h = k.count('norder'), grid(k)
    g, m, p = k.s('dgamma'), k.s('m'), k.arr('phi')
    FL = [k.arr('flux%d' % d) for d in k.D]
    s2 = lambda I: Sum(1, n, lambda a: p(I, a)**2)
    k.out('phi2sum', k.cells(), lambda *I: s2(I))

    def f(*I):
        J, a = I[:-1], I[-1]
        x = p(I)
        return SumR(k.D, lambda d: (FL[d](Idx(I).p(d)) - FL[d](I)) / h(d)) - m * (x**3 - x + 2 * g * x * (s2(J) - x**2))
    k.out('rhs', k.cells() + [(1, n)], f)


@kernel('projectphi{n}d', 'C06')
def _(k):
    k.box()
    n, p, e = k.count('depth'), k.arr('phi'), k.arr('err')
    k.out('corr', k.cells() + [(1, n)], lambda *I: -(Sum(1, n, lambda l: p(I[:-1], l)) - 1) / n)
    k.out('err', k.cells() + [(1, n)], lambda *I: e(I) - Sum(1, n, lambda l: e(I[:-1], l)) / n)


@kernel('phasesetexactandrhs{n}d', 'C09')
def _(k):
    k.box()
    k.pos('delta')
    dl, m, w, g = k.s('delta'), k.s('m'), k.s('omega'), k.s('gamma')

    def ex(I):
        return R(1, 2) * (1 + app('tanh', center(k, 0, I[0]) / (2 * dl)))
    k.out('exact', k.cells(), lambda *I: ex(I))

    def rhs(*I):
        u = ex(I)
        lap_ = u * (1 - u) * (1 - 2 * u) / dl**2         # second derivative of the profile
        eps2 = 32 * w * dl**2
        return u - g * m * (eps2 * lap_ - w * 32 * (1 + 6 * u * (u - 1)) * u)
    k.out('rhs', k.cells(), rhs)


# ------------------------------------------------------------ derivative of the orientation face coefficient
@kernel('quatdiffusionderiv', 'C15', cfgs=[{'avg_type': a} for a in 'ah'])
def _(k):
    k.box()
    k.ghost('ngvar tghosts', 1)
    k.pos('gradient_floor')
    n = k.count('depth')
    ft, it = k.st('smooth_floor_type|floor_type'), k.st('interp_type|diff_type')
    at = k.st('avg_type')
    v, T, mf, fl = k.arr('var'), k.arr('temperature'), k.s('misorientation_factor'), k.s('gradient_floor')
    k.dom('var', 0.1, 1.1)
    thr = R(1, 10**16)
    for s in k.D:
        G = k.arr('gradq%d' % s)

        def f(*I, s=s, G=G):
            J, side = Idx(I[:-1]), I[-1]
            L = J.p(s, -1)
            a, b = v(L), v(J)
            phi = avg(a, b, at)
            g2 = Sum(1, n, lambda m: SumR(k.D, lambda d: G(J, m, d + 1)**2))
            fac = F('eval_grad_normi', g2, ft, fl**2, 1 / fl) * mf * R(1, 2) * (T(L) + T(J)) * dinterp(phi, it)
            return ite(lor(lt(a, thr), lt(b, thr)), 0, fac * F('deriv_average_func', phi, ite(eq(side, 1), a, b), at))
        k.out('diff%d' % s, k.sides(s) + [(1, 2)], f)


# ------------------------------------------------------------ orientation face coefficient of the implicit operator
@kernel('compute_face_coef{n}d', 'C15')
def _(k):
    k.box()
    k.ghost('ngp ngt', 1)
    k.pos('gradient_floor')
    n = k.count('depth')
    ft, i1, i2, at = k.st('floor_type'), k.st('interp_type1'), k.st('interp_type2'), k.st('avg_type')
    v, T, mf, fl, eps = k.arr('phi'), k.arr('temp'), k.s('misorientation_factor'), k.s('gradient_floor'), k.s('eps_q')
    k.dom('phi', 0.1, 1.1)
    for d, x in zip(k.D, 'xyz'):
        G = k.arr('gq' + x)

        def f(*I, d=d, G=G):
            J = Idx(I)
            L = J.p(d, -1)
            phi = avg(v(L), v(J), at)
            g2 = Sum(1, n, lambda m: SumR(k.D, lambda e: G(J, m, e + 1)**2))
            return (-F('eval_grad_normi', g2, ft, fl**2, 1 / fl) * mf * R(1, 2) * (T(L) + T(J)) * interp(phi, i1)
                    - eps**2 * interp(phi, i2))
        k.out('fc' + x, k.sides(d), f)
