"""Orientation operator of the implicit solver: face coefficients, fluxes,
residual, right-hand side and its projection on the tangent space."""
from contract import *
from specs.misc import *


def hs(k):
    """mesh spacings of the array h"""
    h = k.arr('h')
    k.doms['h'] = (0.3, 1.5)
    k.arrfacts['h'] = lambda idx, v: [gt0(v)]
    return lambda d: h(d + 1)


def faces(k, p):
    for d in k.D:
        k.abox(p + 'xyz'[d], side=d)
    return [k.arr(p + 'xyz'[d]) for d in k.D]


@kernel('compute_dquatdphi_face_coef{n}d', 'C11')
def _(k):
    k.box()
    F_ = faces(k, 'fc')
    for d in k.D:
        k.abox('dp' + 'xyz'[d], side=d)
    k.abox('p', 1, 1)
    p = k.arr('phi')
    for d in k.D:
        P = k.arr('dprime' + 'xyz'[d])
        k.out('fc' + 'xyz'[d], k.sides(d), lambda *I, d=d, P=P: -P(I, 1) * p(Idx(I).p(d, -1)) - P(I, 2) * p(I))


@kernel('compute_flux{n}d', 'C11')
def _(k):
    k.box()
    h, n = hs(k), k.count('depth')
    C, _ = faces(k, 'fc'), faces(k, 'f')
    k.abox('q', 1, 1)
    q = k.arr('q')
    for d in k.D:
        k.out('f' + 'xyz'[d], k.sides(d) + [(1, n)],
              lambda *I, d=d: C[d](I[:-1]) * (q(I) - q(Idx(I[:-1]).p(d, -1), I[-1])) / h(d))


@kernel('compute_flux{n}d_from_gradq', 'C11')
def _(k):
    k.box()
    n = k.count('depth')
    C, _ = faces(k, 'fc'), faces(k, 'f')
    for d, x in zip(k.D, 'xyz'):
        k.out('f' + x, k.sides(d) + [(1, n)], lambda *I, d=d, G=k.arr('grad_%s_%sside' % (x, x)): C[d](I[:-1]) * G(I))


@kernel('compute_sym_flux{n}d', 'C11')
def _(k):
    k.box()
    h, n = hs(k), k.count('depth')
    C, _ = faces(k, 'fc'), faces(k, 'f')
    k.abox('q', 1, 1)
    k.abox('m', 1, 1)
    q, s = k.arr('q'), k.arr('sqrt_m')
    for d in k.D:
        k.out('f' + 'xyz'[d], k.sides(d) + [(1, n)], lambda *I, d=d: C[d](I[:-1]) * (
            s(I[:-1]) * q(I) - s(Idx(I[:-1]).p(d, -1)) * q(Idx(I[:-1]).p(d, -1), I[-1])) / h(d))


def divergence(k, symm=False):
    """of the fluxes; with symmetry the flux of the upper face is rotated back"""
    h = hs(k)
    n = k.symmetry() if symm else k.count('depth')
    fl = faces(k, 'f')
    if not symm:
        return n, lambda J, m: SumR(k.D, lambda d: (fl[d](Idx(J).p(d), m) - fl[d](J, m)) / h(d))
    k.ghost('ngiq', 0)
    iq = [k.iarr('iqrot_' + 'xyz'[d]) for d in k.D]

    def div(J, m):
        J = Idx(J)
        return SumR(k.D, lambda d: (qrot(n, qconj(n, iq[d](J.p(d))), m, lambda l: fl[d](J.p(d), l)) - fl[d](J, m)) / h(d))
    return n, div


def residual(k, symm):
    k.box()
    n, div = divergence(k, symm)
    for a in ('m', 'q', 'rh', 'r'):
        k.abox(a)
    s, q, r, g = k.arr('sqrt_m'), k.arr('q'), k.arr('rhs'), k.s('gamma')
    k.out('residual', k.cells() + [(1, n)], lambda *I: r(I) - q(I) - g * s(I[:-1]) * div(I[:-1], I[-1]))


kernel('compute_q_residual{n}d', 'C11')(lambda k: residual(k, False))
kernel('compute_q_residual2d_symm', 'C11', dims=(2,))(lambda k: residual(k, True))


@kernel('add_quat_op{n}d', 'C11')
def _(k):
    k.box()
    n, div = divergence(k)
    k.abox('m')
    k.abox('rh')
    m, r = k.arr('mobility'), k.arr('rhs')
    k.out('rhs', k.cells() + [(1, n)], lambda *I: r(I) - m(I[:-1]) * div(I[:-1], I[-1]))


def proj_op(k, symm):
    k.box()
    n, div = divergence(k, symm)
    for a in ('m', 'q', 'l', 'rh'):
        k.abox(a)
    m, q, la, r = k.arr('mobility'), k.arr('q'), k.arr('lambda'), k.arr('rhs')
    k.out('rhs', k.cells() + [(1, n)], lambda *I: r(I) - m(I[:-1]) * (div(I[:-1], I[-1]) + 2 * q(I) * la(I[:-1])))


kernel('add_quat_proj_op{n}d', 'C11')(lambda k: proj_op(k, False))
kernel('add_quat_proj_op{n}d_symm', 'C11')(lambda k: proj_op(k, True))


def multiplier(k, symm):
    """the multiplier that removes the component along q: 2 lambda |q|^2 = -q.div"""
    k.box()
    n, div = divergence(k, symm)
    k.abox('q')
    k.abox('l')
    q = k.arr('q')
    k.out('lambda', k.cells(), lambda *I: -Sum(1, n, lambda l: q(I, l) * div(I, l)) / (2 * Sum(1, n, lambda l: q(I, l)**2)))


kernel('compute_lambda_flux{n}d', 'C11')(lambda k: multiplier(k, False))
kernel('compute_lambda_flux{n}d_symm', 'C11')(lambda k: multiplier(k, True))


@kernel('project{n}d', 'C11')
def _(k):
    k.box()
    n = k.count('depth')
    for a in 'qce':
        k.abox(a)
    q, e = k.arr('q'), k.arr('err')
    nrm = lambda J: sqrt(Sum(1, n, lambda l: q(J, l)**2))
    k.out('corr', k.cells() + [(1, n)], lambda *I: q(I) / nrm(I[:-1]) - q(I))
    k.out('err', k.cells() + [(1, n)], lambda *I: e(I) - q(I) / nrm(I[:-1]) * Sum(1, n, lambda l: q(I[:-1], l) / nrm(I[:-1]) * e(I[:-1], l)))


@kernel('take_square_root{n}d', 'C11')
def _(k):
    k.box()
    k.abox('v')
    v = k.arr('var')
    k.dom('var', 0.1, 2.)
    k.out('var', k.cells(), lambda *I: sqrt(v(I)))


def scaled(k, op):
    k.box()
    k.abox('f')
    k.abox('v')
    n, f, v = k.count('vnc'), k.arr('factor'), k.arr('var')
    k.dom('factor', 0.3, 2.)
    k.out('var', k.cells() + [(1, n)], lambda *I: op(v(I), f(I[:-1])))


kernel('multicomponent_multiply{n}d', 'C11')(lambda k: scaled(k, lambda a, b: a * b))
kernel('multicomponent_divide{n}d', 'C11')(lambda k: scaled(k, lambda a, b: a / b))


@lemma('C11', 'the projected flow is tangent to the unit sphere')
def _(env):
    """over the contracts of compute_lambda_flux, add_quat_proj_op and project"""
    for n in (1, 2, 4):
        r = range(n)
        q, t, e = ([var('%s%d' % (x, i), 'R') for i in r] for x in 'qte')
        dot = lambda a, b: SumR(r, lambda i: a[i] * b[i])
        pos = [gt0(dot(q, q))]
        la = -dot(q, t) / (2 * dot(q, q))
        env.eq('no component along q, length %d' % n, dot(q, [t[i] + 2 * q[i] * la for i in r]), ZERO, pos)
        s = var('s', 'R')
        unit = [q[i] / s for i in r]
        w = dot(unit, e)
        # s is the norm, s^2 = q.q
        out = [e[i] - unit[i] * w for i in r]
        env.eq('projected error is tangent, length %d' % n, dot(q, out) * s**2, dot(q, e) * (s**2 - dot(q, q)), [gt0(s)])
        env.eq('projection is unit, length %d' % n, dot(unit, unit) * s**2, dot(q, q), [gt0(s)])
        env.eq('a tangent error is unchanged, length %d' % n, w * s, dot(q, e), [gt0(s)])
    return env.done()
