"""Differences, gradients, Laplacian, side-to-cell averaging (C10)."""
from contract import *


@kernel('laplacian', 'C10')
def _(k):
    k.box()
    f, dx, c = k.arr('field'), k.arr('dx'), k.s('coeff')
    k.ghost('ngfield', 1)
    k.dom('dx', 0.5, 2.)
    k.out('rhs', k.cells(), lambda *I: lap(f, dx, Idx(I), k.D).__mul__(c))


def lap(f, dx, I, D):
    return SumR(D, lambda d: (f(I.p(d)) - 2 * f(I) + f(I.p(d, -1))) / dx(d)**2)


def hgrid(k, n='h'):
    k.dom(n, 0.5, 2.)
    h = k.arr(n)
    # h is declared h(NDIM) or dx(0:NDIM-1)
    return h


@kernel('diffs', 'C10')
def _(k):
    k.box()
    k.ghost('ng ngd', 1)
    v = k.arr('v')
    for d in k.D:
        reg = [(lo - (x != d), hi + 1) for x, (lo, hi) in enumerate(k.bx)]
        k.out('diff_{x}', reg, lambda *I, d=d: v(I) - v(Idx(I).p(d, -1)), d)


@kernel('quatdiffs', 'C10')
def _(k):
    k.box()
    k.ghost('ngq ngdiff', 1)
    n = k.count('depth')
    q = k.arr('q')
    for d in k.D:
        reg = [(lo - (x != d), hi + 1) for x, (lo, hi) in enumerate(k.bx)] + [(1, n)]
        k.out('diff_{x}', reg, lambda *I, d=d: q(I[:-1], I[-1]) - q(Idx(I).p(d, -1)), d)


@kernel('quatdiffs_symm', 'C10')
def _(k):
    k.box()
    k.ghost('ngq ngdiff ngiq', 1)
    n = k.symmetry()
    q = k.arr('q')
    for d in k.D:
        iq = k.iarr('iqrot_{x}', d)
        reg = [(lo - (x != d), hi + 1) for x, (lo, hi) in enumerate(k.bx)] + [(1, n)]

        def f(*I, d=d, iq=iq):
            J, m = Idx(I[:-1]), I[-1]
            return q(J, m) - qrot(n, iq(J), m, lambda l: q(J.p(d, -1), l))
        k.out('diff_{x}', reg, f, d)


@kernel('quatdiffs_symm_new', 'C10')
def _(k):
    k.box()
    k.ghost('ngq ngdiff ngiq', 1)
    n = k.symmetry()
    q = k.arr('q')
    for d in k.D:
        iq = k.iarr('iqrot_{x}', d)
        reg = [(lo - (x != d), hi + 1) for x, (lo, hi) in enumerate(k.bx)] + [(1, n)]

        def f(*I, d=d, iq=iq):
            J, m = Idx(I[:-1]), I[-1]
            L = J.p(d, -1)
            r = iq(J)
            back = lambda l: qrot(n, qconj(n, r), l, lambda l2: q(J, l2)) - q(L, l)
            return R(1, 2) * (q(J, m) - qrot(n, r, m, lambda l: q(L, l)) + qrot(n, r, m, back))
        k.out('diff_{x}', reg, f, d)


@kernel('quatavg', 'C10')
def _(k):
    k.box()
    n = k.count('depth')
    k.abox('q', 1, 1)
    k.abox('a')
    q = k.arr('q')

    def f(*I):
        J, m = Idx(I[:-1]), I[-1]
        return R(1, 2) * q(J, m) + R(1, 8) * SumR(k.D, lambda d: q(J.p(d), m) + q(J.p(d, -1), m))
    k.out('avg', k.cells() + [(1, n)], f)


@kernel('side2cell', 'C10')
def _(k):
    k.box()
    s = [k.arr('sdata%d' % d) for d in k.D]
    k.out('cdata', k.cells(), lambda *I: R(1, 2 * k.dim) * SumR(k.D, lambda d: s[d](I) + s[d](Idx(I).p(d))))


@kernel('settozero', 'C20')
def _(k):
    k.box()
    pf = 'i' if k.has('ilo0') else 'fi'
    k.abox(pf)
    k.out('array|arrayf', k.cells(), lambda *I: ZERO)


def cell_grad(D, h, d, I, m):
    return (D[d](Idx(I).p(d), m) + D[d](I, m)) / (2 * h(d + 1))


def side_grad(D, h, s, d, I, m, iso=False, dim=2):
    """component d of the gradient at the face normal to s of cell I"""
    I = Idx(I)
    if s == d:
        if iso:
            o = [x for x in range(dim) if x != d]
            if dim == 2:
                w = D[d](I.p(o[0], -1), m) + 10 * D[d](I, m) + D[d](I.p(o[0], 1), m)
                return w / (12 * h(d + 1))
        return D[d](I, m) / h(d + 1)
    L = I.p(s, -1)
    return (D[d](L.p(d), m) + D[d](L, m) + D[d](I.p(d), m) + D[d](I, m)) / (4 * h(d + 1))


@kernel('grad_cell', 'C10')
def _(k):
    k.box()
    h = hgrid(k)
    D = k.dirs('diff_{x}')
    for d in k.D:
        k.out('grad_{x}', k.cells(), lambda *I, d=d: cell_grad(D, h, d, I, ()), d)


@kernel('grad_side', 'C10')
def _(k):
    k.box()
    h = hgrid(k)
    k.ghost('ngdiff', 1)
    D = k.dirs('diff_{x}')
    for s in k.D:
        for d in k.D:
            k.out('grad_%s_%sside' % (XYZ[d], XYZ[s]), k.sides(s), lambda *I, d=d, s=s: side_grad(D, h, s, d, I, ()))


@kernel('grad_side_isotropic', 'C10')
def _(k):
    k.box()
    h = hgrid(k)
    k.abox('d', 1, 1)
    k.abox('g', 0, 0)
    D = k.dirs('diff_{x}')
    for s in k.D:
        for d in k.D:
            k.out('grad_%s_%sside' % (XYZ[d], XYZ[s]), k.sides(s), lambda *I, d=d, s=s: side_grad(D, h, s, d, I, (), True))


@kernel('velocity', 'C10')
def _(k):
    k.box()
    k.pos('threshold')
    t, pd = k.s('threshold'), k.arr('phi_dot')
    G = k.dirs('grad_{x}')
    k.out('vel', k.cells(), lambda *I: pd(I) / sqrt(SumR(k.D, lambda d: G[d](I)**2) + t**2))
