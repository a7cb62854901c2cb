"""Orientation gradients (C10)."""
from contract import *
from specs.grad import hgrid, cell_grad, side_grad


def rotd(n, iq, m, f):
    """orientation differences: scalar orientations (n=1) need no rotation"""
    return ite(eq(n, 1), f(const(1)), qrot(n, iq, m, f))


def back(n, iq, d, I, m, D):
    """diff at the far face I+d, expressed in the frame of cell I"""
    J = Idx(I).p(d)
    return rotd(n, qconj(n, iq[d](J)), m, lambda l: D[d](J, l))


@kernel('quatgrad_cell', 'C10')
def _(k):
    k.box()
    h, n, D = hgrid(k), k.count('depth'), k.dirs('diff_{x}')
    for d in k.D:
        k.out('grad_{x}', k.cells() + [(1, n)], lambda *I, d=d: cell_grad(D, h, d, I[:-1], I[-1]), d)


@kernel('quatgrad_cell_symm', 'C10')
def _(k):
    k.box()
    h, n, D = hgrid(k), k.symmetry(), k.dirs('diff_{x}')
    iq = k.dirs('iqrot_{x}', 'I')
    for d in k.D:
        k.out('grad_{x}', k.cells() + [(1, n)], lambda *I, d=d:
              (back(n, iq, d, I[:-1], I[-1], D) + D[d](I)) / (2 * h(d + 1)), d)


@kernel('quatgrad_side', 'C10')
def _(k):
    k.box()
    h, n, D = hgrid(k), k.count('depth'), k.dirs('diff_{x}')
    k.ghost('ngdiff', 1)
    for s in k.D:
        for d in k.D:
            k.out('grad_%s_%sside' % (XYZ[d], XYZ[s]), k.sides(s) + [(1, n)],
                  lambda *I, d=d, s=s: side_grad(D, h, s, d, I[:-1], I[-1]))


@kernel('quatgrad_side_isotropic', 'C10', dims=(2,))
def _(k):
    k.box()
    h, n, D = hgrid(k), k.count('depth'), k.dirs('diff_{x}')
    k.ghost('ngdiff', 1)
    for s in k.D:
        for d in k.D:
            k.out('grad_%s_%sside' % (XYZ[d], XYZ[s]), k.sides(s) + [(1, n)],
                  lambda *I, d=d, s=s: side_grad(D, h, s, d, I[:-1], I[-1], True))


def tangential(n, iq, D, h, s, d, I, m):
    """d-derivative at the face s of cell I: four differences, each rotated
    into the frame of cell I"""
    I = Idx(I)
    L = I.p(s, -1)
    left = lambda l: back(n, iq, d, L, l, D) + D[d](L, l)
    return (rotd(n, iq[s](I), m, left) + back(n, iq, d, I, m, D) + D[d](I, m)) / (4 * h(d + 1))


@kernel('quatgrad_side_symm', 'C10')
def _(k):
    k.box()
    h, n, D = hgrid(k), k.symmetry(), k.dirs('diff_{x}')
    iq = k.dirs('iqrot_{x}', 'I')
    k.ghost('ngdiff ngiq', 1)
    for s in k.D:
        for d in k.D:
            k.out('grad_%s_%sside' % (XYZ[d], XYZ[s]), k.sides(s) + [(1, n)], lambda *I, d=d, s=s:
                  D[d](I) / h(d + 1) if s == d else tangential(n, iq, D, h, s, d, I[:-1], I[-1]))


@kernel('quatgrad_side_symm_isotropic', 'C10', dims=(2,))
def _(k):
    k.box()
    h, n, D = hgrid(k), k.symmetry(), k.dirs('diff_{x}')
    iq = k.dirs('iqrot_{x}', 'I')
    k.ghost('ngdiff ngiq', 1)

    def normal(s, I, m):
        t, I = 1 - s, Idx(I)
        up = I.p(t)
        return (10 * D[s](I, m) + rotd(n, iq[t](I), m, lambda l: D[s](I.p(t, -1), l)) +
                rotd(n, qconj(n, iq[t](up)), m, lambda l: D[s](up, l))) / (12 * h(s + 1))
    for s in k.D:
        for d in k.D:
            k.out('grad_%s_%sside' % (XYZ[d], XYZ[s]), k.sides(s) + [(1, n)], lambda *I, d=d, s=s:
                  normal(s, I[:-1], I[-1]) if s == d else tangential(n, iq, D, h, s, d, I[:-1], I[-1]))


def sidesq(k, G, n, s, I):
    return Sum(1, n, lambda q: SumR(k.D, lambda d: G[s](I, q, d + 1)**2))


@kernel('quatgrad_modulus_from_sides', 'C10', dims=(2,))
def _(k):
    k.box()
    n, G = k.count('depth'), k.dirs('grad_{x}')
    k.out('grad_mod', k.cells(), lambda *I: R(1, 4) * SumR(k.D, lambda s: sqrt(sidesq(k, G, n, s, I)) +
                                                            sqrt(sidesq(k, G, n, s, Idx(I).p(s)))))


@kernel('quatgrad_modulus_from_sides_harmonic', 'C10', dims=(2,), cfgs=[{'floor_type': 's'}, {'floor_type': 'm'}])
def _(k):
    k.box()
    k.abox('g')
    k.abox('m')
    k.pos('grad_floor')
    n, G = k.count('depth'), k.dirs('grad_{x}')
    b = k.s('grad_floor')**2 if k.cfg['floor_type'] == 's' else ZERO
    inv = lambda s, I: 1 / sqrt(sidesq(k, G, n, s, I) + b)
    k.out('grad_mod', k.cells(), lambda *I: 4 / SumR(k.D, lambda s: inv(s, I) + inv(s, Idx(I).p(s))))


@kernel('quatgrad_modulus_from_sides_compact', 'C10')
def _(k):
    k.box()
    n, G = k.count('depth'), k.dirs('grad_{x}')
    sq = lambda s, I: Sum(1, n, lambda q: G[s](I, q, s + 1)**2)
    k.out('grad_mod', k.cells(), lambda *I: sqrt(R(1, 2) * SumR(k.D, lambda s: sq(s, I) + sq(s, Idx(I).p(s)))))


@kernel('quatgrad_modulus', 'C10')
def _(k):
    k.box()
    n, G = k.count('depth'), k.dirs('grad_{x}')
    k.out('grad_mod', k.cells(), lambda *I: sqrt(Sum(1, n, lambda q: SumR(k.D, lambda d: G[d](I, q)**2))))
