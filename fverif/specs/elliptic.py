"""Scalar elliptic operator: face fluxes, residual, operator, reaction term, matrix."""
from contract import *
from specs.misc import *


def gh(k, p, need=0):
    k.ghost(' '.join(p + 'g' + 'ijk'[d] for d in k.D), need)


def spacing(k):
    h = k.arr('dx')
    k.doms['dx'] = (0.3, 1.5)
    k.arrfacts['dx'] = lambda idx, v: [gt0(v)]
    return lambda d: h(d)


@kernel('efo_compfluxvardc{n}d', 'C09')
def _(k):
    k.box()
    h = spacing(k)
    gh(k, 'flux')
    gh(k, 'dc')
    gh(k, 'soln', 1)
    u = k.arr('soln')
    for d, x in zip(k.D, 'xyz'):
        k.out(x + 'flux', k.sides(d), lambda *I, d=d, c=k.arr(x + 'dc'): c(I) * (u(I) - u(Idx(I).p(d, -1))) / h(d))


def operator(k):
    """m div(flux) + scalar * solution at a cell"""
    k.box()
    h = spacing(k)
    for p in ('flux', 'm', 'soln'):
        gh(k, p)
    m, u, fl = k.arr('m'), k.arr('soln'), [k.arr('xyz'[d] + 'flux') for d in k.D]
    if 'sfgi' in k.args:
        gh(k, 'sf')
        sf = k.arr('scalar_field')
    else:
        c = k.s('scalar_field')
        sf = lambda I: c
    return lambda I: m(I) * SumR(k.D, lambda d: (fl[d](Idx(I).p(d)) - fl[d](I)) / h(d)) + sf(I) * u(I)


def residual(k):
    op = operator(k)
    gh(k, 'rhs')
    r = k.arr('rhs')
    for d in k.D:                       # declared with the ghost widths of rhs
        g = 'residualg' + 'ijk'[d]
        k.samplers[g] = lambda rng, env, d=d: env['rhsg' + 'ijk'[d]]
        k.requires(eq(var(g, 'I'), var('rhsg' + 'ijk'[d], 'I')))
    k.out('residual', k.cells(), lambda *I: r(I) - op(I))


def accum(k):
    op = operator(k)
    gh(k, 'accum')
    a = k.arr('accum')
    k.out('accum', k.cells(), lambda *I: a(I) - op(I))


for _x in ('varsca', 'consca'):
    kernel('efo_compres%s{n}d' % _x, 'C09')(residual)
    kernel('accumop%s{n}d' % _x, 'C09')(accum)


@kernel('setc{n}d', 'C09')
def _(k):
    k.box()
    gh(k, 'soln')
    u, m, f, t = k.arr('soln'), k.arr('mobility'), k.s('factor'), k.st('well_type')
    k.out('cval', k.cells(), lambda *I: 1 + f * m(I) * app('second_deriv_well_func', u(I), t))


@kernel('multiplyoffdiagbym', 'C09')
def _(k):
    k.box()
    k.ghost('ngoffdiag')
    k.ghost('ngsqrtm', 1)
    s = k.arr('sqrtm')
    for d in k.D:
        o = k.arr('offdiag' + 'xyz'[d])
        k.out('offdiag' + 'xyz'[d], k.sides(d), lambda *I, d=d, o=o: o(I) * s(I) * s(Idx(I).p(d, -1)))
