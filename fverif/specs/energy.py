"""Energy densities and their totals (C18)."""
from contract import *
from vc import trans
from specs.misc import grid, clamp
from specs.quat import mult


def cubic(q, v):
    """sum of fourth powers of the vector part of q v conj(q)"""
    t = mult(lambda m: v[m - 1], lambda m: q[0] if m == 1 else -q[m - 1])
    r = mult(lambda m: q[m - 1], lambda m: t[m - 1])
    return r[1]**4 + r[2]**4 + r[3]**4


class CubicN4(QSymmRotate):
    """contract of compute_n4( quat, n, n4 ) as used by callers"""
    writes = {2}
    keeps_positive = ()

    def extent(self, E, i, s, pt, ctx):
        return const(4) if i < 2 else ONE

    def pre(self, E, s, pt, ctx):
        return []

    def value(self, E, i, k, s, pt, ctx):
        v = []
        for j in (0, 1):
            p, u = self.vec(E, s.a[1][j], s, pt, ctx, const(4))
            for m in (1, 2, 3, 4):
                v.append(subst(p, {sym.atom_of(u).id: const(m)}))
        return app('cubic', *v)


@kernel('compute_n4', 'C18', dims=(3,))
def _(k):
    q, v = k.arr('quat'), k.arr('n')
    k.scalar('n4', cubic([q(m) for m in (1, 2, 3, 4)], [v(m) for m in (1, 2, 3, 4)]))


def addtotal(k, name, e, g=ONE):
    """total := old total + sum over the patch of weight times density e(I)"""
    w, t = k.arr('weight'), k.s(name)
    k.scalar(name, t + g * SumBox(k.cells(), lambda I: w(I) * e(I)))


def grad_e(k, n):
    """half squared interface coefficient times the discrete gradient energy
    phi.(-lap phi), summed over the phases"""
    h = grid(k)
    phi, eps = k.arr('phi'), k.s('epsilon_phi')
    return lambda I: Sum(1, n, lambda p: R(1, 2) * eps**2 * phi(I, p) * SumR(
        k.D, lambda d: (2 * phi(I, p) - phi(I.p(d), p) - phi(I.p(d, -1), p)) / h(d)**2))


def centred(k, phi, h):
    return lambda I, d, *m: (phi(I.p(d), *m) - phi(I.p(d, -1), *m)) / (2 * h(d))


def aniso_e(k, n, depth):
    """half squared orientation-dependent coefficient times |grad phi|^2"""
    h = grid(k)
    k.opaquesub['compute_n4'] = CubicN4()
    k.funcs['cubic'] = lambda lib, *a: cubic(a[:4], a[4:])
    k.samplers['knumber'] = lambda rng, env: rng.choice([4, 6])
    phi, q = k.arr('phi'), k.arr('quat')
    eps = k.s('epsilon_phi|epsilon')
    g = centred(k, phi, h)

    def e(I, p):
        G = [g(I, d, p) for d in k.D]
        g2 = SumR(k.D, lambda d: G[d]**2)
        if k.dim == 2:
            theta = ite(gt(absx(G[0]), R(1, 10**12)), trans('atan', G[1] / G[0]), R(1, 2) * 4 * trans('atan', ONE))
            c = minn(1, maxx(-1, q(I, 1)))
            ref = ite(eq(depth, 4), 2 * trans('acos', c), trans('acos', c))
            a = eps * (1 + k.s('anisotropy') * trans('cos', k.i('knumber') * (theta - ref)))
        else:
            # cubic anisotropy of the normal seen in the crystal frame
            u = k.s('anisotropy|eps4')
            s = power(g2, R(1, 2))
            n4 = ite(gt(absx(g2), R(1, 10**12)), app('cubic', *[q(I, m) for m in (1, 2, 3, 4)],
                                                     ZERO, *[G[d] / s for d in k.D]), ZERO)
            a = eps * (1 - 3 * u) * (1 + 4 * u / (1 - 3 * u) * n4)
        return R(1, 2) * a**2 * g2
    return lambda I: Sum(1, n, lambda p: e(I, p))


def perc(k):
    return lnot(eq(k.flag("eval_per_cell"), 0))


def density(k, name, e):
    k.outif(name, k.cells(), lambda *I: perc(k), lambda *I: e(Idx(I)))


@kernel('phi_interface_energy', 'C18 C06')
def _(k):
    k.box()
    k.ghost('pghosts', 1)
    n = k.count('nphases')
    e = grad_e(k, n)
    w = k.arr('weight')
    k.scalar('phi_e', SumBox(k.cells(), lambda I: w(I) * e(I)))
    density(k, 'energy', e)


@kernel('interface_anisotropic_energy', 'C18')
def _(k):
    k.box()
    k.ghost('pghosts', 1)
    k.ghost('ngq', 0)
    n = k.count('nphases')
    depth = k.choice('qlen', [1, 2, 4] if k.dim == 2 else [4])
    k.dom('anisotropy,eps4', 0., 0.2)
    e = aniso_e(k, n, depth)
    w = k.arr('weight')
    k.scalar('phi_e', SumBox(k.cells(), lambda I: w(I) * e(I)))
    density(k, 'energy', e)


# orientation energy is defined for one phase only
ET = [{'floor_type': f, 'nphases': 1} for f in 'st'] + [{'floor_type': 's'}]


@kernel('quatenergy', 'C18 C06', cfgs=ET)
def _(k):
    k.box()
    k.ghost('pghosts', 1)
    an, mis = k.s('anisotropy'), k.s('misorientation_factor')
    k.sample('anisotropy', [0., 0.1])
    if 'nphases' in k.cfg:
        k.sample('misorientation_factor', [0., 0.1, 0.5])
        n = k.i('nphases')
    else:
        k.sample('misorientation_factor', [0., -0.1])
        k.requires(le(mis, 0))
        n = k.count('nphases')
    depth = k.choice('depth', [1, 2, 4] if k.dim == 2 else [4])
    e1, e2 = grad_e(k, n), aniso_e(k, n, depth)
    phi, T = k.arr('phi'), k.arr('temperature')
    q = [k.arr('gq{x}', d) for d in k.D]
    fl = k.s('gradient_floor')**2 if k.cfg['floor_type'] == 's' else ZERO
    t1, t2, at = k.st('orient_interp_type1'), k.st('orient_interp_type2'), k.st('avg_type')
    R2 = R(1, 2 * k.dim)

    def g2(I, d):
        return Sum(1, depth, lambda m: SumR(range(1, k.dim + 1), lambda x: q[d](I, m, x)**2))

    def faces(I):
        for d in k.D:
            yield d, I, phi(I.p(d, -1), 1), phi(I, 1)
            yield d, I.p(d), phi(I, 1), phi(I.p(d), 1)

    def orient(I):
        s = ZERO
        for d, f, a, b in faces(I):
            s = s + power(g2(f, d) + fl, R(1, 2)) * interp(avg(a, b, at), t1)
        return s * T(I) * mis * R2

    def qint(I):
        s = ZERO
        for d, f, a, b in faces(I):
            s = s + g2(f, d)
        return s * R(1, 2) * k.s('epsilon_q')**2 * R2 * interp(phi(I, 1), t2)

    def wells(I):
        return k.s('phi_well_scale') * Sum(1, n, lambda p: well(phi(I, p), k.st('phi_well_type')))

    has = gt(mis, 0)
    ei = lambda I: ite(gt(an, 0), e2(I), e1(I))
    addtotal(k, 'total_phi_e', ei)
    addtotal(k, 'total_orient_e', orient, has)
    addtotal(k, 'total_qint_e', qint, has)
    addtotal(k, 'total_well_e', wells)
    tot = lambda I: ei(I) + has * (orient(I) + qint(I)) + wells(I)
    addtotal(k, 'total_energy', tot)
    density(k, 'energy', tot)


@kernel('bulkenergy', 'C18')
def _(k):
    k.box()
    phi, fl, fa = k.arr('phi'), k.arr('fl'), k.arr('fa')

    def e(I):
        h = interp(phi(I), k.st('phi_interp_type'))
        return (1 - h) * fl(I) + h * fa(I)
    addtotal(k, 'total_free_e', e)
    addtotal(k, 'total_energy', e)
    k.outif('energy', k.cells(), lambda *I: perc(k), lambda *I: k.arr('energy')(I) + e(Idx(I)))


@kernel('temperature_energy', 'C18')
def _(k):
    k.box()
    k.pos('T_M|t_m')
    T = k.arr('temperature')
    tm, L = k.s('T_M|t_m'), k.s('L_A|l_a')
    k.out('fl|fs', k.cells(), lambda *I: L * (tm - T(I)) / tm)


@kernel('phiphi_interfacialenergy', 'C18')
def _(k):
    k.box()
    n = k.count('nphases')
    phi, w, t = k.arr('phi'), k.arr('weight'), k.arr('total_energy')
    f = R(1, 2) * k.s('gamma') * k.s('m')
    pair = lambda I, a, b: f * phi(I, a)**2 * phi(I, b)**2
    density(k, 'edensity', lambda I: Sum(1, n, lambda a: Sum(1, n, lambda b: pair(I, a, b))))
    # entry n (p1-1) + p2 belongs to the pair (p1,p2)
    k.out('total_energy', [(const(1), n * n)], lambda j: t(j) + SumBox(
        k.cells(), lambda I: w(I) * pair(I, 1 + idiv(j - 1, n), j - n * idiv(j - 1, n))))
