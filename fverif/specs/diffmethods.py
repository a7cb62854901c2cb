"""Methods that fill composition diffusion coefficients: for every side the
diffusivity of each phase weighted by its interpolated fraction, plus the
diffusivity of every kind of interface that is switched on (d0 > 0)."""
from contract import *
from vc import trans
from specs.methods import *
from specs.conc import FAC, TH, avg, Idx, grown, interp

CHAR = {0: 'l', 1: 'p'}        # DiffusionInterpolationType; BIASED gives a character interp_func stops on
NAMES = {'l': 'liquid', 'a': 'solida', 'b': 'solidb'}
KINDS = ('la', 'aa', 'lb', 'ab', 'bb')
RGAS = R(8314472, 1000000)


class Fractions:
    """which components of the phase data belong to which phase"""

    def __init__(self, k, phi, three, withb):
        self.k, self.three, self.withb = k, three, withb
        self.phi = k.arr('p_' + phi)
        self.only = k.cfg.get('only')
        if self.only is not None:
            for n in KINDS:
                if n != self.only:
                    k.requires(le(k.s('this_d_d0_' + n), 0))
                    k.samplers['this_d_d0_' + n] = lambda rng, env: rng.choice([0., -0.5])
        A, B, n, nd = [k.i(x) for x in ('this_d_norderpa', 'this_d_norderpb', 'this_d_norderp', 'nd_' + phi)]
        if three:
            exactly(k, 'this_d_norderpa', 1)
            exactly(k, 'this_d_norderpb', 1)
            exactly(k, 'this_d_norderp', 3 if withb else 2)
            self.first = {'l': P(0), 'a': P(1), 'b': P(2)}
        else:
            k.count('this_d_norderpa'), k.count('this_d_norderpb')
            exactly(k, 'this_d_norderp', A + B + 1 if withb else A + 1)
            self.first = {'l': n - 1, 'a': P(0), 'b': A}
        exactly(k, 'nd_' + phi, n)
        self.n = {'l': P(1), 'a': A, 'b': B}

    def at(self, x, I, q):
        return self.phi(*(tuple(I) + (self.first[x] + q - 1,)))

    def side(self, x, I, d, t):
        return Sum(1, self.n[x], lambda q: avg(self.at(x, I.p(d, -1), q), self.at(x, I, q), t))

    def pairs(self, I, x, y):
        def t(z, m):
            v = self.at(z, I, m)
            return ite(gt(v, TH), (v - TH)**2, 0)
        return Sum(1, self.n[x], lambda i: t(x, i) * Sum(i + 1 if x == y else 1, self.n[y], lambda j: t(y, j)))


def inside(J, reg):
    return land(*[ge(j, lo) * le(j, hi) for j, (lo, hi) in zip(J, reg)])


def kinds(fr):
    """the interfaces a d0 exists for: (phase the first index, phase the second, name)"""
    r = [(x, y, n) for x, y, n in (('a', 'l', 'la'), ('a', 'a', 'aa'), ('b', 'l', 'lb'), ('b', 'a', 'ab'), ('b', 'b', 'bb'))
         if fr.withb or 'b' not in n]
    if fr.only is not None:
        r = [e for e in r if e[2] == fr.only]
    return r


def splits(k, fr, f):
    k.splitfor[f] = [gt(k.s('this_d_d0_' + n), 0) for x, y, n in kinds(fr)]


def scalar_d0(k, fr, J, d):
    lo, hi = k.bx[d]
    wu, wl = ge(hi + 1, J[d]), ge(J[d], lo)

    def one(x, y, n):
        D = k.s('this_d_d0_' + n)
        dab = lambda I: R(1, 2) * FAC * D * fr.pairs(I, x, y)
        return ite(gt(D, 0), wu * dab(J) + wl * dab(J.p(d, -1)), 0)
    return SumR(kinds(fr), lambda e: one(*e))


def wide(k, d):
    return [(b[0] - 1, b[1] + (2 if x == d else 1)) for x, b in enumerate(k.bx)]


# with a third phase, all five kinds of interfaces at once need more memory for
# the proof than there is: then one kind at a time is switched on
PH = [{'this_d_with_phaseb': 0, 'this_d_with3phases': t} for t in (0, 1)] + \
     [{'this_d_with_phaseb': 1, 'this_d_with3phases': t, 'only': n} for t, n in ((0, 'lb'), (0, 'ab'), (1, 'la'), (0, 'bb'), (1, 'aa'))]


@method('ScalarCompositionDiffusionStrategy', 'setDiffusionInterfaces', 'C08', PH)
def _(k):
    k.box()
    fr = Fractions(k, 'phi', k.fixed['this_d_with3phases'], k.fixed['this_d_with_phaseb'])
    k.ghost('ng_phi ng_pfm_diffusion', 1)
    k.count('nd_pfm_diffusion')
    for d in k.D:
        f = 'p_pfm_diffusion_%d' % d
        old = k.arr(f)
        k.out(f, wide(k, d) + [(ZERO, ZERO)], lambda *J, d=d, old=old: old(*J) + scalar_d0(k, fr, Idx(J[:-1]), d))
        splits(k, fr, f)


def tbased_d0(k, fr, x, I, d, T):
    """contribution of the interfaces of phase x"""
    def one(a, b, n):
        D = k.s('this_d_d0_' + n)
        dab = lambda J: R(1, 2) * FAC * D * trans('exp', -k.s('this_d_q0_' + n) / RGAS / T(*J)) * fr.pairs(J, a, b)
        return ite(gt(D, 0), dab(I) + dab(I.p(d, -1)), 0)
    return SumR([e for e in kinds(fr) if x in e[:2]], lambda e: one(*e))


@method('TbasedCompositionDiffusionStrategy', 'setDiffusionInterfaces', 'C08', PH)
def _(k):
    k.box()
    fr = Fractions(k, 'phi', k.fixed['this_d_with3phases'], k.fixed['this_d_with_phaseb'])
    k.ghost('ng_phi ng_temperature', 1)
    k.int('ng_pfm_diffusionl', [0, 1], lo=0, hi=1)
    T = k.arr('p_temperature')
    T0 = lambda *J: T(*(tuple(J) + (ZERO,)))
    k.dom('p_temperature', 0.5, 2.)
    k.count('nd_temperature')
    for x in 'lab' if fr.withb else 'la':
        k.count('nd_pfm_diffusion' + x)
        if x != 'l':
            same(k, 'ng_pfm_diffusion' + x, 'ng_pfm_diffusionl')
        for d in k.D:
            f = 'p_pfm_diffusion%s_%d' % (x, d)
            old = k.arr(f)
            k.out(f, grown(k, d, k.i('ng_pfm_diffusionl')) + [(ZERO, ZERO)],
                  lambda *J, d=d, old=old, x=x: old(*J) + tbased_d0(k, fr, x, Idx(J[:-1]), d, T0))
            splits(k, fr, f)


def filled_diffusion(k, f, d, nd, val):
    """component 0 of the array f, repeated in component 3 of a ternary's"""
    old = k.arr(f)
    ng = k.i('ng_' + f[2:-2])

    def v(*J):
        c0 = val(J[:-1])
        return c0 if nd == 1 else ite(lor(eq(J[-1], 0), eq(J[-1], 3)), c0, old(*J))
    k.out(f, k.sides(d, ng) + [(ZERO, P(nd - 1))], v)


def sdcfgs(dep, depv):
    return [dict(dict(this_d_with_phaseb=0), this_d_avg_func_type=a, **dict(c, **{x: e for x in depv})) for i, a, e, c in
            ((0, 'a', 1, {'this_d_interp_func_type': 0, dep: 1, 'this_d_with3phases': 0}),
             (1, 'h', 4, {'this_d_interp_func_type': 1, dep: 1, 'this_d_with3phases': 0}),
             (2, 'h', 1, {'this_d_interp_func_type': 0, dep: 2, 'this_d_with3phases': 1}),
             (0, 'a', 4, {'this_d_interp_func_type': 1, dep: 2, 'this_d_with3phases': 1}),
             (0, 'a', 1, {'this_d_interp_func_type': 1, 'this_d_with3phases': 0}),
             (0, 'h', 1, {'this_d_interp_func_type': 0, 'this_d_with3phases': 0}),
             (0, 'a', 1, {'this_d_interp_func_type': 1, 'this_d_with3phases': 0, 'this_d_with_phaseb': 1, 'only': 'lb'}),
             (0, 'h', 4, {'this_d_interp_func_type': 1, 'this_d_with3phases': 1, 'this_d_with_phaseb': 1, 'only': 'ab'}))]


def phases(k, ph='phi'):
    """which components hold the liquid and the solid; None for a binary's single fraction"""
    if k.fixed.get('nd_' + ph) == 1:
        return None
    fr = Fractions(k, ph, k.fixed['this_d_with3phases'], k.fixed['this_d_with_phaseb'])
    k.requires(ge(k.i('nd_' + ph), 2))
    return fr


def scalar_diffusion(k, ph):
    k.box()
    ch, t = CHAR[k.fixed['this_d_interp_func_type']], k.cfg['this_d_avg_func_type']
    fr = phases(k, ph)
    k.ghost('ng_%s ng_pfm_diffusion' % ph, 1)
    phi = k.arr('p_' + ph)
    L, A = k.s('this_d_d0_liquid'), k.s('this_d_d0_solida')
    for d in k.D:
        f = 'p_pfm_diffusion_%d' % d
        old = k.arr(f)

        def val(J, d=d, old=old):
            I, o = Idx(J), old(*(tuple(J) + (ZERO,)))
            if fr is None:
                h = interp(avg(phi(*(I.p(d, -1) + (ZERO,))), phi(*(tuple(I) + (ZERO,))), t), ch)
                return ite(inside(J, k.sides(d)), (1 - h) * L + h * A, o)
            base = SumR('lab' if fr.withb else 'la', lambda x: interp(fr.side(x, I, d, t), ch) * k.s('this_d_d0_' + NAMES[x]))
            return ite(inside(J, k.sides(d)), base, o) + ite(inside(J, wide(k, d)), scalar_d0(k, fr, I, d), 0)
        filled_diffusion(k, f, d, k.fixed['nd_pfm_diffusion'], val)
        if fr:
            splits(k, fr, f)


method('ScalarCompositionDiffusionStrategy', 'setDiffusion_3p', 'C08', sdcfgs('nd_phi', ['nd_pfm_diffusion']))(lambda k: scalar_diffusion(k, 'phi'))
# every patch of every level
method('ScalarCompositionDiffusionStrategy', 'setDiffusion_3h', 'C08', sdcfgs('nd_phase', ['nd_pfm_diffusion'])[1::3])(lambda k: scalar_diffusion(k, 'phase'))


def tbcfgs(ph, u):
    n = 'nd_pfm_diffusion' + u
    return [dict(c, **({n + 'b': c[n + 'l']} if c['this_d_with_phaseb'] else {}))
            for c in sdcfgs('nd_' + ph, [n + 'l', n + 'a']) if c['this_d_with_phaseb'] or not c['this_d_with3phases']]


def tbased_diffusion(k, ph, u):
    """with two phases the liquid is the last component of the phase data"""
    k.box()
    ch, t = CHAR[k.fixed['this_d_interp_func_type']], k.cfg['this_d_avg_func_type']
    fr = phases(k, ph)
    k.ghost('ng_%s ng_temperature' % ph, 1)
    k.int('ng_pfm_diffusion' + u + 'l', [0, 1], lo=0, hi=1)
    X = 'lab' if fr and fr.withb else 'la'
    for x in X[1:]:
        same(k, 'ng_pfm_diffusion' + u + x, 'ng_pfm_diffusion' + u + 'l')
    g = k.i('ng_pfm_diffusion' + u + 'l')
    phi, T = k.arr('p_' + ph), k.arr('p_temperature')
    T0 = lambda *J: T(*(tuple(J) + (ZERO,)))
    k.dom('p_temperature', 0.5, 2.)
    k.count('nd_temperature')
    for x in X:
        for d in k.D:
            f = 'p_pfm_diffusion%s_%d' % (u + x, d)
            old = k.arr(f)

            def val(J, d=d, old=old, x=x):
                I, o = Idx(J), old(*(tuple(J) + (ZERO,)))
                D = k.s('this_d_d0_' + NAMES[x]) * trans('exp', -k.s('this_d_q0_' + NAMES[x]) / RGAS * 2 / (T0(*I.p(d, -1)) + T0(*I)))
                if fr is None:
                    h = interp(avg(phi(*(I.p(d, -1) + (ZERO,))), phi(*(tuple(I) + (ZERO,))), t), ch)
                    return ite(inside(J, grown(k, d, g)), (h if x == 'a' else 1 - h) * D, o)
                return (ite(inside(J, k.sides(d)), interp(fr.side(x, I, d, t), ch) * D, o)
                        + ite(inside(J, grown(k, d, g)), tbased_d0(k, fr, x, I, d, T0), 0))
            filled_diffusion(k, f, d, k.fixed['nd_pfm_diffusion' + u + x], val)
            if fr:
                splits(k, fr, f)


T_ = 'TbasedCompositionDiffusionStrategy'
method(T_, 'setDiffusion_6p', 'C08', tbcfgs('phi', ''))(lambda k: tbased_diffusion(k, 'phi', ''))
method(T_, 'setDiffusion_3h', 'C08', tbcfgs('phase', '_')[1::3])(lambda k: tbased_diffusion(k, 'phase', '_'))


def wang_diffusion(k, ph):
    k.box()
    ch, t = CHAR[k.fixed['this_d_interp_func_type']], k.cfg['this_d_avg_func_type']
    k.ghost('ng_%s ng_conc ng_diffusion' % ph, 1)
    k.count('nd_' + ph)
    exactly(k, 'nd_conc', 1)
    phi, c = k.arr('p_' + ph), k.arr('p_conc')
    L, A = k.s('this_d_d0_liquid'), k.s('this_d_d0_solida')
    dens = lambda I: c(*(tuple(I) + (ZERO,)))

    def th(I, m):
        x = phi(*(tuple(I) + (m - 1,)))
        return ite(gt(x, TH), (x - TH)**2, 0)
    n = k.i('nd_' + ph)

    def cell(I):
        """grain boundaries, and the surface of the particles"""
        gb = FAC * k.s('this_d_d0_aa') * Sum(1, n, lambda i: th(I, i) * Sum(i + 1, n, lambda j: th(I, j)))
        return R(1, 2) * (gb + k.s('this_d_d0_la') * 16 * dens(I)**2 * (1 - dens(I))**2)
    for d in k.D:
        f = 'p_diffusion_%d' % d
        old = k.arr(f)

        def val(J, d=d, old=old):
            I, o = Idx(J), old(*(tuple(J) + (ZERO,)))
            lo, hi = k.bx[d]
            h = interp(avg(dens(I.p(d, -1)), dens(I), t), ch)
            return (ite(inside(J, k.sides(d)), (1 - h) * L + h * A, o)
                    + ite(inside(J, wide(k, d)), ge(hi + 1, I[d]) * cell(I) + ge(I[d], lo) * cell(I.p(d, -1)), 0))
        filled_diffusion(k, f, d, k.fixed['nd_diffusion'], val)


WC = [{'this_d_interp_func_type': i, 'this_d_avg_func_type': a, 'nd_diffusion': n} for i, a, n in ((0, 'h', 4), (1, 'a', 1), (1, 'h', 1))]
method('WangSinteringCompositionDiffusionStrategy', 'setDiffusion_4p', 'C08', WC)(lambda k: wang_diffusion(k, 'phi'))
method('WangSinteringCompositionDiffusionStrategy', 'setDiffusion_3h', 'C08', WC[:2])(lambda k: wang_diffusion(k, 'phase'))
