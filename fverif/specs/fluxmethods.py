"""Methods that assemble composition fluxes and moving frame terms; the kernel
is chosen by the constructor (input ctor_<parameter>)."""
from contract import *
from specs.methods import *

FLUX = {0: 'add_flux_iso', 1: 'add_flux_4th', 2: 'add_flux'}        # "isotropic", "order4", anything else


def touched(k, d, s):
    t = k.flag('touch_%d%d' % (d, s))
    return ite(eq(t, 0), 0, 1)


@method('MovingFrameRHS', 'addRHS', 'C06', [{'ctor_upwind': 0}, {'ctor_upwind': 1}])
def _(k):
    k.box()
    same(k, 'nd_ydot', 'nd_data')
    kern = 'addvdphidx_upwind3' if k.fixed['ctor_upwind'] else 'addvdphidx'
    b = dict(phase=('p_data', 'each'), ngphase='ng_data', vel='frame_velocity', rhs=('p_ydot', 'each'), ngrhs='ng_ydot', dx='dx')
    if k.fixed['ctor_upwind']:
        b['physb'] = touched(k, 0, 1)
    k.use(kern, b, each=k.i('nd_data'))


CF = [{'ctor_flux_type': t, 'this_d_conc_b_scratch_id': b} for t in FLUX for b in (-1, 4711)]


@method('EBSCompositionRHSStrategy', 'computeFluxOnPatch', 'C07', CF)
def _(k):
    k.box()
    three = k.fixed['this_d_conc_b_scratch_id'] >= 0
    n = k.count('this_d_ncompositions')
    for x in 'lab' if three else 'la':
        same(k, 'nd_conc_%s_scratch' % x, 'this_d_ncompositions')
        k.samplers['nd_diffusion_' + x] = lambda rng, env: env['this_d_ncompositions'] ** 2
        k.requires(eq(k.i('nd_diffusion_' + x), n * n))
    same(k, 'nd_flux', 'this_d_ncompositions')
    F = ['p_flux_%d' % d for d in k.D]
    prev = {f: (lambda *J: ZERO) for f in F}
    kern = FLUX[k.fixed['ctor_flux_type']]
    for x in 'lab' if three else 'la':
        b = {'conc|data': 'p_conc_%s_scratch' % x, 'ngconc|ng': 'ng_conc_%s_scratch' % x, 'ncomp|depth': 'this_d_ncompositions', 'dx': zb('dx'),
             'ngdiffconc|ngdiff|ngd': 'ng_diffusion_' + x, 'ngflux|ngf': 'ng_flux'}
        for d in k.D:
            b['diffconc%d|d%d' % (d, d)] = 'p_diffusion_%s_%d' % (x, d)
            b['flux%d' % d] = F[d]
        if kern == 'add_flux_4th':
            t = {2 * d + s + 1: touched(k, d, s) for d in k.D for s in (0, 1)}
            b['physb'] = lambda i: t[int(P(i).cval())]
        k.use(kern, b, prev=prev)
        regs = {f: k.outs[f].regions[0][0] for f in F}
        prev = before(k, *F)
    for d, f in enumerate(F):
        def val(*J, d=d, f=f):
            inside = land(*[ge(J[q], lo) * le(J[q], hi) for q, (lo, hi) in enumerate(k.sides(d))])
            return ite(inside, prev[f](*J), 0)
        if kern == 'add_flux_4th':
            i = var('I%d' % d, 'I')
            k.splitfor[f] = [eq(i, k.bx[d][0]), eq(i, k.bx[d][1] + 1)] + [eq(k.flag('touch_%d%d' % (d, s)), 0) for s in (0, 1)]
        k.out(f, k.sides(d, k.i('ng_flux')) + [(ZERO, k.i('nd_flux') - 1)], val)


@method('EBSCompositionRHSStrategy', 'setDiffusionCoeffForPreconditionerOnPatch', 'C08')
def _(k):
    k.box()
    s, t = k.i('depth_in_dmatrix'), ZERO                 # callers pass depth 0, the one that is cleared
    exactly(k, 'depth', 0)
    three = lnot(eq(k.flag('has_sd_d_b'), 0))
    for x in 'lab':
        k.requires(ge(k.i('nd_sd_d_' + x), 1))
        k.requires(lt(s, k.i('nd_sd_d_' + x)))
    k.requires(ge(s, 0), lt(t, k.i('nd_sd_d_coeff')))
    k.samplers['depth_in_dmatrix'] = lambda rng, env: rng.randrange(min(env['nd_sd_d_' + x] for x in 'lab'))
    for x in ('l', 'a', 'b', 'coeff'):
        k.samplers['nd_sd_d_' + x] = lambda rng, env: rng.randrange(1, 4)
    for d in k.D:
        l, a, b = [k.arr('p_sd_d_%s_%d' % (x, d)) for x in 'lab']
        z = lambda J: tuple(J) + (s,)
        k.out('p_sd_d_coeff_%d' % d, k.sides(d) + [(t, t)],
              lambda *J, l=l, a=a, b=b: l(*z(J[:-1])) + a(*z(J[:-1])) + three * b(*z(J[:-1])))





def antitrap(k, kern, more):
    b = {'dx': zb('dx'), 'phase': 'p_phase_scratch', 'ngp': 'ng_phase_scratch', 'cl': 'p_conc_l_scratch', 'ca': 'p_conc_a_scratch',
         'ngc': 'ng_conc_l_scratch', 'dphidt': 'p_dphidt', 'ngd': 'ng_dphidt', 'alpha': 'alpha', 'ngflux': 'ng_flux'}
    b.update({'flux%d' % d: 'p_flux_%d' % d for d in k.D})
    b.update(more)
    for x in 'a' + ('b' if 'cb' in more else ''):
        same(k, 'ng_conc_%s_scratch' % x, 'ng_conc_l_scratch')
    k.use(kern, b)


@method('EBSCompositionRHSStrategy', 'addFluxFromAntitrappingonPatch', 'C07',
        [{'this_d_with_phaseb': 1, 'nd_phase_scratch': 3}, {'this_d_with_phaseb': 0, 'nd_phase_scratch': 1}, {'this_d_with_phaseb': 0}])
def _(k):
    k.box()
    one = k.fixed.get('nd_phase_scratch') == 1
    n = k.count('this_d_ncompositions')
    for a in ('nd_conc_l_scratch', 'nd_conc_a_scratch', 'nd_conc_b_scratch', 'nd_flux'):
        same(k, a, 'this_d_ncompositions')
    if k.fixed['this_d_with_phaseb']:
        same(k, 'nd_dphidt', 'nd_phase_scratch')
        antitrap(k, 'addconcentrationfluxfromantitrapping3phases', {'cb': 'p_conc_b_scratch'})
    elif one:
        exactly(k, 'nd_dphidt', 1)
        antitrap(k, 'addconcentrationfluxfromantitrapping', {'ncomp': 'this_d_ncompositions'})
    else:
        k.count('nd_phase_scratch')
        k.samplers['nd_phase_scratch'] = lambda rng, env: rng.choice([2, 3])
        atleast(k, 'nd_phase_scratch', 2)
        same(k, 'nd_dphidt', 'nd_phase_scratch')
        antitrap(k, 'addconcentrationfluxfromantitrappingmultiorderp', {'norderp': 'nd_phase_scratch'})


@method('WangSinteringCompositionRHSStrategy', 'computeFluxOnPatch', 'C07')
def _(k):
    k.box()
    for a in ('nd_conc', 'nd_diffusion', 'nd_flux'):
        exactly(k, a, 1)
    k.count('nd_phase')
    F = ['p_flux_%d' % d for d in k.D]
    b = dict(conc='p_conc', ngconc='ng_conc', phi='p_phase', ngphi='ng_phase', norder='nd_phase', dx=zb('dx'), ngdiff='ng_diffusion', ngflux='ng_flux',
             mobility='this_d_mobility', parameter_a='this_d_a', parameter_b='this_d_b', kappa='this_d_beta_rho')
    for d in k.D:
        b['diff%d' % d], b['flux%d' % d] = 'p_diffusion_%d' % d, F[d]
    k.use('add_wang_sintering_flux', b, skip=('phi2sum', 'phi3sum'), prev={f: (lambda *J: ZERO) for f in F})
    regs = {f: k.outs[f].regions[0][0] for f in F}
    prev = before(k, *F)
    for d, f in enumerate(F):
        def val(*J, f=f):
            return ite(land(*[ge(j, lo) * le(j, hi) for j, (lo, hi) in zip(J, regs[f])]), prev[f](*J), 0)
        k.out(f, k.sides(d, k.i('ng_flux')) + [(ZERO, ZERO)], val)
