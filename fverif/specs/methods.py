"""Methods of the C++ classes that drive the grid kernels: what a call leaves
in the patch data it was given (translated by cxxp.py)."""
from contract import *
from specs.misc import grid
from specs import amr, conc, energy, funcs, grad, misc, quat, quatgrad, rhs

INTERP = {0: 'l', 1: 'p', 2: 'h'}          # Thermo4PFM::EnergyInterpolationType


def method(cls, name, props, cfgs=({},), dims=(2, 3)):
    return kernel(((cls + '__' if cls else '') + name).lower(), props + ' cxx', dims=dims, cfgs=cfgs)


def itypes(n='this_d_phase_interp_func_type', **more):
    return tuple(dict({n: i}, **more) for i in INTERP)


def itype(k, n='this_d_phase_interp_func_type'):
    return INTERP[k.fixed[n]]


def filled(k, a, v, nd=None):
    """every (or the first nd) component of every cell, ghosts included, holds v"""
    base = a[2:]
    g = k.i('ng_' + base)
    k.box()
    k.out(a, k.cells(g) + [(ZERO, k.i('nd_' + base) - 1 if nd is None else ZERO + (nd - 1))], lambda *I: v)


def same(k, a, b):
    """patch data with the same number of components"""
    k.samplers[a] = lambda rng, env: env[b]
    k.requires(eq(var(a, 'I'), k.i(b)))


def comp(a, off=0, D=None, depth=None):
    """array of a kernel = components off.. of the patch data array a"""
    def g(*I):
        I = list(I)
        I[D:] = [P(off) + sum([(P(x) - 1) * (1 if q == 0 else depth) for q, x in enumerate(I[D:])], ZERO)]
        return tuple(I)
    return (a, g)


def zb(a):
    """the kernel declares its formal with subscripts from 0"""
    return (a, lambda i: (i,))


def before(k, *names):
    """what the calls so far leave in arrays, as input of the next call"""
    def val(o):
        (reg, f, c), = o.regions
        return lambda *J: f(*J)
    return {n: val(k.outs.pop(n)) for n in names}


def atleast(k, a, v):
    """number of components a at least v"""
    k.requires(ge(var(a, 'I'), v))
    k.samplers[a] = lambda rng, env: int(neval(P(v), NumEnv(env, {}, {}))) + rng.choice([0, 0, 1])


def exactly(k, a, v):
    k.requires(eq(var(a, 'I'), v))
    k.samplers[a] = lambda rng, env: int(neval(P(v), NumEnv(env, {}, {})))


# ------------------------------------------------------- free energies
DT = 'DeltaTemperatureFreeEnergyStrategy'


@method(DT, 'addDrivingForce', 'C06', itypes(ng_rhs=0))
def _(k):
    k.use('computerhsdeltatemperature', dict(
        phi='p_phase', ngphi='ng_phase', temp='p_temperature', ngtemp='ng_temperature', tm='this_d_tm',
        latentheat='this_d_l', rhs='p_rhs', ngrhs='ng_rhs', **{'energy_interp_type|phi_interp_type': itype(k)}))
    k.box()


@method(DT, 'applydPhidTBlock', 'C06', itypes())
def _(k):
    k.use('computedphidtemperaturedeltatemperature', dict(
        phi='p_phase', ngphi='ng_phase', tm='this_d_tm', latentheat='this_d_l', mobility='phase_mobility',
        rhs='p_rhs', ngrhs='ng_rhs', **{'energy_interp_type|phi_interp_type': itype(k)}))
    k.box()


def dt_energy(cls, name, out, sign):
    @method(cls, name, 'C18', ({'ng_' + out: 0},))
    def _(k):
        """free energy density of a phase: +- half the latent heat times the
        relative undercooling"""
        k.box()
        k.pos('this_d_tm')
        T = k.arr('p_temperature')
        L, Tm = k.s('this_d_l'), k.s('this_d_tm')
        k.out('p_' + out, k.cells() + [(0, 0)], lambda *I: sign * R(1, 2) * L * (Tm - T(*I)) / Tm)


for _n, _o, _s in (('computeFreeEnergyLiquid', 'fl', 1), ('computeFreeEnergySolidA', 'fa', -1), ('computeFreeEnergySolidB', 'fb', -1)):
    dt_energy(DT, _n, _o, _s)

for _c in ('PhaseFreeEnergyStrategy', 'TemperatureFreeEnergyStrategy'):
    for _n, _o, _v in (('computeFreeEnergyLiquid', 'fl', 'this_d_f_l'), ('computeFreeEnergySolidA', 'fs', 'this_d_f_a')):
        if _c[0] == 'T' and _o == 'fl':
            continue

        @method(_c, _n, 'C18')
        def _(k, _o=_o, _v=_v):
            filled(k, 'p_' + _o, k.s(_v))

    @method(_c, 'addDrivingForce', 'C06', itypes(ng_rhs=0, ng_f_l=0, ng_f_a=0, nd_phase=1)
            + (itypes(ng_rhs=0, ng_f_l=0, ng_f_a=0, _multi=1)[:1] if _c[0] == 'P' else ()))
    def _(k):
        if '_multi' not in k.cfg:
            k.use('phaserhs_fenergy', dict(phi='p_phase', ngphi='ng_phase', fl='p_f_l', fa='p_f_a', rhs='p_rhs',
                                           ngrhs='ng_rhs', **{'energy_interp_type|phi_interp_type': itype(k)}))
        else:
            k.use('phaserhs_fenergy_multiorderp', dict(phi='p_phase', ngphi='ng_phase', fl='p_f_l', fa='p_f_a',
                                                       rhs='p_rhs', ngrhs='ng_rhs', nphi='nd_phase'))
            same(k, 'nd_rhs', 'nd_phase')
        k.box()


# -------------------------------------- differences and gradients
HS = 'HierarchyStencilOps'


def sidesof(k, pat, base, off=0):
    """bindings of the direction-wise arguments pat to the sides of base"""
    return {pat.replace('{x}', XYZ[d]): comp('p_%s_%d' % (base, d), off, k.dim) for d in k.D}


for _q in 'hlp':
    @method(HS, 'computeDiffs_3' + _q, 'C10')
    def _(k):
        k.use('diffs', dict(v='p_var', ng='ng_var', ngd='ng_diffs', **sidesof(k, 'diff_{x}', 'diffs')))
        k.box()

    @method(HS, 'computeGradCell_3' + _q, 'C10')
    def _(k):
        exactly(k, 'nd_grad', k.dim)
        k.use('grad_cell', dict(ngdiff='ng_diffs', nggrad='ng_grad', h='dx', **sidesof(k, 'diff_{x}', 'diffs'),
                                **{'grad_' + XYZ[d]: comp('p_grad', d, k.dim) for d in k.D}))
        k.box()

    if _q != 'l':
        @method(HS, 'computeGradSide_3' + _q, 'C10')
        def _(k):
            exactly(k, 'nd_grad_side', k.dim)
            k.use('grad_side', dict(ngdiff='ng_diffs', nggrad='ng_grad_side', h='dx', **sidesof(k, 'diff_{x}', 'diffs'),
                                    **{'grad_%s_%sside' % (XYZ[d], XYZ[s]): comp('p_grad_side_%d' % s, d, k.dim)
                                       for d in k.D for s in k.D}))
            k.box()

SYM = ({'issymmetryaware': 0}, {'issymmetryaware': 1})


def symmetric(k, n):
    """rotation data: one valid operation per face"""
    k.symm = k.fixed['issymmetryaware']
    n = k.i(n)
    if k.symm:
        k.requires(lor(eq(n, 1), lor(eq(n, 2), eq(n, 4))))
    return n


@method('', 'computeQDiffs', 'C10', SYM)
def _(k):
    n = symmetric(k, 'nd_quat_data')
    sy = k.symm
    exactly(k, 'nd_diff_data', n * (1 + sy))
    rot = {'iqrot_' + XYZ[d]: comp('p_rotation_index_%d' % d, 0, k.dim) for d in k.D}
    com = dict(depth='nd_quat_data', q='p_quat_data', ngq='ng_quat_data', ngdiff='ng_diff_data')
    if sy:
        k.use('quatdiffs_symm', dict(com, ngiq='ng_rotation_index', **rot, **sidesof(k, 'diff_{x}', 'diff_data')))
    k.use('quatdiffs', dict(com, **sidesof(k, 'diff_{x}', 'diff_data', n * sy)))
    k.box()


def qgcfgs(*more):
    out = []
    for m in more or ({},):
        out.append(dict(m, issymmetryaware=0))
        out += [dict(m, issymmetryaware=1, nd_diff_data=2 * n) for n in (1, 2, 4)]
    return out


def qgrad(k, kern, grads):
    """gradients from differences: component d of the gradient in slot d*qlen
    onwards; with symmetry the first qlen differences are the aligned ones"""
    sy = k.fixed['issymmetryaware']
    n = k.fixed['nd_diff_data'] // 2 if sy else k.i('nd_diff_data')
    base = 'grad_data'
    exactly(k, 'nd_grad_data', k.dim * n)
    b = dict(depth=n if sy else 'nd_diff_data', h='dx', ngdiff='ng_diff_data', nggrad='ng_grad_data')
    b.update(sidesof(k, 'diff_{x}', 'diff_data'))
    b.update({f: comp(a, d * n, k.dim) for f, a, d in grads})
    if sy:
        b.update({'iqrot_' + XYZ[d]: comp('p_rotation_index_%d' % d, 0, k.dim) for d in k.D}, ngiq='ng_rotation_index')
    k.use(kern + ('_symm' if sy else '') + ('_isotropic' if k.cfg.get('isotropicstencil') else ''), b)
    k.box()


@method('', 'computeQGrad', 'C10', qgcfgs())
def _(k):
    qgrad(k, 'quatgrad_cell', [('grad_' + XYZ[d], 'p_grad_data', d) for d in k.D])


def qgs(k):
    qgrad(k, 'quatgrad_side', [('grad_%s_%sside' % (XYZ[d], XYZ[s]), 'p_grad_data_%d' % s, d) for d in k.D for s in k.D])


method('', 'computeQGradSide', 'C10', qgcfgs(dict(isotropicstencil=0)))(qgs)
method('', 'computeQGradSide', 'C10', qgcfgs(dict(isotropicstencil=1)), dims=(2,))(qgs)


@method('QuatGradModulusStrategy', 'computeQuatGradModulus', 'C10')
def _(k):
    k.count('this_d_qlen')
    n = k.i('this_d_qlen')
    exactly(k, 'nd_grad_cell', k.dim * n)
    k.use('quatgrad_modulus', dict(depth='this_d_qlen', nggq='ng_grad_cell', ngm='ng_grad_modulus', grad_mod='p_grad_modulus',
                                   **{'grad_' + XYZ[d]: comp('p_grad_cell', d * n, k.dim) for d in k.D}))
    k.box()


@method('QuatGradModulusStrategy', 'computeQuatGradModulusFromSides', 'C10')
def _(k):
    n = k.count('this_d_qlen')
    exactly(k, 'nd_grad_side', k.dim * n)
    k.use('quatgrad_modulus_from_sides_compact', dict(
        depth='this_d_qlen', nggq='ng_grad_side', ngm='ng_grad_modulus', grad_mod='p_grad_modulus',
        **{'grad_' + XYZ[d]: comp('p_grad_side_%d' % d, 0, k.dim, n) for d in k.D}))
    k.box()


# ------------------------------------------------------------ phase fluxes
def phaseflux(cls, kern, **bind):
    def f(k):
        same(k, 'nd_flux', 'nd_phase')
        k.use(kern, dict({'h|dx': 'dx', 'epsilon': 'this_d_epsilon_phase', 'ngphase|ngphi': 'ng_phase', 'ngflux': 'ng_flux',
                          'phase|phi': ('p_phase', 'each')}, **dict(bind, **{'flux%d' % d: ('p_flux_%d' % d, 'each') for d in k.D})),
              each=k.i('nd_phase'))
        k.box()
    return f


method('PhaseFluxStrategySimple', 'computeFluxes', 'C06')(phaseflux('PhaseFluxStrategySimple', 'gradient_flux'))
method('PhaseFluxStrategyIsotropic', 'computeFluxes', 'C06', dims=(2,))(
    phaseflux('PhaseFluxStrategyIsotropic', 'compute_flux_isotropic'))


@method('PhaseFluxStrategyAnisotropy', 'computeFluxes', 'C06', ({'nd_quat': 4},))
@method('PhaseFluxStrategyAnisotropy', 'computeFluxes', 'C06', ({'nd_quat': 2},), dims=(2,))
def _(k):
    phaseflux('', 'anisotropic_gradient_flux', knumber='this_d_knumber', quat='p_quat', ngq='ng_quat', qlen='nd_quat',
              **{'nu|eps4': 'this_d_nu'})(k)


# ------------------------------------------------ composition fluxes
@method('KKSCompositionRHSStrategy', 'computeFluxOnPatch', 'C07')
def _(k):
    same(k, 'nd_flux', 'nd_conc_scratch')
    exactly(k, 'nd_pfm_diffusion', 1)
    exactly(k, 'nd_conc_phase_coupling_diffusion', 1)
    exactly(k, 'ng_pfm_diffusion', 0)
    exactly(k, 'ng_conc_phase_coupling_diffusion', 0)
    b = dict(dx=zb('dx'), conc=('p_conc_scratch', 'each'), ngconc='ng_conc_scratch', phi='p_phase_scratch', ngphi='ng_phase_scratch',
             ngflux='ng_flux', ngdiffconc=0, ngdphicoupl=0)
    for d in k.D:
        b['diffconc%d' % d] = 'p_pfm_diffusion_%d' % d
        b['dphicoupl%d' % d] = 'p_conc_phase_coupling_diffusion_%d' % d
        b['flux%d' % d] = ('p_flux_%d' % d, 'each')
    k.use('concentrationflux', b, each=k.i('nd_conc_scratch'))
    k.box()


@method('KKSCompositionRHSStrategy', 'setPFMDiffCoeffForConcentration', 'C08', itypes())
def _(k):
    exactly(k, 'nd_conc_pfm_diffusion', 1)
    exactly(k, 'ng_conc_pfm_diffusion', 0)
    k.use('concentration_pfmdiffusion', dict(
        phi='p_phase', ngphi='ng_phase', ngdiff=0, temp='p_temperature', ngtemp='ng_temperature', d_liquid='this_d_d_liquid',
        q0_liquid='this_d_q0_liquid', d_solida='this_d_d_solid_a', q0_solida='this_d_q0_solid_a',
        gas_constant_r=R(8314472, 1000000), interp_type=itype(k), avg_type='this_d_avg_func_type',
        **{'diff%d' % d: 'p_conc_pfm_diffusion_%d' % d for d in k.D}))
    k.box()


@method('WangSinteringCompositionDiffusionStrategy', 'setDiffusionInterfaces', 'C08')
def _(k):
    D = {'diff%d' % d: 'p_diffusion_%d' % d for d in k.D}
    k.use('add_ab_diffusion', dict(phia='p_phi', phib='p_phi', nphia='nd_phi', nphib='nd_phi', ngphi='ng_phi',
                                   ngdiff='ng_diffusion', d0c='this_d_d0_aa', same_phase=1, **D))
    k.use('add_ab_diffusion_single', dict(phi='p_conc', ngphi='ng_conc', ngdiff='ng_diffusion', d0c='this_d_d0_la', **D),
          prev=before(k, *D.values()))
    k.box()


@method('DerivDiffusionCoeffForQuat', 'setDerivDiffusionPatch', 'C15', [{'this_d_avg_func_type': a} for a in 'ah'])
def _(k):
    exactly(k, 'ng_quat_diffusion_deriv', 0)
    exactly(k, 'nd_quat_diffusion_deriv', 2)
    exactly(k, 'ng_quat_grad_side', 0)
    k.count('this_d_qlen')
    n = k.i('this_d_qlen')
    exactly(k, 'nd_quat_grad_side', k.dim * n)
    b = dict(misorientation_factor=2 * k.s('this_d_h_parameter'), temperature='p_temperature_scratch', tghosts='ng_temperature_scratch',
             var='p_phase_scratch', ngvar='ng_phase_scratch', depth='this_d_qlen', nggradq=0, ngdiff=0,
             gradient_floor='this_d_quat_grad_floor', avg_type=k.cfg['this_d_avg_func_type'],
             **{'smooth_floor_type|floor_type': 'this_d_quat_smooth_floor_type', 'interp_type|diff_type': 'this_d_orient_interp_func_type'})
    for d in k.D:
        b['gradq%d' % d] = comp('p_quat_grad_side_%d' % d, 0, k.dim, n)
        b['diff%d' % d] = 'p_quat_diffusion_deriv_%d' % d
    k.use('quatdiffusionderiv', b)
    k.box()


@method('LinearMeltingTemperatureStrategy', 'evaluate', 'C13')
def _(k):
    k.use('linearmeltingline', dict(temp='p_equilibrium_temperature', ngt='ng_equilibrium_temperature', conc='p_concentration',
                                    ngc='ng_concentration', tref='this_d_tref', cref='this_d_c0', slope='this_d_liquidus_slope'))
    k.box()


@method('ConstantMeltingTemperatureStrategy', 'evaluate', 'C13')
def _(k):
    filled(k, 'p_equilibrium_temperature', k.s('this_d_tref'), 1)


@method('UniformPartitionCoefficientStrategy', 'evaluate', 'C08')
def _(k):
    filled(k, 'p_cd_partition_coeff', k.s('this_d_keq'), 1)


# ------------------------------------------------------ temperature of the run
def ramp(k, T0, set_=ZERO):
    """temperature of the run at a time: linear in time, and never past its
    target (from below when heating, from above when cooling)"""
    r, tg, t = (k.s(x) for x in ('this_d_dtemperaturedt', 'this_d_target_temperature', 'time'))
    for n in ('this_d_dtemperaturedt', 'time'):
        k.sample(n, [0., 1.], -1., 1.)
    k.sample('this_d_target_temperature', [-1., 0., 1.], -1., 1.)
    T = k.s(T0) + t * r
    cap = ite(gt(r, 0), minn(T, tg), T) if set_ is None else ite(land(gt(r, 0), gt(tg, 0)), minn(T, tg), T)
    return ite(lt(r, 0), maxx(T, tg), cap)


for _n in ('', 'Average', 'Max', 'Min'):
    @method('ScalarTemperatureStrategy', 'getCurrent%sTemperature' % _n, 'C13')
    def _(k):
        k.result(ramp(k, 'this_d_temperature0'))


@method('GaussianTemperatureStrategy', 'getCurrentTemperature', 'C13')
def _(k):
    k.result(ramp(k, 'this_d_initial_temperature', None))


@method('ScalarTemperatureStrategy', 'setCurrentTemperature', 'C13')
def _(k):
    """the run's temperature in every cell (a constant temperature is only
    set at the start)"""
    k.box()
    T = ramp(k, 'this_d_temperature0')
    on = lor(lnot(eq(k.s("this_d_dtemperaturedt"), 0)), eq(k.s('time'), 0))
    for a, g in (('temperature', 0), ('temperature_scratch', k.i('ng_temperature_scratch'))):
        k.out('p_' + a, k.cells(g) + [(ZERO, k.i('nd_' + a) - 1)], lambda *I: T, cond=on)


@method('GaussianTemperatureStrategy', 'setCurrentTemperaturePrivatePatch', 'C13')
def _(k):
    k.use('initgaussian', dict(dx=zb('dx'), xlo=zb('xlo'), var='p_cd_temp', ng='ng_cd_temp', center=zb('this_d_center'),
                               ll=zb('this_d_periodic_length'), standard_dev='this_d_standard_dev',
                               temperature_base='this_d_temperature_base', temperature_peak='tgaussian'))
    k.box()


# ------------------------------------------------- concentrations of the phases
CINTERP = {0: 'l', 1: 'p', 2: 'h'}         # Thermo4PFM::ConcInterpolationType


@method('PartitionPhaseConcentrationsStrategy', 'computePhaseConcentrationsOnPatch', 'C08',
        [{'this_d_phase_interp_func_type': i} for i in CINTERP])
def _(k):
    """the mixture c = (1-h) c_l + h c_a with c_a = k c_l, in every cell"""
    k.box()
    k.requires(eq(k.i('ng_cd_c_l'), k.i('ng_cd_c_a')))
    k.samplers['ng_cd_c_a'] = lambda rng, env: env['ng_cd_c_l']
    k.requires(eq(k.i('ng_cd_phi'), k.i('ng_cd_concentration')))
    k.samplers['ng_cd_concentration'] = lambda rng, env: env['ng_cd_phi']
    n = k.i('nd_cd_concentration')
    for a in ('nd_cd_c_l', 'nd_cd_c_a'):
        atleast(k, a, n)
    k.dom('p_partition_coeff', 0.05, 0.95)
    k.dom('p_cd_phi', -0.1, 1.1)
    p, q, c = k.arr('p_cd_phi'), k.arr('p_partition_coeff'), k.arr('p_cd_concentration')

    def cl(*I):
        J = Idx(I[:-1])
        h = interp(p(J, 0), CINTERP[k.fixed['this_d_phase_interp_func_type']])
        return c(*I) / (1 - h + q(J, 0) * h)
    k.out('p_cd_c_l', k.cells() + [(ZERO, n - 1)], cl)
    k.out('p_cd_c_a', k.cells() + [(ZERO, n - 1)], lambda *I: q(Idx(I[:-1]), 0) * cl(*I))
    k.result(ZERO)


@method('PhaseIndependentConcentrationsStrategy', 'computePhaseConcentrationsOnPatch', 'C08')
def _(k):
    """every phase has the concentration of the mixture"""
    k.box()
    c, n = k.arr('p_cd_concentration'), k.i('nd_cd_concentration')
    for a in ('l', 'a'):
        exactly(k, 'nd_cd_c_' + a, n)
        k.out('p_cd_c_' + a, k.cells() + [(ZERO, n - 1)], lambda *I: c(*I))
    k.result(ZERO)


@method('QuatFaceCoeff', 'computeFaceCoefs', 'C15')
def _(k):
    exactly(k, 'nd_phase', 1)
    exactly(k, 'nd_temp', 1)
    exactly(k, 'nd_face_coef', 1)
    k.count('this_d_qlen')
    n = k.i('this_d_qlen')
    exactly(k, 'nd_grad_q', k.dim * n)
    b = dict(misorientation_factor=2 * k.s('this_d_hparameter'), temp='p_temp', ngt='ng_temp', phi='p_phase', ngp='ng_phase',
             depth='this_d_qlen', nggq='ng_grad_q', ngf='ng_face_coef', gradient_floor='this_d_gradient_floor', eps_q='this_d_epsilon_q',
             floor_type='this_d_grad_floor_type', interp_type1='this_d_interp_type1', interp_type2='this_d_interp_type2',
             avg_type='this_d_avg_type')
    for d, x in zip(k.D, 'xyz'):
        b['gq' + x] = comp('p_grad_q_%d' % d, 0, k.dim, n)
        b['fc' + x] = 'p_face_coef_%d' % d
    k.use('compute_face_coef%dd' % k.dim, b)
    k.box()
