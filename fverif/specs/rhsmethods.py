"""Right-hand sides of the phase equations, assembled on a patch: gradient and
double well part by a kernel, driving force by a free energy strategy (here an
arbitrary linear operator, MOCKS in cxxp.py), then the mobility, in this order."""
from contract import *
from specs.methods import *


def driven(k, kern, bind, skip=(), energies='lab', mob='p_phase_mobility', each=True, when=None, visit=None, cfg=None):
    """rhs = mobility * (kernel + driving force)"""
    k.box()
    rhs = 'p_ydot_phase'
    k.use(kern, bind, skip=skip, cfg=cfg)
    (reg, f0, _), = k.outs.pop(rhs).regions
    D = k.dim
    z = lambda I: tuple(I) + (ZERO,)
    m = k.arr(mob)
    if 'has_free_energy_strategy' not in k.args:
        k.out(rhs, reg, lambda *J: m(*z(J[:D])) * f0(*J))
        return
    on = lnot(eq(k.flag('has_free_energy_strategy'), 0))
    w, T, phi, c = k.arr('w_free_energy_strategy'), k.arr('p_temperature_scratch'), k.arr('p_phase_scratch'), k.arr('p_conc_scratch')
    fe = {}
    for j, x in enumerate('lab'):
        if x in energies:
            fe[x] = (lambda j: lambda I: w(2 * j) * T(*z(I)))(j)
            k.out('p_f_' + x, k.cells() + [(ZERO, ZERO)], (lambda g: lambda *J: g(J[:D]))(fe[x]), cond=on)
        else:
            fe[x] = (lambda a: lambda I: a(*z(I)))(k.arr('p_f_' + x))

    def force(I):
        return w(6) * T(*z(I)) + w(7) * phi(*z(I)) + w(8) * c(*z(I)) + w(9) * fe['l'](I) + w(10) * fe['a'](I) + w(11) * fe['b'](I) + w(12) * k.s('time')

    def total(*J):
        return f0(*J) + on * force(J[:D])
    if visit:
        k.out(visit[0], k.cells() + [(ZERO, k.i('nd' + visit[0][1:]) - 1)], total, cond=visit[1])
    k.out(rhs, reg, lambda *J: m(*z(J[:D])) * total(*J))


@method('MultiOrderRHSStrategy', 'evaluateRHS_4p', 'C06')
def _(k):
    n = k.count('nd_phase_scratch')
    for a in ('nd_ydot_phase', 'nd_flux'):
        same(k, a, 'nd_phase_scratch')
    k.pos('this_d_gamma')
    k.pos('this_d_m')
    driven(k, 'computerhsmultiorder', dict(
        norder='nd_phase_scratch', dx='dx', dgamma='this_d_gamma', m='this_d_m', phi='p_phase_scratch', ngphi='ng_phase_scratch',
        rhs='p_ydot_phase', ngrhs='ng_ydot_phase', ngflux='ng_flux',
        **{'flux%d' % d: 'p_flux_%d' % d for d in k.D}), skip=('phi2sum',))


@method('SinteringUWangRHSStrategy', 'evaluateRHS_4p', 'C06')
def _(k):
    k.count('nd_phase')
    for a in ('nd_ydot_phase', 'nd_flux'):
        same(k, a, 'nd_phase')
    driven(k, 'computerhs_wang_sintering', dict(
        norder='nd_phase', dx='dx', beta='this_d_beta', parameter_b='this_d_b', phi='p_phase', ngphi='ng_phase', conc='p_conc', ngc='ng_conc',
        rhs='p_ydot_phase', ngrhs='ng_ydot_phase', ngflux='ng_flux', **{'flux%d' % d: 'p_flux_%d' % d for d in k.D}), skip=('phi2sum',))


@method('ThreePhasesRHSStrategy', 'evaluateRHS_4p', 'C06', ({'ng_ydot_phase': 0},))
def _(k):
    for a in ('nd_phase_scratch', 'nd_ydot_phase', 'nd_flux'):
        exactly(k, a, 3)
    driven(k, 'computerhsthreephases', dict(
        dx='dx', phi_well_scale='this_d_phase_well_scale', phi='p_phase_scratch', ngphi='ng_phase_scratch', rhs='p_ydot_phase', ngrhs=0,
        ngflux='ng_flux', **{'flux%d' % d: 'p_flux_%d' % d for d in k.D}))


def project(k, n):
    k.use('projectphi{n}d'.replace('{n}', str(k.dim)), dict(
        depth=n, phi='p_phase', ng='ng_phase', corr='p_corr', ngc='ng_corr', err='p_err', nge='ng_err'))
    k.box()


@method('MultiOrderRHSStrategy', 'projectPhases', 'C06')
def _(k):
    k.count('nd_phase')
    for a in ('nd_corr', 'nd_err'):
        same(k, a, 'nd_phase')
    project(k, 'nd_phase')


@method('ThreePhasesRHSStrategy', 'projectPhases', 'C06')
def _(k):
    for a in ('nd_corr', 'nd_err', 'nd_phase'):
        exactly(k, a, 3)
    project(k, 3)


PBG = [{'this_d_energy_interp_func_type': i, 'this_d_eta_scratch_id': e, 'ng_quat_grad_modulus': 0, 'ng_ydot_phase': 0}
       for i, e in ((0, 4711), (1, 4711), (2, 4711), (1, -1))]


@method('PhaseRHSStrategyWithQ', 'evaluateRHS_4p', 'C06', PBG)
def _(k):
    """without random noise"""
    for a in ('nd_phase_scratch', 'nd_ydot_phase', 'nd_flux', 'nd_phase_mobility', 'nd_phase_rhs_visit'):
        exactly(k, a, 1)
    three = k.fixed['this_d_eta_scratch_id'] >= 0
    if not three:
        k.requires(eq(k.i('ng_eta_scratch'), 0))
        k.samplers['ng_eta_scratch'] = lambda rng, env: 0
    H = k.s('of_model_parameters_h_parameter')
    k.samplers['of_model_parameters_h_parameter'] = lambda rng, env: rng.choice([-1., 0., 0.7])
    amp = k.s('of_model_parameters_noise_amplitude')
    k.samplers['of_model_parameters_noise_amplitude'] = lambda rng, env: rng.choice([0., -0.5])
    k.requires(le(amp, 0))
    ev, vis = var('eval_flag', 'B'), var('of_model_parameters_rhs_visit_output', 'B')
    ch = itype(k, 'this_d_energy_interp_func_type')
    driven(k, 'computerhspbg', dict(
        {'dx': 'dx', 'misorientation_factor': 2 * k.s('this_d_h_parameter'), 'epsilonq': 'of_model_parameters_epsilon_q', 'ngflux': 'ng_flux',
         'temp': 'p_temperature_scratch', 'ngtemp': 'ng_temperature_scratch', 'phi_well_scale': 'this_d_phase_well_scale',
         'eta_well_scale': 'this_d_eta_well_scale', 'phi': 'p_phase_scratch', 'ngphi': 'ng_phase_scratch', 'eta': 'p_eta_scratch',
         'ngeta': 'ng_eta_scratch', 'orient_grad_mod': 'p_quat_grad_modulus', 'ngogm': 0, 'rhs': 'p_ydot_phase', 'ngrhs': 0,
         'phi_well_type': 'd', 'eta_well_type': 'd', 'energy_interp_type|phi_interp_type': ch,
         'orient_interp_type1': 'this_d_orient_interp_func_type1', 'orient_interp_type2': 'this_d_orient_interp_func_type2',
         'with_orient': gt(H, 0), 'three_phase': int(three)}, **{'flux%d' % d: 'p_flux_%d' % d for d in k.D}),
        energies='la', visit=('p_phase_rhs_visit', ev * vis))


@method('SimpleTemperatureRHSStrategy', 'evaluateRHS', 'C13', [{'dphidt_scratch_id': i} for i in (4711, -1)])
def _(k):
    for a in ('nd_temperature_scratch', 'nd_cp', 'nd_dphidt_scratch', 'nd_temperature_rhs'):
        exactly(k, a, 1)
    on = k.fixed['dphidt_scratch_id'] >= 0
    k.use('computerhstemp', dict(
        dx=zb('dx'), thermal_diffusivity='this_d_thermal_diffusivity', latent_heat='this_d_latent_heat', temp='p_temperature_scratch',
        ngtemp='ng_temperature_scratch', cp='p_cp', ngcp='ng_cp', with_phase=int(on), phi_rhs='p_dphidt_scratch',
        rhs='p_temperature_rhs', **{'ngphi_rhs|ngphirhs|ngphi': 'ng_dphidt_scratch', 'ngrhs|ngtemp_rhs': 'ng_temperature_rhs'}))
    k.box()


TF = 'TemperatureFreeEnergyStrategy'


def tempf(k, T):
    """bulk energy of the liquid; the inverse of the melting temperature is set by the constructor"""
    return k.s('this_d_f_a') + k.s('this_d_latent_heat') * (k.s('this_d_meltingt') - T) * k.s('this_d_invmeltingt')


@method(TF, 'computeValFreeEnergyLiquid', 'C18')
def _(k):
    k.result(tempf(k, k.s('temperature')))


@method(TF, 'computeFreeEnergyLiquid', 'C18')
def _(k):
    k.box()
    k.count('nd_fl'), k.count('nd_temperature')
    T = k.arr('p_temperature')
    k.out('p_fl', k.cells() + [(ZERO, ZERO)], lambda *J: tempf(k, T(*J)))
