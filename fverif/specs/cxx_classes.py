"""C27, C28, C29: event scheduling, temperature history, atomic mobilities
(C++ classes: the contracts are over the state of the object)."""
from contract import *
from vc import trans

I = lambda n: var(n, 'I')
B = lambda n: var(n, 'B')
X = lambda n: var(n, 'R')

# ---------------------------------------------------------------- C27
CYCLE, TIME = 0, 1
NOW, PREV, LAST = X('current_time'), X('this_d_previous_time'), X('this_d_time_at_last_event')
STEP = I('current_step')
NI, DT, TYPE = I('this_d_int_interval_value'), X('this_d_dbl_interval_value'), I('this_d_interval_type')
FIRST, FINAL = B('this_d_include_first_step'), B('this_d_include_last_step')

ACTIVE = lor(land(eq(TYPE, CYCLE), gt(NI, 0)), land(eq(TYPE, TIME), gt(DT, 0)))
OCCURRED = land(ACTIVE, eq(LAST, NOW))
TIMES = [0., .5, 1., 1.5, 2., 2.5, 3., 4.5, 6., 7.25, 10.]


def trunc(x):
    return app('trunc', x, sort='I')


def event(k):
    k.tol, k.atol = 1e-14, 1e-300
    k.more = 6
    if k.has('this_d_interval_type'):
        k.choice('this_d_interval_type', [CYCLE, TIME])
    S = k.samplers
    S['this_d_int_interval_value'] = lambda rng, env: rng.choice([1, 2, 3, 5, 10, 0, -1])
    S['this_d_dbl_interval_value'] = lambda rng, env: rng.choice([0.5, 1., 1.5, 0.25, 2., 0., -1., 3.7])
    S['current_step'] = lambda rng, env: rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 10, 20, 21, 1000])
    S['current_time'] = lambda rng, env: rng.choice(TIMES) if rng.random() < .7 else rng.uniform(0, 12)
    S['this_d_previous_time'] = lambda rng, env: rng.choice([-1., -1., 0., env['current_time'], env['current_time'] - .5] + TIMES)
    S['this_d_time_at_last_event'] = lambda rng, env: rng.choice([-1., -1., 0., env['current_time'], env.get('this_d_previous_time', 0.)])


@kernel('eventinterval__isactive', 'C27', dims=(2,))
def _(k):
    event(k)
    k.result(ACTIVE)


@kernel('eventinterval__recordevent', 'C27', dims=(2,))
def _(k):
    event(k)
    k.scalar('this_d_time_at_last_event', NOW)


@kernel('eventinterval__eventoccurredattime', 'C27', dims=(2,))
def _(k):
    event(k)
    k.result(OCCURRED)


@kernel('eventinterval__includeinitial eventinterval__includefinal', 'C27', dims=(2,))
def _(k):
    event(k)
    fire = land(land(ACTIVE, FIRST if k.has('this_d_include_first_step') else FINAL), lnot(OCCURRED))
    k.result(fire)
    k.scalar('this_d_time_at_last_event', ite(fire, NOW, LAST))
    k.scalar('this_d_previous_time', NOW)


@kernel('eventinterval__hasintervalpassed', 'C27', dims=(2,))
def _(k):
    event(k)
    first = land(FIRST, lt(PREV, 0))
    step = land(eq(TYPE, CYCLE), eq(STEP - NI * idiv(STEP, NI), 0))
    time = land(land(eq(TYPE, TIME), ge(PREV, 0)), gt(trunc(NOW / DT), trunc(PREV / DT)))
    fire = land(land(ACTIVE, lnot(OCCURRED)), lor(first, lor(step, time)))
    k.result(fire)
    k.scalar('this_d_time_at_last_event', ite(fire, NOW, LAST))
    k.scalar('this_d_previous_time', NOW)


# ---------------------------------------------------------------- C28
@kernel('temperaturehistory__gettandgradt', 'C28', dims=(2,))
def _(k):
    k.tol = 1e-9
    k.more = 12
    nt, nx = I('this_d_times__n0'), I('this_d_positions__n0')
    ht, hx = I('this_d_temperatures__n0'), I('this_d_temperatures__n1')
    k.requires(ge(nt, 2), ge(nx, 2), eq(ht, nt), eq(hx, nx))
    S = k.samplers
    for n in ('times', 'positions'):
        S['this_d_%s__n0' % n] = lambda rng, env: rng.choice([2, 2, 3, 4, 5, 7])
    S['this_d_temperatures__n0'] = lambda rng, env: env['this_d_times__n0']
    S['this_d_temperatures__n1'] = lambda rng, env: env['this_d_positions__n0']

    def grid(rng, env, n):
        a = [rng.choice([0., -1., 2.5])]
        for _ in range(env['this_d_%s__n0' % n] - 1):
            a.append(a[-1] + rng.choice([1., .5, rng.uniform(.1, 2.)]))
        env['#' + n] = a
        x = rng.random()
        if x < .35:
            return rng.choice(a)
        if x < .5:
            return rng.choice([a[0] - .1, a[-1] + .1, a[0] + 1e-3, a[-1] - 1e-3])
        j = rng.randrange(len(a) - 1)
        return a[j] + (a[j + 1] - a[j]) * rng.choice([.5, .25, .75, rng.random()])
    S['time'] = lambda rng, env: grid(rng, env, 'times')
    S['position'] = lambda rng, env: grid(rng, env, 'positions')

    def dom(n):
        def f(rng, shape, env, arrays, dd):
            import numpy as np
            a = env.get('#' + n)
            return np.array(a[:shape[0]] if a and len(a) >= shape[0] else sorted(rng.random() for _ in range(shape[0])), dtype=float)
        return f
    k.doms['this_d_times'], k.doms['this_d_positions'] = dom('times'), dom('positions')
    k.doms['this_d_temperatures'] = (250., 900.)
    t, x = X('time'), X('position')
    ts, xs, h = k.arr('this_d_times'), k.arr('this_d_positions'), k.arr('this_d_temperatures')
    kt, kx = prefix(2, t, nt, lambda j: ts(j)), prefix(1, x, nx, lambda j: xs(j))
    i = kt - 1                                             # last instant not later than t
    p = kx - 1                                             # position strictly before x
    j = ite(gt(p, 0), p, ZERO)                             # (the first interval contains its left end)
    outside = lor(lor(lt(t, ts(0)), ge(i + 1, nt)), lor(lt(x, xs(0)), ge(j + 1, nx)))
    inside = lnot(outside)
    k.cases(gt(ts(0), t), ge(kt, nt), gt(xs(0), x), ge(kx, 1), ge(kx, 2), ge(kx, nx), ge(kx + 1, nx))
    tf = (t - ts(i)) / (ts(i + 1) - ts(i))
    xf = (x - xs(j)) / (xs(j + 1) - xs(j))

    def slope(m, q):
        return (h(m, q + 1) - h(m, q)) / (xs(q + 1) - xs(q))

    def lin(m):
        return (1 - xf) * h(m, j) + xf * h(m, j + 1)

    def grad(m):
        left = (R(1, 2) + xf) * slope(m, j) + (R(1, 2) - xf) * slope(m, j - 1)
        right = (R(3, 2) - xf) * slope(m, j) + (xf - R(1, 2)) * slope(m, j + 1)
        return ite(land(gt(j, 0), lt(xf, R(1, 2))), left,
                   ite(land(lt(j + 2, nx), gt(xf, R(1, 2))), right, slope(m, j)))
    k.result(ite(outside, ONE, ZERO))
    k.scalar('temperature', (1 - tf) * lin(i) + tf * lin(i + 1), cond=inside)
    k.scalar('gradt', (1 - tf) * grad(i) + tf * grad(i + 1), cond=inside)


# ---------------------------------------------------------------- C29
RGAS = R(8314472, 1000000)


def mob(k, pre='this_'):
    """samplers and accessors of the coefficient tables"""
    k.tol = 1e-9
    k.more = 4
    S = k.samplers
    q = pre + 'd_q'
    if k.has(q):
        S[q + '__n0'] = lambda rng, env: rng.choice([3, 3, 4])
        k.requires(ge(I(q + '__n0'), 3))
        e = q + '_extra'
        S[e + '__n0'] = lambda rng, env: rng.choice([0, env[q + '__n0']])
        k.requires(lor(eq(I(e + '__n0'), 0), eq(I(e + '__n0'), I(q + '__n0'))))
    for m in range(4):
        n = pre + 'd_qq%d' % m
        if k.has(n):
            for x in '01':
                S[n + '__n' + x] = lambda rng, env: 3
                k.requires(ge(I(n + '__n' + x), 3))

    def dom(lo, hi):
        def f(rng, shape, env, arrays, dd):
            import numpy as np
            a = np.empty(shape, order='F')
            ax = 1 if len(shape) == 2 or (pre != 'this_' and len(shape) == 3 and shape[1] == 2 and f.first) else 2
            for ix in np.ndindex(*shape):
                a[ix] = rng.uniform(.2, 3.) if ix[ax] == 1 and not f.extra else rng.uniform(lo, hi)
            return a
        f.first = f.extra = False
        return f
    k.doms[q] = dom(-3000., 3000.)
    k.doms[q].first = True
    k.doms[q + '_extra'] = dom(-3., 3.)
    k.doms[q + '_extra'].extra = True
    for m in range(4):
        k.doms[pre + 'd_qq%d' % m] = dom(-3000., 3000.)
    for n in ('temp', 'temperature'):
        if k.has(n):
            S[n] = lambda rng, env: rng.choice([300., 1000., rng.uniform(200., 1500.)])
            k.requires(gt(X(n), 0))
    for n in ('c0', 'c1', 'c2'):
        if k.has(n):
            S[n] = lambda rng, env: rng.choice([0., 1., .5, .25]) if rng.random() < .4 else rng.random()


class Mob:
    def __init__(self, k, pre, T, which=None):
        self.k, self.pre, self.T = k, pre, T
        self.w = () if which is None else (P(which),)

    def get(self, n, *idx):
        return read(self.pre + n, tuple(P(x) for x in idx) + self.w, 'R')

    def term(self, n, *idx):
        """a + R T ln b"""
        return self.get(n, *idx, 0) + RGAS * self.T * app('log', self.get(n, *idx, 1))

    def Q(self, i):
        T = self.T
        e = self.get('d_q_extra', i, 0) * T * app('log', T) + self.get('d_q_extra', i, 1) / T
        return self.term('d_q', i) + ite(eq(I(self.pre + 'd_q_extra__n0'), 0), ZERO, e)

    def QQ(self, m, i, j):
        return self.term('d_qq%d' % m, i, j)

    def dG2(self, a, b):
        d = a - b
        return a * self.Q(0) + b * self.Q(1) + a * b * sum((self.QQ(m, 0, 1) * d**m for m in range(4)), ZERO)

    def dG3(self, *c):
        r = sum((c[i] * self.Q(i) for i in range(3)), ZERO)
        for i in range(3):
            for j in range(i + 1, 3):
                r = r + c[i] * c[j] * (self.QQ(0, i, j) + (c[i] - c[j]) * self.QQ(1, i, j))
        return r

    def M(self, *c):
        g = self.dG2(*c) if len(c) == 2 else self.dG3(*c)
        return trans('exp', g / (RGAS * self.T)) / (RGAS * self.T)


C0, C1, C2, TT = X('c0'), X('c1'), X('c2'), X('temp')


def indices(k):
    for n in ('isp0', 'isp1'):
        if k.has(n):
            k.samplers[n] = lambda rng, env: rng.choice([0, 1, 2])
            k.requires(ge(I(n), 0), lt(I(n), 3))


@kernel('calphadmobility__getq', 'C29', dims=(2,))
def _(k):
    mob(k)
    indices(k)
    k.result(Mob(k, 'this_', X('temperature')).Q(I('isp0')))


for _m in range(4):
    @kernel('calphadmobility__getqq%d' % _m, 'C29', dims=(2,))
    def _(k, m=_m):
        mob(k)
        indices(k)
        k.result(Mob(k, 'this_', X('temperature')).QQ(m, I('isp0'), I('isp1')))


@kernel('calphadmobility__getdeltag_3', 'C29', dims=(2,))
def _(k):
    mob(k)
    k.result(Mob(k, 'this_', TT).dG2(C0, C1))


@kernel('calphadmobility__getdeltag_4', 'C29', dims=(2,))
def _(k):
    mob(k)
    k.result(Mob(k, 'this_', TT).dG3(C0, C1, C2))


@kernel('calphadmobility__getatomicmobility_3', 'C29', dims=(2,))
def _(k):
    mob(k)
    k.result(Mob(k, 'this_', TT).M(C0, C1))


@kernel('calphadmobility__getatomicmobility_4', 'C29', dims=(2,))
def _(k):
    mob(k)
    k.result(Mob(k, 'this_', TT).M(C0, C1, C2))


@kernel('calphadmobility__getatomicmobilitybinary', 'C29', dims=(2,))
def _(k):
    mob(k)
    k.result(Mob(k, 'this_', TT).M(C0, 1 - C0))


UM2 = R(10)**12


@kernel('computediffusionmobilitybinaryphase', 'C29', dims=(2,))
def _(k):
    p = 'calphad_mobilities_phase_'
    mob(k, p)
    n = p + '_count'
    k.samplers[n] = lambda rng, env: 2
    k.requires(eq(I(n), 2))
    a, b = (Mob(k, p, TT, i).M(C0, 1 - C0) for i in range(2))
    k.result(C0 * (1 - C0) * (C0 * b + (1 - C0) * a) * UM2)


@kernel('computediffusionmobilityternaryphase', 'C29', dims=(2,))
def _(k):
    p = 'calphad_mobilities_phase_'
    mob(k, p)
    n = p + '_count'
    k.samplers[n] = lambda rng, env: 3
    k.samplers['mobility__n0'] = lambda rng, env: rng.choice([4, 5])
    k.requires(eq(I(n), 3), ge(I('mobility__n0'), 4))
    c = [C0, C1, 1 - C0 - C1]
    m = [Mob(k, p, TT, i).M(*c) for i in range(3)]

    def L(a, b):
        d = lambda i, j: 1 if i == j else 0
        return sum(((d(s, a) - c[a]) * (d(s, b) - c[b]) * c[s] * m[s] for s in range(3)), ZERO) * UM2
    for q, (a, b) in enumerate(((0, 0), (0, 1), (1, 0), (1, 1))):
        k.out('mobility', [(P(q), P(q))], lambda i, a=a, b=b: L(a, b))
