"""Refinement tagging (C19), orientation transfer between levels (C20),
grain forces and the sintering right-hand side (C14, C06)."""
from contract import *
from specs.misc import grid


# ---------------------------------------------------------------- tagging
@kernel('tagfromgrads tagfromquatgrads', 'C19')
def _(k):
    k.box()
    h, q = grid(k, 'h'), 'q' if 'quat' in k.unit else ''
    g = k.dirs(q + 'grad{x}')
    if q:
        n = k.count('depth')
    g2 = lambda I: SumR(k.D, lambda d: (Sum(1, n, lambda m: (g[d](I, m) * h(d))**2) if q else (g[d](I) * h(d))**2))
    for p in ('g', 'd'):
        if k.has(p + 'lo0'):
            k.abox(p)
    k.abox('t')
    t = k.iarr('tags')
    k.out('tags', k.cells(), lambda *I: ite(ge(g2(Idx(I)), k.s('tolerance')**2), k.i('refine_tag_val'), t(I)))


# ---------------------------------------------------------------- coarsening and refinement
def ratios(k):
    """refinement ratios between 1 and 16"""
    r = k.iarr('ratio')
    k.arrfacts['ratio'] = lambda idx, v: [ge(v, 1), le(v, 16)]
    k.doms['ratio'] = lambda rng, shape, env, arrays, d: np.array([rng.choice([1, 2, 3, 4]) for _ in range(k.dim)]).reshape(shape)
    return r


@kernel('quatcoarsen', 'C20', cfgs=[{'depth': n, 'symmetry_aware': a} for n in (1, 2, 4) for a in (0, 1)])
def _(k):
    k.box(('ifirstc%d', 'ilastc%d'))
    n, r = k.cfg['depth'], ratios(k)
    k.symmetry(False)
    k.abox('ci')
    for d in k.D:
        f, l = 'filo%d' % d, 'fihi%d' % d
        lo, hi = k.bx[d]
        k.requires(le(var(f, 'I'), lo * r(d)), ge(var(l, 'I'), hi * r(d) + r(d) - 1))
        k.samplers[f] = lambda rng, env, n=k.bx[d][0]: min(4 * int(neval(n, NumEnv(env, {}, {}))), int(neval(n, NumEnv(env, {}, {}))))
        k.samplers[l] = lambda rng, env, n=k.bx[d][1]: max(4 * int(neval(n, NumEnv(env, {}, {}))) + 3, int(neval(n, NumEnv(env, {}, {}))))
    q, dxf, dxc = k.arr('qfine'), k.arr('dxf'), k.arr('dxc')
    sa = k.cfg['symmetry_aware']
    at = lambda I, J: Idx([I[d] * r(d) + J[d] for d in k.D])

    O = [ZERO] * k.dim

    def total(I, m):
        # the first fine cell is the reference, the others are rotated into its frame
        g = lambda J: (lambda s: q(at(I, J), s))
        al = lambda J: qrot(n, qfind(n, 0, g(O), g(J)), m, g(J))
        S = lambda f: SumBox([(ZERO, r(d) - 1) for d in k.D], f)
        return g(O)(m) - al(O) + S(al) if sa else S(lambda J: g(J)(m))
    vf, vc = const(1), const(1)
    for d in k.D:
        vf, vc = vf * dxf(d), vc * dxc(d)
    mean = lambda I: (lambda m: total(I, m) * vf / vc)
    for m in range(1, n + 1):
        k.out('qcoarse', k.cells() + [(const(m), const(m))], lambda *I, m=m: qnorm(n, m, mean(I[:-1])))


def floordiv(i, r):
    return ite(lt(i, 0), idiv(i + 1, r) - 1, idiv(i, r))


def coarse_pos(i, r, dxf, dxc):
    """lower coarse neighbour of fine cell i and relative position between
    that neighbour and the next"""
    c = floordiv(i, r)
    x = ((i - c * r + R(1, 2)) * dxf - dxc / 2) / dxc
    neg = lt(x, 0)
    return c, ite(neg, c - 1, c), ite(neg, x + 1, x)


@kernel('quatlinrefine2d quatlinrefine3d', 'C20', cfgs=[{'depth': n, 'r': r} for n in (1, 2, 4) for r in (2, 3, 4)])
def _(k):
    k.box(('ifirstf%d', 'ilastf%d'))
    k.bounded = 'truncated division of cell indices by the refinement ratio inside the interpolation weights'
    n, rr = k.cfg['depth'], k.cfg['r']
    r = lambda d: const(rr)
    k.fixarr['ratio'] = lambda i: rr
    k.doms['ratio'] = lambda rng, shape, env, arrays, d: np.array([rr] * k.dim).reshape(shape)
    k.symmetry(False)
    k.abox('fi')
    dxf, dxc = k.arr('dxf'), k.arr('dxc')
    for d in k.D:
        f, l = 'cilo%d' % d, 'cihi%d' % d
        lo, hi = k.bx[d]
        k.requires(le(var(f, 'I'), floordiv(lo, r(d)) - 1), ge(var(l, 'I'), floordiv(hi, r(d)) + 1))
        k.samplers[f] = lambda rng, env, n=k.bx[d][0]: min(-1, int(neval(n, NumEnv(env, {}, {})))) - 1
        k.samplers[l] = lambda rng, env, n=k.bx[d][1]: max(0, int(neval(n, NumEnv(env, {}, {})))) + 1
    q = k.arr('arrayc')

    def val(I):
        pos = [coarse_pos(I[d], r(d), dxf(d), dxc(d)) for d in k.D]
        ref = Idx([p[0] for p in pos])

        def corner(c):
            J = Idx([p[1] + e for p, e in zip(pos, c)])
            f = lambda s: q(J, s)
            return lambda m: qrot(n, qfind(n, 0, lambda s: q(ref, s), f), m, f)
        cs = [[]]
        for d in k.D:
            cs = [c + [e] for c in cs for e in (0, 1)]

        def v(m):
            t = ZERO
            for c in cs:
                w = const(1)
                for e, p in zip(c, pos):
                    w = w * (p[2] if e else 1 - p[2])
                t = t + w * corner(c)(m)
            return t
        return v
    for m in range(1, n + 1):
        k.out('arrayf', k.cells() + [(const(m), const(m))], lambda *I, m=m: qnorm(n, m, val(I[:-1])))


# ---------------------------------------------------------------- forces between grains
@kernel('phiphi_forces', 'C14')
def _(k):
    k.box()
    k.bounded = 'flat write index with products of the number of phases'
    k.ghost('pghosts', 1)
    n, h = k.count('nphases'), k.arr('dx')
    k.dom('dx', 0.5, 2.)
    phi, w, f = k.arr('phi'), k.arr('weight'), k.arr('forces')
    N = k.dim
    c = k.s('dgamma') * k.s('m')

    def v(j):
        a = idiv(j - 1, N * n)
        b = idiv(j - 1 - N * n * a, N)
        d = j - 1 - N * n * a - N * b
        a, b = a + 1, b + 1

        def dens(I, dd):
            return c * phi(I, a)**2 * phi(I, b) * (phi(I.p(dd), b) - phi(I.p(dd, -1), b)) / (2 * h(dd))
        t = SumR(k.D, lambda dd: eq(d, dd) * SumBox(k.cells(), lambda I: w(I) * dens(I, dd)))
        return f(j) + ite(eq(a, b), 0, t)
    k.out('forces', [(const(1), N * n * n)], v)


@kernel('wang_forces', 'C14')
def _(k):
    k.box()
    k.bounded = 'flat write index with products of the number of phases'
    k.ghost('pghosts', 1)
    k.ghost('ngc')
    n, nc, h = k.count('nphases'), k.count('nc'), k.arr('dx')
    k.dom('dx', 0.5, 2.)
    phi, w, f, co = k.arr('phi'), k.arr('weight'), k.arr('forces'), k.arr('conc')
    N = k.dim

    def v(j):
        a = idiv(j - 1, N * n)
        b = idiv(j - 1 - N * n * a, N)
        d = j - 1 - N * n * a - N * b
        a, b = a + 1, b + 1

        def dens(I, dd):
            pp = R(1, 2) + 10 * (phi(I, a) * phi(I, b) - k.s('cthreshold'))
            rho = minn(Sum(1, nc, lambda c: co(I, c)), 1)
            g = lambda p: (phi(I.p(dd), p) - phi(I.p(dd, -1), p)) / (2 * h(dd))
            return ite(gt(pp, 0), (rho - k.s('rhoe')) * interp(pp, 'p') * (g(a) - g(b)), 0)
        t = SumR(k.D, lambda dd: eq(d, dd) * SumBox(k.cells(), lambda I: w(I) * dens(I, dd)))
        return f(j) + ite(eq(a, b), 0, t)
    k.out('forces', [(const(1), N * n * n)], v)


@kernel('computerhs_wang_sintering', 'C06 C14')
def _(k):
    k.box()
    k.ghost('ngflux ngphi ngc ngrhs')
    n, h = k.count('norder'), grid(k)
    phi, c, fl = k.arr('phi'), k.arr('conc'), k.dirs('flux{d}')
    s2 = lambda I: Sum(1, n, lambda p: phi(I, p)**2)
    k.out('phi2sum', k.cells(), lambda *I: s2(Idx(I)))

    def rhs(*J):
        I, p = Idx(J[:-1]), J[-1]
        div = SumR(k.D, lambda d: (fl[d](I.p(d), p) - fl[d](I, p)) / h(d))
        f = phi(I, p)
        # derivative of 6 B [ c^2... ]: 12 B ((1-c) f - (2-c) f^2 + f sum f^2)
        return k.s('beta') * div - 12 * k.s('parameter_b') * ((1 - c(I)) * f - (2 - c(I)) * f**2 + s2(I) * f)
    k.out('rhs', k.cells() + [(const(1), n)], rhs)
