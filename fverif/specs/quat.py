"""quat.f: quaternion algebra (C04)."""
from contract import *


def mult(a, b, n=4):
    """Hamilton product of 1-based component functions"""
    if n == 2:
        return [a(1) * b(1) - a(2) * b(2), a(1) * b(2) + a(2) * b(1)]
    eps = {(2, 3): 4, (3, 4): 2, (4, 2): 3}
    r = [a(1) * b(1) - a(2) * b(2) - a(3) * b(3) - a(4) * b(4)]
    for c in (2, 3, 4):
        v = a(1) * b(c) + a(c) * b(1)
        for (x, y), z in eps.items():
            if z == c:
                v = v + a(x) * b(y) - a(y) * b(x)
        r.append(v)
    return r


def nsq(a, n=4):
    return SumR(range(1, n + 1), lambda i: a(i)**2)


def vecout(k, name, comps):
    for i, c in enumerate(comps):
        k.out(name, [(const(i + 1), const(i + 1))], lambda *I, c=c: c)


TINY = R(1, 10**15)


def normed(a, n=4):
    m = sqrt(nsq(a, n))
    return lambda i: ite(lt(m, TINY), 0, a(i) / m)


def dimn(k):
    return 2 if k.unit.rstrip('_').endswith('2') else 4


DOM = dict(dims=(2,))


@kernel('quatcopy4 quatcopy2', 'C04', **DOM)
def _(k):
    n = dimn(k)
    a = k.arr('q1')
    vecout(k, 'q2', [a(i) for i in range(1, n + 1)])


@kernel('quatswap quatswap2', 'C04', **DOM)
def _(k):
    n = dimn(k)
    a, b = k.arr('q1'), k.arr('q2')
    vecout(k, 'q2', [a(i) for i in range(1, n + 1)])
    vecout(k, 'q1', [b(i) for i in range(1, n + 1)])


@kernel('quatadd quatadd2 quatsub4 quatsub2', 'C04', **DOM)
def _(k):
    n = dimn(k)
    a, b = k.arr('q1'), k.arr('q2')
    s = -1 if 'sub' in k.unit else 1
    vecout(k, 'q', [a(i) + s * b(i) for i in range(1, n + 1)])


@kernel('quatmult4 quatmult2', 'C04', **DOM)
def _(k):
    vecout(k, 'q', mult(k.arr('q1'), k.arr('q2'), dimn(k)))


@kernel('quatconj quatconj2', 'C04', **DOM)
def _(k):
    n = dimn(k)
    a = k.arr('q1')
    vecout(k, 'q2', [a(1)] + [-a(i) for i in range(2, n + 1)])


@kernel('quatmagn4 quatmagn2', 'C04', **DOM)
def _(k):
    k.scalar('m', sqrt(nsq(k.arr('q'), dimn(k))))


@kernel('quatmagsq4 quatmagsq2', 'C04', **DOM)
def _(k):
    k.scalar('msq', nsq(k.arr('q'), dimn(k)))


@kernel('quatmaginv4 quatmaginv2', 'C04', **DOM)
def _(k):
    m = sqrt(nsq(k.arr('q'), dimn(k)))
    k.scalar('minv', ite(lt(m, TINY), 0, 1 / m))


@kernel('quatnorm4 quatnorm2', 'C04', **DOM)
def _(k):
    n = dimn(k)
    f = normed(k.arr('q'), n)
    vecout(k, 'q', [f(i) for i in range(1, n + 1)])


@kernel('quatnorm', 'C04', dims=(2,), cfgs=[{'qlen': 1}, {'qlen': 2}, {'qlen': 4}])
def _(k):
    n = k.cfg['qlen']
    a = k.arr('q')
    f = normed(a, n) if n > 1 else a
    vecout(k, 'q', [f(i) for i in range(1, n + 1)])


@kernel('quatset quatset2', 'C04', **DOM)
def _(k):
    n = 2 if k.unit == 'quatset2' else 4
    c = [k.s(x) for x in ('xy' if n == 2 else 'wxyz')]
    f = normed(lambda i: c[i - 1], n)
    vecout(k, 'q', [f(i) for i in range(1, n + 1)])


def chord2(a, b, n):
    fa, fb = normed(a, n), normed(b, n)
    return SumR(range(1, n + 1), lambda i: (fb(i) - fa(i))**2)


@kernel('quatdiffsq4 quatdiffsq2', 'C04', **DOM)
def _(k):
    k.scalar('dsq', chord2(k.arr('q1'), k.arr('q2'), dimn(k)))


@kernel('quatrotatediffsq4 quatrotatediffsq2', 'C04', **DOM)
def _(k):
    n = dimn(k)
    r = mult(k.arr('q2'), k.arr('qr'), n)
    vecout(k, 'q2_prime', r)
    k.scalar('dsq', chord2(k.arr('q1'), lambda i: r[i - 1], n))


@kernel('quatdiffabs1', 'C04', **DOM)
def _(k):
    k.scalar('q_diff', absx(k.s('q2') - k.s('q1')))


@kernel('quatrotatediffabs1', 'C04', **DOM)
def _(k):
    k.scalar('q2_prime', k.s('q2') + k.s('qr'))
    k.scalar('qdabs', absx(k.s('q2') + k.s('qr') - k.s('q1')))


@kernel('quatangl quatangl2', 'C04', **DOM)
def _(k):
    d = k.s('d')
    k.sample('d', [0., 2., 2.5], 0., 2.)
    k.scalar('theta', (2 if k.unit.endswith('2') else 4) * app('asin', d / 2), cond=le(d, 2))


def rotmat(q):
    """column j = vector part of q e_j conj(q)"""
    qc = lambda i: q(1) if i == 1 else -q(i)
    R_ = {}
    for j in (1, 2, 3):
        e = lambda i, j=j: ONE if i == j + 1 else ZERO
        t = mult(q, e)
        v = mult(lambda i: t[i - 1], qc)
        for i in (1, 2, 3):
            R_[i, j] = v[i]
    return R_


def cplx(q):
    return {(i, j): {(1, 1): q(1), (2, 1): q(2), (1, 2): -q(2), (2, 2): q(1), (3, 3): ONE}.get((i, j), ZERO)
            for i in (1, 2, 3) for j in (1, 2, 3)}


def matout(k, name, M):
    for (i, j), v in M.items():
        k.out(name, [(const(i), const(i)), (const(j), const(j))], lambda *I, v=v: v)


@kernel('quatrotationmatrix', 'C04', **DOM)
def _(k):
    matout(k, 'matrixr', rotmat(k.arr('q')))


@kernel('complexrotationmatrix', 'C04', **DOM)
def _(k):
    matout(k, 'matrixr', cplx(k.arr('q')))


@kernel('derivquatrotationmatrixdq derivcomplexrotationmatrixdq', 'C04', **DOM)
def _(k):
    n = 2 if 'complex' in k.unit else 4
    q = k.arr('q')
    v = [var('w%d' % i, 'R') for i in range(1, n + 1)]
    M = (cplx if n == 2 else rotmat)(lambda i: v[i - 1])
    back = {atom_of(v[i]).id: q(i + 1) for i in range(n)}
    for (i, j), e in M.items():
        for c in range(n):
            d = subst(diff(e, atom_of(v[c]).id), back)
            k.out('matrixdrdq', [(const(x), const(x)) for x in (i, j, c + 1)], lambda *I, d=d: d)


@kernel('rotationtensorijkl', 'C04', **DOM)
def _(k):
    ix = [k.choice(n, [1, 2, 3]) for n in 'ijkl']
    M = k.arr('matrixr')
    k.result(SumR((1, 2, 3), lambda m: M(ix[0], m) * M(ix[1], m) * M(ix[2], m) * M(ix[3], m)))


@lemma('C04', 'quaternion algebra')
def _(env):
    for n in (2, 4):
        a, b, c = [(lambda i, x=x: var('%s%d' % (x, i), 'R')) for x in 'abc']
        ab = mult(a, b, n)
        f = lambda v: (lambda i: v[i - 1])
        env.eq('%d: norm is multiplicative' % n, nsq(f(ab), n), nsq(a, n) * nsq(b, n))
        l, r = mult(f(ab), c, n), mult(a, f(mult(b, c, n)), n)
        cj = lambda i: a(1) if i == 1 else -a(i)
        ac = mult(a, cj, n)
        for i in range(n):
            env.eq('%d: associative, component %d' % (n, i + 1), l[i], r[i])
            env.eq('%d: q conj(q) = |q|^2, component %d' % (n, i + 1), ac[i], nsq(a, n) if i == 0 else 0)
        g = normed(a, n)
        env.eq('%d: normalised quaternion has unit length' % n, nsq(g, n), 1, [ge(sqrt(nsq(a, n)), TINY), gt0(nsq(a, n))])
    a, b = [(lambda i, x=x: var('%s%d' % (x, i), 'R')) for x in 'ab']
    A, B = rotmat(a), rotmat(b)
    AB = rotmat(lambda i: mult(a, b)[i - 1])
    for i in (1, 2, 3):
        for j in (1, 2, 3):
            env.eq('R(q) R(q)^T = |q|^4 I (%d,%d)' % (i, j), SumR((1, 2, 3), lambda m: A[i, m] * A[j, m]), nsq(a)**2 if i == j else 0)
            env.eq('R(q p) = R(q) R(p) (%d,%d)' % (i, j), AB[i, j], SumR((1, 2, 3), lambda m: A[i, m] * B[m, j]))
    return env.done()
