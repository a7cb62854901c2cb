"""Contracts: the specification language used by the files in specs/."""
import json, os, re, time
import numpy as np
from sym import *
import sym

HERE = os.path.dirname(os.path.abspath(__file__))
SIGS = json.load(open(os.path.join(HERE, 'sigs.json')))
CSIGS = json.load(open(os.path.join(HERE, 'csigs.json'))) if os.path.exists(os.path.join(HERE, 'csigs.json')) else {}
for _d in CSIGS:
    SIGS[_d].update(CSIGS[_d])
LAYOUT = json.load(open(os.path.join(HERE, 'layout.json'))) if os.path.exists(os.path.join(HERE, 'layout.json')) else {}
XYZ = 'xyz'

REG = []          # (maker, name, dims, cfgs, props)
LEMMAS = []       # (prop, name, fn)

# scalar functions of functions.f, verified against their own contracts (C01,
# C02, C10) and uninterpreted (but deterministic) at every call site
OPAQUE = ['interp_func', 'deriv_interp_func', 'second_deriv_interp_func', 'well_func', 'deriv_well_func',
          'second_deriv_well_func', 'average_func', 'deriv_average_func', 'interp_ratio_func',
          'compl_interp_ratio_func', 'deriv_triple_well_func', 'eval_grad_normi']


def kernel(names, props, dims=(2, 3), cfgs=({},), lang='f', **opt):
    def deco(fn):
        for n in names.split():
            REG.append((fn, n, dims, cfgs, tuple(props.split()), opt))
        return fn
    return deco


def lemma(props, name, **opt):
    def deco(fn):
        for p in props.split():
            LEMMAS.append((p, name, fn, opt))
        return fn
    return deco


class Idx(tuple):
    """a cell index; I.p(d,s) is the neighbour s cells away in direction d"""

    def p(self, d, s=1):
        l = list(self)
        l[d] = l[d] + s
        return Idx(l)


def flat(idx):
    out = []
    for x in idx:
        if isinstance(x, (tuple, list)):
            out.extend(flat(x))
        else:
            out.append(P(x))
    return tuple(out)


class Out:
    def __init__(self, arr, regions, label):
        self.arr, self.label = arr, label
        self.regions = regions       # list of (region, f, cond)


class K:
    """contract of one unit"""

    def __init__(self, unit, dim, cfg):
        self.unit, self.dim, self.cfg = unit, dim, dict(cfg)
        self.D = range(dim)
        sg = SIGS[str(dim)].get(unit) or SIGS['2'].get(unit)
        self.file, self.args = sg[0], list(sg[1])
        self.types = None
        self.req = []
        self.splits = []
        self.splitfor = {}         # the same for one output; may name its indices I0, I1, ..
        self.outs = {}
        self.samplers = {}         # name -> fn(rng, env) -> number
        self.doms = {}             # array/scalar name -> (lo,hi) or fn(rng,shape)
        self.sizes = {}            # assumed size arrays
        self.bounded = None        # reason why posts are only evaluated on executions
        self.fixed = {}
        self.fixarr = {}           # array name -> fn(index) -> value (configurations of array entries)
        self.strs = {}
        self.opaque = {n: True for n in OPAQUE if n != unit}
        self.opaquesub = {'prefix__': PrefixCount()}
        self.havoc = set()         # outputs with no functional postcondition (frame only)
        self.extra = []            # extra obligations: (label, fn(ver)->Result-like)
        self.funcs = {}
        self.rawfuncs = {}
        self.arrfacts = {}
        self.saves = None
        self.notes = []
        self.tol = 2e-6
        self.atol = 1e-12
        self.more = 1
        self.allocs = {}
        self.init = {}
        self.nofull = set()
        self.order = []

    # ---- names
    def a(self, alts, d=None):
        for n in alts.split('|'):
            if d is not None:
                n = n.replace('{x}', XYZ[d]).replace('{d}', str(d)).replace('{i}', 'ijk'[d])
            if n in self.args:
                return n
        raise KeyError('%s: none of %s in %s' % (self.unit, alts, self.args))

    def has(self, n):
        return n in self.args

    def arr(self, alts, d=None, sort='R'):
        n = self.a(alts, d)

        def acc(*idx):
            return read(n, flat(idx), sort)
        acc.arrname = n
        return acc

    def iarr(self, alts, d=None):
        return self.arr(alts, d, 'I')

    def dirs(self, alts, sort='R'):
        return [self.arr(alts, d, sort) for d in self.D]

    def s(self, alts):
        n = self.a(alts)
        return var(n, 'R')

    def i(self, alts, d=None):
        n = self.a(alts, d)
        if n in self.fixed:
            return P(self.fixed[n])
        return var(n, 'I')

    def isstr(self, n):
        m = (SIGS[str(self.dim)].get(self.unit) or [0, 0])[2:]
        m = m and m[0].get('members', {}).get(n)
        return isinstance(m, (list, tuple)) and m[0] == 'str'

    def st(self, alts):
        n = self.a(alts)
        return self.strs.get(n, 'sym:' + n)

    # ---- requires / sampling
    def requires(self, *cs):
        self.req.extend(cs)

    def cases(self, *cs):
        """prove each postcondition separately under every combination of
        these conditions and their negations (a hint, no assumption)"""
        self.splits.extend(cs)

    def int(self, alts, choices, d=None, lo=None, hi=None):
        n = self.a(alts, d)
        self.samplers[n] = lambda rng, env: rng.choice(choices)
        if lo is not None:
            self.requires(ge(var(n, 'I'), lo))
        if hi is not None:
            self.requires(le(var(n, 'I'), hi))
        return self.i(n)

    def flag(self, alts):
        n = self.a(alts)
        self.samplers[n] = lambda rng, env: rng.choice([0, 1])
        return self.i(n)

    def count(self, alts, choices=(1, 2, 3)):
        return self.int(alts, list(choices), lo=1)

    def choice(self, alts, vals):
        """a configuration integer restricted to a finite set"""
        n = self.a(alts)
        if n in self.fixed or n in self.cfg:
            return self.i(n)
        self.samplers[n] = lambda rng, env: rng.choice(list(vals))
        c = ZERO
        for v in vals:
            c = lor(c, eq(var(n, 'I'), v))
        self.requires(c)
        return self.i(n)

    def ghost(self, alts, need=0):
        for al in alts.split():
            n = self.a(al)
            self.samplers[n] = lambda rng, env, need=need: need + rng.choice([0, 0, 1, 2])
            self.requires(ge(var(n, 'I'), need))

    def dom(self, names, lo, hi):
        for n in names.split():
            for al in n.split(','):
                try:
                    self.doms[self.a(al)] = (lo, hi)
                except KeyError:
                    pass

    def pos(self, names, lo=0.3, hi=2.0):
        """positive scalars"""
        for n in names.split():
            n = self.a(n)
            self.doms[n] = (lo, hi)
            self.requires(gt0(var(n, 'R')))

    def box(self, kind=None, nmin=1, nmax=4):
        """the patch box: [(lo,hi)]*dim; non-empty"""
        forms = [('ifirst%d', 'ilast%d'), ('lo%d', 'hi%d')]
        if kind:
            forms = [kind]
        b = []
        for d in self.D:
            for f, l in forms:
                if f % d in self.args:
                    b.append((f % d, l % d))
                    break
            else:
                f, l = 'ijk'[d] + 'first', 'ijk'[d] + 'last'
                assert f in self.args, (self.unit, self.args)
                b.append((f, l))
        for f, l in b:
            self.samplers[f] = lambda rng, env: rng.randint(-3, 3)
            self.samplers[l] = lambda rng, env, f=f: env[f] + rng.randint(nmin - 1, nmax - 1)
            self.requires(le(var(f, 'I'), var(l, 'I') - (nmin - 1)))
        self.bx = [(var(f, 'I'), var(l, 'I')) for f, l in b]
        return self.bx

    def abox(self, pfx, lo=0, hi=0, form=None, side=None):
        """bounds <pfx>lo<d>/<pfx>hi<d> of an array that must cover the patch
        box grown by lo / hi cells (side: direction of a side-centred array)"""
        for d in self.D:
            f, l = (form or (pfx + 'lo{d}', pfx + 'hi{d}'))
            f, l = f.replace('{d}', str(d)).replace('{i}', 'ijk'[d]), l.replace('{d}', str(d)).replace('{i}', 'ijk'[d])
            assert f in self.args and l in self.args, (self.unit, f, l, self.args)
            x = hi + (1 if side == d else 0)
            blo, bhi = self.bx[d]
            self.requires(le(var(f, 'I'), blo - lo), ge(var(l, 'I'), bhi + x))
            self.samplers[f] = lambda rng, env, b=blo, lo=lo: int(neval(b, NumEnv(env, {}, {}))) - lo - rng.choice([0, 0, 1])
            self.samplers[l] = lambda rng, env, b=bhi, x=x: int(neval(b, NumEnv(env, {}, {}))) + x + rng.choice([0, 0, 1])

    def symmetry(self, iqs=True):
        """the unit calls the symmetry operations through their contracts;
        rotation index arrays hold valid positive indices"""
        self.opaquesub['quatsymmrotate'] = QSymmRotate()
        self.opaquesub['quatfindsymm'] = QFindSymm()
        if self.unit != 'quatnorm':
            self.opaquesub['quatnorm'] = QNorm()
        self.rawfuncs.update(qnorm=raw_qnorm, qrot=raw_qrot, qfind=raw_qfind, qconj=raw_qconj)
        depth = self.choice('depth', [1, 2, 4])
        for d in self.D:
            for n in ('iqrot_' + XYZ[d], 'rot_' + XYZ[d]):
                if iqs and n in self.args:
                    self.arrfacts[n] = lambda idx, v: [ge(v, 1), le(v, nrot(depth))]
                    self.doms[n] = lambda rng, shape, env, arrays, dd: np.array(
                        [rng.randint(1, NROT[env['depth']]) for _ in range(int(np.prod(shape)))]).reshape(shape)
        return depth

    # ---- regions
    def cells(self, grow=0):
        return [(lo - grow, hi + grow) for lo, hi in self.bx]

    def sides(self, d, grow=0):
        return [(lo - grow, hi + grow + (1 if k == d else 0)) for k, (lo, hi) in enumerate(self.bx)]

    def nodes(self):
        return [(lo, hi + 1) for lo, hi in self.bx]

    # ---- postconditions
    def out(self, alts, region, f, d=None, label=None, cond=ONE, when=None):
        """value of an output over a region; cond: global condition under
        which it is claimed; when(*idx): pointwise condition (unspecified
        elsewhere in the region)"""
        n = self.a(alts, d)
        if when is not None:
            g = f
            f = lambda *I: g(*I)
            f.when = when
        o = self.outs.get(n)
        if o is None:
            o = self.outs[n] = Out(n, [], label or n)
        o.regions.append((region, f, cond))

    def outif(self, alts, region, c, f, d=None):
        """value f where c holds, unchanged elsewhere in the region"""
        old = self.arr(alts, d)
        self.out(alts, region, lambda *I: ite(c(*I), f(*I), old(*I)), d)

    def scalar(self, alts, v, label=None, cond=ONE):
        self.out(alts, [], lambda: v, label=label, cond=cond)

    def result(self, f, cond=ONE):
        o = self.outs.setdefault('<result>', Out('<result>', [], 'result'))
        o.regions.append(([], lambda: f, cond))

    def sample(self, names, vals, lo=None, hi=None):
        """scalar inputs: special values mixed with uniform ones"""
        for n in names.split():
            n = self.a(n)
            self.samplers[n] = lambda rng, env: rng.choice(vals) if (lo is None or rng.random() < 0.4) else rng.uniform(lo, hi)

    def old(self, alts, *idx):
        return self.arr(alts)(*idx)

    # ---- postconditions that come from the contract of a called kernel
    def use(self, callee, bind=None, cfg=None, when=None, cond=ONE, post=True, skip=(), prev=None, each=None):
        """this unit's preconditions and results are those of the kernel
        `callee`, with its arguments bound as in `bind`:
          scalar formal -> number, polynomial, name of an argument, or a character
          array formal  -> function of the kernel's subscripts, or
                           name of an array whose last subscript is a 0-based
                           component, or (name, function of the kernel's
                           subscripts giving this array's subscripts, or 'each')
        each: the kernel is called for every component m = 0..each-1; arrays
        bound as (name, 'each') are component m of the named array.
        Formals not bound stand for the argument of the same name. prev gives
        the values arrays of this unit hold when the kernel is called."""
        bnd = {}
        M = var('each~', 'I')
        Mi = atom_of(M).id
        for n, v in (bind or {}).items():
            alts = n.split('|')
            l = [x for x in alts if x in SIGS[str(self.dim)].get(callee, SIGS['2'].get(callee))[1]]
            assert l or len(alts) > 1, (callee, n)
            for x in l[:1]:
                bnd[x] = v
        bind = bnd
        reg = [(fn, opt) for fn, n, dims, cfgs, props, opt in REG
               if self.dim in dims and callee in [n, n.replace('{n}', str(self.dim))]]
        assert reg, 'no contract for ' + callee
        c2 = dict(cfg or {})
        for n, v in bind.items():
            if isinstance(v, str) and len(v) == 1:
                c2[n] = v
            elif isinstance(v, int) and not isinstance(v, bool):
                c2.setdefault(n, v)
            elif isinstance(v, str) and self.isstr(v):
                c2[n] = self.st(v)
        k2 = build(reg[0][0], callee, self.dim, c2, reg[0][1])
        scal, arrs, simple, fns = {}, {}, {}, {}
        D = self.dim
        for n in k2.args:
            v = bind.get(n, n if n in self.args else None)
            if v is None and re.match(r'^(lo|hi)[012]$', n):
                v = {'lo': 'ifirst', 'hi': 'ilast'}[n[:2]] + n[2]
            if v is None:
                continue
            t = k2.arr(n).arrname
            if callable(v) and not isinstance(v, Poly):
                fns[n] = v
            elif isinstance(v, tuple):
                arrs[n] = v
            elif isinstance(v, str) and len(v) == 1 and n in c2:
                pass
            elif isinstance(v, str):
                assert v in self.args, (self.unit, v, self.args)
                if self.rank_of(v):
                    arrs[n] = (v, None)
                else:
                    simple[n] = v
                    w = P(self.fixed[v]) if v in self.fixed else var(v, self.sort_of(v))
                    scal[var(n, 'I').id if not isinstance(var(n, 'I'), Poly) else atom_of(var(n, 'I')).id] = w
                    scal[atom_of(var(n, 'R')).id] = w
            else:
                scal[atom_of(var(n, 'I')).id] = P(v)
                scal[atom_of(var(n, 'R')).id] = P(v)

        def tr(n, idx):
            m, g = arrs[n]
            if g == 'each':
                return m, tuple(idx) + (M,)
            if g is not None:
                return m, flat(g(*idx))
            r = self.rank_of(m)
            if len(idx) == r - 1:
                return m, tuple(idx) + (ZERO,)
            assert len(idx) == r, (self.unit, n, m, len(idx), r)
            return m, tuple(idx[:-1]) + (idx[-1] - 1,)

        def rd(n, idx, sort):
            if n in fns:
                return P(fns[n](*idx))
            if n not in arrs and n in self.args and n not in k2.args:
                return read(n, idx, sort)
            if n not in arrs:
                raise KeyError('%s: array argument %s of %s is not bound' % (self.unit, n, callee))
            m, ix = tr(n, idx)
            if prev and m in prev:
                return P(prev[m](*ix))
            return read(m, ix, sort)

        def mp(x):
            return remap(P(x), scal, rd, {})
        self.req.extend(mp(c) for c in k2.req)
        self.splits.extend(mp(c) for c in k2.splits)
        self.opaquesub.update(k2.opaquesub)
        self.rawfuncs.update(k2.rawfuncs)
        self.funcs.update(k2.funcs)
        for n in k2.opaque:
            self.opaque[n] = True
        self.tol, self.atol, self.more = max(self.tol, k2.tol), max(self.atol, k2.atol), max(self.more, k2.more)
        self.bounded = self.bounded or k2.bounded

        class View(dict):
            pass

        def env2(env):
            e = View(env)
            for n in k2.args:
                if n in simple and simple[n] in env:
                    e[n] = env[simple[n]]
                elif n in scal_of:
                    try:
                        e[n] = neval(scal_of[n], NumEnv(env, {}, {}))
                    except Exception:
                        pass
            return e
        scal_of = {n: scal[atom_of(var(n, 'I')).id] for n in k2.args if atom_of(var(n, 'I')).id in scal}
        for n, s in k2.samplers.items():
            m = simple.get(n)
            if m and m not in self.samplers and m not in self.fixed:
                self.samplers[m] = lambda rng, env, s=s: s(rng, env2(env))
        for n, d in k2.doms.items():
            m = simple.get(n) or (arrs[n][0] if n in arrs else None)
            if m and m not in self.doms:
                self.doms[m] = d if isinstance(d, tuple) else (
                    lambda rng, shape, env, arrays, dd, d=d: d(rng, shape, env2(env), arrays, dd))
        for n, h in k2.arrfacts.items():
            if n in arrs:
                self.arrfacts[arrs[n][0]] = lambda idx, v, h=h: [mp(x) for x in h(idx, v)]
        for n in k2.havoc:
            if n in arrs:
                self.havoc.add(arrs[n][0])
        if not post:
            return mp
        for n, o in k2.outs.items():
            if n in skip:
                continue
            for region, f, c in o.regions:
                w = getattr(f, 'when', None)
                if n in arrs:
                    m, g = arrs[n]
                    nr = len(region)
                    Js = [var('J~%d' % q, 'I') for q in range(nr)]
                    R0 = [tuple(mp(x) for x in b) for b in region]
                    todo = [({}, ())]
                    E_ = tr(n, tuple(Js))[1]
                    free = {atom_of(j).id: q for q, j in enumerate(Js)}
                    # subscripts that only occur mixed with others are enumerated
                    plain = {}
                    for q2, e in enumerate(E_):
                        ds = [free[x] for x in e.deps() if x in free]
                        if len(ds) == 1 and not ((e - Js[ds[0]]).deps() & free.keys()):
                            plain.setdefault(ds[0], (q2, e - Js[ds[0]]))
                    combos = [{}]
                    for q in range(nr):
                        if q not in plain:
                            lo, hi = [int(x.cval()) for x in R0[q]]
                            combos = [dict(c0, **{q: v}) for c0 in combos for v in range(lo, hi + 1)]
                    for cb in combos:
                        sb = {atom_of(Js[q]).id: const(v) for q, v in cb.items()}
                        R_, ms = [], None
                        for q2, e in enumerate(E_):
                            e = subst(e, sb)
                            ds = [free[x] for x in e.deps() if x in free]
                            if ds and plain[ds[0]][0] == q2:
                                c0 = e - Js[ds[0]]
                                R_.append((R0[ds[0]][0] + c0, R0[ds[0]][1] + c0))
                            elif each is not None and Mi in e.deps():
                                assert e.id == M.id if hasattr(e, 'id') else e == M
                                ms = q2
                                R_.append((ZERO, P(each) - 1))
                            elif not ds:
                                R_.append((e, e))
                            else:
                                raise KeyError('%s: output %s of %s cannot be placed' % (self.unit, n, callee))

                        def back(J, cb=cb, plain=plain, nr=nr):
                            return tuple(const(cb[q]) if q in cb else P(J[plain[q][0]]) - plain[q][1] for q in range(nr))

                        def f2(*J, f=f, back=back, ms=ms):
                            v = mp(f(*back(J)))
                            return v if ms is None else subst(v, {Mi: P(J[ms])})
                        w2 = None
                        if w is not None or when is not None:
                            def w2(*J, w=w, back=back, ms=ms):
                                a = mp(w(*back(J))) if w is not None else ONE
                                a = a if ms is None else subst(a, {Mi: P(J[ms])})
                                return a if when is None else land(a, when(*J))
                        self.out(m, R_, f2, when=w2, cond=land(cond, mp(c)))
                elif n in simple:
                    self.scalar(simple[n], mp(f()), cond=land(cond, mp(c)))
        return mp

    def rank_of(self, n):
        d = SIGS[str(self.dim)][self.unit][2]['vars'][n][1]
        return len(d) if d else 0

    def sort_of(self, n):
        t = SIGS[str(self.dim)][self.unit][2]['vars'][n][0]
        return 'I' if t in ('I', 'L') else 'R'

    def ensures(self, label, fn):
        """extra obligation; fn(V) -> sym.Result (V: verify.Verifier)"""
        self.extra.append((label, fn))


def _idx(J, D):
    J = list(J)
    return [Idx(J[:D])] + J[D:] if len(J) >= D else J


def remap(p, scal, rd, memo):
    """rename variables (scal: atom id -> Poly) and array reads (rd) in p"""
    r = ZERO
    for m, c in p.t.items():
        f = const(c)
        for a, e in m:
            at = sym._byid[a]
            v = memo.get(a)
            if v is None:
                v = memo[a] = _remap_atom(at, scal, rd, memo)
            f = f * (v ** e)
        r = r + f
    return r


def _remap_atom(at, scal, rd, memo):
    if at.kind == 'v':
        return scal.get(at.id, P(at))

    def go(x):
        if isinstance(x, Poly):
            return remap(x, scal, rd, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    if at.kind == 'S':
        binders, body, base = at.args
        fr = [fresh('s', 'I') for _ in binders]
        ren = {bvar(base + k).id: fr[k] for k in range(len(binders))}
        r = remap(subst(body, ren), scal, rd, {})
        for k in range(len(binders)):
            lo, hi, st = [go(subst(x, ren)) for x in binders[k]]
            r = summ(fr[k], lo, hi, r, st)
        return r
    if at.kind == 'r':
        n, idx = at.args
        return rd(n, go(idx), at.sort)
    return sym.rebuild(at, [go(x) for x in at.args])


# ------------------------------------------------ symmetry operations
NROT = {1: 9, 2: 4, 4: 48}


def vlevel(*ps):
    m = 699
    for p in ps:
        for a in p.deps():
            n = sym.atom(a).args[0]
            if n.startswith('#') and 700 <= int(n[1:]) < 800:
                m = max(m, int(n[1:]))
    return m + 1


def vec(f, *more):
    """the vector k -> f(k), as a term with a bound variable"""
    u = fresh('k')
    p = P(f(u))
    return p, u


def vec1(depth, f):
    """vector of depth components; a scalar has component 1 only"""
    return vec((lambda u: f(ONE)) if P(depth) == ONE else f)


def vclose(ps, us):
    l = vlevel(*ps)
    return [subst(p, {sym.atom_of(u).id: P(sym.bvar(l))}) for p, u in zip(ps, us)]


def nrot(depth):
    return SumR(NROT, lambda d: NROT[d] * eq(depth, d))


def qrot(depth, iq, k, f):
    """component k of the vector f(1..depth) rotated by symmetry operation iq"""
    p, u = vec1(depth, f)
    return app('qrot', depth, iq, k, vclose([p], [u])[0])


def qconj(depth, iq):
    return app('qconj', depth, iq, sort='I')


def qfind(depth, iq, f1, f2):
    p, u = vec1(depth, f1)
    q, v = vec1(depth, f2)
    return app('qfind', depth, iq, *vclose([p, q], [u, v]), sort='I')


sym.FACTS['qfind'] = lambda d, iq, a, b: [ge(app('qfind', d, iq, a, b, sort='I'), 1),
                                          le(app('qfind', d, iq, a, b, sort='I'), nrot(d))]
sym.FACTS['qconj'] = lambda d, iq: [ge(qconj(d, iq), 1), le(qconj(d, iq), nrot(d))]


class QSymmRotate:
    """contract of quatsymmrotate( q, iq, q_prime, qlen ) as used by callers;
    its body is verified against it under C05"""
    writes = {1, 2}
    keeps_positive = {1}

    def depth(self, E, s, pt, ctx):
        return E.evi(s.a[1][3], pt, ctx)

    def extent(self, E, i, s, pt, ctx):
        return self.depth(E, s, pt, ctx) if i in (0, 2) else ONE

    def pre(self, E, s, pt, ctx):
        d = self.depth(E, s, pt, ctx)
        iq = E.evi(s.a[1][1], pt, ctx)
        return [(lor(eq(d, 1), lor(eq(d, 2), eq(d, 4))), 'number of components is 1, 2 or 4'),
                (land(lnot(eq(iq, 0)), le(iq, nrot(d)), ge(iq, -nrot(d))), 'rotation index in range')]

    def vec(self, E, a, s, pt, ctx, d):
        from vc import Unsupported
        u = fresh('k')
        c = ctx.assume(ge(u, 1)).assume(le(u, d))
        if a[0] == 'name':
            D = E.dims(pt.frame, a[1])
            if len(D) != 1:
                raise Unsupported('vector argument')
            v = ONE if d == ONE else u
            return E.val(pt.frame, a[1], (v + D[0][0] - 1,), pt, c), u
        if a[0] == 'idx':
            base = [E.evi(x, pt, ctx) for x in a[2]]
            v = ONE if d == ONE else u
            return E.val(pt.frame, a[1], tuple([base[0] + v - 1] + base[1:]), pt, c), u
        raise Unsupported('vector argument')

    def value(self, E, i, k, s, pt, ctx):
        d = self.depth(E, s, pt, ctx)
        iq = E.evi(s.a[1][1], pt, ctx)
        c = ge(iq, 1)
        dec = ctx.decide(c)
        if dec is not True:
            iq = ite(c, iq, qconj(d, -iq))
        if i == 1:
            return iq
        v, u = self.vec(E, s.a[1][0], s, pt, ctx, d)
        return app('qrot', d, iq, k[0], vclose([v], [u])[0])


class QFindSymm(QSymmRotate):
    """quatfindsymm( q1, q2, iq, q2_prime, qlen )"""
    writes = {2, 3}
    keeps_positive = ()

    def depth(self, E, s, pt, ctx):
        return E.evi(s.a[1][4], pt, ctx)

    def extent(self, E, i, s, pt, ctx):
        return self.depth(E, s, pt, ctx) if i != 2 else ONE

    def pre(self, E, s, pt, ctx):
        d = self.depth(E, s, pt, ctx)
        return [(lor(eq(d, 1), lor(eq(d, 2), eq(d, 4))), 'number of components is 1, 2 or 4')]

    def value(self, E, i, k, s, pt, ctx):
        d = self.depth(E, s, pt, ctx)
        a = s.a[1]
        iq = E.evi(a[2], pt, ctx)
        p, u = self.vec(E, a[0], s, pt, ctx, d)
        q, v = self.vec(E, a[1], s, pt, ctx, d)
        n = app('qfind', d, iq, *vclose([p, q], [u, v]), sort='I')
        if i == 2:
            return n
        return app('qrot', d, n, k[0], vclose([q], [v])[0])


class QNorm(QSymmRotate):
    """quatnorm( q, qlen ): q divided by its length, scalars unchanged"""
    writes = {0}
    keeps_positive = ()

    def depth(self, E, s, pt, ctx):
        return E.evi(s.a[1][1], pt, ctx)

    def extent(self, E, i, s, pt, ctx):
        return self.depth(E, s, pt, ctx) if i == 0 else ONE

    def pre(self, E, s, pt, ctx):
        d = self.depth(E, s, pt, ctx)
        return [(lor(eq(d, 1), lor(eq(d, 2), eq(d, 4))), 'number of components is 1, 2 or 4')]

    def value(self, E, i, k, s, pt, ctx):
        d = self.depth(E, s, pt, ctx)
        v, u = self.vec(E, s.a[1][0], s, pt, ctx, d)
        return v if d == ONE else app('qnorm', d, k[0], vclose([v], [u])[0])


def qnorm(depth, k, f):
    """component k of the vector f(1..depth) divided by its length"""
    p, u = vec1(depth, f)
    return p if P(depth) == ONE else app('qnorm', depth, k, vclose([p], [u])[0])


# ------------------------------------------------ search loops
CMP = {1: gt, 2: ge, 3: lt, 4: le}


def prefix(op, x, n, f):
    """number of leading elements of f(0), ..., f(n-1) with x op f(j)"""
    p, u = vec(f)
    return app('prefix', x, op, n, vclose([p], [u])[0], sort='I')


def _prefix_facts(x, op, n, f):
    K = app('prefix', x, op, n, f, sort='I')
    own = sym.bvar(min(sym.freevec(f))).id if sym.freevec(f) else None
    at = lambda j: subst(f, {own: P(j)}) if own else f
    C = lambda j: CMP[int(op.cval())](x, at(j))
    return [ge(K, 0), lor(lt(n, 0), le(K, n)), lor(ge(K, 1), lor(le(n, 0), lnot(C(0))))]


sym.FACTS['prefix'] = _prefix_facts


def _prefix_eval(env, x, op, n, f):
    x, o, n = neval(x, env), int(op.cval()), int(neval(n, env))
    nm = '#%d' % min(sym.freevec(f)) if sym.freevec(f) else '#x'
    old = env.bound.get(nm)
    K = 0
    while K < n:
        env.bound[nm] = K
        t = neval(f, env)
        if not (x > t if o == 1 else x >= t if o == 2 else x < t if o == 3 else x <= t):
            break
        K += 1
    if old is None:
        env.bound.pop(nm, None)
    else:
        env.bound[nm] = old
    return K


sym.LAZY['prefix'] = _prefix_eval
sym.VECFUNS['prefix'] = 3


class PrefixCount:
    """for (t : a) if (x op t) count++; else break;"""
    writes = {0}
    keeps_positive = ()

    def extent(self, E, i, s, pt, ctx):
        return ONE

    def pre(self, E, s, pt, ctx):
        return []

    def value(self, E, i, k, s, pt, ctx):
        a = s.a[1]
        u = fresh('k')
        n = E.evi(a[3], pt, ctx)
        c = ctx.assume(ge(u, 0)).assume(lt(u, n))
        p = E.val(pt.frame, a[2][1], (u,), pt, c)
        return E.evi(a[0], pt, ctx) + app('prefix', E.ev(a[1], pt, ctx)[0], int(a[4][1]), n, vclose([p], [u])[0], sort='I')


def raw_qnorm(lib, smap):
    import ctypes

    def h(env, d, k, f):
        n, kk = int(neval(d, env)), int(neval(k, env))
        a = (ctypes.c_double * n)(*lazyvec(env, f, n))
        getattr(lib.get(), 'quatnorm_')(a, ctypes.byref(ctypes.c_int(n)))
        return a[kk - 1]
    h.lazy = True
    return h


def lazyvec(env, f, d):
    """values 1..d of a vector term"""
    l = vlevel(f) - 1
    nm = '#%d' % max(l, 700)
    old = env.bound.get(nm)
    out = []
    for m in range(1, d + 1):
        env.bound[nm] = m
        out.append(neval(f, env))
    if old is None:
        env.bound.pop(nm, None)
    else:
        env.bound[nm] = old
    return out


def raw_qrot(lib, smap):
    import ctypes

    def h(env, d, iq, k, f):
        n, i, kk = int(neval(d, env)), int(neval(iq, env)), int(neval(k, env))
        v = lazyvec(env, f, n)
        a = (ctypes.c_double * n)(*v)
        o = (ctypes.c_double * n)()
        getattr(lib.get(), 'quatsymmrotate_')(a, ctypes.byref(ctypes.c_int(i)), o, ctypes.byref(ctypes.c_int(n)))
        return o[kk - 1]
    h.lazy = True
    return h


def raw_qfind(lib, smap):
    import ctypes

    def h(env, d, iq, f, g):
        n, i = int(neval(d, env)), int(neval(iq, env))
        l = max(vlevel(f, g) - 1, 700)
        nm = '#%d' % l
        va, vb = [], []
        old = env.bound.get(nm)
        for m in range(1, n + 1):
            env.bound[nm] = m
            va.append(neval(f, env))
            vb.append(neval(g, env))
        env.bound.pop(nm, None)
        if old is not None:
            env.bound[nm] = old
        a = (ctypes.c_double * n)(*va)
        b = (ctypes.c_double * n)(*vb)
        o = (ctypes.c_double * n)()
        q = ctypes.c_int(i)
        getattr(lib.get(), 'quatfindsymm_')(a, b, ctypes.byref(q), o, ctypes.byref(ctypes.c_int(n)))
        return q.value
    h.lazy = True
    return h


def raw_qconj(lib, smap):
    import ctypes

    def h(d, i):
        n = int(d)
        q = ctypes.c_int(-int(i))
        a = (ctypes.c_double * n)(*([1.0] + [0.] * (n - 1)))
        o = (ctypes.c_double * n)()
        getattr(lib.get(), 'quatsymmrotate_')(a, ctypes.byref(q), o, ctypes.byref(ctypes.c_int(n)))
        return q.value
    return h


# ---------------------------------------------------------------- helpers
def F(f, *args):
    return app(f, *args)


def interp(phi, t):
    return app('interp_func', phi, t)


def dinterp(phi, t):
    return app('deriv_interp_func', phi, t)


def well(phi, t):
    return app('well_func', phi, t)


def dwell(phi, t):
    return app('deriv_well_func', phi, t)


def avg(a, b, t):
    return app('average_func', a, b, t)


def Sum(lo, hi, f):
    u = fresh('k')
    return summ(u, lo, hi, f(u))


def SumBox(box, f):
    vs = [fresh('k') for _ in box]
    r = f(Idx(vs))
    for v, (lo, hi) in zip(vs, box):
        r = summ(v, lo, hi, r)
    return r


def SumR(n, f):
    r = ZERO
    for k in n:
        r = r + f(k)
    return r


R = Fraction


class LemmaEnv:
    """obligations that relate contracts to each other"""

    def __init__(self, units, build, tmp, limit):
        self.units, self.build, self.tmp, self.limit = units, build, tmp, limit
        self.obls = []

    def add(self, label, r, t0, detail=''):
        st = 'proved' if r else ('undecided' if r is None or getattr(r, 'why', '') == 'budget' else 'refuted')
        if r is not None and not r and isinstance(r, Result) and r.resid is not None:
            detail = 'residual %s under %s' % (show(r.resid, 12), [show(f) for f in r.ctx.facts])
        self.obls.append(('lemma', label, st, detail[:1500], time.time() - t0, 1))

    def eq(self, label, a, b, facts=()):
        t0 = time.time()
        self.add(label, zero(P(a) - P(b), Ctx().assume_all(facts)), t0)

    def holds(self, label, cond, facts=()):
        t0 = time.time()
        self.add(label, prove(cond, Ctx().assume_all(facts)), t0, show(P(cond), 12))

    def done(self, **kw):
        return self.obls, None, kw

    def program(self, name, sources, main):
        """an executable made of real C++ sources and a driver; None if it
        does not compile"""
        import subprocess, tempfile, cxx
        d = tempfile.mkdtemp(dir=self.tmp)
        f = os.path.join(d, name + '.cc')
        open(f, 'w').write(main)
        exe = os.path.join(d, name)
        src = cxx.SRC
        r = subprocess.run(['g++', '-std=c++17', '-O1', '-w', '-DNDEBUG', '-DNDIM=2', '-I' + src, '-I' + cxx.STUBS, f] +
                           [os.path.join(src, x) for x in sources] + ['-o', exe], capture_output=True, text=True)
        if r.returncode:
            self.note = 'driver of %s does not compile: %s' % (name, r.stderr[-600:])
            return None
        return exe

    def run(self, exe, text):
        import subprocess
        try:
            r = subprocess.run([exe], input=text, capture_output=True, text=True, timeout=60, cwd=os.path.dirname(exe))
        except subprocess.TimeoutExpired:
            return None, 'does not terminate within 60 s'
        if r.returncode:
            return None, 'exit status %d' % r.returncode
        return r.stdout.split('\n'), None


class Mismatch(Exception):
    def __init__(self, output, inp, got, want):
        self.v = dict(output=output, input=inp, got=got, expected=want)


def bounded(props, name, **opt):
    """a bounded stand-in: the real functions run on generated inputs against
    a model written from the property; never counted as proved.
    fn(env, rng, check) returns the number of cases"""
    def deco(fn):
        def run(env):
            import random
            env.note = None
            seed = int(os.environ.get('VERIF_SEED', '1'))
            n, v = 0, None
            mult = 1 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 10
            cnt = [0]

            def chk(cond, output, inp, got, want):
                cnt[0] += 1
                if not cond:
                    raise Mismatch(output, inp, got, want)
            try:
                n = fn(env, random.Random(seed), chk, mult)
            except Mismatch as e:
                v = e.v
            obls = [('bounded', name, 'undecided', 'bounded: %d executions%s' % (n or 0, '; ' + env.note if env.note else ''), 0, 1)]
            return obls, v, dict(evals=cnt[0], runs=n or 0, notes=[env.note] if env.note else [])
        LEMMAS.append((props, name, run, opt))
        return fn
    return deco


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1., abs(a), abs(b)) or (a != a and b != b)


def build(fn, unit, dim, cfg, opt):
    k = K(unit, dim, cfg)
    k.strs = {a: v for a, v in cfg.items() if isinstance(v, str)}
    k.fixed = {a: v for a, v in cfg.items() if isinstance(v, int) and a[0] != '_'}
    for n, v in k.fixed.items():
        k.samplers[n] = lambda rng, env, v=v: v
    fn(k)
    for n, v in k.fixed.items():
        k.samplers.setdefault(n, lambda rng, env, v=v: v)
    for n in k.args:
        if n not in k.samplers and n not in k.fixed and re.match(r'^(ng.*|ncp|.*ghosts?|(flux|dc|rhs|sf|m|soln|residual|accum)g[ijk])$', n):
            k.ghost(n, 0)
        if n not in k.samplers and n not in k.fixed and re.match(r'^nd_', n):
            # number of components of a patch data object
            k.int(n, (1, 1, 2), lo=1)
        if n.endswith('_id') and n not in k.samplers and n not in k.fixed:
            # patch data ids are distinct
            k.samplers[n] = lambda rng, env, q=10 + k.args.index(n): q
            k.requires(ge(var(n, 'I'), 0))
        if n not in k.samplers and n not in k.fixed and re.match(r'^(touch|has)_', n):
            k.samplers[n] = lambda rng, env: rng.choice([0, 1])
            k.requires(lor(eq(var(n, 'I'), 0), eq(var(n, 'I'), 1)))
    return k


def all_contracts():
    """list of (unit, dim, cfg, props, thunk)"""
    out = []
    for fn, n, dims, cfgs, props, opt in REG:
        for d in dims:
            name = n.replace('{n}', str(d))
            if name not in SIGS[str(d)]:
                continue
            cc = cfgs(d) if callable(cfgs) else cfgs
            for c in cc:
                out.append((name, d, c, props, (lambda fn=fn, name=name, d=d, c=c, opt=opt: build(fn, name, d, c, opt)), opt))
    return out


def extend(units):
    """data members the current code of a C++ unit newly uses become further
    inputs of its contract: results must not depend on them"""
    for d, us in units.items():
        for name, u in us.items():
            g = SIGS[str(d)].get(name)
            if not g or not g[0].endswith('.cc') or not getattr(u, 'srcfile', '').endswith('.cc'):
                continue
            m = g[2]
            G = m['members']
            new = [n for n in u.args if n in u.members and n not in G]
            if not new or [n for n in u.args if n not in u.members] != [n for n in g[1] if n not in G]:
                continue
            if not all(isinstance(u.members[n], str) or u.members[n][0] in ('pd', 'str') for n in new):
                continue
            pds, gpds = getattr(u, 'pds', None) or {}, m.get('pds') or {}
            srcs = [list(p['src']) for p in gpds.values()]
            np = {q: p for q, p in pds.items() if q not in gpds}
            if any(list(p['src']) in srcs for p in np.values()) or any(p['arrs'] != gpds[q]['arrs'] for q, p in pds.items() if q in gpds):
                continue
            if any(n in g[1] for n in new):
                continue
            mm = cxx_meta(u)
            m = dict(m, members=dict(G, **{n: u.members[n] for n in new}),
                     vars=dict(m['vars'], **{n: mm['vars'][n] for n in new}), pds=dict(gpds, **{q: mm['pds'][q] for q in np}) or None)
            SIGS[str(d)][name] = [g[0], list(g[1]) + new, m]


def cxx_meta(u):
    import cxx
    return json.loads(json.dumps(cxx.meta(u)))


def align(k, u):
    """C++ units: parameters match by position, data members by name; members
    the current code no longer (or newly) uses are added where missing.
    Returns False when the signatures do not match"""
    if u is None or not getattr(u, 'srcfile', '').endswith('.cc'):
        return u is not None
    G = SIGS[str(k.dim)][k.unit][2]['members']
    gm = [n for n in k.args if n in G]
    gp = [n for n in k.args if n not in G]
    up = [n for n in u.args if n not in u.members and n not in G]
    if len(gp) != len(up):
        return False
    for n in u.members:
        if n not in gm:
            return False
    g = SIGS[str(k.dim)][k.unit][2]['vars']
    for n in gm:
        if n not in u.vars:
            v = u.var(n)
            v.type, v.dims = g[n][0], None
            if g[n][1] is not None and n[:2] == 'p_':
                import cxx
                v.dims = [tuple(cxx.undo(x) for x in p) for p in g[n][1]]
    u.args = up + gm
    return True
