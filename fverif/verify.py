"""Discharges the obligations of one contract against the real code and, when
one fails, looks for a failing input by running the real code."""
import ctypes, json, os, pickle, random, signal, sys, time, traceback
import numpy as np
from sym import *
import sym
from vc import Engine, Frame, Pt, Unsupported, Ctx0, expr_calls, INTRIN
from fparse import FError
import contract


class Timeout(Exception):
    pass


class Obl:
    def __init__(self, unit, kind, label, status, detail='', t=0.0, ctx=None, resid=None):
        self.unit, self.kind, self.label, self.status = unit, kind, label, status
        self.detail, self.t, self.ctx, self.resid = detail, t, ctx, resid


def lit(c):
    return c


def deser(b, fixed):
    r = sym.const(0)
    for c, m in b:
        t = sym.const(sym.Fraction(c))
        for n, e in m:
            for _ in range(e):
                t = t * (sym.const(fixed[n]) if n in fixed else var(n, 'I'))
        r = r + t
    return r


class Verifier:
    def __init__(self, k, units, limit=100, what=('post', 'frame', 'bounds', 'stop')):
        self.k, self.units, self.limit, self.what = k, units, limit, what
        self.obls = []
        self.unit = units.get(k.unit)
        self.E = None

    # ------------------------------------------------------------ symbolic
    def setup(self):
        k, u = self.k, self.unit
        if u is None:
            raise Unsupported('unit %s not found' % k.unit)
        if len(u.args) != len(k.args):
            raise Unsupported('signature of %s changed' % k.unit)
        E = Engine(self.units, opaque=k.opaque, opaquesub=k.opaquesub, strs=k.strs, conf=k.fixed)
        E.argmap = dict(zip(u.args, k.args))
        E.fixarr = k.fixarr
        self.cur = dict(zip(k.args, u.args))
        if k.saves:
            E.savestate = k.saves
        self.E = E
        sym.ARRFACTS.clear()
        sym.ARRFACTS.update(k.arrfacts)
        self.fr = Frame(u)
        self.ctx = Ctx().assume_all(k.req)

    def golden(self, cn):
        """bounds of array argument cn as the callers allocate it"""
        d = contract.LAYOUT.get(str(getattr(self.k, 'dim', 0)), {}).get(self.k.unit, {}).get(self.E.argmap.get(cn))
        if d is None or getattr(self.k, 'layout_exempt', False):
            return None
        return [tuple(None if b is None else deser(b, self.k.fixed) for b in p) for p in d]

    def alloc(self, cn):
        g = self.golden(cn)
        self.E.steps = 0
        return g if g is not None else self.E.dims(self.fr, cn)

    def layout(self):
        """each array argument is declared with the bounds its callers allocate"""
        for cn in self.unit.args:
            v = self.unit.vars[cn]
            if v.dims is None or v.type == 'S':
                continue
            g = self.golden(cn)
            if g is None:
                continue
            cur = self.E.dims(self.fr, cn)
            t0 = time.time()
            ok = len(cur) == len(g)
            bad = ''
            if ok:
                for q, (a, b) in enumerate(zip(cur, g)):
                    for x, y in zip(a, b):
                        if x is None or y is None:
                            continue
                        if x == y:
                            continue
                        if self.ctx.decide(eq(x, y)) is not True:
                            ok = False
                            bad = 'dimension %d: declared %s, allocated %s' % (q + 1, show(x), show(y))
            else:
                bad = 'rank %d, allocated with rank %d' % (len(cur), len(g))
            self.add('layout', '%s: declared bounds' % cn, 'proved' if ok else 'undecided', bad, time.time() - t0)

    def add(self, kind, label, status, detail='', t=0.0, ctx=None, resid=None):
        self.obls.append(Obl(self.k.unit, kind, label, status, detail, t, ctx, resid))

    def guarded(self, kind, label, fn):
        t0 = time.time()
        if getattr(self, 'E', None) is not None:
            self.E.steps = 0                  # the budget is per obligation
        try:
            r = fn()
            if r is None:
                return
            st = 'proved' if r else ('undecided' if r.why == 'budget' else 'refuted')
            d = ''
            if not r:
                d = 'residual under %s: %s' % ([show(f) for f in r.ctx.facts] if r.ctx else '', show(r.resid, 12) if r.resid is not None else '')
            self.add(kind, label, st, d[:2000], time.time() - t0, r.ctx, r.resid)
        except Timeout:
            self.add(kind, label, 'undecided', 'time limit', time.time() - t0)
            raise
        except (Unsupported, SymError, FError) as e:
            self.add(kind, label, 'undecided', 'out of reach: %s' % e, time.time() - t0)
        except RecursionError:
            self.add(kind, label, 'undecided', 'recursion', time.time() - t0)
        except z3.Z3Exception as e:
            self.add(kind, label, 'undecided', 'z3: %s' % e, time.time() - t0)

    def run(self):
        def onalarm(*a):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, self.limit)
        try:
            try:
                self.setup()
            except (Unsupported, SymError, FError) as e:
                self.add('setup', self.k.unit, 'undecided', str(e))
                return
            # vacuity guard
            if not self.ctx.feasible():
                self.add('vacuity', 'precondition satisfiable', 'error', 'contradictory requires')
                return
            if 'post' in self.what:
                self.posts()
                for label, fn in self.k.extra:
                    self.guarded('post', label, lambda: fn(self))
            self.layout()
            if 'frame' in self.what:
                self.frames()
            if 'bounds' in self.what:
                self.bounds()
        except Timeout:
            self.add('limit', self.k.unit, 'undecided', 'time limit of %ds for the unit' % self.limit)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def resultname(self, n):
        return self.unit.result if n == '<result>' else self.cur[n]

    def idxvars(self, n):
        return Idx([var('I%d' % d, 'I') for d in range(n)])

    Idx = None

    def value(self, name, idx, ctx=None):
        return self.E.val(self.fr, self.resultname(name), tuple(idx), self.fr.end, ctx or self.ctx)

    def rank(self, name):
        if name == '<result>':
            return 0
        v = self.unit.vars[self.cur[name]]
        return 0 if v.dims is None else len(v.dims)

    def posts(self):
        k = self.k
        for n, o in k.outs.items():
            r = self.rank(n)
            for q, (region, f, cond) in enumerate(o.regions):
                idx = contract.Idx([var('I%d' % d, 'I') for d in range(r)])
                assert len(region) == r, (k.unit, n, len(region), r)
                lab = '%s: value' % o.label + (' (part %d)' % (q + 1) if len(o.regions) > 1 else '')
                if k.bounded:
                    self.add('post', lab, 'undecided', 'bounded: ' + k.bounded)
                    continue

                def go(idx=idx, f=f, n=n, cond=cond):
                    # the contract's own case distinction: every combination
                    # of the named conditions and their negations
                    cs = [self.ctx]
                    splits = k.splits + k.splitfor.get(n, [])
                    for c in splits:
                        nx = []
                        for c2 in cs:
                            d = c2.decide(c)
                            nx += [c2] if d is not None else [c2.assume(c), c2.assume(lnot(c))]
                        cs = [c2 for c2 in nx if c2.feasible()]
                    some = not splits
                    for c2 in cs:
                        if splits:
                            cd = sym.decided(P(cond), c2)
                            if c2.decide(cd) is False or not (c2.assume(cd) if cd is not ONE else c2).feasible():
                                continue
                            some = True
                        else:
                            cd = cond
                        r = one(c2, idx, f, n, cd)
                        if not r:
                            return r
                    return Result(True) if some else Result(False, 'vacuous', self.ctx, ONE)

                def one(base, idx, f, n, cond):
                    ctx = base if cond is ONE else base.assume(cond)
                    for x, (lo, hi) in zip(idx, region):
                        ctx = ctx.assume(ge(x, lo)).assume(le(x, hi))
                    if not ctx.feasible():
                        return Result(False, 'vacuous', ctx, ONE)
                    ix = []
                    consts = []
                    for x, (lo, hi) in zip(idx, region):
                        lo_, hi_ = P(lo), P(hi)
                        if lo_ == hi_:
                            consts.append([lo_])
                        elif lo_.isconst() and hi_.isconst() and hi_.cval() - lo_.cval() <= 8:
                            consts.append([const(c) for c in range(int(lo_.cval()), int(hi_.cval()) + 1)])
                        else:
                            consts.append([x])
                    import itertools
                    for comb in itertools.product(*consts):
                        c2 = base if cond is ONE else base.assume(cond)
                        for y, (lo, hi) in zip(comb, region):
                            c2 = c2.assume(ge(y, lo)).assume(le(y, hi))
                        w = getattr(f, 'when', None)
                        if w is not None:
                            c2 = c2.assume(w(*comb))
                            if not c2.feasible():
                                continue
                        want = P(f(*comb))
                        got = self.value(n, comb, c2)
                        if k.splits or n in k.splitfor:
                            got, want = sym.decided(got, c2), sym.decided(want, c2)
                        r_ = zero(got - want, c2)
                        if not r_:
                            return r_
                    return Result(True)
                self.guarded('post', lab, go)

    def frames(self):
        """every dummy argument that may be written keeps its old value
        outside the regions the contract lists"""
        k, u = self.k, self.unit
        try:
            w = self.E.unit_writes(u)
        except Unsupported as e:
            self.add('frame', 'frame', 'undecided', str(e))
            return
        if '*' in w:
            self.add('frame', 'frame', 'undecided', 'unsupported statement')
            return
        for cn in u.args:
            n = self.E.argmap[cn]
            if cn not in w:
                continue
            v = u.vars[cn]
            if v.type == 'S' or n in k.havoc:
                continue
            o = k.outs.get(n)
            r = self.rank(n)
            sort = 'I' if v.type == 'I' else 'R'
            idx = contract.Idx([var('I%d' % d, 'I') for d in range(r)])
            if r == 0:
                if o is None:
                    self.guarded('frame', '%s: unchanged' % n,
                                 lambda n=n: zero(self.value(n, ()) - var(n, sort), self.ctx))
                elif all(c is not ONE for _, _, c in o.regions):
                    c2 = self.ctx.assume_all([lnot(c) for _, _, c in o.regions])
                    if c2.feasible():
                        self.guarded('frame', '%s: unchanged otherwise' % n,
                                     lambda n=n, c2=c2: zero(self.value(n, (), c2) - var(n, sort), c2))
                continue

            def go(n=n, cn=cn, o=o, idx=idx, sort=sort):
                dims = self.E.dims(self.fr, cn)
                base = self.ctx
                for x, (lo, hi) in zip(idx, dims):
                    if lo is not None:
                        base = base.assume(ge(x, lo))
                    if hi is not None:
                        base = base.assume(le(x, hi))
                regs = [] if o is None else o.regions
                ctxs = [base]
                for region, f, cond in regs:
                    new = []
                    for c in ctxs:
                        if cond is not ONE:
                            d = c.decide(lnot(cond))
                            if d is True:
                                new.append(c)
                                continue
                            if d is None:
                                c2 = c.assume(lnot(cond))
                                if c2.feasible():
                                    new.append(c2)
                                c = c.assume(cond)
                        for x, (lo, hi) in zip(idx, region):
                            for out in (lt(x, lo), gt(x, hi)):
                                if c.decide(out) is False:
                                    continue
                                c2 = c.assume(out)
                                if c2.feasible():
                                    new.append(c2)
                            c = c.assume(ge(x, lo)).assume(le(x, hi))
                            if not c.feasible():
                                break
                    ctxs = new
                    if len(ctxs) > 400:
                        raise Unsupported('frame too large')
                for c in ctxs:
                    got = self.value(n, idx, c)
                    r_ = zero(got - read(n, idx, sort), c)
                    if not r_:
                        return r_
                return Result(True)
            self.guarded('frame', '%s: nothing else written' % n, go)

    # ------------------------------------------------------------ bounds
    def bounds(self):
        self.seen = set()
        self.nb = 0
        self.bfail = {}
        self.bstop = 0
        t0 = time.time()
        try:
            self.walk(self.unit.body, ('U', self.fr), self.ctx, 0)
        except (Unsupported, SymError, FError, RecursionError) as e:
            self.add('bounds', 'array bounds (partial, %d proved)' % self.nb, 'undecided', 'out of reach: %s' % e)
            self.nb_done = False
            return
        for lab, (st, ctx, d) in self.bfail.items():
            self.add('bounds' if not lab.startswith('stop') and not lab.startswith('call') else lab[:4], lab, st, d, 0, ctx, ONE)
        if self.nb:
            o = Obl(self.k.unit, 'bounds', 'array subscripts in bounds (%d)' % self.nb, 'proved', t=time.time() - t0)
            o.n = self.nb
            self.obls.append(o)
        if self.bstop:
            o = Obl(self.k.unit, 'stop', 'error exits unreachable (%d)' % self.bstop, 'proved')
            o.n = self.bstop
            self.obls.append(o)

    def require_in(self, cond, ctx, lab):
        key = (cond, ctx)
        if key in self.seen:
            return
        self.seen.add(key)
        d = ctx.decide(cond)
        if d is True:
            self.nb += 1
            return
        if not ctx.feasible():
            return
        c2 = ctx.assume(lnot(cond))
        if not c2.feasible():
            self.nb += 1
            return
        # once more without the facts that divide
        class Light:
            facts = [f for f in ctx.facts if not sym.hasP(f)]
            lit_simplify = staticmethod(lambda c: c)
        if len(Light.facts) < len(ctx.facts) and sym.prove(cond, Light, 3000) is True:
            self.nb += 1
            return
        # quantified / opaque subscripts may simply be out of the solver's reach
        st = 'refuted'
        self.bfail.setdefault(lab, (st, c2, 'cannot show %s' % show(cond)))

    def refs(self, e, pt, ctx):
        if not isinstance(e, tuple) or not e:
            return
        k = e[0]
        if k == 'idx':
            n, args = e[1], e[2]
            for a in args:
                self.refs(a, pt, ctx)
            fr = pt.frame
            v = fr.unit.vars.get(n)
            if v is not None and v.dims is not None:
                self.subscript(fr, n, args, pt, ctx)
                return
            if v is not None and v.type == 'S':
                return
            if n in fr.unit.stmtfuncs or n in self.E.opaque or n in INTRIN:
                return
            cu = self.units.get(n)
            if cu is not None and cu.kind == 'function':
                cf = self.E.frame_for(cu, pt, args)
                self.walk(cu.body, ('U', cf), ctx, 0)
            return
        if k in ('num', 'str', 'name', 'log'):
            return
        for x in e[1:]:
            if isinstance(x, tuple):
                self.refs(x, pt, ctx)
            elif isinstance(x, list):
                for y in x:
                    self.refs(y, pt, ctx)

    def subscript(self, fr, n, args, pt, ctx):
        E = self.E
        dims = E.dims(fr, n)
        if len(dims) != len(args):
            raise Unsupported('rank of ' + n)
        for q, (a, (lo, hi)) in enumerate(zip(args, dims)):
            if a[0] == 'num' and a[-1] == 'section':
                continue                        # start of a (possibly empty) array section passed on
            lab = '%s(%s) subscript %d in bounds, %s line %d' % (n, '', q + 1, fr.unit.name, self.line)
            if a[0] == 'slice':
                l = E.evi(a[1], pt, ctx) if a[1] is not None else lo
                h = E.evi(a[2], pt, ctx) if a[2] is not None else hi
                if l is lo and h is hi:
                    continue
                c = ctx.assume(le(l, h))
                if not c.feasible():
                    continue
                if lo is not None:
                    self.require_in(ge(l, lo), c, lab)
                if hi is not None:
                    self.require_in(le(h, hi), c, lab)
                continue
            x = E.evi(a, pt, ctx)
            if lo is not None:
                self.require_in(ge(x, lo), ctx, lab)
            if hi is not None:
                self.require_in(le(x, hi), ctx, lab)

    def walk(self, block, owner, ctx, depth):
        E = self.E
        for q, s in enumerate(block):
            pt = Pt(block, q, owner)
            self.line = s.line
            if s.op == 'assign':
                n, ix, rhs = s.a
                self.refs(rhs, pt, ctx)
                if ix is not None:
                    for a in ix:
                        self.refs(a, pt, ctx)
                    fr = pt.frame
                    v = fr.unit.vars.get(n)
                    if v is not None and v.dims is not None:
                        self.subscript(fr, n, ix, pt, ctx)
            elif s.op == 'if':
                c, a, b = s.a
                self.refs(c, pt, ctx)
                cv = E.evb(c, pt, ctx)
                d = ctx.decide(cv)
                if d is not False:
                    c1 = ctx.assume(cv)
                    if d or c1.feasible():
                        self.walk(a, ('I', s, pt, 1), c1, depth)
                if d is not True:
                    c2 = ctx.assume(lnot(cv))
                    if d is False or c2.feasible():
                        self.walk(b, ('I', s, pt, 2), c2, depth)
            elif s.op == 'do':
                v, lo, hi, st, body = s.a
                for e in (lo, hi, st):
                    if e is not None:
                        self.refs(e, pt, ctx)
                l, h, d = E.loop_bounds(s, pt, ctx)
                if l.isconst() and h.isconst() and d.isconst() and 0 <= (h.cval() - l.cval()) // d.cval() < 8:
                    x = int(l.cval())
                    for _ in range(int((h.cval() - l.cval()) // d.cval()) + 1):
                        self.walk(body, ('L', s, pt, const(x)), ctx, depth)
                        x += int(d.cval())
                    continue
                u = fresh('u')
                if d.isconst() and d.cval() < 0:
                    c2 = ctx.assume(le(u, l)).assume(ge(u, h))
                else:
                    c2 = ctx.assume(ge(u, l)).assume(le(u, h))
                if not (d.isconst() and abs(d.cval()) == 1):
                    c2 = c2.assume(eq(modx(u - l, d), 0))
                if c2.feasible():
                    self.walk(body, ('L', s, pt, u), c2, depth)
            elif s.op == 'call':
                n, args = s.a
                for a in args:
                    if a[0] != 'name':
                        self.refs(a, pt, ctx)
                if n in E.opaquesub:
                    o = E.opaquesub[n]
                    for cond, lab in o.pre(E, s, pt, ctx):
                        d = ctx.decide(cond)
                        if d is True or not ctx.assume(lnot(cond)).feasible():
                            self.nb += 1
                        else:
                            self.bfail.setdefault('call: precondition of %s (%s), line %d' % (n, lab, s.line),
                                                  ('refuted', ctx.assume(lnot(cond)), show(cond)))
                    for i, a in enumerate(args):
                        ext = o.extent(E, i, s, pt, ctx)
                        if a[0] == 'idx' and ext is not None and E.is_array(pt.frame, a[1]):
                            D = E.dims(pt.frame, a[1])
                            x = E.evi(a[2][0], pt, ctx)
                            if D[0][1] is not None:
                                self.require_in(le(x + ext - 1, D[0][1]), ctx, 'extent of %s passed to %s, line %d' % (a[1], n, s.line))
                        elif a[0] == 'name' and ext is not None and E.is_array(pt.frame, a[1]):
                            D = E.dims(pt.frame, a[1])
                            if len(D) == 1 and D[0][1] is not None:
                                self.require_in(le(ext, D[0][1] - D[0][0] + 1), ctx, 'extent of %s passed to %s, line %d' % (a[1], n, s.line))
                else:
                    cu = self.units.get(n)
                    if cu is None:
                        raise Unsupported('call to unknown ' + n)
                    cf = E.frame_for(cu, pt, args)
                    for i, a in enumerate(args):
                        dv = cu.vars[cu.args[i]]
                        if dv.dims is not None and a[0] in ('name', 'idx') and E.is_array(pt.frame, a[1]):
                            dd = E.dims(cf, cu.args[i])
                            D = E.dims(pt.frame, a[1])
                            if len(dd) == 1 and dd[0][1] is not None and D[0][1] is not None:
                                x = E.evi(a[2][0], pt, ctx) if a[0] == 'idx' else D[0][0]
                                self.require_in(le(x + dd[0][1] - dd[0][0], D[0][1]), ctx,
                                                'extent of %s passed to %s, line %d' % (a[1], n, s.line))
                    self.walk(cu.body, ('U', cf), ctx, depth + 1)
            elif s.op == 'stop':
                if ctx.feasible():
                    self.bfail.setdefault('stop: error exit unreachable, %s line %d' % (pt.frame.unit.name, s.line),
                                          ('refuted', ctx, 'reachable'))
                else:
                    self.bstop += 1
                return
            else:
                raise Unsupported('%s at line %d' % (s.op, s.line))


# ---------------------------------------------------------------- numeric

class LazyEnv(dict):
    """samples an input another one depends on when it is first needed"""

    def __missing__(self, n):
        if not self.can(n):
            raise KeyError(n)
        self[n] = None
        self[n] = self.make(n)
        return self[n]

    def __reduce__(self):
        return (dict, (dict(self),))


class Lib:
    def __init__(self, path):
        self.path = path
        self.lib = None

    def get(self):
        if self.lib is None:
            self.lib = ctypes.CDLL(self.path)
        return self.lib

    def fn(self, name, restype=ctypes.c_double):
        f = getattr(self.get(), name + '_')
        f.restype = restype
        return f

    def scalar(self, name, *args, restype=ctypes.c_double):
        """call a scalar function with doubles / strings / ints"""
        a, tail = [], []
        for x in args:
            if isinstance(x, str):
                a.append(ctypes.c_char_p(x.encode()))
                tail.append(ctypes.c_size_t(len(x)))
            elif isinstance(x, (int, np.integer)) and not isinstance(x, bool) and restype is ctypes.c_int:
                a.append(ctypes.byref(ctypes.c_int(int(x))))
            else:
                a.append(ctypes.byref(ctypes.c_double(float(x))))
        return self.fn(name, restype)(*a, *tail)


STRS = [('well', ['double', 'single']), ('avg', ['a', 'h']), ('floor', ['s', 't', 'm']), ('diff_type', ['p', 'l']),
        ('type1', ['p', 'q']), ('type2', ['p', 'q']),
        ('type', ['p', 'q', 'h', 'l'])]


class Bad(Exception):
    pass


def gen(k, unit, dimsof, rng, forced=None):
    """random inputs satisfying the precondition; returns (env, arrays, strs)"""
    forced = forced or {}
    for attempt in range(300):
        env = LazyEnv()
        env.make = lambda n: forced[n] if n in forced else k.samplers[n](rng, env)
        env.can = lambda n: n in forced or n in k.samplers
        strs = dict(k.strs)
        for cn, n in zip(unit.args, k.args):
            v = unit.vars[cn]
            if v.type == 'S' and n not in strs:
                for key, ch in STRS:
                    if key in n:
                        strs[n] = rng.choice(getattr(k, 'strsample', {}).get(n, ch))
                        break
                else:
                    strs[n] = 'p'
        order = [n for n in k.samplers if n in k.args] + [n for n in k.args if n not in k.samplers]
        for n in order:
            cn = unit.args[k.args.index(n)]
            v = unit.vars[cn]
            if v.type == 'S' or v.dims is not None:
                continue
            if n in env:
                continue
            if n in forced:
                env[n] = forced[n]
            elif n in k.samplers:
                env[n] = k.samplers[n](rng, env)
            elif v.type == 'I':
                if n.startswith('ng') or 'ghost' in n or n.endswith(('gi', 'gj', 'gk')):
                    env[n] = rng.choice([0, 0, 1])
                else:
                    env[n] = rng.choice([0, 1])
            elif v.type == 'L':
                env[n] = rng.choice([0, 1])
            else:
                lo, hi = k.doms.get(n, (0.3, 1.7))
                env[n] = rng.uniform(lo, hi)
        ne = NumEnv(env, {}, {})
        arrays = {}
        ok = True
        try:
            reqs = [c for c in k.req]
            late = []
            for c in reqs:
                if any(sym.atom(a).kind == 'r' or has_read(c) for a in c.atoms()):
                    late.append(c)
                elif neval(c, ne) != 1:
                    ok = False
                    break
        except KeyError as e:
            raise Bad('requires mentions %s' % e)
        if not ok:
            continue
        strict = getattr(k, 'arrorder', [])
        names = [n for n in strict] + [n for n in k.args if n not in strict]
        for n in names:
            cn = unit.args[k.args.index(n)]
            v = unit.vars[cn]
            if v.dims is None or v.type == 'S':
                continue
            dd = []
            for q, (lo, hi) in enumerate(dimsof(cn)):
                l = int(neval(lo, ne))
                if hi is None:
                    h = l + int(k.sizes[n](env) if callable(k.sizes[n]) else k.sizes[n]) - 1
                else:
                    h = int(neval(hi, ne))
                dd.append((l, h))
            shape = tuple(max(h - l + 1, 0) for l, h in dd)
            dom = k.doms.get(n)
            if callable(dom):
                a = np.asfortranarray(dom(rng, shape, env, arrays, dd))
            elif v.type == 'I':
                lo, hi = dom or (0, 1)
                a = np.array([rng.randint(lo, hi) for _ in range(int(np.prod(shape)))]).reshape(shape, order='F')
            else:
                lo, hi = dom or (-1., 1.)
                a = np.array([rng.uniform(lo, hi) for _ in range(int(np.prod(shape)))]).reshape(shape, order='F')
                if dom is None or getattr(k, 'special', True):
                    sp = rng.random()
                    if sp < 0.25:
                        # exact special values and repeated values
                        fl = a.reshape(-1, order='F')
                        for _ in range(max(1, fl.size // 3)):
                            if fl.size:
                                c = rng.choice([0., 1., lo, hi, fl[rng.randrange(fl.size)]])
                                if lo <= c <= hi:
                                    fl[rng.randrange(fl.size)] = c
                        a = fl.reshape(shape, order='F')
            a = np.asfortranarray(a, dtype=np.int32 if v.type in 'I' else np.float64)
            for ix, x in forced.get('<reads>', {}).get(n, {}).items():
                q = tuple(i - l for i, (l, h) in zip(ix, dd))
                if len(ix) == len(dd) and all(0 <= i < z for i, z in zip(q, shape)):
                    a[q] = x
            arrays[n] = (a, dd)
        if late:
            ne2 = NumEnv(env, {m: reader(x) for m, x in arrays.items()}, k.funcs)
            try:
                if any(neval(c, ne2) != 1 for c in late if not has_quant(c)):
                    continue
            except IndexError:
                continue
        return env, arrays, strs
    raise Bad('no input satisfies the precondition of %s' % k.unit)


def has_quant(c):
    return False


def has_read(p):
    for a in p.atoms():
        at = sym.atom(a)
        if at.kind == 'r':
            return True
        for x in at.args:
            if isinstance(x, Poly) and has_read(x):
                return True
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Poly) and has_read(y):
                        return True
    return False


def reader(x):
    a, dd = x

    def rd(idx):
        q = []
        for i, (l, h) in zip(idx, dd):
            if i < l or i > h:
                # terms selected by a condition are polynomials: the value
                # read where the condition is false cancels
                return 0.7321
            q.append(i - l)
        return a[tuple(q)].item()
    return rd


def call(k, unit, lib, env, arrays, strs):
    argv, tail, keep = [], [], {}
    for cn, n in zip(unit.args, k.args):
        v = unit.vars[cn]
        if v.type == 'S':
            argv.append(ctypes.c_char_p(strs[n].encode()))
            tail.append(ctypes.c_size_t(len(strs[n])))
        elif v.dims is not None:
            a = np.array(arrays[n][0], order='F', copy=True)
            if a.size == 0:
                a = np.zeros(1, dtype=a.dtype)
            keep[n] = a
            argv.append(ctypes.c_void_p(a.ctypes.data))
        else:
            x = (ctypes.c_int if v.type in 'IL' else ctypes.c_float if v.type == 'R4' else ctypes.c_double)(env[n])
            keep[n] = x
            argv.append(ctypes.byref(x))
    rt = None
    if unit.kind == 'function':
        t = unit.vars[unit.result].type
        rt = ctypes.c_int if t in 'IL' else ctypes.c_float if t == 'R4' else ctypes.c_double
    f = getattr(lib.get(), k.unit + '_')
    f.restype = rt
    res = f(*argv, *tail)
    out = {}
    for n, x in keep.items():
        out[n] = x if isinstance(x, np.ndarray) else x.value
    out['<result>'] = res
    return out


def magnitude(p, env):
    t = 0.0
    for m, c in p.t.items():
        try:
            t += abs(neval(Poly({m: c}), env))
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
    return t


def check_run(k, unit, lib, env, arrays, strs, rng, maxpts=60):
    """run the real code; return None or a description of the violation"""
    got = call(k, unit, lib, env, arrays, strs)
    ne = numenv(k, lib, env, arrays, strs)
    idxv = lambda r: contract.Idx([var('I%d' % d, 'I') for d in range(r)])
    n_eval = 0
    for n, o in k.outs.items():
        if n == '<result>' or n not in arrays:
            for region, f, cond in o.regions:
                if cond is not ONE and neval(cond, ne) != 1:
                    continue
                p = P(f())
                try:
                    want = neval(p, ne)
                except (ZeroDivisionError, OverflowError):
                    continue
                n_eval += 1
                g = got[n]
                if not close(g, want, magnitude(p, ne), k.tol, k.atol):
                    return {'output': n, 'index': [], 'expected': want, 'actual': g}, n_eval
            continue
        a, dd = arrays[n]
        g = got[n]
        mask = np.ones(a.shape, bool)
        r = len(dd)
        idx = idxv(r)
        for region, f, cond in o.regions:
            if cond is not ONE and neval(cond, ne) != 1:
                continue
            rg = [(int(neval(P(lo), ne)), int(neval(P(hi), ne))) for lo, hi in region]
            if any(h < l for l, h in rg):
                continue
            mask[tuple(slice(l - d0, h - d0 + 1) for (l, h), (d0, d1) in zip(rg, dd))] = False
            pts = list(np.ndindex(*[h - l + 1 for l, h in rg]))
            if len(pts) > maxpts:
                pts = rng.sample(pts, maxpts)
            cache = {}
            for pt in pts:
                ii = [l + x for x, (l, h) in zip(pt, rg)]
                # keep symbolic indices except for small constant ranges
                key = tuple(const(i) if P(lo).isconst() and P(hi).isconst() else x for i, x, (lo, hi) in zip(ii, idx, region))
                p = cache.get(key)
                if p is None:
                    p = cache[key] = P(f(*key))
                ne.vars.update({'I%d' % d: i for d, i in enumerate(ii)})
                w = getattr(f, 'when', None)
                if w is not None and neval(P(w(*key)), ne) != 1:
                    continue
                try:
                    want = neval(p, ne)
                except (ZeroDivisionError, OverflowError):
                    continue
                n_eval += 1
                gv = g[tuple(i - d0 for i, (d0, d1) in zip(ii, dd))].item()
                if not close(gv, want, magnitude(p, ne), k.tol, k.atol):
                    return {'output': n, 'index': ii, 'expected': want, 'actual': gv}, n_eval
        if n not in k.havoc:
            ch = mask & (g != a) & ~(np.isnan(g) & np.isnan(a))
            if ch.any():
                w = np.argwhere(ch)[0]
                return {'output': n, 'index': [int(x + d0) for x, (d0, d1) in zip(w, dd)],
                        'expected': 'unchanged: %r' % a[tuple(w)].item(), 'actual': g[tuple(w)].item()}, n_eval
    for n, (a, dd) in arrays.items():
        if n not in k.outs and n not in k.havoc:
            if not np.array_equal(got[n].reshape(-1)[:a.size], a.reshape(-1), equal_nan=a.dtype != np.int32) and a.size:
                w = np.argwhere(got[n] != a)[0]
                return {'output': n, 'index': [int(x + d0) for x, (d0, d1) in zip(w, dd)],
                        'expected': 'unchanged: %r' % a[tuple(w)].item(), 'actual': got[n][tuple(w)].item()}, n_eval
    for n in env:
        if n in got and n not in k.outs and n not in k.havoc and not n.startswith('I'):
            if n in k.args and got[n] != env[n] and not (got[n] != got[n]):
                return {'output': n, 'index': [], 'expected': 'unchanged: %r' % env[n], 'actual': got[n]}, n_eval
    for label, fn in getattr(k, 'numchecks', []):
        bad = fn(k, env, arrays, strs, got, lib)
        n_eval += 1
        if bad:
            return {'output': label, 'index': [], 'expected': bad[0], 'actual': bad[1]}, n_eval
    return None, n_eval


def numenv(k, lib, env, arrays, strs):
    funcs = {}
    smap = lambda x: strs.get(x[4:].split('(')[0], x) if isinstance(x, str) and x.startswith('sym:') else x
    for n in k.opaque:
        funcs[n] = (lambda *a, n=n: lib.scalar(n, *[smap(x) for x in a]))
    for n, f in k.funcs.items():
        funcs[n] = (lambda *a, f=f: f(lib, *[smap(x) for x in a])) if not getattr(f, 'raw', False) else f
    for n, f in k.rawfuncs.items():
        funcs[n] = f(lib, smap)
    funcs['streq'] = lambda a, b: smap(a).rstrip() == smap(b).rstrip()
    return NumEnv(dict(env), {m: reader(x) for m, x in arrays.items()}, funcs)


def covers(k, lib, facts, env, arrays, strs, rng):
    """does this input reach the case described by facts (index variables and
    loop variables are searched)?"""
    ne = numenv(k, lib, env, arrays, strs)
    free = set()
    for f in facts:
        for a in f.deps():
            at = sym.atom(a)
            if at.kind == 'v' and at.args[0] not in env and not at.args[0].startswith('#'):
                free.add(at.args[0])
    free = sorted(free)
    for _ in range(400 if free else 1):
        for n in free:
            ne.vars[n] = rng.randint(-6, 8)
        try:
            if all(neval(f, ne) == 1 for f in facts):
                return True
        except (KeyError, IndexError, ZeroDivisionError, OverflowError, ValueError, TypeError):
            pass
    return False


def close(g, w, mag, tol, atol=1e-12):
    if isinstance(w, complex):
        return True
    if w != w:
        return True
    if g != g:
        return False
    return abs(g - w) <= tol * max(mag, abs(w)) + atol


def jsonable(env, arrays, strs):
    return {'scalars': {n: v for n, v in env.items() if not (len(n) == 2 and n[0] == 'I')}, 'strings': strs,
            'arrays': {n: {'bounds': dd, 'values_fortran_order': a.reshape(-1, order='F').tolist()}
                       for n, (a, dd) in arrays.items()}}


def trials(k, unit, dimsof, lib, seeds, forced=None, limit=60, probe=None):
    """run in a child process; returns (violation or None, evaluations, runs)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            pf = os.fdopen(w, 'wb')
            err = os.open(lib.path + '.err%d' % os.getpid(), os.O_CREAT | os.O_RDWR)
            os.dup2(err, 1)
            os.dup2(err, 2)
            signal.alarm(int(limit) + 5)
            t0 = time.time()
            for sd in seeds:
                if time.time() - t0 > limit:
                    break
                rng = random.Random(sd)
                try:
                    inp = gen(k, unit, dimsof, rng, forced)
                except Bad as e:
                    pickle.dump(('bad', str(e)), pf)
                    pf.flush()
                    break
                env, arrays, strs = inp
                pickle.dump(('start', jsonable(env, arrays, strs)), pf)
                pf.flush()
                try:
                    bad, n = check_run(k, unit, lib, dict(env), arrays, strs, rng)
                except IndexError as e:
                    pickle.dump(('bad', 'contract: %s' % e), pf)
                    pf.flush()
                    break
                pickle.dump(('done', bad, n), pf)
                pf.flush()
                if bad:
                    break
                if probe and not bad and covers(k, lib, probe[0], env, arrays, strs, rng):
                    pickle.dump(('cov',), pf)
                    pf.flush()
            pickle.dump(('end',), pf)
            pf.flush()
        except BaseException:
            try:
                pickle.dump(('bad', traceback.format_exc()), pf)
                pf.flush()
            except BaseException:
                pass
        os._exit(0)
    os.close(w)
    evs, runs, cur, viol, note, cov = 0, 0, None, None, None, 0
    ended = False
    with os.fdopen(r, 'rb') as f:
        while True:
            try:
                m = pickle.load(f)
            except (EOFError, pickle.UnpicklingError):
                break
            if m[0] == 'start':
                cur = m[1]
            elif m[0] == 'done':
                runs += 1
                evs += m[2]
                if m[1]:
                    viol = dict(m[1], input=cur)
                cur = None
            elif m[0] == 'cov':
                cov += 1
            elif m[0] == 'bad':
                note = m[1]
                ended = True
            elif m[0] == 'end':
                ended = True
    _, st = os.waitpid(pid, 0)
    ef = lib.path + '.err%d' % pid
    try:
        txt = open(ef, errors='replace').read()
        os.unlink(ef)
    except OSError:
        txt = ''
    if not ended and cur is not None:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            note = 'run time limit'
        elif os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            note = 'calls code of another file that is not linked into the replay'
        else:
            viol = {'output': 'termination', 'index': [], 'expected': 'normal return',
                    'actual': 'run ended abnormally (status %d): %s' % (st, txt[-800:]), 'input': cur}
    if cov and not note:
        note = 'covered %d' % cov
    return viol, evs, runs, note
