"""Demand-driven (weakest-precondition style) evaluation of the real code.

val(frame, name, idx, pt, ctx) is the value, as an exact expression over the
pre-state, that array element / scalar `name(idx)` holds at program point pt,
for ALL inputs satisfying ctx.  Loops are never unrolled when their bounds are
symbolic: a loop is summarised by solving its write index for the iteration
that writes the queried element (with the solver showing that no later
iteration overwrites it and which earlier iterations it may read from), or, for
accumulations, by the sum rule s_after = s_before + Sum_u t(u)."""
import sys
from fractions import Fraction
from sym import *
import sym
from fparse import Unsupported, Stmt

sys.setrecursionlimit(60000)

INTRIN = {'abs', 'dabs', 'iabs', 'min', 'max', 'dmin1', 'dmax1', 'amin1', 'amax1', 'min0', 'max0',
          'sqrt', 'dsqrt', 'exp', 'dexp', 'log', 'dlog', 'alog', 'sin', 'dsin', 'cos', 'dcos',
          'tan', 'dtan', 'tanh', 'dtanh', 'cosh', 'dcosh', 'sinh', 'dsinh', 'acos', 'dacos',
          'asin', 'dasin', 'atan', 'datan', 'atan2', 'datan2', 'mod', 'dble', 'real', 'float', 'dfloat',
          'int', 'idint', 'nint', 'sign', 'dsign', 'len', 'merge', 'trim', 'modulo', 'floor', 'sngl', 'dmod',
          'isnan', 'sum', 'product', 'dot_product', 'maxval', 'minval', 'size'}

TRANS = {'exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'cosh', 'sinh', 'acos', 'asin', 'atan'}


class Frame:
    n = 0

    def __init__(self, unit, caller=None, args=None):
        self.unit = unit
        self.caller = caller      # Pt of the call
        self.args = args          # actual AST list
        Frame.n += 1
        self.id = Frame.n
        self.entry = Pt(unit.body, 0, ('U', self))
        self.end = Pt(unit.body, len(unit.body), ('U', self))

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


class Pt:
    __slots__ = ('block', 'k', 'owner', 'h', 'frame')

    def __init__(self, block, k, owner):
        self.block, self.k, self.owner = block, k, owner
        self.frame = owner[1] if owner[0] == 'U' else owner[2].frame
        self.h = hash((id(block), k, owner[0], id(owner[1]), owner[2:]))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return (self is o) or (self.block is o.block and self.k == o.k and
                               self.owner[0] == o.owner[0] and self.owner[1] is o.owner[1] and
                               self.owner[2:] == o.owner[2:])

    def back(self):
        return Pt(self.block, self.k - 1, self.owner)


# owners: ('U', frame) | ('I', stmt, pt_before, which) | ('L', stmt, pt_before, v)

def expr_calls(e, out):
    if not isinstance(e, tuple) or not e:
        return
    if e[0] == 'idx':
        out.append((e[1], e[2]))
        for x in e[2]:
            expr_calls(x, out)
    elif e[0] == 'idx2':
        for x in e[2] + e[3]:
            expr_calls(x, out)
    elif e[0] in ('num', 'str', 'name', 'log'):
        return
    else:
        for x in e[1:]:
            expr_calls(x, out)


class Engine:
    def __init__(self, units, opaque=None, opaquesub=None, strs=None, conf=None):
        self.units = units
        self.opaque = opaque or {}          # function name -> handler(engine, argvals) or True
        self.fixarr = {}
        self.opaquesub = opaquesub or {}    # subroutine name -> contract object
        self.strs = strs or {}              # top-level character arguments
        self.fixed = conf or {}             # top-level argument values
        self.argmap = {}                    # current -> contract argument names
        self.memo = {}
        self.stubs = {}
        self.active = set()
        self.frames = {}
        self.infos = {}
        self.mwcache = {}
        self.uninit = []
        self.savestate = {}                 # (unit,var) -> handler(idx) for SAVEd variables
        self.used = set()
        self.arrbase = lambda name, idx, sort: read(name, idx, sort)
        self.steps = 0
        self.maxsteps = 400000

    # -------------------------------------------------- static
    alias = None

    def mw(self, unit, s):
        key = id(s)
        r = self.mwcache.get(key)
        if r is not None and r[0] is s:
            return r[1]
        out = set()
        if s.op == 'assign':
            out.add(s.a[0])
        elif s.op == 'if':
            for b in s.a[1:]:
                for x in b:
                    out |= self.mw(unit, x)
        elif s.op == 'do':
            out.add(s.a[0])
            for x in s.a[4]:
                out |= self.mw(unit, x)
        elif s.op == 'while':
            for x in s.a[1]:
                out |= self.mw(unit, x)
        elif s.op == 'doforever':
            for x in s.a[0]:
                out |= self.mw(unit, x)
        elif s.op == 'call':
            n, args = s.a
            w = self.sub_writes(n)
            for i, a in enumerate(args):
                if a[0] in ('name', 'idx'):
                    nm = a[1]
                    if w is None or i in w:
                        if n in self.opaquesub and a[0] == 'idx' and self.fact_stable(unit, n, i, nm):
                            continue
                        out.add(nm)
        elif s.op == 'unsup':
            out.add('*')
        self.mwcache[key] = (s, out)
        return out

    def fact_stable(self, unit, sub, i, nm):
        """the callee's contract leaves argument i unchanged because the array
        precondition of nm (never assigned in this unit) says so"""
        if i not in getattr(self.opaquesub[sub], 'keeps_positive', ()):
            return False
        if self.argmap.get(nm, nm) not in sym.ARRFACTS or nm not in unit.args:
            return False
        k = ('AS', unit.name, nm)
        if k not in self.mwcache:
            self.mwcache[k] = not self.assigned(unit.body, nm)
        return self.mwcache[k]

    def assigned(self, block, nm):
        for s in block:
            if s.op == 'assign' and s.a[0] == nm:
                return True
            if s.op == 'call' and any(a[0] in ('name', 'idx') and a[1] == nm for a in s.a[1]) and s.a[0] not in self.opaquesub:
                return True
            for b in (s.a[1:] if s.op == 'if' else (s.a[4],) if s.op == 'do' else (s.a[1],) if s.op == 'while'
                      else (s.a[0],) if s.op == 'doforever' else ()):
                if self.assigned(b, nm):
                    return True
        return False

    def sub_writes(self, n):
        """indices of arguments a subroutine may write"""
        if n in self.opaquesub:
            return set(self.opaquesub[n].writes)
        u = self.units.get(n)
        if u is None:
            raise Unsupported('call to unknown subroutine ' + n)
        k = ('SW', n)
        if k in self.mwcache:
            return self.mwcache[k]
        self.mwcache[k] = set()
        w = self.unit_writes(u)
        r = set(i for i, a in enumerate(u.args) if a in w)
        self.mwcache[k] = r
        return r

    def unit_writes(self, u):
        k = ('UW', u.name)
        if k in self.mwcache:
            return self.mwcache[k]
        self.mwcache[k] = set()
        out = set()
        for s in u.body:
            out |= self.mw(u, s)
        self.mwcache[k] = out
        return out

    def frame_for(self, unit, caller, args):
        if len(args) > len(unit.args):
            raise Unsupported('call of %s with %d arguments, it has %d' % (unit.name, len(args), len(unit.args)))
        key = (unit.name, caller, id(args))
        f = self.frames.get(key)
        if f is None:
            d = 0
            p = caller
            while p is not None:
                d += 1
                p = p.frame.caller
            if d > 12:
                raise Unsupported('call depth')
            f = Frame(unit, caller, args)
            self.frames[key] = f
        return f

    # -------------------------------------------------- values
    def typ(self, fr, name):
        v = fr.unit.vars.get(name)
        if v is None:
            return 'I' if name[0] in 'ijklmn' else 'R'
        t = v.type
        return 'R' if t == 'R4' else t

    def val(self, fr, name, idx, pt, ctx):
        key = (fr.id, name, idx, pt, ctx)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.active:
            raise Unsupported('cyclic value dependency on ' + name)
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('evaluation budget')
        self.active.add(key)
        try:
            r = self._val(fr, name, idx, pt, ctx)
        finally:
            self.active.discard(key)
        self.memo[key] = r
        return r

    def _val(self, fr, name, idx, pt, ctx):
        while True:
            if pt.k == 0:
                o = pt.owner
                if o[0] == 'I':
                    pt = o[2]
                    # the branch condition already is in ctx
                    return self.val(fr, name, idx, pt, ctx)
                if o[0] == 'L':
                    s, ptb, v = o[1], o[2], o[3]
                    if s.a[0] == name and not idx:
                        return v
                    return self.pre_iter(fr, name, idx, s, ptb, v, ctx)
                return self.entry_val(fr, name, idx, ctx)
            s = pt.block[pt.k - 1]
            pt = pt.back()
            w = self.mw(fr.unit, s)
            if '*' in w:
                raise Unsupported('%s at line %d' % (s.a, s.line))
            if name not in w:
                continue
            if s.op == 'assign':
                return self.through_assign(fr, name, idx, s, pt, ctx)
            if s.op == 'if':
                return self.through_if(fr, name, idx, s, pt, ctx)
            if s.op == 'do':
                lo, hi, st = self.loop_bounds(s, pt, ctx)
                if s.a[0] == name and not idx:
                    # value of the loop variable after the loop
                    if st == ONE:
                        c = ge(hi, lo)
                        d = ctx.decide(c)
                        if d is True:
                            return hi + 1
                        if d is False:
                            return lo
                        return ite(c, hi + 1, lo)
                    raise Unsupported('loop variable after loop')
                return self.loop_value(fr, name, idx, s, pt, hi, ctx)
            if s.op == 'call':
                return self.through_call(fr, name, idx, s, pt, ctx)
            raise Unsupported('%s at line %d' % (s.op, s.line))

    def coerce(self, v, vt, t, s):
        if t == 'I' and vt == 'R':
            if poly_sort(v) == 'I':
                return v
            raise Unsupported('real to integer conversion, line %d' % s.line)
        return v

    def through_assign(self, fr, name, idx, s, pt, ctx):
        n, ix, rhs = s.a
        v = fr.unit.vars.get(n)
        isarr = v is not None and v.dims is not None
        if not isarr:
            x, t = self.ev(rhs, pt, ctx)
            if t == 'S':
                return x
            return self.coerce(x, t, self.typ(fr, name), s)
        if ix is None or any(a[0] == 'slice' for a in ix):
            return self.array_assign(fr, name, idx, s, pt, ctx)
        w = [self.evi(a, pt, ctx) for a in ix]
        if len(w) != len(idx):
            raise Unsupported('rank mismatch ' + name)
        cond = land(*[eq(a, b) for a, b in zip(w, idx)])
        d = ctx.decide(cond)
        if d is True:
            x, t = self.ev_alias(rhs, pt, ctx, name, w, idx)
            return self.coerce(x, t, self.typ(fr, name), s)
        if d is False:
            return self.val(fr, name, idx, pt, ctx)
        c1, c2 = ctx.assume(cond), ctx.assume(lnot(cond))
        x, t = self.ev_alias(rhs, pt, c1, name, w, idx)
        x = self.coerce(x, t, self.typ(fr, name), s)
        return ite(cond, x, self.val(fr, name, idx, pt, c2))

    def ev_alias(self, rhs, pt, ctx, name, w, idx):
        """rhs at pt, where the written element w is known to be element idx:
        a read of w is a read of idx"""
        old = self.alias
        self.alias = (name, tuple(w), idx, pt, ctx)
        try:
            return self.ev(rhs, pt, ctx)
        finally:
            self.alias = old

    def dims(self, fr, name):
        v = fr.unit.vars[name]
        out = []
        for lo, hi in v.dims:
            l = self.evi(lo, fr.entry, Ctx0) if lo is not None else None
            h = self.evi(hi, fr.entry, Ctx0) if hi is not None else None
            out.append((l, h))
        return out

    def array_assign(self, fr, name, idx, s, pt, ctx):
        n, ix, rhs = s.a
        dims = self.dims(fr, n)
        if ix is None:
            ix = [('slice', None, None, None)] * len(dims)
        cond = ONE
        offs = []
        for k, a in enumerate(ix):
            if a[0] == 'slice':
                if a[3] is not None:
                    raise Unsupported('strided section')
                lo = self.evi(a[1], pt, ctx) if a[1] is not None else dims[k][0]
                hi = self.evi(a[2], pt, ctx) if a[2] is not None else dims[k][1]
                if hi is None or lo is None:
                    raise Unsupported('assumed size section')
                if a[1] is not None or a[2] is not None:
                    cond = cond * ge(idx[k], lo) * le(idx[k], hi)
                offs.append(idx[k] - lo)
            else:
                cond = cond * eq(self.evi(a, pt, ctx), idx[k])
        d = ctx.decide(cond)
        if d is False:
            return self.val(fr, name, idx, pt, ctx)
        c1 = ctx if d else ctx.assume(cond)
        x, t = self.ev_elem(rhs, offs, pt, c1)
        x = self.coerce(x, t, self.typ(fr, name), s)
        if d:
            return x
        return ite(cond, x, self.val(fr, name, idx, pt, ctx.assume(lnot(cond))))

    def ev_elem(self, e, offs, pt, ctx):
        """element (given by zero-based offsets) of an array-valued expression"""
        fr = pt.frame
        if e[0] == 'name':
            v = fr.unit.vars.get(e[1])
            if v is not None and v.dims is not None:
                dims = self.dims(fr, e[1])
                if len(dims) != len(offs):
                    raise Unsupported('nonconforming arrays')
                ix = tuple(d[0] + o for d, o in zip(dims, offs))
                return self.val(fr, e[1], ix, pt, ctx), self.typ(fr, e[1])
            return self.ev(e, pt, ctx)
        if e[0] == 'idx':
            v = fr.unit.vars.get(e[1])
            if v is not None and v.dims is not None and any(a[0] == 'slice' for a in e[2]):
                dims = self.dims(fr, e[1])
                ix, n = [], 0
                for k, a in enumerate(e[2]):
                    if a[0] == 'slice':
                        if a[3] is not None:
                            raise Unsupported('strided section')
                        lo = self.evi(a[1], pt, ctx) if a[1] is not None else dims[k][0]
                        ix.append(lo + offs[n])
                        n += 1
                    else:
                        ix.append(self.evi(a, pt, ctx))
                if n != len(offs):
                    raise Unsupported('nonconforming arrays')
                return self.val(fr, e[1], tuple(ix), pt, ctx), self.typ(fr, e[1])
            return self.ev(e, pt, ctx)
        if e[0] in ('bin', 'un'):
            return self.ev_op(e, pt, ctx, lambda x: self.ev_elem(x, offs, pt, ctx))
        if e[0] == 'paren':
            return self.ev_elem(e[1], offs, pt, ctx)
        return self.ev(e, pt, ctx)

    def always_stops(self, b):
        if not b:
            return False
        s = b[-1]
        if s.op == 'stop':
            return True
        if s.op == 'if':
            return self.always_stops(s.a[1]) and self.always_stops(s.a[2])
        return False

    def through_if(self, fr, name, idx, s, pt, ctx):
        c, a, b = s.a
        if self.always_stops(a):
            return self.val(fr, name, idx, Pt(b, len(b), ('I', s, pt, 2)), ctx)
        if self.always_stops(b):
            return self.val(fr, name, idx, Pt(a, len(a), ('I', s, pt, 1)), ctx)
        cv = self.evb(c, pt, ctx)
        d = ctx.decide(cv)
        if d is True:
            return self.val(fr, name, idx, Pt(a, len(a), ('I', s, pt, 1)), ctx)
        if d is False:
            return self.val(fr, name, idx, Pt(b, len(b), ('I', s, pt, 2)), ctx)
        x = self.val(fr, name, idx, Pt(a, len(a), ('I', s, pt, 1)), ctx.assume(cv))
        y = self.val(fr, name, idx, Pt(b, len(b), ('I', s, pt, 2)), ctx.assume(lnot(cv)))
        if isinstance(x, str) or isinstance(y, str):
            if x == y:
                return x
            raise Unsupported('conditional string')
        return ite(cv, x, y)

    # -------------------------------------------------- loops
    def loop_bounds(self, s, pt, ctx):
        v, lo, hi, st, body = s.a
        l = self.evi(lo, pt, ctx)
        h = self.evi(hi, pt, ctx)
        d = self.evi(st, pt, ctx) if st is not None else ONE
        return l, h, d

    def pre_iter(self, fr, name, idx, s, ptb, v, ctx):
        k = (id(s), ptb, v, fr.id, name, idx)
        if k in self.stubs:
            return self.stubs[k]
        lo, hi, st = self.loop_bounds(s, ptb, ctx)
        return self.loop_value(fr, name, idx, s, ptb, v - st, ctx)

    def body_end(self, s, ptb, v):
        body = s.a[4]
        return Pt(body, len(body), ('L', s, ptb, v))

    def loop_value(self, fr, name, idx, s, ptb, U, ctx, excl=None):
        """value after all iterations up to and including U"""
        for x in s.a[4]:
            pass
        if name not in set().union(*[self.mw(fr.unit, x) for x in s.a[4]]) if s.a[4] else True:
            return self.val(fr, name, idx, ptb, ctx)
        lo, hi, st = self.loop_bounds(s, ptb, ctx)
        if not st.isconst():
            dpos = ctx.decide(gt0(st))
            if dpos is not True:
                raise Unsupported('loop step of unknown sign')
            pos = True
        else:
            pos = st.cval() > 0
        # no iterations at all?
        nonempty = ge(U, lo) if pos else le(U, lo)
        dn = ctx.decide(nonempty)
        if dn is False:
            return self.val(fr, name, idx, ptb, ctx)
        if lo.isconst() and U.isconst() and st.isconst() and \
                abs((U.cval() - lo.cval()) // st.cval()) <= 64:
            n = (U.cval() - lo.cval()) // st.cval()
            return self.val(fr, name, idx, self.body_end(s, ptb, lo + st * const(n)), ctx)
        kind, cands = self.candidates(fr, name, idx, s, ptb, lo, hi, st, ctx)
        if kind == 'acc':
            return self.accumulate(fr, name, idx, s, ptb, lo, st, U, ctx, dn, nonempty)
        # keep candidates that can be in range
        live = []
        for c in cands:
            inr = land(ge(c, lo), le(c, U)) if pos else land(le(c, lo), ge(c, U))
            if not (st.isconst() and abs(st.cval()) == 1):
                inr = inr * eq(modx(c - lo, st), 0)
            d = ctx.decide(inr)
            if d is not False:
                live.append((c, inr, d))
        if not live:
            return self.val(fr, name, idx, ptb, ctx)
        # the latest one
        best = live[0]
        for x in live[1:]:
            df = x[0] - best[0]
            later = ge0(df) if pos else ge0(-df)
            d = ctx.decide(later)
            if d is True:
                best = x
            elif d is None:
                raise Unsupported('cannot order writers of %s' % name)
        c, inr, d = best
        c1 = ctx if d else ctx.assume(inr)
        x = self.val(fr, name, idx, self.body_end(s, ptb, c), c1)
        if d:
            return x
        c2 = ctx.assume(lnot(inr))
        rest = [y[0] for y in live if y is not best]
        y = self.rest_value(fr, name, idx, s, ptb, rest, lo, st, U, pos, c2)
        return ite(inr, x, y)

    def rest_value(self, fr, name, idx, s, ptb, cands, lo, st, U, pos, ctx):
        live = []
        for c in cands:
            inr = land(ge(c, lo), le(c, U)) if pos else land(le(c, lo), ge(c, U))
            if not (st.isconst() and abs(st.cval()) == 1):
                inr = inr * eq(modx(c - lo, st), 0)
            d = ctx.decide(inr)
            if d is not False:
                live.append((c, inr, d))
        if not live:
            return self.val(fr, name, idx, ptb, ctx)
        best = live[0]
        for x in live[1:]:
            df = x[0] - best[0]
            d = ctx.decide(ge0(df) if pos else ge0(-df))
            if d is True:
                best = x
            elif d is None:
                raise Unsupported('cannot order writers of %s' % name)
        c, inr, d = best
        x = self.val(fr, name, idx, self.body_end(s, ptb, c), ctx if d else ctx.assume(inr))
        if d:
            return x
        y = self.rest_value(fr, name, idx, s, ptb, [z[0] for z in live if z is not best], lo, st, U, pos,
                            ctx.assume(lnot(inr)))
        return ite(inr, x, y)

    def candidates(self, fr, name, idx, s, ptb, lo, hi, st, ctx):
        if not idx:
            return 'acc', None
        key = ('C', id(s), ptb, fr.id, name, ctx)
        sites = self.memo.get(key)
        if sites is None:
            u = fresh('u')
            uid = atom_of(u).id
            c2 = ctx.assume(ge(u, lo)).assume(le(u, hi)) if (st.isconst() and st.cval() > 0) or not st.isconst() \
                else ctx.assume(le(u, lo)).assume(ge(u, hi))
            sites = []
            self.collect_sites(fr, name, s.a[4], ('L', s, ptb, u), {}, sites, c2)
            sites = (u, uid, sites)
            self.memo[key] = sites
        u, uid, sl = sites
        cands, indep = [], False
        for w, inner in sl:
            innids = set(inner)
            found = None
            dependent = False
            mixed = False
            # incompatible constant dims: this site never touches idx
            skip = False
            for a, b in zip(w, idx):
                df = a - b
                if df.isconst() and df.cval() != 0:
                    skip = True
            if skip:
                continue
            for a, b in zip(w, idx):
                if uid not in a.deps():
                    continue
                dependent = True
                if a.deps() & innids:
                    mixed = (a, b)
                    continue
                l = linear_in(a, uid)
                if l is None:
                    continue
                cf, r = l
                if cf.isconst():
                    k = cf.cval()
                    if abs(k) == 1:
                        found = (b - r).scale(k)
                        break
                    f2 = idiv(b - r, cf)
                    found = found or f2
                elif ctx.decide(gt0(cf)) is True:
                    found = found or idiv(b - r, cf)
            if found is None and mixed:
                found = self.mixed_candidate(mixed, u, uid, inner, lo, st, ctx, s, ptb)
            if found is None:
                if dependent:
                    raise Unsupported('cannot invert write index of %s' % name)
                indep = True
            else:
                if found not in cands:
                    cands.append(found)
        if indep and cands:
            raise Unsupported('mixed writers of %s' % name)
        if indep:
            return 'acc', None
        return 'cand', cands

    def mixed_candidate(self, ab, u, uid, inner, lo, st, ctx, s, ptb):
        a, b = ab
        l = linear_in(a, uid)
        if l is None:
            return None
        cf, r = l
        # minimal value of r over the inner variables
        vs = [i for i in inner if i in r.deps()]
        rmin, span = r, ZERO
        for i in vs:
            li = linear_in(rmin, i)
            if li is None or ctx.decide(gt0(li[0])) is not True:
                return None
            ilo, ihi, ist = inner[i]
            span = span + li[0] * (ihi - ilo)
            rmin = li[1] + li[0] * ilo
        # writes of iteration u cover cf*u + rmin .. cf*u + rmin + span
        stride = cf * st
        c = lnot(gt0(span - stride + 1))
        if ctx.decide(c) is not True:
            return None
        return lo + st * idiv(b - rmin - cf * lo, stride)

    def collect_sites(self, fr, name, block, owner, inner, out, ctx):
        for k, s in enumerate(block):
            if name not in self.mw(fr.unit, s):
                continue
            pt = Pt(block, k, owner)
            if s.op == 'assign':
                ix = s.a[1]
                if ix is None or any(a[0] == 'slice' for a in ix):
                    # section: index unknown in the sliced dimensions
                    dims = fr.unit.vars[name].dims
                    ixs = []
                    inn = dict(inner)
                    for d in range(len(dims)):
                        if ix is None or ix[d][0] == 'slice':
                            f = fresh('w')
                            D = self.dims(fr, name)
                            lo = self.evi(ix[d][1], pt, ctx) if ix and ix[d][1] is not None else D[d][0]
                            hi = self.evi(ix[d][2], pt, ctx) if ix and ix[d][2] is not None else D[d][1]
                            inn[atom_of(f).id] = (lo, hi, ONE)
                            ixs.append(f)
                        else:
                            ixs.append(self.evi(ix[d], pt, ctx))
                    out.append((tuple(ixs), inn))
                else:
                    out.append((tuple(self.evi(a, pt, ctx) for a in ix), inner))
            elif s.op == 'if':
                c = self.evb(s.a[0], pt, ctx)
                d = ctx.decide(c)
                if d is not False:
                    self.collect_sites(fr, name, s.a[1], ('I', s, pt, 1), inner, out, ctx if d else ctx.assume(c))
                if d is not True:
                    self.collect_sites(fr, name, s.a[2], ('I', s, pt, 2), inner, out,
                                       ctx if d is False else ctx.assume(lnot(c)))
            elif s.op == 'do':
                lo, hi, st = self.loop_bounds(s, pt, ctx)
                w = fresh('w')
                inn = dict(inner)
                inn[atom_of(w).id] = (lo, hi, st)
                c2 = ctx
                if st.isconst() and st.cval() < 0:
                    c2 = ctx.assume(le(w, lo)).assume(ge(w, hi))
                else:
                    c2 = ctx.assume(ge(w, lo)).assume(le(w, hi))
                self.collect_sites(fr, name, s.a[4], ('L', s, pt, w), inn, out, c2)
            elif s.op == 'call':
                n, args = s.a
                sw = self.sub_writes(n)
                for i, a in enumerate(args):
                    if i not in sw or a[0] not in ('name', 'idx') or a[1] != name:
                        continue
                    if n in self.opaquesub:
                        d = self.opaquesub[n].extent(self, i, s, pt, ctx)
                        self.section_site(fr, name, a, d, inner, out, pt, ctx)
                    else:
                        cu = self.units[n]
                        cf = self.frame_for(cu, pt, args)
                        sub = []
                        self.collect_sites(cf, cu.args[i], cu.body, ('U', cf), inner, sub, ctx)
                        for w, inn in sub:
                            m = self.dummy_to_actual(cf, i, w, a, pt, ctx)
                            out.append((m, inn))
            else:
                raise Unsupported('%s in loop' % s.op)

    def section_site(self, fr, name, a, extent, inner, out, pt, ctx):
        inn = dict(inner)
        if a[0] == 'name':
            D = self.dims(fr, name)
            ix = []
            for lo, hi in D:
                f = fresh('w')
                inn[atom_of(f).id] = (lo, hi, ONE)
                ix.append(f)
            out.append((tuple(ix), inn))
        else:
            base = [self.evi(x, pt, ctx) for x in a[2]]
            if extent == ONE:
                out.append((tuple(base), inn))
                return out
            f = fresh('w')
            inn[atom_of(f).id] = (base[0], base[0] + extent - 1, ONE)
            out.append((tuple([f] + base[1:]), inn))

    def accumulate(self, fr, name, idx, s, ptb, lo, st, U, ctx, dn, nonempty):
        key = ('ACC', id(s), ptb, fr.id, name, idx, ctx)
        got = self.memo.get(key)
        if got is None:
            if key in self.active:
                raise Unsupported('cyclic recurrence on ' + name)
            self.active.add(key)
            try:
                u = fresh('u')
                S = fresh('S', 'I' if self.typ(fr, name) == 'I' else 'R')
                hi = self.loop_bounds(s, ptb, ctx)[1]
                c2 = ctx.assume(ge(u, lo)).assume(le(u, hi)) if not (st.isconst() and st.cval() < 0) \
                    else ctx.assume(le(u, lo)).assume(ge(u, hi))
                sk = (id(s), ptb, u, fr.id, name, idx)
                self.stubs[sk] = S
                T = self.val(fr, name, idx, self.body_end(s, ptb, u), c2)
                got = (u, S, T)
                self.memo[key] = got
            finally:
                self.active.discard(key)
        u, S, T = got
        sid, uid = atom_of(S).id, atom_of(u).id
        if isinstance(T, str):
            return T
        l = linear_in(T, sid)
        if l is None:
            return self.other_reduction(fr, name, idx, s, ptb, lo, st, U, ctx, u, S, T)
        A, t = l
        prev = self.val(fr, name, idx, ptb, ctx)
        if A == ONE:
            if st == ONE and t.deps().isdisjoint([uid]) and False:
                pass
            if dn is not True:
                # Sum convention needs U >= lo-1
                ok = ctx.decide(ge(U, lo - 1)) if st == ONE else None
                if ok is not True:
                    c1 = ctx.assume(nonempty)
                    return ite(nonempty, prev + summ(u, lo, U, t, st), prev)
            return prev + summ(u, lo, U, t, st)
        if A.iszero():
            last = U if st.isconst() and abs(st.cval()) == 1 else lo + st * idiv(U - lo, st)
            x = subst(t, {uid: last})
            if dn:
                return x
            return ite(nonempty, x, prev)
        # condition on the iteration only: last iteration for which it holds is not tracked
        raise Unsupported('recurrence on %s' % name)

    def other_reduction(self, fr, name, idx, s, ptb, lo, st, U, ctx, u, S, T):
        uid, sid = atom_of(u).id, atom_of(S).id
        prev = self.val(fr, name, idx, ptb, ctx)
        # max(S, x(u))  /  min
        for sign in (1, -1):
            TT = T.scale(sign)
            SS = S.scale(sign)
            x = None
            at = atom_of(TT)
            if at is not None and at.kind == 'f' and at.args[0] == 'max' and any(y == SS for y in at.args[1]):
                x = maxx(*[y for y in at.args[1] if y != SS])
            else:
                # [x-S > 0]*(x-S)+S
                br = [a for a in T.atoms() if atom(a).kind == 'b' and sid in atom(a).deps]
                if len(br) == 1 and TT.atoms() <= (set([br[0], sid]) | TT.atoms()):
                    for val in (0, 1):
                        y = set_brackets(TT, {br[0]: val})
                        z = set_brackets(TT, {br[0]: 1 - val})
                        if y == SS and sid not in z.deps():
                            op, p = atom(br[0]).args
                            # condition must be sign of z - SS
                            d1 = p - (z - SS)
                            cond_is_gt = None
                            q, sg = sym._prim(z - SS)
                            if q == p:
                                # bracket means q>=0 / q>0, i.e. sg*(z-SS) >=0
                                holds = (sg > 0) == (val == 0)
                                if holds:
                                    x = z
            if x is not None and sid not in x.deps():
                r = app('maxover', *maxover_args(uid, lo, U, st, x))
                return maxx(prev.scale(sign), r).scale(sign)
        raise Unsupported('recurrence on %s' % name)

    # -------------------------------------------------- calls
    def through_call(self, fr, name, idx, s, pt, ctx):
        n, args = s.a
        sw = self.sub_writes(n)
        hits = [i for i, a in enumerate(args) if a[0] in ('name', 'idx') and a[1] == name]
        whits = [i for i in hits if i in sw]
        if len(whits) != 1:
            if len(whits) > 1:
                return self.through_multi(fr, name, idx, s, pt, ctx, whits)
            return self.val(fr, name, idx, pt, ctx)
        if len(hits) > 1 and n not in self.opaquesub:
            # aliasing between a written and a read argument: distinct elements only
            pass
        i = whits[0]
        return self.through_arg(fr, name, idx, s, pt, ctx, i, lambda c: self.val(fr, name, idx, pt, c))

    def through_multi(self, fr, name, idx, s, pt, ctx, whits):
        if not whits:
            return self.val(fr, name, idx, pt, ctx)
        i = whits[-1]
        v = fr.unit.vars.get(name)
        if v is not None and v.dims is not None and s.a[0] not in self.opaquesub:
            # the same element passed as two arguments the callee may write:
            # it must be written through one of them only
            ca = [(j, self.arg_cond(fr, idx, s, pt, ctx, j)) for j in whits]
            both = [j for j, c in ca if ctx.decide(c) is True]
            maybe = [j for j, c in ca if ctx.decide(c) is None]
            cd = dict(ca)
            if maybe and not both and all((cd[j] - cd[maybe[0]]).iszero() for j in maybe):
                c = cd[maybe[0]]
                return ite(c, self.through_multi(fr, name, idx, s, pt, ctx.assume(c), maybe),
                           self.val(fr, name, idx, pt, ctx.assume(lnot(c))))
            for j in range(len(maybe)):
                for q in range(j):
                    if ctx.decide(cd[maybe[j]] * cd[maybe[q]]) is not False:
                        raise Unsupported('overlapping arguments of ' + s.a[0])
            if both and len(both) + len(maybe) > 1:
                if maybe:
                    raise Unsupported('overlapping arguments of ' + s.a[0])
                old = self.val(fr, name, idx, pt, ctx)
                new = [x for x in (self.through_arg(fr, name, idx, s, pt, ctx, j, None) for j in both) if not sym.zero(x - old, ctx)]
                if len(new) > 1:
                    raise Unsupported('element written through two arguments of ' + s.a[0])
                return new[0] if new else old
        return self.through_arg(fr, name, idx, s, pt, ctx, i,
                                lambda c: self.through_multi(fr, name, idx, s, pt, c, whits[:-1]))

    def arg_cond(self, fr, idx, s, pt, ctx, i):
        """the element idx belongs to the i-th argument of the call"""
        n, args = s.a
        cu = self.units[n]
        if cu.vars[cu.args[i]].dims is None:
            a = args[i]
            if a[0] != 'idx':
                raise Unsupported('array passed to scalar')
            return land(*[eq(self.evi(x, pt, ctx), y) for x, y in zip(a[2], idx)])
        cf = self.frame_for(cu, pt, args)
        return self.actual_to_dummy(cf, i, idx, args[i], pt, ctx)[1]

    def through_arg(self, fr, name, idx, s, pt, ctx, i, other):
        n, args = s.a
        a = args[i]
        v = fr.unit.vars.get(name)
        isarr = v is not None and v.dims is not None
        if n in self.opaquesub:
            o = self.opaquesub[n]
            ext = o.extent(self, i, s, pt, ctx)
        else:
            cu = self.units[n]
            cf = self.frame_for(cu, pt, args)
            d = cu.args[i]
            dv = cu.vars[d]
            ext = None
        if not isarr:
            if n in self.opaquesub:
                return self.opaquesub[n].value(self, i, (), s, pt, ctx)
            if dv.dims is not None:
                raise Unsupported('scalar passed to array')
            return self.val(cf, d, (), cf.end, ctx)
        # array in the caller
        if n in self.opaquesub:
            if a[0] == 'name':
                D = self.dims(fr, name)
                if len(D) != 1:
                    raise Unsupported('array rank')
                k = idx[0] - D[0][0] + 1
                cond = ge(k, 1) * le(k, ext)
            else:
                base = [self.evi(x, pt, ctx) for x in a[2]]
                k = idx[0] - base[0] + 1
                cond = ge(k, 1) * le(k, ext)
                for x, y in zip(base[1:], idx[1:]):
                    cond = cond * eq(x, y)
            dd = ctx.decide(cond)
            if dd is False:
                return other(ctx)
            x = o.value(self, i, (k,), s, pt, ctx if dd else ctx.assume(cond))
            if dd:
                return x
            return ite(cond, x, other(ctx.assume(lnot(cond))))
        if dv.dims is None:
            # element passed to a scalar dummy
            if a[0] != 'idx':
                raise Unsupported('array passed to scalar')
            base = [self.evi(x, pt, ctx) for x in a[2]]
            cond = land(*[eq(x, y) for x, y in zip(base, idx)])
            didx = ()
        else:
            didx, cond = self.actual_to_dummy(cf, i, idx, a, pt, ctx)
        dd = ctx.decide(cond)
        if dd is False:
            return other(ctx)
        x = self.val(cf, d, didx, cf.end, ctx if dd else ctx.assume(cond))
        if dd:
            return x
        return ite(cond, x, other(ctx.assume(lnot(cond))))

    def shape_match(self, cf, i, a, pt, ctx):
        """dims of the dummy and of the actual; ranks equal and extents equal
        (all but the last) => index shift"""
        cu = cf.unit
        dd = self.dims(cf, cu.args[i])
        fr = pt.frame
        D = self.dims(fr, a[1])
        return dd, D

    def actual_to_dummy(self, cf, i, idx, a, pt, ctx):
        dd, D = self.shape_match(cf, i, a, pt, ctx)
        if a[0] == 'name':
            if len(dd) == len(D):
                self.check_extents(dd, D, ctx, 0)
                return tuple(x - d[0] + e[0] for x, d, e in zip(idx, D, dd)), ONE
            if len(dd) == len(D) - 1 and D[-1][1] is not None and (D[-1][1] - D[-1][0]).iszero():
                raise Unsupported('rank')
            raise Unsupported('sequence association of different ranks (%s)' % a[1])
        base = [self.evi(x, pt, ctx) for x in a[2]]
        if len(dd) == 1:
            k = idx[0] - base[0]
            cond = ge(k, 0)
            if dd[0][1] is not None:
                cond = cond * le(k, dd[0][1] - dd[0][0])
            for x, y in zip(base[1:], idx[1:]):
                cond = cond * eq(x, y)
            if len(D) > 1 and dd[0][1] is not None and D[0][1] is not None:
                # must stay within the first dimension
                if ctx.decide(le(base[0] + dd[0][1] - dd[0][0], D[0][1])) is not True:
                    raise Unsupported('sequence association crosses a column')
            return (k + dd[0][0],), cond
        # leading dims passed from their lower bounds: A(lo,lo,k) -> rank r slice
        r = len(dd)
        for q in range(r):
            if r == len(D) and q == r - 1:
                break
            if ctx.decide(eq(base[q], D[q][0])) is not True:
                raise Unsupported('sequence association')
        self.check_extents(dd, D[:r], ctx, 1 if r == len(D) else 0, full=(r < len(D)))
        cond = ONE
        for q in range(r, len(D)):
            cond = cond * eq(base[q], idx[q])
        out = [idx[q] - D[q][0] + dd[q][0] for q in range(r)]
        if r == len(D):
            out[r - 1] = idx[r - 1] - base[r - 1] + dd[r - 1][0]
            cond = cond * ge(idx[r - 1], base[r - 1])
            if dd[r - 1][1] is not None:
                cond = cond * le(out[r - 1], dd[r - 1][1])
        return tuple(out), cond

    def check_extents(self, dd, D, ctx, skip, full=False):
        n = len(dd) if full else len(dd) - 1
        for q in range(n):
            if dd[q][1] is None or D[q][1] is None:
                raise Unsupported('assumed-size')
            if ctx.decide(eq(dd[q][1] - dd[q][0], D[q][1] - D[q][0])) is not True:
                raise Unsupported('extents differ')

    def dummy_to_actual(self, cf, i, w, a, pt, ctx):
        dv = cf.unit.vars[cf.unit.args[i]]
        if dv.dims is None:
            return tuple(self.evi(x, pt, ctx) for x in a[2]) if a[0] == 'idx' else ()
        dd, D = self.shape_match(cf, i, a, pt, ctx)
        if a[0] == 'name':
            if len(dd) != len(D):
                raise Unsupported('sequence association of different ranks (%s)' % a[1])
            self.check_extents(dd, D, ctx, 0)
            return tuple(x - e[0] + d[0] for x, d, e in zip(w, D, dd))
        base = [self.evi(x, pt, ctx) for x in a[2]]
        if len(dd) == 1:
            return tuple([base[0] + w[0] - dd[0][0]] + base[1:])
        r = len(dd)
        if r > len(D):
            # the last dimension of the actual holds several of the dummy's
            m = len(D) - 1
            self.check_extents(dd[:m], D[:m], ctx, 0, full=True)
            e, st = base[m], ONE
            for q in range(m, r):
                e = e + (w[q] - dd[q][0]) * st
                if q < r - 1:
                    st = st * (dd[q][1] - dd[q][0] + 1)
            return tuple(w[q] - dd[q][0] + base[q] for q in range(m)) + (e,)
        self.check_extents(dd, D[:r], ctx, 1 if r == len(D) else 0, full=(r < len(D)))
        out = [w[q] - dd[q][0] + D[q][0] for q in range(r)] + base[r:]
        if r == len(D):
            out[r - 1] = w[r - 1] - dd[r - 1][0] + base[r - 1]
        return tuple(out)

    # -------------------------------------------------- entry
    def entry_val(self, fr, name, idx, ctx):
        u = fr.unit
        v = u.vars.get(name)
        if v is None:
            raise Unsupported('unknown variable %s' % name)
        if v.param is not None:
            x, t = self.ev(v.param, fr.entry, ctx)
            return x
        if name in u.args:
            i = u.args.index(name)
            if fr.caller is None:
                bn = self.argmap.get(name, name)
                if v.type == 'S':
                    if bn in self.strs:
                        return self.strs[bn]
                    return 'sym:' + bn
                if not idx and bn in self.fixed:
                    return P(self.fixed[bn])
                sort = 'I' if v.type == 'I' else ('B' if v.type == 'L' else 'R')
                if idx:
                    if bn in self.fixarr and all(x.isconst() for x in idx):
                        return P(self.fixarr[bn](tuple(int(x.cval()) for x in idx)))
                    return self.arrbase(bn, idx, sort)
                return var(bn, sort)
            a = fr.args[i]
            pt = fr.caller
            cfr = pt.frame
            if a[0] in ('name', 'idx') and self.is_array(cfr, a[1]):
                if not idx and v.dims is None:
                    if a[0] != 'idx':
                        raise Unsupported('array passed to scalar dummy')
                    return self.val(cfr, a[1], tuple(self.evi(x, pt, ctx) for x in a[2]), pt, ctx)
                m = self.dummy_to_actual(fr, i, idx, a, pt, ctx)
                return self.val(cfr, a[1], m, pt, ctx)
            if idx:
                raise Unsupported('scalar passed to array dummy')
            x, t = self.ev(a, pt, ctx)
            return x
        if (u.name, name) in self.savestate:
            return self.savestate[(u.name, name)](idx)
        if v.data is not None:
            return self.data_val(fr, name, idx, ctx)
        if v.init is not None:
            return self.ev(v.init, fr.entry, ctx)[0]
        # uninitialised local
        sort = 'I' if v.type == 'I' else ('B' if v.type == 'L' else 'R')
        self.uninit.append((u.name, name))
        if idx:
            return read('?%s.%s' % (u.name, name), idx, sort)
        return var('?%s.%s' % (u.name, name), sort)

    def data_val(self, fr, name, idx, ctx):
        u = fr.unit
        for targets, vals in u.datas:
            pos = 0
            for (n, ix) in targets:
                v = u.vars[n]
                if ix is not None:
                    size = 1
                elif v.dims is None:
                    size = 1
                else:
                    dims = self.dims(fr, n)
                    size = 1
                    for lo, hi in dims:
                        size *= int((hi - lo + 1).cval())
                if n == name:
                    if ix is not None:
                        w = tuple(self.evi(a, fr.entry, ctx) for a in ix)
                        if all((a - b).iszero() for a, b in zip(w, idx)):
                            return self.ev(vals[pos], fr.entry, ctx)[0]
                    elif v.dims is None:
                        return self.ev(vals[pos], fr.entry, ctx)[0]
                    else:
                        dims = self.dims(fr, n)
                        off, mul = ZERO, 1
                        for (lo, hi), k in zip(dims, idx):
                            off = off + (k - lo).scale(mul)
                            mul *= int((hi - lo + 1).cval())
                        if off.isconst():
                            return self.ev(vals[pos + int(off.cval())], fr.entry, ctx)[0]
                        # symbolic index into a constant table
                        r = ZERO
                        for q in range(size):
                            r = r + eq(off, q) * self.ev(vals[pos + q], fr.entry, ctx)[0]
                        return r
                pos += size
        raise Unsupported('data ' + name)

    def is_array(self, fr, name):
        v = fr.unit.vars.get(name)
        return v is not None and v.dims is not None

    # -------------------------------------------------- expressions
    def evi(self, e, pt, ctx):
        v, t = self.ev(e, pt, ctx)
        if t != 'I':
            raise Unsupported('integer expression expected')
        return v

    def evb(self, e, pt, ctx):
        v, t = self.ev(e, pt, ctx)
        if t != 'L':
            raise Unsupported('logical expression expected')
        return v

    def ev(self, e, pt, ctx):
        k = e[0]
        if k == 'num':
            return const(e[1]), ('I' if e[2] == 'I' else 'R')
        if k == 'name':
            fr = pt.frame
            n = e[1]
            if self.is_array(fr, n):
                raise Unsupported('whole array in scalar expression: ' + n)
            return self.val(fr, n, (), pt, ctx), self.typ(fr, n)
        if k == 'log':
            return (ONE if e[1] else ZERO), 'L'
        if k == 'str':
            return e[1], 'S'
        if k == 'achar':
            v, t = self.ev(e[1], pt, ctx)
            if not v.isconst():
                v = sym.decided(v, ctx)
            if not v.isconst():
                raise Unsupported('character that is not fixed by the configuration')
            return chr(int(v.cval())), 'S'
        if k == 'paren':
            return self.ev(e[1], pt, ctx)
        if k in ('bin', 'un'):
            return self.ev_op(e, pt, ctx, lambda x: self.ev(x, pt, ctx))
        if k == 'idx':
            return self.ev_idx(e, pt, ctx)
        raise Unsupported('expression %s' % k)

    def ev_op(self, e, pt, ctx, ev):
        if e[0] == 'un':
            x, t = ev(e[2])
            if e[1] == '-':
                return -x, t
            return lnot(x), 'L'
        op = e[1]
        a, ta = ev(e[2])
        b, tb = ev(e[3])
        if op in ('+', '-', '*'):
            t = 'I' if ta == tb == 'I' else 'R'
            return (a + b if op == '+' else a - b if op == '-' else a * b), t
        if op == '/':
            if ta == tb == 'I':
                return idiv(a, b), 'I'
            return a / b, 'R'
        if op == '**':
            t = 'I' if ta == tb == 'I' else 'R'
            if t == 'I' and not (b.isconst() and b.cval() >= 0):
                raise Unsupported('integer power')
            return a ** b, t
        if ta == 'S' or tb == 'S':
            return self.str_cmp(op, a, b), 'L'
        if op in ('==', '/=', '<', '<=', '>', '>='):
            isint = ta == 'I' and tb == 'I'
            d = a - b
            if op == '==':
                return eq0(d), 'L'
            if op == '/=':
                return lnot(eq0(d)), 'L'
            if op == '<':
                return gt0(-d, isint), 'L'
            if op == '<=':
                return ge0(-d, isint), 'L'
            if op == '>':
                return gt0(d, isint), 'L'
            return ge0(d, isint), 'L'
        if op == '.and.':
            return a * b, 'L'
        if op == '.or.':
            return lor(a, b), 'L'
        if op == '.eqv.':
            return a * b + lnot(a) * lnot(b), 'L'
        if op == '.neqv.':
            return lnot(a * b + lnot(a) * lnot(b)), 'L'
        raise Unsupported('operator ' + op)

    def str_cmp(self, op, a, b):
        sa, sb = isinstance(a, str) and not a.startswith('sym:'), isinstance(b, str) and not b.startswith('sym:')
        if sa and sb:
            eqv = a.rstrip() == b.rstrip()
            if op == '==':
                return P(eqv)
            if op == '/=':
                return P(not eqv)
            raise Unsupported('string order')
        if b < a:
            a, b = b, a
        c = P(mk('f', ('streq', (a, b)), 'B'))
        return c if op == '==' else lnot(c)

    def ev_idx(self, e, pt, ctx):
        n, args = e[1], e[2]
        fr = pt.frame
        v = fr.unit.vars.get(n)
        if v is not None and v.type == 'S' and v.dims is None:
            s = self.val(fr, n, (), pt, ctx)
            a = args[0]
            if a[0] != 'slice':
                raise Unsupported('string subscript')
            lo = self.evi(a[1], pt, ctx) if a[1] is not None else ONE
            hi = self.evi(a[2], pt, ctx) if a[2] is not None else None
            if s.startswith('sym:'):
                return s + '(%s:%s)' % (lo, hi), 'S'
            l = int(lo.cval())
            h = int(hi.cval()) if hi is not None else len(s)
            return s.ljust(h)[l - 1:h], 'S'
        if v is not None and v.dims is not None:
            if any(a[0] == 'slice' for a in args):
                raise Unsupported('array section in scalar expression')
            ix = tuple(self.evi(a, pt, ctx) for a in args)
            if len(ix) != len(v.dims):
                raise Unsupported('rank mismatch ' + n)
            al = self.alias
            if al is not None and al[0] == n and al[3] is pt and al[4] is ctx and al[1] == ix:
                ix = al[2]
            return self.val(fr, n, ix, pt, ctx), self.typ(fr, n)
        if n in fr.unit.stmtfuncs:
            params, body = fr.unit.stmtfuncs[n]
            vals = [a for a in args]
            return self.ev(ast_subst(body, dict(zip(params, vals))), pt, ctx)
        if n in self.opaque:
            vals = [self.ev(a, pt, ctx) for a in args]
            self.used.add(n)
            h = self.opaque[n]
            if callable(h):
                return h(*[x for x, t in vals]), 'R'
            return app(n, *[x for x, t in vals]), 'R'
        if n in self.units and self.units[n].kind == 'function':
            return self.call_fn(n, args, pt, ctx, e)
        if n in INTRIN:
            return self.intrinsic(n, args, pt, ctx)
        raise Unsupported('unknown function ' + n)

    def call_fn(self, n, args, pt, ctx, e):
        cu = self.units[n]
        w = self.unit_writes(cu)
        for a in cu.args:
            if a in w:
                raise Unsupported('function %s writes its argument' % n)
        cf = self.frame_for(cu, pt, args)
        t = cu.vars[cu.result].type
        t = 'R' if t == 'R4' else t
        return self.val(cf, cu.result, (), cf.end, ctx), t

    def intrinsic(self, n, args, pt, ctx):
        if n in ('sum', 'product', 'dot_product', 'maxval', 'minval', 'size'):
            return self.array_intrinsic(n, args, pt, ctx)
        vs = [self.ev(a, pt, ctx) for a in args]
        x, t = vs[0]
        if n in ('abs', 'dabs', 'iabs'):
            d = ctx.decide(ge0(x))
            if d is True:
                return x, t
            if d is False:
                return -x, t
            return absx(x), t
        if n in ('min', 'dmin1', 'amin1', 'min0'):
            return minn(*[a for a, _ in vs]), ('I' if all(b == 'I' for _, b in vs) else 'R')
        if n in ('max', 'dmax1', 'amax1', 'max0'):
            return maxx(*[a for a, _ in vs]), ('I' if all(b == 'I' for _, b in vs) else 'R')
        if n in ('sqrt', 'dsqrt'):
            return sqrt(x), 'R'
        if n in ('mod', 'dmod', 'modulo'):
            if t == 'I':
                if n == 'modulo':
                    raise Unsupported('modulo')
                return modx(x, vs[1][0]), 'I'
            raise Unsupported('real mod')
        if n in ('dble', 'real', 'float', 'dfloat', 'sngl'):
            return x, 'R'
        if n in ('int', 'idint'):
            if t == 'I' or poly_sort(x) == 'I':
                return x, 'I'
            return app('trunc', x, sort='I'), 'I'
        if n in ('sign', 'dsign'):
            y = vs[1][0]
            return ite(ge0(y), absx(x), -absx(x)), t
        if n == 'merge':
            return ite(vs[2][0], x, vs[1][0]), t
        if n == 'trim':
            return (x.rstrip() if not x.startswith('sym:') else x), 'S'
        b = n
        if b.startswith('d') and b[1:] in TRANS | {'atan2'}:
            b = b[1:]
        if b == 'alog':
            b = 'log'
        if b == 'atan2':
            return app('atan2', x, vs[1][0]), 'R'
        if b in TRANS:
            return trans(b, x), 'R'
        if b in ('isnan', 'ieee_is_nan'):
            return ZERO, 'L'        # reals are exact: no NaN
        raise Unsupported('intrinsic ' + n)

    def array_intrinsic(self, n, args, pt, ctx):
        raise Unsupported('array intrinsic ' + n)


def ast_subst(e, mp):
    if not isinstance(e, tuple):
        if isinstance(e, list):
            return [ast_subst(x, mp) for x in e]
        return e
    if e and e[0] == 'name' and e[1] in mp:
        return ('paren', mp[e[1]])
    return tuple(ast_subst(x, mp) if isinstance(x, (tuple, list)) else x for x in e)


def trans(f, x):
    x = P(x)
    if f == 'exp' and x.iszero():
        return ONE
    if f == 'log' and x == ONE:
        return ZERO
    if f in ('tanh', 'sinh', 'sin', 'tan', 'atan', 'asin') and x.iszero():
        return ZERO
    if f in ('cosh', 'cos') and x.iszero():
        return ONE
    if f in ('tanh', 'sinh', 'sin', 'tan', 'atan', 'cosh', 'cos') and not x.isconst():
        # parity
        l = x.t[max((m for m in x.t), key=lambda m: (len(m), m))]
        if l < 0:
            r = app(f, -x)
            return r if f in ('cosh', 'cos') else -r
    return app(f, x)


for _f in TRANS:
    sym.REBUILD[_f] = (lambda f: (lambda x: trans(f, x)))(_f)


def maxover_args(uid, lo, U, st, x):
    b = bvar(500)
    return (lo, U, st, subst(x, {uid: P(b)}))


Ctx0 = Ctx()
