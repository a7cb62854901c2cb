"""Exact symbolic values: polynomials over interned atoms (reals are exact,
literals are exact decimals), Iverson brackets for conditions, finite sums with
symbolic bounds, and a decision procedure (normal form + z3)."""
from fractions import Fraction
import itertools, math
import z3


class SymError(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'args', 'sort', 'deps', 'lvl', 'z')

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_byid = []


def reset():
    pass


def mk(kind, args, sort):
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_byid)
        a.kind, a.args, a.sort = kind, args, sort
        a.z = None
        deps = set()
        lvl = 0

        def scan(x):
            nonlocal lvl
            if isinstance(x, Poly):
                for aid in x.atoms():
                    at = _byid[aid]
                    deps.update(at.deps)
                    lvl = max(lvl, at.lvl)
            elif isinstance(x, tuple):
                for y in x:
                    scan(y)
        _byid.append(a)
        if kind == 'v':
            a.deps = frozenset([a.id])
            a.lvl = 0
        else:
            scan(args)
            if kind == 'S':
                binders, body, base = args
                for k in range(len(binders)):
                    deps.discard(bvar(base + k).id)
                lvl = base + len(binders)
            a.deps = frozenset(deps)
            a.lvl = lvl
        _atoms[key] = a
    return a


def bvar(k):
    return mk('v', ('#%d' % k,), 'I')


def atom(i):
    return _byid[i]


def num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('t', '_h', '_a', '_d')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._a = None
        self._d = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if not isinstance(o, Poly):
            if isinstance(o, (int, Fraction)):
                return self == const(o)
            return NotImplemented
        return self.t == o.t

    def atoms(self):
        if self._a is None:
            s = set()
            for m in self.t:
                for (a, e) in m:
                    s.add(a)
            self._a = s
        return self._a

    def deps(self):
        if self._d is None:
            d = set()
            for a in self.atoms():
                d |= _byid[a].deps
            self._d = frozenset(d)
        return self._d

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def iszero(self):
        return not self.t

    def __add__(self, o):
        o = P(o)
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = num(v)
            else:
                t.pop(m, None)
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, k):
        if not k:
            return ZERO
        return Poly({m: num(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if o.isconst():
            return self.scale(o.cval())
        if self.isconst():
            return o.scale(self.cval())
        if len(self.t) * len(o.t) > MAXTERMS:
            raise SymError('expression too large')
        t = {}
        fix = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, f = mmul(m1, m2)
                fix = fix or f
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = num(v)
                else:
                    t.pop(m, None)
        r = Poly(t)
        if fix:
            r = fixup(r)
        return r
    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, Poly):
            if not n.isconst():
                return power(self, n)
            n = n.cval()
        if isinstance(n, Fraction):
            if n.denominator == 1:
                n = n.numerator
            elif n.denominator == 2:
                return sqrt(self) ** n.numerator
            else:
                return power(self, const(n))
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def __repr__(self):
        return show(self)


MAXTERMS = 4000000


def mmul(a, b):
    """merge monomials; second result True when the product needs fixup"""
    if not a:
        return b, False
    if not b:
        return a, False
    out = []
    i = j = 0
    fix = False
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            k = _byid[x[0]].kind
            if e:
                if k == 'b':
                    e = 1
                elif k == 'P' and e > 0:
                    fix = True
                elif k == 'q' and (e >= 2 or e <= -2):
                    fix = True
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out), fix


def fixup(p):
    """expand P(p)^k (k>0) and even powers of sqrt atoms"""
    r = ZERO
    plain = {}
    for m, c in p.t.items():
        bad = [(a, e) for (a, e) in m if (_byid[a].kind == 'P' and e > 0) or
               (_byid[a].kind == 'q' and (e >= 2 or e <= -2))]
        if not bad:
            plain[m] = c
            continue
        rest = []
        f = ONE
        for (a, e) in m:
            at = _byid[a]
            if at.kind == 'P' and e > 0:
                f = f * (at.args[0] ** e)
            elif at.kind == 'q' and (e >= 2 or e <= -2):
                q = e // 2
                f = f * (at.args[0] ** q)
                if e - 2 * q:
                    rest.append((a, e - 2 * q))
            else:
                rest.append((a, e))
        r = r + Poly({tuple(rest): c}) * f
    return Poly(plain) + r


def const(c):
    c = num(Fraction(c)) if not isinstance(c, int) else c
    return Poly({(): c}) if c else ZERO


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): 1})
    if isinstance(x, float):
        return const(Fraction(str(x)))
    raise SymError('not a value: %r' % (x,))


ZERO = Poly({})
ONE = Poly({(): 1})


def var(name, sort='R'):
    return P(mk('v', (name,), sort))


def read(arr, idx, sort='R'):
    return P(mk('r', (arr, tuple(P(i) for i in idx)), sort))


def app(f, *args, sort='R'):
    return P(mk('f', (f, tuple(a if isinstance(a, (str, tuple)) else P(a) for a in args)), sort))


def lead(p):
    """canonical leading monomial: the largest under a fixed order"""
    return max(p.t, key=lambda m: (len(m), m))


def content(p):
    """monomial content (common factor)"""
    it = iter(p.t)
    m = dict(next(it))
    for x in it:
        d = dict(x)
        for a in list(m):
            if a not in d or (d[a] > 0) != (m[a] > 0):
                del m[a]
            else:
                m[a] = min(m[a], d[a]) if m[a] > 0 else max(m[a], d[a])
        if not m:
            break
    return tuple(sorted(m.items()))


def minv(m):
    return tuple((a, -e) for a, e in m)


def inv(p):
    p = P(p)
    if p.iszero():
        raise SymError('division by zero')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly({minv(m): num(Fraction(1) / c)})
        return fixup(r) if any(_byid[a].kind in 'Pq' for a, e in m) else r
    # clear negative exponents
    neg = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    if neg:
        mm = tuple(sorted((a, -e) for a, e in neg.items()))
        f = Poly({mm: 1})
        # multiply without P-cancellation surprises
        p2 = fixup(p * f)
        return fixup(f) * inv(p2) if not any(_byid[a].kind == 'P' for a in neg) else fixup(f) * inv(p2)
    ct = content(p)
    f = ONE
    if ct:
        f = Poly({minv(ct): 1})
        p = Poly({mmul(m, minv(ct))[0]: c for m, c in p.t.items()})
        if len(p.t) == 1:
            return f * inv(p)
    lc = p.t[lead(p)]
    p = p.scale(Fraction(1) / lc)
    return f * Poly({((mk('P', (p,), 'R').id, -1),): num(Fraction(1) / lc)})


def sqrt(p):
    p = P(p)
    if p.isconst():
        c = Fraction(p.cval())
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
            # keep squarefree integer part
            k = c.numerator * c.denominator
            s = 1
            f = 2
            while f * f <= k and f < 2000:
                while k % (f * f) == 0:
                    k //= f * f
                    s *= f
                f += 1
            return P(mk('q', (const(k),), 'R')).scale(Fraction(s, c.denominator))
    # factor out rational square content
    g = None
    for c in p.t.values():
        c = Fraction(c)
        g = c if g is None else Fraction(math.gcd(g.numerator, c.numerator),
                                         (g.denominator * c.denominator) // math.gcd(g.denominator, c.denominator))
    g = abs(g)
    n, d = math.isqrt(g.numerator), math.isqrt(g.denominator)
    s = Fraction(1)
    if n * n == g.numerator and d * d == g.denominator and g != 1:
        s = Fraction(n, d)
        p = p.scale(1 / g)
    return P(mk('q', (p,), 'R')).scale(s)


def power(b, e):
    b, e = P(b), P(e)
    if e.isconst():
        n = Fraction(e.cval())
        if n.denominator == 1:
            return b ** int(n)
        if n.denominator == 2:
            return sqrt(b) ** int(n.numerator)
    if b == ONE:
        return ONE
    return P(mk('w', (b, e), 'R'))


def poly_sort(p):
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            return 'R'
        for a, e in m:
            if _byid[a].sort != 'I' or e < 0:
                return 'R'
    return 'I'


# ------------------------------------------------------------ conditions
# a condition is a Poly with values 0/1

def _prim(p):
    """scale so that coefficients are coprime integers with positive leading
    coefficient of the non-constant part; returns (q, sign)"""
    den = 1
    for c in p.t.values():
        den = den * Fraction(c).denominator // math.gcd(den, Fraction(c).denominator)
    g = 0
    for c in p.t.values():
        g = math.gcd(g, int(Fraction(c) * den))
    k = Fraction(den, g)
    nm = [m for m in p.t if m != ()]
    l = max(nm, key=lambda m: (len(m), m))
    s = 1 if p.t[l] > 0 else -1
    return p.scale(k * s), s


def _bools(p, f):
    """f(p) for a p over few 0/1 atoms alone, as a polynomial in them"""
    ats = []
    for m in p.t:
        for a, e in m:
            if _byid[a].kind != 'b':
                return None
            if a not in ats:
                ats.append(a)
    if len(ats) > 4:
        return None
    r = ZERO
    for bits in range(1 << len(ats)):
        on = {a for j, a in enumerate(ats) if bits >> j & 1}
        if f(sum(c for m, c in p.t.items() if all(a in on for a, e in m))):
            t = ONE
            for a in ats:
                q = Poly({((a, 1),): 1})
                t = t * (q if a in on else ONE - q)
            r = r + t
    return r


def ge0(p, isint=None):
    p = P(p)
    r = _bools(p, lambda v: v >= 0)
    if r is not None:
        return r
    if p.isconst():
        return ONE if p.cval() >= 0 else ZERO
    if isint is None:
        isint = poly_sort(p) == 'I'
    if isint:
        # content without constant term
        g = 0
        for m, c in p.t.items():
            if m != ():
                g = math.gcd(g, int(c))
        k = p.t.get((), 0)
        q = Poly({m: (c // g) for m, c in p.t.items() if m != ()}) + (k // g)
        nm = [m for m in q.t if m != ()]
        l = max(nm, key=lambda m: (len(m), m))
        if q.t[l] > 0:
            return P(mk('b', ('ge', q), 'B'))
        return ONE - P(mk('b', ('ge', -q - 1), 'B'))
    q, s = _prim(p)
    if s > 0:
        return P(mk('b', ('ge', q), 'B'))
    return ONE - P(mk('b', ('gt', q), 'B'))


def gt0(p, isint=None):
    p = P(p)
    r = _bools(p, lambda v: v > 0)
    if r is not None:
        return r
    if p.isconst():
        return ONE if p.cval() > 0 else ZERO
    if isint is None:
        isint = poly_sort(p) == 'I'
    if isint:
        return ge0(p - 1, True)
    q, s = _prim(p)
    if s > 0:
        return P(mk('b', ('gt', q), 'B'))
    return ONE - P(mk('b', ('ge', q), 'B'))


def eq0(p):
    p = P(p)
    r = _bools(p, lambda v: v == 0)
    if r is not None:
        return r
    if p.isconst():
        return ONE if p.cval() == 0 else ZERO
    q, s = _prim(p)
    if poly_sort(q) == 'I':
        # a constant not divisible by the gcd of the other coefficients
        g = 0
        for m, c in q.t.items():
            if m != ():
                g = math.gcd(g, int(c))
        if int(q.t.get((), 0)) % g:
            return ZERO
    return P(mk('b', ('eq', q), 'B'))


def lt(a, b):
    return gt0(P(b) - P(a))


def le(a, b):
    return ge0(P(b) - P(a))


def gt(a, b):
    return gt0(P(a) - P(b))


def ge(a, b):
    return ge0(P(a) - P(b))


def eq(a, b):
    return eq0(P(a) - P(b))


def land(*cs):
    r = ONE
    for c in cs:
        r = r * P(c)
    return r


def lnot(c):
    return ONE - P(c)


def lor(a, b):
    return P(a) + P(b) - P(a) * P(b)


def ite(c, a, b):
    c, a, b = P(c), P(a), P(b)
    if c.isconst():
        return a if c.cval() else b
    if a == b:
        return a
    return c * (a - b) + b


def maxx(*xs):
    xs = [P(x) for x in xs]
    flat = []
    for x in xs:
        # flatten max atoms
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = _byid[m[0][0]]
                if a.kind == 'f' and a.args[0] == 'max':
                    flat.extend(a.args[1])
                    continue
        flat.append(x)
    uniq = []
    for x in flat:
        if x not in uniq:
            uniq.append(x)
    # drop those dominated by constants
    changed = True
    while changed:
        changed = False
        for i in range(len(uniq)):
            for j in range(len(uniq)):
                if i != j:
                    d = uniq[i] - uniq[j]
                    if d.isconst() and d.cval() <= 0:
                        del uniq[i]
                        changed = True
                        break
            if changed:
                break
    if len(uniq) == 1:
        return uniq[0]
    uniq.sort(key=pkey)
    s = 'I' if all(poly_sort(u) == 'I' for u in uniq) else 'R'
    return P(mk('f', ('max', tuple(uniq)), s))


def minn(*xs):
    return -maxx(*[-P(x) for x in xs])


def absx(x):
    x = P(x)
    if x.isconst():
        return const(abs(x.cval()))
    l = x.t[max((m for m in x.t if m != ()), key=lambda m: (len(m), m))]
    if l < 0:
        x = -x
    return P(mk('f', ('abs', (x,)), poly_sort(x)))


def pkey(p):
    return tuple(sorted((m, (Fraction(c).numerator, Fraction(c).denominator)) for m, c in p.t.items()))


def idiv(a, b):
    a, b = P(a), P(b)
    if a.isconst() and b.isconst():
        q = abs(int(a.cval())) // abs(int(b.cval()))
        return const(q if (a.cval() >= 0) == (b.cval() > 0) else -q)
    if b == ONE:
        return a
    return P(mk('i', (a, b), 'I'))


def modx(a, b):
    a, b = P(a), P(b)
    if a.isconst() and b.isconst():
        x, y = int(a.cval()), int(b.cval())
        r = abs(x) % abs(y)
        return const(r if x >= 0 else -r)
    return a - b * idiv(a, b)


# ------------------------------------------------------------ substitution

def subst(p, mp, memo=None):
    """mp: {var atom id: Poly}"""
    if not (p.deps() & mp.keys()):
        return p
    if memo is None:
        memo = {}
    r = ZERO
    for m, c in p.t.items():
        f = const(c)
        rest = []
        for a, e in m:
            at = _byid[a]
            if at.deps.isdisjoint(mp):
                rest.append((a, e))
            else:
                v = subst_atom(at, mp, memo)
                f = f * (v ** e)
        if rest:
            f = f * Poly({tuple(rest): 1})
        r = r + f
    return r


def subst_atom(at, mp, memo):
    if at.id in memo:
        return memo[at.id]
    if at.kind == 'v':
        r = mp.get(at.id)
        if r is None:
            r = P(at)
    elif at.kind == 'S':
        binders, body, base = at.args
        # bound variables are renamed to fresh ones, then rebuilt
        fr = [fresh('s', 'I') for _ in binders]
        ren = {bvar(base + k).id: fr[k] for k in range(len(binders))}
        body = subst(subst(body, ren), mp)
        nb = [tuple(subst(subst(x, ren), mp) for x in b) for b in binders]
        r = body
        for k in range(len(binders)):
            lo, hi, st = nb[k]
            r = summ(fr[k], lo, hi, r, st)
    else:
        r = rebuild(at, [subst_arg(x, mp, memo) for x in at.args])
    memo[at.id] = r
    return r


def subst_arg(x, mp, memo):
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, tuple):
        return tuple(subst_arg(y, mp, memo) for y in x)
    return x


def rebuild(at, args):
    k = at.kind
    if k == 'r':
        return P(mk('r', tuple(args), at.sort))
    if k == 'f':
        f, a = args
        if f == 'max':
            return maxx(*a)
        if f == 'abs':
            return absx(a[0])
        h = REBUILD.get(f)
        if h:
            return h(*a)
        return P(mk('f', (f, tuple(a)), at.sort))
    if k == 'P':
        return args[0]
    if k == 'q':
        return sqrt(args[0])
    if k == 'w':
        return power(args[0], args[1])
    if k == 'i':
        return idiv(args[0], args[1])
    if k == 'b':
        op, p = args
        return {'ge': ge0, 'gt': gt0, 'eq': eq0}[op](p)
    raise SymError('rebuild ' + k)


REBUILD = {}
_fresh = itertools.count()


def fresh(pfx, sort='I'):
    return var('%s~%d' % (pfx, next(_fresh)), sort)


def atom_of(p):
    """the atom when p is exactly one atom"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _byid[m[0][0]]
    return None


# ------------------------------------------------------------ sums

def linear_in(p, vid):
    """p = c*v + r with c,r free of v, or None"""
    c = ZERO
    r = {}
    for m, k in p.t.items():
        d = dict(m)
        if vid in d:
            if d[vid] != 1:
                return None
            rest = tuple((a, e) for a, e in m if a != vid)
            if any(vid in _byid[a].deps for a, e in rest):
                return None
            c = c + Poly({rest: k})
        else:
            if any(vid in _byid[a].deps for a, e in m):
                return None
            r[m] = k
    return c, Poly(r)


def summ(u, lo, hi, body, step=ONE):
    """sum over u = lo, lo+step, .. hi of body (u: Poly of a variable atom)"""
    lo, hi, body, step = P(lo), P(hi), P(body), P(step)
    if isinstance(u, Poly):
        u = atom_of(u)
    if lo.isconst() and hi.isconst() and step.isconst():
        r = ZERO
        k, h, s = int(lo.cval()), int(hi.cval()), int(step.cval())
        cnt = (h - k) // s + 1
        if cnt <= 0:
            return ZERO
        if cnt <= 100:
            for q in range(cnt):
                r = r + subst(body, {u.id: const(k + q * s)})
            return r
    r = ZERO
    for m, c in body.t.items():
        ind, dep = [], []
        for a, e in m:
            (dep if u.id in _byid[a].deps else ind).append((a, e))
        ip = Poly({tuple(ind): c})
        if not dep:
            if step == ONE:
                r = r + ip * (hi - lo + 1)
            else:
                r = r + ip * (idiv(hi - lo, step) + 1)
            continue
        # equality bracket on the summation variable
        done = False
        if step == ONE:
            for (a, e) in dep:
                at = _byid[a]
                if at.kind == 'b' and at.args[0] == 'eq':
                    l = linear_in(at.args[1], u.id)
                    if l and l[0].isconst() and abs(l[0].cval()) == 1:
                        sol = l[1].scale(-1 / Fraction(l[0].cval()))
                        rest = Poly({tuple(x for x in dep if x[0] != a): 1})
                        r = r + ip * ge(sol, lo) * le(sol, hi) * subst(rest, {u.id: sol})
                        done = True
                        break
        if done:
            continue
        r = r + ip * _sumatom(u, lo, hi, step, tuple(dep))
    return r


def _sumatom(u, lo, hi, step, dep):
    # flatten a single inner sum
    sums = [(a, e) for a, e in dep if _byid[a].kind == 'S']
    if len(sums) == 1 and sums[0][1] == 1:
        at = _byid[sums[0][0]]
        binders, body, base = at.args
        fr = [fresh('s', 'I') for _ in binders]
        ren = {bvar(base + k).id: fr[k] for k in range(len(binders))}
        body2 = subst(body, ren) * Poly({tuple(x for x in dep if x[0] != at.id): 1})
        bl = [(fr[k],) + tuple(subst(x, ren) for x in binders[k]) for k in range(len(binders))]
        bl.append((P(u), lo, hi, step))
        return mksum(bl, body2)
    return mksum([(P(u), lo, hi, step)], Poly({dep: 1}))


def mksum(bl, body):
    """bl: list of (var Poly, lo, hi, step), innermost first"""
    if len(body.t) != 1:
        r = ZERO
        for m, c in body.t.items():
            # refactor each monomial through the generic entry points
            x = Poly({m: c})
            for (v, lo, hi, st) in bl:
                x = summ(v, lo, hi, x, st)
            r = r + x
        return r
    (m, c), = body.t.items()
    if c != 1:
        return mksum(bl, Poly({m: 1})).scale(c)
    ids = [atom_of(b[0]).id for b in bl]
    # brackets decided by the binder ranges
    mp = {}
    for a, e in m:
        at = _byid[a]
        if at.kind == 'b' and at.args[0] == 'ge':
            for b in bl:
                l = linear_in(at.args[1], atom_of(b[0]).id)
                if l and l[0].isconst() and l[0].cval() != 0:
                    k = l[0].cval()
                    x1, x2 = b[1].scale(k) + l[1], b[2].scale(k) + l[1]
                    mn, mx = (x1, x2) if k > 0 else (x2, x1)
                    if mn.isconst() and mn.cval() >= 0:
                        mp[a] = 1
                    elif mx.isconst() and mx.cval() < 0:
                        return ZERO
    if mp:
        m = tuple(x for x in m if x[0] not in mp)
        r = Poly({m: 1})
        for (v, lo, hi, st) in bl:
            r = summ(v, lo, hi, r, st)
        return r
    lvl = 0
    for a, e in m:
        lvl = max(lvl, _byid[a].lvl)
    for b in bl:
        for x in b[1:]:
            for a in x.atoms():
                lvl = max(lvl, _byid[a].lvl)
    indep = all(not (x.deps() & set(ids)) for b in bl for x in b[1:])
    if len(bl) > 1 and indep:
        order = sorted(range(len(bl)), key=lambda k: tuple(pkey(x) for x in bl[k][1:]))
        # permutations among ties
        groups = []
        for k in order:
            kk = tuple(pkey(x) for x in bl[k][1:])
            if groups and groups[-1][0] == kk:
                groups[-1][1].append(k)
            else:
                groups.append((kk, [k]))
        best = None
        for perm in itertools.product(*[itertools.permutations(g[1]) for g in groups]):
            o = [k for g in perm for k in g]
            ren = {ids[k]: P(bvar(lvl + n)) for n, k in enumerate(o)}
            bb = subst(body, ren)
            key = pkey(bb)
            if best is None or key < best[0]:
                best = (key, o, bb)
        o, bb = best[1], best[2]
        nb = tuple(tuple(bl[k][1:]) for k in o)
    else:
        ren = {ids[k]: P(bvar(lvl + k)) for k in range(len(bl))}
        bb = subst(body, ren)
        nb = tuple(tuple(subst(x, ren) for x in b[1:]) for b in bl)
    return P(mk('S', (nb, bb, lvl), 'R'))


# ------------------------------------------------------------ z3

def zatom(at):
    if at.z is not None:
        return at.z
    k = at.kind
    if k == 'b':
        op, p = at.args
        e = zpoly(p)
        at.z = {'ge': e >= 0, 'gt': e > 0, 'eq': e == 0}[op]
    elif at.sort == 'I':
        if k == 'i' and at.args[1].isconst():
            b = int(at.args[1].cval())
            a = zpoly(at.args[0])
            if b > 0:
                at.z = z3.If(a >= 0, a / b, -((-a) / b))
            else:
                at.z = z3.If(a >= 0, -(a / (-b)), (-a) / (-b))
        elif k == 'f' and at.args[0] == 'max':
            xs = [zpoly(x) for x in at.args[1]]
            e = xs[0]
            for x in xs[1:]:
                e = z3.If(x > e, x, e)
            at.z = e
        elif k == 'f' and at.args[0] == 'abs':
            x = zpoly(at.args[1][0])
            at.z = z3.If(x >= 0, x, -x)
        else:
            at.z = z3.Int('a%d' % at.id)
    elif at.sort == 'B':
        at.z = z3.Bool('a%d' % at.id)
    else:
        if k == 'f' and at.args[0] == 'max':
            xs = [zpoly(x) for x in at.args[1]]
            e = xs[0]
            for x in xs[1:]:
                e = z3.If(x > e, x, e)
            at.z = e
        elif k == 'f' and at.args[0] == 'abs':
            x = zpoly(at.args[1][0])
            at.z = z3.If(x >= 0, x, -x)
        else:
            at.z = z3.Real('a%d' % at.id)
    return at.z


def zval(at):
    z = zatom(at)
    if at.sort == 'B':
        return z3.If(z, 1, 0)
    return z


def zpoly(p):
    isint = poly_sort2(p)
    terms = []
    for m, c in p.t.items():
        cc = Fraction(c)
        e = None
        den = None
        for a, k in m:
            at = _byid[a]
            z = zval(at)
            if not isint and z.sort() == z3.IntSort():
                z = z3.ToReal(z)
            if at.kind == 'P':
                # 1/p
                pz = zpoly(at.args[0])
                if pz.sort() == z3.IntSort():
                    pz = z3.ToReal(pz)
                for _ in range(-k):
                    den = pz if den is None else den * pz
                continue
            for _ in range(abs(k)):
                if k > 0:
                    e = z if e is None else e * z
                else:
                    den = z if den is None else den * z
        if isint:
            t = z3.IntVal(int(cc))
            t = t if e is None else (e if cc == 1 else t * e)
        else:
            t = z3.RealVal(str(cc))
            t = t if e is None else (e if cc == 1 else t * e)
            if den is not None:
                t = t / den
        terms.append(t)
    if not terms:
        return z3.IntVal(0)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


def poly_sort2(p):
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            return False
        for a, e in m:
            if _byid[a].sort == 'R' or e < 0:
                return False
    return True


def side_facts(p, seen, out):
    """defining facts for the non-variable atoms of p"""
    for a in p.atoms():
        if a in seen:
            continue
        seen.add(a)
        at = _byid[a]
        k = at.kind
        if k == 'i':
            x, b = at.args
            side_facts(x, seen, out)
            side_facts(b, seen, out)
            if not b.isconst():
                t, X, B = zatom(at), zpoly(x), zpoly(b)
                m = X - B * t
                out.append(z3.Implies(z3.And(X >= 0, B > 0), z3.And(m >= 0, m < B, t >= 0)))
                out.append(z3.Implies(z3.And(X <= 0, B > 0), z3.And(m <= 0, m > -B, t <= 0)))
                # truncated division by the same positive number is monotone
                for y in seen:
                    a2 = _byid[y]
                    if y != a and a2.kind == 'i' and a2.args[1] == b:
                        t2, X2 = zatom(a2), zpoly(a2.args[0])
                        out.append(z3.Implies(z3.And(B > 0, X >= X2), t >= t2))
                        out.append(z3.Implies(z3.And(B > 0, X <= X2), t <= t2))
        elif k == 'b':
            side_facts(at.args[1], seen, out)
        elif k == 'q':
            side_facts(at.args[0], seen, out)
            X = zpoly(at.args[0])
            s = zatom(at)
            if X.sort() == z3.IntSort():
                X = z3.ToReal(X)
            out.append(s >= 0)
            out.append(z3.Implies(X >= 0, s * s == X))
        elif k == 'P':
            side_facts(at.args[0], seen, out)
        elif k == 'r':
            for x in at.args[1]:
                side_facts(x, seen, out)
            h = ARRFACTS.get(at.args[0])
            if h:
                for q in h(at.args[1], P(at)):
                    out.append(zcond(q))
                    side_facts(q, seen, out)
        elif k == 'f':
            f, args = at.args
            for x in args:
                if isinstance(x, Poly):
                    side_facts(x, seen, out)
            h = FACTS.get(f)
            if h:
                for q in h(*args):
                    out.append(zcond(q))
                    side_facts(q, seen, out)


ARRFACTS = {}   # array name -> facts(idx, value): universally quantified preconditions
FACTS = {}   # function name -> facts (list of condition Polys) about app(f,*args)
FACTS['trunc'] = lambda x: [lor(lnot(ge0(x)), land(ge0(app('trunc', x, sort='I')), ge0(x - app('trunc', x, sort='I')), gt0(app('trunc', x, sort='I') + 1 - x))),
                            lor(ge0(x), land(ge0(-app('trunc', x, sort='I')), ge0(app('trunc', x, sort='I') - x), gt0(x - app('trunc', x, sort='I') + 1)))]
FACTS['exp'] = lambda x: [gt0(app('exp', x))]
FACTS['tanh'] = lambda x: [gt0(1 - app('tanh', x)), gt0(1 + app('tanh', x))]
FACTS['cosh'] = lambda x: [ge0(app('cosh', x) - 1)]


def zcond(c):
    """condition Poly -> z3 Bool"""
    c = P(c)
    if c.isconst():
        return z3.BoolVal(bool(c.cval()))
    if len(c.t) == 1:
        (m, k), = c.t.items()
        if k == 1:
            return z3.And([zatom(_byid[a]) for a, e in m]) if len(m) > 1 else zatom(_byid[m[0][0]])
    if len(c.t) == 2 and c.t.get(()) == 1:
        (m, k), = [(m, k) for m, k in c.t.items() if m != ()]
        if k == -1:
            return z3.Not(z3.And([zatom(_byid[a]) for a, e in m]) if len(m) > 1 else zatom(_byid[m[0][0]]))
    # product of (1-a) or a factors is the common case; general: arithmetic
    return zpoly(c) >= 1


ZTIME = 4000
STATS = {'z3': 0, 'z3time': 0.0, 'nf': 0}
import time as _time


class Ctx:
    """a set of assumptions (condition Polys known to be 1)"""

    def __init__(self, parent=None, fact=None):
        self.parent = parent
        self.facts = (parent.facts + (fact,)) if parent is not None else ()
        self.kids = {}
        self.cache = {}
        self._s = None
        self._si = None
        self._w = None
        self.lits = dict(parent.lits) if parent else {}
        self.eqs = list(parent.eqs) if parent else []
        if fact is not None:
            self._lit(fact)

    def _lit(self, fact):
        if len(fact.t) == 1:
            (m, k), = fact.t.items()
            if k == 1:
                for a, e in m:
                    self.lits[a] = 1
                    at = _byid[a]
                    if at.kind == 'b' and at.args[0] == 'eq':
                        self.eqs.append(at.args[1])
        elif len(fact.t) == 2 and fact.t.get(()) == 1:
            (m, k), = [(m, k) for m, k in fact.t.items() if m != ()]
            if k == -1 and len(m) == 1:
                self.lits[m[0][0]] = 0

    def assume(self, fact):
        fact = P(fact)
        if fact == ONE or fact in self.facts:
            return self
        k = self.kids.get(fact)
        if k is None:
            k = Ctx(self, fact)
            self.kids[fact] = k
        return k

    def assume_all(self, facts):
        c = self
        for f in facts:
            c = c.assume(f)
        return c

    def solver(self, intonly):
        s = self._si if intonly else self._s
        if s is None:
            s = z3.Solver()
            s.set('timeout', self.ztime(intonly))
            seen, out = set(), []
            for f in self.facts:
                if not isint_cond(f) and (intonly or wide(f)):
                    continue
                s.add(zcond(f))
                side_facts(f, seen, out)
            for o in out:
                s.add(o)
            if intonly:
                self._si = s
            else:
                self._s = s
        return s

    def ztime(self, intonly=False):
        """large nonlinear facts are rarely decided by the solver: give up fast"""
        if intonly:
            return ZTIME
        if self._w is None:
            self._w = sum(weight(f) * (4 if hasP(f) else 1) for f in self.facts)
        return ZTIME if self._w < 150 else 400

    def lit_simplify(self, c):
        ks = c.atoms() & self.lits.keys()
        if not ks:
            return c
        return set_brackets(c, {a: self.lits[a] for a in ks})

    def decide(self, c):
        """True / False / None"""
        c = P(c)
        if c.isconst():
            return bool(c.cval())
        c = self.lit_simplify(c)
        if c.isconst():
            return bool(c.cval())
        if c in self.cache:
            return self.cache[c]
        r = self._decide(c)
        self.cache[c] = r
        return r

    def _decide(self, c):
        t0 = _time.time()
        STATS['z3'] += 1
        intonly = isint_cond(c)
        s = self.solver(intonly)
        z = zcond(c)
        seen, out = set(), []
        side_facts(c, seen, out)
        r = None
        w = 0 if intonly else weight(c)
        if w > 100 or (w > 16 and hasP(c)) or (w > 12 and not intonly and wide(c)):
            return None
        if not intonly:
            # once given up on, tried only briefly elsewhere
            s.set('timeout', min(self.ztime(), 60) if c in SLOW else self.ztime())
        s.push()
        for o in out:
            s.add(o)
        s.push()
        s.add(z3.Not(z))
        k1 = s.check()
        if k1 == z3.unsat:
            r = True
        s.pop()
        if r is None:
            s.push()
            s.add(z)
            k2 = s.check()
            if k2 == z3.unsat:
                r = False
            elif k2 == z3.unknown and k1 == z3.unknown:
                SLOW.add(c)
            s.pop()
        s.pop()
        s.set('timeout', self.ztime(intonly))
        STATS['z3time'] += _time.time() - t0
        return r

    def feasible(self):
        """False only when the assumptions are contradictory"""
        if 'feas' not in self.cache:
            t0 = _time.time()
            STATS['z3'] += 1
            s = self.solver(True)
            r = s.check() != z3.unsat
            if r and self.ztime() > 400:
                s = self.solver(False)
                r = s.check() != z3.unsat
            STATS['z3time'] += _time.time() - t0
            self.cache['feas'] = r
        return self.cache['feas']


SLOW = set()


def polyargs(at):
    for x in at.args:
        if isinstance(x, Poly):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Poly):
                    yield y


def wide(c, d=0):
    """a nonlinear comparison between many real quantities: nothing the
    solver decides in reasonable time"""
    for a in c.atoms():
        for p in polyargs(_byid[a]):
            rs = {x for x in p.atoms() if _byid[x].kind != 'b'}
            if len(rs) > 5 and any(sum(abs(e) for x, e in m if x in rs) > 1 for m in p.t):
                return True
            if d < 2 and wide(p, d + 1):
                return True
    return False


def hasP(p):
    for a in p.atoms():
        at = _byid[a]
        if at.kind == 'P' or any(isinstance(x, Poly) and hasP(x) for x in at.args):
            return True
    return False


def weight(p, seen=None):
    seen = set() if seen is None else seen
    n = len(p.t)
    for a in p.atoms():
        if a in seen:
            continue
        seen.add(a)
        for x in polyargs(_byid[a]):
            n += weight(x, seen)
    return n


def isint_cond(c):
    for a in c.atoms():
        at = _byid[a]
        if at.kind == 'b':
            if poly_sort(at.args[1]) != 'I':
                return False
        elif at.sort != 'I':
            return False
    return True


_FREEH = {}


def freehash(at):
    """does the atom mention a bound variable that is not bound inside it (the
    argument of a vector function binds #700...)"""
    if not any(_byid[d].args[0].startswith('#') for d in at.deps):
        return False
    r = _FREEH.get(at.id)
    if r is None:
        def names(x, at):
            if isinstance(x, Poly):
                out = set()
                for a in x.atoms():
                    out |= atn(_byid[a])
                return out
            if isinstance(x, tuple):
                out = set()
                for y in x:
                    out |= names(y, at)
                return out
            return set()

        def atn(at):
            if at.kind == 'v':
                return {at.args[0]} if at.args[0].startswith('#') else set()
            if not any(_byid[d].args[0].startswith('#') for d in at.deps):
                return set()
            if at.kind == 'f' and at.args[0] in VECFUNS:
                n = VECFUNS[at.args[0]]
                out = set()
                for q, x in enumerate(at.args[1]):
                    s = names(x, at)
                    if q >= n:
                        s = {v for v in s if not 700 <= int(v[1:]) < 800}
                    out |= s
                return out
            return names(at.args, at)
        r = _FREEH[at.id] = bool(atn(at))
    return r


def decided(p, ctx, rounds=4):
    """every bracket, at any depth, that the context decides is replaced by
    its value"""
    for _ in range(rounds):
        mp = {}
        for a in sorted(allatoms(p)):
            at = _byid[a]
            if at.kind == 'b' and not freehash(at):
                d = ctx.decide(P(at))
                if d is not None:
                    mp[a] = ONE if d else ZERO
        for a in sorted(allatoms(p)):
            at = _byid[a]
            if at.kind == 'f' and at.sort == 'I' and not freehash(at):
                c = pinned(at, ctx)
                if c is not None:
                    mp[a] = c
        if not mp:
            return p
        p = subst_any(p, mp)
    return p


def pinned(at, ctx):
    """the constant an integer term equals under the context, if any"""
    cs = set()
    for f in ctx.facts:
        for b in f.atoms():
            if _byid[b].kind != 'b' or _byid[b].args[0] not in ('ge', 'gt', 'eq'):
                continue
            e = _byid[b].args[1]
            if at.id not in e.atoms():
                continue
            l = linear_in(e, at.id)
            if l and l[0].isconst() and l[1].isconst():
                c = -Fraction(l[1].cval()) / Fraction(l[0].cval())
                cs |= {c - 1, c, c + 1}
    for c in sorted(cs):
        if c.denominator == 1 and ctx.decide(eq(P(at), const(int(c)))) is True:
            return const(int(c))
    return None


def set_brackets(p, mp):
    """replace bracket atoms (top level) by 0/1 values"""
    t = {}
    for m, c in p.t.items():
        rest = []
        dead = False
        for a, e in m:
            if a in mp:
                if not mp[a]:
                    dead = True
                    break
            else:
                rest.append((a, e))
        if dead:
            continue
        rest = tuple(rest)
        v = t.get(rest, 0) + c
        if v:
            t[rest] = num(v)
        else:
            t.pop(rest, None)
    return Poly(t)


def clear(p):
    """clear P denominators and negative exponents: returns q with
    p = 0 <=> q = 0 (denominators being non-zero)"""
    for _ in range(60):
        # P atoms first, the one of highest level
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            return p
        Ps = [a for a in neg if _byid[a].kind == 'P']
        if Ps:
            a = max(Ps)
            k = -neg[a]
            base = _byid[a].args[0]
            pw = [ONE]
            for _i in range(k):
                pw.append(pw[-1] * base)
            r = ZERO
            groups = {}
            for m, c in p.t.items():
                e = 0
                rest = []
                for (x, ee) in m:
                    if x == a:
                        e = ee
                    else:
                        rest.append((x, ee))
                groups.setdefault(e, {})[tuple(rest)] = c
            for e, tt in groups.items():
                r = r + Poly(tt) * pw[k + e]
            p = fixup(r)
        else:
            mm = tuple(sorted((a, -e) for a, e in neg.items()))
            p = fixup(Poly({mmul(m, mm)[0]: c for m, c in p.t.items()}))
    raise SymError('clear')


DEBUGZ = bool(__import__('os').environ.get('DEBUGZ'))


class Result:
    def __init__(self, ok, why=None, ctx=None, resid=None):
        self.ok, self.why, self.ctx, self.resid = ok, why, ctx, resid

    def __bool__(self):
        return self.ok


def zero(p, ctx, depth=0, budget=None):
    """decide p == 0 for all values under ctx"""
    STATS['nf'] += 1
    if budget is None:
        budget = [3000]
    budget[0] -= 1
    if budget[0] < 0:
        return Result(False, 'budget', ctx, p)
    if p.iszero():
        return Result(True)
    p = ctx.lit_simplify(p)
    if p.iszero():
        return Result(True)
    br = [a for a in p.atoms() if _byid[a].kind == 'b']
    mp = {}
    for a in br:
        d = ctx.decide(P(_byid[a]))
        if d is not None:
            mp[a] = 1 if d else 0
    if mp:
        p = set_brackets(p, mp)
        if p.iszero():
            return Result(True)
    try:
        q = clear(fixup(p))
    except SymError as e:
        q = p
    if q.iszero():
        return Result(True)
    # equalities assumed in the context
    q2 = apply_eqs(q, ctx)
    if q2 is not q:
        if q2.iszero():
            return Result(True)
        return zero(q2, noeq(ctx), depth + 1, budget)
    # case splits
    br = [a for a in q.atoms() if _byid[a].kind == 'b']
    if br:
        a = min(br, key=lambda x: (isint_cond(P(_byid[x])) is False, x))
        if isint_cond(P(_byid[a])) is False:
            # integer conditions inside the real ones first
            for b in hidden_brackets(q):
                if isint_cond(P(_byid[b])) is not False:
                    return split_deep(q, b, ctx, depth, budget)
        return split(q, P(_byid[a]), ctx, depth, budget)
    for a in sorted(q.atoms()):
        at = _byid[a]
        if at.kind == 'f' and at.args[0] == 'max':
            xs = at.args[1]
            c = ge(xs[0], xs[1])
            for cc, val in ((c, maxx(*([xs[0]] + list(xs[2:])))), (lnot(c), maxx(*xs[1:]))):
                c2 = ctx.assume(cc)
                if ctx.decide(cc) is False or not c2.feasible():
                    continue
                r = zero(subst_any(q, {a: val}), c2, depth + 1, budget)
                if not r:
                    return r
            return Result(True)
        if at.kind == 'f' and at.args[0] == 'abs':
            x = at.args[1][0]
            c = ge0(x)
            for cc, val in ((c, x), (lnot(c), -x)):
                c2 = ctx.assume(cc)
                if ctx.decide(cc) is False or not c2.feasible():
                    continue
                r = zero(subst_any(q, {a: val}), c2, depth + 1, budget)
                if not r:
                    return r
            return Result(True)
    # brackets hidden inside atom arguments (not under a sum)
    mx = set()
    hb = hidden_brackets(q, mx)
    for a in hb:
        return split_deep(q, a, ctx, depth, budget)
    for a in sorted(mx):
        return split_max(q, a, ctx, depth, budget)
    th = {a: app('sinh', _byid[a].args[1][0]) / app('cosh', _byid[a].args[1][0]) for a in q.atoms()
          if _byid[a].kind == 'f' and _byid[a].args[0] == 'tanh'}
    if th and any(_byid[a].kind == 'f' and _byid[a].args[0] == 'cosh' for a in q.atoms()):
        return zero(subst_any(q, th), ctx, depth + 1, budget)
    q2 = leaf_step(q, ctx)
    if q2 is not None:
        return zero(q2, ctx, depth + 1, budget)
    # sums with equal ranges: pointwise
    r = zero_sums(q, ctx, depth, budget)
    if r is not None:
        return r
    if len(q.t) < 60:
        r = zero_z3(q, ctx)
        if r:
            return Result(True)
    return Result(False, 'nonzero normal form', ctx, q)


def leaf_step(q, ctx):
    """rewriting tried only when nothing else applies: integer variables
    pinned by their bounds, sums whose ranges differ by a few terms, vectors
    of known length in indicator form"""
    for v in sorted(q.deps()):
        at = _byid[v]
        if at.kind != 'v' or at.sort != 'I' or at.args[0].startswith('#'):
            continue
        for f in ctx.facts:
            if len(f.t) > 2 or v not in f.deps():
                continue
            b = [a for a in f.atoms() if _byid[a].kind == 'b']
            if len(b) != 1 or _byid[b[0]].args[0] not in ('ge', 'gt'):
                continue
            e = _byid[b[0]].args[1]
            l = linear_in(e, v)
            if not l or not l[0].isconst() or not l[1].isconst():
                continue
            c = -Fraction(l[1].cval()) / Fraction(l[0].cval())
            for c2 in {c, c - 1, c + 1}:
                if c2.denominator == 1 and ctx.decide(eq(P(at), const(int(c2)))) is True:
                    return subst(q, {v: const(int(c2))})
    # e >= 0 and not e > 0
    nn = {}
    for f in ctx.facts:
        b = [a for a in f.atoms() if _byid[a].kind == 'b']
        if len(b) == 1 and len(f.t) <= 2 and _byid[b[0]].args[0] in ('ge', 'gt'):
            at = _byid[b[0]]
            pos = f == P(at)
            if not pos and f != 1 - P(at):
                continue
            if (at.args[0] == 'ge') == pos:
                e, tag = (at.args[1] if pos else -at.args[1]), 1
            else:
                continue
            nn.setdefault(pkey(e), e)
    for key, e in nn.items():
        if pkey(-e) in nn:
            for v in sorted(e.atoms()):
                l = linear_in(e, v)
                if l and l[0].isconst() and v not in l[1].deps() and v in allatoms(q):
                    return subst_any(q, {v: l[1].scale(-1 / Fraction(l[0].cval()))})
    # sums
    groups = {}
    for a in sorted(q.atoms()):
        at = _byid[a]
        if at.kind != 'S' or len(at.args[0]) != 1:
            continue
        binders, body, base = at.args
        lo, hi, st = rebase(binders[0], base)
        if st != ONE:
            continue
        body = subst(body, {bvar(base).id: P(bvar(900))})
        groups.setdefault(body, []).append((a, lo, hi))
    for body, l in groups.items():
        for x in range(len(l)):
            for y in range(len(l)):
                a, lo, hi = l[x]
                b, lo2, hi2 = l[y]
                if x == y:
                    continue
                d, e = lo2 - lo, hi2 - hi
                at = lambda j: subst(body, {bvar(900).id: j})
                if e.iszero() and d.isconst() and 0 < d.cval() <= 8 and ctx.decide(ge(hi, lo2 - 1)) is True:
                    r = P(_byid[b])
                    for j in range(int(d.cval())):
                        r = r + at(lo + j)
                    return subst_any(q, {a: r})
                if d.iszero() and e.isconst() and 0 < e.cval() <= 8 and ctx.decide(ge(hi, lo - 1)) is True:
                    r = P(_byid[a])
                    for j in range(int(e.cval())):
                        r = r + at(hi + 1 + j)
                    return subst_any(q, {b: r})
    mp = {}
    for a in sorted(allatoms(q)):
        at = _byid[a]
        if at.kind == 'f' and at.args[0] in SYMMETRIC and not any(_byid[d].args[0].startswith('#') for d in at.deps):
            x, y = at.args[1][:2]
            if pkey(y) < pkey(x):
                mp[a] = app(at.args[0], y, x, *at.args[1][2:])
    if mp:
        return subst_any(q, mp)
    q2 = vec_canon(q)
    return None if q2 == q else q2


def vecnums(a):
    for v in _byid[a].deps:
        n = _byid[v].args[0]
        if n.startswith('#'):
            yield int(n[1:])


def vec_levels(q):
    """renumber the bound variables of vector arguments by nesting height"""
    while True:
        va = [a for a in allatoms(q) if _byid[a].kind == 'f' and _byid[a].args[0] in VECFUNS]
        hs, done = {}, True

        def height(a):
            if a not in hs:
                hs[a] = 1 + max([height(b) for b in allatoms(_byid[a].args) if b in vs], default=0)
            return hs[a]
        vs = set(va)
        for a in sorted(va, key=lambda a: (height(a), a)):
            at = _byid[a]
            inner = [b for b in allatoms(at.args) if b in vs]
            ok = max([hs[b] for b in inner], default=0) + 700
            free = set()
            for n, x in enumerate(at.args[1]):
                if n >= VECFUNS[at.args[0]]:
                    free |= freevec(x)
            if not free or min(free) == ok:
                continue
            own = min(free)
            new = [subst(x, {bvar(own).id: P(bvar(ok))}) if n >= VECFUNS[at.args[0]] else x
                   for n, x in enumerate(at.args[1])]
            q = subst_any(q, {a: app(at.args[0], *new, sort=at.sort)})
            done = False
            break
        if done:
            return q


def freevec(x):
    """vector variables of x that no inner vector term binds"""
    out = set()
    for a in x.atoms():
        at = _byid[a]
        if at.kind == 'f' and at.args[0] in VECFUNS:
            f, args = at.args
            in_ = set()
            for n, y in enumerate(args):
                if n >= VECFUNS[f]:
                    in_ |= freevec(y)
                else:
                    out |= freevec(y)
            out |= in_ - ({min(in_)} if in_ else set())
        elif at.kind == 'v':
            n = at.args[0]
            if n.startswith('#') and 700 <= int(n[1:]) < 800:
                out.add(int(n[1:]))
        else:
            for y in polyargs(at):
                out |= freevec(y)
    return out


# symmetric in the first two arguments (proved under C02)
SYMMETRIC = ('average_func',)
# position of the first vector argument
VECFUNS = {'qrot': 3, 'qfind': 2, 'qnorm': 2}


def vec_canon(q):
    """one representation of the vector arguments of symmetry operations:
    bound variables numbered by nesting height, and, where the components are
    distinguished by conditions, indicator form"""
    q = vec_levels(q)

    def vecs(x):
        return [a for a in allatoms(x) if _byid[a].kind == 'f' and _byid[a].args[0] in VECFUNS and
                _byid[a].args[1][0].isconst()]
    va = vecs(q)
    if not any(_byid[b].kind == 'b' and any(700 <= v < 800 for v in vecnums(b)) for a in va for b in allatoms(_byid[a].args)):
        return q
    seen = set()
    while True:
        va = [a for a in vecs(q) if a not in seen]
        for a in sorted(va, key=lambda a: (len([b for b in vecs(_byid[a].args)]), a)):
            seen.add(a)
            f, args = _byid[a].args
            new = []
            for n, x in enumerate(args):
                fv = freevec(x) if n >= VECFUNS[f] and f != 'prefix' else None
                if fv:
                    u = P(bvar(min(fv)))
                    own = bvar(min(fv)).id
                    y = ZERO
                    for c in range(1, int(args[0].cval()) + 1):
                        y = y + eq(u, const(c)) * subst(x, {own: const(c)})
                    x = y
                new.append(x)
            if tuple(new) != tuple(args):
                r = app(f, *new, sort=_byid[a].sort)
                seen.add(atom_of(r).id)
                q = subst_any(q, {a: r})
                break
        else:
            return q


def allatoms(x, out=None):
    out = set() if out is None else out
    if isinstance(x, Poly):
        for a in x.atoms():
            if a not in out:
                out.add(a)
                allatoms(_byid[a].args, out)
    elif isinstance(x, tuple):
        for y in x:
            allatoms(y, out)
    return out


def noeq(ctx):
    return ctx


def apply_eqs(q, ctx):
    """use equalities in ctx to eliminate integer variables"""
    for e in ctx.eqs:
        # always the same variable of an equation, or two steps undo each other
        for m, c in sorted(e.t.items(), key=lambda x: x[0], reverse=True):
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and _byid[m[0][0]].kind == 'v':
                v = m[0][0]
                l = linear_in(e, v)
                if not l:
                    continue
                sol = l[1].scale(-1 / Fraction(l[0].cval()))
                if v not in sol.deps():
                    if v in q.deps():
                        q2 = subst(q, {v: sol})
                        if q2 != q:
                            return q2
                    break
        # v = c * idiv(v, d) + r: eliminate the quotient
        for m, c in e.t.items():
            if len(m) == 1 and m[0][1] == 1 and _byid[m[0][0]].kind == 'i' and m[0][0] in allatoms(q):
                a = m[0][0]
                sol = (e - P(_byid[a]).scale(c)).scale(-1 / Fraction(c))
                if a not in allatoms(sol):
                    return subst_any(q, {a: sol})
    return q


def split(q, c, ctx, depth, budget):
    a = atom_of(c).id
    for val in (1, 0):
        cc = c if val else lnot(c)
        c2 = ctx.assume(cc)
        if not c2.feasible():
            continue
        r = zero(set_brackets(q, {a: val}), c2, depth + 1, budget)
        if not r:
            return r
    return Result(True)


def hidden_brackets(q, mx=None):
    out = set()
    seen = set()

    def scan(x):
        if isinstance(x, Poly):
            for a in x.atoms():
                if a in seen:
                    continue
                seen.add(a)
                at = _byid[a]
                if at.kind == 'b':
                    if not freehash(at):
                        out.add(a)
                else:
                    if at.kind == 'f' and at.args[0] in ('max', 'abs') and mx is not None:
                        if not any(_byid[d].args[0].startswith('#') for d in at.deps):
                            mx.add(a)
                    scan(at.args)
        elif isinstance(x, tuple):
            for y in x:
                scan(y)
    for a in q.atoms():
        if _byid[a].kind != 'v':
            scan(_byid[a].args)
    return sorted(out)


def split_max(q, a, ctx, depth, budget):
    at = _byid[a]
    f, xs = at.args
    if f == 'max':
        c = ge(xs[0], xs[1])
        cs = ((c, maxx(*([xs[0]] + list(xs[2:])))), (lnot(c), maxx(*xs[1:])))
    else:
        c = ge0(xs[0])
        cs = ((c, xs[0]), (lnot(c), -xs[0]))
    for cc, val in cs:
        c2 = ctx.assume(cc)
        if ctx.decide(cc) is False or not c2.feasible():
            continue
        r = zero(subst_any(q, {a: val}), c2, depth + 1, budget)
        if not r:
            return r
    return Result(True)


def subst_any(p, mp, memo=None):
    """replace arbitrary atoms (anywhere) by Polys"""
    if memo is None:
        memo = {}
    r = ZERO
    for m, c in p.t.items():
        f = const(c)
        rest = []
        for a, e in m:
            v = sa_atom(_byid[a], mp, memo)
            if v is None:
                rest.append((a, e))
            else:
                f = f * (v ** e)
        if rest:
            f = f * Poly({tuple(rest): 1})
        r = r + f
    return r


def sa_atom(at, mp, memo):
    if at.id in mp:
        return mp[at.id]
    if at.id in memo:
        return memo[at.id]
    memo[at.id] = None
    if at.kind == 'v':
        return None
    if at.kind == 'S':
        binders, body, base = at.args
        nb2 = tuple(tuple(subst_any(x, mp, memo) for x in b) for b in binders)
        body2 = subst_any(body, mp, memo)
        if body2 == body and nb2 == binders:
            return None
        fr = [fresh('s', 'I') for _ in binders]
        ren = {bvar(base + k).id: fr[k] for k in range(len(binders))}
        r = subst(body2, ren)
        for k in range(len(binders)):
            lo, hi, st = [subst(x, ren) for x in nb2[k]]
            r = summ(fr[k], lo, hi, r, st)
        memo[at.id] = r
        return r

    def go(x):
        if isinstance(x, Poly):
            return subst_any(x, mp, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    na = [go(x) for x in at.args]
    if tuple(na) == tuple(at.args):
        return None
    r = rebuild(at, na)
    memo[at.id] = r
    return r


def split_deep(q, a, ctx, depth, budget):
    c = P(_byid[a])
    d = ctx.decide(c)
    for val in (1, 0):
        if d is not None and bool(val) != d:
            continue
        c2 = ctx.assume(c if val else lnot(c))
        if d is None and not c2.feasible():
            continue
        r = zero(subst_any(q, {a: const(val)}), c2, depth + 1, budget)
        if not r:
            return r
    return Result(True)


def zero_sums(q, ctx, depth, budget):
    """group sums with identical ranges and compare bodies pointwise"""
    groups = {}
    rest = {}
    for m, c in q.t.items():
        ss = [(a, e) for a, e in m if _byid[a].kind == 'S']
        if len(ss) == 1 and ss[0][1] == 1:
            at = _byid[ss[0][0]]
            binders, body, base = at.args
            cof = Poly({tuple(x for x in m if x[0] != at.id): c})
            groups.setdefault((len(binders), tuple(tuple(b) for b in [rebase(b, base) for b in binders])), []).append(
                (cof, body, base))
        else:
            rest[m] = c
    if not groups or rest:
        return None
    if depth > 40:
        return None
    for (n, binders), items in groups.items():
        fr = [fresh('z', 'I') for _ in range(n)]
        tot = ZERO
        for cof, body, base in items:
            ren = {bvar(base + k).id: fr[k] for k in range(n)}
            tot = tot + cof * subst(body, ren)
        c2 = ctx
        for k in range(n):
            lo, hi, st = [subst(x, {bvar(900 + j).id: fr[j] for j in range(n)}) for x in binders[k]]
            c2 = c2.assume(ge(fr[k], lo)).assume(le(fr[k], hi))
        r = zero(tot, c2, depth + 1, budget)
        if not r:
            if DEBUGZ:
                print('ZS', show(r.resid, 8)[:3000], [show(f) for f in r.ctx.facts], r.why)
            return None
    return Result(True)


def rebase(b, base):
    return tuple(subst(x, {bvar(base + k).id: P(bvar(900 + k)) for k in range(8)}) for x in b)


def zero_z3(q, ctx):
    t0 = _time.time()
    try:
        s = z3.Solver()
        s.set('timeout', min(3000, ctx.ztime()))
        seen, out = set(), []
        for f in ctx.facts:
            s.add(zcond(f))
            side_facts(f, seen, out)
        side_facts(q, seen, out)
        for o in out:
            s.add(o)
        s.add(zpoly(q) != 0)
        STATS['z3'] += 1
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False
    finally:
        STATS['z3time'] += _time.time() - t0


def prove(cond, ctx, timeout=10000):
    """prove condition Poly under ctx with z3 then cvc5"""
    c = ctx.lit_simplify(P(cond))
    if c.isconst():
        return bool(c.cval())
    t0 = _time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    seen, out = set(), []
    for f in ctx.facts:
        s.add(zcond(f))
        side_facts(f, seen, out)
    side_facts(c, seen, out)
    for o in out:
        s.add(o)
    s.add(z3.Not(zcond(c)))
    STATS['z3'] += 1
    r = s.check()
    STATS['z3time'] += _time.time() - t0
    if r == z3.unsat:
        return True
    if r == z3.sat:
        prove.model = s.model()
        return False
    return None


# ------------------------------------------------------------ printing

def show_atom(at):
    k = at.kind
    if k == 'v':
        return at.args[0]
    if k == 'r':
        return '%s(%s)' % (at.args[0], ','.join(show(x) for x in at.args[1]))
    if k == 'f':
        return '%s(%s)' % (at.args[0], ','.join(x if isinstance(x, str) else show(x) for x in at.args[1]))
    if k == 'P':
        return '{%s}' % show(at.args[0])
    if k == 'q':
        return 'sqrt(%s)' % show(at.args[0])
    if k == 'w':
        return '(%s)^(%s)' % (show(at.args[0]), show(at.args[1]))
    if k == 'i':
        return 'idiv(%s,%s)' % (show(at.args[0]), show(at.args[1]))
    if k == 'b':
        return '[%s %s 0]' % (show(at.args[1]), {'ge': '>=', 'gt': '>', 'eq': '=='}[at.args[0]])
    if k == 'S':
        binders, body, base = at.args
        return 'Sum{%s}(%s)' % (';'.join('#%d=%s..%s' % (base + n, show(b[0]), show(b[1])) for n, b in enumerate(binders)),
                                show(body))
    return k


def show(p, lim=40):
    if not isinstance(p, Poly):
        return repr(p)
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items())[:lim]:
        s = '*'.join(show_atom(_byid[a]) + ('^%d' % e if e != 1 else '') for a, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c, s))
    r = ' + '.join(out)
    if len(p.t) > lim:
        r += ' + ...(%d terms)' % len(p.t)
    return r


# ------------------------------------------------------------ numeric

LAZY = {}                          # functions evaluated on terms: f(env, *args)


class NumEnv:
    """vars: name->number; arrays: name->callable(idx tuple); funcs: name->callable"""

    def __init__(self, vars, arrays, funcs):
        self.vars, self.arrays, self.funcs = vars, arrays, funcs
        self.bound = {}
        self.memo = {}


MEMONAMES = {}


def neval_atom(at, env):
    if at.kind not in ('f', 'P', 'q', 'S', 'b'):
        return neval_atom2(at, env)
    ns = MEMONAMES.get(at.id)
    if ns is None:
        ns = MEMONAMES[at.id] = [_byid[d].args[0] for d in at.deps]
    b, v = env.bound, env.vars
    key = (at.id,) + tuple(b[n] if n in b else v.get(n) for n in ns)
    r = env.memo.get(key)
    if r is None:
        r = neval_atom2(at, env)
        if len(env.memo) > 400000:
            env.memo.clear()
        env.memo[key] = r
    return r


def _unit(x):
    return max(-1., min(1., x)) if abs(x) < 1 + 1e-9 else x


MATH = {
    'trunc': int, 'exp': math.exp, 'log': math.log, 'tanh': math.tanh, 'cosh': math.cosh,
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan': math.atan,
    'acos': lambda x: math.acos(_unit(x)), 'asin': lambda x: math.asin(_unit(x)), 'atan2': math.atan2, 'sinh': math.sinh,
}


def neval(p, env):
    r = 0
    for m, c in p.t.items():
        v = c if isinstance(c, int) else float(c)
        for a, e in sorted(m, key=lambda x: _byid[x[0]].kind != 'b'):
            x = neval_atom(_byid[a], env)
            if x == 0 and _byid[a].kind == 'b':
                v = 0
                break
            if e == 1:
                v = v * x
            elif e > 0:
                v = v * x ** e
            else:
                v = v / float(x) ** (-e) if x != 0 else float('nan')
        r = r + v
    return r


def neval_atom2(at, env):
    k = at.kind
    if k == 'v':
        n = at.args[0]
        if n in env.bound:
            return env.bound[n]
        return env.vars[n]
    if k == 'r':
        return env.arrays[at.args[0]](tuple(int(neval(x, env)) for x in at.args[1]))
    if k == 'f':
        f, args = at.args
        if f == 'max':
            return max(neval(x, env) for x in args)
        if f == 'abs':
            return abs(neval(args[0], env))
        if f in env.funcs:
            h = env.funcs[f]
            if getattr(h, 'lazy', False):
                return h(env, *args)
            return h(*[x if isinstance(x, str) else neval(x, env) for x in args])
        if f in LAZY:
            return LAZY[f](env, *args)
        return MATH[f](*[x if isinstance(x, str) else neval(x, env) for x in args])
    if k == 'P':
        return neval(at.args[0], env)
    if k == 'q':
        x = neval(at.args[0], env)
        return math.sqrt(x) if x >= 0 else float('nan')
    if k == 'w':
        b, e = neval(at.args[0], env), neval(at.args[1], env)
        if b < 0 and e != int(e):
            return float('nan')
        return b ** e
    if k == 'i':
        a, b = int(neval(at.args[0], env)), int(neval(at.args[1], env))
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q
    if k == 'b':
        x = neval(at.args[1], env)
        op = at.args[0]
        return 1 if (x >= 0 if op == 'ge' else x > 0 if op == 'gt' else x == 0) else 0
    if k == 'S':
        binders, body, base = at.args
        tot = 0.0

        def rec(n):
            nonlocal tot
            if n < 0:
                tot += neval(body, env)
                return
            lo, hi, st = [int(neval(x, env)) for x in binders[n]]
            name = '#%d' % (base + n)
            old = env.bound.get(name)
            for v in range(lo, hi + 1 if st > 0 else hi - 1, st):
                env.bound[name] = v
                rec(n - 1)
            if old is None:
                env.bound.pop(name, None)
            else:
                env.bound[name] = old
        rec(len(binders) - 1)
        return tot
    raise SymError('neval ' + k)


# ------------------------------------------------------------ differentiation

def diff(p, vid):
    """d p / d v  inside the pieces delimited by brackets / max / abs"""
    r = ZERO
    for m, c in p.t.items():
        for n, (a, e) in enumerate(m):
            at = _byid[a]
            if vid not in at.deps:
                continue
            da = diff_atom(at, vid)
            if da.iszero():
                continue
            rest = Poly({m[:n] + m[n + 1:]: c * e})
            r = r + rest * (P(at) ** (e - 1) if at.kind != 'P' else Poly({((a, e - 1),): 1})) * da
    return fixup(r)


def diff_atom(at, vid):
    k = at.kind
    if k == 'v':
        return ONE if at.id == vid else ZERO
    if k == 'b':
        return ZERO
    if k == 'P':
        return diff(at.args[0], vid)
    if k == 'q':
        return diff(at.args[0], vid) * Poly({((at.id, -1),): Fraction(1, 2)})
    if k == 'f':
        f, args = at.args
        x = args[0]
        if f == 'max':
            xs = args
            r = diff(xs[0], vid)
            cur = xs[0]
            for y in xs[1:]:
                r = ite(ge(cur, y), r, diff(y, vid))
                cur = maxx(cur, y)
            return r
        if f == 'abs':
            return ite(ge0(x), diff(x, vid), -diff(x, vid))
        d = diff(x, vid)
        A = P(at)
        if f == 'exp':
            return A * d
        if f == 'log':
            return d / x
        if f == 'sin':
            return app('cos', x) * d
        if f == 'cos':
            return -app('sin', x) * d
        if f == 'tanh':
            return (1 - A * A) * d
        if f == 'cosh':
            return app('sinh', x) * d
        if f == 'sinh':
            return app('cosh', x) * d
        if f == 'atan':
            return d / (1 + x * x)
        h = DIFF.get(f)
        if h:
            r = ZERO
            for n, y in enumerate(args):
                if isinstance(y, Poly) and vid in y.deps():
                    r = r + h(n, *args) * diff(y, vid)
            return r
    if k == 'w':
        b, e = at.args
        if vid not in e.deps():
            return e * power(b, e - 1) * diff(b, vid)
        if b.isconst():
            return P(at) * app('log', b) * diff(e, vid)
    raise SymError('diff ' + k)


DIFF = {}
