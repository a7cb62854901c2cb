"""C++ methods that work on SAMRAI patches, translated into the same
intermediate form as the kernels.

Every patch data object the method uses becomes an array over its ghost box
(side data: one array per direction) with the component as last subscript; the
box, the ghost widths, the numbers of components, the grid spacing and the data
members are scalar inputs.  Calls of Fortran kernels pass these arrays on, so
that the layout a kernel declares is compared with the layout of the object it
is given.  A loop over levels and patches is translated as its body on one
arbitrary patch (all patches are visited: checked syntactically and on
executions with two levels of two patches)."""
import re
from fractions import Fraction
from fparse import Unit, Stmt, Unsupported, desugar_block, lower_loops, strip_ret
import cxx
import sym
from cxx import Fn, inner, body_of, ctype, vtype, ONE, ZERO, WRAP, CASTS, assigned, rename

FIN = ('name', '<finest>')
OBJ = re.compile(r'\b(Patch|PatchHierarchy|PatchLevel|PatchData|PatchGeometry|CartesianPatchGeometry|CartesianGridGeometry|'
                 r'BaseGridGeometry|CellData|SideData|Box|Index|IntVector|CellIndex|SideIndex|CellIterator|Dimension|Timer|'
                 r'HierarchyCellDataOpsReal|PatchCellDataOpsReal|PatchCellDataNormOpsReal|PatchSideDataNormOpsReal|ArrayData)\b')


# strategies used through their abstract interface: every method of the stand-in
# is a linear operator with arbitrary coefficients (stubs/mocks/*.h); the
# contract of the caller is stated over that operator.
# method -> (mode, patch data written, patch data read, scalars read), as
# positions in the argument list; 'set' writes component 0, 'add' adds to all
MOCKS = {'FreeEnergyStrategy': {
    'computeFreeEnergyLiquid': ('set', 2, [1], [3]),
    'computeFreeEnergySolidA': ('set', 2, [1], [3]),
    'computeFreeEnergySolidB': ('set', 2, [1], [3]),
    'addDrivingForce': ('add', 9, [2, 3, 5, 6, 7, 8], [0]),
}}


def mockbase(cls, m):
    b = 0
    for x, (_, _, d, s) in MOCKS[cls].items():
        if x == m:
            return b
        b += len(d) + len(s)
    return b


def num(i):
    return ('num', Fraction(i), 'I')


def add(a, b, op='+'):
    if b == ZERO:
        return a
    if a == ZERO and op == '+':
        return b
    if a[0] == 'num' and b[0] == 'num':
        return num(a[1] + b[1] if op == '+' else a[1] - b[1])
    return ('bin', op, a, b if b[0] != 'bin' else ('paren', b))


def mul(a, b):
    if a == ONE:
        return b
    if b == ONE:
        return a
    if a == ZERO or b == ZERO:
        return ZERO
    p = lambda x: ('paren', x) if x[0] == 'bin' else x
    return ('bin', '*', p(a), p(b))


def qual(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


def quals(n):
    t = n.get('type', {})
    return t.get('qualType', '') + ' | ' + t.get('desugaredQualType', '')


IVEC = re.compile(r'^(const )?((SAMRAI::)?(hier|pdat)::)?(Index|IntVector|Box|CellIndex|SideIndex)\b[^<>*]*$')


class Obj:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class PFn(Fn):
    def __init__(self, node, name, tu, cls=None):
        super().__init__(node, name, tu, cls)
        self.dim = tu.dim
        self.sobj = {}             # declaration id -> object
        self.idkey = {}            # declaration id -> key of a data id
        self.pds = {}              # key -> description of a patch data object
        self.hiers = []
        self.idef = {}             # integer local that is never reassigned -> expression
        self.mut = set()
        self.sameng = set()        # ghost widths that addressing assumes equal
        self.ossa = set()          # indices and boxes modified only so
        self.ssa = set()           # locals only assigned by statements of the block that declares them
        self.depth = 0
        self.citer = {}
        self.chars = {}
        self.patchy = False
        self.strats = {}
        self.level = 0
        self.fptrs = {}
        self.refthis = None
        self.mhier = None

    # -------------------------------------------------- inputs
    def inp(self, n, t='I', dims=None, key=None):
        if n not in self.u.vars:
            v = self.u.var(n)
            v.type, v.dims = t, dims
            self.members[n] = ('pd', key or n)
        return ('name', n)

    def lo(self, d):
        self.patchy = True
        for x in ('ifirst', 'ilast'):
            self.inp('%s%d' % (x, d))
        return ('name', 'ifirst%d' % d)

    def hi(self, d):
        self.lo(d)
        return ('name', 'ilast%d' % d)

    def vec(self, n):
        return self.inp(n, 'R', [(ZERO, num(self.dim - 1))])

    def pd(self, key, src, kind, typ):
        p = self.pds.get(key)
        if p is not None:
            if p['kind'] != kind or p['typ'] != typ:
                raise Unsupported('data %s used with two types' % key)
            return Obj('pd', p=p)
        base = re.sub(r'^d_', '', re.sub(r'_id$', '', key.lower()))
        while any(q['base'] == base for q in self.pds.values()) or 'p_' + base in self.u.vars:
            base += '_2'
        p = self.pds[key] = dict(base=base, key=key, src=src, kind=kind, typ=typ, has=False)
        ng, nd = self.inp('ng_' + base), self.inp('nd_' + base)
        t = {'double': 'R', 'int': 'I'}[typ]
        p['arrs'] = []
        for q in (range(self.dim) if kind == 'side' else [None]):
            n = 'p_' + base + ('' if q is None else '_%d' % q)
            dims = []
            for d in range(self.dim):
                h = add(self.hi(d), ng)
                dims.append((('bin', '-', self.lo(d), ng), h if q != d else ('bin', '+', h, ONE)))
            dims.append((ZERO, ('bin', '-', nd, ONE)))
            self.inp(n, t, dims)
            p['arrs'].append(n)
        return Obj('pd', p=p)

    def arr(self, p, d=None):
        return p['arrs'][0 if d is None else d]

    # -------------------------------------------------- objects
    def bare(self, n):
        while n['kind'] in WRAP or n['kind'] in CASTS or (
                n['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(inner(n)) == 1 and self.samekind(n)):
            n = inner(n)[0]
        return n

    def samekind(self, n):
        q = quals(n)
        return bool(re.search(r'shared_ptr|__normal_iterator|CellIterator|CellIndex|\bIndex\b|IntVector|\bBox\b|string', q)) and 'Dimension' not in quals(inner(n)[0])

    def ident(self, n):
        """key of an expression that denotes a patch data id"""
        n = self.bare(n)
        if n['kind'] == 'DeclRefExpr':
            i = n['referencedDecl']['id']
            if i in self.idkey:
                return self.idkey[i]
            if n['referencedDecl']['kind'] == 'ParmVarDecl':
                return n['referencedDecl']['name'], ('param', n['referencedDecl']['name'])
        if n['kind'] == 'MemberExpr' and self.bare(inner(n)[0])['kind'] == 'CXXThisExpr':
            return n['name'], ('member', n['name'])
        raise Unsupported('data id')

    def obj(self, n):
        o = self.obj0(n)
        if o is None:
            raise Unsupported('object ' + self.bare(n)['kind'] + ' of type ' + qual(n)[:60])
        return o

    def obj0(self, n):
        n = self.bare(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            o = self.sobj.get(n['referencedDecl']['id'])
            if isinstance(o, Obj) and o.kind == 'unset':
                raise Unsupported('object used before it is set')
            return o
        if k == 'UnaryOperator' and n['opcode'] in ('*', '&'):
            return self.obj0(inner(n)[0])
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.construct(n)
        if k == 'MemberExpr':
            if self.bare(inner(n)[0])['kind'] == 'CXXThisExpr':
                q = quals(n)
                if 'Timer' in q:
                    return Obj('timer')
                if re.search(r'PatchHierarchy', q):
                    if self.mhier not in (None, n['name']):
                        raise Unsupported('two hierarchies')
                    self.mhier = n['name']
                    self.patchy = True
                    return Obj('hier')
                if re.match(r'^(const )?double ?\[\d+\]', qual(n)):
                    return Obj('vec', n=self.member(n['name'], qual(n)))
                m = re.search(r'shared_ptr<(?:const )?(\w+)>', q)
                if m and m.group(1) in MOCKS:
                    return self.strat(n['name'], m.group(1))
            return None
        if k == 'CXXOperatorCallExpr':
            op = self.bare(inner(n)[0]).get('referencedDecl', {}).get('name')
            c = inner(n)[1:]
            if op == 'operator[]' and self.obj0(c[0]) is not None and self.obj0(c[0]).kind == 'list':
                o, i = self.listelem(n)
                r = o.items[i]
                if isinstance(r, Obj) and r.kind == 'unset':
                    raise Unsupported('object used before it is set')
                return r if isinstance(r, Obj) else None
            if op in ('operator*', 'operator->') and len(c) == 1:
                o = self.obj0(c[0])
                if o is not None and o.kind == 'piter':
                    return Obj('patch')
                if o is not None and o.kind == 'citer':
                    return Obj('ivec', v=o.v)
                return o
            if op == 'operator+' or op == 'operator-':
                a, b = self.obj0(c[0]), self.obj0(c[1])
                if a and b and a.kind == b.kind == 'ivec':
                    return Obj('ivec', v=[add(x, y, op[-1]) for x, y in zip(a.v, b.v)])
            return None
        if k == 'BinaryOperator' and n['opcode'] in '+-' and qual(n).rstrip().endswith('*'):
            a = self.obj0(inner(n)[0])
            if a is not None and a.kind == 'ptr':
                e = self.expr(inner(n)[1])
                return Obj('ptr', n=a.n, depth=a.depth, off=add(a.off, e, n['opcode']))
            return None
        if k == 'ConditionalOperator' and qual(n).rstrip().endswith('*'):
            c, x, y = inner(n)
            e = self.cond(c)
            if e[0] == 'log':
                return self.obj0(x if e[1] else y)
            a, b = self.obj0(x), self.obj0(y)
            if a is None or b is None or a.kind != 'ptr' or b.kind != 'ptr' or a.n != b.n or a.off != b.off:
                return None
            return Obj('ptr', n=a.n, off=a.off, depth=a.depth if a.depth == b.depth else ('idx', 'merge', [a.depth, b.depth, e]))
        if k == 'CallExpr':
            f = self.bare(inner(n)[0])
            name = f.get('referencedDecl', {}).get('name') or f.get('name')
            a = inner(n)[1:]
            if name == 'SAMRAI_SHARED_PTR_CAST' or name in ('dynamic_pointer_cast', 'static_pointer_cast'):
                o = self.obj0(a[0])
                m = re.search(r'(Cell|Side)Data<(double|int)>', quals(n))
                if o is not None and o.kind == 'raw' and m:
                    return self.pd(o.key, o.src, m.group(1).lower(), m.group(2))
                return o
            if name in ('begin', 'end') and 'CellIterator' in quals(n):
                return Obj('cit', box=self.obj(a[0]), which=name)
            if name == 'grow' and 'Box' in quals(n):
                b, g = self.obj(a[0]), self.obj(a[1])
                return Obj('box', lo=[add(x, y, '-') for x, y in zip(b.lo, g.v)], hi=[add(x, y) for x, y in zip(b.hi, g.v)])
            if name in ('getOne', 'getZero'):
                return Obj('ivec', v=[ONE if name == 'getOne' else ZERO] * self.dim)
            return None
        if k == 'CXXMemberCallExpr':
            f = self.bare(inner(n)[0])
            a = inner(n)[1:]
            m = f.get('name')
            o = self.obj0(inner(f)[0])
            if o is None:
                return None
            kk = o.kind
            D = range(self.dim)
            if m == 'get' and not a:
                return o
            if kk == 'patch':
                if m == 'getBox':
                    return Obj('box', lo=[self.lo(d) for d in D], hi=[self.hi(d) for d in D])
                if m == 'getPatchData':
                    key, src = self.ident(a[0])
                    return Obj('raw', key=key, src=src)
                if m == 'getPatchGeometry':
                    return Obj('geom')
                if m == 'getDim':
                    return Obj('dim')
            if kk == 'hier':
                if m == 'getPatchLevel':
                    return Obj('level')
                if m == 'getGridGeometry':
                    return Obj('ggeom')
                if m == 'getDim':
                    return Obj('dim')
            if kk == 'level' and m in ('begin', 'end'):
                return Obj('pit', which=m)
            if kk == 'pd':
                p = o.p
                ng = ('name', 'ng_' + p['base'])
                if m == 'getBox':
                    return Obj('box', lo=[self.lo(d) for d in D], hi=[self.hi(d) for d in D])
                if m == 'getGhostBox':
                    return Obj('box', lo=[('bin', '-', self.lo(d), ng) for d in D], hi=[('bin', '+', self.hi(d), ng) for d in D])
                if m == 'getGhostCellWidth':
                    return Obj('ivec', v=[ng] * self.dim)
                if m == 'getPointer':
                    if p['kind'] == 'cell':
                        dep = self.expr(a[0]) if a and a[0]['kind'] != 'CXXDefaultArgExpr' else ZERO
                        return Obj('ptr', n=self.arr(p), depth=dep, off=ZERO)
                    q = self.cval(a[0])
                    dep = self.expr(a[1]) if len(a) > 1 and a[1]['kind'] != 'CXXDefaultArgExpr' else ZERO
                    return Obj('ptr', n=self.arr(p, q), depth=dep, off=ZERO)
                if m == 'getDim':
                    return Obj('dim')
            if kk == 'pd' and m == 'getArrayData' and o.p['kind'] == 'cell':
                return Obj('adata', p=o.p, q=0)
            if kk == 'pd' and m == 'getArrayData' and len(a) == 1:
                return Obj('adata', p=o.p, q=self.cval(a[0]))
            if kk == 'box' and m == 'getDim':
                return Obj('dim')
            if kk == 'scratch' and m == 'data':
                return Obj('vec', n=o.n)
            if kk == 'box':
                if m == 'lower' and not a:
                    return Obj('ivec', v=o.lo)
                if m == 'upper' and not a:
                    return Obj('ivec', v=o.hi)
                if m == 'numberCells' and not a:
                    return Obj('ivec', v=[add(add(h, l, '-'), ONE) for l, h in zip(o.lo, o.hi)])
            if kk == 'geom':
                if m == 'getDx':
                    return Obj('vec', n=self.vec('dx')[1])
                if m == 'getXLower':
                    return Obj('vec', n=self.vec('xlo')[1])
                if m == 'getXUpper':
                    return Obj('vec', n=self.vec('xup')[1])
            if kk == 'string' and m in ('c_str', 'data'):
                return o
        return None

    def construct(self, n):
        q = quals(n)
        a = [x for x in inner(n) if x['kind'] != 'CXXDefaultArgExpr']
        if re.search(r'DataOpsReal|NormOps', q):
            return Obj('ops', hier='Hierarchy' in q, t='side' if 'Side' in q else 'cell')
        if 'Dimension' in q:
            return Obj('dim')
        if re.search(r'\b(IntVector|Index|CellIndex)\b', q):
            if not a:
                return Obj('ivec', v=[ZERO] * self.dim)
            if 'Dimension' in quals(a[0]):
                return Obj('ivec', v=[self.expr(a[1]) if len(a) > 1 else ZERO] * self.dim)
            if re.search(r'\b(IntVector|Index|CellIndex)\b', quals(a[0])):
                return self.obj(a[0])
            if len(a) == self.dim:
                return Obj('ivec', v=[self.expr(x) for x in a])
        if re.search(r'\bBox\b', q) and len(a) >= 2:
            l, h = self.obj(a[0]), self.obj(a[1])
            return Obj('box', lo=l.v, hi=h.v)
        if 'CellIterator' in q and len(a) == 1:
            return self.obj(a[0])
        return None

    def cval(self, n):
        e = self.expand(self.expr(n))
        p = self.topoly(e)
        if p is None or not p.isconst():
            raise Unsupported('direction is not a constant')
        return int(p.cval())

    # -------------------------------------------------- integers
    def expand(self, e, d=0):
        if d > 40:
            raise Unsupported('definitions')
        if isinstance(e, tuple):
            if e and e[0] == 'name' and e[1] in self.idef:
                return ('paren', self.expand(self.idef[e[1]], d + 1))
            if e and e[0] == 'idx' and (e[1],) in self.idef and len(e[2]) == 1:
                p = self.topoly(self.expand(e[2][0], d + 1))
                if p is not None and p.isconst() and int(p.cval()) in self.idef[(e[1],)]:
                    return ('paren', self.expand(self.idef[(e[1],)][int(p.cval())], d + 1))
            return tuple(self.expand(x, d) if isinstance(x, (tuple, list)) else x for x in e)
        if isinstance(e, list):
            return [self.expand(x, d) for x in e]
        return e

    def topoly(self, e):
        k = e[0]
        if k == 'num':
            return sym.P(e[1])
        if k == 'name':
            return sym.var(e[1], 'I')
        if k == 'paren':
            return self.topoly(e[1])
        if k == 'un' and e[1] == '-':
            p = self.topoly(e[2])
            return None if p is None else -p
        if k == 'bin' and e[1] in '+-*':
            a, b = self.topoly(e[2]), self.topoly(e[3])
            if a is None or b is None:
                return None
            return a + b if e[1] == '+' else a - b if e[1] == '-' else a * b
        return None

    def topy(self, p):
        """polynomial -> expression"""
        out = None
        for m, c in sorted(p.t.items(), key=lambda t: str(t[0])):
            e = None
            for a, k in m:
                at = sym.atom(a)
                if at.kind != 'v' or k < 0:
                    raise Unsupported('index')
                for _ in range(int(k)):
                    x = ('name', at.args[0])
                    e = x if e is None else ('bin', '*', e, x)
            c = Fraction(c)
            if c.denominator != 1:
                raise Unsupported('index')
            s, c = ('-' if c < 0 else '+'), abs(c)
            if e is None:
                e = num(c)
            elif c != 1:
                e = ('bin', '*', num(c), e)
            out = (e if s == '+' else ('un', '-', ('paren', e))) if out is None else ('bin', s, out, e)
        return out or ZERO

    def linear(self, ptr, ie):
        """element of an array addressed by its memory offset"""
        if ptr.kind == 'vec':
            return ('idx', ptr.n, [ie])
        dims = self.u.vars[ptr.n].dims
        p = self.topoly(self.expand(add(ptr.off, ie)))
        if p is None:
            raise Unsupported('memory offset is not a polynomial')
        try:
            return self.fit(ptr, dims, p)
        except Unsupported:
            # offset computed from the layout of other data of the patch: right
            # if that has the same ghost width
            own = 'ng_' + ptr.n[2:]
            own = own if own in self.u.vars else re.sub(r'_[012]$', '', own)
            ids = {list(sym.var(x['base'] and 'ng_' + x['base'], 'I').atoms())[0]: 'ng_' + x['base'] for x in self.pds.values()}
            for a in sorted(p.deps() & set(ids)):
                if ids[a] == own or own not in self.u.vars:
                    continue
                try:
                    e = self.fit(ptr, dims, sym.subst(p, {a: sym.var(own, 'I')}))
                except Unsupported:
                    continue
                self.sameng.add((own, ids[a]))
                return e
            raise

    def fit(self, ptr, dims, p):
        W = []
        mp = {}
        for d in range(self.dim):
            lo, hi = self.topoly(dims[d][0]), self.topoly(dims[d][1])
            w = sym.var('<w%d>' % d, 'I')
            W.append(w)
            il = sym.var('ilast%d' % d, 'I')
            # hi = ilast + rest  ->  ilast = w - 1 + lo - rest
            mp[list(il.atoms())[0]] = w - 1 + lo - (hi - il)
        p = sym.subst(p, mp)
        wid = [list(w.atoms())[0] for w in W]
        parts = {}
        for m, c in p.t.items():
            pw = tuple(int(sum(k for a, k in m if a == i)) for i in wid)
            rest = tuple((a, k) for a, k in m if a not in wid)
            parts.setdefault(pw, sym.ZERO if hasattr(sym, 'ZERO') else sym.P(0))
            q = sym.P(c)
            for a, k in rest:
                v = sym.atom(a)
                for _ in range(int(k)):
                    q = q * sym.var(v.args[0], 'I')
            parts[pw] = parts[pw] + q
        idx = []
        for d in range(self.dim):
            key = tuple(1 if q < d else 0 for q in range(self.dim))
            idx.append(self.topoly(dims[d][0]) + parts.pop(key, sym.P(0)))
        dep = self.topoly(self.expand(ptr.depth))
        if dep is None:
            raise Unsupported('component')
        dep = dep + parts.pop(tuple([1] * self.dim), sym.P(0))
        if any(not q.iszero() for q in parts.values()):
            raise Unsupported('memory offset does not fit the layout')
        return ('idx', ptr.n, [self.topy(x) for x in idx] + [self.topy(dep)])

    # -------------------------------------------------- expressions
    def strat(self, name, cls):
        w = 'w_' + re.sub(r'^d_', '', name.lower())
        if name not in self.strats:
            self.strats[name] = dict(cls=cls, w=w, has=None)
            self.inp(w, 'R', [(ZERO, num(mockbase(cls, None) - 1))])
        return Obj('strat', name=name, cls=cls, w=w)

    def stratcall(self, n, o, m, a):
        if m not in MOCKS[o.cls]:
            raise Unsupported('%s of %s' % (m, o.cls))
        mode, t, rd, sc = MOCKS[o.cls][m]
        if not any(getattr(self.obj0(x), 'kind', '') == 'patch' for x in a):
            raise Unsupported('%s not on one patch' % m)
        P = lambda x: self.pd(*self.ident(x), 'cell', 'double').p
        p, b, e = P(a[t]), mockbase(o.cls, m), None
        terms = []
        for j, x in enumerate(rd):
            y = self.bare(a[x])
            if y['kind'] == 'UnaryOperator' and y['opcode'] == '-':
                continue                               # no such data
            terms.append((b + j, P(a[x])))
        for j, x in enumerate(sc):
            v = self.expr(a[x])
            q = quals(a[x])
            if re.match(r'^(const )?bool', q):
                v = ('idx', 'merge', [('num', Fraction(1), 'R'), ('num', Fraction(0), 'R'), v])
            terms.append((b + len(rd) + j, v))
        D = range(self.dim)

        def val(I):
            e = None
            for j, x in terms:
                y = ('bin', '*', ('idx', o.w, [num(j)]), ('idx', x['arrs'][0], list(I) + [ZERO]) if isinstance(x, dict) else ('paren', x))
                e = y if e is None else ('bin', '+', e, y)
            return e
        lo, hi = [self.lo(d) for d in D], [self.hi(d) for d in D]
        arr = p['arrs'][0]
        if mode == 'set':
            return self.nest(lo, hi, lambda I: [Stmt('assign', (arr, list(I) + [ZERO], val(I)), self.line(n))], self.line(n))
        dv = self.newvar('dep__', 'I')
        self.loopvars.add(dv)
        f = lambda I: [Stmt('assign', (arr, list(I) + [('name', dv)], ('bin', '+', ('idx', arr, list(I) + [('name', dv)]), val(I))), self.line(n))]
        # the data written must not be read by the same call
        if any(isinstance(x, dict) and x is p for _, x in terms):
            raise Unsupported('driving force added to its own input')
        return [Stmt('do', (dv, ZERO, ('bin', '-', ('name', 'nd_' + p['base']), ONE), None, self.nest(lo, hi, f, self.line(n))), self.line(n))]

    def boxop(self, n, a, m):
        """doArrayDataOperationOnBox(dst, src, box, shift, dst depth, src depth, number, operation)"""
        d, s, b, sh = [self.obj(x) for x in a[:4]]
        dd, sd, nn = [self.expr(x) for x in a[4:7]]
        k = re.search(r'(Multiply|Add)Operation', quals(a[7]))
        if d.kind != 'adata' or s.kind != 'adata' or not k:
            raise Unsupported('array operation')
        op = '*' if k.group(1) == 'Multiply' else '+'
        dv = self.newvar('dep__', 'I')
        self.loopvars.add(dv)
        x, y = d.p['arrs'][d.q], s.p['arrs'][s.q]

        def f(I):
            l = list(I) + [add(dd, ('name', dv))]
            r = [add(i, j, '-') for i, j in zip(I, sh.v)] + [add(sd, ('name', dv))]
            return [Stmt('assign', (x, l, ('bin', op, ('idx', x, l), ('idx', y, r))), self.line(n))]
        return [Stmt('do', (dv, ZERO, ('bin', '-', nn, ONE), None, self.nest(b.lo, b.hi, f, self.line(n))), self.line(n))]

    def has(self, o):
        if o.kind == 'strat':
            n = self.strats[o.name]['has'] = 'has_' + re.sub(r'^d_', '', o.name.lower())
            self.inp(n)
            return ('bin', '/=', ('name', n), ZERO)
        if o.kind != 'pd' or o.p['src'][0] == 'opt':
            raise Unsupported('test of an object')
        n = 'has_' + o.p['base']
        o.p['has'] = True
        self.inp(n)
        return ('bin', '/=', ('name', n), ZERO)

    def expr(self, n):
        k = n['kind']
        if k == 'CharacterLiteral':
            return num(int(n['value']))
        if k in CASTS and n.get('castKind') in ('PointerToBoolean',):
            o = self.obj0(inner(n)[0])
            if o is not None:
                return self.has(o)
        if k in CASTS and n.get('castKind') == 'UserDefinedConversion':
            c = self.strip(inner(n)[0])
            if c['kind'] == 'CXXMemberCallExpr' and self.strip(inner(c)[0]).get('name') == 'operator bool':
                return self.has(self.obj(inner(self.strip(inner(c)[0]))[0]))
            return self.expr(inner(n)[0])
        if k == 'ConditionalOperator':
            return super().expr(n)
        if k == 'DeclRefExpr':
            i = n['referencedDecl']['id']
            if i not in self.names and i in self.idkey and self.idkey[i][1][0] in ('param', 'member'):
                return self.idvalue(self.idkey[i])
            if i in self.sobj:
                raise Unsupported('object in an expression')
        if k == 'ArraySubscriptExpr':
            o = self.obj0(inner(n)[0])
            if o is not None:
                return self.linear(o, self.expr(inner(n)[1]))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            o = self.obj0(inner(n)[0])
            if o is not None and o.kind == 'ptr':
                return self.linear(o, ZERO)
        if k == 'CXXOperatorCallExpr':
            c = inner(n)
            op = self.bare(c[0]).get('referencedDecl', {}).get('name')
            if op in ('operator()', 'operator[]'):
                o = self.obj0(c[1])
                if o is not None:
                    if o.kind == 'list':
                        o, i = self.listelem(n)
                        if isinstance(o.items[i], Obj):
                            raise Unsupported('object in an expression')
                        return o.items[i]
                    if o.kind == 'ivec':
                        return o.v[self.cval(c[2])]
                    if o.kind == 'pd' and op == 'operator()':
                        return self.elem(o, c[2:])
                    raise Unsupported('subscript of ' + o.kind)
            if op in ('operator==', 'operator!='):
                for x, y in ((c[1], c[2]), (c[2], c[1])):
                    if self.bare(y)['kind'] == 'CXXNullPtrLiteralExpr':
                        e = self.has(self.obj(x))
                        return e if op == 'operator!=' else ('un', '.not.', ('paren', e))
                a, b = self.obj0(c[1]), self.obj0(c[2])
                if a and b and a.kind == b.kind == 'ivec':
                    e = None
                    for x, y in zip(a.v, b.v):
                        t = ('bin', '==', x, y)
                        e = t if e is None else ('bin', '.and.', e, t)
                    return e if op == 'operator==' else ('un', '.not.', ('paren', e))
        if k == 'CXXMemberCallExpr':
            e = self.membercall(n)
            if e is not None:
                return e
        if k == 'CXXMemberCallExpr':
            e = self.accessor(n)
            if e is not None:
                return e
        if k == 'CallExpr':
            e = self.fcall(n)
            if e is not None:
                return ('idx', e[0], e[1])
        if k == 'CXXDefaultArgExpr':
            raise Unsupported('default argument')
        return super().expr(n)

    def accessor(self, n):
        """d_parameters.value(), a function that returns a data member of an
        object this class refers to"""
        f = self.bare(inner(n)[0])
        if f['kind'] != 'MemberExpr' or len(inner(n)) > 1:
            return None
        b = self.bare(inner(f)[0])
        if b['kind'] != 'MemberExpr' or self.bare(inner(b)[0])['kind'] != 'CXXThisExpr':
            return None
        m = re.match(r'^(?:const )?(\w+)$', qual(b))
        t = ctype(qual(n))[0]
        if not m or t is None:
            return None
        try:
            node = self.tu.defs[self.tu.find(f, 0)]
        except Unsupported:
            return None
        null = lambda x: x['kind'] == 'NullStmt' or x['kind'] in CASTS and x.get('castKind') == 'ToVoid' or x['kind'] in WRAP and null(inner(x)[0])
        st = [x for x in inner(body_of(node)) if not null(x)]
        if len(st) != 1 or st[0]['kind'] != 'ReturnStmt' or self.refthis:
            return None
        self.refthis = (b['name'], m.group(1))
        try:
            return self.expr(inner(st[0])[0])
        finally:
            self.refthis = None

    def idvalue(self, key):
        key, src = key
        if src[0] == 'member':
            return ('name', self.member(key, 'int'))
        for p in self.params:
            if p.get('name') == key:
                return ('name', self.names[p['id']])
        raise Unsupported('id')

    def elem(self, o, a):
        a = [x for x in a if x['kind'] != 'CXXDefaultArgExpr']
        c = self.obj(a[0])
        dep = self.expr(a[1]) if len(a) > 1 else ZERO
        if c.kind == 'sidx':
            return ('idx', self.arr(o.p, c.axis), list(c.v) + [dep])
        if c.kind != 'ivec' or o.p['kind'] != 'cell':
            raise Unsupported('element')
        return ('idx', self.arr(o.p), list(c.v) + [dep])

    def membercall(self, n):
        f = self.bare(inner(n)[0])
        if f['kind'] != 'MemberExpr':
            return None
        a = inner(n)[1:]
        m = f.get('name')
        b = self.bare(inner(f)[0])
        if b['kind'] == 'CXXThisExpr':
            return None
        o = self.obj0(inner(f)[0])
        if o is None:
            return None
        k = o.kind
        if m == 'operator bool':
            return self.has(o)
        if k == 'list' and m == 'size':
            return num(len(o.items))
        if k == 'pd' and m == 'getDepth':
            return ('name', 'nd_' + o.p['base'])
        if k == 'hier' and m == 'getFinestLevelNumber':
            return FIN
        if k == 'hier' and m == 'getNumberOfLevels':
            return ('bin', '+', FIN, ONE)
        if k == 'box' and m in ('lower', 'upper', 'numberCells') and a:
            d = self.cval(a[0])
            return o.lo[d] if m == 'lower' else o.hi[d] if m == 'upper' else add(add(o.hi[d], o.lo[d], '-'), ONE)
        if k == 'ivec' and m in ('max', 'min') and all(x == o.v[0] for x in o.v):
            return o.v[0]
        if k == 'geom' and m == 'getTouchesRegularBoundary':
            t = 'touch_%d%d' % (self.cval(a[0]), self.cval(a[1]))
            self.inp(t)
            return ('bin', '/=', ('name', t), ZERO)
        raise Unsupported('%s of %s' % (m, k))

    # -------------------------------------------------- calls
    def fcall(self, n):
        """call of a Fortran procedure: (name, actual arguments)"""
        f = self.bare(inner(n)[0])
        d = f.get('referencedDecl', {})
        name = d.get('name', '')
        if f['kind'] == 'MemberExpr' or name in ('energyInterpChar', 'concInterpChar') or not name.endswith('_'):
            return None
        return name[:-1], [self.actual(x) for x in inner(n)[1:]]

    def actual(self, x):
        q = qual(x)
        if q.replace('const', '').strip() in ('char *',) or re.match(r'^(const )?char ?\*', q):
            return self.charptr(x)
        o = self.obj0(x)
        if o is not None:
            if o.kind == 'vec':
                return ('name', o.n)
            if o.kind == 'ptr':
                if o.off != ZERO:
                    e = self.linear(o, ZERO)
                    return e
                dims = self.u.vars[o.n].dims
                return ('idx', o.n, [l for l, h in dims[:-1]] + [self.simp(o.depth)])
            raise Unsupported('argument ' + o.kind)
        y = self.bare(x)
        if y['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            raise Unsupported('null argument')
        if y['kind'] == 'UnaryOperator' and y['opcode'] == '&':
            e = self.expr(inner(y)[0])
            return e
        if re.match(r'^(const )?(double|int) ?(\*|\[)', q) and y['kind'] == 'ConditionalOperator':
            raise Unsupported('conditional pointer')
        return self.expr(x)

    def simp(self, e):
        p = self.topoly(self.expand(e))
        if p is not None:
            try:
                return self.topy(p)
            except Unsupported:
                pass
        return e

    def charptr(self, x):
        y = self.bare(x)
        if y['kind'] == 'StringLiteral':
            return ('str', y['value'].strip('"'))
        if y['kind'] == 'UnaryOperator' and y['opcode'] == '&':
            z = self.bare(inner(y)[0])
            if z['kind'] == 'DeclRefExpr' and z['referencedDecl']['id'] in self.chars:
                return ('achar', self.chars[z['referencedDecl']['id']])
            if z['kind'] == 'DeclRefExpr' and z['referencedDecl']['id'] in self.names:
                return ('achar', ('name', self.names[z['referencedDecl']['id']]))
            return ('achar', self.expr(z))
        if y['kind'] == 'CXXMemberCallExpr' and self.bare(inner(y)[0]).get('name') in ('c_str', 'data'):
            b = self.bare(inner(self.bare(inner(y)[0]))[0])
            if b['kind'] == 'MemberExpr' and self.bare(inner(b)[0])['kind'] == 'CXXThisExpr':
                n = 'this_' + b['name'].lower()
                if n not in self.u.vars:
                    v = self.u.var(n)
                    v.type = 'S'
                    self.members[n] = ('str', b['name'])
                return ('name', n)
            if b['kind'] == 'DeclRefExpr' and b['referencedDecl']['id'] in self.names:
                return ('name', self.names[b['referencedDecl']['id']])
        raise Unsupported('character argument')

    def call(self, n, stmt=False):
        name, f = self.callee(n)
        if name in ('energyInterpChar', 'concInterpChar'):
            a = self.expr(inner(n)[1:][0])
            c = lambda ch: num(ord(ch))
            return ('idx', 'merge', [c('l'), ('idx', 'merge', [c('p'), ('idx', 'merge', [c('h'), c('u'), ('bin', '==', a, num(2))]),
                                                           ('bin', '==', a, ONE)]), ('bin', '==', a, ZERO)])
        if name == 'interpChar' and f['kind'] == 'MemberExpr' and self.bare(inner(f)[0])['kind'] == 'CXXThisExpr':
            return self.charswitch(self.tu.defs[self.tu.find(f, 0)])
        return super().call(n, stmt)

    def charswitch(self, node):
        """member function that maps an enumerator to a character"""
        sw = [x for x in inner(body_of(node)) if x['kind'] == 'SwitchStmt']
        if len(sw) != 1:
            raise Unsupported('character function')
        e, items = self.expr(inner(sw[0])[0]), inner(inner(sw[0])[1])
        out = num(ord('u'))
        for s in reversed(items):
            if s['kind'] != 'CaseStmt':
                continue
            r = inner(s)[-1]
            if r['kind'] != 'ReturnStmt':
                raise Unsupported('character function')
            out = ('idx', 'merge', [self.expr(inner(r)[0]), out, ('bin', '==', e, self.expr(inner(s)[0]))])
        return out

    def member(self, name, q):
        if self.refthis:
            t, ptr, ref = ctype(q)
            if t is None or ptr:
                raise Unsupported('member %s of %s' % (name, self.refthis[1]))
            x = 'of_%s_%s' % (re.sub('^d_', '', self.refthis[0].lower()), re.sub('^d_', '', name.lower()))
            self.inp(x, t)
            self.members[x] = ('ref',) + self.refthis + (name,)
            return x
        if q.replace('const', '').strip() == 'char':
            q = 'int'
        return super().member(name, q)

    # -------------------------------------------------- lists of known length
    def body(self, n):
        self.level += 1
        try:
            return super().body(n)
        finally:
            self.level -= 1

    def islist(self, q):
        return bool(re.match(r'^(const )?std::(__cxx11::)?(vector|array)<', q)) and '&' not in q and '*' != q.rstrip()[-1]

    def listof(self, n):
        """value of an initialiser of a vector"""
        n = self.bare(n)
        while n['kind'] in ('CXXStdInitializerListExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups') or \
                n['kind'] == 'CXXConstructExpr' and len([x for x in inner(n) if x['kind'] != 'CXXDefaultArgExpr']) == 1 and not re.match(r'^(unsigned )?(int|long)', qual(inner(n)[0])):
            n = self.bare(inner(n)[0])
        if n['kind'] == 'InitListExpr':
            if len(inner(n)) == 1 and inner(n)[0]['kind'] == 'InitListExpr':
                n = inner(n)[0]
            out = []
            pre = []
            for x in inner(n):
                out.append(self.listitem(x, pre))
            return Obj('list', items=out, level=self.level), pre
        if n['kind'] == 'CXXConstructExpr' and not [x for x in inner(n) if x['kind'] != 'CXXDefaultArgExpr']:
            return Obj('list', items=[], level=self.level), []
        raise Unsupported('vector initialised by ' + n['kind'])

    def listitem(self, x, pre):
        if qual(x).rstrip().endswith('*') and self.bare(x)['kind'] == 'DeclRefExpr' and \
                getattr(self.sobj.get(self.bare(x)['referencedDecl']['id']), 'kind', '') == 'unset':
            return self.sobj[self.bare(x)['referencedDecl']['id']]
        o = self.obj0(x)
        if o is not None:
            return o
        if OBJ.search(quals(x)) or qual(x).rstrip().endswith('*'):
            raise Unsupported('element of a vector')
        e = self.expr(x)
        if not self.stable(e) or e[0] not in ('name', 'num'):
            t = ctype(qual(x))[0]
            if t is None:
                raise Unsupported('element of type ' + qual(x))
            v = self.newvar('item__', t)
            pre.append(Stmt('assign', (v, None, e), self.line(x)))
            self.constpar.add(v)
            e = ('name', v)
        return e

    def listelem(self, n):
        """(list, index) of the subscript expression n"""
        n = self.bare(n)
        if n['kind'] == 'CXXOperatorCallExpr' and self.bare(inner(n)[0]).get('referencedDecl', {}).get('name') == 'operator[]':
            o = self.obj0(inner(n)[1])
            if o is not None and o.kind == 'list':
                i = self.cval(inner(n)[2])
                if not 0 <= i < len(o.items):
                    raise Unsupported('subscript outside of the vector')
                return o, i
        return None

    def liststep(self, n):
        """statements that change a list; None for others"""
        n = self.strip(n)
        pre = []
        if n['kind'] == 'BinaryOperator' and n['opcode'] == '=' and self.bare(inner(n)[0])['kind'] == 'CXXOperatorCallExpr':
            e = self.listelem(inner(n)[0])
            if e is None:
                return None
            o, i = e
            v = self.listitem(inner(n)[1], pre)
            self.listmut(o)
            o.items[i] = v
            return pre
        if n['kind'] == 'CXXMemberCallExpr':
            f = self.bare(inner(n)[0])
            if f.get('name') not in ('push_back', 'emplace_back', 'resize', 'clear', 'reserve'):
                return None
            o = self.obj0(inner(f)[0])
            if o is None or o.kind != 'list':
                return None
            a = [x for x in inner(n)[1:] if x['kind'] != 'CXXDefaultArgExpr']
            self.listmut(o)
            if f['name'] == 'clear':
                o.items = []
            elif f['name'] in ('push_back', 'emplace_back'):
                o.items.append(self.listitem(a[0], pre))
            elif f['name'] == 'resize':
                k = self.cval(a[0])
                while len(o.items) < k:
                    if 'vector<' in quals(inner(f)[0]).split('<', 1)[1]:
                        o.items.append(Obj('list', items=[], level=o.level))
                    elif len(a) > 1:
                        o.items.append(self.listitem(a[1], pre))
                    else:
                        raise Unsupported('vector of default values')
                o.items = o.items[:k]
            return pre
        return None

    def listmut(self, o):
        if o.level != self.level:
            raise Unsupported('vector changed under a condition')

    # -------------------------------------------------- statements
    def stmt(self, n):
        k = n['kind']
        if k in WRAP or k in CASTS and n.get('castKind') != 'ToVoid':
            return self.stmt(inner(n)[0])
        if k == 'SwitchStmt':
            return self.switch(n)
        if k in ('BinaryOperator', 'CXXMemberCallExpr'):
            r = self.liststep(n)
            if r is not None:
                return r
        if self.ossa and k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CXXMemberCallExpr'):
            i = self.objset(n)
            if i in self.ossa:
                return self.objstep(n, i)
        if k == 'BinaryOperator' and n['opcode'] == '=' and self.bare(inner(n)[0])['kind'] == 'DeclRefExpr':
            i = self.bare(inner(n)[0])['referencedDecl']['id']
            if i in self.ssa and i in self.names:
                # straight-line reassignment: later uses see a new variable
                old = self.names[i]
                x = self.newvar(old + '__s', self.u.vars[old].type)
                e = self.expr(inner(n)[1])
                self.names[i] = x
                if self.u.vars[x].type == 'I' and self.stable(e):
                    self.idef[x] = e
                return [Stmt('assign', (x, None, e), self.line(n))]
        if k == 'CXXForRangeStmt':
            r = self.patchrange(n)
            if r is not None:
                return r
        if k == 'BinaryOperator' and n['opcode'] == '=' and qual(inner(n)[0]).rstrip().endswith('*'):
            l = self.bare(inner(n)[0])
            if l['kind'] == 'DeclRefExpr' and getattr(self.sobj.get(l['referencedDecl']['id']), 'kind', '') == 'unset':
                self.sobj[l['referencedDecl']['id']] = self.obj(inner(n)[1])
                return []
            raise Unsupported('pointer assigned')
        if k == 'IfStmt':
            c = inner(n)
            if not n.get('hasInit') and not n.get('hasVar'):
                e = self.cond(c[0])
                if e not in (('log', True), ('log', False)) and len(c) == 2 and self.mentions(c[1], 'setField'):
                    # random noise: outside every contract
                    return [Stmt('if', (e, [Stmt('stop', None, self.line(n))], []), self.line(n))]
                if e == ('log', True):
                    return self.body(c[1])
                if e == ('log', False):
                    return self.body(c[2]) if len(c) > 2 else []
                if len(c) == 2 and self.stable(e):
                    b = self.body(c[1])
                    if len(b) == 1 and b[0].op == 'assign' and b[0].a[1] and len(b[0].a[1]) == 1 and b[0].a[1][0][0] == 'num' and \
                            b[0].a[2][0] == 'num' and b[0].a[0] not in self.members:
                        # element of a local table chosen by a condition
                        x, ix, v = b[0].a
                        self.idef.pop((x,), None)
                        return [Stmt('assign', (x, ix, ('idx', 'merge', [v, ('idx', x, ix), e])), b[0].line)]
                    return [Stmt('if', (e, b, []), self.line(n))]
        return super().stmt(n)

    def switch(self, n):
        c = inner(n)
        e = self.expr(c[0])
        items = inner(c[1])
        cases, cur = [], None
        flat = []
        for s in items:
            labs = []
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labs.append(self.expr(inner(s)[0]))
                    s = inner(s)[-1]
                else:
                    labs.append(None)
                    s = inner(s)[-1]
            if labs:
                cur = (labs, [])
                cases.append(cur)
            if cur is None:
                raise Unsupported('switch')
            cur[1].append(s)
        out = []
        for labs, ss in reversed(cases):
            if ss and ss[-1]['kind'] == 'BreakStmt':
                ss = ss[:-1]
            elif not (ss and ss[-1]['kind'] in ('ReturnStmt',)) and (labs, ss) != cases[-1]:
                raise Unsupported('switch fall through')
            b = []
            for s in ss:
                b += self.stmt(s)
            if None in labs:
                if out:
                    raise Unsupported('default is not last')
                out = b
                continue
            t = None
            for x in labs:
                q = ('bin', '==', e, x)
                t = q if t is None else ('bin', '.or.', t, q)
            out = [Stmt('if', (t, b, out), self.line(n))]
        return out

    def decl(self, v):
        q = quals(v)
        ini = inner(v)
        ini = [x for x in ini if not x['kind'].endswith('Attr')]
        if re.search(r'DataOpsReal', q):
            self.sobj[v['id']] = Obj('ops', hier='Hierarchy' in q, t='side' if 'Side' in q else 'cell')
            return []
        if re.match(r'^(const )?char\b', v['type']['qualType']) and '*' not in q and '[' not in q:
            if v['id'] in self.mut or not ini:
                raise Unsupported('character variable assigned')
            self.chars[v['id']] = self.expr(ini[0])
            return []
        isptr = qual(v).rstrip(' const').endswith('*') and re.match(r'^(const )?(double|int)', qual(v))
        m = re.match(r'^(?:const )?std::vector<double', q)
        if m and ini and v['id'] not in self.mut:
            c = self.bare(ini[0])
            a = [x for x in inner(c) if x['kind'] != 'CXXDefaultArgExpr'] if c['kind'] == 'CXXConstructExpr' else []
            s = self.bare(a[0]) if len(a) == 1 else {}
            if s.get('kind') == 'CXXMemberCallExpr' and self.bare(inner(s)[0]).get('name') == 'size':
                o = self.obj0(inner(self.bare(inner(s)[0]))[0])
                if o is not None and o.kind == 'box':
                    x = self.newvar(v['name'], 'R')
                    self.u.vars[x].dims = list(zip(o.lo, o.hi))
                    self.sobj[v['id']] = Obj('scratch', n=x)
                    return []
        if re.search(r'(Multiply|Add)Operation<', q):
            return []
        if self.islist(qual(v)) and 'BoundaryBox' not in q:
            self.sobj[v['id']], pre = self.listof(ini[0]) if ini else (Obj('list', items=[], level=self.level), [])
            return pre
        if isptr or OBJ.search(q):
            if v['id'] in self.mut and not (v['id'] in self.ossa and '&' not in q and '*' not in q):
                if not ini or self.nullinit(ini[0]):
                    self.sobj[v['id']] = Obj('unset')
                    return []
                raise Unsupported('object variable assigned')
            if not ini:
                raise Unsupported('object without value')
            o = self.obj0(ini[0]) if len(ini) == 1 else None
            if o is None and self.bare(ini[0])['kind'] == 'CXXConstructExpr':
                o = self.construct(self.bare(ini[0]))
            if o is None:
                raise Unsupported('object %s of type %s' % (v['name'], q[:60]))
            self.sobj[v['id']] = o
            return []
        out = super().decl(v)
        n = self.names.get(v['id'])
        if v['id'] in self.loopnames:
            self.loopvars.add(n)
        if n and v['id'] not in self.mut:
            vv = self.u.vars[n]
            if vv.dims is None and out and out[-1].op == 'assign' and out[-1].a[0] == n and vv.type == 'I' and self.stable(out[-1].a[2]):
                self.idef[n] = out[-1].a[2]
                if self.uses(out[-1].a[2], '<finest>'):
                    return out[:-1]
            elif vv.dims is not None and len(vv.dims) == 1 and vv.type == 'I':
                dd = {}
                for s in out:
                    if s.op == 'assign' and s.a[0] == n and s.a[1][0][0] == 'num' and self.stable(s.a[2]):
                        dd[int(s.a[1][0][1])] = s.a[2]
                self.idef[(n,)] = dd
        return out

    def nullinit(self, x):
        x = self.bare(x)
        return x['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or (x['kind'] == 'CXXConstructExpr' and not inner(x))

    def stable(self, e):
        """the value of the expression cannot change later in its scope"""
        if isinstance(e, (tuple, list)):
            if len(e) > 1 and e[0] == 'name':
                n = e[1]
                return n in self.idef or n in self.members or n in self.loopvars or n in self.constpar or n == '<finest>' or (n,) in self.idef
            if len(e) > 2 and e[0] == 'idx' and e[1] not in ('merge', 'min', 'max', 'abs', 'mod', 'int') and (e[1],) not in self.idef:
                return False
            return all(self.stable(x) for x in e if isinstance(x, (tuple, list)))
        return True

    def itervar(self, ini):
        if ini.get('kind') == 'DeclStmt' and len(inner(ini)) >= 1:
            q = quals(inner(ini)[0])
            if 'CellIterator' in q:
                return 'cell'
            if 'PatchLevel' in q or '__normal_iterator' in q and 'Patch' in q:
                return 'patch'
        return None

    def forloop(self, n):
        c = n.get('inner', [])
        ini, cond, inc, body = c[0], c[2], c[3], c[4]
        t = self.itervar(ini)
        if t is None and not ini.get('kind') and cond.get('kind') and self.bare(cond)['kind'] == 'CXXOperatorCallExpr' and len(inner(self.bare(cond))) == 3:
            d = self.bare(inner(self.bare(cond))[1]).get('referencedDecl', {})
            if getattr(self.sobj.get(d.get('id')), 'kind', '') == 'pit':
                t, v = 'patch', d
                o = self.sobj[d['id']]
        elif t is not None:
            v = inner(ini)[0]
            o = self.obj(inner(v)[0])
        if t is not None:
            e = None
            if len(inner(ini) if ini.get('kind') else []) == 2:                # begin and end declared together
                w = inner(ini)[1]
                self.sobj[w['id']] = self.obj(inner(w)[0])
            b = self.bare(cond)
            ops = inner(b)
            okc = b['kind'] == 'CXXOperatorCallExpr' and self.bare(ops[0]).get('referencedDecl', {}).get('name') == 'operator!='
            if not okc and b['kind'] == 'UnaryOperator':
                okc = False
            if not okc:
                raise Unsupported('iterator condition')
            l, r = self.bare(ops[1]), ops[2]
            if not (l['kind'] == 'DeclRefExpr' and l['referencedDecl']['id'] == v['id']):
                raise Unsupported('iterator condition')
            e = self.obj(r)
            i = self.bare(inc)
            if not (i['kind'] == 'CXXOperatorCallExpr' and self.bare(inner(i)[0]).get('referencedDecl', {}).get('name') == 'operator++'
                    and self.bare(inner(i)[1]).get('referencedDecl', {}).get('id') == v['id']):
                raise Unsupported('iterator increment')
            if t == 'patch':
                if o.kind != 'pit' or e.kind != 'pit' or (o.which, e.which) != ('begin', 'end'):
                    raise Unsupported('patch loop')
                self.sobj[v['id']] = Obj('piter')
                return self.body(body)
            if o.kind != 'cit' or e.kind != 'cit' or (o.which, e.which) != ('begin', 'end') or (o.box.lo, o.box.hi) != (e.box.lo, e.box.hi):
                raise Unsupported('cell loop')
            vs = [self.newvar('c%d__%s' % (d, v['name']), 'I') for d in range(self.dim)]
            self.loopvars |= set(vs)
            self.sobj[v['id']] = Obj('citer', v=[('name', x) for x in vs])
            b = self.body(body)
            for d in range(self.dim):
                b = [Stmt('do', (vs[d], o.box.lo[d], o.box.hi[d], None, b), self.line(n))]
            return b
        if ini.get('kind') == 'DeclStmt' and len(inner(ini)) == 1:
            if self.mentions(body, 'getPatchLevel'):
                return self.levelloop(n)
            self.predecl(ini, body)
        try:
            return super().forloop(n)
        except Unsupported as e:
            if str(e) != 'direction is not a constant':
                raise
        return self.unroll(n)

    def unroll(self, n):
        c = n.get('inner', [])
        ini, cond, inc, body = c[0], self.strip(c[2]), self.strip(c[3]), c[4]
        if ini.get('kind') != 'DeclStmt' or len(inner(ini)) != 1 or cond.get('kind') != 'BinaryOperator' or cond['opcode'] not in ('<', '<='):
            raise Unsupported('direction is not a constant')
        v = inner(ini)[0]
        l = self.strip(inner(cond)[0])
        i = self.strip(inner(inc)[0]) if inner(inc) else {}
        if [x.get('referencedDecl', {}).get('id') for x in (l, i)] != [v['id']] * 2 or inc.get('opcode') != '++' or self.assigns(body, v['id']):
            raise Unsupported('direction is not a constant')
        lo, he = self.cval(inner(v)[-1]), self.expand(self.expr(inner(cond)[1]))
        hi = self.upper(he)
        sure = self.topoly(he) is not None and self.topoly(he).isconst()
        if not sure and not self.stable(he):
            raise Unsupported('direction is not a constant')
        hi -= cond['opcode'] == '<'
        if hi - lo > 8:
            raise Unsupported('direction is not a constant')
        out = []
        for k in range(lo, hi + 1):
            x = self.newvar(v['name'], 'I')
            self.names[v['id']] = x
            self.idef[x] = num(k)
            b = self.body(body)
            if cxx.has_op(b, ('exit', 'cycle', 'return')):
                raise Unsupported('loop left early')
            b = [Stmt('assign', (x, None, num(k)), self.line(n))] + b
            out += b if sure else [Stmt('if', (('bin', cond['opcode'], num(k), he), b, []), self.line(n))]
        return out

    def upper(self, e):
        """largest value of an integer expression with constant alternatives"""
        while e[0] == 'paren':
            e = e[1]
        p = self.topoly(e)
        if p is not None and p.isconst():
            return int(p.cval())
        if e[0] == 'idx' and e[1] == 'merge':
            return max(self.upper(e[2][0]), self.upper(e[2][1]))
        if e[0] == 'bin' and e[1] == '+':
            return self.upper(e[2]) + self.upper(e[3])
        raise Unsupported('direction is not a constant')

    def assigns(self, x, i):
        if x.get('kind') in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and (
                x['opcode'].endswith('=') and x['opcode'] not in ('==', '<=', '>=', '!=') or x['opcode'] in ('++', '--', '&')):
            if self.strip(inner(x)[0]).get('referencedDecl', {}).get('id') == i:
                return True
        return any(self.assigns(y, i) for y in x.get('inner', []) if isinstance(y, dict))

    def predecl(self, ini, body):
        v = inner(ini)[0]
        self.loopnames.add(v['id'])

    def mentions(self, n, name):
        if isinstance(n, dict):
            return n.get('name') == name or any(self.mentions(x, name) for x in n.get('inner', []))
        return False

    def levelloop(self, n):
        c = n.get('inner', [])
        ini, cond, inc, body = c[0], c[2], c[3], c[4]
        v = inner(ini)[0]
        name = self.newvar(v['name'], 'I')
        self.names[v['id']] = name
        lo = self.expr(inner(v)[0])
        b = self.strip(cond)
        l, r = inner(b)
        if self.expr(l) != ('name', name):
            raise Unsupported('level loop')
        hi = self.expr(r)
        i = self.strip(inc)
        if i.get('kind') != 'UnaryOperator' or i['opcode'] not in ('++', '--'):
            raise Unsupported('level loop')
        P = lambda e: self.topoly(self.expand(e))
        up = i['opcode'] == '++'
        op = b['opcode']
        lo, hi = P(lo), P(hi)
        if lo is None or hi is None or (op[0] == '<') != up or op not in ('<', '<=', '>', '>='):
            raise Unsupported('level loop')
        if op == '<':
            hi = hi - 1
        if op == '>':
            hi = hi + 1
        if not up:
            lo, hi = hi, lo
        if not lo.iszero() or not (hi - sym.var('<finest>', 'I')).iszero():
            raise Unsupported('not all levels are visited')
        return self.body(body)

    def patchrange(self, n):
        c = n.get('inner', [])
        body, lv = c[-1], c[-2]
        v = inner(lv)[0]
        if 'Patch' not in quals(v):
            return None
        for d in c:
            for w in inner(d) if d.get('kind') == 'DeclStmt' else []:
                if w.get('name', '').startswith('__range'):
                    o = self.obj(inner(w)[0])
                    if o.kind == 'level':
                        self.sobj[v['id']] = Obj('patch')
                        return self.body(body)
        return None

    def callstmt(self, n):
        if n['kind'] == 'CXXOperatorCallExpr':
            op = self.bare(inner(n)[0]).get('referencedDecl', {}).get('name')
            c = inner(n)
            if op == 'operator=' and OBJ.search(quals(c[1])):
                l = self.bare(c[1])
                if l['kind'] == 'DeclRefExpr' and getattr(self.sobj.get(l['referencedDecl']['id']), 'kind', '') == 'unset':
                    o = self.obj(c[2])
                    self.sobj[l['referencedDecl']['id']] = o
                    return []
                raise Unsupported('object assigned')
            if op == 'operator=' and len(c) == 3 and self.obj0(c[1]) is None:
                return super().callstmt(n)
            return super().callstmt(n)
        if n['kind'] == 'CXXMemberCallExpr':
            f = self.bare(inner(n)[0])
            b = self.bare(inner(f)[0])
            if b['kind'] != 'CXXThisExpr':
                if 'Timer' in quals(b) or re.search(r'shared_ptr<.*Timer', quals(inner(f)[0])):
                    return []
                o = self.obj0(inner(f)[0])
                if o is not None and o.kind == 'timer':
                    return []
                if o is not None and o.kind == 'strat':
                    return self.stratcall(n, o, f['name'], inner(n)[1:])
                if o is not None and o.kind == 'ops':
                    return self.ops(n, o, f['name'], inner(n)[1:])
                if o is not None and o.kind == 'pd':
                    return self.pdstmt(n, o, f['name'], inner(n)[1:])
                if o is None and re.search(r'Timer', str(quals(inner(f)[0]))):
                    return []
        if n['kind'] == 'CallExpr':
            e = self.fcall(n)
            if e is not None:
                return [Stmt('call', e, self.line(n))]
            f = self.bare(inner(n)[0])
            if (f.get('referencedDecl', {}).get('name') or f.get('name')) == 'doArrayDataOperationOnBox':
                return self.boxop(n, inner(n)[1:], None)
            if f['kind'] == 'MemberExpr' and self.bare(inner(f)[0])['kind'] == 'CXXThisExpr' and '(*' in qual(f):
                return self.fptr(n, f)
        name, f = self.callee(n)
        if name in ('abort', 'exit'):
            return [Stmt('stop', None, self.line(n))]
        if f['kind'] in ('DeclRefExpr', 'MemberExpr') and self.needsinline(n, f):
            return self.inline(n, f)
        return super().callstmt(n)

    def nest(self, lo, hi, f, line):
        vs = [self.newvar('m%d__' % d, 'I') for d in range(self.dim)]
        self.loopvars |= set(vs)
        b = f([('name', x) for x in vs])
        for d in range(self.dim):
            b = [Stmt('do', (vs[d], lo[d], hi[d], None, b), line)]
        return b

    def pdstmt(self, n, o, m, a):
        p = o.p
        a = [x for x in a if x['kind'] != 'CXXDefaultArgExpr']
        if m in ('copyDepth', 'copy'):
            s = self.obj(a[1 if m == 'copyDepth' else 0])
            if s.kind != 'pd' or s.p['kind'] != p['kind']:
                raise Unsupported('copy of patch data')
            if s.p is not p:
                self.sameng.add(('ng_' + p['base'], 'ng_' + s.p['base']))
            out = []
            for arr, src in zip(p['arrs'], s.p['arrs']):
                dims = self.u.vars[arr].dims[:-1]
                if m == 'copyDepth':
                    dd, sd = self.expr(a[0]), self.expr(a[2])
                    g = lambda I: [Stmt('assign', (arr, list(I) + [dd], ('idx', src, list(I) + [sd])), self.line(n))]
                    out += self.nest([d[0] for d in dims], [d[1] for d in dims], g, self.line(n))
                else:
                    dv = self.newvar('dep__', 'I')
                    self.loopvars.add(dv)
                    g = lambda I: [Stmt('assign', (arr, list(I) + [('name', dv)], ('idx', src, list(I) + [('name', dv)])), self.line(n))]
                    out.append(Stmt('do', (dv, ZERO, ('bin', '-', ('name', 'nd_' + p['base']), ONE), None,
                                           self.nest([d[0] for d in dims], [d[1] for d in dims], g, self.line(n))), self.line(n)))
            return out
        box = self.obj0(a[1]) if m in ('fill', 'fillAll') and len(a) > 1 else None
        if box is not None and box.kind == 'box':
            out = []
            x = self.expr(a[0])
            for q, arr in enumerate(p['arrs']):
                hi = [add(h, ONE) if p['kind'] == 'side' and d == q else h for d, h in enumerate(box.hi)]
                dep = self.expr(a[2]) if len(a) > 2 else ZERO
                dv = self.newvar('dep__', 'I')
                self.loopvars.add(dv)
                g = lambda I: [Stmt('assign', (arr, list(I) + [('name', dv)], x), self.line(n))]
                l, h = (ZERO, ('bin', '-', ('name', 'nd_' + p['base']), ONE)) if m == 'fillAll' else (dep, dep)
                out.append(Stmt('do', (dv, l, h, None, self.nest(box.lo, hi, g, self.line(n))), self.line(n)))
            return out
        if m in ('fillAll', 'fill'):
            out = []
            x = self.expr(a[0])
            for q, arr in enumerate(p['arrs']):
                dims = self.u.vars[arr].dims
                dv = self.newvar('dep__', 'I')
                self.loopvars.add(dv)
                g = lambda I, arr=arr, dv=dv: [Stmt('assign', (arr, I + [('name', dv)], x), self.line(n))]
                lo, hi = (ZERO, ('bin', '-', ('name', 'nd_' + p['base']), ONE)) if m == 'fillAll' else [self.expr(a[1]) if len(a) > 1 else ZERO] * 2
                out.append(Stmt('do', (dv, lo, hi, None, self.nest([d[0] for d in dims[:-1]], [d[1] for d in dims[:-1]], g, self.line(n))), self.line(n)))
            return out
        raise Unsupported('%s of patch data' % m)

    def ops(self, n, o, m, a):
        a = [x for x in a if x['kind'] != 'CXXDefaultArgExpr']
        if o.t != 'cell' or m not in ('setToScalar', 'copyData', 'scale', 'add', 'subtract', 'multiply', 'axpy', 'addScalar', 'linearSum'):
            raise Unsupported('data operation ' + m)
        nds = {'setToScalar': 'ds', 'copyData': 'dd', 'scale': 'dsd', 'add': 'ddd', 'subtract': 'ddd', 'multiply': 'ddd', 'axpy': 'dsdd',
               'addScalar': 'dds', 'linearSum': 'dsdsd'}[m]
        ds, ss = [], []
        for c, x in zip(nds, a):
            if c == 's':
                ss.append(self.expr(x))
            elif o.hier:
                key, src = self.ident(x)
                ds.append(self.pd(key, src, 'cell', 'double'))
            else:
                ds.append(self.obj(x))
        rest = a[len(nds):]
        p = ds[0].p
        D = range(self.dim)
        if o.hier:
            inter = True
            if rest:
                e = self.expr(rest[0])
                if e[0] != 'log':
                    raise Unsupported('interior flag')
                inter = e[1]
            ng = ('name', 'ng_' + p['base'])
            lo = [self.lo(d) if inter else ('bin', '-', self.lo(d), ng) for d in D]
            hi = [self.hi(d) if inter else ('bin', '+', self.hi(d), ng) for d in D]
        else:
            b = self.obj(rest[0])
            lo, hi = b.lo, b.hi
        dv = self.newvar('dep__', 'I')
        self.loopvars.add(dv)

        def body(I):
            x = [('idx', q.p['arrs'][0], list(I) + [('name', dv)]) for q in ds[1:]]
            r = {'setToScalar': lambda: ss[0], 'copyData': lambda: x[0], 'scale': lambda: ('bin', '*', ('paren', ss[0]), x[0]),
                 'add': lambda: ('bin', '+', x[0], x[1]), 'subtract': lambda: ('bin', '-', x[0], x[1]),
                 'multiply': lambda: ('bin', '*', x[0], x[1]),
                 'axpy': lambda: ('bin', '+', ('bin', '*', ('paren', ss[0]), x[0]), x[1]),
                 'addScalar': lambda: ('bin', '+', x[0], ('paren', ss[0])),
                 'linearSum': lambda: ('bin', '+', ('bin', '*', ('paren', ss[0]), x[0]), ('bin', '*', ('paren', ss[1]), x[1]))}[m]()
            return [Stmt('assign', (p['arrs'][0], list(I) + [('name', dv)], r), self.line(n))]
        return [Stmt('do', (dv, ZERO, ('bin', '-', ('name', 'nd_' + p['base']), ONE), None, self.nest(lo, hi, body, self.line(n))), self.line(n))]

    # -------------------------------------------------- inlining
    def needsinline(self, n, f):
        if f['kind'] == 'MemberExpr' and self.bare(inner(f)[0])['kind'] != 'CXXThisExpr':
            return False
        return any(OBJ.search(quals(x)) or re.match(r'^(const )?(double|int) ?\*', qual(x)) for x in inner(n)[1:])

    def inline(self, n, f):
        if self.depth > 6:
            raise Unsupported('nested calls')
        return self.inlinenode(n, self.tu.defs[self.tu.find(f, len(inner(n)) - 1)])

    def fptr(self, n, f):
        """call through a pointer to a function that the constructor chooses"""
        cls = self.tu.classof.get(self.node['mangledName'], '')
        found = []

        def mentions(x):
            return x.get('kind') == 'MemberExpr' and x.get('name') == f['name'] or any(mentions(y) for y in inner(x))
        for c in self.tu.ctors:
            if c.get('name') == cls.split('::')[-1]:
                found += [x for x in inner(body_of(c)) if mentions(x)]
        ids = {x['id']: x for x in found}
        if len(ids) != 1:
            raise Unsupported('choice of ' + f['name'])
        lits = {}

        def cond(x):
            x = self.strip(x)
            if x['kind'] == 'UnaryOperator' and x['opcode'] == '!':
                a, b, neg = cond(inner(x)[0])
                return a, b, not neg
            if x['kind'] == 'DeclRefExpr' and re.match(r'^(const )?bool$', qual(x)):
                return x['referencedDecl']['name'], None, False
            if x['kind'] == 'CXXOperatorCallExpr' and self.strip(inner(x)[0]).get('referencedDecl', {}).get('name') in ('operator==', 'operator!='):
                y = [self.strip(z) for z in inner(x)[1:]]
                s = [z for z in y if z['kind'] == 'StringLiteral']
                v = [z for z in y if z['kind'] == 'DeclRefExpr']
                if len(s) == len(v) == 1:
                    p, l = v[0]['referencedDecl']['name'], s[0]['value'].strip('"')
                    lits.setdefault(p, set()).add(l)
                    return p, l, self.strip(inner(x)[0])['referencedDecl']['name'] == 'operator!='
            raise Unsupported('choice of ' + f['name'])

        def tree(x):
            if x['kind'] == 'IfStmt':
                c = inner(x)
                if len(c) != 3:
                    raise Unsupported('choice of ' + f['name'])
                a, b, neg = cond(c[0])
                t, e = tree(c[1]), tree(c[2])
                return ('if', a, b, e if neg else t, t if neg else e)
            if x['kind'] == 'CompoundStmt' and len(inner(x)) == 1:
                return tree(inner(x)[0])
            y = self.strip(x)
            if y['kind'] == 'BinaryOperator' and y['opcode'] == '=' and self.strip(inner(y)[0]).get('name') == f['name']:
                r = self.strip(inner(y)[1])
                if r['kind'] == 'UnaryOperator' and r['opcode'] == '&':
                    r = self.strip(inner(r)[0])
                if r['kind'] == 'DeclRefExpr':
                    return ('fn', r)
            raise Unsupported('choice of ' + f['name'])
        t = tree(list(ids.values())[0])

        def go(t):
            if t[0] == 'fn':
                m = self.tu.find(t[1], len(inner(n)) - 1)
                return self.inlinenode(n, self.tu.defs[m]), ['fn', t[1]['referencedDecl']['name']]
            x = 'ctor_' + t[1].lower()
            self.inp(x)
            k = 1 if t[2] is None else sorted(lits[t[1]]).index(t[2])
            a, b = go(t[3]), go(t[4])
            c = ('bin', '/=', ('name', x), ZERO) if t[2] is None else ('bin', '==', ('name', x), num(k))
            return ([Stmt('if', (c, a[0], b[0]), self.line(n))],
                    ['if', x, '!= 0' if t[2] is None else '== %d' % k, a[1], b[1]])
        out, self.fptrs[f['name']] = go(t)
        return out

    def inlinenode(self, n, node):
        if self.depth > 6:
            raise Unsupported('nested calls')
        self.prescan(node)
        params = [c for c in inner(node) if c['kind'] == 'ParmVarDecl']
        pre = []
        for p, a in zip(params, inner(n)[1:]):
            q = quals(p)
            if OBJ.search(q) or re.match(r'^(const )?(double|int) ?\*', qual(p)):
                if p['id'] in self.mut:
                    raise Unsupported('parameter assigned')
                self.sobj[p['id']] = self.arrayobj(a)
                continue
            if p.get('name', '').endswith('_id'):
                try:
                    self.idkey[p['id']] = self.ident(a)
                    continue
                except Unsupported:
                    pass
            if re.search(r'string', q):
                e = self.bare(a)
                raise Unsupported('string argument')
            e = self.expr(a)
            if '&' in qual(p) and 'const' not in qual(p):
                if e[0] != 'name':
                    raise Unsupported('reference argument')
                self.names[p['id']] = e[1]
                continue
            t = ctype(qual(p))[0] or ('I' if self.tu.isenum(qual(p)) else None)
            if t is None:
                raise Unsupported('argument of type ' + qual(p))
            x = self.newvar(p.get('name') or 'unused', t)
            self.names[p['id']] = x
            pre.append(Stmt('assign', (x, None, e), self.line(n)))
            if p['id'] not in self.mut and t == 'I' and self.stable(e):
                self.idef[x] = e
        self.depth += 1
        try:
            b = self.block(body_of(node))
        finally:
            self.depth -= 1
        b = strip_ret(desugar_block(lower_loops(b, self.u)))
        if cxx.has_op(b, ('return',)):
            raise Unsupported('early return of an inlined function')
        return pre + b

    def arrayobj(self, a):
        o = self.obj0(a)
        b = self.bare(a)
        if o is None and b['kind'] == 'DeclRefExpr':
            x = self.names.get(b['referencedDecl']['id'])
            if x in self.u.vars and self.u.vars[x].dims is not None and len(self.u.vars[x].dims) == 1:
                return Obj('vec', n=x)
        return o if o is not None else self.obj(a)

    def prescan(self, node):
        def lhs(x):
            x = self.strip(x)
            if x.get('kind') == 'DeclRefExpr':
                self.mut.add(x['referencedDecl']['id'])
            elif x.get('kind') in ('ArraySubscriptExpr',):
                b = self.strip(inner(x)[0])
                if b.get('kind') == 'DeclRefExpr' and '[' in b.get('type', {}).get('qualType', '*'):
                    self.mut.add(b['referencedDecl']['id'])
            i = self.objmut(x)
            if i:
                self.mut.add(i)

        def go(x):
            k = x.get('kind')
            if k == 'BinaryOperator' and x.get('opcode') == '=' or k == 'CompoundAssignOperator':
                lhs(inner(x)[0])
            elif k == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
                lhs(inner(x)[0])
            elif k == 'CXXOperatorCallExpr' and inner(x) and self.strip(inner(x)[0]).get('referencedDecl', {}).get('name') in (
                    'operator=', 'operator+=', 'operator-='):
                lhs(inner(x)[1])
            elif k == 'CXXMemberCallExpr':
                f = self.strip(inner(x)[0])
                if f.get('name') in ('reset', 'swap', 'grow', 'growUpper', 'setUpper', 'setLower'):
                    lhs(self.bare(inner(f)[0]))
            for c in x.get('inner', []):
                if isinstance(c, dict):
                    go(c)
        go(node)
        self.findssa(node)

    def objmut(self, x):
        """declaration of the index or box of which x is a component"""
        if x.get('kind') == 'CXXOperatorCallExpr' and self.strip(inner(x)[0]).get('referencedDecl', {}).get('name') in ('operator[]', 'operator()'):
            b = self.bare(inner(x)[1])
            if b.get('kind') == 'DeclRefExpr' and IVEC.match(qual(b)):
                return b['referencedDecl']['id']
        return None

    def objset(self, x):
        """declaration of the index or box that the statement x modifies"""
        x = self.strip(x)
        k = x.get('kind')
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (x['opcode'] == '=' or k[0] == 'C') or k == 'UnaryOperator' and x['opcode'] in ('++', '--'):
            return self.objmut(self.strip(inner(x)[0]))
        if k == 'CXXMemberCallExpr':
            f = self.strip(inner(x)[0])
            b = self.bare(inner(f)[0]) if inner(f) else {}
            if f.get('name') in ('grow', 'growUpper', 'setUpper', 'setLower') and b.get('kind') == 'DeclRefExpr' and IVEC.match(qual(b)):
                return b['referencedDecl']['id']
        return None

    def objstep(self, n, i):
        n = self.strip(n)
        o = self.sobj.get(i)
        if not isinstance(o, Obj) or o.kind not in ('ivec', 'box'):
            raise Unsupported('object modified')
        if n['kind'] == 'CXXMemberCallExpr':
            m, a = self.strip(inner(n)[0])['name'], [x for x in inner(n)[1:] if x['kind'] != 'CXXDefaultArgExpr']
            lo, hi = list(o.lo), list(o.hi)
            D = range(self.dim)
            if m in ('setUpper', 'setLower'):
                t = hi if m == 'setUpper' else lo
                if len(a) == 2:
                    t[self.cval(a[0])] = self.expr(a[1])
                else:
                    t[:] = self.obj(a[0]).v
            else:
                if len(a) == 2:
                    g = [self.expr(a[1]) if d == self.cval(a[0]) else ZERO for d in D]
                else:
                    v = self.obj0(a[0])
                    g = v.v if v is not None else [self.expr(a[0])] * self.dim
                hi = [add(x, y) for x, y in zip(hi, g)]
                if m == 'grow':
                    lo = [add(x, y, '-') for x, y in zip(lo, g)]
            self.sobj[i] = Obj('box', lo=lo, hi=hi)
            return []
        l = self.strip(inner(n)[0])
        d = self.cval(inner(l)[2])
        v = list(o.v)
        if n['kind'] == 'UnaryOperator':
            v[d] = add(v[d], ONE, n['opcode'][0])
        else:
            e = self.expr(inner(n)[1])
            op = n['opcode'][0]
            if n['opcode'] not in ('=', '+=', '-='):
                raise Unsupported('object modified')
            v[d] = e if op == '=' else add(v[d], e, op)
        if not self.stable(v[d]):
            raise Unsupported('object modified')
        self.sobj[i] = Obj('ivec', v=v)
        return []

    def findssa(self, node):
        cnt, direct, decls = {}, {}, {}
        ocnt, odirect = {}, {}

        def objs(x, top):
            i = self.objset(x) if x.get('kind') in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CXXMemberCallExpr') else None
            if i:
                ocnt[i] = ocnt.get(i, 0) + 1
            if x.get('kind') == 'CompoundStmt':
                here = {v['id'] for s in inner(x) if s['kind'] == 'DeclStmt' for v in inner(s) if v.get('kind') == 'VarDecl'}
                for s in inner(x):
                    if s['kind'] in tuple(WRAP) + ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CXXMemberCallExpr') and self.objset(s) in here:
                        odirect[self.objset(s)] = odirect.get(self.objset(s), 0) + 1
            for c in x.get('inner', []):
                if isinstance(c, dict):
                    objs(c, False)
        objs(node, True)
        for i, c in odirect.items():
            if ocnt.get(i) == c:
                self.ossa.add(i)

        def tgt(x):
            x = self.strip(x)
            return x['referencedDecl']['id'] if x.get('kind') == 'DeclRefExpr' else None

        def go(x):
            k = x.get('kind')
            if k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and (
                    x.get('opcode', '').endswith('=') and x['opcode'] not in ('==', '<=', '>=', '!=') or x.get('opcode') in ('++', '--', '&')):
                i = tgt(inner(x)[0])
                cnt[i] = cnt.get(i, 0) + 1
            elif k == 'CompoundStmt':
                here = {v['id'] for s in inner(x) if s['kind'] == 'DeclStmt' for v in inner(s) if v.get('kind') == 'VarDecl'
                        and re.match(r'^(int|double|short|unsigned)$', v['type']['qualType'])}
                for s in inner(x):
                    if s['kind'] == 'BinaryOperator' and s['opcode'] == '=' and tgt(inner(s)[0]) in here:
                        i = tgt(inner(s)[0])
                        direct[i] = direct.get(i, 0) + 1
            for c in x.get('inner', []):
                if isinstance(c, dict):
                    go(c)
        go(node)
        for i, c in direct.items():
            if cnt.get(i) == c:
                self.ssa.add(i)
                self.mut.discard(i)

    # -------------------------------------------------- the unit
    def translate(self):
        fn, u = self.node, self.u
        self.loopvars, self.loopnames, self.constpar = set(), set(), set()
        self.prescan(fn)
        rt = fn['type']['qualType'].split('(')[0].strip()
        t, ptr, ref = ctype(rt)
        if rt == 'void':
            u.kind = 'subroutine'
        else:
            if t is None or ptr:
                raise Unsupported('return type ' + rt)
            u.result = '<ret>'
            u.var('<ret>').type = t
        self.params = params = [c for c in inner(fn) if c['kind'] == 'ParmVarDecl']
        if not any(OBJ.search(quals(p)) for p in params) and not self.mentions(body_of(fn), 'getPatchLevel'):
            raise Unsupported('no patch data')
        order = []
        for p in params:
            q = qual(p)
            nm = p.get('name') or 'unused'
            if re.search(r'PatchHierarchy|PatchLevel|\bPatch\b', quals(p)):
                k = 'hier' if 'PatchHierarchy' in quals(p) else 'level' if 'PatchLevel' in quals(p) else 'patch'
                self.sobj[p['id']] = Obj(k)
                order.append(('obj', k, 'shared_ptr' in q))
                self.patchy = True
                continue
            m = re.search(r'(Cell|Side)Data<(double|int)>', quals(p))
            if m and 'shared_ptr' in quals(p):
                self.patchy = True
                o = self.pd(nm, ('direct', nm), m.group(1).lower(), m.group(2))
                self.sobj[p['id']] = o
                order.append(('pd', nm))
                continue
            if re.search(r'\bBox\b', quals(p)):
                D = range(self.dim)
                self.sobj[p['id']] = Obj('box', lo=[self.lo(d) for d in D], hi=[self.hi(d) for d in D])
                order.append(('obj', 'box', False))
                continue
            if re.match(r'^(const )?(std::)?(__cxx11::)?(basic_)?string\b', q):
                n = self.newvar(nm, 'S')
                self.names[p['id']] = n
                u.args.append(n)
                order.append(('str', n))
                continue
            t, ptr, ref = ctype(q)
            if t is None and self.tu.isenum(q):
                t = 'I'
            if t is None or ptr:
                if ptr and t in ('R', 'I'):
                    n = self.newvar(nm, t, [(ZERO, None)])
                    if t == 'R' and nm in ('dx', 'h', 'xlo'):
                        u.vars[n].dims = [(ZERO, num(self.dim - 1))]
                    self.names[p['id']] = n
                    self.sobj[p['id']] = Obj('vec', n=n)
                    u.args.append(n)
                    order.append(('arg', n, p['type']['qualType']))
                    continue
                raise Unsupported('parameter of type ' + q)
            n = self.newvar(nm, t)
            self.names[p['id']] = n
            if nm.endswith('_id') and t == 'I':
                self.idkey[p['id']] = (nm, ('param', nm))
            if p['id'] not in self.mut:
                self.constpar.add(n)
            u.args.append(n)
            order.append(('arg', n, p['type']['qualType']))
            if not ref:
                self.byval[n] = None
        body = self.block(body_of(fn))
        w = set()
        assigned(body, w)
        pre = []
        for n in self.byval:
            if n in w:
                c = self.newvar(n + '__v', u.vars[n].type)
                body = rename(body, n, c)
                pre.append(Stmt('assign', (c, None, ('name', n)), 0))
        if not self.patchy:
            raise Unsupported('no patch data')
        u.order = order
        u.params = {}
        u.args += sorted(self.members)
        u.vecs = dict(self.vecs)
        u.cname, u.cls, u.static = cxx.qualified(fn, self.tu), self.tu.classof.get(fn['mangledName']), fn['mangledName'] in self.tu.static
        u.msize = dict(self.msize)
        u.members = dict(self.members)
        u.pds = {k: {x: p[x] for x in ('base', 'src', 'kind', 'typ', 'has', 'arrs')} for k, p in self.pds.items()}
        u.strats = self.strats
        u.fptrs = self.fptrs
        u.mhier = self.mhier
        u.node = fn
        for x, y in sorted(self.sameng):
            pre.append(Stmt('if', (('bin', '/=', ('name', x), ('name', y)), [Stmt('stop', None, 0)], []), 0))
        u.body = strip_ret(desugar_block(lower_loops(pre + body, u)))
        return u


# ------------------------------------------------------------- wrapper
def wrapper(u, dim):
    if u.pds is None and (u.vecs or u.vecobj):
        return (u.cls, '', cxx.wrapper(u))
    A = lambda n: 'a%d' % u.args.index(n)
    pds = u.pds or {}
    order = [x if not isinstance(x, str) else ('arg', x, u.params[x]) for x in u.order]
    ps = ', '.join('%s* a%d' % ('char' if u.vars[n].type == 'S' else cxx.cty(u.vars[n]), i) for i, n in enumerate(u.args))
    o = []
    w = o.append
    tup = lambda pfx: ', '.join('*%s' % A('%s%d' % (pfx, d)) if '%s%d' % (pfx, d) in u.args else '0' for d in range(dim))
    w('using namespace SAMRAI; typedef std::shared_ptr<hier::Patch> PP;')
    w('hier::Box box(hier::Index(%s), hier::Index(%s));' % (tup('ifirst'), tup('ilast')))
    w('auto geom = std::make_shared<geom::CartesianPatchGeometry>();')
    for d in range(dim):
        for f, n in (('d_dx', 'dx'), ('d_xlo', 'xlo'), ('d_xup', 'xup')):
            x = '%s[%d]' % (A(n), d) if n in u.args and u.members.get(n) else '1.'
            w('geom->%s[%d] = %s;' % (f, d, x))
    for d in range(3):
        for s in (0, 1):
            t = 'touch_%d%d' % (d, s)
            if t in u.args:
                w('geom->d_touch[%d][%d] = *%s != 0;' % (d, s, A(t)))
    mh = getattr(u, 'mhier', None)
    multi = bool(mh) or any(x[0] == 'obj' and x[1] in ('hier', 'level') for x in order)
    np = 4 if multi else 1
    w('PP pat[%d]; for (int q = 0; q < %d; q++) { pat[q] = std::make_shared<hier::Patch>(box); pat[q]->d_geom = geom; }' % (np, np))
    ids = {}
    copies = []
    for j, (k, p) in enumerate(sorted(pds.items())):
        src = p['src']
        ids[k] = str(1000 + j)
        if src[0] == 'param' and k.lower() in u.args:
            ids[k] = '*%s' % A(k.lower())
        m = 'this_' + k.lower()
        if src[0] == 'member' and m in u.args:
            ids[k] = '*%s' % A(m)
        ng, nd = '*%s' % A('ng_' + p['base']), '*%s' % A('nd_' + p['base'])
        for n in p['arrs']:
            q = p['arrs'].index(n) if p['kind'] == 'side' else None
            sz = '(size_t)1 * %s' % nd
            for d in range(dim):
                sz += ' * (*%s - *%s + 1 + 2 * %s%s)' % (A('ilast%d' % d), A('ifirst%d' % d), ng, ' + 1' if q == d else '')
            w('size_t s_%s = %s;' % (n, sz))
            if np > 1:
                w('std::vector<%s> c_%s[4]; for (int q = 1; q < 4; q++) c_%s[q].assign(%s, %s + s_%s);' % (p['typ'], n, n, A(n), A(n), n))
                copies.append((n, p['typ']))
        w('std::shared_ptr<hier::PatchData> pd_%d[%d];' % (j, np))
        cond = 'if (*%s) ' % A('has_' + p['base']) if p['has'] else ''
        w('for (int q = 0; q < %d; q++) %s{' % (np, cond))
        ptr = lambda n: ('q ? c_%s[q].data() : %s' % (n, A(n))) if np > 1 else A(n)
        if p['kind'] == 'cell':
            w('pd_%d[q] = std::make_shared<pdat::CellData<%s> >(box, %s, hier::IntVector(tbox::Dimension(%d), %s), %s);' % (
                j, p['typ'], nd, dim, ng, ptr(p['arrs'][0])))
        else:
            w('%s* pp[] = {%s};' % (p['typ'], ', '.join(ptr(n) for n in p['arrs'])))
            w('pd_%d[q] = std::make_shared<pdat::SideData<%s> >(box, %s, hier::IntVector(tbox::Dimension(%d), %s), pp);' % (
                j, p['typ'], nd, dim, ng))
        if src[0] in ('param', 'member'):
            w('pat[q]->d_data[%s] = pd_%d[q];' % (ids[k], j))
        w('}')
    if multi:
        w('auto hy = std::make_shared<hier::PatchHierarchy>(); for (int l = 0; l < 2; l++) { auto lv = std::make_shared<hier::PatchLevel>(); '
          'lv->d_ln = l; lv->d_patches = {pat[2 * l], pat[2 * l + 1]}; hy->d_levels.push_back(lv); }')
        w('auto lvl = std::make_shared<hier::PatchLevel>(); lvl->d_patches = {pat[0], pat[1], pat[2], pat[3]};')
    args = []
    j = sorted(pds)
    for x in order:
        if x[0] == 'obj':
            if x[1] == 'box':
                args.append('box')
                continue
            v = {'hier': 'hy', 'level': 'lvl', 'patch': 'pat[0]'}[x[1]]
            args.append(v if x[2] else '*' + v)
        elif x[0] == 'pd':
            p = pds[x[1]]
            args.append('std::dynamic_pointer_cast<pdat::%sData<%s> >(pd_%d[0])' % (p['kind'].capitalize(), p['typ'], j.index(x[1])))
        elif x[0] == 'str':
            args.append(A(x[1]))
        else:
            n, q = x[1], x[2]
            i = u.args.index(n)
            key = [k for k, p in pds.items() if p['src'] == ('param', k) or p['src'] == ['param', k]]
            kk = [k for k in key if k.lower() == n]
            t = q.replace('&', '').replace('const', '').strip()
            if u.vars[n].dims is not None:
                args.append('a%d' % i)
            elif '&' in q and 'const' not in q:
                o.append('%s v%d = *a%d;' % (t, i, i))
                args.append('v%d' % i)
            elif kk:
                args.append(ids[kk[0]])
            else:
                args.append('(%s)*a%d' % (t, i))
    post = []
    for x in order:
        if x[0] == 'arg' and '&' in x[2] and 'const' not in x[2] and u.vars[x[1]].dims is None:
            i = u.args.index(x[1])
            post.append('*a%d = v%d;' % (i, i))
    name = u.cname.split('::')[-1]
    call = '%s(%s)' % (u.cname, ', '.join(args))
    if u.cls and not u.static:
        w('alignas(64) static char buf[sizeof(%s)]; memset(buf, 0, sizeof buf); %s* obj = (%s*)buf; verif_vptr<%s>(buf, (void*)vt_%s);' % (
            u.cls, u.cls, u.cls, u.cls, u.cls))
        for k, p in pds.items():
            if p['src'][0] == 'member':
                w('*(int*)&obj->%s = %s;' % (k, ids[k]))
        refs = set()
        if mh:
            w('hy->d_levels = {lvl}; new ((void*)&obj->%s) std::shared_ptr<hier::PatchHierarchy>(hy);' % mh)
        for k, p in sorted((getattr(u, 'strats', None) or {}).items()):
            mk = 'std::shared_ptr<%s>(new Mock%s(%s))' % (p['cls'], p['cls'], A(p['w']))
            if p['has']:
                mk = '*%s ? %s : std::shared_ptr<%s>()' % (A(p['has']), mk, p['cls'])
            w('new ((void*)&obj->%s) std::shared_ptr<%s>(%s);' % (k, p['cls'], mk))
        def choice(t):
            return t[1] if t[0] == 'fn' else '(*%s %s ? %s : %s)' % (A(t[1]), t[2], choice(t[3]), choice(t[4]))
        for k, t in sorted((getattr(u, 'fptrs', None) or {}).items()):
            w('obj->%s = %s;' % (k, choice(t)))
        for i, n in enumerate(u.args):
            m = u.members.get(n)
            if isinstance(m, str):
                w(cxx.fill(u, n, i, 'obj->' + m))
                if u.vars[n].dims is None:
                    if 'const' not in m:
                        post.append('*a%d = (%s)obj->%s;' % (i, cxx.cty(u.vars[n]), m))
                elif n in u.msize:
                    post.append('for (int i = 0; i < %d; i++) a%d[i] = obj->%s[i];' % (u.msize[n], i, m))
            elif isinstance(m, (list, tuple)) and m[0] == 'ref':
                if m[1] not in refs:
                    refs.add(m[1])
                    w('alignas(64) static char r_%s[sizeof(%s)]; memset(r_%s, 0, sizeof r_%s); verif_ref(buf, sizeof buf, r_%s, [&] { return (char*)&obj->%s; });' % (
                        m[1], m[2], m[1], m[1], m[1], m[1]))
                w('*(typename std::remove_const<decltype(obj->%s.%s)>::type*)&obj->%s.%s = *a%d;' % (m[1], m[3], m[1], m[3], i))
            elif isinstance(m, (list, tuple)) and m[0] == 'str':
                w('new ((void*)&obj->%s) std::string(a%d);' % (m[1], i))
        call = 'obj->%s::%s(%s)' % (u.cls, name, ', '.join(args))
    rt = 'void' if u.kind == 'subroutine' else cxx.cty(u.vars[u.result])
    for n, t in copies:
        bad = 'std::numeric_limits<double>::quiet_NaN()' if t == 'double' else '-99999'
        post.append('for (int q = 1; q < 4; q++) if (s_%s && memcmp(c_%s[q].data(), %s, s_%s * sizeof(%s))) for (size_t i = 0; i < s_%s; i++) %s[i] = %s;' % (
            n, n, A(n), n, t, n, A(n), bad))
    r = '' if rt == 'void' else '%s r = ' % rt
    vt = ''
    if u.cls and not u.static:
        vt = 'extern "C" void* vt_%s[] __asm__("_ZTV%d%s") __attribute__((weak));\n' % (u.cls, len(u.cls), u.cls)
    return (u.cls, vt, 'extern "C" %s %s_(%s) {\n %s\n %s%s;\n %s\n %s }\n' % (rt, u.name, ps, '\n '.join(o), r, call, '\n '.join(post),
                                                                       '' if rt == 'void' else 'return r;'))


HEAD = '''#include <limits>
#include <new>
#include <cstring>
#include <string>
#include <type_traits>
#include "SAMRAI/mini.h"
template <class F>
static void verif_ref(char* b, size_t n, char* to, F&& at)
{
   for (size_t i = 0; i + 8 <= n; i += 8) {
      char* old = *(char**)(b + i);
      *(char* volatile*)(b + i) = to;
      asm volatile("" ::: "memory");
      if (at() == to) return;
      *(char* volatile*)(b + i) = old;
   }
}
template <class T>
static void verif_vptr(char* b, void* vt)
{
   if (std::is_polymorphic<T>::value && vt) *(void**)b = (char*)vt + 16;
}
'''
