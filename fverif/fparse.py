"""Fixed-form Fortran front end.

Reads the m4 output of the current /repo kernels (or a plain .f file) and
produces an AST.  Nothing is dropped except comments and output statements
(print/write), which are kept as 'io' nodes and have no effect on the state.
"""
import re, subprocess
from fractions import Fraction


class FError(Exception):
    pass


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- reading

def run_m4(path, fortdir):
    r = subprocess.run(['m4', '-DSAMRAI_FORTDIR=' + fortdir, path],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise FError('m4 failed on %s: %s' % (path, r.stderr[:500]))
    return r.stdout


def logical_lines(text):
    out = []
    for ln, raw in enumerate(text.split('\n'), 1):
        line = raw.rstrip('\r')
        if line.strip() == '':
            continue
        if line[0] in 'cC*!dD' and not line[0].isspace():
            if line[0] in 'dD' and not re.match(r'^[dD][ \t]', line) and not line[0] == 'd':
                pass
            continue
        if '\t' in line[:6]:
            # gfortran: tab in the first six columns
            p = line.index('\t')
            lab = line[:p]
            rest = line[p + 1:]
            if rest[:1].isdigit() and rest[0] != '0':
                line = lab.ljust(5) + '&' + rest[1:]
            else:
                line = lab.ljust(6) + rest
        line = line[:72]
        # strip inline comment
        q = None
        cut = None
        for i, ch in enumerate(line):
            if q:
                if ch == q:
                    q = None
            elif ch in '\'"':
                q = ch
            elif ch == '!' and i != 5:
                cut = i
                break
        if cut is not None:
            line = line[:cut]
        if line.strip() == '':
            continue
        line = line.ljust(6)
        if line[5] not in ' 0' and line[:5].strip() == '':
            if not out:
                raise FError('continuation without start, line %d' % ln)
            out[-1][2] += line[6:]
        else:
            out.append([line[:5].strip(), ln, line[6:]])
    res = []
    for lab, ln, body in out:
        # split on ';' outside strings
        parts, q, cur = [], None, ''
        for ch in body:
            if q:
                if ch == q:
                    q = None
                cur += ch
            elif ch in '\'"':
                q = ch
                cur += ch
            elif ch == ';':
                parts.append(cur)
                cur = ''
            else:
                cur += ch
        parts.append(cur)
        for k, p in enumerate(parts):
            if p.strip():
                res.append((lab if k == 0 else '', ln, p.strip()))
    return res


TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<num>(?:\d+\.(?!(?:eq|ne|lt|le|gt|ge|and|or|not|eqv|neqv)\.)\d*|\.\d+|\d+)(?:[edED][+-]?\d+)?(?:_\w+)?)
 |(?P<dot>\.[a-zA-Z]+\.)
 |(?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
 |(?P<name>[A-Za-z_]\w*)
 |(?P<op>\*\*|//|==|/=|<=|>=|=>|::|[-+*/(),=<>:%\[\]])
''', re.X)


def tokenize(s):
    pos, toks = 0, []
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise FError('cannot tokenize: ' + s[pos:pos + 30])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        if k == 'name':
            t = t.lower()
        elif k == 'dot':
            t = t.lower()
            if t in ('.true.', '.false.'):
                k = 'log'
            else:
                t = {'.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=',
                     '.gt.': '>', '.ge.': '>='}.get(t, t)
                k = 'op'
        toks.append((k, t))
    toks.append(('end', ''))
    return toks


class P:
    """expression parser over a token list"""

    def __init__(self, toks, pos=0):
        self.t, self.p = toks, pos

    def peek(self):
        return self.t[self.p][1] if self.t[self.p][0] in ('op', 'name') else None

    def kind(self):
        return self.t[self.p][0]

    def next(self):
        x = self.t[self.p]
        self.p += 1
        return x

    def accept(self, op):
        if self.t[self.p][0] == 'op' and self.t[self.p][1] == op:
            self.p += 1
            return True
        return False

    def expect(self, op):
        if not self.accept(op):
            raise FError('expected %s got %r' % (op, self.t[self.p]))

    def atend(self):
        return self.t[self.p][0] == 'end'

    def expr(self):
        return self.eqv()

    def eqv(self):
        a = self.orx()
        while self.kind() == 'op' and self.t[self.p][1] in ('.eqv.', '.neqv.'):
            op = self.next()[1]
            a = ('bin', op, a, self.orx())
        return a

    def orx(self):
        a = self.andx()
        while self.accept('.or.'):
            a = ('bin', '.or.', a, self.andx())
        return a

    def andx(self):
        a = self.notx()
        while self.accept('.and.'):
            a = ('bin', '.and.', a, self.notx())
        return a

    def notx(self):
        if self.accept('.not.'):
            return ('un', '.not.', self.notx())
        return self.rel()

    def rel(self):
        a = self.add()
        if self.kind() == 'op' and self.t[self.p][1] in ('==', '/=', '<', '<=', '>', '>='):
            op = self.next()[1]
            a = ('bin', op, a, self.add())
        return a

    def add(self):
        if self.accept('-'):
            a = ('un', '-', self.mul())
        elif self.accept('+'):
            a = self.mul()
        else:
            a = self.mul()
        while self.kind() == 'op' and self.t[self.p][1] in ('+', '-', '//'):
            op = self.next()[1]
            a = ('bin', op, a, self.mul())
        return a

    def mul(self):
        a = self.powx()
        while self.kind() == 'op' and self.t[self.p][1] in ('*', '/'):
            op = self.next()[1]
            a = ('bin', op, a, self.powx())
        return a

    def powx(self):
        a = self.prim()
        if self.accept('**'):
            # exponent may carry a sign
            if self.accept('-'):
                b = ('un', '-', self.powx())
            elif self.accept('+'):
                b = self.powx()
            else:
                b = self.powx()
            return ('bin', '**', a, b)
        return a

    def arglist(self):
        args = []
        if self.accept(')'):
            return args
        while True:
            args.append(self.arg())
            if self.accept(')'):
                return args
            self.expect(',')

    def arg(self):
        # slice or expression (or keyword arg)
        def stop():
            return self.kind() == 'op' and self.t[self.p][1] in (':', ',', ')')
        lo = hi = st = None
        if not stop():
            lo = self.expr()
        if self.accept(':'):
            if not stop():
                hi = self.expr()
            if self.accept(':'):
                st = self.expr()
            return ('slice', lo, hi, st)
        return lo

    def prim(self):
        k, t = self.next()
        if k == 'num':
            t = t.split('_')[0]
            isint = re.fullmatch(r'\d+', t) is not None
            dbl = 'd' in t.lower()
            v = Fraction(t.lower().replace('d', 'e'))
            return ('num', v, 'I' if isint else ('D' if dbl else 'R'))
        if k == 'log':
            return ('log', t == '.true.')
        if k == 'str':
            return ('str', t[1:-1])
        if k == 'name':
            if self.accept('('):
                a = self.arglist()
                if self.accept('('):
                    return ('idx2', t, a, self.arglist())
                return ('idx', t, a)
            return ('name', t)
        if k == 'op' and t == '(':
            if self.t[self.p] == ('op', '/'):
                self.p += 1
                items = [self.expr_noslash()]
                raise FError('array constructor')
            e = self.expr()
            self.expect(')')
            return ('paren', e)
        if k == 'op' and t == '-':
            return ('un', '-', self.mul())
        if k == 'op' and t == '+':
            return self.mul()
        raise FError('unexpected token %r' % ((k, t),))


# ---------------------------------------------------------------- units

class Var:
    __slots__ = ('name', 'type', 'dims', 'param', 'data', 'save', 'init')

    def __init__(self, name):
        self.name = name
        self.type = None
        self.dims = None      # list of (lo, hi) AST or (None,None) for assumed
        self.param = None
        self.data = None
        self.save = False
        self.init = None


class Unit:
    def __init__(self, kind, name, args):
        self.kind, self.name, self.args = kind, name, args
        self.vars = {}
        self.body = []
        self.result = name
        self.file = None
        self.line = 0
        self.text = ''
        self.stmtfuncs = {}

    def var(self, n):
        if n not in self.vars:
            self.vars[n] = Var(n)
        return self.vars[n]


class Stmt:
    __slots__ = ('op', 'a', 'line', 'mw', 'label', 'name')

    def __init__(self, op, a, line=0, label='', name=None):
        self.op, self.a, self.line, self.mw, self.label, self.name = op, a, line, None, label, name

    def __repr__(self):
        return 'Stmt(%s,%r)' % (self.op, self.a)


TYPE_RE = re.compile(
    r'^(integer|real|double\s*precision|logical|character|complex)\b', re.I)


def parse_dims(p):
    dims = []
    if p.accept(')'):
        return dims
    while True:
        if p.accept('*'):
            dims.append((('num', Fraction(1), 'I'), None))
        else:
            if p.accept(':'):
                dims.append((None, None))
            else:
                e = p.expr()
                if p.accept(':'):
                    if p.accept('*'):
                        dims.append((e, None))
                    elif p.kind() == 'op' and p.t[p.p][1] in (',', ')'):
                        dims.append((e, None))
                    else:
                        dims.append((e, p.expr()))
                else:
                    dims.append((('num', Fraction(1), 'I'), e))
        if p.accept(')'):
            return dims
        p.expect(',')


def skip_paren(p):
    depth = 1
    while depth:
        k, t = p.next()
        if k == 'end':
            raise FError('paren')
        if k == 'op' and t == '(':
            depth += 1
        if k == 'op' and t == ')':
            depth -= 1


def parse_type_prefix(p):
    """p at a type keyword; returns type letter"""
    k, t = p.next()
    if t == 'double':
        p.next()
        typ = 'R'
    elif t == 'doubleprecision':
        typ = 'R'
    elif t == 'real':
        typ = 'R4'
    elif t == 'integer':
        typ = 'I'
    elif t == 'logical':
        typ = 'L'
    elif t == 'character':
        typ = 'S'
    else:
        raise FError('type ' + t)
    clen = None
    if p.accept('*'):
        if p.accept('('):
            skip_paren(p)
        else:
            k, n = p.next()
            if typ == 'R4' and n == '8':
                typ = 'R'
    elif p.kind() == 'op' and p.t[p.p][1] == '(' and typ in ('S', 'R4', 'I', 'L'):
        # kind or len
        save = p.p
        p.next()
        q = p.p
        skip_paren(p)
        if typ == 'R4' and any(x[1] in ('8', 'kind') for x in p.t[q:p.p]):
            typ = 'R'
    return typ


class Parser:
    def __init__(self, text, file):
        self.file = file
        self.lines = logical_lines(text)
        self.i = 0
        self.units = {}
        self.order = []

    def parse(self):
        while self.i < len(self.lines):
            self.parse_unit()
        return self.units

    def parse_unit(self):
        lab, ln, s = self.lines[self.i]
        toks = tokenize(s)
        p = P(toks)
        rettype = None
        if TYPE_RE.match(s):
            rettype = parse_type_prefix(p)
        while p.peek() in ('recursive', 'pure', 'elemental'):
            p.next()
            if p.peek() in ('integer', 'real', 'double', 'logical'):
                rettype = parse_type_prefix(p)
        k, t = p.next()
        if t not in ('subroutine', 'function'):
            raise FError('%s:%d: expected program unit, got %s' % (self.file, ln, s))
        kind = t
        k, name = p.next()
        args = []
        if p.accept('('):
            if not p.accept(')'):
                while True:
                    args.append(p.next()[1])
                    if p.accept(')'):
                        break
                    p.expect(',')
        u = Unit(kind, name, args)
        u.file, u.line = self.file, ln
        if p.peek() == 'result':
            p.next()
            p.expect('(')
            u.result = p.next()[1]
        if rettype:
            u.var(u.result).type = rettype
        self.i += 1
        start = self.i
        u.body = self.parse_block(u, ('end',))
        u.text = '\n'.join(x[2] for x in self.lines[start:self.i])
        for v in u.vars.values():
            if v.type is None:
                v.type = 'I' if v.name[0] in 'ijklmn' else 'R4'
        for a in u.args:
            u.var(a)
            if u.vars[a].type is None:
                u.vars[a].type = 'I' if a[0] in 'ijklmn' else 'R4'
        if kind == 'function':
            u.var(u.result)
            if u.vars[u.result].type is None:
                u.vars[u.result].type = 'I' if u.result[0] in 'ijklmn' else 'R4'
        # constant conditions
        self.units[name] = u
        self.order.append(name)

    # ------------------------------------------------ statements
    def parse_block(self, u, enders):
        """parse statements until a line whose head is in enders; leaves self.i
        after the ender line; returns list; self.ended = matching (head, toks)"""
        out = []
        while True:
            if self.i >= len(self.lines):
                raise FError('unexpected end of file in ' + u.name)
            lab, ln, s = self.lines[self.i]
            toks = tokenize(s)
            head = self.head(toks)
            if head in enders:
                self.i += 1
                self.ended = (head, toks, ln)
                return out
            self.i += 1
            st = self.statement(u, lab, ln, s, toks, head)
            if st is not None:
                out.append(st)
                if lab and isinstance(enders, Lab) and enders.label == lab:
                    self.ended = ('label', toks, ln)
                    return out
            elif lab and isinstance(enders, Lab) and enders.label == lab:
                self.ended = ('label', toks, ln)
                return out

    def head(self, toks):
        k, t = toks[0]
        if k != 'name':
            return None
        # assignment?
        if self.is_assign(toks):
            return '='
        t2 = toks[1][1] if len(toks) > 1 and toks[1][0] == 'name' else None
        if t == 'end':
            if t2 in ('do', 'if', 'select', 'where'):
                return 'end' + t2
            return 'end'
        if t in ('endsubroutine', 'endfunction'):
            return 'end'
        if t == 'else':
            if t2 == 'if':
                return 'elseif'
            return 'else'
        if t == 'go' and t2 == 'to':
            return 'goto'
        if t == 'select' and t2 == 'case':
            return 'select'
        return t

    def is_assign(self, toks):
        # name [ (...) ] [ (...) ] =  with no trailing comma construct of do
        i = 1
        if toks[0][0] != 'name':
            return False
        while toks[i] == ('op', '('):
            d = 0
            while True:
                if toks[i][0] == 'end':
                    return False
                if toks[i] == ('op', '('):
                    d += 1
                if toks[i] == ('op', ')'):
                    d -= 1
                    if d == 0:
                        break
                i += 1
            i += 1
        if toks[i] != ('op', '='):
            return False
        # "do i = ..." has toks[1] a name so does not get here
        return True

    def statement(self, u, lab, ln, s, toks, head):
        p = P(toks)
        if head == '=':
            # statement function?
            k, n = p.next()
            if p.accept('('):
                args = p.arglist()
                sub = None
                if p.accept('('):
                    sub = p.arglist()
                p.expect('=')
                rhs = p.expr()
                v = u.vars.get(n)
                if (v is None or v.dims is None) and not (v is not None and v.type == 'S') and sub is None \
                        and all(a and a[0] == 'name' for a in args) and not u_has_exec(u):
                    u.stmtfuncs[n] = ([a[1] for a in args], rhs)
                    return None
                mark_exec(u)
                if sub is not None or (v is not None and v.type == 'S' and v.dims is None):
                    return Stmt('unsup', 'substring assignment', ln, lab)
                return Stmt('assign', (n, args, rhs), ln, lab)
            p.expect('=')
            rhs = p.expr()
            if not p.atend():
                raise FError('trailing tokens in assignment: ' + s)
            mark_exec(u)
            return Stmt('assign', (n, None, rhs), ln, lab)
        if head in ('implicit', 'external', 'intrinsic'):
            return None
        if head in ('integer', 'real', 'double', 'doubleprecision', 'logical', 'character'):
            self.decl(u, p)
            return None
        if head == 'dimension':
            p.next()
            p.accept('::')
            self.entities(u, p, None, None, False)
            return None
        if head == 'parameter':
            p.next()
            p.expect('(')
            while True:
                n = p.next()[1]
                p.expect('=')
                u.var(n).param = p.expr()
                if p.accept(')'):
                    break
                p.expect(',')
            return None
        if head == 'save':
            p.next()
            p.accept('::')
            names = []
            while not p.atend():
                k, n = p.next()
                if k == 'name':
                    names.append(n)
                    u.var(n).save = True
            return None
        if head == 'data':
            p.next()
            self.data(u, p)
            return None
        if head in ('include', 'use', 'common', 'equivalence', 'format', 'namelist'):
            return Stmt('unsup', head, ln, lab)
        mark_exec(u)
        return self.exec_stmt(u, lab, ln, s, toks, head)

    def data(self, u, p):
        # data  list / values / [, list / values /]
        while not p.atend():
            targets = []
            while True:
                if p.accept('('):
                    raise FError('implied do in data')
                n = p.next()[1]
                idx = None
                if p.accept('('):
                    idx = p.arglist()
                targets.append((n, idx))
                if p.accept('/'):
                    break
                p.expect(',')
            vals = []
            while True:
                neg = p.accept('-')
                p.accept('+')
                k, t = p.next()
                if k not in ('num', 'log', 'str'):
                    if k == 'name':
                        v = ('name', t)
                    else:
                        raise FError('data value %r' % ((k, t),))
                else:
                    p.p -= 1
                    v = p.prim()
                if neg:
                    v = ('un', '-', v)
                if p.accept('*'):
                    rep = int(v[1])
                    neg = p.accept('-')
                    v = p.prim()
                    if neg:
                        v = ('un', '-', v)
                    vals += [v] * rep
                else:
                    vals.append(v)
                if p.accept('/'):
                    break
                p.expect(',')
            for (n, idx) in targets:
                v = u.var(n)
                if v.data is None:
                    v.data = []
                v.data.append((idx, None))
            # assign values: deferred until dims are known
            if not hasattr(u, 'datas'):
                u.datas = []
            u.datas.append((targets, vals))
            p.accept(',')

    def decl(self, u, p):
        typ = parse_type_prefix(p)
        dims, param, save = None, False, False
        while p.accept(','):
            k, t = p.next()
            if t == 'dimension':
                p.expect('(')
                dims = parse_dims(p)
            elif t == 'parameter':
                param = True
            elif t == 'save':
                save = True
            elif t == 'intent':
                p.expect('(')
                skip_paren(p)
            elif t in ('external', 'intrinsic', 'optional'):
                pass
            else:
                raise FError('attribute ' + t)
        p.accept('::')
        self.entities(u, p, typ, dims, save)

    def entities(self, u, p, typ, dims, save):
        while not p.atend():
            k, n = p.next()
            v = u.var(n)
            if typ:
                v.type = typ
            if dims is not None:
                v.dims = dims
            if save:
                v.save = True
            if p.accept('*'):
                if p.accept('('):
                    skip_paren(p)
                else:
                    p.next()
            if p.accept('('):
                v.dims = parse_dims(p)
            if p.accept('*'):
                if p.accept('('):
                    skip_paren(p)
                else:
                    p.next()
            if p.accept('='):
                v.init = p.expr()
                v.save = True
            if not p.accept(','):
                break
        if not p.atend():
            raise FError('trailing tokens in declaration')

    def exec_stmt(self, u, lab, ln, s, toks, head):
        p = P(toks)
        if head == 'if':
            p.next()
            p.expect('(')
            c = p.expr()
            p.expect(')')
            if p.peek() == 'then' and p.t[p.p + 1][0] == 'end':
                branches = []
                els = []
                body = self.parse_block(u, ('else', 'elseif', 'endif'))
                branches.append((c, body))
                while True:
                    h, tk, l2 = self.ended
                    if h == 'endif':
                        break
                    if h == 'elseif':
                        q = P(tk)
                        while q.peek() in ('else', 'elseif', 'if'):
                            q.next()
                        q.expect('(')
                        c2 = q.expr()
                        body = self.parse_block(u, ('else', 'elseif', 'endif'))
                        branches.append((c2, body))
                    else:
                        els = self.parse_block(u, ('endif',))
                # nest
                node = els
                for (cc, bb) in reversed(branches):
                    node = [Stmt('if', (cc, bb, node), ln, lab)]
                return node[0]
            sub = toks[p.p:]
            h2 = self.head(sub)
            if h2 == '=':
                st = self.statement(u, '', ln, '', sub, h2)
            else:
                st = self.exec_stmt(u, '', ln, '', sub, h2)
            return Stmt('if', (c, [st] if st else [], []), ln, lab)
        if head == 'do':
            p.next()
            endlab = None
            if p.kind() == 'num':
                endlab = p.next()[1]
                p.accept(',')
            enders = ('enddo',)
            if endlab:
                enders = Lab(endlab)
            if p.atend():
                body = self.parse_block(u, enders)
                return Stmt('doforever', (body,), ln, lab)
            if p.peek() == 'while':
                p.next()
                p.expect('(')
                c = p.expr()
                p.expect(')')
                body = self.parse_block(u, enders)
                return Stmt('while', (c, body), ln, lab)
            v = p.next()[1]
            p.expect('=')
            lo = p.expr()
            p.expect(',')
            hi = p.expr()
            st = None
            if p.accept(','):
                st = p.expr()
            if not p.atend():
                raise FError('do: trailing')
            body = self.parse_block(u, enders)
            return Stmt('do', (v, lo, hi, st, body), ln, lab)
        if head == 'call':
            p.next()
            n = p.next()[1]
            args = []
            if p.accept('('):
                args = p.arglist()
            return Stmt('call', (n, args), ln, lab)
        if head in ('return', 'stop', 'cycle', 'exit', 'continue'):
            if head in ('cycle', 'exit') and len(toks) > 2:
                return Stmt('unsup', 'named ' + head, ln, lab)
            return Stmt(head, None, ln, lab)
        if head in ('print', 'write', 'read'):
            if head == 'read':
                return Stmt('unsup', 'read', ln, lab)
            return Stmt('io', None, ln, lab)
        if head == 'select':
            p.next()
            p.next()
            p.expect('(')
            sel = p.expr()
            p.expect(')')
            cases = []
            pre = self.parse_block(u, ('case', 'endselect'))
            els = []
            while self.ended[0] == 'case':
                q = P(self.ended[1])
                q.next()
                if q.peek() == 'default':
                    els = self.parse_block(u, ('case', 'endselect'))
                else:
                    q.expect('(')
                    items = q.arglist()
                    conds = None
                    for it in items:
                        if it[0] == 'slice':
                            c = None
                            if it[1] is not None:
                                c = ('bin', '>=', sel, it[1])
                            if it[2] is not None:
                                c2 = ('bin', '<=', sel, it[2])
                                c = c2 if c is None else ('bin', '.and.', c, c2)
                        else:
                            c = ('bin', '==', sel, it)
                        conds = c if conds is None else ('bin', '.or.', conds, c)
                    cases.append((conds, self.parse_block(u, ('case', 'endselect'))))
            node = els
            for (c, b) in reversed(cases):
                node = [Stmt('if', (c, b, node), ln, lab)]
            return node[0] if node else None
        if head == 'goto':
            return Stmt('unsup', 'goto', ln, lab)
        raise FError('%s:%d: unknown statement: %s' % (self.file, ln, s or toks))


class Lab(tuple):
    def __new__(cls, label):
        t = tuple.__new__(cls, ())
        t.label = label
        return t


def u_has_exec(u):
    return getattr(u, '_exec', False)


def mark_exec(u):
    u._exec = True


# ------------------------------------------------ structural desugaring

def desugar_block(block, inloop=False):
    """remove cycle (and trailing return) by nesting; exit/return inside loops
    stay and are reported as unsupported by the evaluator when relevant"""
    out = []
    for k, s in enumerate(block):
        if s.op == 'if':
            c, a0, b0 = s.a
            rest = block[k + 1:]
            if rest and (has_jump(a0) or has_jump(b0)):
                # move the continuation into the branches that fall through
                ra = desugar_block(a0, inloop)
                if not jumps(ra):
                    ra = desugar_block(a0 + rest, inloop)
                rb = desugar_block(b0, inloop)
                if not jumps(rb):
                    rb = desugar_block(b0 + rest, inloop)
                out.append(Stmt('if', (c, ra, rb), s.line, s.label))
                return out
            out.append(Stmt('if', (c, desugar_block(a0, inloop), desugar_block(b0, inloop)), s.line, s.label))
        elif s.op == 'do':
            v, lo, hi, st, body = s.a
            out.append(Stmt('do', (v, lo, hi, st, desugar_loop(body)), s.line, s.label))
        elif s.op == 'while':
            c, body = s.a
            out.append(Stmt('while', (c, desugar_loop(body)), s.line, s.label))
        elif s.op == 'doforever':
            out.append(Stmt('doforever', (desugar_loop(s.a[0]),), s.line, s.label))
        elif s.op in ('cycle', 'return', 'stop'):
            out.append(s)
            return out
        elif s.op in ('continue', 'io'):
            pass
        else:
            out.append(s)
    return out


def desugar_loop(body):
    b = desugar_block(body, True)
    return strip_cycle(b)


def strip_ret(b):
    if b and b[-1].op == 'return':
        return b[:-1]
    if b and b[-1].op == 'if':
        c, x, y = b[-1].a
        return b[:-1] + [Stmt('if', (c, strip_ret(x), strip_ret(y)), b[-1].line)]
    return b


def strip_cycle(b):
    if b and b[-1].op == 'cycle':
        return b[:-1]
    if b and b[-1].op == 'if':
        c, x, y = b[-1].a
        return b[:-1] + [Stmt('if', (c, strip_cycle(x), strip_cycle(y)), b[-1].line)]
    return b


def jumps(b):
    """block always ends in a jump (cycle/return/stop)"""
    if not b:
        return False
    s = b[-1]
    if s.op in ('cycle', 'return', 'stop'):
        return True
    if s.op == 'if':
        return jumps(s.a[1]) and jumps(s.a[2])
    return False


def has_jump(b):
    """a cycle/return/stop of this loop level occurs somewhere in b"""
    for s in b:
        if s.op in ('cycle', 'return', 'stop'):
            return True
        if s.op == 'if' and (has_jump(s.a[1]) or has_jump(s.a[2])):
            return True
    return False


_fl = [0]


def lower_loops(block, u):
    """replace exit / return inside loops by flags"""
    out = []
    for s in block:
        if s.op == 'if':
            c, a, b = s.a
            out.append(Stmt('if', (c, lower_loops(a, u), lower_loops(b, u)), s.line, s.label))
        elif s.op in ('do', 'while', 'doforever'):
            bi = {'do': 4, 'while': 1, 'doforever': 0}[s.op]
            body = lower_loops(s.a[bi], u)
            hasex, hasret = jump_kinds(body)
            if not hasex and not hasret:
                out.append(Stmt(s.op, s.a[:bi] + (body,), s.line, s.label))
                continue
            if s.op != 'do':
                out.append(Stmt('unsup', 'exit from while loop', s.line))
                continue
            _fl[0] += 1
            fl, rt = 'exit__%d' % _fl[0], 'ret__%d' % _fl[0]
            one, zero = ('num', Fraction(1), 'I'), ('num', Fraction(0), 'I')
            for n in (fl, rt):
                u.var(n).type = 'I'
            body = flag_jumps(body, fl, rt, one)
            guard = ('bin', '==', ('name', fl), zero)
            out.append(Stmt('assign', (fl, None, zero), s.line))
            if hasret:
                out.append(Stmt('assign', (rt, None, zero), s.line))
            out.append(Stmt('do', s.a[:4] + ([Stmt('if', (guard, body, []), s.line)],), s.line, s.label))
            if hasret:
                out.append(Stmt('if', (('bin', '==', ('name', rt), one), [Stmt('return', None, s.line)], []), s.line))
        else:
            out.append(s)
    return out


def jump_kinds(b):
    ex = rt = False
    for s in b:
        if s.op == 'exit':
            ex = True
        if s.op == 'return':
            rt = True
        if s.op == 'if':
            for x in s.a[1:]:
                e, r = jump_kinds(x)
                ex, rt = ex or e, rt or r
    return ex, rt


def flag_jumps(b, fl, rt, one):
    out = []
    for s in b:
        if s.op == 'exit':
            out += [Stmt('assign', (fl, None, one), s.line), Stmt('cycle', None, s.line)]
        elif s.op == 'return':
            out += [Stmt('assign', (fl, None, one), s.line), Stmt('assign', (rt, None, one), s.line),
                    Stmt('cycle', None, s.line)]
        elif s.op == 'if':
            c, x, y = s.a
            out.append(Stmt('if', (c, flag_jumps(x, fl, rt, one), flag_jumps(y, fl, rt, one)), s.line))
        else:
            out.append(s)
    return out


def contains_op(block, ops):
    for s in block:
        if s.op in ops:
            return True
        if s.op == 'if' and (contains_op(s.a[1], ops) or contains_op(s.a[2], ops)):
            return True
        if s.op == 'do' and contains_op(s.a[4], ops):
            return True
        if s.op == 'while' and contains_op(s.a[1], ops):
            return True
        if s.op == 'doforever' and contains_op(s.a[0], ops):
            return True
    return False


def apply_include(text, dirs):
    import os
    out = []
    for line in text.split('\n'):
        m = re.match(r"^\s{6,}include\s*['\"]([^'\"]+)['\"]\s*$", line, re.I)
        if m:
            for d in dirs:
                f = os.path.join(d, m.group(1))
                if os.path.exists(f):
                    out.append(apply_include(open(f).read(), dirs))
                    break
            else:
                raise FError('include %s not found' % m.group(1))
        else:
            out.append(line)
    return '\n'.join(out)


def load(path, fortdir):
    if path.endswith('.m4'):
        text = run_m4(path, fortdir)
    else:
        text = open(path).read()
    text = apply_include(text, [fortdir])
    pr = Parser(text, path)
    units = pr.parse()
    for u in units.values():
        u.body = strip_ret(desugar_block(lower_loops(u.body, u)))
    return units, text
