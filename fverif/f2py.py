"""Scalar Fortran units (no grid arrays) for the path-wise interpreter of pyvc.

Every statement of the current source is translated; the only reshaping is
  * dummy scalars the unit assigns are returned (by-reference semantics),
  * a two-dimensional array a(1:m,1:n) is a list of its n columns, and a(1,j)
    passed to an array dummy is column j,
  * output statements are dropped, stop raises,
  * saved state: a leading `if (first) then ...; first = .false. endif` block
    that alone assigns the saved variables becomes unit__init, whose result
    is what every execution of the rest sees.
"""
import ast, os
from fractions import Fraction
import fparse

FORT = os.path.join(os.environ.get('AMPE_REPO', '/repo'), 'source/fortran')


class NoTranslation(Exception):
    pass


MATHF = {n: 'math.' + n for n in 'sqrt sin cos tan asin acos atan exp floor'.split()}
MATHF.update({'d' + n: 'math.' + n for n in 'sqrt sin cos tan asin acos atan exp'.split()})
MATHF.update({'abs': 'math.fabs', 'dabs': 'math.fabs', 'iabs': 'abs'})
OPS = {'.and.': 'and', '.or.': 'or', '==': '==', '/=': '!=', '<': '<', '<=': '<=', '>': '>', '>=': '>=', '+': '+', '-': '-', '*': '*',
       '.eq.': '==', '.ne.': '!=', '.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>='}


def number(v, kind):
    if kind == 'I':
        return str(int(v))
    v = Fraction(v)
    n, k = v, 0
    while n.denominator != 1:
        n, k = n * 10, k + 1
        if k > 60:
            raise NoTranslation('number')
    d = v
    if kind == 'R':
        q = d.denominator
        if q & (q - 1) or abs(d) > 2**24:
            raise NoTranslation('single precision constant')
    s = str(abs(n.numerator)).rjust(k + 1, '0')
    s = s[:-k] + '.' + s[-k:] if k else s + '.0'
    if Fraction(repr(float(s))) != abs(v):
        raise NoTranslation('number')
    return ('-' if v < 0 else '') + s


class Translator:
    def __init__(self, text, name):
        self.text = fparse.apply_include(text, [FORT])
        self.units = fparse.Parser(self.text, name).parse()
        self._mod = {}

    def modified(self, n, seen=()):
        """dummies a unit may assign"""
        if n in self._mod:
            return self._mod[n]
        if n not in self.units or n in seen:
            raise NoTranslation('unknown unit ' + n)
        u = self.units[n]
        out = set()

        def walk(b):
            for s in b:
                if s.op == 'assign':
                    out.add(s.a[0])
                elif s.op == 'if':
                    walk(s.a[1])
                    walk(s.a[2])
                elif s.op == 'do':
                    out.add(s.a[0])
                    walk(s.a[4])
                elif s.op == 'while':
                    walk(s.a[1])
                elif s.op == 'doforever':
                    walk(s.a[0])
                elif s.op == 'call':
                    m = self.modified(s.a[0], seen + (n,))
                    cu = self.units[s.a[0]]
                    for d, a in zip(cu.args, s.a[1]):
                        if d in m and a[0] in ('name', 'idx'):
                            out.add(a[1])
                elif s.op in ('return', 'stop', 'cycle', 'exit', 'continue', 'io'):
                    pass
                else:
                    raise NoTranslation(s.op)
        walk(u.body)
        self._mod[n] = out
        return out

    # ---------------------------------------------------------- expressions
    def const(self, u, e):
        if e is None:
            raise NoTranslation('assumed size')
        if e[0] == 'num':
            return int(e[1])
        if e[0] == 'paren':
            return self.const(u, e[1])
        if e[0] == 'name' and u.vars.get(e[1]) and u.vars[e[1]].param is not None:
            return self.const(u, u.vars[e[1]].param)
        raise NoTranslation('extent')

    def dims(self, u, n):
        v = u.vars.get(n)
        if v is None or not v.dims:
            return []
        out = []
        for lo, hi in v.dims:
            try:
                h = self.const(u, hi)
            except NoTranslation:
                h = None
            out.append((self.const(u, lo), h))
        return out

    def isint(self, u, e):
        if e[0] == 'num':
            return e[2] == 'I'
        if e[0] == 'name':
            v = u.vars.get(e[1])
            return v is not None and str(v.type).lower().startswith('i') if v is not None and v.type else e[1][0] in 'ijklmn'
        if e[0] in ('paren',):
            return self.isint(u, e[1])
        if e[0] == 'un':
            return self.isint(u, e[2])
        if e[0] == 'bin':
            return self.isint(u, e[2]) and self.isint(u, e[3])
        if e[0] == 'idx':
            v = u.vars.get(e[1])
            return bool(v and v.type and str(v.type).lower().startswith('i'))
        return False

    def sub(self, u, n, ix):
        D = self.dims(u, n)
        if len(D) != len(ix) or any(i is None or i[0] == 'slice' for i in ix):
            raise NoTranslation('subscripts of ' + n)
        s = n
        for (lo, hi), i in list(zip(D, ix))[::-1]:
            s += '[%s - %d]' % (self.ev(u, i), lo) if lo else '[%s]' % self.ev(u, i)
        return s

    def ev(self, u, e):
        k = e[0]
        if k == 'num':
            return number(e[1], e[2])
        if k == 'log':
            return str(bool(e[1]))
        if k == 'paren':
            return '(' + self.ev(u, e[1]) + ')'
        if k == 'name':
            v = u.vars.get(e[1])
            if v is not None and v.param is not None:
                return '(' + self.ev(u, v.param) + ')'
            return e[1]
        if k == 'un':
            return '(%s %s)' % ({'-': '-', '+': '+', '.not.': 'not'}[e[1]], self.ev(u, e[2]))
        if k == 'bin':
            op = e[1]
            if op == '**':
                if e[3][0] == 'num' and e[3][2] == 'I':
                    return '(%s)**%d' % (self.ev(u, e[2]), int(e[3][1]))
                raise NoTranslation('power')
            if op == '/':
                if self.isint(u, e):
                    raise NoTranslation('integer division')
                return '(%s / %s)' % (self.ev(u, e[2]), self.ev(u, e[3]))
            if op not in OPS:
                raise NoTranslation('operator ' + op)
            return '(%s %s %s)' % (self.ev(u, e[2]), OPS[op], self.ev(u, e[3]))
        if k == 'idx':
            if self.dims(u, e[1]):
                return self.sub(u, e[1], e[2])
            a = ', '.join(self.ev(u, x) for x in e[2])
            if e[1] in MATHF:
                return '%s(%s)' % (MATHF[e[1]], a)
            if e[1] in ('max', 'min', 'dmax1', 'dmin1', 'max0', 'min0'):
                return '%s(%s)' % (e[1].strip('d01'), a)
            if e[1] in ('dble', 'real'):
                return 'float(%s)' % a
            raise NoTranslation('function ' + e[1])
        raise NoTranslation(k)

    # ------------------------------------------------------------ statements
    def outs(self, u):
        m = self.modified(u.name)
        return [a for a in u.args if a in m and not self.dims(u, a)]

    def actual(self, u, a, d, cu):
        if self.dims(cu, d):
            if a[0] == 'name' and self.dims(u, a[1]):
                return a[1]
            if a[0] == 'idx' and self.dims(u, a[1]):
                D = self.dims(u, a[1])
                if len(D) == 2 and a[2][0][0] == 'num' and int(a[2][0][1]) == D[0][0]:
                    n, m = self.dims(cu, d)[0]
                    if m is None or D[0][1] is None or m - n != D[0][1] - D[0][0]:
                        raise NoTranslation('column of another length')
                    return '%s[%s - %d]' % (a[1], self.ev(u, a[2][1]), D[1][0])
            raise NoTranslation('array argument')
        return self.ev(u, a)

    def block(self, u, b, ind, inl):
        out = []
        T = '    ' * ind
        for s in b:
            if s.op == 'assign':
                n, ix, e = s.a
                if ix is None:
                    if self.dims(u, n):
                        raise NoTranslation('whole array')
                    v = u.vars.get(n)
                    if v is not None and v.type and str(v.type).lower().startswith('i') and not self.isint(u, e):
                        raise NoTranslation('conversion to integer')
                    out.append('%s%s = %s' % (T, n, self.ev(u, e)))
                else:
                    out.append('%s%s = %s' % (T, self.sub(u, n, ix), self.ev(u, e)))
            elif s.op == 'if':
                out.append('%sif %s:' % (T, self.ev(u, s.a[0])))
                out += self.block(u, s.a[1], ind + 1, inl) or [T + '    pass']
                e = self.block(u, s.a[2], ind + 1, inl)
                if e:
                    out += [T + 'else:'] + e
            elif s.op == 'do':
                v, lo, hi, st, body = s.a
                if st is not None and not (st[0] == 'num' and st[1] == 1):
                    raise NoTranslation('stride')
                out.append('%sfor %s in range(%s, %s + 1):' % (T, v, self.ev(u, lo), self.ev(u, hi)))
                out += self.block(u, body, ind + 1, True) or [T + '    pass']
            elif s.op in ('while', 'doforever'):
                out.append('%swhile %s:' % (T, self.ev(u, s.a[0]) if s.op == 'while' else 'True'))
                out += self.block(u, s.a[-1], ind + 1, True) or [T + '    pass']
            elif s.op == 'call':
                f, args = s.a
                if f not in self.units:
                    raise NoTranslation('call of ' + f)
                cu = self.units[f]
                if len(args) != len(cu.args):
                    raise NoTranslation('arguments of ' + f)
                A = [self.actual(u, a, d, cu) for a, d in zip(args, cu.args)]
                tg = []
                for o in self.outs(cu):
                    a = args[cu.args.index(o)]
                    if a[0] == 'name' and not self.dims(u, a[1]):
                        tg.append(a[1])
                    elif a[0] == 'idx' and self.dims(u, a[1]):
                        tg.append(self.sub(u, a[1], a[2]))
                    else:
                        raise NoTranslation('output argument')
                call = '%s(%s)' % (f, ', '.join(A))
                if tg:
                    out.append('%s%s = %s' % (T, ', '.join(tg) + (',' if len(tg) == 1 else ''), call))
                else:
                    out.append(T + call)
            elif s.op == 'return':
                out.append(T + self.ret(u))
            elif s.op == 'stop':
                out.append(T + "raise RuntimeError('stop')")
            elif s.op == 'cycle':
                out.append(T + 'continue')
            elif s.op == 'exit':
                out.append(T + 'break')
            elif s.op in ('continue', 'io'):
                pass
            else:
                raise NoTranslation(s.op)
        return out

    def ret(self, u):
        o = self.outs(u)
        return 'return (%s)' % ''.join(x + ', ' for x in o) if o else 'return ()'

    def locals(self, u, ind, skip=()):
        out = []
        T = '    ' * ind
        for n, v in u.vars.items():
            if n in u.args or n in skip or v.param is not None:
                continue
            D = self.dims(u, n)
            if D:
                if any(h is None for l, h in D) or len(D) > 2:
                    raise NoTranslation('local array')
                ext = [h - l + 1 for l, h in D]
                out.append('%s%s = undef__(%s)' % (T, n, ', '.join(map(str, ext[::-1]))))
            elif v.type:
                out.append('%s%s = undef__%s()' % (T, n, 'i' if str(v.type).lower().startswith('i') else ''))
        return out

    def unit(self, n):
        """python functions of a unit: text"""
        u = self.units[n]
        if u.kind != 'subroutine':
            raise NoTranslation('kind ' + u.kind)
        saved = {m for m, v in u.vars.items() if (v.save or v.data or v.init is not None) and v.param is None}
        body = u.body
        out = []
        for t, v in getattr(u, 'datas', []):
            for x in t:
                saved.add(x[0])
        if saved:
            s = body[0] if body else None
            ok = s is not None and s.op == 'if' and s.a[0][0] == 'name' and not s.a[2] and s.a[0][1] in saved
            if not ok:
                raise NoTranslation('saved state without a first-call block')
            flag = s.a[0][1]
            blk = s.a[1]
            last = blk[-1] if blk else None
            if not (last is not None and last.op == 'assign' and last.a[0] == flag and last.a[2] == ('log', False)):
                raise NoTranslation('first-call block')
            if not self.initially(u, flag):
                raise NoTranslation('first-call flag')
            rest = fparse.Unit(u.kind, u.name, u.args)
            rest.vars, rest.body = u.vars, body[1:]
            m = self.assigned(rest)
            if m & saved:
                raise NoTranslation('saved variable changed later')
            if self.assigned_block(u, blk) - saved or self.used_args(blk, u):
                raise NoTranslation('first-call block uses the arguments')
            out.append('def %s__init():' % n)
            st = sorted(saved - {flag})
            sub = []
            for x in st:
                D = self.dims(u, x)
                if D:
                    sub.append('    %s = undef__(%s)' % (x, ', '.join(str(h - l + 1) for l, h in D[::-1])))
                else:
                    sub.append('    %s = undef__()' % x)
            out += sub + self.block(u, blk[:-1], 1, False)
            out.append('    return (%s)' % ''.join(x + ', ' for x in st))
            self.state = getattr(self, 'state', {})
            self.state[n] = st
            body = body[1:]
        out.append('def %s(%s):' % (n, ', '.join(u.args)))
        out += self.locals(u, 1, saved)
        out += self.block(u, body, 1, False)
        out.append('    ' + self.ret(u))
        return out

    def initially(self, u, flag):
        for t, v in getattr(u, 'datas', []):
            for x, y in zip(t, v):
                if x[0] == flag:
                    return y == ('log', True)
        return u.vars[flag].init == ('log', True)

    def assigned(self, u):
        return self.assigned_block(u, u.body)

    def assigned_block(self, u, b):
        out = set()
        for s in b:
            if s.op == 'assign':
                out.add(s.a[0])
            elif s.op == 'if':
                out |= self.assigned_block(u, s.a[1]) | self.assigned_block(u, s.a[2])
            elif s.op == 'do':
                out |= {s.a[0]} | self.assigned_block(u, s.a[4])
            elif s.op in ('while', 'doforever'):
                out |= self.assigned_block(u, s.a[-1])
            elif s.op == 'call':
                m = self.modified(s.a[0])
                for d, a in zip(self.units[s.a[0]].args, s.a[1]):
                    if d in m and a[0] in ('name', 'idx'):
                        out.add(a[1])
        return out

    def used_args(self, b, u):
        import re
        return set(re.findall(r"'(?:name|idx)', '(\w+)'", repr(b))) & set(u.args)

    def closure(self, names):
        todo, seen = list(names), []

        def calls(b):
            for s in b:
                if s.op == 'call':
                    yield s.a[0]
                elif s.op == 'if':
                    yield from calls(s.a[1])
                    yield from calls(s.a[2])
                elif s.op == 'do':
                    yield from calls(s.a[4])
                elif s.op in ('while', 'doforever'):
                    yield from calls(s.a[-1])
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.append(n)
            if n not in self.units:
                raise NoTranslation('call of ' + n)
            todo += list(calls(self.units[n].body))
        return seen

    def module(self, names):
        """text of a module with the units and everything they call"""
        out = ['import math', '']
        for n in sorted(self.closure(names)):
            out += self.unit(n) + ['']
        return '\n'.join(out)


_C = {}


def translate(file, names):
    p = os.path.join(FORT, file)
    text = open(p).read()
    k = (text, tuple(names))
    if k not in _C:
        t = Translator(text, file)
        src = t.module(names)
        _C[k] = (src, ast.parse(src), t)
    return _C[k]


if __name__ == '__main__':
    import sys
    print(translate(sys.argv[1], sys.argv[2:])[0])
