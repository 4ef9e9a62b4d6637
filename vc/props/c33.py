"""What the parser accepts: every short text over the listed symbols is read by an independent reader of formulas. A text that is no formula
must be rejected; what is accepted must have the value of the whole text, for all values of its variables and digits."""
from fractions import Fraction
from ..unit import Property, Unit
from . import _expr as X
from ._expr import num, var
from ..spec import dec

F = Fraction


class Illegal(Exception):
    """no formula"""


class Open(Exception):
    """what this text means is not fixed by the property"""


PAIRS = {'(': ')', '[': ']', '{': '}', '\\{': '\\}', '\\left(': '\\right)', '\\left[': '\\right]', '\\left\\{': '\\right\\}', '\\lfloor ': '\\rfloor ', '\\lceil ': '\\rceil ', '\\left|': '\\right|', '\\lvert ': '\\rvert '}
ENDS = set(PAIRS.values())
SUMS, PRODS = {'+': 'add', '-': 'sub'}, {'*': 'mul', '\\cdot ': 'mul', '\\times ': 'mul', '/': 'div', '\\div ': 'div'}
RELS = {'=': 'Equality', '<': 'StrictLessThan', '>': 'StrictGreaterThan', '\\le ': 'LessThan', '\\ge ': 'GreaterThan', '\\ne ': 'Unequality'}
FUNCS = {'\\sin', '\\ln', '\\exp'}


class Reader:
    """tokens: strings; digits may be any one-character string of class digit (value taken by self.number)"""
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def take(self, x=None):
        c = self.peek()
        if not c or x is not None and c != x:
            raise Illegal(f'{x or "more"} expected at {self.i}')
        self.i += 1
        return c

    def read(self):
        """a formula, a relation, or a list of these"""
        t = self.t
        if all(c not in (',', ';') for c in t):
            a = self.relation()
        else:
            o = t[0] if t[0] in ('[', '{', '\\{', '\\left[') else ''
            a = None
            if o:                   # the bracket around the whole list, unless it belongs to the first element
                self.take()
                try:
                    a = self.items()
                    self.take(PAIRS[o])
                except Illegal:
                    a, self.i = None, 0
            a = a or self.items()
        if self.i < len(t):
            if all(c in (')', ']', '}') for c in t[self.i:]):
                raise Open('closing brackets without a partner at the end')
            raise Illegal('text left')
        return a

    def items(self):
        xs = [self.relation()]
        sep = self.peek()
        if sep not in (',', ';'):
            raise Illegal('no list')
        while self.peek() == sep:
            self.take()
            xs.append(self.relation())
        return ('list', xs)

    def relation(self):
        a = self.sum()
        if self.peek() in RELS:
            o = self.take()
            if self.peek() in ('=', '>'):
                raise Open('two relation signs')
            a = ('rel', RELS[o], a, self.sum())
            if self.peek() in RELS:
                raise Open('a chain of relations')
        return a

    def sum(self):
        a = self.product()
        while self.peek() in SUMS:
            o = self.take()
            a = (SUMS[o], a, self.product())
        return a

    def product(self):
        a = self.signed()
        while self.peek() in PRODS:
            o = self.take()
            a = (PRODS[o], o, a, self.signed())
        return a

    def signed(self):
        if self.peek() in SUMS:
            return ('pos' if self.take() == '+' else 'neg', self.signed())
        a = self.postfix()
        while self.starts():
            a = ('imul', a, self.postfix())
        return a

    def starts(self):
        c = self.peek()
        return c and (c.isascii() and c.isalnum() or c == '.' or c in PAIRS or c in FUNCS or c in ('\\frac', '\\sqrt', '\\binom', '\\alpha ', '\\pi '))

    def postfix(self):
        a = self.power()
        while self.peek() == '!':
            self.take()
            if self.peek() == '=':
                raise Open('unequal, or the factorial equals')
            a = ('fact', a)
            if self.peek() == '^':
                raise Illegal('a factorial has no power')
        return a

    def power(self):
        letter = self.peek().isalpha() or self.peek() == '\\alpha '
        a = self.atom()
        n = 0
        while self.peek() == '^':
            if n:
                raise Open('a second power')
            n += 1
            self.take()
            if self.peek() == '{':
                self.take()
                k = self.sum()
                self.take('}')
            else:
                c = self.peek()
                if c.isdigit() or c == '.':
                    k = self.number()
                    if len(k[1]) > 1:
                        raise Open('an unbraced power of several digits')
                elif c.isalpha() or c == '\\alpha ':
                    k = self.atom()
                    if self.peek() == '^':
                        raise Open('a power of a power')
                elif c == '\\frac':
                    k = self.atom()
                elif c in PAIRS or c in FUNCS or c in ('\\sqrt', '\\binom', '\\pi '):
                    raise Open('an unbraced power')
                else:
                    raise Illegal('no power')
            if a[0] in ('bare',):
                raise Open('a power behind a function')
            a = ('pow', a, k)
        if letter and (self.peek() in ('(', '[', '\\left(', '\\left[') or self.peek() == '{' and self.peek(1) in ('(', '[', '\\left(', '\\left[')):
            raise Open('a letter before a bracket is a function')
        return a

    def number(self):
        s = ''
        while self.peek().isdigit():
            s += self.take()
        if self.peek() == '.':
            s += self.take()
            if not self.peek().isdigit():
                raise Illegal('no decimals')
            while self.peek().isdigit():
                s += self.take()
        if self.peek() == ',' and all(self.peek(k).isdigit() for k in (1, 2, 3)):
            raise Open('a thousands separator or a list')
        if self.peek() == '_':
            raise Illegal('a number has no index')
        return num(s)

    def atom(self):
        c = self.peek()
        if c.isdigit() or c == '.':
            return self.number()
        if c == '\\pi ':
            self.take()
            return ('app', lambda S: S.app('pi', []), '', [])
        if c.isascii() and c.isalpha() or c == '\\alpha ':
            self.take()
            n = c if c.isalpha() else 'alpha'
            if self.peek() == '_':
                self.take()
                k = self.peek()
                if k.isdigit():
                    d = self.number()[1]
                    if len(d) > 1:
                        raise Open('an unbraced index of several digits')
                elif k.isalpha():
                    d = self.take()
                    if self.peek() == '_':
                        raise Open('an index of an index')
                    if self.peek() == '^':
                        raise Open('a power behind an index')
                elif k == '{':
                    self.take()
                    d = ''
                    while self.peek().isalnum():
                        d += self.take()
                    if self.peek() != '}' or not d:
                        raise Open('an index that is no name')
                    self.take()
                else:
                    raise Illegal('no index')
                if self.peek() == '_':
                    raise Illegal('two indices')
                n += '_' + (d if len(d) == 1 else '{%s}' % d)
            return var(n)
        if c in PAIRS:
            self.take()
            a = self.sum()
            self.take(PAIRS[c])
            if self.peek() == '_':
                if c == '(' and self.peek(1) == '{':
                    raise Open('the permutation notation')
                raise Illegal('a bracket has no index')
            f = 'floor' if 'floor' in c else 'ceil' if 'ceil' in c else 'abs' if c[-1] == '|' or 'vert' in c else None
            return ('app', f, c + '%s' + PAIRS[c], [a]) if f else ('grp', c, PAIRS[c], a)
        if c == '\\frac':
            self.take()
            return ('frac', '\\frac', self.arg(), self.arg())
        if c == '\\binom':
            self.take()
            n, k = self.arg(False), self.arg(False)
            if not X.names(k) and k[0] != 'num':
                raise Open('a negative or broken lower number')
            return ('app', 'binom', '', [n, k])
        if c == '\\sqrt':
            self.take()
            n = None
            if self.peek() == '[':
                self.take()
                n = self.sum()
                self.take(']')
            x = self.arg()
            if n is None:
                return ('app', lambda S, x: S.root(S.const(2), x), '', [x])
            return ('app', lambda S, n, x: S.root(n, x), '', [n, x])
        if c in FUNCS:
            self.take()
            k = None
            if self.peek() == '^':
                raise Open('a power of a function')
            if self.peek() != '(':
                raise Open('a function without brackets')
            self.take()
            x = self.sum()
            self.take(')')
            return ('app', {'\\sin': 'sin', '\\ln': 'ln', '\\exp': 'exp'}[c], '', [x])
        raise Illegal('no operand')

    def arg(self, digit=True):
        if digit and self.peek().isdigit():
            return num(self.take())
        self.take('{')
        a = self.sum()
        self.take('}')
        return a


def read(toks):
    """-> formula, None (no formula) or raises Open"""
    try:
        return Reader(toks).read()
    except Illegal:
        return None


def flat(a):
    """-> (shape, scalar formulas)"""
    if a[0] == 'list':
        ps = [flat(x) for x in a[1]]
        return ('list',) + tuple(p[0] for p in ps), [x for p in ps for x in p[1]]
    if a[0] == 'rel':
        return (a[1], 'scalar', 'scalar'), [a[2], a[3]]
    return 'scalar', [a]


def unit(template, alphabet, every=20, secs=200):
    """template: list of tokens, None for a position any symbol of the alphabet may take (or none, written '')"""
    free = [i for i, t in enumerate(template) if t is None]

    def parse(t):
        return X.native().latex2sympy(t)

    def body():
        from symx.core import Cur, PathAbort, z3
        from symx.values import SymBool
        e = Cur.eng
        toks = list(template)
        for i in free:
            toks[i] = alphabet[e.choose(len(alphabet), f'token {i}')]
        toks = [t for t in toks if t]
        e.input('toks', toks)
        try:
            a = read(toks)
        except Open:
            raise PathAbort('open')
        t = ''.join(toks)
        if a is None:
            try:
                x = parse(t)
            except RecursionError:
                raise
            except Exception:
                e.prove(True, 'rejected')
                return 'rejected'
            e.prove(False, f'{t} is no formula, parsed as {x}')
            return 'bad'
        if a[0] not in ('list', 'rel'):
            return X.decide(e, a, lambda: parse(t), t)
        sh, fs = flat(a)
        try:
            x = parse(t)
        except Exception as ex:
            e.prove(False, f'{t}: {type(ex).__name__} {str(ex)[:80]}')
            return 'bad'
        sh2, xs = X.parts(x)
        if sh != sh2:
            e.prove(False, f'{t} parsed as {x}')
            return 'bad'
        B = X.Sym()
        for v in X.names(a):
            e.input('val ' + v, z3.Real(v))
        try:
            ws = [X.ref(f, B) for f in fs]
        except X.Undefined:
            raise PathAbort('undefined')
        for c in B.dom:
            e.assume(SymBool(c))
        B.collect = False
        for w, y in zip(ws, xs):
            e.prove(SymBool(B.claim(w, X.sym(y, B))), f'{t} parsed as {x}')
        return 'equal'

    def oracle(i):
        t = ''.join(i['toks'])
        try:
            a = read(i['toks'])
        except Open:
            return dict(ok=None, got='open', want='')
        if a is None:
            try:
                return dict(ok=False, got=str(parse(t)), want=t + ' is no formula: an exception')
            except Exception:
                return dict(ok=True, got='rejected', want='rejected')
        if a[0] in ('list', 'rel'):
            sh, fs = flat(a)
            try:
                x = parse(t)
            except Exception as ex:
                return dict(ok=False, got='raised ' + type(ex).__name__, want=f'{t}: {sh}')
            sh2, xs = X.parts(x)
            if sh != sh2:
                return dict(ok=False, got=str(x), want=f'{t}: {sh}')
            for f, y in zip(fs, xs):
                ok, got, want = X.numeric(lambda: y, f, {v: i['val ' + v] for v in X.names(a) if 'val ' + v in i})
                if not ok:
                    return dict(ok=ok, got=f'{x}: {got}', want=f'{t}: {want}')
            return dict(ok=True, got='equal', want='equal')
        ok, got, want = X.numeric(lambda: parse(t), a, {v: i['val ' + v] for v in X.names(a) if 'val ' + v in i})
        return dict(ok=ok, got=got, want=f'{t}: {want}')
    name = ''.join(t if t is not None else '_' for t in template) + ' over ' + ' '.join(a for a in alphabet if a)
    return Unit(name, body, oracle, compare=lambda a, b: True, every=every, secs=secs, max_paths=10 ** 6, weight=len(alphabet) ** len(free))


# ------------------------------------------------------------------ texts whose digits are symbolic
class DigitReader(Reader):
    """tokens are shape characters; the value of a number is computed from the (symbolic) text it stands for"""
    def __init__(self, shape, text):
        super().__init__(list(shape))
        self.text = text

    def number(self):
        i = self.i
        super().number()
        return ('num', '', dec(self.text[i:self.i]))


def value(a):
    """exact value of a formula of numbers; None when undefined"""
    k = a[0]
    if k == 'num':
        return a[2]
    xs = [value(x) for x in a[1:] if isinstance(x, tuple)]
    if any(x is None for x in xs):
        return None
    if k == 'div':
        return None if bool(xs[1] == 0) else xs[0] / xs[1]
    return {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'imul': lambda x, y: x * y, 'neg': lambda x: -x, 'pos': lambda x: x, 'grp': lambda x: x}[k](*xs)


def digits_unit(template, chars, every=10, secs=200):
    def formula(t):
        sh = ''
        for i in range(len(t)):
            c = t[i:i + 1]
            if isinstance(c, str):
                sh += '0' if c.isdigit() else c
            else:
                d = c.c[0].dom()
                assert len(d) == 1 or all(48 <= x <= 57 for x in d)
                sh += '0' if 48 <= min(d) <= 57 else chr(min(d))
        try:
            return DigitReader(sh, t).read()
        except Illegal:
            return None

    def body():
        from symx.core import Cur, PathAbort
        from symx.values import cell_in
        from symx.sstr import cells
        from ..spec import tmpl, world
        e = Cur.eng
        t = e.input('text', tmpl(template, 't', {'κ': chars}))
        for c in cells(t):              # each symbol is a digit, or one of the others
            if not isinstance(c, int) and not cell_in(c, frozenset(range(48, 58))):
                for o in sorted(set(map(ord, chars)) - set(range(48, 58))):
                    if cell_in(c, frozenset([o])):
                        break
        m = world().get('latex2sympy.latex2sympy2')
        try:
            a = formula(t)
            v = None if a is None else value(a)
        except Open:
            raise PathAbort('open')
        if a is not None and v is None:
            raise PathAbort('undefined')
        try:
            x = m.latex2sympy(t)
        except Exception as ex:
            e.prove(a is None, 'rejected: ' + type(ex).__name__)
            return 'rejected'
        if a is None:
            e.prove(False, 'no formula, but accepted')
            return 'bad'
        e.prove(x == v, 'another value')
        return 'equal'

    def oracle(i):
        import sympy as sp
        t = i['text']
        try:
            a = formula(t)
            v = None if a is None else value(a)
        except Open:
            return dict(ok=None, got='open', want='')
        if a is not None and v is None:
            return dict(ok=None, got='undefined', want='')
        try:
            x = X.native().latex2sympy(t)
        except Exception as ex:
            return dict(ok=a is None, got='rejected', want=f'{t}: {"an exception" if a is None else v}')
        if a is None:
            return dict(ok=False, got=str(x), want=t + ': an exception')
        ok = sp.nsimplify(x.doit() if hasattr(x, 'doit') else x, rational=True) == sp.Rational(v.numerator, v.denominator)
        return dict(ok=bool(ok), got='equal' if ok else str(x), want=f'{t}: {v}')
    return Unit(f'digits {template} over {chars}', body, oracle, compare=lambda a, b: a == b, every=every, secs=secs, max_paths=10 ** 6, weight=8 ** len(template))


def units(tier):
    q = tier == 'quick'
    _ = None
    BR = ['x', '2', '(', ')', '[', ']', '{', '}', '+']
    AR = ['x', '2', '+', '-', '*', '/', '(', ')']
    PW = ['x', '2', '-', '^', '{', '}', '!', '(', ')']
    DG = ['0', '3', '.', 'x', '-', '/']
    SM = ['x', '2', '+', '-', '/', '^', '!', '']
    n = 4 if q else 5
    for first in BR:
        yield unit([first] + [_] * (n - 1), BR)
    for first in AR:
        yield unit([first] + [_] * (n - 1), AR)
    for first in PW:
        yield unit([first] + [_] * (n - 1), PW)
    for first in DG:
        yield unit([first] + [_] * (n - 1), DG)
    for l, r in (('\\left(', '\\right)'), ('\\{', '\\}'), ('\\lfloor ', '\\rfloor '), ('\\left|', '\\right|')):
        yield unit([_] * 5, ['x', '+', l, r, '(', ')'])
    E = ['x', '2', '-', '^', '}', '{', '']
    for t in (['\\frac', '{', _, _, '}', '{', _, _, '}'], ['\\frac', _, '{', _, _, '}', _], ['\\frac', _, _, _, _], ['\\sqrt', '[', _, ']', '{', _, _, '}', _], ['\\sqrt', _, _, _, _], ['\\binom', '{', _, '}', '{', _, _, '}'],
              ['y', '^', '{', _, _, '}', _], ['\\sin', '(', _, _, ')', _], ['z', '+', '\\ln', '(', _, _, _]):
        yield unit(t, E)
    RL = ['x', '2', '=', '<', ',', '+', '(', ')']
    for first in RL:
        yield unit([first] + [_] * (n - 1), RL)
    LS = ['x', '2', ',', ';', '[', ']', '=', '-']
    for first in LS:
        yield unit([first] + [_] * (n - 1), LS)
    yield unit(['\\{', _, _, _, '\\}', _], ['x', '2', ',', '=', '{', '}', ''])
    yield unit(['\\left[', _, _, _, '\\right]', _], ['x', '2', ',', ';', '<', ''])
    yield unit(['x', _, 'y', _, _], ['=', '<', '>', '\\le ', '\\ge ', '\\ne ', '2', '-', ''])
    IX = ['x', '2', '_', '^', '{', '}', '(', ')']
    for first in IX:
        yield unit([first] + [_] * (n - 1), IX)
    yield unit(['x', '_', '{', _, _, '}', _], ['y', '2', '_', '^', '+', '!', ''])
    for t in ('κ', 'κκ', 'κκκ', '#κκκ', '(κκκ', '-κκκ', '.κκκ', '#κκ#', '#κ#*#', '#/#κ#', '#.#κ.#', '(#κ#)κ#', '-#κ(κ#)') + (() if q else ('#κκκ#', '#κ#κ#', '##κ##κ#', '#.#κ#.#κ#.#', '(#κ#)κ(κ#)', '#κκκκ', '(κκκκ', '-κκκκ', '#κκκκ#', '#κ#κ#κ#κ#')):
        yield digits_unit(t, '0123456789+-*/().' if t != '#/#κ#' else '+-*/().')
    for a in (['x', '2', '+', '(', ')', '@', '#', ''], ['x', '2', '?', '"', 'é', '-', '/', ''], ['x', '3', '`', '%', '−', '\\foo ', '=', ''], ['y', '2', '&', '°', '\\', '^', '!', '']):
        yield unit([_] * n, a)
    yield unit(['x', '_', '{', _, _, _, _, '}'], ['1', '2', 'y', ''])
    yield unit([_] * 4, ['x', '\\alpha ', '\\pi ', '2', '\\cdot ', '\\times ', '\\div ', '+'])


PROP = Property('C33', lambda tier: list(units(tier)),
                'all texts of 4 (thorough 5) symbols over eight alphabets (brackets, operators, powers and factorials, decimals, relations and commas, lists, indices; commands), templates around \\frac, \\sqrt, \\binom, \\left, functions; '
                'texts of up to 4 characters over digits + - * / ( ) . and longer templates with every digit symbolic',
                ['an independent reader of formulas (recursive descent, written from the notation) says which texts are formulas and what they denote',
                 'left open: closing brackets without a partner at the end, chains of relations, a second power, unbraced powers and indices of several digits, a letter before a bracket (a function), functions without brackets, thousands separators',
                 'texts over commands: the symbols are chosen by the solver, the generated parser runs on each choice; values of variables and (in the digit units) of digits stay symbolic'])
