"""Reading AsciiMath: the text of a formula -> a formula of _expr (written here from AsciiMath's notation; no repository code).

Precedence, loosest first: = ; + - ; * / (left to right) ; the sign - ; lim, sum, prod, d/dx, whose operand is the product behind them ;
^ and ! (to the right of what they apply to). Brackets and |...| group."""
import re
from fractions import Fraction
from ._expr import num, var

F = Fraction
TOK = re.compile(r'\s*(?:(\d+\.\d+(?:[eE][+-]?\d+)?|\d+(?:[eE][+-]?\d+)?|\.\d+)|(d/d(?=\w|\\))|(lim_|sum_|prod_|int_(?=\()|int(?=\s))|(->)|(\\?[A-Za-z](?:_\{[^{}]*\}|\w)*)|(.))', re.S)


class Unreadable(Exception):
    pass


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        k = next(j for j in range(1, 7) if m.group(j) is not None)
        out.append(('', 'num', 'dd', 'big', 'arrow', 'name', 'op')[k] if k != 6 else 'op')
        out[-1] = (out[-1], m.group(k), m.start(k))
        i = m.end()
    return out


FUNS = {'sin', 'cos', 'tan', 'csc', 'sec', 'cot', 'asin', 'acos', 'atan', 'acsc', 'asec', 'acot', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp'}
CALL = {'log': 'ln', 'floor': 'floor', 'ceiling': 'ceil', 'Abs': 'abs', 'Max': 'max', 'Min': 'min', 'binomial': 'binom', 'Mod': 'mod', 'gamma': 'gamma'}


class Reader:
    def __init__(self, s):
        self.s, self.t, self.i = s, tokens(s), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('end', '', len(self.s))

    def take(self, x=None):
        p = self.peek()
        if x is not None and p[1] != x:
            raise Unreadable(f'{x!r} expected at {p[2]} of {self.s}')
        self.i += 1
        return p[1]

    def whole(self):
        a = self.sum()
        if self.peek()[1] == '=':
            self.take()
            a = ('eq', a, self.sum())
        if self.peek()[0] != 'end':
            raise Unreadable(f'{self.peek()[1]!r} at {self.peek()[2]} of {self.s}')
        return a

    def sum(self):
        a = self.product()
        while self.peek()[1] in ('+', '-'):
            o = self.take()
            a = ('add' if o == '+' else 'sub', a, self.product())
        return a

    def product(self):
        if self.peek()[1] in '+-' and self.peek()[0] == 'op':
            return ('neg' if self.take() == '-' else 'pos', self.product())
        a = self.factor()
        while self.peek()[1] in ('*', '/'):
            o = self.take()
            a = ('mul' if o == '*' else 'div', o, a, self.factor())
        return a

    def factor(self):
        if self.peek()[1] in '+-' and self.peek()[0] == 'op':
            return ('neg' if self.take() == '-' else 'pos', self.factor())
        return self.post()

    def post(self):
        a = self.atom()
        while self.peek()[1] in ('^', '!'):
            if self.take() == '!':
                a = ('fact', a)
            else:
                e = self.script()
                a = ('app', 'exp', 'E^', [e]) if a[0] == 'app' and a[2] == 'E' else ('pow', a, e)
        return a

    def script(self):
        """what a single ^ takes: a bracketed formula or one symbol or number"""
        if self.peek()[1] == '(':
            return self.bracket()
        return self.atom()

    def bracket(self):
        self.take('(')
        a = self.sum()
        self.take(')')
        return a

    def name(self):
        p = self.peek()
        if p[0] != 'name':
            raise Unreadable(f'a variable expected at {p[2]} of {self.s}')
        return self.take()

    def atom(self):
        k, t, at = self.peek()
        if k == 'num':
            self.take()
            return ('num', t, F(t))
        if t == '(':
            return ('grp', '(', ')', self.bracket())
        if t == '|':
            self.take()
            a = self.sum()
            self.take('|')
            return ('app', 'abs', '|%s|', [a])
        if k == 'dd':
            self.take()
            v = self.name()
            return ('bind', 'diff', v, '', self.product(), [var(v)], None, 0)
        if k == 'big':
            return self.big(self.take())
        if k == 'name':
            self.take()
            if self.peek()[1] == '(' and self.peek()[2] == at + len(t):
                return self.call(t)
            if t == 'oo':
                return ('app', 'oo', 'oo', [])
            if t in ('pi', 'I'):
                return ('app', t, t, [])
            if t == 'E':
                return ('app', 'exp', 'E', [num('1')])
            return var(t)
        raise Unreadable(f'{t!r} at {at} of {self.s}')

    def call(self, f):
        self.take('(')
        xs = [self.sum()]
        while self.peek()[1] == ',':
            self.take()
            xs.append(self.sum())
        self.take(')')
        if f == 'sqrt' and len(xs) == 1:
            return ('app', lambda S, x: S.root(S.const(2), x), 'sqrt(%s)', xs)
        if f == 'log' and len(xs) == 2:
            return ('app', lambda S, x, b: S.div(S.app('ln', [x]), S.app('ln', [b])), 'log', xs)
        if f in FUNS:
            return ('app', f, f, xs)
        if f in CALL:
            return ('app', CALL[f], f, xs)
        if f == 'factorial':
            return ('fact', xs[0])
        return ('app', f'{f}{len(xs)}', f, xs)

    def big(self, t):
        if t == 'lim_':
            self.take('(')
            v = self.name()
            self.take('->')
            p = self.sum()
            self.take(')')
            return ('bind', 'lim+', v, '', self.product(), [p], None, 0)
        if t in ('sum_', 'prod_'):
            self.take('(')
            v = self.name()
            self.take('=')
            lo = self.sum()
            self.take(')')
            self.take('^')
            hi = self.bracket()
            return ('bind', t[:-1], v, '', self.product(), [lo, hi], None, 0)
        args = None
        if t == 'int_':
            lo = self.bracket()
            self.take('^')
            args = [lo, self.bracket()]
        b = self.sum()
        d = self.name()
        if not d.startswith('d') or len(d) < 2:
            raise Unreadable(f'{d} is no differential in {self.s}')
        v = d[1:]
        return ('bind', 'int' if args is None else 'dint', v, '', b, args or [var(v)], None, 0)


def read(s):
    return Reader(s).whole()
