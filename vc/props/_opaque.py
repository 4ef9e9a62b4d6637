"""Stand-in expressions whose algebra is decided by a scenario: every expansion, simplification, absolute value and numeric
evaluation may fail or give any value. They are sympy expressions for the code under test, symbolically and natively."""
import sympy as S
from fractions import Fraction
from ..spec import accept, EPS
from symx.values import sand, sor, snot, siff, simplies, SymBool


def failure(kind):
    if kind == 'timeout':
        import timeout_decorator
        return timeout_decorator.TimeoutError('timed out')
    return {'value': ValueError, 'type': TypeError, 'zero': ZeroDivisionError, 'attribute': NotImplementedError}.get(kind, RuntimeError)('step failed')


def number(v, sym):
    """a number as the code sees it"""
    if sym:
        from symx import zsympy
        return zsympy.Z.const(v, 'float')
    v = Fraction(v)
    return S.Float(S.Rational(v.numerator, v.denominator), 30)


class Sc:
    """expand: outcome per side; simplify, abs, evalf: outcomes; point(round, k) -> (kind, value gt, value gv)"""
    def __init__(self, i, sym):
        self.i, self.sym = i, sym
        self.round, self.k, self.pending = None, -1, False
        self.asked = []

    # ---- random draws: their number and order define the points
    def draw(self, rnd, a, b):
        if self.round != rnd:
            self.round, self.k, self.fresh = rnd, -1, True
        if self.fresh:
            self.k += 1
            self.fresh = False
            self.left = max(len(self.i['fs'][0]), 1)
        self.left -= 1
        if self.left == 0:
            self.fresh = True
        return a + (self.k + 3 * self.left) % (b - a + 1) if rnd == 'int' else a + (b - a) * (0.01 + 0.0937 * ((self.k + 3 * self.left) % 10))

    def value(self, side):
        sp = self.i['special'].get(self.round, None)
        if sp is not None and sp['at'] == self.k:
            kind = sp['kind'][side]
            if kind in ('timeout', 'value', 'runtime'):
                raise failure(kind)
            if kind == 'nan':
                return S.nan
            if kind == 'zoo':
                return S.zoo
            if kind == 'symbol':
                return S.Symbol('leftover')
            return number(sp['val'][side], self.sym and sp['kind'] == ['number', 'number'])
        return number(Fraction(7 + self.k, 2), self.sym)


class Fn(S.Expr):
    is_commutative = True
    _standin = True

    def __new__(cls, side, sc):
        o = S.Expr.__new__(cls)
        o.side, o.sc = side, sc
        return o

    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __hash__(self): return id(self)

    @property
    def free_symbols(self):
        return {S.Symbol(n) for n in self.sc.i['fs'][self.side]}

    @property
    def is_number(self):
        return not self.sc.i['fs'][self.side]

    is_zero = None
    is_Integer = False

    def has(self, *a): return False
    def subs(self, *a, **k): return self
    def doit(self, **k): return self

    def expand(self, *a, **k):
        x = self.sc.i['expand'][self.side]
        if x != 'ok':
            raise failure(x)
        return S.Symbol('expanded') if self.sc.i['same'] else S.Symbol('expanded' + str(self.side))

    def evalf(self, *a, subs=None, **k):
        if self.is_number or not subs:
            c = self.sc.i.get('const', {}).get(self.side)
            if c is None:
                return self
            if not isinstance(c, (Fraction, int)) and isinstance(c, str):
                raise failure(c)
            return number(Fraction(c) if isinstance(c, int) else c, self.sc.sym)
        return self.sc.value(self.side)

    def _eval_simplify(self, **k):
        return self

    def __neg__(self): return Neg(self)

    def __sub__(self, o): return Diff(self, o, self.sc)
    def __rsub__(self, o): return Diff(o, self, self.sc)


class Diff(S.Expr):
    """gt - gv; simplifies as the scenario says"""
    is_commutative = True
    _standin = True

    def __new__(cls, a, b, sc):
        o = S.Expr.__new__(cls)
        o.a, o.b, o.sc = a, b, sc
        return o

    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)
    is_number = False
    is_zero = None

    @property
    def free_symbols(self):
        return {S.Symbol(n) for fs in self.sc.i['fs'] for n in fs}

    def evalf(self, *a, **k): return self
    def expand(self, *a, **k): return self

    def _eval_simplify(self, **k):
        s = self.sc.i['simplify']
        if s == 'number':
            return Num(self.sc)
        if s == 'other':
            return S.Symbol('remainder')
        if s == 'nan':
            return S.nan
        raise failure(s)


class Num(S.Expr):
    """the simplified difference, a number of value d"""
    is_commutative = True
    is_number = True
    is_zero = None
    is_Integer = False

    def __new__(cls, sc, absolute=False):
        o = S.Expr.__new__(cls)
        o.sc, o.absolute = sc, absolute
        return o

    def v(self):
        d = self.sc.i['d']
        return abs(d) if self.absolute else d

    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)
    free_symbols = set()

    def __abs__(self):
        if self.sc.i['abs'] != 'ok':
            raise failure(self.sc.i['abs'])
        return Num(self.sc, True)

    def __truediv__(self, o):
        raise failure('type')

    def __lt__(self, o):
        if self.sc.i['less'] == 'undecided':
            return False
        if self.sc.i['less'] != 'ok':
            raise failure(self.sc.i['less'])
        return self.v() < Fraction(repr(o))

    def __gt__(self, o): return self.v() > o

    def evalf(self, *a, **k):
        if self.sc.i['evalf'] != 'ok':
            raise failure(self.sc.i['evalf'])
        return number(self.v(), self.sc.sym)


class Rand:
    """the module random: draws in order, their values do not matter (the expressions' values at each point are arbitrary)"""
    def __init__(self, sc):
        self.sc = sc

    def randint(self, a, b): return self.sc.draw('int', a, b)
    def uniform(self, a, b): return self.sc.draw('float', a, b)
    def randrange(self, a, b): return self.sc.draw('int', a, b - 1)
    def random(self): return self.sc.draw('float', 0, 1)
    def seed(self, *a): pass


def agree(i, rnd):
    """did every point of the round succeed and agree within tolerance"""
    sp = i['special'].get(rnd)
    if sp is None:
        return True
    if sp['kind'] != ['number', 'number']:
        return False
    g, v = sp['val']
    return accept(g, v)


def refuse(*a, **k):
    raise failure('value')


class NoParser:
    """only the first parser reads the two stand-ins"""
    parse_expr = refuse
    standard_transformations = ()
    implicit_multiplication_application = None


def judge(lp, i, sym, check):
    """runs the code on the scenario; check(i, verdict) -> condition"""
    sc = Sc(i, sym)
    gt, gv = Fn(0, sc), Fn(1, sc)
    old = lp.random, lp.latex2sympy, lp.parse_latex, lp.sympy_parser
    try:
        lp.random = Rand(sc)
        lp.latex2sympy, lp.parse_latex, lp.sympy_parser = lambda s, *a, **k: {'gt': gt, 'gv': gv}[s], refuse, NoParser
        try:
            r = lp.are_equal_under_sympy('gt', 'gv')
        except Exception as ex:
            return False, 'raised ' + type(ex).__name__ + ' ' + str(ex)[:80]
    finally:
        lp.random, lp.latex2sympy, lp.parse_latex, lp.sympy_parser = old
    if r is None:
        r = False
    if not isinstance(r, SymBool):
        r = bool(r)
    return check(i, r), r
