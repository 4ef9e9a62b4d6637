"""Model of the part of sympy used on numbers, polynomials, relations and intervals whose digits are symbolic.
Values are exact (sympy's 15-digit floats are treated as the decimals they denote; stated abstraction, checked per path
by replaying models against the real implementation)."""
import types
from fractions import Fraction
import sympy as S
import sympy.parsing.sympy_parser
import sympy.core.relational as SR
import z3
from .core import Cur, Unsupported, Incomplete
from .sstr import SymStr, mk, cells, is_str
from .values import SymBool, SymInt, SymReal, SymRatio, sand, sor, snot
from . import loader

PI = Fraction('3.14159265358979')
EE = Fraction('2.71828182845905')


def num(x):
    """-> Fraction | SymReal | SymRatio"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (SymReal, SymRatio)):
        return x
    if isinstance(x, SymInt):
        return SymReal.of(x)
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise TypeError(type(x).__name__)


def nadd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    if isinstance(a, Fraction):
        a, b = b, a
    return _n(a + b)


def nmul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    if isinstance(a, Fraction):
        a, b = b, a
    if isinstance(b, Fraction) and b == 0:
        return Fraction(0)
    return _n(a * b)


def _n(x):
    if isinstance(x, SymReal):
        return x.norm()
    return x


def is0(x):
    if isinstance(x, Fraction):
        return x == 0
    return x == 0


# monomial: tuple of sorted (gen, exp); gen is a symbol name or the special '#I', '#pi', '#E'
SPECIAL = {'#I': S.I, '#pi': S.pi, '#E': S.E}


def mono_mul(a, b):
    """-> (sign, mono)"""
    d = dict(a)
    for g, e in b:
        d[g] = d.get(g, 0) + e
    sign = 1
    if '#I' in d:
        e = d.pop('#I') % 4
        if e in (2, 3):
            sign = -1
        if e in (1, 3):
            d['#I'] = 1
    return sign, tuple(sorted((g, e) for g, e in d.items() if e))


class Func:
    def __init__(self, isnum):
        self.is_Number = isnum


class Z:
    """Polynomial with exact coefficients. kind: 'num' literal exact number, 'float' evaluated number, 'expr' otherwise."""
    _op_priority = 1000.0
    is_Matrix = False
    is_Add = False
    is_Mul = False
    is_Pow = False
    is_MatAdd = False
    is_MatMul = False
    is_Function = False
    is_Relational = False
    is_commutative = True
    __array_priority__ = 1000

    def __init__(self, terms, kind='expr', syn=(), fs=None):
        self.t = {m: c for m, c in terms.items() if not (isinstance(c, Fraction) and c == 0)}
        self.kind = kind
        self.syn = frozenset(syn)        # syntactically present specials
        self.fs = frozenset(fs) if fs is not None else frozenset(g for m in self.t for g, _ in m if g[0] != '#')

    # ---- construction
    @staticmethod
    def const(x, kind='num'):
        return Z({(): num(x)}, kind)

    @staticmethod
    def of(x):
        if isinstance(x, Z):
            return x
        if getattr(x, '_standin', False):
            raise TypeError('not a number')
        if isinstance(x, (int, float, Fraction, SymInt, SymReal, SymRatio)) and not isinstance(x, SymBool):
            return Z.const(x, 'float' if isinstance(x, (float, SymReal)) else 'num')
        if isinstance(x, S.Basic):
            return conv(x)
        raise TypeError('not a number: ' + type(x).__name__)

    @staticmethod
    def tryof(x):
        try:
            return Z.of(x)
        except TypeError:
            return None

    def _sym_isa(self, t):
        n = _tname(t)
        if n in ('Expr', 'Basic'):
            return True
        if n == 'Number':
            return self.kind in ('num', 'float') and self.is_real_const
        if n == 'Float':
            return self.kind == 'float' and self.is_real_const
        if n in ('Integer',):
            return bool(self.is_Integer)
        if n in ('Rational',):
            return self.kind == 'num' and self.is_real_const
        return False

    def _sym_str(self):
        if self.is_real_const:
            c = self.cv
            if isinstance(c, Fraction):
                c = SymReal.of(c)
            if isinstance(c, SymReal) and c.r is None:
                if c.d == 1 or bool(c.is_integer()):
                    if self.kind != 'float':
                        return loader.to_str(c.__trunc__())
                if self.kind != 'float':
                    raise Unsupported('text of a rational')
                return c.to_str()
        raise Unsupported('text of a symbolic expression')

    def __str__(self):
        r = self._sym_str()
        return r if isinstance(r, str) else r.concrete()

    def _sym_int(self):
        return VTRUNC(self.cv)

    def _sym_float(self):
        c = self.ev().cv
        return float(c) if isinstance(c, Fraction) else c

    def _sym_round(self, n=None):
        c = self.ev().cv
        r = SymReal.of(c).__round__(n) if not isinstance(c, Fraction) else round(c, n)
        return Z.const(r)

    # ---- views
    @property
    def cv(self):
        return self.t.get((), Fraction(0))

    @property
    def is_real_const(self):
        return all(m == () for m in self.t)

    @property
    def free_symbols(self):
        return {S.Symbol(n) for n in self.fs}

    @property
    def is_number(self):
        return not self.fs

    @property
    def is_Number(self):
        return self.kind in ('num', 'float') and self.is_real_const

    @property
    def is_Float(self):
        return self.kind == 'float'

    @property
    def is_Rational(self):
        return self.kind == 'num'

    @property
    def is_Symbol(self):
        return len(self.t) == 1 and self.t.get(((next(iter(self.fs), '?'), 1),)) == 1 if len(self.fs) == 1 else False
    is_symbol = is_Symbol

    @property
    def is_Integer(self):
        if not self.is_real_const:
            return False
        c = self.cv
        if self.kind == 'expr':
            return False
        if self.kind == 'float':
            return False
        if isinstance(c, Fraction):
            return c.denominator == 1
        if isinstance(c, SymRatio):
            raise Unsupported('integrality of a ratio')
        return c.d == 1 or c.is_integer()

    @property
    def is_integer(self):
        if not self.is_real_const:
            return None
        c = self.cv
        return c.denominator == 1 if isinstance(c, Fraction) else c.is_integer()

    @property
    def is_zero(self):
        d = self.drop()
        if not d.t:
            return True
        if d.fs:
            return None
        return False

    @property
    def is_real(self):
        if self.fs:
            return None
        return not any(g == '#I' for m in self.drop().t for g, _ in m)
    is_extended_real = is_real

    @property
    def is_finite(self):
        return True if not self.fs else None

    @property
    def is_infinite(self):
        return False

    @property
    def is_negative(self): return self < 0
    @property
    def is_positive(self): return self > 0
    @property
    def is_nonzero(self): return snot(self.is_zero)

    @property
    def is_constant(self): return lambda *a, **k: not self.fs

    @property
    def func(self):
        return Func(self.is_Number)

    @property
    def args(self):
        return ()

    @property
    def name(self):
        raise AttributeError('name')

    def has(self, *xs):
        for x in xs:
            if x is S.I and '#I' in self.syn:
                return True
            if isinstance(x, S.Symbol) and x.name in self.fs:
                return True
            if x is S.pi and '#pi' in self.syn:
                return True
            if x is S.E and '#E' in self.syn:
                return True
        return False

    def atoms(self, *ts):
        return {S.Symbol(n) for n in self.fs}

    def drop(self):
        """fork on symbolic coefficients being zero and drop them"""
        t = {}
        for m, c in self.t.items():
            if not bool(is0(c)):
                t[m] = c
        return Z(t, self.kind, {g for m in t for g, _ in m if g[0] == '#'})

    # ---- arithmetic (evaluated)
    def _k(self, o):
        return 'float' if 'float' in (self.kind, o.kind) else ('num' if self.kind == o.kind == 'num' else 'expr')

    def __add__(self, o):
        if o is S.oo or o is S.S.NegativeInfinity:
            if self.ev().is_real_const and not self.fs:
                return o
            raise Unsupported('sum with infinity')
        o = Z.tryof(o)
        if o is None:
            return NotImplemented
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = nadd(t[m], c) if m in t else c
        return Z(t, self._k(o), self.syn | o.syn, self.fs | o.fs)
    __radd__ = __add__

    def __neg__(self):
        return Z({m: nmul(c, Fraction(-1)) for m, c in self.t.items()}, self.kind, self.syn, self.fs)
    def __pos__(self): return self

    def __sub__(self, o):
        if o is S.oo or o is S.S.NegativeInfinity:
            return self + (-o)
        o = Z.tryof(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if o is S.oo or o is S.S.NegativeInfinity:
            return self + o
        o = Z.tryof(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = Z.tryof(o)
        if o is None:
            return NotImplemented
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                s, k = mono_mul(m, n)
                v = nmul(nmul(c, d), Fraction(s))
                t[k] = nadd(t[k], v) if k in t else v
        return Z(t, self._k(o), self.syn | o.syn, self.fs | o.fs)
    __rmul__ = __mul__

    def inv(self, ratio=True):
        if len(self.t) == 0:
            raise ZeroDivisionError
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m == () or all(g[0] == '#' for g, _ in m) :
                if isinstance(c, Fraction):
                    ci = 1 / c
                elif ratio:
                    ci = SymRatio.make(SymReal.of(1), c)
                else:
                    ci = _n(c.inv())
                inv_m, sg = [], 1
                for g, e in m:
                    if g == '#I':
                        sg = -sg
                        inv_m.append((g, 1))
                    else:
                        inv_m.append((g, -e))
                return Z({tuple(sorted(inv_m)): nmul(ci, Fraction(sg))}, self.kind, self.syn, self.fs)
            inv_m = tuple(sorted((g, -e) for g, e in m))
            if all(g != '#I' for g, _ in m) and isinstance(c, Fraction):
                return Z({inv_m: 1 / c}, 'expr', self.syn, self.fs)
        if all(all(g == '#I' for g, _ in m) for m in self.t):
            a, b = self.t.get((), Fraction(0)), self.t.get((('#I', 1),), Fraction(0))
            if isinstance(a, Fraction) and isinstance(b, Fraction):
                n = a * a + b * b
                return Z({(): a / n, (('#I', 1),): -b / n}, self.kind, self.syn, self.fs)
        raise Unsupported('reciprocal of a symbolic expression')

    def __truediv__(self, o):
        o = Z.tryof(o)
        if o is None:
            return NotImplemented
        if o.is_real_const and not isinstance(o.cv, Fraction) and self.is_real_const:
            if bool(is0(o.cv)):
                return S.zoo if not bool(is0(self.cv)) else S.nan
            return Z({(): SymRatio.make(SymReal.of(self.cv) if isinstance(self.cv, Fraction) else self.cv, o.cv)}, self._k(o), self.syn | o.syn, self.fs)
        if not o.t:
            return S.zoo
        return self * o.inv()

    def __rtruediv__(self, o):
        o = Z.tryof(o)
        if o is None:
            return NotImplemented
        try:
            return o / self
        except Unsupported:
            return Opaque()

    def __pow__(self, k):
        return zpow(self, k)

    def __rpow__(self, b):
        return zpow(Z.of(b), self)

    def __mod__(self, o):
        a, b = self.ev(), Z.of(o).ev()
        if a.is_real_const and b.is_real_const and isinstance(b.cv, Fraction):
            return Z.const(a.cv - SymReal.of((SymReal.of(a.cv) / b.cv).floor()) * b.cv)
        raise Unsupported('mod')

    def __abs__(self):
        d = self.ev()
        if d.fs:
            raise Unsupported('abs of a non-number')
        if d.is_real_const:
            c = d.cv
            return Z({(): abs(c)}, d.kind)
        I1 = (('#I', 1),)
        if set(d.t) <= {(), I1}:
            re, im = d.t.get((), Fraction(0)), d.t.get(I1, Fraction(0))
            return CAbs(re, im)
        raise Unsupported('abs')

    # ---- comparisons
    def _cmp(self, o, f):
        if o is S.oo or o is S.S.NegativeInfinity:
            if self.ev().is_real_const and not self.fs:
                return (o is S.oo) == (f in ('<', '<='))
            raise Unsupported('comparison with infinity')
        o = Z.tryof(o)
        if o is None:
            return NotImplemented
        a, b = self.ev(), o.ev()
        if a.fs or b.fs or not a.is_real_const or not b.is_real_const:
            return ZRel(f, self, o)
        x, y = a.cv, b.cv
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[f]
        if isinstance(x, Fraction):
            x = SymReal.of(x)
        return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[f]()

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        if o is S.oo or o is S.S.NegativeInfinity or o is S.zoo or o is S.nan:
            return False
        o = Z.tryof(o) if not isinstance(o, str) else None
        if o is None:
            return False
        rs = []
        for m in set(self.t) | set(o.t):
            a, b = self.t.get(m, Fraction(0)), o.t.get(m, Fraction(0))
            if isinstance(a, Fraction) and not isinstance(b, Fraction):
                a, b = b, a
            r = a == b
            if r is False:
                return False
            if r is not True:
                rs.append(r)
        return sand(*rs) if rs else True

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return hash(frozenset(m for m in self.t))

    def __bool__(self):
        if self.kind in ('num', 'float') and self.is_real_const:
            return not bool(is0(self.cv))
        return True

    def equals(self, o, *a):
        return self == o

    def compare(self, o):
        return 0 if bool(self == o) else 1

    # ---- evaluation
    def ev(self):
        """numeric value with pi/E replaced; symbolic zero coefficients kept"""
        t = {}
        for m, c in self.t.items():
            k = Fraction(1)
            mm = []
            for g, e in m:
                if g == '#pi':
                    k *= PI ** e
                elif g == '#E':
                    k *= EE ** e
                else:
                    mm.append((g, e))
            mm = tuple(mm)
            v = nmul(c, k)
            t[mm] = nadd(t[mm], v) if mm in t else v
        return Z(t, self.kind, self.syn & {'#I'}, self.fs)

    def evalf(self, n=15, subs=None, **k):
        z = self
        if subs:
            for s, v in subs.items():
                z = z.subs(s, v)
        z = z.ev()
        if not z.fs:
            z = z.drop()
            if not z.t:
                return Z({}, 'num')
            z.kind = 'float'
            return z
        return z
    n = evalf

    def expand(self, *a, **k):
        return self.drop()
    simplify = expand
    doit = lambda self, **k: self
    factor = expand
    cancel = expand
    together = expand
    nsimplify = expand

    def subs(self, *a, **k):
        pairs = []
        if len(a) == 2:
            pairs = [a]
        elif isinstance(a[0], dict):
            pairs = list(a[0].items())
        else:
            pairs = list(a[0])
        z = self
        for s, v in pairs:
            nm = s.name if isinstance(s, S.Symbol) else None
            if nm is None or nm not in z.fs:
                continue
            v = Z.of(v)
            r = Z({}, z.kind if z.kind != 'num' else 'expr', z.syn | v.syn, (z.fs - {nm}) | v.fs)
            for m, c in z.t.items():
                f = Z({tuple(x for x in m if x[0] != nm): c}, 'expr', ())
                e = dict(m).get(nm, 0)
                if e > 0:
                    for _ in range(e):
                        f = f * v
                elif e < 0:
                    f = f * zpow(v, e)
                r2 = r + f
                r = Z(r2.t, r.kind, r.syn, r.fs)
            z = r
        return z
    xreplace = subs

    def as_real_imag(self, *a, **k):
        return (zre(self), zim(self))

    def conjugate(self):
        return zre(self) - zim(self) * Z.of(S.I)

    def as_coefficients_dict(self): raise Unsupported('as_coefficients_dict')

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        if hasattr(S.Expr, n):
            raise Unsupported('sympy.Expr.' + n + ' on a symbolic expression')
        raise AttributeError(n)

    def __repr__(self):
        return f'Z({self.t},{self.kind})'


def VTRUNC(c):
    return int(c) if isinstance(c, Fraction) else c.__trunc__()


class CAbs:
    """|re + im*I| for comparisons with constants."""
    is_number = True
    free_symbols = set()
    is_Matrix = False

    def __init__(self, re, im):
        self.re, self.im = re, im

    def _sq(self):
        r = SymReal.of(self.re) if isinstance(self.re, Fraction) else self.re
        i = SymReal.of(self.im) if isinstance(self.im, Fraction) else self.im
        return r * r + i * i

    def _c(self, o):
        o = Z.of(o)
        if isinstance(o.cv, Fraction):
            return o.cv
        raise Unsupported('modulus')

    def __lt__(self, o):
        c = self._c(o)
        return self._sq() < c * c if c > 0 else False
    def __ge__(self, o): return snot(self < o)
    def __le__(self, o):
        c = self._c(o)
        return self._sq() <= c * c if c >= 0 else False
    def __gt__(self, o): return snot(self <= o)
    def evalf(self, *a, **k): return self
    _sym_isa = lambda self, t: _tname(t) in ('Expr', 'Basic')


class Opaque:
    is_Function = False
    is_symbol = False
    is_Symbol = False


def zpow(b, e, ratio=False):
    b, e = Z.tryof(b), Z.tryof(e)
    if b is None or e is None:
        raise Unsupported('power')
    ed = e.ev() if not e.fs else e
    if ed.is_real_const:
        c = ed.cv
        if not isinstance(c, Fraction):
            if bool(SymReal.of(c).is_integer() if isinstance(c, SymReal) else False):
                c = Fraction(int(c.__trunc__()))
            else:
                raise Unsupported('symbolic exponent')
        if c == Fraction(1, 2):
            cv = b.ev()
            if cv.is_real_const and isinstance(cv.cv, Fraction):
                return conv(S.sqrt(S.Rational(cv.cv.numerator, cv.cv.denominator)))
        if c.denominator != 1:
            raise Unsupported('fractional power')
        k = int(c)
        if abs(k) > 40:
            raise Unsupported('large power')
        if k < 0:
            bb = b
            if bb.is_real_const:
                if isinstance(bb.cv, Fraction) and bb.cv == 0 or (not isinstance(bb.cv, Fraction) and bool(is0(bb.cv))):
                    return S.zoo
            b, k = bb.inv(ratio=ratio), -k
        r = Z.const(1, 'num')
        for _ in range(k):
            r = r * b
        r.kind = b.kind
        return Z(r.t, b.kind, b.syn, b.fs)
    raise Unsupported('symbolic exponent')


def zre(x):
    if isinstance(x, S.Basic):
        return S.re(x)
    z = x.ev()
    if z.fs:
        raise Unsupported('re of a symbolic expression')
    return Z({m: c for m, c in z.t.items() if m == ()}, z.kind)


def zim(x):
    if isinstance(x, S.Basic):
        return S.im(x)
    z = x.ev()
    if z.fs:
        raise Unsupported('im of a symbolic expression')
    return Z({(): c for m, c in z.t.items() if m == (('#I', 1),)}, z.kind)


def conv(x):
    """real sympy expression -> Z"""
    if isinstance(x, S.Float):
        return Z.const(Fraction(str(x)), 'float')
    if isinstance(x, S.Rational):
        return Z.const(Fraction(int(x.p), int(x.q)), 'num')
    if x is S.I:
        return Z({(('#I', 1),): Fraction(1)}, 'expr', ['#I'])
    if x is S.pi:
        return Z({(('#pi', 1),): Fraction(1)}, 'expr', ['#pi'])
    if x is S.E:
        return Z({(('#E', 1),): Fraction(1)}, 'expr', ['#E'])
    if isinstance(x, S.Symbol):
        return Z({((x.name, 1),): Fraction(1)}, 'expr', (), [x.name])
    if isinstance(x, S.Add):
        r = Z({}, 'expr')
        for a in x.args:
            r = r + conv(a)
        return Z(r.t, 'expr', r.syn, r.fs)
    if isinstance(x, S.Mul):
        r = Z.const(1)
        for a in x.args:
            r = r * conv(a)
        return Z(r.t, 'expr', r.syn, r.fs)
    if isinstance(x, S.Pow):
        if x.base == -1 and x.exp == S.Rational(1, 2):          # unevaluated sqrt(-1): does not .has(I)
            return Z({(('#I', 1),): Fraction(1)}, 'expr', ())
        return zpow(conv(x.base), conv(x.exp))
    if isinstance(x, S.Basic) and not isinstance(x, S.Expr):
        raise TypeError('not an expression')
    raise Unsupported('model of ' + type(x).__name__)


def haszz(a):
    return any(isinstance(x, (Z, ZRel, SymStr, SymInt, SymReal, ZInterval, CAbs)) for x in a)


# ------------------------------------------------------------------ relations
class ZRel:
    is_Matrix = False
    is_Relational = True
    is_number = False
    is_Boolean = True

    def __init__(self, op, lhs, rhs):
        self.rel_op, self.lhs, self.rhs = op, lhs, rhs
        self.args = (lhs, rhs)
        self.gts, self.lts = (lhs, rhs) if op in ('>', '>=') else (rhs, lhs)

    def _sym_isa(self, t):
        n = _tname(t)
        if n in ('Relational', 'Boolean', 'Basic'):
            return True
        m = {'==': ('Equality', 'Eq'), '!=': ('Unequality', 'Ne'), '<': ('StrictLessThan', 'Lt', '_Less', '_Inequality'),
             '<=': ('LessThan', 'Le', '_Less', '_Inequality'), '>': ('StrictGreaterThan', 'Gt', '_Greater', '_Inequality'),
             '>=': ('GreaterThan', 'Ge', '_Greater', '_Inequality')}
        return n in m[self.rel_op]

    @property
    def free_symbols(self):
        return self.lhs.free_symbols | self.rhs.free_symbols

    @property
    def reversed(self):
        o = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[self.rel_op]
        return ZRel(o, self.rhs, self.lhs)

    def _flip(self):
        return self

    def __bool__(self):
        raise TypeError('cannot determine truth value of Relational')

    def __eq__(self, o):
        if not isinstance(o, (ZRel, SR.Relational)):
            return False
        if o.rel_op != self.rel_op:
            return False
        return sand(Z.of(self.lhs) == o.lhs, Z.of(self.rhs) == o.rhs)

    def __ne__(self, o): return snot(self == o)
    __hash__ = None

    def has(self, *xs):
        return any(isinstance(s, (Z, S.Basic)) and s.has(*xs) for s in self.args)

    def doit(self, **k): return self
    def atoms(self, *t): return self.free_symbols

    def subs(self, *a, **k):
        return ZRel(self.rel_op, self.lhs.subs(*a, **k), self.rhs.subs(*a, **k))

    def expand(self, *a, **k):
        return ZRel(self.rel_op, self.lhs.expand(*a, **k), self.rhs.expand(*a, **k))

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        if n in ('simplify', 'evalf', 'canonical', 'negated', 'as_set'):
            raise Unsupported('Relational.' + n)
        raise AttributeError(n)


REL = {'Eq': '==', 'Equality': '==', 'Ne': '!=', 'Unequality': '!=', 'StrictLessThan': '<', 'Lt': '<', 'LessThan': '<=', 'Le': '<=',
       'StrictGreaterThan': '>', 'Gt': '>', 'GreaterThan': '>=', 'Ge': '>='}


# ------------------------------------------------------------------ intervals
class ZInterval:
    """Canonical union of intervals: list of (lo, lo_open, hi, hi_open), disjoint, sorted, merged."""
    def __init__(self, parts):
        self.parts = parts

    @property
    def is_empty(self):
        return not self.parts

    def _sym_isa(self, t):
        n = _tname(t)
        return n in ('Set', 'Basic') or (n == 'Interval' and len(self.parts) == 1)

    def __add__(self, o):
        return self.union(o)
    __radd__ = __add__
    __or__ = __add__
    __ror__ = __add__

    def native(self):
        """the same set as a sympy object (numbers must be concrete)"""
        r = S.S.EmptySet
        for lo, lop, hi, hop in self.parts:
            r = r + S.Interval(_nat(lo), _nat(hi), lop, hop)
        return r

    def union(self, o):
        if _varset(o):
            return self.native().union(o)
        return ZInterval(norm_parts(self.parts + izof(o).parts))

    def intersect(self, o):
        if _varset(o):
            return self.native().intersect(o)
        out = []
        for a in self.parts:
            for b in izof(o).parts:
                lo, lop = _maxlo(a, b)
                hi, hop = _minhi(a, b)
                out += one(lo, lop, hi, hop)
        return ZInterval(norm_parts(out))
    __and__ = intersect
    intersection = intersect

    def same(self, o):
        if _varset(o):
            return self.native() == o
        o = izof(o)
        if len(self.parts) != len(o.parts):
            return False
        rs = []
        for a, b in zip(self.parts, o.parts):
            if a[1] != b[1] or a[3] != b[3]:
                return False
            for x, y in ((a[0], b[0]), (a[2], b[2])):
                r = veq(x, y)
                if r is False:
                    return False
                if r is not True:
                    rs.append(r)
        return sand(*rs) if rs else True

    def compare(self, o):
        return 0 if bool(self.same(o)) else 1

    def __eq__(self, o):
        if not isinstance(o, (ZInterval, S.Set)):
            return False
        return self.same(o)

    def __ne__(self, o): return snot(self == o)
    __hash__ = None

    def is_subset(self, o):
        return self.intersect(o) == self

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        p = self.parts
        if len(p) == 1:
            if n in ('start', 'inf', 'left'):
                return p[0][0]
            if n in ('end', 'sup', 'right'):
                return p[0][2]
            if n == 'left_open':
                return p[0][1]
            if n == 'right_open':
                return p[0][3]
        raise Unsupported('Interval.' + n)


INF = float('inf')


def _nat(v):
    if isinstance(v, float):
        return S.oo if v > 0 else -S.oo
    if not isinstance(v, Fraction):
        raise Unsupported('interval endpoint')
    return S.Integer(v.numerator) if v.denominator == 1 else S.Float(v.numerator) / v.denominator


def _varset(x):
    """a sympy set with variables in it: no model needed, sympy itself computes"""
    return isinstance(x, S.Set) and bool(x.free_symbols)


def val(x):
    """endpoint -> Fraction/SymReal or +-inf"""
    if x is S.oo:
        return INF
    if x is S.S.NegativeInfinity:
        return -INF
    z = Z.of(x).ev()
    if z.fs or not z.is_real_const:
        raise Unsupported('interval endpoint')
    c = z.cv
    return c


def veq(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and a == b
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    if isinstance(a, Fraction):
        a, b = b, a
    return a == b


def vlt(a, b):
    if isinstance(a, float):
        return a < 0 and not (isinstance(b, float) and b < 0)
    if isinstance(b, float):
        return b > 0
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a < b
    if isinstance(a, Fraction):
        return b > a
    return a < b


def one(lo, lop, hi, hop):
    if isinstance(lo, float):
        lop = True
    if isinstance(hi, float):
        hop = True
    if bool(vlt(hi, lo)):
        return []
    if bool(veq(lo, hi)):
        return [] if (lop or hop) else [(lo, False, hi, False)]
    return [(lo, bool(lop), hi, bool(hop))]


def _maxlo(a, b):
    if bool(veq(a[0], b[0])):
        return a[0], a[1] or b[1]
    return (b[0], b[1]) if bool(vlt(a[0], b[0])) else (a[0], a[1])


def _minhi(a, b):
    if bool(veq(a[2], b[2])):
        return a[2], a[3] or b[3]
    return (a[2], a[3]) if bool(vlt(a[2], b[2])) else (b[2], b[3])


def norm_parts(ps):
    ps = list(ps)
    out = []
    for p in ps:            # insertion sort by lower end
        i = len(out)
        while i > 0:
            q = out[i - 1]
            before = bool(vlt(p[0], q[0])) or (bool(veq(p[0], q[0])) and q[1] and not p[1])
            if before:
                i -= 1
            else:
                break
        out.insert(i, p)
    res = []
    for p in out:
        if res:
            q = res[-1]
            # overlap or touch
            touch = bool(vlt(p[0], q[2])) or (bool(veq(p[0], q[2])) and not (p[1] and q[3]))
            if touch:
                if bool(veq(p[2], q[2])):
                    hi, hop = q[2], q[3] and p[3]
                elif bool(vlt(p[2], q[2])):
                    hi, hop = q[2], q[3]
                else:
                    hi, hop = p[2], p[3]
                res[-1] = (q[0], q[1], hi, hop)
                continue
        res.append(p)
    return res


def izof(x):
    if isinstance(x, ZInterval):
        return x
    if x is S.EmptySet or x is S.S.EmptySet:
        return ZInterval([])
    if isinstance(x, S.Interval):
        return ZInterval(one(val(x.start), bool(x.left_open), val(x.end), bool(x.right_open)))
    if isinstance(x, S.FiniteSet):
        return ZInterval(norm_parts([(val(a), False, val(a), False) for a in x.args]))
    if isinstance(x, S.Union):
        r = ZInterval([])
        for a in x.args:
            r = r.union(izof(a))
        return r
    raise Unsupported('set ' + type(x).__name__)


def mk_interval(a, b, left_open=False, right_open=False):
    # always the model, so that unions of concrete and symbolic intervals compare structurally
    try:
        va, vb = val(a), val(b)
    except (TypeError, Unsupported):
        if haszz([a, b]):
            raise
        return S.Interval(a, b, bool(left_open), bool(right_open))
    if isinstance(va, float) and va > 0 or isinstance(vb, float) and vb < 0:
        return S.Interval(a, b, bool(left_open), bool(right_open)) if not haszz([a, b]) else ZInterval([])
    return ZInterval(one(va, bool(left_open), vb, bool(right_open)))


# ------------------------------------------------------------------ parse_expr on symbolic text
class ParseErr(SyntaxError):
    pass


class PE:
    """Mini parser with Python precedence for the texts reaching parse_expr; raises ParseErr where Python would, and
    falls back to concretising the text (Unsupported construct)."""
    def __init__(self, s):
        self.c = cells(s)
        self.i = 0
        self.s = s

    DIG = frozenset(range(48, 58))
    ALPHA = frozenset(list(range(65, 91)) + list(range(97, 123)))

    def isin(self, i, S_):
        from .values import cell_in
        if i >= len(self.c):
            return False
        return bool(cell_in(self.c[i], S_))

    def at(self, ch, k=0):
        return self.isin(self.i + k, frozenset([ord(ch)]))

    def ws(self):
        while self.isin(self.i, frozenset([32])):
            self.i += 1

    def eat(self, t):
        self.ws()
        for k, ch in enumerate(t):
            if not self.at(ch, k):
                return False
        self.i += len(t)
        return True

    def parse(self):
        r = self.top()
        self.ws()
        if self.i < len(self.c):
            raise Fallback()
        return r

    def top(self):
        xs = [self.rel()]
        tup = False
        while self.eat(','):
            tup = True
            self.ws()
            if self.i >= len(self.c) or self.at(')') or self.at(']') or self.at('}'):
                break
            xs.append(self.rel())
        return tuple(xs) if tup else xs[0]

    def rel(self):
        a = self.add()
        for op in ('<=', '>=', '<', '>'):
            if self.eat(op):
                if self.at('<') or self.at('>') or self.at('='):
                    raise ParseErr()
                b = self.add()
                for op2 in ('<', '>', '=', '!'):
                    if self.at(op2):
                        raise Fallback()
                return {'<': lambda: zcmp(a, b, '<'), '<=': lambda: zcmp(a, b, '<='), '>': lambda: zcmp(a, b, '>'), '>=': lambda: zcmp(a, b, '>=')}[op]()
        if self.eat('!='):
            b = self.add()
            return snot(Z.of(a) == b)
        self.ws()
        if self.at('='):
            if self.at('=', 1):
                raise Fallback()
            raise ParseErr('assignment')
        return a

    def add(self):
        a = self.mul()
        while True:
            if self.eat('+'):
                a = Z.of(a) + self.mul()
            elif self.eat('-'):
                a = Z.of(a) - self.mul()
            else:
                return a

    def mul(self):
        a = self.unary()
        while True:
            self.ws()
            if self.at('*') and self.at('*', 1):
                raise Fallback()
            if self.eat('*'):
                a = Z.of(a) * self.unary()
            elif self.at('/') and self.at('/', 1):
                raise Fallback()
            elif self.eat('/'):
                b = Z.of(self.unary())
                if b.is_real_const and bool(is0(b.cv)):
                    a = S.zoo
                    raise Fallback()
                a = Z.of(a) * b.inv(ratio=False)
            elif self.at('('):
                a = Z.of(a) * self.unary()
            elif self.isin(self.i, self.ALPHA):
                a = Z.of(a) * self.unary()
            elif self.isin(self.i, self.DIG):
                raise Fallback()
            else:
                return a

    def unary(self):
        if self.eat('-'):
            return -Z.of(self.unary())
        if self.eat('+'):
            return self.unary()
        return self.power()

    def power(self):
        a = self.atom()
        self.ws()
        if self.at('*') and self.at('*', 1):
            self.i += 2
            e = self.unary()
            return zpow(a, e)
        return a

    def atom(self):
        self.ws()
        if self.i >= len(self.c):
            raise ParseErr('unexpected end')
        if self.eat('('):
            self.ws()
            if self.eat(')'):
                raise Fallback()
            r = self.top()
            if not self.eat(')'):
                raise ParseErr('paren')
            if isinstance(r, tuple):
                return r
            return r
        if self.eat('['):
            r = self.top()
            if not self.eat(']'):
                raise ParseErr('bracket')
            return list(r) if isinstance(r, tuple) else [r]
        if self.eat('{'):
            raise Fallback()
        if self.isin(self.i, self.DIG) or (self.at('.') and self.isin(self.i + 1, self.DIG)):
            return self.number()
        if self.isin(self.i, self.ALPHA):
            j = self.i
            while self.isin(j, self.ALPHA):
                j += 1
            if self.isin(j, frozenset([95])) or self.isin(j, self.DIG):
                raise Fallback()
            w = mk(self.c[self.i:j])
            w = w if isinstance(w, str) else w.concrete()
            self.i = j
            if len(w) == 1:
                if w in 'EISNOCQ':
                    if w == 'I':
                        return conv(S.I)
                    if w == 'E':
                        return conv(S.E)
                    raise Fallback()
                return conv(S.Symbol(w))
            if w == 'pi':
                return conv(S.pi)
            raise Fallback()
        from .values import cell_in
        if self.isin(self.i, frozenset(map(ord, ')]}*/,=<>'))):
            raise ParseErr('unexpected')
        raise Fallback()

    def number(self):
        j = self.i
        while self.isin(j, self.DIG):
            j += 1
        ip = self.c[self.i:j]
        fp = ()
        isf = False
        if self.isin(j, frozenset([46])):
            isf = True
            k = j + 1
            while self.isin(k, self.DIG):
                k += 1
            fp = self.c[j + 1:k]
            j = k
        if self.isin(j, frozenset([95, 101, 69, 106, 74, 46, 120, 98, 111, 88, 66, 79])):
            raise Fallback()
        if not isf and len(ip) > 1:
            if self.isin(self.i, frozenset([48])):
                if not all(self.isin(self.i + k, frozenset([48])) for k in range(len(ip))):
                    raise ParseErr('leading zero')
        a, _ = loader.digits_val(ip) if ip else (0, 0)
        self.i = j
        r = SymReal.of(a)
        if fp:
            f, k = loader.digits_val(fp)
            r = SymReal.of(a) * 10 ** k + SymReal.of(f)
            r = SymReal(r.n, r.d * 10 ** k)
        return Z.const(_n(r), 'float' if isf else 'num')


class Fallback(Exception):
    pass


def zcmp(a, b, op):
    a, b = Z.of(a), Z.of(b)
    r = a._cmp(b, op)
    if isinstance(r, (bool, SymBool)):
        return S.true if bool(r) else S.false
    return r


def z_parse_expr(s, *a, **k):
    if isinstance(s, str):
        return S.parsing.sympy_parser.parse_expr(s, *a, **k)
    from .values import cell_in
    # a backslash, brace-less formats python cannot tokenise: the tokenizer raises
    for c in s.c:
        if cell_in(c, frozenset([92])):
            # a backslash outside a string literal: 'unexpected character after line continuation character'
            if not any(cell_in(d, frozenset([34, 39, 10, 13, 35])) for d in s.c):
                raise SyntaxError('unexpected character after line continuation character')
            break
    try:
        return PE(s).parse()
    except Fallback:
        return S.parsing.sympy_parser.parse_expr(s.concrete(), *a, **k)


def z_parse_latex(s, *a, **k):
    if isinstance(s, str):
        from sympy.parsing.latex import parse_latex
        return parse_latex(s)
    from .bridge import sympy_parse_latex
    r = sympy_parse_latex(s)
    return r


# ------------------------------------------------------------------ number constructors
def _numtext(s):
    v = loader.float_of(s)
    return v


def z_Rational(p, q=None, gcd=None):
    if q is None and isinstance(p, SymStr):
        from . import sre
        t = sre.sub(r' ', '', p)
        m = sre.fullmatch(r'([^/]*)/([^/]*)', t) if bool(loader.contains(t, '/')) else None
        if m:
            return z_Rational(m.group(1)) / z_Rational(m.group(2))
        if not sre.fullmatch(r'\s*[-+]?(?=\d|\.\d)(\d*|\d+(_\d+)*)(?:(?:\.(\d*|\d+(_\d+)*))?(?:[eE][-+]?\d+(_\d+)*)?)\s*', t):
            raise TypeError('invalid input')
        v = loader.float_of(t)
        return Z.const(Fraction(repr(v)) if isinstance(v, float) else v, 'num')
    if haszz([p, q]):
        for x in (p, q):                # the fraction behind a float is the decimal only for whole numbers
            if isinstance(x, SymReal) and not (x.r is None and (x.d == 1 or bool(SymBool(x.n % x.d == 0)))):
                raise Unsupported('fraction of a float')
        a = Z.of(p) if not isinstance(p, SymStr) else z_Rational(p)
        if q is None:
            return a
        b = Z.of(q) if not isinstance(q, SymStr) else z_Rational(q)
        r = a * b.inv(ratio=False)
        r.kind = 'num'
        return r
    return S.Rational(p, q) if q is not None else S.Rational(p)


def z_Number(x=0, *a):
    if isinstance(x, SymStr):
        v = loader.float_of(x)
        return Z.const(v, 'float' if any(bool(loader.contains(x, ch)) for ch in '.eE') else 'num')
    if haszz([x]):
        return Z.of(x)
    return S.Number(x, *a)


def z_Float(x, *a, **k):
    if haszz([x]):
        z = z_Number(x)
        return Z(z.t, 'float')
    return S.Float(x, *a, **k)


def z_Integer(x=0):
    if isinstance(x, SymStr):
        return Z.const(loader.int_of(x))
    if haszz([x]):
        z = Z.of(x).ev()
        return Z.const(VTRUNC(z.cv))
    return S.Integer(x)


def fold(op, neutral):
    def f(*a, evaluate=None, **k):
        if haszz(a):
            r = None
            for x in a:
                x = Z.of(x)
                r = x if r is None else op(r, x)
            if r is None:
                return neutral
            if len(a) > 1:
                r = Z(r.t, 'expr', r.syn, r.fs)
                # keep syntactic presence of symbols
            return r
        if evaluate is None:
            return (S.Add if neutral == 0 else S.Mul)(*a, **k)
        return (S.Add if neutral == 0 else S.Mul)(*a, evaluate=evaluate, **k)
    return f


def z_Pow(b, e, evaluate=None, **k):
    if haszz([b, e]):
        r = zpow(b, e)
        if isinstance(r, Z):
            return Z(r.t, 'expr', r.syn, r.fs)
        return r
    return S.Pow(b, e) if evaluate is None else S.Pow(b, e, evaluate=evaluate)


def z_rel(name):
    real = getattr(S, name)

    def f(a, b=0, **k):
        if haszz([a, b]):
            return ZRel(REL[name], a if isinstance(a, Z) else Z.tryof(a) if not isinstance(a, (S.Basic)) else a, b)
        return real(a, b, **k)
    return f


def z_simplify(x, *a, **k):
    if isinstance(x, Z):
        return x.drop()
    if isinstance(x, (ZRel, ZInterval)):
        raise Unsupported('simplify of a relation')
    return S.simplify(x, *a, **k)


def z_N(x, *a, **k):
    return x.evalf() if isinstance(x, Z) else S.N(x, *a, **k)


def z_Abs(x, evaluate=None, **k):
    if isinstance(x, Z):
        return abs(x)
    return S.Abs(x, **k) if evaluate is None else S.Abs(x, evaluate=evaluate)


def z_sqrt(x, *a, **k):
    return zpow(x, S.Rational(1, 2)) if haszz([x]) else S.sqrt(x, *a, **k)


def z_sympify(x, *a, **k):
    if isinstance(x, (Z, ZRel, ZInterval, CAbs)):
        return x
    if isinstance(x, (SymInt, SymReal)):
        return Z.of(x)
    if isinstance(x, SymStr):
        return z_parse_expr(x)
    return S.sympify(x, *a, **k)


def z_Symbol(name, **k):
    if isinstance(name, SymStr):
        name = name.concrete()
    return S.Symbol(name, **k)


def z_mod(a, b, evaluate=None, **k):
    if haszz([a, b]):
        return Z.of(a) % b
    return S.Mod(a, b) if evaluate is None else S.Mod(a, b, evaluate=evaluate)


def z_union(*a, **k):
    r = ZInterval([])
    for x in a:
        r = r.union(x)
    return r


class Guard:
    """A real sympy class or function that must not see model values (falls back to giving up the path)."""
    def __init__(self, real, fn=None):
        object.__setattr__(self, '_real', real)
        object.__setattr__(self, '_fn', fn)

    def __call__(self, *a, **k):
        if self._fn is not None:
            return self._fn(*a, **k)
        if haszz(a) or haszz(k.values()) or any(isinstance(x, (list, tuple)) and haszz(x) for x in a):
            a2 = []
            for x in a:
                if isinstance(x, SymStr):
                    a2.append(x.concrete())
                elif isinstance(x, Z) and all(isinstance(c, Fraction) for c in x.t.values()):
                    a2.append(unconv(x))
                elif isinstance(x, (Z, ZRel, ZInterval, SymInt, SymReal)):
                    raise Unsupported('sympy.' + getattr(self._real, '__name__', '?') + ' of a symbolic value')
                else:
                    a2.append(x)
            a = a2
        return self._real(*a, **k)

    def __getattr__(self, n):
        return getattr(self._real, n)

    def __mro_entries__(self, bases):       # class X(<this class>)
        return (self._real,)

    def _sym_instancecheck(self, x):
        return isinstance(x, self._real)

    def __eq__(self, o):
        return o is self or o is self._real or (isinstance(o, Guard) and o._real is self._real)

    def __hash__(self):
        return hash(self._real)

    def __getitem__(self, k):
        return self

    def __repr__(self):
        return repr(self._real)


def unconv(z):
    r = S.Integer(0)
    for m, c in z.t.items():
        x = S.Rational(c.numerator, c.denominator)
        for g, e in m:
            x = x * (SPECIAL[g] if g[0] == '#' else S.Symbol(g)) ** e
        r = r + x
    return r


def _tname(t):
    r = getattr(t, '_real', t)
    return getattr(r, '__name__', str(r))


OVER = {}


def _over():
    OVER.update(Rational=z_Rational, Number=z_Number, Float=z_Float, Integer=z_Integer,
                Add=fold(lambda a, b: a + b, 0), Mul=fold(lambda a, b: a * b, 1), Pow=z_Pow, simplify=z_simplify, N=z_N, Abs=z_Abs,
                sqrt=z_sqrt, sympify=z_sympify, S=None, Symbol=z_Symbol, Mod=z_mod, re=lambda x: zre(x), im=lambda x: zim(x),
                expand=lambda x, *a, **k: x.drop() if isinstance(x, Z) else S.expand(x, *a, **k),
                nsimplify=lambda x, *a, **k: x if isinstance(x, Z) else S.nsimplify(x, *a, **k),
                Interval=mk_interval, Union=z_union,
                parse_expr=z_parse_expr, parse_latex=z_parse_latex)
    for n in REL:
        OVER[n] = z_rel(n)
    del OVER['S']


_over()

_guards = {}


class IntervalGuard(Guard):
    def open(self, a, b): return mk_interval(a, b, True, True)
    def Lopen(self, a, b): return mk_interval(a, b, True, False)
    def Ropen(self, a, b): return mk_interval(a, b, False, True)


class ZMod(types.ModuleType):
    def __init__(self, name, real, extra=None):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(extra or {})
        if hasattr(real, '__path__'):
            self.__dict__['__path__'] = real.__path__
        self.__dict__['__all__'] = [n for n in dir(real) if not n.startswith('_')]

    def __getattr__(self, n):
        r = getattr(self._real, n)
        if isinstance(r, types.ModuleType):
            return zmodule(r.__name__)
        if n in ('I', 'pi', 'E', 'oo', 'nan', 'zoo', 'S', 'EmptySet'):
            return ZInterval([]) if n == 'EmptySet' else r
        if isinstance(r, type) or callable(r) and not isinstance(r, S.Basic):
            key = (id(r), n)
            g = _guards.get(key)
            if g is None:
                fn = OVER.get(n)
                g = _guards[key] = (IntervalGuard if n == 'Interval' else Guard)(r, fn)
            return g
        return r

    def _sub(self, name):
        return zmodule(name)


_zm = {}


def zmodule(name):
    import importlib
    m = _zm.get(name)
    if m is None:
        m = _zm[name] = ZMod(name, importlib.import_module(name))
    return m


# ------------------------------------------------------------------ other modules
class TimeoutMod(types.ModuleType):
    class TimeoutError(Exception):
        pass

    @staticmethod
    def timeout(*a, **k):
        def deco(f):
            return f
        return deco

    def _sub(self, name):
        return self


def timeout_model():
    m = TimeoutMod('timeout_decorator')
    m.timeout_decorator = m
    return m


class RandMod(types.ModuleType):
    """random draws are arbitrary"""
    def __init__(self):
        super().__init__('random')

    @staticmethod
    def randint(a, b):
        g = Cur.eng
        nm = g.name('randint')
        v = z3.Int(nm)
        g.add(z3.And(v >= a, v <= b))
        return SymInt(v)

    @staticmethod
    def uniform(a, b):
        g = Cur.eng
        v = z3.Real(g.name('uniform'))
        g.add(z3.And(v >= a, v <= b))
        return SymReal(r=v)

    def __getattr__(self, n):
        raise Unsupported('random.' + n)


class GenericRand(types.ModuleType):
    """fixed pairwise different draws (the claim then assumes generic draws; C18 treats them as arbitrary)"""
    def __init__(self):
        super().__init__('random')
        self.k = 0

    def randint(self, a, b):
        self.k += 1
        return a + (self.k * 3 - 1) % (b - a + 1)

    def uniform(self, a, b):
        self.k += 1
        return Fraction(a) + Fraction((self.k * 7919 + 13) % 9973, 9973) * (b - a)

    def __getattr__(self, n):
        raise Unsupported('random.' + n)


def models(extra=None):
    from .bridge import antlr_model
    d = {'sympy': zmodule('sympy'), 'antlr4': antlr_model(), 'timeout_decorator': timeout_model(), 'random': RandMod()}
    d.update(extra or {})
    return d
