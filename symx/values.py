"""Symbolic values: booleans, ints, exact rationals, characters, strings, sets."""
from fractions import Fraction
import z3
from .core import Cur, PathAbort, Incomplete, Unsupported

FULL = None


def eng():
    return Cur.eng


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ('e', 'u')

    def __init__(self, e, u=None):
        self.e = e
        self.u = u

    def __bool__(self):
        return eng().branch(self)

    def __and__(self, o):
        return sand(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def _i(self):
        return 1 if bool(self) else 0

    def __add__(self, o): return self._i() + (o._i() if isinstance(o, SymBool) else o)
    __radd__ = __add__
    def __sub__(self, o): return self._i() - (o._i() if isinstance(o, SymBool) else o)
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * (o._i() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if o is True or (not isinstance(o, bool) and isinstance(o, int) and o == 1):
            return self
        if o is False or (isinstance(o, int) and o == 0):
            return snot(self)
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, b2e(o)))
    __rxor__ = __xor__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __repr__(self):
        return f'SymBool({self.e})'


def b2e(x):
    return x.e if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def sand(*xs):
    es, us, ok = [], [], True
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
            if x.u is None:
                ok = False
            else:
                us.extend(x.u)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(z3.And(*es) if len(es) > 1 else es[0], us if ok else None)


def sor(*xs):
    es, keep = [], []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
            keep.append(x)
        elif x:
            return True
    if not es:
        return False
    if len(es) == 1:
        return keep[0]
    u = None
    if all(k.u is not None and len(k.u) == 1 for k in keep) and len({k.u[0][0] for k in keep}) == 1:
        u = [(keep[0].u[0][0], frozenset().union(*[k.u[0][1] for k in keep]))]
    return SymBool(z3.Or(*es), u)


def snot(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.e))
    return not x


def simplies(a, b):
    return sor(snot(a), b)


def siff(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool):
        return bool(a) == bool(b)
    return SymBool(b2e(a) == b2e(b))


# ------------------------------------------------------------------ numbers
def _isnum(x):
    return isinstance(x, (int, float, Fraction, SymInt, SymReal)) and not isinstance(x, SymBool)


class SymInt:
    """Python int: mathematical integer."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def wrap(e):
        e = z3.simplify(e)
        return e.as_long() if z3.is_int_value(e) else SymInt(e)

    def _co(self, o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        return None

    def _bin(self, o, f, real):
        if isinstance(o, SymBool):
            o = o._i()
        c = self._co(o)
        if c is not None:
            return SymInt.wrap(f(self.e, c))
        if isinstance(o, (float, Fraction, SymReal)):
            return real(SymReal.of(self), SymReal.of(o))
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * int(self)
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return SymInt.wrap(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SymInt.wrap(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o): return SymReal.of(self) / o
    def __rtruediv__(self, o): return SymReal.of(o) / SymReal.of(self)

    def _posdiv(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        return o

    def __floordiv__(self, o):
        if isinstance(o, (float, SymReal, Fraction)):
            return (SymReal.of(self) / o).floor()
        o = self._posdiv(o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o > 0:
            return SymInt.wrap(self.e / z3.IntVal(o))
        return SymInt.wrap((-self.e) / z3.IntVal(-o))

    def __mod__(self, o):
        o = self._posdiv(o)
        if not isinstance(o, int):
            return SymReal.of(self) % o
        if o == 0:
            raise ZeroDivisionError('integer modulo by zero')
        if o > 0:
            return SymInt.wrap(self.e % z3.IntVal(o))
        return SymInt.wrap(-((-self.e) % z3.IntVal(-o)))

    def __rfloordiv__(self, o): return o // int(self)
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % int(self)
    def __divmod__(self, o): return (self // o, self % o)

    def __pow__(self, k, mod=None):
        k = int(k) if isinstance(k, SymInt) else k
        if isinstance(k, int) and k >= 0:
            r = z3.IntVal(1)
            for _ in range(k):
                r = r * self.e
            return SymInt.wrap(r)
        return SymReal.of(self) ** k

    def __rpow__(self, b): return b ** int(self)
    def __lshift__(self, k): return self * (1 << int(k))
    def __rshift__(self, k): return self // (1 << int(k))

    def _cmp(self, o, f):
        if isinstance(o, SymBool):
            o = o._i()
        c = self._co(o)
        if c is not None:
            e = z3.simplify(f(self.e, c))
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            return SymBool(e)
        if isinstance(o, (float, Fraction, SymReal)):
            return SymReal.of(self)._cmp(o, f)
        return NotImplemented

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return eng().concretize(self.e)
    __int__ = __index__

    def __hash__(self):
        return hash(int(self))

    def __float__(self):
        return float(int(self))

    def __round__(self, n=None):
        return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def conjugate(self): return self
    def is_integer(self): return True
    def bit_length(self): return int(self).bit_length()
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    def __str__(self):
        return self.to_str().concrete()

    def to_str(self):
        """decimal text as a SymStr (forks on sign and digit count)."""
        return int_to_str(self)

    def __format__(self, spec):
        if spec in ('', 'd'):
            raise Unsupported('format of symbolic int outside f-string')
        return format(int(self), spec)

    def __repr__(self):
        return f'SymInt({self.e})'


class SymReal:
    """Exact rational/real: numerator z3 Int over a concrete positive int denominator, or a z3 Real term.
    Stands for Python floats (stated abstraction: no rounding) and for sympy numbers."""
    __slots__ = ('n', 'd', 'r')

    def __init__(self, n=None, d=1, r=None):
        self.n, self.d, self.r = n, d, r

    @staticmethod
    def of(x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return SymReal(x.e, 1)
        if isinstance(x, SymBool):
            x = x._i()
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return SymReal(z3.IntVal(x), 1)
        if isinstance(x, float):
            if x != x or x in (float('inf'), float('-inf')):
                raise Unsupported('inf/nan mixed with symbolic number')
            f = Fraction(repr(x))       # decimal reading of the literal
            return SymReal(z3.IntVal(f.numerator), f.denominator)
        if isinstance(x, Fraction):
            return SymReal(z3.IntVal(x.numerator), x.denominator)
        raise TypeError(type(x).__name__)

    def norm(self):
        """Python number if concrete."""
        if self.r is None:
            n = z3.simplify(self.n)
            if z3.is_int_value(n):
                return Fraction(n.as_long(), self.d)
            return SymReal(n, self.d)
        r = z3.simplify(self.r)
        if z3.is_rational_value(r):
            return Fraction(r.numerator_as_long(), r.denominator_as_long())
        return SymReal(r=r)

    @property
    def e(self):
        if self.r is not None:
            return self.r
        return z3.ToReal(self.n) / z3.RealVal(self.d)

    def _args(self, o):
        try:
            return SymReal.of(o)
        except TypeError:
            return None

    def _wrap(self):
        return self

    def __add__(self, o):
        o = self._args(o)
        if o is None:
            return NotImplemented
        if self.r is None and o.r is None:
            from math import gcd
            g = gcd(self.d, o.d)
            d = self.d // g * o.d
            return SymReal(z3.simplify(self.n * (d // self.d) + o.n * (d // o.d)), d)
        return SymReal(r=self.e + o.e)
    __radd__ = __add__

    def __neg__(self):
        return SymReal(z3.simplify(-self.n), self.d) if self.r is None else SymReal(r=-self.r)
    def __pos__(self): return self

    def __sub__(self, o):
        o = self._args(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._args(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = self._args(o)
        if o is None:
            return NotImplemented
        if self.r is None and o.r is None:
            return SymReal(z3.simplify(self.n * o.n), self.d * o.d)
        return SymReal(r=self.e * o.e)
    __rmul__ = __mul__

    def inv(self):
        if self.r is not None:
            if bool(SymBool(self.r == 0)):
                raise ZeroDivisionError('division by zero')
            return SymReal(r=1 / self.r)
        n = self.n
        if not z3.is_int_value(z3.simplify(n)):
            n = eng().concretize(n, limit=400)
        else:
            n = z3.simplify(n).as_long()
        if n == 0:
            raise ZeroDivisionError('division by zero')
        if n < 0:
            return SymReal(z3.IntVal(-self.d), -n)
        return SymReal(z3.IntVal(self.d), n)

    def __truediv__(self, o):
        o = self._args(o)
        if o is None:
            return NotImplemented
        return self * o.inv()

    def __rtruediv__(self, o):
        o = self._args(o)
        if o is None:
            return NotImplemented
        return o * self.inv()

    def __abs__(self):
        if self.r is None:
            return SymReal(z3.If(self.n >= 0, self.n, -self.n), self.d)
        return SymReal(r=z3.If(self.r >= 0, self.r, -self.r))

    def __pow__(self, k):
        if isinstance(k, SymInt):
            k = int(k)
        if isinstance(k, (SymReal, Fraction, float)):
            kr = SymReal.of(k)
            if kr.r is None and kr.d == 1:
                k = eng().concretize(kr.n)
            else:
                raise Unsupported('non-integer power of a symbolic number')
        if k < 0:
            return self.inv() ** (-k)
        r = SymReal.of(1)
        for _ in range(k):
            r = r * self
        return r

    def __rpow__(self, b):
        if self.r is None and self.d == 1:
            return b ** eng().concretize(self.n)
        raise Unsupported('symbolic exponent')

    def _cmp(self, o, f):
        o = self._args(o)
        if o is None:
            return NotImplemented
        if self.r is None and o.r is None:
            from math import gcd
            g = gcd(self.d, o.d)
            e = f(self.n * (o.d // g), o.n * (self.d // g))
        else:
            e = f(self.e, o.e)
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __bool__(self): return bool(self != 0)

    def floor(self):
        if self.r is None:
            return SymInt.wrap(self.n / z3.IntVal(self.d))
        return SymInt.wrap(z3.ToInt(self.r))
    __floor__ = floor

    def ceil(self):
        return -((-self).floor())
    __ceil__ = ceil

    def __trunc__(self):
        if self.r is None:
            return SymInt.wrap(z3.If(self.n >= 0, self.n / z3.IntVal(self.d), -((-self.n) / z3.IntVal(self.d))))
        return SymInt.wrap(z3.If(self.r >= 0, z3.ToInt(self.r), -z3.ToInt(-self.r)))

    def __round__(self, nd=None):
        if nd:
            nd = int(nd)
            return SymReal.of(round(self * 10 ** nd)) / 10 ** nd
        # round half to even
        if self.r is None:
            n, d = self.n, self.d
            q = (2 * n + d) / z3.IntVal(2 * d)          # floor(x + 1/2)
            tie = (2 * n + d) % z3.IntVal(2 * d) == 0
            return SymInt.wrap(z3.If(z3.And(tie, q % 2 == 1), q - 1, q)) if d % 2 == 0 or True else None
        q = z3.ToInt(self.r + z3.RealVal('1/2'))
        tie = self.r + z3.RealVal('1/2') == z3.ToReal(q)
        return SymInt.wrap(z3.If(z3.And(tie, q % 2 == 1), q - 1, q))

    def __floordiv__(self, o): return SymReal.of((self / o).floor())
    def __mod__(self, o): return self - SymReal.of((self / o).floor()) * o
    def is_integer(self):
        if self.r is None:
            return SymBool(self.n % z3.IntVal(self.d) == 0)
        return SymBool(z3.IsInt(self.r))
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0

    def __float__(self):
        raise Unsupported('float() of a symbolic number inside library code')
    def __int__(self):
        return int(self.__trunc__())
    def __hash__(self):
        if self.r is None:
            return hash(Fraction(eng().concretize(self.n), self.d))
        raise Unsupported('hash of real')

    def to_str(self):
        return real_to_str(self)

    def __str__(self):
        return self.to_str().concrete()

    def __repr__(self):
        return f'SymReal({self.n}/{self.d})' if self.r is None else f'SymReal({self.r})'


class SymRatio:
    """a/b with b > 0, both SymReal; kept as a pair so that comparisons stay linear."""
    def __init__(self, a, b):
        self.a, self.b = a, b

    @staticmethod
    def make(a, b):
        a = SymReal.of(a)
        if isinstance(b, SymRatio):
            return SymRatio.make(a * b.b, b.a)
        b = SymReal.of(b)
        if bool(b < 0):
            a, b = -a, -b
        return SymRatio(a, b)

    def _o(self, o):
        if isinstance(o, SymRatio):
            return o
        return SymRatio(SymReal.of(o), SymReal.of(1))

    def __add__(self, o):
        o = self._o(o)
        return SymRatio(self.a * o.b + o.a * self.b, self.b * o.b)
    __radd__ = __add__
    def __neg__(self): return SymRatio(-self.a, self.b)
    def __sub__(self, o): return self + (-self._o(o))
    def __rsub__(self, o): return self._o(o) + (-self)
    def __mul__(self, o):
        o = self._o(o)
        return SymRatio(self.a * o.a, self.b * o.b)
    __rmul__ = __mul__
    def __abs__(self): return SymRatio(abs(self.a), self.b)
    def inv(self): return SymRatio.make(self.b, self.a)

    def _cmp(self, o, f):
        o = self._o(o)
        return (self.a * o.b)._cmp(o.a * self.b, f)

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    __hash__ = None


# ------------------------------------------------------------------ characters
class Cell:
    """A symbolic character: variable v (z3 Int) with its full domain, plus an optional codepoint map
    (tuple of (from, to)) applied to it (used for lower()/upper())."""
    __slots__ = ('v', 'vn', 'fm', '_e')

    def __init__(self, v, vn, fm=None):
        self.v, self.vn, self.fm = v, vn, fm
        self._e = None

    def vdom(self):
        return eng().dom[self.vn]

    def dom(self):
        d = self.vdom()
        if self.fm is None:
            return d
        return frozenset(self.fm.get(c, c) for c in d)

    def pre(self, S):
        if self.fm is None:
            return S
        return frozenset(c for c in self.vdom() if self.fm.get(c, c) in S)

    @property
    def e(self):
        if self._e is None:
            if self.fm is None:
                self._e = self.v
            else:
                by = {}
                for a, b in self.fm.items():
                    by.setdefault(b - a, set()).add(a)
                r = self.v
                for off, s in sorted(by.items()):
                    r = z3.If(in_set(self.v, s), self.v + off, r)
                self._e = r
        return self._e

    def test(self, S):
        """SymBool/bool: codepoint in S (a frozenset or a predicate-backed class with __contains__)."""
        d = self.vdom()
        if self.fm is None:
            inn = frozenset(c for c in d if c in S)
        else:
            inn = frozenset(c for c in d if self.fm.get(c, c) in S)
        if len(inn) == len(d):
            return True
        if not inn:
            return False
        return SymBool(in_set(self.v, inn), [(self.vn, inn)])

    def mapped(self, f):
        base = self.fm or {}
        m = {}
        for c in self.vdom():
            x = base.get(c, c)
            y = f(x)
            if y is None:
                return None
            if y != c:
                m[c] = y
        return Cell(self.v, self.vn, m or None)


def in_set(v, S):
    S = sorted(S)
    rs = []
    i = 0
    while i < len(S):
        j = i
        while j + 1 < len(S) and S[j + 1] == S[j] + 1:
            j += 1
        rs.append((S[i], S[j]))
        i = j + 1
    es = [v == a if a == b else z3.And(v >= a, v <= b) for a, b in rs]
    return es[0] if len(es) == 1 else z3.Or(*es)


def cell_in(c, S):
    if isinstance(c, int):
        return c in S
    return c.test(S)


def cell_eq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        return b.test((a,))
    if isinstance(b, int):
        return a.test((b,))
    if a.vn == b.vn and a.fm == b.fm:
        return True
    da, db = a.dom(), b.dom()
    if not (da & db):
        return False
    if len(da) == 1 and len(db) == 1:
        return True
    return SymBool(a.e == b.e)


def new_cell(name, dom):
    g = eng()
    nm = g.name(name)
    v = z3.Int(nm)
    dom = frozenset(dom)
    g.dom[nm] = dom
    g.add(in_set(v, dom), unary=nm)
    return Cell(v, nm)


# ------------------------------------------------------------------ text of numbers
def int_to_str(x):
    from .sstr import SymStr, mk
    if not isinstance(x, SymInt):
        return str(x)
    g = eng()
    neg = bool(x < 0)
    a = -x if neg else x
    if not isinstance(a, SymInt):
        return str(x)
    k = 1
    while True:
        if bool(a < 10 ** k):
            break
        k += 1
        if k > 30:
            raise Unsupported('integer text longer than 30 digits')
    cells = [new_cell('dig', range(48, 58)) for _ in range(k)]
    val = sum((c.v - 48) * 10 ** (k - 1 - i) for i, c in enumerate(cells))
    g.add(val == a.e)
    if k > 1:
        g.dom[cells[0].vn] = frozenset(range(49, 58))
    return mk(([45] if neg else []) + cells)


def real_to_str(x):
    """repr() of a float holding the exact decimal n/10^k (stated abstraction: repr is the shortest decimal)."""
    from .sstr import mk
    x = SymReal.of(x)
    if x.r is not None:
        raise Unsupported('text of a symbolic real')
    d, k = x.d, 0
    n = x.n
    while 10 ** k % d:
        k += 1
        if k > 40:
            raise Unsupported('non-decimal rational as text')
    n = n * (10 ** k // d)
    neg = bool(SymInt.wrap(n) < 0)
    if neg:
        n = -n
    # strip trailing zeros of the fraction
    while k > 0 and bool(SymInt.wrap(n % 10) == 0):
        n = n / 10
        k -= 1
    ip = SymInt.wrap(n / z3.IntVal(10 ** k))
    fp = SymInt.wrap(n % z3.IntVal(10 ** k)) if k else 0
    if bool(ip >= 10 ** 16):
        raise Unsupported('float text in exponent form')
    if bool(SymInt.wrap(n) >= 10 ** 15):
        raise Unsupported('rounding of a float of more than 15 digits')
    if k and bool(sand(ip == 0, fp < 10 ** max(k - 4, 0))) and k > 4:
        raise Unsupported('float text in exponent form')
    si = int_to_str(ip) if isinstance(ip, SymInt) else str(ip)
    if k == 0:
        tail = '0'
    elif not isinstance(fp, SymInt):
        tail = str(fp).zfill(k)
    else:
        cells = [new_cell('frac', range(48, 58)) for _ in range(k)]
        eng().add(sum((c.v - 48) * 10 ** (k - 1 - i) for i, c in enumerate(cells)) == fp.e)
        tail = mk(cells)
    r = si + '.' + tail
    return '-' + r if neg else r


# ------------------------------------------------------------------ model evaluation
def vars_of(x):
    from .sstr import SymStr, SymSet
    if isinstance(x, SymStr):
        return [c.v for c in x.c if not isinstance(c, int)]
    if isinstance(x, SymSet):
        return [v for y in x.items for v in vars_of(y)]
    if isinstance(x, (SymInt, SymBool)):
        return zvars(x.e)
    if isinstance(x, SymReal):
        return zvars(x.e)
    if isinstance(x, (list, tuple, set)):
        return [v for y in x for v in vars_of(y)]
    if isinstance(x, dict):
        return [v for y in x.values() for v in vars_of(y)]
    if z3.is_expr(x):
        return zvars(x)
    return []


def zvars(e):
    out, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        todo.extend(t.children())
    return out


def concretize_model(x, m):
    from .sstr import SymStr, SymSet
    if isinstance(x, SymStr):
        out = []
        for c in x.c:
            if isinstance(c, int):
                out.append(chr(c))
            else:
                v = m.eval(c.v, model_completion=True).as_long()
                if v not in c.vdom() and c.fm is None:
                    v = v if 0 <= v < 0x110000 else 63
                out.append(chr((c.fm or {}).get(v, v)))
        return ''.join(out)
    if isinstance(x, SymSet):
        return [concretize_model(y, m) for y in x.items]
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.e, model_completion=True))
    if isinstance(x, SymInt):
        return m.eval(x.e, model_completion=True).as_long()
    if isinstance(x, SymReal):
        v = m.eval(x.e, model_completion=True)
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        return Fraction(str(v.approx(20).as_fraction())) if hasattr(v, 'approx') else str(v)
    if isinstance(x, list):
        return [concretize_model(y, m) for y in x]
    if isinstance(x, tuple):
        return tuple(concretize_model(y, m) for y in x)
    if isinstance(x, dict):
        return {k: concretize_model(y, m) for k, y in x.items()}
    if z3.is_expr(x):
        v = m.eval(x, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(25)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return str(v)
    return x


from .sstr import SymStr, SymSet  # noqa: E402
