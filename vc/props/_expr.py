"""Formulas with variables: how they are written in LaTeX, what they denote (written here, without sympy), what a sympy expression denotes,
and the solver's proof that two denotations agree for every value of the variables.

Denotations are fractions of polynomials over the variables and over opaque function values; a function applied to arguments that are
provably equal (solver) is the same value. Binders (sum, limit, ...) are compared by their kind, their provably equal arguments and their
provably equal bodies. A numeric interpretation of the same two trees (mpmath) replays counterexamples."""
from fractions import Fraction
import math
import symx.core
import z3

F = Fraction
ONE = z3.RealVal(1)


class Undefined(Exception):
    """the reference has no value here"""


class Bad(Exception):
    """the code's expression has no value / an unexpected node"""


# ------------------------------------------------------------------ solver backend
def rv(q):
    return z3.RealVal(str(q))


class V:
    """n/d with solver terms; q: the number when concrete"""
    __slots__ = ('n', 'd', 'q')

    def __init__(self, n, d=ONE, q=None):
        self.n, self.d, self.q = n, d, q


def isone(t):
    return z3.is_rational_value(t) and t.as_fraction() == 1


def mulz(a, b):
    if isone(a):
        return b
    if isone(b):
        return a
    return a * b


class Sym:
    """interpretation with solver terms"""
    numeric = False

    def __init__(self, dom=None):
        self.apps = []          # (name, args, value)
        self.binds = []
        self.dom = [] if dom is None else dom       # conditions under which the reference is defined
        self.collect = True
        self.vars = {}
        self.bound = {}
        self.depth = 0

    def const(self, q):
        q = F(q)
        return V(rv(q), ONE, q)

    def var(self, name):
        if name in self.bound:
            return self.bound[name]
        if name not in self.vars:
            self.vars[name] = z3.Real(name)
        return V(self.vars[name])

    def add(self, a, b):
        if a.q is not None and b.q is not None:
            return self.const(a.q + b.q)
        if a.d.eq(b.d):
            return V(a.n + b.n, a.d)
        return V(mulz(a.n, b.d) + mulz(b.n, a.d), mulz(a.d, b.d))

    def mul(self, a, b):
        if a.q is not None and b.q is not None:
            return self.const(a.q * b.q)
        return V(mulz(a.n, b.n), mulz(a.d, b.d))

    def neg(self, a):
        return self.mul(self.const(-1), a)

    def inv(self, a):
        if a.q is not None:
            if a.q == 0:
                raise Undefined('division by zero') if self.collect else Bad('division by zero')
            return self.const(1 / a.q)
        if self.collect:
            self.dom.append(a.n != 0)
        return V(a.d, a.n)

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def pow(self, b, e):
        if e.q is not None and e.q.denominator == 1 and abs(e.q) <= 8:
            k = int(e.q)
            if k < 0:
                return self.inv(self.pow(b, self.const(-k)))
            r = self.const(1)
            for _ in range(k):
                r = self.mul(r, b)
            return r
        if b.q is not None and e.q is not None:
            x = exact_pow(b.q, e.q)
            if x is not None:
                return self.const(x)
        if e.q is not None and e.q < 0:
            return self.inv(self.pow(b, self.const(-e.q)))
        if e.q is not None:
            for g, xs, v in self.apps:
                if g == 'exp' and v is b and xs[0].q is not None:
                    return self.app('exp', [self.const(xs[0].q * e.q)])
        if e.q is not None and e.q.denominator in (2, 3, 4, 5) and abs(e.q.numerator) <= 8:
            return self.pow(self.app('root', [self.const(e.q.denominator), b]), self.const(e.q.numerator))
        return self.negated('pow', [b, e]) or self.app('pow', [b, e])

    def negated(self, f, args):
        """b^(-e) is 1/b^e"""
        for g, xs, v in self.apps:
            if g == f and self.equal(xs[-1], self.neg(args[-1])) and all(self.equal(x, y) for x, y in zip(xs[:-1], args[:-1])) and not self.equal(xs[-1], args[-1]):
                return self.inv(v)

    def root(self, k, a):
        return self.pow(a, self.inv(k)) if k.q is not None else self.app('pow', [a, self.inv(k)])

    def app(self, f, args):
        if f in FOLD and all(a.q is not None for a in args):
            x = FOLD[f](*[a.q for a in args])
            if x is not None:
                return self.const(x)
        if f == 'exp':
            if args[0].q is not None and args[0].q < 0:
                return self.inv(self.app('exp', [self.const(-args[0].q)]))
            v = self.negated('exp', args)
            if v is not None:
                return v
            for g, xs, v in self.apps:
                if g == 'ln' and v is args[0]:
                    return xs[0]
        if f == 'binom' and args[1].q is not None and args[1].q in (0, 1, 2, 3):
            r = self.const(1)
            for i in range(int(args[1].q)):
                r = self.mul(self.mul(r, self.add(args[0], self.const(-i))), self.const(F(1, i + 1)))
            return r
        if f in ('max', 'min'):
            return self.extremum(f, args)
        if f in ('gcd', 'lcm'):
            args = self.distinct(args)
            for g, xs, v in self.apps:
                if g == f and self.sameset(xs, args):
                    return v
        for g, xs, v in self.apps:
            if g == f and len(xs) == len(args) and all(self.equal(x, y) for x, y in zip(xs, args)):
                return v
        v = V(z3.Real(f'{f}#{len(self.apps)}'))
        self.apps.append((f, args, v))
        return v

    def distinct(self, args):
        out = []
        for a in args:
            if not any(self.equal(a, b) for b in out):
                out.append(a)
        return out

    def sameset(self, xs, ys):
        return len(xs) == len(ys) and all(any(self.equal(x, y) for y in ys) for x in xs)

    def extremum(self, f, args):
        """max/min: nested ones are one, order and repetition do not matter"""
        flat = []
        for a in args:
            for g, xs, v in self.apps:
                if g == f and v is a:
                    flat += xs
                    break
            else:
                flat.append(a)
        qs = [a.q for a in flat if a.q is not None]
        flat = self.distinct([a for a in flat if a.q is None])
        if qs:
            flat.append(self.const(max(qs) if f == 'max' else min(qs)))
        if len(flat) == 1:
            return flat[0]
        for g, xs, v in self.apps:
            if g == f and self.sameset(xs, flat):
                return v
        v = V(z3.Real(f'{f}#{len(self.apps)}'))
        self.apps.append((f, flat, v))
        return v

    def bind(self, kind, var, body, args):
        """body: callable() -> value, with var bound"""
        old = self.bound.get(var)
        self.depth += 1
        self.bound[var] = V(z3.Real(f'bound{self.depth}'))
        try:
            b = body()
        finally:
            self.depth -= 1
            if old is None:
                del self.bound[var]
            else:
                self.bound[var] = old
        for g, xs, c, v in self.binds:
            if g == kind and len(xs) == len(args) and all(self.equal(x, y) for x, y in zip(xs, args)) and self.equal(c, b):
                return v
        v = V(z3.Real(f'{kind}#{len(self.binds)}'))
        self.binds.append((kind, args, b, v))
        return v

    def equal(self, a, b):
        if a.q is not None and b.q is not None:
            return a.q == b.q
        t = z3.simplify(mulz(a.n, b.d) - mulz(b.n, a.d), som=True)
        if z3.is_rational_value(t):
            return t.as_fraction() == 0
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*self.dom)
        s.add(t != 0)
        return s.check() == z3.unsat

    def claim(self, ref, got):
        """solver formula: got is defined and equal to ref (ref's conditions are in dom)"""
        if ref.q is not None and got.q is not None:
            return z3.BoolVal(ref.q == got.q)
        t = z3.simplify(mulz(ref.n, got.d) - mulz(got.n, ref.d), som=True)
        c = [t == 0]
        if not z3.is_rational_value(got.d):
            c.append(got.d != 0)
        return z3.And(*c)


def iroot(n, k):
    if n < 0:
        if k % 2:
            r = iroot(-n, k)
            return None if r is None else -r
        return None
    r = round(n ** (1 / k))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def exact_pow(b, e):
    if e.denominator == 1:
        if abs(e) > 400 or b == 0 and e < 0:
            return None
        return b ** int(e)
    if b < 0:
        return None
    x, y = iroot(b.numerator, e.denominator), iroot(b.denominator, e.denominator)
    if x is None or y is None or (x == 0 and e < 0):
        return None
    return F(x, y) ** e.numerator


def _int(f):
    def g(*a):
        if any(x.denominator != 1 for x in a):
            return None
        try:
            return f(*[int(x) for x in a])
        except (ValueError, ZeroDivisionError):
            return None
    return g


def gcdq(*xs):
    l = 1
    for x in xs:
        l = math.lcm(l, x.denominator)
    return F(math.gcd(*[int(x * l) for x in xs]), l)


FOLD = {
    'abs': lambda x: abs(x), 'floor': lambda x: F(math.floor(x)), 'ceil': lambda x: F(math.ceil(x)),
    'fact': _int(lambda n: math.factorial(n) if n < 200 else None), 'binom': _int(lambda n, k: math.comb(n, k)),
    'mod': lambda a, b: None if b == 0 else a - b * math.floor(a / b),
    'gcd': gcdq, 'lcm': lambda *xs: None if any(x == 0 for x in xs) else lcmq(*xs), 'max': lambda *xs: max(xs), 'min': lambda *xs: min(xs),
    'ln': lambda x: F(0) if x == 1 else None, 'exp': lambda x: F(1) if x == 0 else None, 'root': lambda k, x: exact_pow(x, 1 / k),
    'sin': lambda x: F(0) if x == 0 else None, 'tan': lambda x: F(0) if x == 0 else None, 'cos': lambda x: F(1) if x == 0 else None,
}


def lcmq(*xs):
    r = xs[0]
    for y in xs[1:]:
        r = abs(r * y) / gcdq(r, y)
    return r


# ------------------------------------------------------------------ numeric backend
class Num:
    """interpretation with high-precision numbers at one point"""
    numeric = True

    def __init__(self, env, side):
        import mpmath
        self.m = mpmath
        self.env = {k: self.c(v) for k, v in env.items()}
        self.exc = Undefined if side == 'ref' else Bad

    def c(self, q):
        if isinstance(q, F):
            return self.m.mpf(q.numerator) / q.denominator
        return self.m.mpmathify(q)

    def const(self, q):
        return self.c(F(q))

    def var(self, name):
        if name not in self.env:
            raise Bad('variable ' + name)
        return self.env[name]

    def ok(self, x):
        if not self.m.isfinite(x) if not isinstance(x, self.m.mpc) else not (self.m.isfinite(x.real) and self.m.isfinite(x.imag)):
            raise self.exc('not finite')
        return x

    def add(self, a, b): return a + b
    def mul(self, a, b): return a * b
    def neg(self, a): return -a

    def inv(self, a):
        if abs(a) < self.m.mpf(10) ** -25:
            raise self.exc('division by zero')
        return 1 / a

    def div(self, a, b): return a * self.inv(b)

    def pow(self, b, e):
        try:
            if abs(e) > 2000:
                raise Undefined('too large')
            if self.m.re(e) < 0 and abs(b) < self.m.mpf(10) ** -25:
                raise self.exc('0 to a negative power')
            return self.ok(self.m.power(b, e))
        except (ZeroDivisionError, ValueError, OverflowError):
            raise self.exc('power')

    def root(self, k, a): return self.pow(a, self.inv(k))

    def app(self, f, args):
        m = self.m
        try:
            if f not in NUMF(m) and f[-1:].isdigit():           # an undefined function: some function of that name
                from zlib import crc32
                c = crc32(f.encode())
                return self.ok(sum((c % 97 + 3 + 5 * i) * x ** (1 + (c >> i) % 3) for i, x in enumerate(args)) + c % 89)
            return self.ok(NUMF(m)[f](*args))
        except KeyError:
            raise Bad('function ' + f)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError, m.libmp.NoConvergence):
            raise self.exc(f)

    def bind(self, kind, var, body, args):
        m = self.m

        def at(x):
            old = self.env.get(var)
            self.env[var] = x
            try:
                return body()
            finally:
                if old is None:
                    self.env.pop(var, None)
                else:
                    self.env[var] = old
        try:
            if kind in ('sum', 'prod'):
                lo, hi = (int(m.nint(m.re(x))) for x in args)
                if hi - lo > 40 or hi < lo:
                    return m.mpf(0 if kind == 'sum' else 1)
                r = m.mpf(0 if kind == 'sum' else 1)
                for k in range(lo, hi + 1):
                    r = r + at(m.mpf(k)) if kind == 'sum' else r * at(m.mpf(k))
                return r
            if kind.startswith('lim'):
                h = m.mpf(10) ** -7
                return at(args[0] + (h if kind == 'lim+' else -h))
            if kind == 'diff':
                return m.diff(at, args[0])
            if kind == 'int':
                return at(args[0]) + m.mpf(7)
            if kind == 'dint':
                a, b = args
                return m.quad(at, [a, b], method='gauss-legendre', maxdegree=2)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            raise self.exc(kind)
        raise Bad(kind)


_NF = {}


def NUMF(m):
    if _NF:
        return _NF

    def real(x):
        if abs(m.im(x)) > m.mpf(10) ** -20:
            raise ValueError('real argument')
        return m.re(x)

    def small(x):
        if abs(x) > 500:
            raise Undefined('too large')
        return x

    def whole(x):
        k = int(m.nint(real(x)))
        if abs(x - k) > m.mpf(10) ** -15:
            raise ValueError('whole')
        return k

    def rat(x):
        x = real(x)
        for d in range(1, 2000):
            if abs(x * d - m.nint(x * d)) < m.mpf(10) ** -12:
                return F(int(m.nint(x * d)), d)
        raise ValueError('rational')
    q = lambda f: lambda *xs: (lambda r: m.mpf(r.numerator) / r.denominator)(f(*[rat(x) for x in xs]))
    _NF.update(root=lambda k, x: m.power(x, 1 / k), abs=abs, floor=lambda x: m.floor(real(x)), ceil=lambda x: m.ceil(real(x)), fact=lambda x: m.gamma(small(x) + 1),
               binom=m.binomial, mod=lambda a, b: real(a) - real(b) * m.floor(real(a) / real(b)), gcd=q(gcdq), lcm=q(lambda *xs: lcmq(*xs)),
               max=lambda *xs: max(real(x) for x in xs), min=lambda *xs: min(real(x) for x in xs), ln=lambda x: m.log(x), exp=m.exp, pow=m.power,
               sin=m.sin, cos=m.cos, tan=m.tan, csc=m.csc, sec=m.sec, cot=m.cot, asin=m.asin, acos=m.acos, atan=m.atan, acsc=m.acsc, asec=m.asec, acot=m.acot,
               sinh=m.sinh, cosh=m.cosh, tanh=m.tanh, asinh=m.asinh, acosh=m.acosh, atanh=m.atanh, pi=lambda: +m.pi, E=lambda: +m.e, I=lambda: m.mpc(0, 1), oo=lambda: m.inf,
               f1=lambda x: x * x * x + 2 * x + 1, f2=lambda x, y: x * x - 3 * y + x * y, g1=lambda x: x * x + 5, h1=lambda x: 7 * x + x ** 4)
    return _NF


# ------------------------------------------------------------------ sympy trees
NAMES = {'Abs': 'abs', 'factorial': 'fact', 'binomial': 'binom', 'Mod': 'mod', 'floor': 'floor', 'ceiling': 'ceil', 'exp': 'exp', 'Max': 'max', 'Min': 'min',
         'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'csc': 'csc', 'sec': 'sec', 'cot': 'cot', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'acsc': 'acsc', 'asec': 'asec', 'acot': 'acot',
         'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'asinh': 'asinh', 'acosh': 'acosh', 'atanh': 'atanh'}
USER = {'f': 'f', 'g': 'g', 'h': 'h'}


def sym(x, B):
    """denotation of a sympy expression (or Python number) in backend B"""
    import sympy as sp
    if isinstance(x, (int, F)):
        return B.const(F(x))
    if isinstance(x, float):
        return B.const(F(x).limit_denominator(10 ** 12))
    if not isinstance(x, sp.Basic):
        raise Bad('not an expression: ' + type(x).__name__)
    if x.is_Rational:
        return B.const(F(x.p, x.q))
    if x.is_Float:
        return B.const(F(str(x)))
    if x.is_Symbol:
        return B.var(x.name)
    n = type(x).__name__
    if x is sp.E:
        return B.app('exp', [B.const(1)])
    if x is sp.pi or x is sp.I or x is sp.oo:
        return B.app({sp.pi: 'pi', sp.I: 'I', sp.oo: 'oo'}[x], [])
    if n == 'NegativeInfinity':
        return B.neg(B.app('oo', []))
    if n in ('NaN', 'ComplexInfinity'):
        raise Bad(n)
    if x.is_Add:
        r = B.const(0)
        for a in x.args:
            r = B.add(r, sym(a, B))
        return r
    if x.is_Mul:
        r = B.const(1)
        for a in x.args:
            r = B.mul(r, sym(a, B))
        return r
    if x.is_Pow:
        if x.base is sp.E:
            return B.app('exp', [sym(x.exp, B)])
        return B.pow(sym(x.base, B), sym(x.exp, B))
    if n == 'exp':
        return B.app('exp', [sym(x.args[0], B)])
    if n == 'log':
        a = [sym(y, B) for y in x.args]
        return B.app('ln', a) if len(a) == 1 else logb(B, a[0], a[1], x.args[1] is sp.E)
    if n in NAMES:
        return B.app(NAMES[n], [sym(a, B) for a in x.args])
    if n == 'UnevaluatedExpr':
        return sym(x.args[0], B)
    if n in ('gcd', 'lcm'):
        return B.app(n, [sym(a, B) for a in x.args])
    if n in ('Sum', 'Product'):
        k = 'sum' if n == 'Sum' else 'prod'

        def nest(i):            # the first limit is the innermost
            if i == 0:
                return sym(x.function, B)
            v, lo, hi = x.limits[i - 1]
            return B.bind(k, v.name, lambda: nest(i - 1), [sym(lo, B), sym(hi, B)])
        return nest(len(x.limits))
    if n == 'Limit':
        c, v, p, d = x.args
        if p in (sp.oo, -sp.oo):
            d = '+'             # only one side there
        return B.bind('lim' + str(d), v.name, lambda: sym(c, B), [sym(p, B)])
    if n == 'Derivative':
        r = x.args[0]
        wrt = [v for v, k in x.variable_count for _ in range(int(k))]

        def go(i):
            if i == 0:
                return sym(r, B)
            v = wrt[i - 1]
            return B.bind('diff', v.name, lambda: go(i - 1), [B.var(v.name)])
        return go(len(wrt))
    if n == 'Integral':
        def nesti(i):
            if i == 0:
                return sym(x.function, B)
            l = x.limits[i - 1]
            if len(l) == 1:
                return B.bind('int', l[0].name, lambda: nesti(i - 1), [B.var(l[0].name)])
            return B.bind('dint', l[0].name, lambda: nesti(i - 1), [sym(l[1], B), sym(l[2], B)])
        return nesti(len(x.limits))
    if isinstance(x, sp.core.function.AppliedUndef):
        return B.app(f'{x.func.__name__}{len(x.args)}', [sym(a, B) for a in x.args])
    raise Bad('node ' + n)


def logb(B, a, b, natural=False):
    return B.app('ln', [a]) if natural else B.div(B.app('ln', [a]), B.app('ln', [b]))


# ------------------------------------------------------------------ formulas
# ('num', text, value) ('var', latex, name) ('add'|'sub', a, b) ('mul'|'div', op, a, b) ('imul', a, b) ('frac', cmd, a, b) ('pow', a, b) ('neg'|'pos', a)
# ('grp', open, close, a) ('app', f, template, args) ('lvl', level, a): template text with %s, args rendered bare
# ('bind', kind, var, template, body, args)
ADD, MUL, NEG, IMUL, POST, POW, ATOM = 1, 2, 3, 4, 5, 6, 7


def num(t):
    return ('num', t, F(t.replace(',', '')))


def var(l, name=None):
    return ('var', l, name or l)


def par(t, lvl, need):
    return t if lvl >= need else '(' + t + ')'


def join(*xs):
    r = ''
    for x in xs:
        if r and x and (r[-1].isalpha() and x[0].isalpha() and '\\' in r[-12:] and r.rstrip('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ').endswith('\\')):
            r += ' '
        r += x
    return r


def tex(a):
    """-> (text, level)"""
    k = a[0]
    if k in ('num', 'var', 'pv'):
        return a[1], ATOM
    if k in ('add', 'sub'):
        l, r = tex(a[1]), tex(a[2])
        return join(par(*l, ADD), '+' if k == 'add' else '-', par(*r, MUL)), ADD
    if k in ('mul', 'div'):
        l, r = tex(a[2]), tex(a[3])
        return join(par(*l, MUL), a[1], par(*r, NEG)), MUL
    if k == 'imul':
        l, r = tex(a[1]), tex(a[2])
        l, r = par(*l, IMUL), par(*r, IMUL)
        z = a[1]
        while z[0] == 'imul':
            z = z[2]
        if z[0] == 'var' and (r[0] in '([{' or r.startswith(('\\{', '\\left(', '\\left[', '\\mleft', '\\lb', '\\lg', '\\left\\{'))):
            l = '(' + l + ')'               # a letter before a bracket is a function
        if r[0].isdigit() or l[-1].isalpha() and r[0] in '([' or l[-1].isdigit() and r[0] == '.':
            r = '{' + r + '}' if a[2][0] != 'num' else '\\left(' + r + '\\right)'
        return join(l, r), IMUL
    if k == 'frac':
        return f'{a[1]}{{{tex(a[2])[0]}}}{{{tex(a[3])[0]}}}', ATOM
    if k == 'pow':
        b = tex(a[1])
        return f'{par(*b, ATOM) if a[1][0] != "frac" and not (a[1][0] == "app") else "(" + b[0] + ")"}^{{{tex(a[2])[0]}}}', POW
    if k in ('neg', 'pos'):
        return join('-' if k == 'neg' else '+', par(*tex(a[1]), NEG)), NEG
    if k == 'grp':
        return a[1] + tex(a[3])[0] + a[2], ATOM
    if k == 'fact':
        return par(*tex(a[1]), POST) + '!', POST
    if k == 'app':
        return a[2] % tuple(par(*tex(x), a[4][i]) if len(a) > 4 else tex(x)[0] for i, x in enumerate(a[3])), a[5] if len(a) > 5 else ATOM
    if k == 'bind':
        return a[3] % tuple(par(*tex(x), n) for x, n in a[6](a)), a[7]
    raise KeyError(k)


def ref(a, B):
    """denotation of a formula"""
    k = a[0]
    r = lambda x: ref(x, B)
    if k == 'num':
        return B.const(a[2])
    if k == 'var':
        return B.var(a[2])
    if k == 'pv':
        return B.mul(B.var(a[2]), B.const(F(1, 100)))
    if k == 'add':
        return B.add(r(a[1]), r(a[2]))
    if k == 'sub':
        return B.add(r(a[1]), B.neg(r(a[2])))
    if k == 'mul':
        if a[1].strip() == '\\mod':
            return B.app('mod', [r(a[2]), r(a[3])])
        return B.mul(r(a[2]), r(a[3]))
    if k == 'div':
        return B.div(r(a[2]), r(a[3]))
    if k == 'imul':
        return B.mul(r(a[1]), r(a[2]))
    if k == 'frac':
        return B.div(r(a[2]), r(a[3]))
    if k == 'pow':
        return B.pow(r(a[1]), r(a[2]))
    if k == 'neg':
        return B.neg(r(a[1]))
    if k == 'pos':
        return r(a[1])
    if k == 'grp':
        return r(a[3])
    if k == 'fact':
        return B.app('fact', [r(a[1])])
    if k == 'app':
        xs = [r(x) for x in a[3]]
        if callable(a[1]):
            return a[1](B, *xs)
        return B.app(a[1], xs)
    if k == 'bind':
        return B.bind(a[1], a[2], lambda: r(a[4]), [r(x) for x in a[5]])
    raise KeyError(k)


def names(a, out=None):
    out = {} if out is None else out
    if isinstance(a, tuple):
        if a and a[0] in ('var', 'pv'):
            out.setdefault(a[2], None)
        for x in a:
            names(x, out)
    elif isinstance(a, list):
        for x in a:
            names(x, out)
    return list(out)


# ------------------------------------------------------------------ units
GENERIC = [F(7, 5), F(23, 10), F(16, 5), F(3, 7), F(19, 8), F(11, 3), F(29, 6), F(13, 9)]
WHOLE = [F(3), F(5), F(2), F(7), F(4), F(6), F(9), F(8)]


def points(vs, env):
    if all(v in env for v in vs):
        yield env
    yield {v: GENERIC[i % 8] for i, v in enumerate(vs)}
    yield {v: -GENERIC[(i + 3) % 8] if i % 2 else GENERIC[(i + 2) % 8] for i, v in enumerate(vs)}
    yield {v: WHOLE[i % 8] for i, v in enumerate(vs)}
    yield {v: WHOLE[(3 * i + 1) % 8] * (-1) ** i for i, v in enumerate(vs)}


def numeric(parse, a, env, refval=None):
    """-> (verdict, got, want); verdict None when the point decides nothing"""
    import mpmath
    from ..unit import LIGHT
    vs = names(a)
    try:
        x = parse()
    except RecursionError:
        raise
    except Exception as ex:
        return False, 'raised ' + type(ex).__name__ + ' ' + str(ex)[:60], 'a value'
    with mpmath.workdps(40):
        first = None
        for p in points(vs, env):
            try:
                w = (refval or (lambda B: ref(a, B)))(Num(p, 'ref'))
            except (Undefined, OverflowError):
                continue
            try:
                g = sym(x, Num(p, 'code'))
            except (Undefined, OverflowError):
                continue
            except Bad as ex:
                return False, f'{x} has no value ({ex}) at {show(p)}', mpmath.nstr(w, 12)
            if abs(g - w) > mpmath.mpf(10) ** -9 * max(1, abs(w)):
                return False, f'{x} = {mpmath.nstr(g, 12)} at {show(p)}', mpmath.nstr(w, 12)
            first = first or f'{mpmath.nstr(g, 12)}'
        return True, 'equal', 'equal'


def show(p):
    return ', '.join(f'{k}={v}' for k, v in p.items())


def native():
    import sys
    from ..run import REPO
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import latex2sympy.latex2sympy2 as m
    return m


def formula_unit(name, items, parse=None, text=None, **kw):
    """items: formulas; the parsed expression must denote the formula for all values of the variables"""
    from ..unit import Unit
    text = text or (lambda a: tex(a)[0])
    parse = parse or (lambda t: native().latex2sympy(t))

    def body():
        from symx.core import Cur
        from symx.values import SymBool
        e = Cur.eng
        k = e.choose(len(items), 'formula')
        a = items[k]
        t = e.input('tex', text(a))
        e.input('k', k)
        return decide(e, a, lambda: parse(t), t)

    def oracle(i):
        a = items[i['k']]
        ok, got, want = numeric(lambda: parse(i['tex']), a, {v: i['val ' + v] for v in names(a) if 'val ' + v in i})
        return dict(ok=ok, got=got, want=f'{i["tex"]}: {want}')
    kw.setdefault('every', 1)
    kw.setdefault('secs', 200)
    kw.setdefault('max_paths', 10 ** 6)
    u = Unit(name, body, oracle, compare=lambda a, b: True, **kw)
    u.items, u.get = items, lambda k: oracle(dict(k=k, tex=text(items[k])))
    return u


def decide(e, a, get, t, refval=None):
    from symx.values import SymBool
    from symx.core import PathAbort
    B = Sym()
    for v in names(a):
        e.input('val ' + v, z3.Real(v))
    try:
        w = (refval or (lambda B: ref(a, B)))(B)
    except Undefined:
        raise PathAbort('undefined')
    for c in B.dom:
        e.assume(SymBool(c))
    B.collect = False
    try:
        x = get()
        g = sym(x, B)
    except RecursionError:
        raise
    except Exception as ex:
        e.prove(False, f'{t}: {type(ex).__name__} {str(ex)[:80]}')
        return 'bad'
    e.prove(SymBool(B.claim(w, g)), f'{t} parsed as {x}')
    return 'equal'


# ------------------------------------------------------------------ results that are not scalars
def parts(x):
    """-> (shape, scalar expressions): two results are the same when the shapes are equal and the scalars agree pairwise"""
    import sympy as sp
    if isinstance(x, (list, tuple)):
        ps = [parts(y) for y in x]
        return (type(x).__name__,) + tuple(p[0] for p in ps), [e for p in ps for e in p[1]]
    if isinstance(x, sp.matrices.MatrixBase):
        return ('matrix',) + tuple(x.shape), list(x)
    if isinstance(x, sp.core.relational.Relational):
        a, b = parts(x.lhs), parts(x.rhs)
        return (type(x).__name__, a[0], b[0]), a[1] + b[1]
    if isinstance(x, (sp.MatMul, sp.MatAdd, sp.MatPow, sp.matrices.expressions.transpose.Transpose, sp.matrices.expressions.inverse.Inverse)) or (isinstance(x, sp.Basic) and not isinstance(x, sp.Expr)):
        ps = [parts(y) for y in x.args]
        return (type(x).__name__,) + tuple(p[0] for p in ps), [e for p in ps for e in p[1]]
    if isinstance(x, (bool, str)) or x is None:
        return repr(x), []
    if isinstance(x, (int, float)) or isinstance(x, sp.Expr):
        return 'scalar', [x]
    return repr(x), []


def symbols(xs, out=None):
    out = {} if out is None else out
    import sympy as sp
    for x in xs:
        if isinstance(x, sp.Basic):
            for s in sorted(x.free_symbols, key=str):
                out.setdefault(s.name, None)
    return list(out)


def agree(e, want, got, msg):
    """solver: two results (of the code) denote the same for all values of the variables"""
    from symx.values import SymBool
    a, b = parts(want), parts(got)
    for v in symbols(a[1] + b[1]):
        e.input('val ' + v, z3.Real(v))
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        e.prove(False, f'{msg}: {got} instead of {want}')
        return 'bad'
    B = Sym()
    B.collect = True
    try:
        ws = [sym(x, B) for x in a[1]]
    except (Undefined, Bad) as ex:              # no value: the expressions themselves must be the same
        e.prove(want == got, f'{msg}: {got} instead of {want}')
        return 'same'
    for c in B.dom:
        e.assume(SymBool(c))
    B.collect = False
    for x, w in zip(b[1], ws):
        try:
            g = sym(x, B)
        except (Undefined, Bad):
            e.prove(False, f'{msg}: {got} instead of {want}')
            return 'bad'
        e.prove(SymBool(B.claim(w, g)), f'{msg}: {got} instead of {want}')
    return 'equal'


def agree_num(want, got, env):
    """native replay of agree -> (ok, text)"""
    import mpmath
    a, b = parts(want), parts(got)
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False, str(got)
    vs = symbols(a[1] + b[1])
    with mpmath.workdps(40):
        for x, y in zip(a[1], b[1]):
            if x == y:
                continue
            for p in points(vs, env):
                try:
                    w = sym(x, Num(p, 'ref'))
                except (Undefined, Bad, OverflowError):
                    continue
                try:
                    g = sym(y, Num(p, 'code'))
                except (Undefined, OverflowError):
                    continue
                except Bad:
                    return False, str(got)
                if abs(g - w) > mpmath.mpf(10) ** -9 * max(1, abs(w)):
                    return False, str(got)
    return True, 'equal'


# ------------------------------------------------------------------ fresh copies of the parser module
_code = {}


def fresh():
    """a newly executed copy of the repository's parser module: no history"""
    import types
    m = native()
    if 'c' not in _code:
        _code['c'] = compile(open(m.__file__).read(), m.__file__, 'exec')
    n = types.ModuleType('latex2sympy.latex2sympy2')
    n.__file__, n.__package__ = m.__file__, 'latex2sympy'
    exec(_code['c'], n.__dict__)
    return n
