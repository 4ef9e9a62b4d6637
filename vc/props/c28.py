"""AsciiMath rendering: the real printer prints expressions of every listed shape; the text is read by an independent AsciiMath reader, and the
solver proves that what was read equals the expression for all values of its variables."""
import itertools
from fractions import Fraction
from ..unit import Property, Unit
from . import _expr as X, _ascii, c22

F = Fraction


def printer():
    import sys
    X.native()
    import importlib
    m = importlib.import_module('latex2sympy.asciimath_printer')
    return m.AsciiMathPrinter()


def show(x):
    return printer().doprint(x)


# ------------------------------------------------------------------ the expressions
def build():
    import sympy as sp
    a, b, c, x, y, z = sp.symbols('a b c x y z')
    L = [a, b, c, x, y, z]
    U = dict(evaluate=False)
    half = sp.Rational(1, 2)
    BIN = {
        'add': lambda p, q: p + q, 'uadd': lambda p, q: sp.Add(p, q, **U), 'sub': lambda p, q: p - q, 'usub': lambda p, q: sp.Add(p, sp.Mul(-1, q, **U), **U),
        'mul': lambda p, q: p * q, 'umul': lambda p, q: sp.Mul(p, q, **U), 'div': lambda p, q: p / q, 'udiv': lambda p, q: sp.Mul(p, sp.Pow(q, -1, **U), **U),
        'pow': lambda p, q: sp.Pow(p, q), 'upow': lambda p, q: sp.Pow(p, q, **U)}
    UN = {
        'neg': lambda p: -p, 'uneg': lambda p: sp.Mul(-1, p, **U), 'inv': lambda p: 1 / p, 'uinv': lambda p: sp.Pow(p, -1, **U), 'sq': lambda p: p ** 2, 'usq': lambda p: sp.Pow(p, 2, **U), 'cube': lambda p: p ** 3,
        'inv2': lambda p: p ** -2, 'uinv2': lambda p: sp.Pow(p, -2, **U), 'sqrt': lambda p: sp.sqrt(p), 'usqrt': lambda p: sp.Pow(p, half, **U), 'rsqrt': lambda p: p ** -half, 'ursqrt': lambda p: sp.Pow(p, -half, **U),
        'root3': lambda p: p ** sp.Rational(1, 3), 'rroot3': lambda p: p ** -sp.Rational(1, 3), 'p32': lambda p: p ** sp.Rational(3, 2), 'pm32': lambda p: p ** -sp.Rational(3, 2), 'fact': lambda p: sp.factorial(p), 'ufact': lambda p: sp.factorial(p, **U),
        'abs': lambda p: sp.Abs(p), 'uabs': lambda p: sp.Abs(p, **U), 'sin': lambda p: sp.sin(p, **U), 'exp': lambda p: sp.exp(p), 'ln': lambda p: sp.log(p, **U), 'floor': lambda p: sp.floor(p, **U), 'tan2': lambda p: sp.tan(p) ** 2,
        'two': lambda p: 2 * p, 'utwo': lambda p: sp.Mul(2, p, **U), 'half': lambda p: p / 2, 'third': lambda p: sp.Mul(p, sp.Rational(-2, 3)), 'flt': lambda p: sp.Float('1.5') * p, 'pone': lambda p: p + 1, 'mone': lambda p: sp.Add(-1, p, **U), 'epow': lambda p: 2 ** p, 'pi': lambda p: sp.pi * p}
    k, n, t = sp.symbols('k n t')
    BND = {
        'sum': lambda p: sp.Sum(p.subs(x, k), (k, 1, n)), 'sum2': lambda p: sp.Sum(p.subs(x, k), (k, n - 1, n ** 2)), 'prod': lambda p: sp.Product(p.subs(x, k), (k, 1, n)), 'lim': lambda p: sp.Limit(p, x, 0), 'lim2': lambda p: sp.Limit(p, x, t + 1),
        'limoo': lambda p: sp.Limit(p, x, sp.oo), 'diff': lambda p: sp.Derivative(p, x), 'int': lambda p: sp.Integral(p, x), 'dint': lambda p: sp.Integral(p, (x, 0, t)), 'dint2': lambda p: sp.Integral(p, (x, -t, t / 2))}
    return L, BIN, UN, BND


def shapes(tier):
    import sympy as sp
    L, BIN, UN, BND = build()
    a, b, c, x, y, z = L
    q = tier == 'quick'
    nums = [sp.Integer(2), sp.Integer(0), sp.Integer(1), sp.Integer(-3), sp.Rational(1, 2), sp.Rational(-2, 3), sp.Float('2.5'), sp.Float('-0.5'), sp.Integer(10), sp.pi, sp.E, sp.Symbol('x_1'), sp.Symbol('alpha')]

    def one():
        for v in nums + [x]:
            yield v
            for f in UN.values():
                yield lambda f=f, v=v: f(v)
            for f in BIN.values():
                yield lambda f=f, v=v: f(v, y)
                yield lambda f=f, v=v: f(y, v)
                for w in nums[:8]:
                    yield lambda f=f, v=v, w=w: f(v, w)

    def two():
        for f in UN.values():
            for g in UN.values():
                yield lambda f=f, g=g: f(g(x))
                for h in (UN if not q else ['neg', 'uneg', 'inv', 'uinv', 'sq', 'usqrt', 'ursqrt', 'ufact', 'uabs', 'two', 'pone', 'inv2']):
                    yield lambda f=f, g=g, h=UN[h]: f(g(h(x)))
            for g in BIN.values():
                yield lambda f=f, g=g: f(g(x, y))
                yield lambda f=f, g=g: g(f(x), y)
                yield lambda f=f, g=g: g(y, f(x))
                for h in UN.values():
                    yield lambda f=f, g=g, h=h: g(f(x), h(y))
        for g in BIN.values():
            for h in BIN.values():
                yield lambda g=g, h=h: g(h(x, y), z)
                yield lambda g=g, h=h: g(z, h(x, y))

    def three():
        bs = ['usub', 'umul', 'udiv', 'upow', 'add'] if q else list(BIN)
        us = ['uneg', 'uinv', 'usq', 'usqrt', 'ursqrt', 'ufact', 'uabs', 'sin', 'ln', 'p32', 'half'] if q else list(UN)
        for f, g, h in itertools.product(bs, bs, bs):
            f, g, h = BIN[f], BIN[g], BIN[h]
            yield lambda f=f, g=g, h=h: f(g(x, y), h(z, a))
            yield lambda f=f, g=g, h=h: f(g(h(x, y), z), a)
            yield lambda f=f, g=g, h=h: f(a, g(z, h(x, y)))
            yield lambda f=f, g=g, h=h: f(g(z, h(x, y)), a)
            yield lambda f=f, g=g, h=h: f(a, g(h(x, y), z))
        for u, f, g in itertools.product(us, bs, bs):
            u, f, g = UN[u], BIN[f], BIN[g]
            yield lambda u=u, f=f, g=g: u(f(g(x, y), z))
            yield lambda u=u, f=f, g=g: u(f(z, g(x, y)))
            yield lambda u=u, f=f, g=g: f(u(g(x, y)), z)
            yield lambda u=u, f=f, g=g: f(z, u(g(x, y)))
        for u, v, f in itertools.product(us, us, bs):
            u, v, f = UN[u], UN[v], BIN[f]
            yield lambda u=u, v=v, f=f: u(v(f(x, y)))
            yield lambda u=u, v=v, f=f: u(f(v(x), y))
            yield lambda u=u, v=v, f=f: u(f(x, v(y)))

    def binders():
        for m in BND.values():
            bodies = [lambda: x, lambda: x + y, lambda: x * y, lambda: y - x, lambda: sp.Mul(-1, x, evaluate=False), lambda: x / (y + 1), lambda: sp.Pow(sp.Pow(x, 2, evaluate=False), y, evaluate=False), lambda: 1 / x, lambda: sp.sqrt(x + 1), lambda: sp.sin(x) / x,
                      lambda: (x + 1) * (x - y), lambda: x ** 2, lambda: sp.Abs(x - 1), lambda: 2 * x, lambda: -x, lambda: sp.factorial(x + 1), lambda: sp.Integer(1), lambda: sp.exp(-x ** 2)]
            for p in bodies:
                yield lambda m=m, p=p: m(p())
                for u in UN.values():
                    yield lambda m=m, p=p, u=u: u(m(p()))
            for f in BIN.values():
                for p in bodies[:5]:
                    yield lambda m=m, p=p, f=f: f(m(p()), z)
                    yield lambda m=m, p=p, f=f: f(z, m(p()))
                for m2 in BND.values():
                    yield lambda m=m, m2=m2, f=f: f(m(x * y), m2(x ** 2 * z))
            for m2 in BND.values():
                yield lambda m=m, m2=m2: m(x * m2(x * y).subs({x: y}) if False else m2(y * 1 + 0 * x) * x)
            yield lambda m=m: sp.Eq(m(x), z, evaluate=False)
        for e in (lambda: sp.Derivative(x ** 2 * y, x, y), lambda: sp.Derivative(x ** 3, (x, 2)), lambda: sp.Derivative(x + y, x) ** 2):
            yield e

    def eqs():
        for p, r in itertools.product((x, x + 1, sp.Mul(2, x, evaluate=False), sp.Integer(3), x ** 2, 1 / x, -x), repeat=2):
            yield lambda p=p, r=r: sp.Eq(p, y + r, evaluate=False)
    return [('one operator', one()), ('two operators', two()), ('three operators', three()), ('binders', binders()), ('equations', eqs())]


def ok(x):
    import sympy as sp
    return isinstance(x, sp.Basic) and not x.has(sp.nan, sp.zoo, sp.I, sp.re, sp.im, sp.arg, sp.core.relational.Relational) or isinstance(x, sp.Eq)


def exprs(it):
    seen = set()
    for f in it:
        try:
            x = f() if callable(f) and not hasattr(f, 'free_symbols') else f
        except (ValueError, TypeError, ZeroDivisionError, RecursionError):
            continue
        if not ok(x):
            continue
        import sympy as sp
        fs = x.atoms(sp.Float)
        if fs and (any(len(str(f).rstrip('0')) > 6 for f in fs) or any(not r.is_Integer for r in x.atoms(sp.Rational))):
            continue                # printed to 15 digits
        r = sp.srepr(x)
        if r in seen or len(r) > 1200:
            continue
        seen.add(r)
        yield x


def chunk(name, xs, n):
    out, k = [], 0
    for x in xs:
        out.append(x)
        if len(out) == n:
            k += 1
            yield f'{name} {k}', out
            out = []
    if out:
        yield f'{name} {k + 1}', out


# ------------------------------------------------------------------ deciding
def sides(x):
    import sympy as sp
    return [x.lhs, x.rhs] if isinstance(x, sp.Eq) else [x]


def allnames(x):
    import sympy as sp
    return sorted({s.name for s in x.atoms(sp.Symbol)} - {'+', '-', '+-'})


def unit(name, items, **kw):
    def read(x):
        a = _ascii.read(show(x))
        return [a[1], a[2]] if a[0] == 'eq' else [a]

    def body():
        from symx.core import Cur, PathAbort
        from symx.values import SymBool
        e = Cur.eng
        k = e.choose(len(items), 'expression')
        x = items[k]
        e.input('k', k)
        import sympy as sp
        e.input('expr', sp.srepr(x))
        B = X.Sym()
        import symx.core, z3
        for v in allnames(x):
            e.input('val ' + v, z3.Real(v))
        try:
            ws = [X.sym(s, B) for s in sides(x)]
        except X.Undefined:
            raise PathAbort('undefined')
        for c in B.dom:
            e.assume(SymBool(c))
        B.collect = False
        t = None
        try:
            t = show(x)
            gs = read(x)
            if len(gs) != len(ws):
                raise X.Bad('not an equation')
            gs = [X.ref(g, B) for g in gs]
        except RecursionError:
            raise
        except Exception as ex:
            e.prove(False, f'{x!r} printed {t}: {type(ex).__name__} {str(ex)[:80]}')
            return 'bad'
        for w, g in zip(ws, gs):
            e.prove(SymBool(B.claim(w, g)), f'{x!r} printed {t}')
        return 'equal'

    def oracle(i):
        import mpmath
        import sympy as sp
        x = items[i['k']]
        t = None
        try:
            t = show(x)
            gs = read(x)
        except Exception as ex:
            return dict(ok=False, got=f'{t}: {type(ex).__name__} {str(ex)[:60]}', want=str(x))
        ws = sides(x)
        if len(gs) != len(ws):
            return dict(ok=False, got=t, want=str(x))
        vs = allnames(x)
        env = {v: i['val ' + v] for v in vs if 'val ' + v in i}
        with mpmath.workdps(40):
            for p in X.points(vs, env):
                for w, g in zip(ws, gs):
                    try:
                        r = X.sym(w, X.Num(p, 'ref'))
                    except (X.Undefined, X.Bad, OverflowError):
                        continue
                    try:
                        s = X.ref(g, X.Num(p, 'code'))
                    except (X.Undefined, OverflowError):
                        continue
                    except X.Bad as ex:
                        return dict(ok=False, got=f'{t}: no value ({ex}) at {X.show(p)}', want=str(x))
                    if abs(r - s) > mpmath.mpf(10) ** -9 * max(1, abs(r)):
                        return dict(ok=False, got=f'{t} = {mpmath.nstr(s, 12)} at {X.show(p)}', want=f'{x} = {mpmath.nstr(r, 12)}')
        return dict(ok=True, got='equal', want=str(x))
    kw.setdefault('secs', 200)
    kw.setdefault('max_paths', 10 ** 6)
    u = Unit(name, body, oracle, compare=lambda a, b: True, **kw)
    u.items, u.get = items, lambda k: oracle(dict(k=k))
    return u


def parsed():
    """what the parser makes of formulas: its unevaluated trees"""
    for a in itertools.chain(c22.pairs(), c22.numerals()):
        t = X.tex(a)[0]
        if '\\mod' in t or '\\binom' in t or '\\choose' in t or 'mathit' in t:
            continue
        yield lambda t=t: X.native().latex2sympy(t)


def units(tier):
    q = tier == 'quick'
    for name, it in shapes(tier) + [('parsed formulas', parsed())]:
        for nm, xs in chunk(name, exprs(it), 250):
            yield unit(nm, xs, every=8 if q else 15)


PROP = Property('C28', lambda tier: list(units(tier)),
                'expressions, evaluated and unevaluated, with every of ten binary and 35 unary operations (powers, reciprocals, roots, factorials, signs, numbers) in every operand position of each other, three operations deep; sums, products, limits, derivatives and integrals of 18 bodies under every operation; the trees the parser builds for 8000 formulas; for all real values of the variables',
                ['AsciiMath is read with the usual precedence (! and ^ bind tightest, then / and *, left to right; sum, prod, lim and d/dx take the product behind them)', 'function values are opaque: equal arguments give equal values', 'sums and integrals over several variables at once, sets, matrices and modulus are not rendered'])
