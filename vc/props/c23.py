"""Numeric literals: texts with symbolic digits go through the real lexer, parser and converter (executed symbolically); the number the
literal denotes, computed here from its digits, must be found, exactly, in every context. \\variable{name}: the value supplied is a
variable of the solver, in every formula shape of C22."""
from fractions import Fraction
from ..unit import Property, Unit
from ..spec import world, tmpl, dec, dint, shape, nonzero
from . import c22
from ._expr import formula_unit, native
import symx.core
from symx.values import sand, SymReal

F = Fraction

# literal templates; '#' any digit, '¹' a non-zero digit
QL = ['#', '##', '#.#', '.##', '##.###', '#,###', '##,###.##', '#,###,###', '#\\%', '#.#\\%', '#,###\\%', '#E#', '#.#E-#', '.#E+#', '##################', '#.################', '¹¹.##########\\%', '#,###,###,###,###,###,###.#', '##E-1¹', '#E1¹', '##################E#', '#.################E-#', '##,###.#E#']
TL = QL + ['####', '###.####', '###,###', '##,###', '#.######', '.#######', '##.##E1¹', '#,###.#E-#', '###E+#', '.####\\%', '##################.##################', '###################\\%', '#################E-#', '.###############E#']


def lit(s):
    """the number a literal denotes"""
    sh = shape(s)
    if sh.endswith('\\%'):
        return dec(s[:-2]) / 100
    i = sh.find('E')
    if i < 0:
        return dec(s)
    e = s[i + 1:]
    neg = shape(e)[:1] == '-'
    if shape(e)[:1] in '+-':
        e = e[1:]
    k = dint(e)
    if not isinstance(k, (int, F)):
        k = int(k.__trunc__() if hasattr(k, '__trunc__') else k)
    k = int(k)
    return dec(s[:i]) * (F(10) ** (-k if neg else k))


# contexts: text with %s for the literals; expected value from the literals and the variables
CTX = [
    ('%s', lambda n, v: n), ('-%s', lambda n, v: -n), ('x+%s', lambda n, v: v('x') + n), ('%s-x', lambda n, v: n - v('x')), ('%sx', lambda n, v: n * v('x')),
    ('x\\cdot %s', lambda n, v: n * v('x')), ('\\frac{%s}{x}', None), ('\\frac{x}{4}+%s', lambda n, v: v('x') * F(1, 4) + n), ('(%s)', lambda n, v: n), ('2\\left[%s+y\\right]', lambda n, v: n * 2 + v('y') * 2),
    ('\\frac{%s}{8}', lambda n, v: n * F(1, 8)), ('%s\\times y z', lambda n, v: n * v('y') * v('z')), ('{%s}', lambda n, v: n), ('x^2-%s', lambda n, v: v('x') * v('x') - n), ('%s/5', lambda n, v: n * F(1, 5)),
    ('x-(-%s)', lambda n, v: v('x') + n), ('--%s', lambda n, v: n),
]
CTX = [c for c in CTX if c[1]]
TWO = [('%s+%s', lambda a, b: a + b), ('%s\\times %s', lambda a, b: a * b), ('x\\cdot %s-%s', None), ('%s-%s', lambda a, b: a - b)]
TWO = [c for c in TWO if c[1]]
FR = [('\\frac##', lambda s: (dint(s[5:6]), dint(s[6:7]))), ('\\frac#{##}', lambda s: (dint(s[5:6]), dint(s[7:9]))), ('\\frac{##}#', lambda s: (dint(s[6:8]), dint(s[9:10]))), ('\\frac{#.#}{#.#}', lambda s: (dec(s[6:9]), dec(s[11:14]))),
      ('\\frac{#,###}{##}', lambda s: (dec(s[6:11]), dint(s[13:15]))), ('##/##', lambda s: (dint(s[:2]), dint(s[3:5]))), ('\\frac{##\\%%}{##}', None), ('\\frac{##}{##\\%}', lambda s: (dint(s[6:8]), dint(s[10:12]) / 100))]
FR = [c for c in FR if c[1]]


def fill(t, ls):
    """concrete/symbolic context text"""
    from ..spec import cat
    ps = t.split('%s')
    r = ps[0]
    for p, l in zip(ps[1:], ls):
        r = cat(cat(r, l), p)
    return r


def parse_sym(text, exact=True):
    return world().get('latex2sympy.latex2sympy2').latex2sympy(text)


def same(e, got, want, msg):
    """coefficient by coefficient, exactly"""
    from symx.zsympy import Z
    g, w = Z.of(got), Z.of(want)
    if g.kind == 'float':
        # a floating point number is only the literal's number when it is a short binary fraction
        d = SymReal.of(g.cv) * 8 if not isinstance(g.cv, F) else g.cv * 8
        e.prove(d.is_integer() if isinstance(d, SymReal) else d.denominator == 1, msg + ' (a float)')
    ms = set(g.t) | set(w.t)
    for m in sorted(ms, key=str):
        e.prove(g.t.get(m, F(0)) == w.t.get(m, F(0)), msg)
    return 'exact'


def lit_unit(t, ctx, two=None):
    name = f'{t} in {ctx[0]}' + (f' and {two}' if two else '')

    def want(ls, v):
        return ctx[1](*ls) if two else ctx[1](ls[0], v)

    def body():
        from symx.core import Cur
        from symx.zsympy import Z, S
        e = Cur.eng
        ls = [tmpl(t, 'a')] + ([tmpl(two, 'b')] if two else [])
        for i, l in enumerate(ls):
            e.input(f'l{i}', l)
        got = parse_sym(fill(ctx[0], ls))
        zs = [Z.const(lit(l)) for l in ls]
        return same(e, got, want(zs, lambda n: Z.of(S.Symbol(n))), name)

    def oracle(i):
        ls = [i['l0']] + ([i['l1']] if two else [])
        return exact(fill(ctx[0], ls), lambda: want([lit(l) for l in ls], lambda n: Pol({((n, 1),): F(1)})))
    return Unit(name, body, oracle, compare=lambda a, b: True, secs=120, every=2, weight=len(t))


def frac_unit(t, f):
    def body():
        from symx.core import Cur
        from symx.zsympy import Z
        e = Cur.eng
        s = e.input('l0', tmpl(t, 'a'))
        p, q = f(s)
        e.assume(nonzero(q))
        got = parse_sym(s)
        g = Z.of(got)
        e.prove(g.kind != 'float', t + ' is a float')
        r = g.cv
        e.prove(sand(set(g.t) <= {()}, r * q == p), t)
        return 'exact'

    def oracle(i):
        def want():
            p, q = f(i['l0'])
            return p / q
        return exact(i['l0'], want)
    return Unit(t, body, oracle, compare=lambda a, b: True, secs=120, every=2, weight=len(t))


class Pol:
    """polynomial with exact coefficients (oracle side)"""
    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}

    @staticmethod
    def of(x):
        return x if isinstance(x, Pol) else Pol({(): F(x)})

    def __add__(self, o):
        t = dict(self.t)
        for m, c in Pol.of(o).t.items():
            t[m] = t.get(m, 0) + c
        return Pol(t)
    __radd__ = __add__

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for n, d in Pol.of(o).t.items():
                k = {}
                for s, p in m + n:
                    k[s] = k.get(s, 0) + p
                k = tuple(sorted(k.items()))
                t[k] = t.get(k, 0) + c * d
        return Pol(t)
    __rmul__ = __mul__
    def __neg__(self): return self * -1
    def __sub__(self, o): return self + Pol.of(o) * -1
    def __rsub__(self, o): return Pol.of(o) + self * -1


def exactq(x):
    """sympy expression -> Pol, floats by their exact binary value"""
    import sympy as sp
    if isinstance(x, (int, F)):
        return Pol.of(x)
    if x.is_Float:
        s, m, ex, _ = x._mpf_
        return Pol.of(F(-int(m) if s else int(m)) * F(2) ** int(ex))
    if x.is_Rational:
        return Pol.of(F(int(x.p), int(x.q)))
    if x.is_Symbol:
        return Pol({((x.name, 1),): F(1)})
    if x.is_Add or x.is_Mul:
        r = Pol.of(0 if x.is_Add else 1)
        for a in x.args:
            r = r + exactq(a) if x.is_Add else r * exactq(a)
        return r
    if x.is_Pow:
        b, k = exactq(x.base), exactq(x.exp).t.get((), F(0))
        if k.denominator == 1 and k > 0 and k < 10:
            r = Pol.of(1)
            for _ in range(int(k)):
                r = r * b
            return r
        if set(b.t) <= {()} and k.denominator == 1:
            return Pol.of(b.t[()] ** int(k))
    raise ValueError(str(x))


def exact(text, want):
    w = Pol.of(want())
    try:
        x = native().latex2sympy(text)
        g = exactq(x)
    except RecursionError:
        raise
    except Exception as ex:
        return dict(ok=False, got=f'{type(ex).__name__} {ex}'[:90], want=f'{text} = {w.t}')
    return dict(ok=g.t == w.t, got=str(x) if g.t != w.t else 'exact', want='exact' if g.t == w.t else f'{text} = ' + str({m: str(c) for m, c in w.t.items()}))


# ---------------------------------------------------------------- \variable
def swap(a, f):
    """rename leaves"""
    if isinstance(a, tuple):
        if a and a[0] == 'var':
            return f(a)
        return tuple(swap(x, f) for x in a)
    if isinstance(a, list):
        return [swap(x, f) for x in a]
    return a


VN = {'a': 'a', 'b': 'x_1', 'c': 'width', 'x': '\\alpha_{12}', 'y': 'ab3', 'z': 'T', 'n': 'count'}


def variables(pct):
    def f(a):
        return ('pv', '\\variable{%s}\\%%' % VN[a[2]], a[2]) if a[2] in pct else ('var', '\\variable{%s}' % VN[a[2]], a[2])
    return f


def supplied():
    import sympy as sp
    return {v: sp.Symbol(k) for k, v in VN.items()}


def var_units(tier):
    from ._expr import tex
    q = tier == 'quick'
    items, seen = [], set()
    src = list(c22.pairs()) + ([] if q else list(c22.chains(['+', '-', '*', '/', 'imul', '\\mod'], 2)))
    for a in src:
        for pct in ((), ('a',), ('b', 'c')):
            b = swap(a, variables(pct))
            t = tex(b)[0]
            if t not in seen:
                seen.add(t)
                items.append(b)
    get = lambda t: native().latex2sympy(t, supplied())
    for k in range(0, len(items), 150):
        yield formula_unit(f'variables {k // 150 + 1}', items[k:k + 150], parse=get, every=8 if q else 15)


# values of other kinds: number texts with symbolic digits
def supply_unit(kind, t, ctx):
    name = f'variable = {kind} {t} in {ctx[0]}'

    def text(s):
        return fill(ctx[0], [s])

    def val(l):
        return lit(l)

    def body():
        from symx.core import Cur
        from symx.zsympy import Z, S
        e = Cur.eng
        p = e.choose(2, 'percent')
        e.input('p', p)
        l = e.input('l0', tmpl(t, 'a'))
        v = l if kind == 'text' else int_of(l)
        got = world().get('latex2sympy.latex2sympy2').latex2sympy(text('\\variable{v}' + ('\\%' if p else '')), {'v': v})
        z = Z.const(val(l))
        if p:
            z = z * F(1, 100)
        w = ctx[1](z, lambda n: Z.of(S.Symbol(n)))
        g = Z.of(got)
        ms = set(g.t) | set(w.t)
        for m in sorted(ms, key=str):
            e.prove(g.t.get(m, F(0)) == Z.of(w).t.get(m, F(0)), name)
        return 'exact'

    def oracle(i):
        l = i['l0']
        v = l if kind == 'text' else int(l)
        w = Pol.of(ctx[1](lit(l) / 100 if i['p'] else lit(l), lambda n: Pol({((n, 1),): F(1)})))
        t = text('\\variable{v}' + ('\\%' if i['p'] else ''))
        try:
            x = native().latex2sympy(t, {'v': v})
            g = exactq(x)
        except Exception as ex:
            return dict(ok=False, got=f'{type(ex).__name__} {ex}'[:90], want=f'{t} = {w.t}')
        ok = set(g.t) == set(w.t) and all(abs(g.t[m] - w.t[m]) <= abs(w.t[m]) / 10 ** 12 for m in w.t)
        return dict(ok=ok, got='exact' if ok else str(x), want='exact' if ok else f'{t} with v={v}: ' + str({m: str(c) for m, c in w.t.items()}))
    return Unit(name, body, oracle, compare=lambda a, b: True, secs=120, every=2)


def int_of(l):
    from symx import loader
    return loader.int_of(l)


def units(tier):
    q = tier == 'quick'
    for t in (QL if q else TL):
        for c in (CTX if not q or t in ('#.#', '#,###', '#\\%', '#.#E-#') else CTX[:1] + CTX[2:3] + CTX[4:5]):
            yield lit_unit(t, c)
    L2 = ['#.#', '#,###', '.#', '#\\%', '#E#'] if q else ['#.#', '#,###', '.#', '#\\%', '#E#', '#,###.#\\%', '##']
    for a in L2:
        for b in L2:
            for c in (TWO[:1] if q else TWO):
                yield lit_unit(a, c, b)
    for t, f in FR:
        yield frac_unit(t, f)
    for kind, t in (('int', '¹'), ('int', '¹##'), ('text', '¹#'), ('text', '#.#'), ('text', '¹#.##')):
        for c in (CTX[:5] if q else CTX):
            yield supply_unit(kind, t, c)
    yield from var_units(tier)


PROP = Property('C23', lambda tier: list(units(tier)),
                'literals of up to 19 integer digits, 3 digit groups more, 16 decimals (thorough 36 digits), signed exponents of one or two digits and percent signs, all digits symbolic, alone and in 16 contexts, pairs of literals, digit fractions; \\variable{name} and \\variable{name}\\% in every operand position of every operator pair of C22 with the value a solver variable, and integer/text values with symbolic digits',
                ['the lexer cannot tell digits apart (computed from its automaton), so one representative text per shape covers all digits', 'a text or float value is substituted up to floating point (1e-12)'])
