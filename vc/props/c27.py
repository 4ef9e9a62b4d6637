"""Rendering as LaTeX: each formula is read, evaluated and rendered by the real latex2latex; the rendered text is read again by the real parser,
and the solver proves that what was read has the formula's value for all values of the variables."""
from symx.core import z3
from ..unit import Property
from . import _expr as X, c22, c26


def has(a, pred):
    if isinstance(a, (tuple, list)):
        if isinstance(a, tuple) and a and isinstance(a[0], str) and pred(a):
            return True
        return any(has(x, pred) for x in a)
    return False


def usable(a):
    """real formulas: no imaginary unit, no remainders, no absolute value of an exponential (printed with a real part), no power of an absolute value"""
    if has(a, lambda n: n[0] == 'app' and n[2].startswith('I') or n[0] == 'mul' and 'mod' in n[1] or n[0] == 'app' and n[1] == 'abs' and '\\exp' in X.tex(n)[0]
               or n[0] == 'pow' and n[1][0] == 'app' and n[1][1] == 'abs'):
        return False
    if not X.names(a):
        import mpmath
        with mpmath.workdps(40):
            try:
                return abs(mpmath.im(X.ref(a, X.Num({}, 'ref')))) < 1e-20
            except (X.Undefined, OverflowError):
                return False
    return True


def items(tier):
    from ._expr import tex
    q = tier == 'quick'
    G = [('operator pairs', c22.pairs(), 5), ('numerals', c22.numerals(), 3), ('products', c22.products(), 12), ('signs', c22.signs(), 6), ('functions', c26.plain(), 6), ('operands', c26.around(), 2), ('powers', c26.powers(), 4), ('logarithms', c26.logs(), 2),
         ('exponentials', c26.exps(), 1), ('rounding', c26.rounding(), 2), ('extrema', c26.extrema(), 3)]
    for name, it, step in G:
        it = list({tex(a)[0]: a for a in it if usable(a)}.values())
        yield name, it[::step if q else max(1, step // 3)]


def unit(name, its, every):
    import sympy as sp
    get = lambda t: (lambda m: m.latex2sympy(m.latex2latex(t)))(X.native())

    def body():
        from symx.core import Cur, PathAbort
        from symx.values import SymBool
        e = Cur.eng
        k = e.choose(len(its), 'formula')
        a = its[k]
        t = e.input('tex', X.tex(a)[0])
        e.input('k', k)
        B = X.Sym()
        for v in X.names(a):
            e.input('val ' + v, z3.Real(v))
        try:
            w = X.ref(a, B)
        except X.Undefined:
            raise PathAbort('undefined')
        m = X.native()
        try:
            simple = sp.simplify(m.latex2sympy(t).doit())
        except Exception:
            simple = sp.Symbol('unreadable')
        if simple.has(sp.I, sp.nan, sp.zoo):
            raise PathAbort('not real')
        try:                        # the values where the simplified formula is undefined are left out
            w2 = X.sym(simple, B)
        except Exception:
            w2 = w
        for c in B.dom:
            e.assume(SymBool(c))
        B.collect = False
        try:
            t2 = m.latex2latex(t)
            x = m.latex2sympy(t2)
            g = X.sym(x, B)
        except RecursionError:
            raise
        except Exception as ex:
            e.prove(False, f'{t}: {type(ex).__name__} {str(ex)[:80]}')
            return 'bad'
        # equal to the formula, or to what the library's simplification makes of it
        e.prove(SymBool(z3.Or(B.claim(w, g), B.claim(w2, g))), f'{t} rendered as {t2}, read as {x}')
        return 'equal'

    def oracle(i):
        a = its[i['k']]
        ok, got, want = X.numeric(lambda: get(i['tex']), a, {v: i['val ' + v] for v in X.names(a) if 'val ' + v in i})
        return dict(ok=ok, got=got, want=f'{i["tex"]}: {want}')
    from ..unit import Unit
    u = Unit(name, body, oracle, compare=lambda a, b: True, every=every, secs=300, max_paths=10 ** 6)
    u.items, u.get = its, lambda k: oracle(dict(k=k, tex=X.tex(its[k])[0]))
    return u


def units(tier):
    for name, its in items(tier):
        for j in range(0, len(its), 40):
            yield unit(f'{name} {j // 40 + 1}', its[j:j + 40], 8 if tier == 'quick' else 12)


PROP = Property('C27', lambda tier: list(units(tier)),
                'formulas of C22 (operator pairs, numerals, implicit products, signs) and C26 (functions, operands, powers, logarithms, exponentials, rounding, extrema), thinned to about 3,000 (thorough: about three times as many); for all real values of the variables',
                ['function values are opaque: equal arguments give equal values', "the library's simplify() and doit() keep a formula's value (what was read back may agree with the formula itself or with its simplification)", 'no imaginary unit (nor roots of negative numbers), no remainders, no absolute value of an exponential'])
