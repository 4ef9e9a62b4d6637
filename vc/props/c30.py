"""Alternative ground truths (the element comparison is an arbitrary relation) and the extraction of the last boxed answer
(symbolic text)."""
import os
from ..unit import Property, Unit
from ..spec import tmpl, world, tb
from symx.values import sor, siff, SymBool


def B(x):
    return bool(x)


# ------------------------------------------------------------------ extraction
def ref(s):
    """('none',) no box | ('open',) the last box is not closed | ('box', content)"""
    n, k = len(s), len('\\boxed{')
    at = None
    for i in range(n - k, -1, -1):
        if B(s[i:i + k] == '\\boxed{'):
            at = i + k
            break
    if at is None:
        return ('none',)
    d, i = 1, at
    while i < n:
        c = s[i:i + 1]
        if B(c == '\\'):
            i += 2
            continue
        if B(c == '{'):
            d += 1
        elif B(c == '}'):
            d -= 1
            if d == 0:
                return ('box', s[at:i])
        i += 1
    return ('open',)


def native():
    """the functions of the example script, without running it"""
    import ast
    from symx import loader
    p = os.path.join(loader.REPO, 'example_tora_eval.py')
    ns = {'__name__': 'example_tora_eval'}
    exec(compile(ast.fix_missing_locations(loader.definitions(ast.parse(open(p).read(), p))), p, 'exec'), ns)
    return ns['extract_boxed']


def box_unit(name, t, dom='\\{}a', secs=100):
    def good(r, w):
        if w[0] == 'open':
            return r is None or not isinstance(r, tuple)
        if w[0] == 'none':
            return r is None
        return r is not None and not isinstance(r, tuple) and B(r == w[1])

    def run(f, s):
        try:
            return f(s)
        except Exception as ex:
            return ('raised', type(ex).__name__)

    def body():
        from symx.core import Cur
        e = Cur.eng
        s = e.input('output', tmpl(t, 'o', {'κ': dom, 'β': '\\bx'}))
        r = run(world().get('example_tora_eval').extract_boxed, s)
        e.prove(good(r, ref(s)), 'extraction')
        return r

    def oracle(i):
        r = run(native(), i['output'])
        w = ref(i['output'])
        return dict(ok=good(r, w), got=r, want=w)
    return Unit('box ' + name, body, oracle, compare=lambda x, y: x == y, secs=secs, weight=t.count('κ'), every=4, max_paths=60000)


# ------------------------------------------------------------------ alternatives
PRED = 'the prediction'


def alt_unit(n):
    """n alternatives; n = -1: a single text instead of a list"""
    gts = ['gt' + str(k) for k in range(max(n, 1))] if n else []

    def rel(R):
        return lambda a, b, *x, **k: (R[gts.index(a)] if b == PRED and a in gts else False)

    def run(f, R):
        try:
            return f(gts if n >= 0 else gts[0], PRED)
        except Exception as ex:
            return ('raised', type(ex).__name__)

    def body():
        import z3
        from symx.core import Cur
        e = Cur.eng
        R = e.input('R', [SymBool(z3.Bool(f'R_{k}')) for k in range(len(gts))])
        r = run(world({'demo.is_equiv': rel(R)}).get('demo').is_equiv_MATH, R)
        if isinstance(r, tuple):
            e.prove(False, 'raised')
        else:
            r = tb(r)
            e.prove(siff(r, sor(*R) if R else False), 'accepted exactly when one alternative is')
        return r

    def oracle(i):
        import demo
        old = demo.is_equiv
        try:
            demo.is_equiv = rel(i['R'])
            r = run(demo.is_equiv_MATH, i['R'])
        finally:
            demo.is_equiv = old
        r = r if isinstance(r, tuple) else bool(r)
        return dict(ok=r is any(i['R']), got=r, want=any(i['R']))
    return Unit(f'{n} alternatives' if n >= 0 else 'a single ground truth', body, oracle, compare=lambda x, y: bool(x) == y, secs=60)


def text_unit(gts, pred, dom):
    """alternatives and prediction are symbolic texts; the comparison is an arbitrary relation of (trimmed) texts that holds for equal texts"""
    n = len(gts)

    def rel(G, P, R):
        def f(a, b, *x, **k):
            a, b = a.strip(), b.strip()
            if not B(b == P.strip()):
                return False
            for g, r in zip(G, R):
                if B(g.strip() == a):
                    return r
            return False
        return f

    def run(f, G, P):
        try:
            return f(list(G), P)
        except Exception as ex:
            return ('raised', type(ex).__name__)

    def body():
        import z3
        from symx.core import Cur
        e = Cur.eng
        G = e.input('G', [tmpl(t, f'g{k}_', {'κ': dom}) for k, t in enumerate(gts)])
        P = e.input('P', tmpl(pred, 'p', {'κ': dom}))
        R = e.input('R', [SymBool(z3.Bool(f'R_{k}')) for k in range(n)])
        for i in range(n):
            if B(G[i].strip() == P.strip()):
                e.assume(R[i])
            for j in range(i):
                if B(G[i].strip() == G[j].strip()):
                    e.assume(siff(R[i], R[j]))
        r = run(world({'demo.is_equiv': rel(G, P, R)}).get('demo').is_equiv_MATH, G, P)
        if isinstance(r, tuple):
            e.prove(False, 'raised')
        else:
            r = tb(r)
            e.prove(siff(r, sor(*R)), 'accepted exactly when one alternative is')
        return r

    def oracle(i):
        import demo
        old = demo.is_equiv
        try:
            demo.is_equiv = rel(i['G'], i['P'], i['R'])
            r = run(demo.is_equiv_MATH, i['G'], i['P'])
        finally:
            demo.is_equiv = old
        r = r if isinstance(r, tuple) else bool(r)
        return dict(ok=r is any(i['R']), got=r, want=any(i['R']))
    return Unit(f'texts {gts} {pred}', body, oracle, compare=lambda x, y: bool(x) == y, secs=100, max_paths=50000, every=4)


def real_unit(name, alts, pred):
    """number alternatives through the whole pipeline; k-th alternative is accepted iff within tolerance"""
    from ..spec import value, accept, boundary
    from symx.values import snot

    def body():
        from symx.core import Cur
        e = Cur.eng
        gs = e.input('g', [tmpl(t, f'g{k}') for k, t in enumerate(alts)])
        p = e.input('p', tmpl(pred, 'p'))
        for g in gs:
            e.assume(snot(boundary(value(g), value(p))))
        r = tb(world().get('demo').is_equiv_MATH(gs, p))
        e.prove(siff(r, sor(*[accept(value(g), value(p)) for g in gs])), name)
        return r

    def oracle(i):
        import demo
        w = any(bool(accept(value(g), value(i['p']))) for g in i['g'])
        try:
            r = bool(demo.is_equiv_MATH(i['g'], i['p']))
        except Exception as ex:
            r = 'raised ' + type(ex).__name__
        return dict(ok=r is w, got=r, want=w)
    return Unit(name, body, oracle, compare=lambda x, y: bool(x) == y, secs=100, weight=12, every=3)


def units(tier):
    q = tier == 'quick'
    K = lambda n: 'κ' * n
    for n in range(6 if q else 8):
        yield box_unit(f'content {n}', '\\boxed{' + K(n) + '}')
    yield box_unit('prefix and content', K(2) + '\\boxed{' + K(4) + '}' + K(2))
    yield box_unit('two boxes', '\\boxed{' + K(2) + '}' + K(1) + '\\boxed{' + K(3) + '}')
    yield box_unit('nested boxes', '\\boxed{' + K(2) + '\\boxed{' + K(2) + '}' + K(2))
    yield box_unit('fraction', 'so $\\boxed{\\frac{' + K(2) + '}{' + K(2) + '}}$.')
    yield box_unit('latex set', '\\boxed{\\{' + K(4) + '\\}}' + K(1))
    yield box_unit('word before the brace', '\\' + 'βoβed{' + K(3) + '}', 'a{}')
    yield box_unit('no box', K(6))
    yield box_unit('newlines', 'κκ\\boxed{κκκκ}κ', '\\\n{}')
    if not q:
        yield box_unit('long content', '\\boxed{' + K(9), secs=900)
        yield box_unit('three boxes', '\\boxed{κκ}\\boxed{κκκ}κ\\boxed{κκκ}', secs=900)
    for n in (-1, 0, 1, 2, 3, 4, 5):
        yield alt_unit(n)
    D = '([{,1x \\-'
    yield text_unit(['κκ', 'κκ'], 'κκ', D)
    yield text_unit(['(κ', 'κκ', 'κ'], '(κ', D)
    yield text_unit(['\\frac{κ}', '[κ,κ', ''], '\\κ', D)
    yield text_unit(['κκ\\text{m}', '$κ'], 'κκκ', D)
    yield text_unit(['x=κ', 'κ'], 'x=κ', D)
    yield text_unit(['κ', 'κ', 'κ', 'κ'], 'κ', '(a1')
    if not q:
        yield text_unit(['κκκ', 'κκκ'], 'κκκ', D)
    yield real_unit('numbers', ['#.5', '¹', '-#'], '¹.#')


PROP = Property('C30', lambda tier: list(units(tier)),
                'outputs with up to 8 (thorough 9) free characters over backslash, braces, a letter, newline around one to three boxes; up to 5 alternatives with an arbitrary relation to the prediction',
                ['an output whose last box is never closed may give nothing or any text', 'only the definitions of example_tora_eval.py are taken; its data loop is not run'])
