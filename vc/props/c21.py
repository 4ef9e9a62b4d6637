"""The readings added by an answer type. Elements are opaque names whose equivalence is an arbitrary relation (one Boolean per pair);
Complex: numbers with symbolic digits. Required: accepted exactly when the type's reading or the untyped one accepts."""
import itertools
from ..unit import Property, Unit
from ..spec import world, Memo, tmpl, tb, boundary
from .c02 import nat, patched, is_bool, E, N
from .c12 import render, leaves, want, WRAP
from .c20 import T, types_of
from ._rel import AnyRel, recall
from . import c17
from symx.values import sand, sor, snot, siff, simplies

G, V = ['p', 'q', 'r', 's'], ['u', 'v', 'w', 'z']
WRAP = dict(WRAP, single='%s')


def reading(shape, kind):
    """shape with its outermost brackets replaced"""
    return (kind, shape[1])


class Leaf:
    def __init__(self, rel, gn, vn):
        self.rel, self.gn, self.vn = rel, gn, vn

    def __getitem__(self, i):
        return Row(self, i)


class Row:
    def __init__(self, l, i): self.l, self.i = l, i
    def __getitem__(self, j): return self.l.rel.at(self.l.gn[self.i], self.l.vn[j])


def required(a, b, ty, R):
    k = {'Vector': 'list', 'Set': 'set'}[ty]
    if len(a[1]) == 1 and len(b[1]) == 1:
        return want(a[1][0], b[1][0], R)
    if len(a[1]) == 1 or len(b[1]) == 1:
        return False
    return want(reading(a, k), reading(b, k), R)


def coll_unit(a, b, ty, typetext, **kw):
    gt, gv = render(a, G), render(b, V)
    gn, vn = G[:len(leaves(a))], V[:len(leaves(b))]

    def body():
        from symx.core import Cur
        e = Cur.eng
        rel = AnyRel()
        e.input('gt', gt), e.input('gv', gv)
        w = world({E + '.are_equal_under_sympy': rel, N + '.string_normalize': Memo(), N + '._str_to_interval': Memo()})
        r, bad = types_of(w.get(T), gt, gv, typetext)
        u, ubad = nat(lambda: tb(w.get(E).is_equiv(gt, gv)))
        e.prove(False if bad else siff(r, sor(required(a, b, ty, Leaf(rel, gn, vn)), u)), f'{gt} against {gv} as {typetext}: {bad or r}')
        return bad or bool(r)

    def oracle(i):
        import math_evaluation.core.evaluations as ev, math_evaluation.core.type_evaluations as te
        rel = recall(i)
        with patched(ev, {'are_equal_under_sympy': rel}):
            r, bad = types_of(te, gt, gv, typetext)
            u, ubad = nat(lambda: bool(ev.is_equiv(gt, gv)))
        w = bool(required(a, b, ty, Leaf(rel, gn, vn))) or u is True
        return dict(ok=bad is None and bool(r) is w, got=bad or bool(r), want=f'{w} (untyped {ubad or u}) for element relation {rel.known}')
    return Unit(f'{gt} ~ {gv} as {typetext}', body, oracle, compare=lambda x, y: x == y, **kw)


LHS = ['', 'f(x)=', 'y=', 'g(t)=', 'f^{-1}(x)=', 'z = ', 'h(x,y)=', 'F_1(x)=', 'f\'(x)=', 'T_n=', 'S(n) = ', '\\rho=', 'v_0=']


def fun_unit(lhs, rhs, typetext, **kw):
    """lhs: pairs of left sides; rhs: pairs of right sides"""
    def body():
        from symx.core import Cur
        e = Cur.eng
        rel = AnyRel()
        l1, l2 = lhs[e.choose(len(lhs), 'l')]
        r1, r2 = rhs[e.choose(len(rhs), 'r')]
        e.input('r1', r1), e.input('r2', r2)
        gt, gv = e.input('gt', l1 + r1), e.input('gv', l2 + r2)
        w = world({E + '.are_equal_under_sympy': rel, N + '.string_normalize': Memo(), N + '._str_to_interval': Memo()})
        r, bad = types_of(w.get(T), gt, gv, typetext)
        u, ubad = nat(lambda: tb(w.get(E).is_equiv(gt, gv)))
        c, cbad = nat(lambda: tb(w.get(E).is_equiv(r1, r2)))
        e.prove(False if bad else siff(r, sor(u, c)), f'{gt} against {gv} as {typetext}: {bad or r}')
        return bad or bool(r)

    def oracle(i):
        import math_evaluation.core.evaluations as ev, math_evaluation.core.type_evaluations as te
        rel = recall(i)
        with patched(ev, {'are_equal_under_sympy': rel}):
            r, bad = types_of(te, i['gt'], i['gv'], typetext)
            u = ev.is_equiv(i['gt'], i['gv'])
            c = ev.is_equiv(i['r1'], i['r2'])
        w = bool(u) or bool(c)
        return dict(ok=bad is None and bool(r) is w, got=bad or bool(r), want=f'{w}: untyped {u}, right-hand sides {c}; algebra {rel.known}')
    return Unit(f'function, left sides {lhs[0]}.. as {typetext}', body, oracle, compare=lambda x, y: x == y, **kw)


def complex_unit(tgt, tgv, typetext='Complex', **kw):
    def go(te, ev, gt, gv):
        r, bad = types_of(te, gt, gv, typetext)
        u, ubad = nat(lambda: ev.is_equiv(gt, gv))
        return r, bad, (False if ubad else tb(u))

    def body():
        from symx.core import Cur
        e = Cur.eng
        gt, gv = e.input('gt', tmpl(tgt, 'g', c17.D)), e.input('gv', tmpl(tgv, 'v', c17.D))
        for c in c17.pre(gt, gv):
            e.assume(c)
        w = world()
        r, bad, u = go(w.get(T), w.get(E), gt, gv)
        e.prove(False if bad else siff(tb(r), sor(c17.spec(gt, gv), u)), f'{tgt} against {tgv} as {typetext}: {bad or r}')
        return bad or bool(r)

    def oracle(i):
        import math_evaluation.core.evaluations as ev, math_evaluation.core.type_evaluations as te
        r, bad, u = go(te, ev, i['gt'], i['gv'])
        w = bool(c17.spec(i['gt'], i['gv'])) or u
        return dict(ok=bad is None and bool(r) is bool(w), got=bad or bool(r), want=f'{bool(w)}, untyped {u}')
    return Unit(f'{tgt} ~ {tgv} as {typetext}', body, oracle, compare=lambda x, y: x == y, **kw)


def units(tier):
    q = tier == 'quick'
    S = dict(secs=150 if q else 700, max_paths=80000, every=4 if q else 2)
    shape = lambda w, n: (w, list(range(n)))
    ws = ['tuple', 'list', 'set', 'braces', 'latex set', 'left'] if not q else ['tuple', 'list', 'set', 'latex set']
    for ty in ('Vector', 'Set'):
        for x, y in itertools.product(ws, ws):
            for n, m in ((2, 2), (3, 3), (2, 3)) if q else ((2, 2), (3, 3), (2, 3), (3, 2), (4, 4)):
                yield coll_unit(shape(x, n), shape(y, m), ty, ty, weight=n ** m, **S)
        for x, y in itertools.product(['tuple', 'list', 'set'], ['set', 'braces']):
            yield coll_unit(shape(x, 1), shape(y, 1), ty, ty, **S)
            yield coll_unit(shape(x, 2), shape(y, 1), ty, ty, **S)
        P = lambda w, *xs: (w, list(xs))
        pr = P('tuple', 0, 1), P('tuple', 2, 3)
        for x, y in itertools.product(['list', 'set', 'latex set'], ['tuple', 'list', 'set']):
            yield coll_unit(P(x, *pr), P(y, *pr), ty, ty, weight=20, **S)
        yield coll_unit(P('set', P('list', 0, 1), P('list', 2, 3)), P('tuple', P('list', 0, 1), P('list', 2, 3)), ty, ty, weight=20, **S)
        yield coll_unit(P('set', P('list', 0, 1), 2), P('list', P('list', 0, 1), 2), ty, ty, weight=20, **S)
        for t in (f'{ty} of numbers', f'a {ty}'):
            yield coll_unit(shape('tuple', 2), shape('set', 2), ty, t, **S)
    rhs = [('p', 'u'), ('p+q', 'u'), ('x^2', '(u)'), ('(p,q)', '(u,v)'), ('\\frac{p}{q}', 'u')]
    for l1 in LHS:
        yield fun_unit([(l1, l2) for l2 in (LHS if not q else LHS[:6])] + [(l2, l1) for l2 in LHS[6:]], rhs if not q else rhs[:4], 'Function', weight=30, **S)
    yield fun_unit([('', 'f(x)=')], rhs, 'Function of x', **S)
    C = c17.Q if q else c17.T
    for p in C:
        a, b = p.split('~')
        if 'I' in a + b:
            continue
        yield complex_unit(a, b, weight=25, **dict(S, every=10))
    for a, b in [('¹+¹i', '¹ + ¹ i'), ('¹-i', '¹ - i'), ('i', '¹i'), ('-i', '-¹.0i'), ('¹ + ¹ i', '¹+¹i')]:
        yield complex_unit(a, b, weight=10, **dict(S, every=10))


PROP = Property('C21', lambda tier: list(units(tier)),
                'Vector and Set: up to 3 (thorough 4) elements a side in every pair of outer brackets, one level of nesting, every relation between the elements; Function: 13 left sides on either side; Complex: numbers of up to 2 digits and 2 decimals with every digit',
                ['elements are opaque names; a single bracketed element is the element'])
