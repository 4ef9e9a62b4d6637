"""Collections. The element comparison is replaced by an arbitrary relation (one Boolean solver variable per pair of elements);
set iteration order is an arbitrary permutation. Oracle: the real code with that relation patched in, under many listings."""
import itertools
import random
from .. import unit as U
from ..unit import Property, Unit
from ..spec import world, tb, Memo
from symx.values import sand, sor, snot, siff, SymBool

G, V = ['p', 'q', 'r', 's', 't2'], ['u', 'v', 'w', 'z', 'k2']
WRAP = {'list': '[%s]', 'tuple': '(%s)', 'set': '%s', 'braces': '{%s}', 'latex set': '\\{%s\\}', 'left': '\\left(%s\\right)', 'spaced': '[ %s ]'}
KIND = {'list': 'list', 'spaced': 'list', 'tuple': 'tuple', 'left': 'tuple', 'set': 'set', 'braces': 'set', 'latex set': 'set'}


def render(shape, names):
    """shape: (wrap, [n or shape...]) with leaves numbered"""
    w, xs = shape
    return WRAP[w] % ', '.join(names[x] if isinstance(x, int) else render(x, names) for x in xs)


def leaves(shape):
    return [y for x in shape[1] for y in ([x] if isinstance(x, int) else leaves(x))]


def want(a, b, R):
    """required verdict for two shapes and the relation R[i][j] on their leaves"""
    if isinstance(a, int) and isinstance(b, int):
        return R[a][b]
    if isinstance(a, int) or isinstance(b, int):
        return False
    if KIND[a[0]] != KIND[b[0]] or len(a[1]) != len(b[1]):
        return False
    if KIND[a[0]] != 'set':
        return sand(*[want(x, y, R) for x, y in zip(a[1], b[1])])
    return sor(*[sand(*[want(x, b[1][j], R) for x, j in zip(a[1], p)]) for p in itertools.permutations(range(len(b[1])))])


class Rel:
    def __init__(self, R, gn, vn):
        self.R, self.gn, self.vn = R, gn, vn

    def __call__(self, gt, gv, verbose=False):
        if gt in self.gn and gv in self.vn:
            return self.R[self.gn.index(gt)][self.vn.index(gv)]
        return False


def build(a, b, perm, shared=None):
    def body():
        import z3
        from symx.core import Cur
        from symx import sstr
        e = Cur.eng
        n, m = len(leaves(a)), len(leaves(b))
        R = [[SymBool(z3.Bool(f'R_{i}_{j}')) for j in range(m)] for i in range(n)]
        e.input('R', R)
        gn, vn = shared or (G[:n], V[:m])
        if shared:              # one name on both sides is one element
            for i in range(n):
                for j in range(m):
                    if gn[i] == vn[j]:
                        e.assume(R[i][j])
        gt, gv = render(a, gn), render(b, vn)
        e.input('gt', gt), e.input('gv', gv)
        sstr.SymSet.permute = perm
        try:
            w = world({'math_evaluation.core.evaluations.are_equal_under_sympy': Rel(R, gn, vn),
                       'math_evaluation.core.latex_normalize.string_normalize': Memo(),
                       'math_evaluation.core.latex_normalize._str_to_interval': Memo()})
            r = tb(w.get('math_evaluation.core.evaluations').is_equiv(gt, gv))
        finally:
            sstr.SymSet.permute = False
        e.prove(siff(r, want(a, b, R)), f'{gt} against {gv}')
        return r
    return body


NAMES = None


def pools():
    """name pools for the replay: the real hash order is whatever it is, so many are tried"""
    global NAMES
    if NAMES is None:
        rnd = random.Random(7)
        base = [c + d for c in 'pqrsuvwz' for d in ('', '1', '2', '3', '4', '5', '6', '7')]
        NAMES = [(G, V)]
        for _ in range(60):
            x = rnd.sample(base, 10)
            NAMES.append((x[:5], x[5:]))
    return NAMES


def oracle_for(a, b, shared=None):
    def oracle(i):
        import math_evaluation.core.evaluations as ev
        R = i['R']
        n, m = len(leaves(a)), len(leaves(b))
        w = bool(want(a, b, R))
        real = ev.are_equal_under_sympy
        try:
            for gn, vn in [shared] if shared else pools()[:2 if U.LIGHT else None]:
                gn, vn = gn[:n], vn[:m]
                ev.are_equal_under_sympy = Rel(R, gn, vn)
                gt, gv = render(a, gn), render(b, vn)
                try:
                    r = bool(ev.is_equiv(gt, gv))
                except Exception as ex:
                    r = 'raised ' + type(ex).__name__
                if r is not w:
                    return dict(ok=False, got=r, want=f'{w} for {gt} against {gv} with element relation {R}')
        finally:
            ev.are_equal_under_sympy = real
        return dict(ok=True, got=w, want=w)
    return oracle


def cases(tier):
    N = lambda w, k: (w, list(range(k)))
    for w in ('list', 'tuple', 'set', 'braces', 'latex set', 'left', 'spaced'):
        for k in (2, 3):
            yield N(w, k), N(w, k), KIND[w] == 'set' and k == 2
    yield N('set', 3), N('set', 3), tier != 'quick'
    yield N('list', 4), N('list', 4), False
    yield N('set', 4), N('set', 4), False
    for w in ('list', 'tuple', 'set'):
        for j, k in ((2, 3), (3, 2), (1, 2), (2, 1), (3, 4)):
            yield N(w, j), N(w, k), False
    for x, y in (('list', 'tuple'), ('tuple', 'list'), ('set', 'list'), ('list', 'set'), ('tuple', 'set'), ('set', 'tuple'), ('braces', 'tuple'), ('latex set', 'list'), ('set', 'braces'), ('braces', 'latex set'), ('list', 'spaced'), ('left', 'tuple')):
        for k in (2, 3):
            yield N(x, k), N(y, k), False
    T = lambda *xs: ('tuple', list(xs))
    L = lambda *xs: ('list', list(xs))
    S = lambda *xs: ('set', list(xs))
    yield S(T(0, 1), T(2, 3)), S(T(0, 1), T(2, 3)), False
    yield L(T(0, 1), T(2, 3)), L(T(0, 1), T(2, 3)), False
    yield L(0, T(1, 2)), L(0, T(1, 2)), False
    yield S(0, T(1, 2)), S(T(0, 1), 2), False
    yield T(L(0, 1), 2), T(L(0, 1), 2), False
    yield S(T(0, 1), L(2, 3)), S(L(0, 1), T(2, 3)), False
    yield L(T(0, 1), T(2, 3)), L(T(0, 1, 2), T(3)), False
    for x, y in (('list', 'tuple'), ('tuple', 'list'), ('set', 'list'), ('list', 'set'), ('tuple', 'set'), ('set', 'tuple'), ('braces', 'tuple'), ('list', 'latex set'), ('left', 'spaced')):
        for k in (4, 5):
            yield N(x, k), N(y, k), False
    for w in ('list', 'tuple', 'set', 'latex set'):
        yield N(w, 5), N(w, 4), False
        yield N(w, 2), N(w, 5), False
    yield N('list', 5), N('list', 5), False
    yield N('tuple', 5), N('left', 5), False
    for x, y in (('list', 'list'), ('tuple', 'tuple'), ('set', 'set'), ('list', 'tuple'), ('set', 'tuple'), ('latex set', 'list')):
        yield N(x, 2), N(y, 2), False, (['p', 'q'], ['q', 'p'])
        yield N(x, 2), N(y, 2), False, (['p', 'q'], ['p', 'u'])
        yield N(x, 3), N(y, 3), False, (['p', 'q', 'r'], ['q', 'r', 'p'])
        yield N(x, 3), N(y, 3), False, (['p', 'q', 'r'], ['p', 'u', 'r'])
    for x, y in (('list', 'tuple'), ('tuple', 'list'), ('set', 'list'), ('tuple', 'set')):
        yield N(x, 3), N(y, 3), False, (['p', 'q', 'r'], ['p', 'q', 'r'])
        yield N(x, 2), N(y, 3), False, (['p', 'q'], ['p', 'q', 'r'])
    if tier != 'quick':
        yield N('set', 4), N('braces', 4), True
        yield N('set', 5), N('set', 5), False
        yield N('list', 5), N('list', 5), False
        yield S(T(0, 1), T(2, 3), 4), S(T(0, 1), T(2, 3), 4), True
        yield T(L(0, 1), L(2, 3)), T(L(0, 1), L(2, 3)), False


def units(tier):
    for a, b, perm, *sh in cases(tier):
        sh = sh[0] if sh else None
        gn, vn = sh or (G, V)
        name = f'{render(a, gn)} ~ {render(b, vn)}' + (' any order' if perm else '')
        yield Unit(name, build(a, b, perm, sh), oracle_for(a, b, sh), compare=lambda x, y: bool(x) == y, secs=150 if tier == 'quick' else 900, weight=len(leaves(a)) * (5 if perm else 1) + (8 if a[0] in ('set', 'braces') else 0),
                   every=5 if tier == 'quick' else 3, max_paths=100000)


PROP = Property('C12', lambda tier: list(units(tier)),
                'sequences and sets of up to 4 (thorough 5) elements a side, all bracket kinds, one level of nesting; every relation between the elements; every iteration order of both sets (2 or 3 elements; thorough 4)',
                ['elements are opaque names; a single bracketed element is the element', 'hash order is modelled as an arbitrary permutation; replays search name choices that produce it'])
