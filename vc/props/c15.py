"""Matrices. (a) entries are opaque, their comparison is an arbitrary relation (one Boolean solver variable per pair of entries of the two
matrices): the verdict must be 'same shape and every corresponding pair related'. (b) entries are numbers with symbolic digits, the whole
real pipeline decides. (c) the comparison of two parsed matrices (and of a matrix with a parsed list) with opaque entries."""
import itertools
from ..unit import Property, Unit
from ..spec import world, tb, tmpl, Memo, value, accept, boundary
from symx.values import sand, snot, siff, SymBool

G = 'abcdfghjkmnpq'[:9]
V = 'rstuvwxyz'
ENV = {'matrix': '\\begin{matrix}%s\\end{matrix}', 'pmatrix': '\\begin{pmatrix}%s\\end{pmatrix}', 'bmatrix': '\\begin{bmatrix} %s \\end{bmatrix}', 'Bmatrix': '\\begin{Bmatrix}%s\\end{Bmatrix}',
       'newlines': '\\begin{pmatrix}\n%s\\\\\n\\end{pmatrix}', 'array': '\\left(\\begin{array}{%c}%s\\end{array}\\right)', 'sqarray': '\\left[\\begin{array}{%c}%s\\end{array}\\right]', 'dollar': '$\\begin{pmatrix}%s\\end{pmatrix}$'}


def render(env, rows):
    if env == 'list':
        return '[' + ', '.join('[' + ', '.join(r) + ']' for r in rows) + ']'
    if env == 'flat':
        return '[' + ', '.join(x for r in rows for x in r) + ']'
    sep, amp = ('\\\\\n', ' & ') if env == 'newlines' else (' \\\\ ', ' & ') if env == 'bmatrix' else ('\\\\', '&')
    return ENV[env].replace('%c', 'c' * len(rows[0])).replace('%s', sep.join(amp.join(r) for r in rows))


def names(pool, r, c):
    return [[pool[i * c + j] for j in range(c)] for i in range(r)]


def cls(r, c):
    return ('v', r * c) if r == 1 or c == 1 else ('m', r, c)


def want(a, b, R):
    """a, b: (env, r, c)"""
    if cls(a[1], a[2]) != cls(b[1], b[2]):
        return False
    return sand(*[R[i][i] for i in range(a[1] * a[2])])


class Rel:
    def __init__(self, R, gn, vn):
        self.R, self.gn, self.vn = R, gn, vn

    def __call__(self, gt, gv, verbose=False):
        gt, gv = str(gt).strip(), str(gv).strip()
        if gt in self.gn and gv in self.vn:
            return self.R[self.gn.index(gt)][self.vn.index(gv)]
        return False


def rel_unit(a, b):
    n, m = a[1] * a[2], b[1] * b[2]
    gn, vn = G[:n], V[:m]
    gt, gv = render(a[0], names(gn, *a[1:])), render(b[0], names(vn, *b[1:]))

    def body():
        import z3
        from symx.core import Cur
        e = Cur.eng
        R = [[SymBool(z3.Bool(f'R_{i}_{j}')) for j in range(m)] for i in range(n)]
        e.input('R', R)
        e.input('gt', gt), e.input('gv', gv)
        w = world({'math_evaluation.core.evaluations.are_equal_under_sympy': Rel(R, gn, vn),
                   'math_evaluation.core.latex_normalize.string_normalize': Memo()})
        r = tb(w.get('math_evaluation.core.evaluations').is_equiv(gt, gv))
        e.prove(siff(r, want(a, b, R)), f'{gt} against {gv}')
        return r

    def oracle(i):
        import math_evaluation.core.evaluations as ev
        real = ev.are_equal_under_sympy
        w = bool(want(a, b, i['R']))
        try:
            ev.are_equal_under_sympy = Rel(i['R'], gn, vn)
            try:
                r = bool(ev.is_equiv(gt, gv))
            except Exception as ex:
                r = 'raised ' + type(ex).__name__
        finally:
            ev.are_equal_under_sympy = real
        return dict(ok=r is w, got=r, want=f'{w} for {gt!r} against {gv!r} when the entries are related as {i["R"]}')
    return Unit(f'{a[1]}x{a[2]} {a[0]} ~ {b[1]}x{b[2]} {b[0]}', body, oracle, compare=lambda x, y: bool(x) == y, secs=100, weight=n * m, every=2)


# ------------------------------------------------------------------ numeric entries, full pipeline
def num_unit(name, a, b, gts, gvs, dim=None):
    """a, b: (env, r, c); gts, gvs: templates of the entries"""
    def body():
        from symx.core import Cur
        e = Cur.eng
        ge = [tmpl(t, f'g{k}') for k, t in enumerate(gts)]
        ve = [tmpl(t, f'v{k}') for k, t in enumerate(gvs)]
        e.input('g', ge), e.input('v', ve)
        gt, gv = fill(a, ge), fill(b, ve)
        sp = spec(ge, ve)
        if sp is not False:
            for x, y in zip(ge, ve):
                e.assume(snot(boundary(value(x), value(y))))
        r = tb(world().get('math_evaluation.core.evaluations').is_equiv(gt, gv))
        e.prove(siff(r, sp), 'verdict for ' + name)
        return r

    def spec(ge, ve):
        if cls(*a[1:]) != cls(*b[1:]):
            return False
        return sand(*[accept(value(x), value(y)) for x, y in zip(ge, ve)])

    def oracle(i):
        from math_evaluation import is_equiv
        gt, gv = fill(a, i['g']), fill(b, i['v'])
        w = bool(spec(i['g'], i['v']))
        try:
            r = bool(is_equiv(gt, gv))
        except Exception as ex:
            r = 'raised ' + type(ex).__name__
        return dict(ok=r is w, got=r, want=f'{w} for {gt!r} against {gv!r}')
    return Unit(name, body, oracle, compare=lambda x, y: bool(x) == y, secs=100, weight=15, every=3)


def fill(a, ents):
    """the text of a matrix whose entries are (possibly symbolic) texts"""
    n = a[1] * a[2]
    marks = [chr(0xE000 + k) for k in range(n)]
    t = render(a[0], names(marks, *a[1:]))
    if all(isinstance(x, str) for x in ents):
        return ''.join(ents[marks.index(c)] if c in marks else c for c in t)
    from symx import sstr
    return sstr.mk([x for c in t for x in (sstr.cells(ents[marks.index(c)]) if c in marks else [ord(c)])])


# ------------------------------------------------------------------ parsed matrices
def mat_unit(kind, a, b):
    """_are_equal_latex_sympy on parsed matrices / lists with opaque entries"""
    n, m = a[0] * a[1], b[0] * b[1]

    def objs():
        import sympy
        g, v = sympy.symbols(list(G[:n])), sympy.symbols(list(V[:m]))
        mg, mv = sympy.Matrix(a[0], a[1], g), sympy.Matrix(b[0], b[1], v)
        if kind == 'matrix ~ list':
            mv = [list(r) for r in mv.tolist()] if b[0] > 1 and b[1] > 1 else list(v)
        if kind == 'list ~ matrix':
            mg = [list(r) for r in mg.tolist()] if a[0] > 1 and a[1] > 1 else list(g)
        if kind == 'list ~ list':
            mg, mv = list(g), list(v)
        return g, v, mg, mv

    def wrap(real, R, g, v):
        def f(x, y, tx, ty):
            if x in g and y in v:
                return R[g.index(x)][v.index(y)]
            if getattr(x, 'is_Symbol', False):
                return False
            return real(x, y, tx, ty)
        return f

    class St:
        def __init__(self, *a):
            self.a = a

        def _wrap(self, w, real):
            return wrap(real, *self.a)

    def spec(R):
        same = cls(*a) == cls(*b) if kind != 'matrix ~ matrix' else a == b
        return sand(*[R[i][i] for i in range(n)]) if same else False

    def body():
        import z3
        from symx.core import Cur
        e = Cur.eng
        R = e.input('R', [[SymBool(z3.Bool(f'R_{i}_{j}')) for j in range(m)] for i in range(n)])
        g, v, mg, mv = objs()
        lp = world({'math_evaluation.core.latex_parser._are_equal_latex_sympy': St(R, g, v)}).get('math_evaluation.core.latex_parser')
        r = tb(lp._are_equal_latex_sympy(mg, mv, lp._get_sympy_type(mg), lp._get_sympy_type(mv)))
        e.prove(siff(r, spec(R)), f'{kind} {a} {b}')
        return r

    def oracle(i):
        import math_evaluation.core.latex_parser as lp
        g, v, mg, mv = objs()
        real = lp._are_equal_latex_sympy
        w = bool(spec(i['R']))
        try:
            lp._are_equal_latex_sympy = wrap(real, i['R'], g, v)
            try:
                r = bool(lp._are_equal_latex_sympy(mg, mv, lp._get_sympy_type(mg), lp._get_sympy_type(mv)))
            except Exception as ex:
                r = 'raised ' + type(ex).__name__
        finally:
            lp._are_equal_latex_sympy = real
        return dict(ok=r is w, got=r, want=f'{w} for {mg} against {mv} when the entries are related as {i["R"]}')
    return Unit(f'parsed {kind} {a[0]}x{a[1]} {b[0]}x{b[1]}', body, oracle, compare=lambda x, y: bool(x) == y, secs=60, weight=n)


def units(tier):
    shapes = [(1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)] + ([(3, 3), (1, 4), (4, 1), (2, 4), (4, 2), (1, 5)] if tier != 'quick' else [(3, 3)])
    envs = list(ENV) + ['list']
    # same shape, every pair of environments with pmatrix, both positions
    for r, c in shapes:
        if r == c == 3 and tier == 'quick':
            yield rel_unit(('pmatrix', 3, 3), ('list', 3, 3))
            yield rel_unit(('array', 3, 3), ('bmatrix', 3, 3))
            continue
        for x in envs:
            yield rel_unit(('pmatrix', r, c), (x, r, c))
            if x not in ('pmatrix',):
                yield rel_unit((x, r, c), ('pmatrix', r, c))
        if tier != 'quick':
            for x, y in itertools.permutations(envs, 2):
                if 'pmatrix' not in (x, y):
                    yield rel_unit((x, r, c), (y, r, c))
        yield rel_unit(('list', r, c), ('list', r, c))
    # vectors: row, column, flat
    for n in (2, 3):
        vs = [('pmatrix', 1, n), ('pmatrix', n, 1), ('list', n, 1), ('list', 1, n), ('flat', 1, n)]
        for x, y in itertools.product(vs, vs):
            if x[0] == y[0] and x[1:] == y[1:] and x[0] != 'flat':
                continue
            yield rel_unit(x, y)
    # different shapes
    diff = [(1, 2), (2, 1), (1, 3), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1)]
    for a, b in itertools.permutations(diff, 2):
        if cls(*a) == cls(*b):
            continue
        for x, y in (('pmatrix', 'pmatrix'), ('pmatrix', 'list'), ('list', 'list')) if tier != 'quick' else (('pmatrix', 'bmatrix' if sum(a) % 2 else 'list'),):
            yield rel_unit((x, *a), (y, *b))
    # parsed objects
    import math_evaluation.core.latex_parser as lp
    inner = hasattr(lp, '_are_equal_latex_sympy') and hasattr(lp, '_get_sympy_type')    # the entry comparison is replaced there
    for a, b in [] if not inner else itertools.product(shapes if tier != 'quick' else [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)], repeat=2):
        yield mat_unit('matrix ~ matrix', a, b)
        if (a[0] == 1 or a[1] == 1) and (b[0] == 1 or b[1] == 1) or a == b or cls(*a) != cls(*b):
            yield mat_unit('matrix ~ list', a, b)
            yield mat_unit('list ~ matrix', a, b)
    for n, m in ((2, 2), (3, 3), (2, 3), (3, 2)) if inner else ():
        yield mat_unit('list ~ list', (1, n), (1, m))
    # numbers
    P, L, F, A = 'pmatrix', 'list', 'flat', 'array'
    yield num_unit('numbers: integers 2x2', (P, 2, 2), ('bmatrix', 2, 2), ['#', '3', '2', '#'], ['#', '3', '2', '#'])
    yield num_unit('numbers: off diagonal', (P, 2, 2), (L, 2, 2), ['1', '#', '#', '4'], ['1', '#', '#', '4'])
    yield num_unit('numbers: tolerance', (P, 2, 1), (P, 2, 1), ['#.50', '2'], ['#.50#', '2'])
    yield num_unit('numbers: tolerance, last entry', (P, 2, 2), (P, 2, 2), ['1', '2', '3', '0.#2'], ['1', '2', '3', '0.#20#'])
    yield num_unit('numbers: signs', (P, 1, 2), (P, 1, 2), ['-¹', '¹'], ['-#', '-#'])
    yield num_unit('numbers: fractions', (A, 1, 2), (P, 1, 2), ['\\frac{#}{2}', '1/2'], ['#.5', '0.#'])
    yield num_unit('numbers: column against flat', (P, 3, 1), (F, 1, 3), ['#', '5', '#'], ['#', '5', '#'])
    yield num_unit('numbers: row against column', (P, 1, 3), (P, 3, 1), ['#', '5', '#'], ['#', '5', '#'])
    yield num_unit('numbers: shapes differ', (P, 2, 1), (P, 2, 2), ['#', '#'], ['#', '#', '1', '#'])
    if tier != 'quick':
        yield num_unit('numbers: 2x2 all', (P, 2, 2), (P, 2, 2), ['#'] * 4, ['#'] * 4)
        yield num_unit('numbers: 3x3', (P, 3, 3), (L, 3, 3), ['#', '1', '1', '1', '#', '1', '1', '1', '#'], ['#', '1', '1', '1', '#', '1', '1', '1', '#'])
        yield num_unit('numbers: 2x3 tolerance', (P, 2, 3), (A, 2, 3), ['#.5', '1', '1', '1', '1', '#0.5'], ['#.5#', '1', '1', '1', '1', '#0.50#'])


PROP = Property('C15', lambda tier: list(units(tier)),
                'shapes up to 3x3 (thorough 2x4, 4x2, 1x5), matrix, pmatrix, bmatrix, Bmatrix, array environments, nested and flat lists; every relation between the entries; entries with up to 3 symbolic digits',
                ['entries are opaque single letters in the relational units', 'smallmatrix, \\cr and row spacing [2mm] are not covered; vmatrix denotes a determinant and is not covered'])
