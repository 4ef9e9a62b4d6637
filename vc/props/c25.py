"""Matrices: formulas over matrices with variable entries, parsed by the real parser; entry by entry the solver proves the result of linear
algebra (written here on lists of rows) for all values of the entries."""
import itertools
from fractions import Fraction
from ..unit import Property, Unit
from ._expr import Sym, Num, sym, ref, tex, var, num, names, points, show, native, Undefined, Bad, IMUL, MUL, NEG, ATOM, POST
import symx.core
import z3

F = Fraction
NAMES = 'a b c f g h k m n o p q s t u v w x'.split()       # entries; d, e, i, r are avoided in \\xrightarrow lists


# ------------------------------------------------------------------ matrix formulas
# ('mat', env, rows of scalar formulas, top, bottom)   ops: ('scale', rc, i, text, k) ('swap', rc, i, j, text) ('add', rc, i, j, text, k)
# ('madd'|'msub', A, B) ('mmul', op, A, B) ('smul', op, s, A) ('muls', op, A, s) ('mneg'|'mpos', A) ('T', text, A) ('mpow', A, n) ('mgrp', open, close, A)
# scalar valued: ('vdet', rows) ('fdet', text, A) ('tr', text, A) ('rows'|'cols', A)
def optext(o):
    k = o[0]
    at = lambda i: '%s_%d' % (o[1], i) if i < 10 else '%s_{%d}' % (o[1], i)
    if k == 'scale':
        return o[3] + at(o[2])
    if k == 'swap':
        return at(o[2]) + o[4] + at(o[3])
    return at(o[2]) + o[4] + at(o[3])


def mtex(a):
    k = a[0]
    if k == 'mat':
        b, e = {'brack': ('\\left[\\begin{matrix}', '\\end{matrix}\\right]')}.get(a[1], (f'\\begin{{{a[1]}}}', f'\\end{{{a[1]}}}'))
        t = b + '\\\\'.join('&'.join(tex(x)[0] for x in r) for r in a[2]) + e
        if a[3] or a[4]:
            t += '\\xrightarrow' + ('[' + ','.join(map(optext, a[4])) + ']' if a[4] else '') + '{' + ','.join(map(optext, a[3])) + '}'
        return t, ATOM
    p = lambda x, lvl: x[0] if x[1] >= lvl else '(' + x[0] + ')'
    if k in ('madd', 'msub'):
        return p(mtex(a[1]), 1) + ('+' if k == 'madd' else '-') + p(mtex(a[2]), 2), 1
    if k == 'mmul':
        return p(mtex(a[2]), 2) + a[1] + p(mtex(a[3]), 3), (IMUL if a[1] == '' else MUL)
    if k == 'smul':
        s = tex(a[2])
        return (s[0] if s[1] >= IMUL else '(' + s[0] + ')') + a[1] + p(mtex(a[3]), 3), (IMUL if a[1] == '' else MUL)
    if k == 'muls':
        s = tex(a[3])
        return p(mtex(a[2]), 2) + a[1] + (s[0] if s[1] >= IMUL else '(' + s[0] + ')'), (IMUL if a[1] == '' else MUL)
    if k == 'divs':
        s = tex(a[3])
        if a[1] == 'frac':
            return '\\frac{' + mtex(a[2])[0] + '}{' + s[0] + '}', ATOM
        return p(mtex(a[2]), 2) + a[1] + (s[0] if s[1] >= IMUL else '(' + s[0] + ')'), MUL
    if k in ('mneg', 'mpos'):
        return ('-' if k == 'mneg' else '+') + p(mtex(a[1]), 3), NEG
    if k == 'T':
        return p(mtex(a[2]), POST) + a[1], POST
    if k == 'mpow':
        return p(mtex(a[1]), ATOM) + '^{%d}' % a[2], POST
    if k == 'mgrp':
        return a[1] + mtex(a[3])[0] + a[2], ATOM
    if k == 'vdet':
        return '\\begin{vmatrix}' + '\\\\'.join('&'.join(tex(x)[0] for x in r) for r in a[1]) + '\\end{vmatrix}', ATOM
    if k in ('fdet', 'tr', 'rows', 'cols'):
        return a[1] + mtex(a[2])[0] + ')', ATOM
    if k == 'sc':
        return tex(a[1])
    if k in ('sadd', 'ssub', 'sprod'):
        o = {'sadd': '+', 'ssub': '-', 'sprod': '\\cdot '}[k]
        return p(mtex(a[1]), 1 if k != 'sprod' else 2) + o + p(mtex(a[2]), 2 if k != 'sprod' else 3), (1 if k != 'sprod' else MUL)
    if k == 'stack':
        return a[1] + ','.join(mtex(x)[0] for x in a[2]) + ')', ATOM
    if k == 'const':
        return a[1], ATOM
    raise KeyError(k)


def mm(B, x, y):
    if len(x[0]) != len(y):
        raise Bad('shapes')
    out = []
    for r in x:
        row = []
        for j in range(len(y[0])):
            s = B.mul(r[0], y[0][j])
            for i in range(1, len(y)):
                s = B.add(s, B.mul(r[i], y[i][j]))
            row.append(s)
        out.append(row)
    return out


def det(B, x):
    n = len(x)
    if any(len(r) != n for r in x):
        raise Bad('not square')
    if n == 1:
        return x[0][0]
    s = B.const(0)
    for j in range(n):
        m = [[r[c] for c in range(n) if c != j] for r in x[1:]]
        t = B.mul(x[0][j], det(B, m))
        s = B.add(s, t if j % 2 == 0 else B.neg(t))
    return s


def inverse(B, x):
    n = len(x)
    d = B.inv(det(B, x))
    if n == 1:
        return [[d]]
    cof = lambda i, j: det(B, [[x[r][c] for c in range(n) if c != j] for r in range(n) if r != i])
    return [[B.mul(d, cof(j, i) if (i + j) % 2 == 0 else B.neg(cof(j, i))) for j in range(n)] for i in range(n)]


def ident(B, n):
    return [[B.const(int(i == j)) for j in range(n)] for i in range(n)]


def mpow(B, x, n):
    if n < 0:
        return mpow(B, inverse(B, x), -n)
    r = ident(B, len(x))
    for _ in range(n):
        r = mm(B, r, x)
    return r


def apply(B, x, o):
    x = [list(r) for r in x]
    t = [list(c) for c in zip(*x)] if o[1] == 'c' else x
    if o[0] == 'scale':
        k = ref(o[4], B)
        t[o[2] - 1] = [B.mul(k, y) for y in t[o[2] - 1]]
    elif o[0] == 'swap':
        t[o[2] - 1], t[o[3] - 1] = t[o[3] - 1], t[o[2] - 1]
    else:
        k = ref(o[5], B)
        t[o[2] - 1] = [B.add(y, B.mul(k, z)) for y, z in zip(t[o[2] - 1], t[o[3] - 1])]
    return [list(c) for c in zip(*t)] if o[1] == 'c' else t


def mref(a, B):
    k = a[0]
    r = lambda x: mref(x, B)
    if k == 'mat':
        x = [[ref(e, B) for e in row] for row in a[2]]
        for o in a[3] + a[4]:
            x = apply(B, x, o)
        return x
    if k in ('madd', 'msub'):
        x, y = r(a[1]), r(a[2])
        return [[B.add(p, q if k == 'madd' else B.neg(q)) for p, q in zip(u, v)] for u, v in zip(x, y)]
    if k == 'mmul':
        return mm(B, r(a[2]), r(a[3]))
    if k in ('smul', 'muls'):
        s, x = (ref(a[2], B), r(a[3])) if k == 'smul' else (ref(a[3], B), r(a[2]))
        return [[B.mul(s, e) for e in row] for row in x]
    if k == 'divs':
        s, x = B.inv(ref(a[3], B)), r(a[2])
        return [[B.mul(s, e) for e in row] for row in x]
    if k == 'mneg':
        return [[B.neg(e) for e in row] for row in r(a[1])]
    if k == 'mpos':
        return r(a[1])
    if k == 'T':
        return [list(c) for c in zip(*r(a[2]))]
    if k == 'mpow':
        return mpow(B, r(a[1]), a[2])
    if k == 'mgrp':
        return r(a[3])
    if k == 'vdet':
        return det(B, [[ref(e, B) for e in row] for row in a[1]])
    if k == 'fdet':
        return det(B, r(a[2]))
    if k == 'tr':
        x = r(a[2])
        s = x[0][0]
        for i in range(1, len(x)):
            s = B.add(s, x[i][i])
        return s
    if k in ('rows', 'cols'):
        x = r(a[2])
        return x if k == 'rows' else [list(c) for c in zip(*x)]
    if k == 'sc':
        return ref(a[1], B)
    if k in ('sadd', 'ssub'):
        return B.add(r(a[1]), r(a[2]) if k == 'sadd' else B.neg(r(a[2])))
    if k == 'sprod':
        return B.mul(r(a[1]), r(a[2]))
    if k == 'stack':
        xs = [r(x) for x in a[2]]
        if 'vstack' in a[1]:
            return [row for x in xs for row in x]
        return [sum((x[i] for x in xs), []) for i in range(len(xs[0]))]
    if k == 'const':
        return [[B.const(e) for e in row] for row in a[2]]
    raise KeyError(k)


# ------------------------------------------------------------------ matrix-valued sympy trees
def msym(x, B):
    """-> rows, or a scalar value"""
    import sympy as sp
    if isinstance(x, list):                     # rows or columns, as a list of matrices
        return [[sym(e, B) for e in y] for y in x]
    if isinstance(x, sp.matrices.MatrixBase):
        return [[sym(x[i, j], B) for j in range(x.shape[1])] for i in range(x.shape[0])]
    n = type(x).__name__
    if n in ('MatAdd', 'Add') and any(mat(y) for y in x.args):
        r = None
        for y in x.args:
            v = msym(y, B)
            if not isinstance(v, list):
                raise Bad('matrix plus number')
            if r is not None and (len(r), len(r[0])) != (len(v), len(v[0])):
                raise Bad('shapes')
            r = v if r is None else [[B.add(p, q) for p, q in zip(u, w)] for u, w in zip(r, v)]
        return r
    if n in ('MatMul', 'Mul') and any(mat(y) for y in x.args):
        s, r = B.const(1), None
        for y in x.args:
            v = msym(y, B)
            if isinstance(v, list):
                r = v if r is None else mm(B, r, v)
            else:
                s = B.mul(s, v)
        return [[B.mul(s, e) for e in row] for row in r]
    if n in ('MatPow', 'Pow') and mat(x.args[0]):
        e = x.args[1]
        if not e.is_Integer:
            raise Bad('matrix power')
        return mpow(B, msym(x.args[0], B), int(e))
    if n == 'Transpose':
        return [list(c) for c in zip(*msym(x.args[0], B))]
    if n == 'Inverse':
        return inverse(B, msym(x.args[0], B))
    if n == 'Determinant':
        return det(B, msym(x.args[0], B))
    if n == 'Trace':
        v = msym(x.args[0], B)
        s = v[0][0]
        for i in range(1, len(v)):
            s = B.add(s, v[i][i])
        return s
    if n in ('Add', 'Mul') and any(type(y).__name__ in ('Determinant', 'Trace') for y in x.args):
        r = B.const(0 if n == 'Add' else 1)
        for y in x.args:
            r = (B.add if n == 'Add' else B.mul)(r, msym(y, B))
        return r
    return sym(x, B)


def mat(x):
    import sympy as sp
    return isinstance(x, (sp.matrices.MatrixBase, sp.MatrixExpr)) or type(x).__name__ in ('Add', 'Mul', 'Pow') and any(mat(y) for y in x.args)


def evaluated(x, shape):
    """the code's result, carried out; a matrix must come out as one"""
    import sympy as sp
    y = x if isinstance(x, list) else x.doit()
    if shape and not isinstance(y, (list, sp.matrices.MatrixBase, sp.MatrixExpr)):
        raise Bad('not a matrix: ' + type(y).__name__)
    return y


def flat(v):
    return ((len(v), len(v[0])), [e for r in v for e in r]) if isinstance(v, list) else ((), [v])


def matrix_unit(name, items, **kw):
    def body():
        from symx.core import Cur, PathAbort
        from symx.values import SymBool
        e = Cur.eng
        k = e.choose(len(items), 'formula')
        a = items[k]
        t = e.input('tex', mtex(a)[0])
        e.input('k', k)
        for v in names(a):
            e.input('val ' + v, z3.Real(v))
        B = Sym()
        try:
            ws, wl = flat(mref(a, B))
        except Undefined:
            raise PathAbort('undefined')
        for c in B.dom:
            e.assume(SymBool(c))
        B.collect = False
        try:
            x = native().latex2sympy(t)
            gs, gl = flat(msym(x, B))
            hs, hl = flat(msym(evaluated(x, ws), B))
        except RecursionError:
            raise
        except Exception as ex:
            e.prove(False, f'{t}: {type(ex).__name__} {str(ex)[:80]}')
            return 'bad'
        if gs != ws or hs != ws:
            e.prove(False, f'{t}: shape {gs} {hs} instead of {ws}')
            return 'bad'
        for p, q in zip(wl + wl, gl + hl):
            e.prove(SymBool(B.claim(p, q)), f'{t} parsed as {x}')
        return 'equal'

    def oracle(i):
        import mpmath
        a = items[i['k']]
        t = i['tex']
        env = {v: i['val ' + v] for v in names(a) if 'val ' + v in i}
        try:
            x = native().latex2sympy(t)
            y = evaluated(x, flat(mref(a, Sym()))[0])
        except Undefined:
            return dict(ok=True, got='equal', want='equal')
        except RecursionError:
            raise
        except Exception as ex:
            return dict(ok=False, got=f'raised {type(ex).__name__} {str(ex)[:60]}', want=t)
        with mpmath.workdps(40):
            for p in points(names(a), env):
                try:
                    ws, wl = flat(mref(a, Num(p, 'ref')))
                except Undefined:
                    continue
                try:
                    gs, gl = flat(msym(x, Num(p, 'code')))
                    hs, hl = flat(msym(y, Num(p, 'code')))
                except Bad as ex:
                    return dict(ok=False, got=f'{x} has no value ({ex})', want=t)
                if gs != ws or hs != ws or any(abs(g - w) > mpmath.mpf(10) ** -9 * max(1, abs(w)) for g, w in zip(gl + hl, wl + wl)):
                    return dict(ok=False, got=f'{x} = {[mpmath.nstr(g, 8) for g in gl]} at {show(p)}', want=f'{t} = {[mpmath.nstr(w, 8) for w in wl]}')
        return dict(ok=True, got='equal', want='equal')
    u = Unit(name, body, oracle, compare=lambda a, b: True, secs=250, max_paths=10 ** 6, **kw)
    u.items, u.get = items, lambda k: oracle(dict(k=k, tex=mtex(items[k])[0]))
    return u


# ------------------------------------------------------------------ shapes
def M(r, c, off=0, env='bmatrix', top=(), bot=()):
    return ('mat', env, [[var(NAMES[(off + i * c + j) % len(NAMES)]) for j in range(c)] for i in range(r)], list(top), list(bot))


KS = [('2', num('2')), ('-', ('neg', num('1'))), ('-3', ('neg', num('3'))), ('x', var('x')), ('\\frac{1}{2}', ('frac', '\\frac', num('1'), num('2'))), ('(x+1)', ('add', var('x'), num('1'))), ('\\left(x-2\\right)', ('sub', var('x'), num('2'))),
      ('2x', ('imul', num('2'), var('x'))), ('-\\frac{x}{3}', ('neg', ('frac', '\\frac', var('x'), num('3')))), ('x^{2}', ('pow', var('x'), num('2'))), ('1.5', num('1.5'))]
AS = [('+', num('1')), ('-', ('neg', num('1'))), ('+2', num('2')), ('-3', ('neg', num('3'))), ('+x', var('x')), ('-\\frac{1}{2}', ('neg', ('frac', '\\frac', num('1'), num('2')))), ('+(x+1)', ('add', var('x'), num('1'))), ('-2x', ('neg', ('imul', num('2'), var('x')))),
      ('-(x-1)', ('neg', ('sub', var('x'), num('1'))))]
SW = ['<->', '<=>', '\\leftrightarrow ', '\\Leftrightarrow ']


def ops(r, c):
    for rc, n in (('r', r), ('c', c)):
        for i in range(1, n + 1):
            for t, k in KS:
                yield ('scale', rc, i, t, k)
            for j in range(1, n + 1):
                if i != j:
                    for s in SW:
                        yield ('swap', rc, i, j, s)
                    for t, k in AS:
                        yield ('add', rc, i, j, t, k)


def few(r, c):
    """operations that do not commute with one another"""
    for rc, n in (('r', r), ('c', c)):
        yield ('scale', rc, 1, '2', num('2'))
        yield ('scale', rc, n, '-', ('neg', num('1')))
        yield ('swap', rc, 1, 2, '<->')
        yield ('add', rc, 2, 1, '+', num('1'))
        yield ('add', rc, 1, n, '-2', ('neg', num('2')))
        if n > 2:
            yield ('swap', rc, 2, 3, '\\leftrightarrow ')


def single_ops(q):
    for r, c in ((2, 2), (2, 3), (3, 3)) + (() if q else ((3, 2), (1, 3), (3, 4))):
        for o in ops(r, c):
            yield M(r, c, top=[o])
    for o in few(2, 2):
        for env in ('pmatrix', 'matrix', 'brack'):
            yield M(2, 2, env=env, top=[o])
    for o in [('swap', 'r', 1, 10, '<->'), ('add', 'r', 10, 1, '+2', num('2')), ('scale', 'r', 10, '2', num('2')), ('add', 'r', 9, 10, '-', ('neg', num('1')))]:
        yield ('mat', 'bmatrix', [[var(NAMES[i])] for i in range(10)], [o], [])


def op_lists(q):
    S = list(few(3, 3)) if q else list(few(3, 3)) + list(few(2, 2))[1:4]
    for a, b in itertools.product(S, repeat=2):
        yield M(3, 3, top=[a, b])
        yield M(3, 3, top=[a], bot=[b])
    S = [o for o in few(2, 2)]
    for a, b, c in itertools.product(S[:5] if q else S, repeat=3):
        yield M(2, 2, top=[a, b, c])
        yield M(2, 2, top=[a], bot=[b, c])
        yield M(2, 2, top=[a, b], bot=[c])


def algebra(q):
    P = {}
    for r, c in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1)):
        P[r, c] = [M(r, c), M(r, c, 5), M(r, c, 9)]
    for (r, c), (A, B, C) in P.items():
        for env in ('bmatrix', 'pmatrix', 'matrix', 'brack'):
            yield M(r, c, env=env)
        ss = [num('2'), num('0.5'), var('z'), ('frac', '\\frac', num('1'), num('3')), ('pow', var('z'), num('2')), ('grp', '(', ')', ('add', var('z'), num('1'))), ('app', 'abs', '|%s|', [var('z')])]
        if r * c <= 4 or not q:
            for s in ss:
                for op in ('', '\\cdot ', '\\times ', '*'):
                    if not (op == '' and s[0] == 'var' and False):
                        yield ('smul', op, s, A)
                        if not (op == '' and s[0] == 'num'):
                            yield ('muls', op, A, s)
                        yield ('madd', ('smul', op, s, A), B)
                        yield ('msub', B, ('smul', op, s, A))
                        yield ('mneg', ('smul', op, s, A))
                yield ('divs', '/', A, s)
                yield ('divs', 'frac', A, s)
                yield ('divs', '\\div ', A, s)
        for t in ('^T', '^{T}', '^\\top', '^{\\top}', "'", '^{\\mathrm{T}}', '^\\mathrm{T}'):
            yield ('T', t, A)
        yield ('T', '^T', ('T', '^T', A)) if False else ('T', '^T', ('mgrp', '(', ')', ('T', '^T', A)))
        yield ('mneg', A)
        yield ('mneg', ('mneg', A))
        yield ('mneg', ('T', '^T', A))
        yield ('T', '^T', ('mgrp', '(', ')', ('madd', A, B)))
        yield ('T', '^T', ('mgrp', '\\left(', '\\right)', ('msub', A, B)))
        for g in (('(', ')'), ('\\left(', '\\right)'), ('[', ']'), ('\\{', '\\}')):
            yield ('mgrp', g[0], g[1], A)
            yield ('madd', ('mgrp', g[0], g[1], A), B)
        yield ('mpos', A)
        yield ('madd', A, B)
        yield ('msub', A, B)
        yield ('madd', A, ('mneg', B)) if False else ('msub', A, ('mgrp', '(', ')', ('mneg', B)))
        yield ('madd', A, A)
        yield ('msub', A, A)
        if r * c <= 4 or not q:
            for f, g in itertools.product(('madd', 'msub'), repeat=2):
                yield (f, (g, A, B), C)
                yield (f, A, ('mgrp', '(', ')', (g, B, C)))
    for (r, n), (n2, c) in itertools.product(P, P):
        if n != n2 or max(r, n, c) == 3 and q and (r, n, c) not in ((2, 3, 2), (3, 3, 3), (3, 2, 3), (1, 3, 1), (3, 3, 1)):
            continue
        A, B = M(r, n), M(n, c, 7)
        for op in ('', '\\cdot ', '\\times ', '*'):
            yield ('mmul', op, A, B)
        yield ('mneg', ('mmul', '\\cdot ', A, B))
        yield ('mmul', '\\cdot ', ('mneg', A), B) if False else ('mmul', '\\cdot ', ('mgrp', '(', ')', ('mneg', A)), B)
        yield ('smul', '', num('2'), ('mmul', '', A, B)) if False else ('mmul', '', ('smul', '', num('2'), A), B)
        yield ('madd', M(r, c, 3), ('mmul', '\\cdot ', A, B))
        yield ('msub', M(r, c, 3), ('mmul', '\\times ', A, B))
        yield ('mmul', '\\cdot ', ('mgrp', '(', ')', ('msub', A, M(r, n, 4))), B)
        yield ('T', '^T', ('mgrp', '(', ')', ('mmul', '', A, B)))
        yield ('mmul', '', ('T', '^T', M(n, r)), B)
        yield ('mmul', '', A, ('T', '^T', M(c, n, 7)))
        yield ('mmul', '\\cdot ', ('mat', 'bmatrix', A[2], [('swap', 'r', 1, r, '<->')] if r > 1 else [('scale', 'r', 1, '2', num('2'))], []), B)
    for n in (1, 2, 3):
        A, B, C = M(n, n), M(n, n, 7), M(n, n, 12)
        for k in (2, 3, 0, 1) + ((-1,) if n < 3 else ()) + (() if q else (4, 5)):
            if n == 3 and k > 2 and q:
                continue
            yield ('mpow', A, k)
            yield ('madd', B, ('mpow', A, k))
            yield ('smul', '', num('3'), ('mpow', A, k))
        if n < 3 or not q:
            for o1, o2 in itertools.product(('', '\\cdot '), repeat=2):
                yield ('mmul', o1, ('mmul', o2, A, B), C)
                yield ('mmul', o1, A, ('mgrp', '(', ')', ('mmul', o2, B, C)))
            yield ('msub', ('mmul', '', A, B), ('mmul', '', B, A))
            yield ('mpow', ('mgrp', '(', ')', ('madd', A, B)), 2)
            yield ('mpow', ('mgrp', '(', ')', ('mmul', '', A, B)), 2)


def scalars(q):
    rows = lambda n, off=0: [[var(NAMES[(off + i * n + j) % len(NAMES)]) for j in range(n)] for i in range(n)]
    for n in (1, 2, 3) + (() if q else (4,)):
        yield ('vdet', rows(n))
        A = M(n, n)
        for t in ('\\det(', '\\det\\left('):
            yield ('fdet', t, A) if t == '\\det(' else ('fdet', '\\det(', ('mgrp', '(', ')', A))
        yield ('ssub', ('vdet', rows(n)), ('vdet', rows(n, 5)))
        yield ('sprod', ('sc', num('2')), ('vdet', rows(n)))
        yield ('sadd', ('sc', var('z')), ('fdet', '\\det(', A))
        for t in ('\\operatorname{trace}(', '\\operatorname{tr}('):
            yield ('tr', t, A)
            yield ('ssub', ('tr', t, A), ('tr', t, M(n, n, 6)))
            if n < 4:
                yield ('tr', t, M(n, n, top=[('add', 'r', 2, 1, '+', num('1'))] if n > 1 else [('scale', 'r', 1, '2', num('2'))]))
    for r, c in ((1, 2), (2, 1), (2, 3), (3, 2), (3, 3)):
        yield ('rows', '\\operatorname{rows}(', M(r, c))
        yield ('cols', '\\operatorname{cols}(', M(r, c))
        for a, b in ((r, c), (1, c)):
            yield ('stack', '\\operatorname{vstack}(', [M(r, c), M(a, c, 8)])
        for a, b in ((r, c), (r, 1)):
            yield ('stack', '\\operatorname{hstack}(', [M(r, c), M(r, b, 8)])
    for n, m in ((1, 1), (2, 2), (2, 3), (3, 2)):
        yield ('const', '\\operatorname{zeros}(%d,%d)' % (n, m), [[0] * m for _ in range(n)])
        yield ('const', '\\operatorname{ones}(%d,%d)' % (n, m), [[1] * m for _ in range(n)])
    for n in (1, 2, 3):
        yield ('const', '\\operatorname{eye}(%d)' % n, [[int(i == j) for j in range(n)] for i in range(n)])
        yield ('madd', M(n, n), ('const', '\\operatorname{eye}(%d)' % n, [[int(i == j) for j in range(n)] for i in range(n)]))
    yield ('const', '\\operatorname{diag}(1,2,3)', [[1, 0, 0], [0, 2, 0], [0, 0, 3]])


def entries(q):
    """entries that are formulas, with neighbours"""
    x, y = var('x'), var('y')
    es = [('neg', x), ('add', x, y), ('sub', x, num('1')), ('imul', num('2'), x), ('frac', '\\frac', x, y), ('pow', x, num('2')), ('app', lambda S, p: S.root(S.const(2), p), '\\sqrt{%s}', [x]), num('0'), num('1.5'), num('1,234'), ('fact', y), ('neg', num('3')),
          ('app', 'sin', '\\sin %s', [x]), ('div', '/', x, y), ('mul', '\\cdot ', x, y)]
    for e, f in itertools.product(es, repeat=2):
        yield ('mat', 'bmatrix', [[e, var('a')], [var('b'), f]], [], [])
        yield ('mat', 'pmatrix', [[var('a'), e, f]], [], [])
    for e in es:
        yield ('mat', 'bmatrix', [[e], [var('a')]], [('add', 'r', 2, 1, '-2', ('neg', num('2')))], [])
        yield ('vdet', [[e, var('a')], [var('b'), var('c')]])


def units(tier):
    q = tier == 'quick'
    for name, it in (('one operation', single_ops(q)), ('operation lists', op_lists(q)), ('algebra', algebra(q)), ('determinants, traces, stacks', scalars(q)), ('entries', entries(q))):
        seen, out, k = set(), [], 0
        for a in it:
            t = mtex(a)[0]
            if t not in seen:
                seen.add(t)
                out.append(a)
        for k in range(0, len(out), 80):
            yield matrix_unit(f'{name} {k // 80 + 1}', out[k:k + 80], every=8 if q else 15)


PROP = Property('C25', lambda tier: list(units(tier)),
                'matrices up to 3x3 (operations up to 10 rows) with a solver variable in every entry: every single row/column operation with 20 forms of the factor, all lists of two (3x3) and three (2x2) operations over top and bottom lists, sums, products, scalar multiples and quotients, signs, transposes, groups, powers -1..3, determinants, traces, stacking, constant matrices, formula entries; for all real values of the entries',
                ['unevaluated matrix expressions are read by their mathematical meaning', 'function values are opaque'])
