"""Arithmetic formulas: every formula of the listed shapes, parsed by the real parser; the solver proves that the expression has the
formula's value (standard precedence, left to right) for all values of the variables."""
import itertools
from ..unit import Property
from ._expr import formula_unit, num, var, ATOM, POST

LEAVES = [var('a'), var('b'), var('c'), var('x'), var('y'), var('z')]
A, B, C, X, Y, Z = LEAVES
N2, N3, N15, N12 = num('2'), num('3'), num('1.5'), num('12')
SUB1, ALPHA = var('x_1'), var('\\alpha', 'alpha')

INFIX = {
    '+': lambda a, b: ('add', a, b), '-': lambda a, b: ('sub', a, b), '*': lambda a, b: ('mul', '*', a, b), '\\times': lambda a, b: ('mul', '\\times ', a, b),
    '\\cdot': lambda a, b: ('mul', '\\cdot ', a, b), '/': lambda a, b: ('div', '/', a, b), '\\div': lambda a, b: ('div', '\\div ', a, b), ':': lambda a, b: ('div', ':', a, b),
    'imul': lambda a, b: ('imul', a, b), '\\mod': lambda a, b: ('mul', '\\mod ', a, b),
}
BIN = dict(INFIX, **{
    'frac': lambda a, b: ('frac', '\\frac', a, b), 'dfrac': lambda a, b: ('frac', '\\dfrac', a, b), 'tfrac': lambda a, b: ('frac', '\\tfrac', a, b),
    'pow': lambda a, b: ('pow', a, b), 'binom': lambda a, b: ('app', 'binom', '\\binom{%s}{%s}', [a, b]), 'choose': lambda a, b: ('app', 'binom', '{%s \\choose %s}', [a, b])})
ROOT = lambda k: lambda a: ('app', lambda S, x: S.root(S.const(k), x), ('\\sqrt[%d]{%%s}' % k) if k != 2 else '\\sqrt{%s}', [a])
UN = {
    'neg': lambda a: ('neg', a), 'pos': lambda a: ('pos', a), 'sqrt': ROOT(2), 'root3': ROOT(3), 'fact': lambda a: ('fact', a),
    'abs': lambda a: ('app', 'abs', '|%s|', [a]), 'labs': lambda a: ('app', 'abs', '\\left|%s\\right|', [a]), 'vert': lambda a: ('app', 'abs', '\\lvert %s\\rvert ', [a]),
    'sq': lambda a: ('pow', a, N2), 'cube': lambda a: ('pow', a, N3), 'recip': lambda a: ('pow', a, num('-1')),
    'rootn': lambda a: ('app', lambda S, n, x: S.root(n, x), '\\sqrt[%s]{%s}', [var('n'), a]),
}
GRP = [('(', ')'), ('[', ']'), ('\\{', '\\}'), ('{', '}'), ('\\left(', '\\right)'), ('\\left[', '\\right]'), ('\\left\\{', '\\right\\}'), ('\\lbrack ', '\\rbrack '), ('\\mleft(', '\\mright)'), ('\\lgroup ', '\\rgroup ')]
for n_, g in enumerate(GRP):
    UN[f'grp{n_}'] = lambda a, g=g: ('grp', g[0], g[1], a)


def inst(f, leaves):
    """fill a shape (a function of its leaves) with distinct leaves"""
    return f


def pairs():
    """each operator in each operand position of each operator"""
    ops = [(k, f, 2) for k, f in BIN.items()] + [(k, f, 1) for k, f in UN.items()]
    for k, f, n in ops:
        yield f(*LEAVES[:n])
        for k2, g, m in ops:
            for pos in range(n):
                xs = list(LEAVES[:n - 1 + m])
                args = []
                for i in range(n):
                    if i == pos:
                        args.append(g(*xs[:m]))
                        xs = xs[m:]
                    else:
                        args.append(xs.pop(0))
                yield f(*args)


def chains(ops, n):
    """unparenthesised chains, every way of associating them (the brackets needed are written)"""
    def trees(os, ls):
        if not os:
            yield ls[0]
            return
        for i in range(len(os)):
            for l in trees(os[:i], ls[:i + 1]):
                for r in trees(os[i + 1:], ls[i + 1:]):
                    yield INFIX[os[i]](l, r)
    for os in itertools.product(ops, repeat=n):
        yield from trees(os, LEAVES[:n + 1])


def numerals():
    """numbers in operand positions (the converter treats them specially)"""
    nums = [N2, N15, num('0'), num('1'), num('12'), num('0.5'), num('100')]
    ops = [f for k, f in BIN.items() if k not in ('binom', 'choose', 'imul')]
    for n in nums:
        for f in ops:
            for g in (f(n, A), f(A, n), f(n, N3), f(N3, n), f(('neg', n), A), f(A, ('neg', n)), ('neg', f(n, N3)), f(f(n, N2), N3), f(N3, f(n, N2)), f(('neg', N3), n)):
                yield g
        for f in UN.values():
            yield f(n)
            yield f(('neg', n))
            yield ('sub', A, f(n))
            yield ('neg', f(n))
            yield ('imul', n, f(A)) if f is not UN['neg'] and f is not UN['pos'] else ('mul', '*', n, f(A))
    for x in (SUB1, ALPHA, var('x_{12}'), var('\\beta', 'beta'), var('X'), var('\\mathit{ab}')):
        for f in (BIN['+'], BIN['-'], BIN['/'], BIN['frac'], BIN['pow'], BIN['imul'], BIN['\\cdot']):
            yield f(x, A)
            yield f(A, x)
    I = ('app', lambda S: S.app('I', []), 'I', [])        # the imaginary unit
    for x in (I, var('I_1'), var('I_n')):
        yield x
        for f in (BIN['+'], BIN['-'], BIN['/'], BIN['frac'], BIN['pow'], BIN['\\cdot']):
            yield f(x, A)
            yield f(A, x)
        if x is I:
            for t, k in (('I^{%s}', N2), ('I^{%s}', A), ('I^%s', N3), ('I^{%s}', num('-1'))):
                p = ('app', lambda S, n: S.pow(S.app('I', []), n), t, [k])
                yield p
                yield ('add', p, X)
                yield ('mul', '\\cdot ', X, p)
            yield ('imul', N2, I)
            yield ('add', N2, ('imul', N3, I))
        else:
            yield ('pow', x, N2)
            yield ('imul', N2, x)
    for k in (0, 2, 3, 5):
        for n in (4, 5, 7):
            yield ('app', 'binom', '\\binom{%s}{%s}', [num(str(n)), num(str(k))])
            yield ('app', 'binom', '\\binom{%s}{%s}', [A, num(str(k))])


def frac_digits():
    """\\frac12 and the like"""
    for a, b in itertools.product('1257', repeat=2):
        f = ('app', lambda S, p, q: S.div(p, q), '\\frac%s%s', [num(a), num(b)])
        yield f
        yield ('add', A, f)
        yield ('sub', A, f)
        yield ('pow', A, f)
        yield ('app', lambda S, p, q: S.div(p, q), '\\frac%s{%s}', [num(a), A])
        yield ('app', lambda S, p, q: S.div(p, q), '\\frac{%s}%s', [A, num(b)])
        yield ('app', lambda S, x: S.root(S.const(2), x), '\\sqrt%s', [num(a)])


def deep(ops, un):
    """three operators along one spine"""
    for k1, k2, k3 in itertools.product(ops, repeat=3):
        for p1, p2 in itertools.product(range(2), repeat=2):
            inner = BIN[k3](A, B)
            mid = BIN[k2](inner, C) if p2 == 0 else BIN[k2](C, inner)
            yield BIN[k1](mid, X) if p1 == 0 else BIN[k1](X, mid)
    for u, k1, k2 in itertools.product(un, ops, ops):
        for p in range(2):
            inner = BIN[k2](A, B)
            yield UN[u](BIN[k1](inner, C) if p == 0 else BIN[k1](C, inner))
            yield BIN[k1](UN[u](inner), C) if p == 0 else BIN[k1](C, UN[u](inner))
            yield BIN[k1](BIN[k2](UN[u](A), B), C) if p == 0 else BIN[k1](C, BIN[k2](A, UN[u](B)))


def perms():
    """the permutation notation (n)_{k}"""
    for n, k in ((A, B), (num('7'), num('3')), (('add', A, num('1')), B), (A, ('sub', B, num('1')))):
        p = ('app', lambda S, x, y: S.div(S.app('fact', [x]), S.app('fact', [S.add(x, S.neg(y))])), '(%s)_{%s}', [n, k])
        yield p
        yield ('add', X, p)
        yield ('mul', '\\cdot ', N2, p)


def products():
    """implicit products of everything next to everything"""
    s = ('add', A, B)
    atoms = [N2, N15, A, SUB1, ALPHA, ('grp', '(', ')', s), ('grp', '[', ']', s), ('grp', '\\{', '\\}', s), ('grp', '\\left(', '\\right)', s), ('pow', C, N2), ('pow', ('grp', '(', ')', s), C), ('frac', '\\frac', A, C),
             ('app', lambda S, x: S.root(S.const(2), x), '\\sqrt{%s}', [X]), ('app', 'abs', '\\left|%s\\right|', [X]), ('fact', X), ('app', 'binom', '\\binom{%s}{%s}', [X, Y]),
             ('pow', ('app', 'abs', '\\left|%s\\right|', [X]), N3), ('fact', ('grp', '(', ')', s))]
    for p, q in itertools.product(atoms, atoms):
        yield ('imul', p, q)
    for p, q, r in itertools.product(atoms[:10], atoms[:12], atoms[:12]):
        if q[0] != 'num' and r[0] != 'num':
            yield ('imul', ('imul', p, q), r)
    for p, q in itertools.product(atoms, atoms):
        if q[0] != 'num':
            for o in ('+', '-', '*', '/', '\\cdot', '\\mod', 'frac', 'pow'):
                yield BIN[o](Z, ('imul', p, q))
                yield BIN[o](('imul', p, q), Z)


def signs():
    for a in (A, N2, ('add', A, B), ('imul', N2, A), ('pow', A, N2), ('frac', '\\frac', A, B), ('mul', '*', A, B), ('fact', A)):
        for n in range(1, 4):
            for us in itertools.product(('neg', 'pos'), repeat=n):
                x = a
                for u in us:
                    x = (u, x)
                yield x
                for o in ('+', '-', '*', '/', '\\times', '\\div', 'frac', '\\mod'):
                    yield BIN[o](Z, x)
                    yield BIN[o](x, Z)
                yield ('pow', Z, x)


def shared(q):
    """operands that share their variables: coincidences of structure must not change the value"""
    outer = ['+', '-', '\\cdot', '/', 'frac', 'imul', 'pow', '\\mod'] if q else [k for k in BIN if k not in ('dfrac', 'tfrac', 'choose', ':')]
    inner = ['+', '-', '\\cdot', '/', 'frac', 'imul', 'pow'] if q else outer
    un = ['neg', 'sqrt', 'root3', 'abs', 'sq', 'recip', 'fact', 'grp0', 'grp4']
    ones = [lambda a, b, k=k: BIN[k](a, b) for k in inner] + [lambda a, b, k=k: UN[k](a) for k in un] + [lambda a, b: a]
    for o in outer:
        for i, f in enumerate(ones):
            for j, g in enumerate(ones):
                if o == 'imul' and f(X, Y)[0] == 'pow' and g(X, Y)[0] == 'grp':     # x^{2}(x) may be a function
                    continue
                if f is ones[-1] and g is ones[-1] or i < len(inner) or j < len(inner):
                    yield BIN[o](f(X, Y), g(X, Y))
                if i < len(inner) and j < len(inner):
                    if j <= i or not q:
                        yield BIN[o](f(X, N2), g(X, N3))
                        yield BIN[o](f(N2, X), g(N3, X))
                    yield BIN[o](f(X, Y), g(Y, X))
                elif i >= len(inner) and j >= len(inner):
                    yield BIN[o](f(X, X), g(X, X))


def letters(q):
    """every letter as a variable, in each place of each operator"""
    for l in 'abcdfghjklmnopqrstuvwxyz' + ('DGNRSX' if q else 'ABCDFGHJKLMNOPQRSUVWXYZ'):      # T is the transpose
        v = var(l)
        for k, f in BIN.items():
            if k == 'imul' and l == 'd':        # dx is a differential
                yield f(Y, v)
                yield ('imul', N2, v)
                continue
            if k == 'imul' and l in 'fgh':
                continue
            yield f(v, Y if l != 'y' else X)
            yield f(Y if l != 'y' else X, v)
            if k in ('\\cdot', '\\times', '\\div', '+', '/', '\\mod'):
                yield f(('imul', N2, v), v)
                yield ('grp', '\\left(', '\\right)', f(N3, v))
        for k, f in UN.items():
            yield f(v)
            if k in ('sqrt', 'root3', 'labs', 'vert', 'grp4', 'grp5', 'grp6', 'grp8') and l not in 'fgh':
                yield ('imul', v, f(Y if l != 'y' else X))
        if l not in 'fgh':
            yield ('imul', v, BIN['frac'](N3, N2))
            yield ('imul', v, BIN['frac'](X if l != 'x' else Y, N2))


def chunk(name, it, n):
    from ._expr import tex
    seen, out, k = set(), [], 0
    for a in it:
        t = tex(a)[0]
        if t in seen:
            continue
        seen.add(t)
        out.append(a)
        if len(out) == n:
            k += 1
            yield f'{name} {k}', out
            out = []
    if out:
        yield f'{name} {k + 1}', out


def units(tier):
    q = tier == 'quick'
    G = [('operator pairs', pairs()), ('numerals', numerals()), ('digit fractions', frac_digits()), ('permutations', perms()), ('products', products()), ('signs', signs()),
         ('chains of two', chains(list(INFIX), 2)), ('chains of three', chains(['+', '-', '*', '/', 'imul', '\\mod'] if q else list(INFIX), 3)),
         ('three operators', deep(['+', '-', '\\cdot', '/', 'frac', 'imul', 'pow'] if q else [k for k in BIN if k not in ('dfrac', 'tfrac', 'choose', ':')], ['neg', 'sqrt', 'abs', 'fact'] if q else [u for u in UN if not u.startswith('grp')]))]
    G.append(('letters', letters(q)))
    G.append(('shared variables', shared(q)))
    if not q:
        G.append(('chains of four', chains(['+', '-', '*', '/', 'imul'], 4)))
    for name, it in G:
        for nm, items in chunk(name, it, 150):
            yield formula_unit(nm, items, every=6 if q else 12)


PROP = Property('C22', lambda tier: list(units(tier)),
                'all formulas in which each of 38 operators and brackets stands in each operand position of each other; all unparenthesised and minimally parenthesised chains of three (six infix operators; thorough all ten, and four of five operators); three operators along a spine; two operators whose operands share their variables; numerals 0, 1, 2, 3, 12, 100, 0.5, 1.5 in every position; for all real values of the variables',
                ['function values (roots, factorials, symbolic powers) are opaque: equal arguments give equal values', 'the shapes are concrete texts; the values of the variables are symbolic'])
