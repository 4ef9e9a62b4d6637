"""Names and layout in parsed formulas: every spelling of a name denotes one variable, different names denote different variables, and marks
that only set spacing or style change nothing, wherever they stand."""
import itertools
import re
from fractions import Fraction
from ..unit import Property, Unit
from ._expr import formula_unit, native, num, var, tex, ref, names, sym, agree, agree_num, IMUL, ADD, ATOM, MUL
from . import c22, c26

F = Fraction
A, B, C, X, Y, Z = c22.LEAVES
TH = var('\\theta', 'theta')

# ------------------------------------------------------------------ names
LETTERS = [c for c in 'abcfghijklmnopqrstuvwxyzABCDFGHJKLMNOPQRSTUVWXYZ' if c not in 'd']
GREEK = ['\\' + g for g in 'alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi rho sigma tau upsilon phi chi psi omega Gamma Delta Theta Lambda Xi Pi Sigma Upsilon Phi Psi Omega'.split()]
OTHER = ['\\ell', '\\hbar', '\\nabla', '\\wp', '\\angle', '\\Re', '\\Im', '\\bigstar', '\\clubsuit', '\\blacksquare', '\\triangledown', '\\imath', '\\jmath']
ACC = [['hat'], ['bar', 'overline'], ['vec', 'overrightarrow'], ['tilde', 'widetilde'], ['dot'], ['ddot'], ['acute'], ['grave'], ['breve'], ['check'], ['mathbf'], ['mathcal'], ['mathbb'], ['mathrm'], ['mathfrak'], ['mathsf']]


def classes():
    """key -> spellings of one name"""
    out = []
    for l in LETTERS:
        out.append([l, l + ' ', ' ' + l])
    for g in GREEK + OTHER:
        out.append([g + ' ', g + '  ', ' ' + g + ' '])
    for acc in ACC:
        for b in ('x', 'A', '\\alpha'):
            out.append([f'\\{a}{{{s}}}' for a in acc for s in (b, ' ' + b, b + ' ')])
    for b in ('x', 'a', 'X', '\\alpha ', '\\hat{x}', '\\Gamma '):
        for k in ('1', '2', 'n', 'i', 'm'):
            out.append([f'{b}_{k}', f'{b}_{{{k}}}', f'{b}_{{ {k}}}', f'{b}_{{{k} }}', f'{b}_ {k}'])
        for k in ('\\alpha', '\\beta'):
            out.append([f'{b}_{k} ', f'{b}_{{{k}}}', f'{b}_{{{k} }}', f'{b}_{{ {k}}}'])
        for k in ('12', '21', '10'):
            out.append([f'{b}_{{{k}}}', f'{b}_{{ {k} }}'])
        for k in ('n+1', 'n-1', 'i,j', 'j,i', '1,2', 'n+2', '\\alpha+1', 'i,\\beta', 'ij', '\\alpha\\beta', '2n'):
            sp = [k, k.replace('+', ' + ').replace('-', ' - ').replace(',', ', '), ' ' + k + ' ']
            if '+' in k or '-' in k:
                sp += [k.replace('+', ' +').replace('-', ' -'), k.replace('+', '+ ').replace('-', '- ')]
            if k in ('ij', '2n'):
                sp.append(k[0] + ' ' + k[1])
            if k == '\\alpha\\beta':
                sp.append('\\alpha \\beta')
            out.append([f'{b}_{{{s}}}' for s in dict.fromkeys(sp)])
    for w in ('ab', 'ba', 'speed', 'time', 'Ab'):
        out.append([f'\\mathit{{{w}}}', f'\\mathit{{ {w} }}', f'\\mathit{{{w[0]} {w[1:]}}}'])
    return out


CLS = classes()
KEY = {}
SPELL = []
for _i, _c in enumerate(CLS):
    for _s in _c:
        SPELL.append((_s, f'v{_i}'))
SPELLS = {f'v{i}': c for i, c in enumerate(CLS)}


def nv(i, s=None):
    return ('var', s if s is not None else CLS[i][0], f'v{i}')


def rename(x, a):
    """symbols of the code -> keys: each name's symbol is what its first spelling alone is parsed to"""
    import sympy as sp
    m = {}
    for k in names(a):
        if k in SPELLS:
            s = native().latex2sympy(SPELLS[k][0])
            if not isinstance(s, sp.Symbol):
                raise ValueError(f'{SPELLS[k][0]} is parsed as {s}')
            m.setdefault(s, sp.Symbol(k, **s._assumptions_orig))
    return x.xreplace(m) if isinstance(x, sp.Basic) else x


CTX = [lambda p: p, lambda p: ('add', p, X), lambda p: ('sub', num('2'), p), lambda p: ('frac', '\\frac', p, num('3')), lambda p: ('frac', '\\frac', num('3'), p), lambda p: ('app', lambda S, x: S.root(S.const(2), x), '\\sqrt{%s}', [p]),
       lambda p: ('imul', num('2'), p), lambda p: ('pow', p, num('2')), lambda p: ('pow', num('2'), p), lambda p: c26.fn('\\sin', p), lambda p: ('grp', '(', ')', p), lambda p: ('app', 'abs', '|%s|', [p]), lambda p: ('mul', '\\cdot ', p, Y), lambda p: ('neg', p)]


def spellings(q):
    """one name in a context, in each spelling; two spellings of one name cancel"""
    for i, c in enumerate(CLS):
        sub = any('_' in s for s in c)
        for s in c:
            for j, f in enumerate(CTX):
                if sub and j in (7,):
                    continue
                if not q or (i + j) % 3 == 0 or j == 0:
                    yield f(nv(i, s))
        for s, t in itertools.combinations(c, 2):
            yield ('sub', nv(i, s), nv(i, t))
            if not q:
                yield ('frac', '\\frac', nv(i, s), ('add', nv(i, t), num('1')))


def alike(c, d):
    """names whose difference is only one of glyph, or one of which is a product of the letters of the other"""
    return False


def distinct(q):
    """two different names"""
    n = len(CLS)
    for i, j in itertools.combinations(range(n), 2):
        if q and not near(i, j) and (i * 7 + j) % 23:
            continue
        yield ('sub', nv(i, CLS[i][(i + j) % len(CLS[i])]), ('imul', num('2'), nv(j, CLS[j][(i * j) % len(CLS[j])])))


def core(s):
    return re.sub(r'[^a-zA-Z0-9]', '', s).lower()


def near(i, j):
    """names that differ little: same letters up to case, marks and accents"""
    a, b = core(CLS[i][0]), core(CLS[j][0])
    return a == b or a[:1] == b[:1] and a[-1:] == b[-1:] or sorted(a) == sorted(b)


def powers():
    """a subscript and a power, in either order"""
    for b, k in (('x', '1'), ('x', 'n'), ('a', '{12}'), ('\\alpha ', '1'), ('\\hat{x}', '2'), ('x', '{i,j}'), ('x', '{n+1}'), ('x', '\\beta ')):
        i = next(i for i, c in enumerate(CLS) if f'{b}_{k}' in c)
        for p, t in ((num('2'), '2'), (num('3'), '{3}'), (Y, 'y'), (Y, '{y}'), (('add', Y, num('1')), '{y+1}'), (('neg', num('1')), '{-1}'), (nv(i, f'{b}_{k}'), '{%s_%s}' % (b, k))):
            for w in (f'{b}_{k}^{t}', f'{b}^{t}_{k}', f'{{{b}_{k}}}^{t}', f'({b}_{k})^{t}', f'{b}_{k} ^{t}', f'{b}_{k}^ {t}'):
                e = ('app', lambda S, p=p, i=i: S.pow(S.var(f'v{i}'), ref(p, S)), w.replace('%', '%%'), [], [], 6, [nv(i), p])
                yield e
                yield ('add', e, num('1'))
                yield ('mul', '\\cdot ', num('3'), e)
                yield ('frac', '\\frac', e, Z)
                yield ('sub', Z, e)


def products():
    """names written next to one another"""
    idx = [next(i for i, c in enumerate(CLS) if s in c) for s in ('a', 'B', '\\alpha ', '\\Delta ', 'x_1', 'x_{12}', '\\hat{x}', 'x_\\alpha ', '\\mathbf{x}', '\\ell ', 'a_{i,j}', '\\mathit{ab}')]
    for i, j in itertools.permutations(idx, 2):
        for sep in ('', ' '):
            yield ('app', lambda S, i=i, j=j: S.mul(S.var(f'v{i}'), S.var(f'v{j}')), CLS[i][0] + sep + CLS[j][0], [], [], 3, [nv(i), nv(j)])
        yield ('app', lambda S, i=i, j=j: S.add(S.mul(S.mul(S.const(2), S.var(f'v{i}')), S.var(f'v{j}')), S.const(1)), '2' + CLS[i][0] + CLS[j][0] + '+1', [], [], 1, [nv(i), nv(j)])


def parse_named(a):
    return rename(native().latex2sympy(tex(a)[0]), a)


def named_unit(nm, items, **kw):
    import json
    cur = {}
    for a in items:
        cur[tex(a)[0]] = a
    return formula_unit(nm, items, parse=lambda t: rename(native().latex2sympy(t), cur[t]), **kw)


# ------------------------------------------------------------------ layout
FILL = [' ', '\n', '\t', '\\,', '\\quad ', '\\qquad ', '~', '\\displaystyle ', '  ']
TOK = re.compile(r'\^\{T\}|\\begin\{\w+\}|\\end\{\w+\}|\\operatorname\{\w+\}|\\mathrm\{d\}|\{\\rm d\}|\\math[a-z]+\{\w+\}|\\(?:hat|bar|vec|tilde|dot)\{[^{}]*\}|[A-Za-z]_\{[^{}]*\}|[A-Za-z]_\w|\\[a-zA-Z]+\*? *|\\.|\d+(?:,\d{3})*(?:\.\d+)?|.', re.S)


def tokens(t):
    return TOK.findall(t)


def fml():
    """formulas covering the grammar"""
    s = c26
    k = var('k')
    I = lambda t, b, *args, texs, kind='dint', v=X: s.one(kind, v, t, b, list(args), texs)
    x2 = ('pow', X, num('2'))
    out = [
        ('add', A, B), ('sub', A, ('mul', '\\cdot ', B, C)), ('mul', '*', A, ('add', B, C)), ('div', '/', A, ('add', B, num('1'))), ('div', '\\div ', A, B), ('div', ':', A, B), ('mul', '\\times ', A, B), ('mul', '\\mod ', A, B), ('neg', ('add', A, B)),
        ('imul', num('2'), X), ('imul', X, Y), ('imul', num('2'), ('add', X, Y)), ('imul', ('add', X, Y), ('sub', X, Y)), ('add', num('1,234.5'), X), ('sub', num('12'), num('1.5')), ('imul', num('2'), ('imul', X, TH)),
        ('frac', '\\frac', ('add', A, B), ('sub', C, num('1'))), ('frac', '\\dfrac', A, B), ('frac', '\\tfrac', num('1'), B), ('add', ('frac', '\\frac', num('1'), num('2')), ('frac', '\\frac', A, num('3'))), ('imul', num('2'), ('frac', '\\frac', X, Y)),
        ('pow', X, num('2')), ('pow', ('add', X, Y), num('3')), ('pow', X, ('add', Y, num('1'))), ('pow', X, ('neg', num('1'))), ('app', lambda S, x, y: S.mul(S.pow(x, S.const(2)), y), '%s^2%s', [X, Y], [7, 7], 3), ('pow', num('2'), X), ('add', ('pow', X, num('2')), ('pow', Y, num('2'))),
        ('app', lambda S, x: S.root(S.const(2), x), '\\sqrt{%s}', [('add', X, num('1'))]), ('app', lambda S, x: S.root(S.const(3), x), '\\sqrt[3]{%s}', [X]), ('imul', num('2'), ('app', lambda S, x: S.root(S.const(2), x), '\\sqrt{%s}', [X])),
        ('fact', X), ('fact', ('add', X, num('1'))), ('app', 'binom', '\\binom{%s}{%s}', [A, B]), ('app', 'abs', '|%s|', [('sub', X, Y)]), ('app', 'abs', '\\left|%s\\right|', [X]), ('grp', '(', ')', ('add', A, B)), ('grp', '[', ']', ('add', A, B)), ('grp', '\\{', '\\}', ('add', A, B)), ('grp', '\\left(', '\\right)', ('add', A, B)), ('grp', '\\left[', '\\right]', A), ('grp', '{', '}', ('add', A, B)),
        s.fn('\\sin', X), s.fn('\\sin', X, 'bare'), ('add', s.fn('\\cos', ('imul', num('2'), X), 'bare'), Y), s.fn('\\ln', ('add', X, Y), 'l('), s.fn('\\arctan', X), s.fn('\\exp', X), s.fpow('\\sin', num('2'), '2', X), s.fpow('\\cos', ('neg', num('1')), '{-1}', X), s.fpow('\\tan', num('2'), '{2}', X, 'bare'), s.log(num('2'), '2', X), s.log(B, '{b}', ('add', X, num('1'))), s.log(num('10'), '{10}', X, 'bare'),
        ('app', lambda S, x: S.app('exp', [x]), 'e^{%s}', [('neg', X)]), ('app', 'floor', '\\lfloor %s\\rfloor ', [('frac', '\\frac', X, num('2'))]), ('app', 'ceil', '\\left\\lceil %s\\right\\rceil ', [X]), ('app', 'max', '\\max(%s,%s)', [X, Y]), ('app', 'min', '\\min(%s,%s,%s)', [X, Y, num('2')]), ('app', 'gcd', '\\gcd(%s,%s)', [num('12'), num('18')]),
        s.one('sum', k, '\\sum_{k=%s}^{%s}%s', ('pow', k, num('2')), [num('1'), A], [(num('1'), ADD), (A, ADD), (('pow', k, num('2')), IMUL)]), s.one('prod', k, '\\prod_{k=%s}^{%s}%s', ('grp', '(', ')', ('add', k, X)), [A, B], [(A, ADD), (B, ADD), (('grp', '(', ')', ('add', k, X)), IMUL)]),
        s.one('lim+', X, '\\lim_{x\\to %s}%s', ('frac', '\\frac', X, ('add', X, Y)), [A], [(A, ADD), (('frac', '\\frac', X, ('add', X, Y)), IMUL)]), s.one('lim-', X, '\\lim_{x\\to %s^{-}}%s', x2, [A], [(A, ADD), (x2, IMUL)]),
        s.one('diff', X, '\\frac{d}{dx}(%s)', ('add', x2, Y), [X], [(('add', x2, Y), ADD)], MUL), s.one('int', X, '\\int %s dx', x2, [X], [(x2, ADD)]), s.one('dint', X, '\\int_{%s}^{%s} %s dx', ('add', x2, Y), [A, B], [(A, ADD), (B, ADD), (('add', x2, Y), ADD)]), s.one('dint', X, '\\int_%s^%s %s \\mathrm{d}x', x2, [num('0'), num('1')], [(num('0'), ADD), (num('1'), ADD), (x2, ADD)]),
        ('app', lambda S, x: S.mul(S.app('pi', []), x), '\\pi %s', [X]), ('app', lambda S: S.div(S.app('pi', []), S.const(4)), '\\frac{\\pi}{4}', []), ('add', TH, var('\\alpha', 'alpha')), ('sub', var('x_1'), var('x_{12}')), ('mul', '\\cdot ', var('x_n'), TH), ('imul', TH, X),
    ]
    return out


def lay(a, t):
    return ('app', lambda S, a=a: ref(a, S), t.replace('%', '%%'), [], [], ATOM, [a])


def places(t):
    ts = tokens(t)
    return ts, [i for i in range(len(ts) + 1)]


def spaced(q, formulas):
    for n, a in enumerate(formulas):
        t = tex(a)[0]
        ts, ps = places(t)
        for m, f in enumerate(FILL):
            for p in ps:
                if q and f not in (' ', '\\,', '\n') and (p + n + m) % 3:
                    continue
                yield lay(a, ''.join(ts[:p]) + f + ''.join(ts[p:]))
            yield lay(a, f + f.join(ts) + f)
        yield lay(a, '$' + t + '$')
        yield lay(a, '$$' + t + '$$')
        yield lay(a, '\\displaystyle{' + t + '}')
        for f, g in itertools.permutations(FILL, 2):
            if q and (FILL.index(f) * 3 + FILL.index(g) + n) % 6:
                continue
            yield lay(a, ''.join(x + (f if i % 2 else g) for i, x in enumerate(ts)))


BR = [('(', ')'), ('[', ']'), ('\\{', '\\}'), ('{', '}'), ('\\left(', '\\right)'), ('\\left[', '\\right]'), ('\\left\\{', '\\right\\}'), ('\\mleft(', '\\mright)'), ('\\mleft[', '\\mright]'), ('\\lgroup ', '\\rgroup '), ('\\lbrace ', '\\rbrace '), ('\\lbrack ', '\\rbrack '), ('\\left\\lbrace ', '\\right\\rbrace '), ('\\left\\lbrack ', '\\right\\rbrack '), ('\\left\\lgroup ', '\\right\\rgroup '), ('\\left (', '\\right )'), ('\\left [', '\\right ]'), ('\\left \\{', '\\right \\}')]


def brackets(q):
    """each bracket around and inside each formula"""
    n = 0
    for a in fml():
        n += 1
        if a[0] == 'grp':
            continue
        for o, c in BR:
            g = ('grp', o, c, a)
            n += 1
            yield g
            if q and n % 2:
                continue
            yield ('add', g, num('1'))
            yield ('sub', Z, g)
            yield ('imul', num('2'), g) if o != '{' else ('mul', '\\cdot ', num('2'), g)
            yield ('grp', '(', ')', g)


# ------------------------------------------------------------------ the same, for results that are not scalars and for function names
WHOLE = ['x=2', 'x+1=y^{2}', 'x<3', 'x\\leq 3', 'x\\ge y', '2x>\\frac{1}{2}', 'x\\neq 1', '\\begin{pmatrix}1&x\\\\y&2\\end{pmatrix}', '\\begin{bmatrix}1\\\\-x\\end{bmatrix}', '\\begin{matrix}a&b\\\\c&2\\end{matrix}', '\\begin{vmatrix}a&b\\\\c&2\\end{vmatrix}',
         '2\\begin{pmatrix}1&x\\\\y&2\\end{pmatrix}', '\\begin{pmatrix}1&x\\\\y&2\\end{pmatrix}^{T}', '\\begin{pmatrix}1&x\\\\y&2\\end{pmatrix}+\\begin{pmatrix}x&2\\\\3&z\\end{pmatrix}', '\\begin{pmatrix}1&x\\\\y&2\\end{pmatrix}\\cdot \\begin{pmatrix}x\\\\3\\end{pmatrix}', '\\begin{pmatrix}1&\\frac{x}{2}\\\\\\sqrt{2}&2\\end{pmatrix}^{-1}']
FUNS = [['f_{n+1}(x)', 'f_{n + 1}(x)', 'f_{ n+1}(x)', 'f_{n +1} (x)'], ['f_{\\alpha+1}(x)', 'f_{\\alpha + 1}(x)', 'f_{\\alpha +1}(x)'], ['f_\\alpha (x)', 'f_{\\alpha}(x)', 'f_{\\alpha }(x)'], ['f_1(x)', 'f_{1}(x)', 'f_{ 1}(x)'], ['f(x)', 'f (x)', 'f( x )'], ['g(x)'], ['F(x)'], ['\\hat{f}(x)', '\\hat{f} (x)', '\\hat{ f}(x)'], ['f_2(x)'], ['g_1(x)'], ['f_{12}(x)'], ['f_{\\beta+1}(x)'], ['f_{n-1}(x)', 'f_{n - 1}(x)'], ['f(y)'], ['f(x,y)', 'f(x, y)', 'f ( x , y )'], ['f(y,x)']]


def same(nm, its):
    """its: (text, plain text, whether they mean the same)"""
    its = list(its)

    def body():
        from symx.core import Cur
        e = Cur.eng
        k = e.choose(len(its), 'item')
        t, u, eq = its[k]
        e.input('k', k)
        e.input('tex', t)
        want = native().latex2sympy(u)
        try:
            got = native().latex2sympy(t)
        except Exception as ex:
            e.prove(False, f'{t}: {type(ex).__name__} {str(ex)[:60]}')
            return 'raised'
        if eq:
            return agree(e, want, got, t)
        e.prove(differ(want, got), f'{t} and {u} are both {got}')
        return 'different'

    def oracle(i):
        t, u, eq = its[i['k']]
        want = native().latex2sympy(u)
        try:
            got = native().latex2sympy(t)
        except Exception as ex:
            return dict(ok=False, got=repr(ex)[:80], want=str(want))
        ok, txt = agree_num(want, got, {k[4:]: v for k, v in i.items() if k.startswith('val ')})
        return dict(ok=ok if eq else differ(want, got), got=str(got), want=f'{"equal to" if eq else "different from"} {want}')
    u = Unit(nm, body, oracle, compare=lambda a, b: True, every=8, secs=200, max_paths=10 ** 6)
    return u


def differ(x, y):
    """values of undefined functions: different functions or different arguments"""
    return x.func != y.func or x.args != y.args


def others(q):
    for n, t in enumerate(WHOLE):
        ts = tokens(t)
        for f in FILL:
            for p in range(len(ts) + 1):
                if f in ('\n', ' ', '\\,') or not q or (p + n) % 2:
                    yield ''.join(ts[:p]) + f + ''.join(ts[p:]), t, True
            yield f + f.join(ts) + f, t, True
    M = WHOLE[7]
    for v in ('^T', '^{T}', '^{ T }', '^ {T}', '^{T }', '^{ T}', '^ T', ' ^{T}', '^\n{T}', '^{\tT}', '^\\top ', '^{\\top}', '^{ \\top }', '^ \\top', "'", '^{\\mathrm{T}}', '^\\mathrm{T}'):
        yield M + v, WHOLE[12], True
        yield '2' + M + v, '2' + WHOLE[12], True
    for c in FUNS:
        for s in c[1:]:
            yield s, c[0], True
            yield '2+' + s, '2+' + c[0], True
    for c, d in itertools.combinations(FUNS, 2):
        yield c[-1], d[-1], False


def units(tier):
    q = tier == 'quick'
    for name, it in [('spellings', spellings(q)), ('different names', distinct(q)), ('subscript and power', powers()), ('side by side', products())]:
        for nm, items in c22.chunk(name, it, 150):
            yield named_unit(nm, items, every=8 if q else 15)
    for name, it in [('layout', spaced(q, fml())), ('brackets', brackets(q))]:
        for nm, items in c22.chunk(name, it, 150):
            yield formula_unit(nm, items, every=8 if q else 15)
    its = list(others(q))
    for i in range(0, len(its), 150):
        yield same(f'relations, matrices and function names {i // 150 + 1}', its[i:i + 150])


PROP = Property('C37', lambda tier: list(units(tier)),
                'about 270 names (letters, Greek letters, other symbols, 16 accents and alphabets over three bases, six bases with 23 subscripts, words in \\mathit) in every spelling of blanks, braces and synonymous commands, in 14 contexts; pairs of different names (quick: all that resemble one another and a 23rd of the rest); subscripts with powers in either order; names side by side. 70 formulas covering the grammar (C22, C26) and 16 relations and matrices: nine spacing and style marks at every token boundary, one at a time, all at once, and alternating pairs of them; 18 bracket styles. For all real values of the variables',
                ['which spelling of an accent or alphabet denotes a different name is fixed only for the synonyms the parser library documents (bar/overline, vec/overrightarrow, tilde/widetilde)', 'marks the grammar does not know (\\: \\; \\! and \\$ outside a number) are removed by the normaliser, not the parser; C02 has them'])
