import re
from ..unit import Property, Unit
from ..spec import tmpl, world, shape, cat
from symx.values import sand, sor

# answer cores: '#' digit, 'λ' a letter of x y n c, 'σ' an operator + - * = <
DOMS = {'λ': 'xync', 'σ': '+-*=<'}
CORES = ['#', '-##', '#.##', '¹,###', '#/#', '\\frac{#}{¹}', '-\\frac{λ}{#}', '\\frac{#λ}{λ}', 'λσ#', '#λσλ', 'λ^{#}σ#', '\\sqrt{#}', '#\\sqrt{λ}', '(#,#)', '[#,λ]', '(-#,\\infty)', '\\{#,#\\}', '{#,λ}', '#,#',
         '\\frac{#}{#}\\pi', 'λ=#', '#\\leq λ', '(λσ#,#)', '#\\times 10^{#}', '\\left(#,#\\right)', '#\\frac{#}{¹}', '\\sin(λ)', '#+#i', '2^{λ}σ#', '\\tfrac{#}{#}', '\\dfrac{λ}{#}', '\\pm#', '\\alphaσ#', '\\beta', '\\rho+#', '\\tanλ', '\\betaσ\\alpha\\rho', '\\theta=#', '\\begin{matrix}#\\end{matrix}']
SPECIAL = ['##\\%', '#.#%', '##_{¹}', '##^\\circ', '#:##', '#:## pm', '# pm', '#.#^{\\circ}', '##_8']
MAT = ['\\begin{pmatrix}#\\\\#\\end{pmatrix}', '\\begin{bmatrix}#&#\\\\λ&#\\end{bmatrix}', '\\begin{array}#&#\\\\#&λ\\end{array}']
ESC = {'\\f': '\f', '\\b': '\b', '\\a': '\a', '\\t': '\t', '\\r': '\r'}
SP = ['\\!', '\\,', '\\;', '\\:']


def same_norm(a, b):
    """two normal forms are equal (strings, or sets of strings)"""
    def st(x):
        return isinstance(x, (set, frozenset)) or type(x).__name__ == 'SymSet'
    if st(a) != st(b):
        return False
    if not st(a):
        return a == b
    a, b = list(a), list(b)
    return sand(len(a) == len(b), *[sor(*[x == y for y in b]) for x in a], *[sor(*[x == y for x in a]) for y in b])


def commands(sh):
    """spans of control words and control symbols"""
    return [m.span() for m in re.finditer(r'\\(?:[a-zA-Z]+|.)', sh)] + [m.span() for m in re.finditer(r'(?:begin|end)\{[a-z]+\}', sh)] + [m.span() for m in re.finditer(r' ?[ap]m', sh)]


def spots(sh):
    """positions where a spacing command may stand: not inside a control word"""
    c = commands(sh)
    return [i for i in range(len(sh) + 1) if not any(a < i < b for a, b in c)]


def blanks(sh):
    """positions next to a bracket, comma or operator, and the two ends"""
    ok = spots(sh)
    return [i for i in ok if i == 0 or i == len(sh) or sh[i] in '()[],+=<σ' or sh[i - 1] in '()[],+=<σ']


def ins(s, i, t):
    return cat(cat(s[:i], t), s[i:])


def shp(s):
    """shape with symbolic operators shown as σ, letters as x"""
    if isinstance(s, str):
        return s
    return ''.join(chr(c) if isinstance(c, int) else 'σ' if 61 in c.dom() else 'x' if 120 in c.dom() else '0' for c in s.c)


def double(s):
    sh = shp(s)
    for i in reversed([i for i, c in enumerate(sh) if c == '\\']):
        s = ins(s, i, '\\')
    return s


def eat(s):
    sh = shp(s)
    for i in reversed([i for i in range(len(sh) - 1) if sh[i:i + 2] in ESC]):
        s = cat(cat(s[:i], ESC[sh[i:i + 2]]), s[i + 2:])
    return s


def leftright(s):
    sh = shp(s)
    for i in reversed(range(len(sh))):
        if sh[i] in '()[]' and sh[max(0, i - 5):i] != '\\left' and sh[max(0, i - 6):i] != '\\right':
            s = ins(s, i, '\\left' if sh[i] in '([' else '\\right')
    return s


def braced(s):
    sh = shp(s)
    for i in reversed([i for i, c in enumerate(sh) if c == ',' and sh[max(0, i - 1):i + 2] != '{,}']):
        s = cat(cat(s[:i], '{,}'), s[i + 1:])
    return s


def wraps(s):
    d = '$'
    yield 'dollar', lambda: cat(cat(d, s), d)
    yield 'dollars', lambda: cat(cat('$$', s), '$$')
    yield 'blank dollar', lambda: cat(cat('$ ', s), ' $')
    yield 'escaped dollar', lambda: cat('\\$', s)
    yield 'text', lambda: cat(cat('\\text{', s), '}')
    yield 'mbox', lambda: cat(cat('\\mbox{', s), '}')
    yield 'text blank', lambda: cat(cat('\\text{ ', s), '}')
    yield 'dollar text', lambda: cat(cat('$\\text{', s), '}$')
    yield 'eaten text', lambda: cat(cat('\text{', s), '}')
    yield 'end blanks', lambda: cat(cat('  ', s), ' ')


def variants(s, kind):
    """list of (name, thunk -> marked-up text)"""
    sh = shp(s)
    out = list(wraps(s))
    for i in spots(sh):
        for t in SP:
            out.append((f'{t} at {i}', lambda i=i, t=t: ins(s, i, t)))
    if kind != 'special':
        for i in blanks(sh):
            out.append((f'blank at {i}', lambda i=i: ins(s, i, ' ')))
    if '\\' in sh and kind != 'mat':
        out.append(('doubled', lambda: double(s)))
    if any(k in sh for k in ESC):
        out.append(('eaten', lambda: eat(s)))
    if any(c in sh for c in '()[]') and kind != 'special':
        out.append(('leftright', lambda: leftright(s)))
        if any(k in shp(leftright(s)) for k in ESC):
            out.append(('eaten leftright', lambda: eat(leftright(s))))
    if ',' in sh:
        out.append(('braced comma', lambda: braced(s)))
    return out


def second(m, tier):
    """nothing, or a wrapper around the already marked-up text"""
    w = [(n, t) for n, t in wraps(m) if tier != 'quick' or n in ('dollar', 'text', 'eaten text', 'end blanks')]
    return [('', lambda: m)] + w


def unit(core, kind, tier):
    def body():
        from symx.core import Cur
        e = Cur.eng
        s = e.input('core', tmpl(core, 't', DOMS))
        vs = variants(s, kind)
        name, th = vs[e.choose(len(vs), 'markup')]
        m = th()
        n2, th2 = (vs2 := second(m, tier))[e.choose(len(vs2), 'markup2')]
        m = e.input('marked', th2())
        N = world().get('math_evaluation.core.latex_normalize').string_normalize
        a, b = N(s), N(m)
        e.prove(same_norm(a, b), f'{name} {n2} changes the normal form')

    def oracle(i):
        from math_evaluation.core.latex_normalize import string_normalize as N
        a, b = N(i['core']), N(i['marked'])
        return dict(ok=a == b, got=sorted(b) if isinstance(b, set) else b, want=sorted(a) if isinstance(a, set) else a)
    return Unit(core, body, oracle, secs=170 if tier == 'quick' else 600, weight=len(core), every=3 if tier == 'quick' else 1, bound=f'{core!r}')


PASS = ['\\lim_{λ\\to\\infty}λ', '(λ,λ\\infty)', 'λ\\int_{#}^{#}λ', 'λ \\int λ', 'λ\\infty', '\\sum_{λ=#}^{\\infty}λ', '\\sin λ', '\\min(λ,#)', 'λ\\ln#', 'λ\\inf λ', '\\arcsin#', '\\binom{#}{#}', 'λ\\cdot λ', 'λ\\leq#',
        'λ\\geq#', '\\alpha+\\beta', '\\theta', 'λ\\neq#', '\\angle λ', '\\log_{#}λ', '\\sqrt[#]{λ}', 'λ!', '|λ|', '\\lfloor λ\\rfloor', '\\overline{λ}', 'λ_{#}', 'λ^{λ}', '\\pi λ', '\\max(#,λ)', '\\gcd(#,#)', '\\cup', 'λ\\cap λ', '\\prod_{λ=#}^{#}λ',
        'λ\\pm#', 'λ:λ', '\\exp(λ)', '\\cosh λ', '\\det(λ)', '\\deg λ', '\\hbar', '\\mu', '\\phi', 'λ\\equiv#', 'λ\\mid λ', '\\frac{\\partial λ}{\\partial λ}', '#\\mod#']


def pass_unit(k, tier):
    from ..spec import drop
    ts = PASS[k::6]

    def body():
        from symx.core import Cur
        e = Cur.eng
        t = ts[e.choose(len(ts), 'template')]
        s = e.input('text', tmpl(t, 't', DOMS))
        r = world().get('math_evaluation.core.latex_normalize').string_normalize(s)
        e.prove(same_norm(r, drop(s, ' ')), f'{t} is changed')
        return r

    def oracle(i):
        from math_evaluation.core.latex_normalize import string_normalize as N
        r = N(i['text'])
        return dict(ok=r == i['text'].replace(' ', ''), got=sorted(r) if isinstance(r, set) else r, want='unchanged')
    return Unit(f'no markup {k}', body, oracle, secs=170, weight=8)


def units(tier):
    for k in range(6):
        yield pass_unit(k, tier)
    for c in CORES:
        yield unit(c, 'plain', tier)
    for c in SPECIAL:
        yield unit(c, 'special', tier)
    for c in MAT:
        yield unit(c, 'mat', tier)


PROP = Property('C11', lambda tier: list(units(tier)),
                '51 answer shapes with symbolic digits, letters and operators; one piece of markup per run: every wrapper, every spacing command at every place outside a control word, '
                'a blank at every place next to a bracket, comma or operator, \\left/\\right, {,}, doubled backslashes, backslashes eaten by a Python escape',
                ['matrices keep their row separator (backslashes are not doubled there)'])
