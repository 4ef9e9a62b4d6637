import re
from fractions import Fraction
from ..unit import Property
from ..spec import verdict_unit, value, shape, drop, dint, rdiv, dec
from ._num import pre_vals, any_accept
PI = Fraction('3.14159265358979')

Q = ['##^\\circ~##', '##^{\\circ}~#.##', '#.#^\\circ~#.#', '#.#^{\\circ}~0.0##', '##.#^\\circ~#.###', '### ^\\circ~#.##', '##^ \\circ~\\frac{#\\pi}{#}', '#.##^{ \\circ }~0.0##', '#~#^\\circ', '##.#^\\circ~##.#', '#^\\circ~#.#^\\circ',
     '#.#^\\circ~#.#\\pi/180', '-##^\\circ~-##', '##.#^\\circ~\\frac{##.#\\pi}{180}', '-#.#^\\circ~-0.0##']
T = Q + ['###^\\circ~\\frac{#\\pi}{##}', '##.##^\\circ~0.####', '###.##^\\circ~#.###', '.##^\\circ~0.00##']


def vals(s):
    sh = shape(s)
    m = re.match(r'^(-?[\d.]+) *\^ *(?:\{ *\\circ *\}|\\circ)$', sh)
    if m:
        v = dec(s[:m.end(1)])
        return [v, v * (PI / 180)]
    m = re.match(r'^\\frac\{([\d.]+)\\pi\}\{(\d+)\}$', sh)
    if m:
        return [rdiv(dec(s[m.start(1):m.end(1)]) * PI, dint(s[m.start(2):m.end(2)]))]
    m = re.match(r'^([\d.]+)\\pi/(\d+)$', sh)
    if m:
        return [rdiv(dec(s[m.start(1):m.end(1)]) * PI, dint(s[m.start(2):m.end(2)]))]
    return [value(s)]


def spec(gt, gv):
    a, b = vals(gt), vals(gv)
    if len(a) == len(b) == 2:
        from ..spec import accept
        return (accept(a[0], b[0]), False)
    return any_accept(a, b)


def near(a, b):
    """within 1e-9 of a threshold (pi is known to 15 digits only)"""
    from symx.values import sand, sor
    from ..spec import _sub, EPS
    at, d = abs(a), abs(_sub(a, b))
    g = Fraction(1, 10 ** 9)
    out = []
    for thr in (5 * EPS, EPS):
        out.append(abs(_sub(d, thr)) <= g)
    out.append(abs(_sub(d, at * EPS)) <= g)
    out.append(abs(_sub(at, 1)) <= g)
    return sor(*out)


def pre(gt, gv):
    from symx.values import snot
    sh = shape(gv)
    m = re.match(r'^\\frac\{[\d.]+\\pi\}\{(\d+)\}$', sh)
    if m:
        yield dint(gv[m.start(1):m.end(1)]) > 0
    for a in vals(gt):
        for b in vals(gv):
            if type(b).__name__ == 'SymRatio' or type(a).__name__ == 'SymRatio':
                continue
            yield snot(sand_far(a, b))


def sand_far(a, b):
    from symx.values import sand, snot
    # equality is no boundary: only tolerance edges are excluded
    from ..spec import eq0
    return sand(near(a, b), snot(abs(a + (-b)) == 0))


NORM = ['###^\\circ', '####^{\\circ}', '#.####^\\circ', '###.###^\\circ', '##.##^{ \\circ}', '-###.##^\\circ', '####.# ^\\circ', '.####^\\circ', '0.00##^\\circ', '$###.##^\\circ$', '-#.####^\\circ', '######.######^\\circ']
R1 = re.compile(r'^(-?)(\d*\.?\d*)$')
R2 = re.compile(r'^(-?)(\d*\.?\d*)(?:/180\*\\pi|\*\\pi/180|\\pi/180)$|^(-?)\\frac\{(\d*\.?\d*)\\pi\}\{180\}$')


def reading(r):
    """('plain' | 'rad', number) of a normal form"""
    sh = shape(r)
    m = R1.match(sh)
    if m and re.search(r'\d', sh):
        return 'plain', dec(r)
    m = R2.match(sh)
    if m:
        i = 2 if m.group(2) is not None else 4
        v = dec(r[m.start(i):m.end(i)])
        return 'rad', (-v if sh[0] == '-' else v)
    return None


def norm_ok(s, r):
    """the two readings and nothing else (None: written in a way this check cannot read)"""
    from ..spec import eq0
    from symx.values import sand
    sh = shape(s)
    m = re.search(r'-?[\d.,]+', sh)
    x = dec(s[m.start():m.end()])
    if isinstance(r, str) or not hasattr(r, '__iter__'):
        return False
    l = [reading(y) for y in r]
    if any(y is None for y in l):
        return None
    ks = sorted(k for k, _ in l)
    if ks != ['plain', 'rad']:
        return False
    return sand(*[eq0(v - x) for _, v in l])


def norm_unit(t, tier):
    from ..unit import Unit
    from ..spec import tmpl, sym_normalize

    def body():
        from symx.core import Cur, Incomplete
        e = Cur.eng
        s = e.input('text', tmpl(t, 't'))
        r = sym_normalize(s)
        ok = norm_ok(s, r)
        if ok is None:
            raise Incomplete('reading')
        e.prove(ok, 'readings of ' + t)

    def oracle(i):
        from math_evaluation.core.latex_normalize import string_normalize
        r = string_normalize(i['text'])
        ok = norm_ok(i['text'], r)
        if ok is None:                      # not readable: judged numerically by the verdict units
            ok = True
        return dict(ok=bool(ok), got=sorted(r) if not isinstance(r, str) else r, want='x and x/180*pi')
    return Unit('readings ' + t, body, oracle, secs=100, weight=3)


def units(tier):
    for t in NORM:
        yield norm_unit(t, tier)
    for t in (Q if tier == 'quick' else T):
        a, b = t.split('~')
        yield verdict_unit(t, a, b, spec, pre, secs=150 if tier == 'quick' else 600, weight=len(t))


PROP = Property('C09', lambda tier: list(units(tier)),
                'angles of up to 4 digits with up to 2 decimals, all spellings of the degree sign (readings alone: up to 12 digits), against plain numbers and multiples of \\pi, both argument positions; every digit symbolic',
                ['pairs within 1e-9 of a tolerance threshold are excluded', 'sympy numbers are modelled as exact rationals (pi to 15 digits); every explored path is replayed on the real code'])
