import re
from ..unit import Property
from ..spec import verdict_unit, value, shape, boundary, eq0, dens, nonzero
from symx.values import sand, sor, snot

NUM = r'-?(?:\\frac\{\d+\}\{\d+\}|[\d.]+|\\infty)'
IV = re.compile(rf'([(\[])({NUM}), ?({NUM})([)\]])')


def ivs(s):
    """(list of ((lopen, lo, hi, ropen)), joining operator)"""
    from ..spec import cat
    for w in ('\\left', '\\right'):
        i = shape(s).find(w)
        while i >= 0:
            s = cat(s[:i], s[i + len(w):])
            i = shape(s).find(w)
    sh = shape(s)
    out = []
    for m in IV.finditer(sh):
        v = lambda i: None if 'infty' in m.group(i) else value(s[m.start(i):m.end(i)])
        out.append((m.group(1) == '(', v(2), v(3), m.group(4) == ')', m.group(2), m.group(3)))
    op = '∩' if ('∩' in sh or '\\cap' in sh) else '∪'
    return out, op


def inside(iv, x):
    lo_open, lo, hi, hi_open = iv[:4]
    c = []
    if lo is not None:
        c.append(x > lo if lo_open else x >= lo)
    if hi is not None:
        c.append(x < hi if hi_open else x <= hi)
    return sand(*c)


def member(s, x):
    l, op = ivs(s)
    rs = [inside(i, x) for i in l]
    return sor(*rs) if op == '∪' else sand(*rs)


def probes(a, b):
    """points that decide equality of the two point sets: every endpoint and a point of every gap"""
    pts = [p for s in (a, b) for i in ivs(s)[0] for p in (i[1], i[2]) if p is not None]
    return pts


def same(gt, gv):
    pts = probes(gt, gv)
    xs = list(pts)
    for p in pts:
        xs += [p + EPSX, p - EPSX]
    return sand(*[_iff(member(gt, x), member(gv, x)) for x in xs])


from fractions import Fraction
EPSX = Fraction(1, 10 ** 4)       # smaller than half of any distance between two different end points used here


def _iff(a, b):
    from symx.values import siff
    return siff(a, b)


def spec(gt, gv):
    return same(gt, gv)


def pre(gt, gv):
    for s in (gt, gv):
        for i in ivs(s)[0]:
            if i[1] is not None and i[2] is not None:
                yield i[1] < i[2]
    # end points that differ, but by no more than the numeric tolerance, are left open by the claim


Q1 = ['(#,#)~(#,#)', '(#,#)~(#,#]', '[#,#)~[#,#)', '(#,#)~[#,#]', '[#,#]~(#,#]', '[#,#]~[#,#]', '(-#,#]~(-#,#]', '(#.#,#]~(#,#.#]', '[#, #)~[#,#)', '(-\\infty,#)~(-\\infty,#)',
      '(-\\infty,#)~(-\\infty,#]', '[#,\\infty)~[#.#,\\infty)', '[#,\\infty)~(#,\\infty)', '(-\\infty,\\infty)~(#,\\infty)', '[\\frac{#}{ò},9]~[#.#,9]', '\\left(#,#\\right]~(#,#]', 'x \\in (#,#)~(#,#)',
      '\\left[#,#\\right)~[#,#)', '(-\\infty, #]~(-\\infty,-#]', '[-#,-#)~[-#,-#)']
Q2 = ['(0,ñ]\\cup[ñ,5)~[ñ,5)\\cup(0,ñ]', '(0,ñ)\\cup(ñ,5)~(0,5)', '(-\\infty,ñ)\\cup(ñ,\\infty)~(ñ,\\infty)\\cup(-\\infty,ñ)', '(0,ñ]⋃(ñ,5)~(0,5)', '[0,ñ]\\cap[ñ,9]~[ñ,ñ]', '(ñ,4)\\cup(5,6)~(ñ,6)',
      '[0,ñ]\\cup[ñ,4]~[0,4]', '(1,ñ)∩(0,4)~(1,ñ)']


def units(tier):
    big = tier != 'quick'
    for t in Q1 + Q2 + (['(##,##]~(##,##]', '[#.##,#]~[#.#,#)', '(#,#)\\cup(#,#)~(#,#)'] if big else []):
        a, b = t.split('~')
        yield verdict_unit(t, a, b, spec, pre2 if '\\cap' in t or '∩' in t else pre, doms={'ñ': '1234', 'ò': '245'}, secs=170 if not big else 900, weight=len(t))


    # an enumeration is no interval
    for a, b in (('[#,#]', '#,#'), ('(#,#)', '#, #'), ('[#,#)', '#,#'), ('[#,#]', '# or #'), ('[2,#]', '2,#'), ('[#,#]', '{#,#}'), ('[#,#]\\cup[5,6]', '#,#')):
        yield verdict_unit(f'{a} ~ {b}', a, b, lambda gt, gv: False, secs=100, weight=6)
        yield verdict_unit(f'{b} ~ {a}', b, a, lambda gt, gv: False, secs=100, weight=6)


def pre2(gt, gv):
    for i in ivs(gt)[0]:
        yield i[1] < i[2]
    for i in ivs(gv)[0]:
        yield i[1] <= i[2]


PROP = Property('C14', lambda tier: list(units(tier)),
                'one interval against one interval with symbolic end points (integers to 1-2 digits, decimals, fractions, infinities), all four bracket combinations; '
                'unions and intersections of two intervals with end points 0..9; an interval against an enumeration',
                ['each written interval has lower end < upper end', 'every explored path is replayed on the real code'])
