import re
from ..unit import Property
from ..spec import verdict_unit, value, shape, accept, boundary, eq0
from symx.values import sand, sor, snot

OPS = {'<': ('<', 0), '>': ('>', 0), '\\le': ('<', 1), '\\leq': ('<', 1), '\\ge': ('>', 1), '\\geq': ('>', 1), '=': ('=', 0), '\\ne': ('!', 0), '\\neq': ('!', 0)}
RX = re.compile(r'^(.*?) ?(\\leq|\\geq|\\le|\\ge|\\neq|\\ne|<|>|=) ?(.*)$')
TERM = re.compile(r'^([+-]?)(\d*(?:\.\d+)?)(x?)')


def lin(s):
    """a x + b of a side"""
    a = b = 0
    sh = shape(s).replace(' ', '')
    from ..spec import drop, dec
    s = drop(s, ' ')
    while sh:
        m = TERM.match(sh)
        if not m or not m.group(0):
            raise ValueError(sh)
        v = dec(s[m.start(2):m.end(2)]) if m.group(2) else 1
        if m.group(1) == '-':
            v = -v
        if m.group(3):
            a = a + v
        else:
            b = b + v
        s, sh = s[m.end():], sh[m.end():]
    return a, b


def rel(s):
    """(kind, strictness, a, b): a x + b (kind) 0, kinds: '<' '=' '!' ('>' is turned round)"""
    m = RX.match(shape(s))
    l, r = lin(s[:m.end(1)]), lin(s[m.start(3):])
    k, st = OPS[m.group(2)]
    a, b = l[0] - r[0], l[1] - r[1]
    if k == '>':
        k, a, b = '<', -a, -b
    return k, st, a, b


def z(x):
    return x == 0


def spec(gt, gv):
    k1, s1, a1, b1 = rel(gt)
    k2, s2, a2, b2 = rel(gv)
    if k1 != k2 or s1 != s2:
        return (False, True)
    same = sand(z(a1 - a2), z(b1 - b2))
    if k1 in '=!':
        opp = sand(z(a1 + a2), z(b1 + b2))
        sides = same_sides(gt, gv)
        acc = sides
        far1 = sor(snot(z(a1 - a2)), big(b1 - b2))
        far2 = sor(snot(z(a1 + a2)), big(b1 + b2))
        return acc, sand(far1, far2)
    return same_sides(gt, gv), sor(snot(z(a1 - a2)), big(b1 - b2))


def big(d):
    return abs(d) >= 1 if not isinstance(d, int) else abs(d) >= 1


def same_sides(gt, gv):
    """the same relation, or the same with the sides swapped (and the operator turned)"""
    m, n = RX.match(shape(gt)), RX.match(shape(gv))
    k1, k2 = OPS[m.group(2)], OPS[n.group(2)]
    A, B = lin(gt[:m.end(1)]), lin(gt[m.start(3):])
    C, D = lin(gv[:n.end(1)]), lin(gv[n.start(3):])
    flip = {'<': '>', '>': '<', '=': '=', '!': '!'}
    out = []
    e2 = lambda p, q: sand(z(p[0] - q[0]), z(p[1] - q[1]))
    if k1 == k2:
        out.append(sand(e2(A, C), e2(B, D)))
    if k1[1] == k2[1] and k1[0] == flip[k2[0]]:
        out.append(sand(e2(A, D), e2(B, C)))
    return sor(*out)


def pre(gt, gv):
    for s in (gt, gv):
        m = RX.match(shape(s))
        l, r = lin(s[:m.end(1)]), lin(s[m.start(3):])
        yield snot(sand(z(l[0] - r[0])))       # a genuine relation about x
    return


Q = ['x<#~#>x', 'x<#~x<#', 'x<#~x>#', 'x<#~x\\le#', 'x\\le#~#\\ge x', 'x \\leq #~# \\geq x', 'x>#~x\\geq#', 'x>#~x<#', 'x\\ge#~x\\le#', 'x=#~#=x', 'x=#~x<#', 'x+#=#~#=x+#', '2x+#=ò~#=2x+ò', 'ñx+1=#~3=òx+ò', 'ñx=#~#=òx',
     'x \\ne #~# \\ne x', 'x\\neq#~x=#', 'x\\neq#~x<#', 'x \\ne #~x \\ne #', 'ñx<#~#>3x', 'ñx+2<1~#>òx+ñ', '#x\\le#~#x<#', '#x+#\\ge#~#\\le#x+#', 'x<-#~-#>x', '#<x~x>#', '#\\le x~x\\ge#', 'x<#.#~#.#>x', 'ñx=#~x=#', '#>x~x>#', '#\\ge x~x\\ge #', '#\\neq x~x=#']
T = Q + ['2x+#=#~#=2x+#', 'ñx<#~#>òx', 'ñx+#=#~#=ñx+ñ', 'ñx+#<ñ~#>òx+ñ', '#x+#=#~#=#x+#', '#x=#~#=#x', '#x<#~#>#x', '#x+#<#~#>#x+#', '#x=#~x=#', '#x+#=#x+#~#x+#=#x+#', '##x<##~##>##x', 'x+#.#\\le#~#\\ge x+#.#', '-#x+#<#~#>-#x+#']


def units(tier):
    for t in (Q if tier == 'quick' else T):
        a, b = t.split('~')
        yield verdict_unit(t, a, b, spec, pre, doms={'ñ': '123', 'ò': '0235'}, secs=170 if tier == 'quick' else 900, weight=t.count('#') + 2 * t.count('ñ'))


PROP = Property('C16', lambda tier: list(units(tier)),
                'linear relations in one unknown with one-digit (thorough also two-digit and decimal) symbolic constants, every operator on each side, sides swapped or not',
                ['the unknown does not cancel', 'random evaluation points are pairwise different fixed points (arbitrary points are covered by C18)',
                 'every explored path is replayed on the real code'])
