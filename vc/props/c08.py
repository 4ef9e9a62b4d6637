import re
from ..unit import Property
from ..spec import verdict_unit, dint, shape, eq0
from symx.values import sand, sor, snot

RX = re.compile(r'^(\d{1,2})(?::(\d\d)(?::(\d\d))?)?\s*(\\text\{\s*([ap])\.?m\.?\s*\}|([ap])\.?m\.?)?$', re.I)
# 'ò': tens of minutes/seconds, 'H': tens of the hour on the 24-hour clock
Q = ['#:ò# pm~1#:ò#', '#:ò# pm~2#:ò#', '#:ò#pm~1#:ò#', '#:ò# \\text{ p.m.}~1#:ò#', '#:ò#~#:ò#', '#:ò#:ò#~#:ò#:ò#', '#:ò#:00~#:ò#', '#:ò#:ò# pm~1#:ò#:ò#', '# pm~1#:00', '1#:ò# PM~2#:ò#',
     '#:ò# P.M.~#:ò# \\text{pm}', '#:ò# am~#:ò#', '#:ò# am~0#:ò#', '1#:ò#~1#:ò# pm', '#:00 p.m.~1#', '#:ò#\\text{pm}~#:ò# am', '0#:ò# p.m.~#:ò#:00 pm', '#:ò#~#:ò#:ò#', '#\\text{ pm}~1#', '1# pm~1#', '1# p.m.~2#:00', '1#:00 pm~1#', '1#:ò#:ò# pm~1#:ò#:ò#', '1#\\text{ pm}~2#']
T = Q + ['H#:ò#:ò# pm~H#:ò#:ò#', 'H#:ò# pm~H#:ò# pm', 'H#:ò#~H#:ò#', 'H#:ò#:ò#~H#:ò#:ò#']


def parts(s):
    sh = shape(s).strip()
    m = RX.match(sh)
    g = lambda i: dint(s[m.start(i):m.end(i)]) if m.group(i) is not None else 0
    mer = (m.group(5) or m.group(6) or '').lower()
    return g(1), g(2), g(3), mer


def spec(gt, gv):
    h1, m1, s1, a = parts(gt)
    h2, m2, s2, b = parts(gv)
    ms = sand(eq0(m1 - m2), eq0(s1 - s2))
    d = h1 - h2
    same12 = sor(eq0(d), eq0(d - 12), eq0(d + 12))
    if a == 'p' and b != 'p':
        acc = sor(eq0(h2 - _pm(h1)), False)
        acc = sand(ms, acc_hour(h1, h2))
    elif b == 'p' and a != 'p':
        acc = sand(ms, acc_hour(h2, h1))
    else:
        acc = sand(ms, eq0(d))
    rej = sor(snot(ms), snot(same12))
    return acc, rej


def _pm(h):
    return h + 12


def acc_hour(h, k):
    """hour h p.m. is hour k on the 24-hour clock"""
    return sor(sand(h < 12, eq0(k - h - 12)), sand(h == 12, eq0(k - 12)), sand(h > 12, eq0(k - h)))


def pre(gt, gv):
    for s in (gt, gv):
        yield parts(s)[0] <= 23


def units(tier):
    for t in (Q if tier == 'quick' else T):
        a, b = t.split('~')
        yield verdict_unit(t, a, b, spec, pre, doms={'ò': '012345', 'H': '012'}, secs=170 if tier == 'quick' else 700, weight=len(t) + 30 * ('pm' in t and ':' in t))


PROP = Property('C08', lambda tier: list(units(tier)),
                'pairs of times with every hour 0-23, minute and second 0-59 symbolic, marker spellings am/pm/a.m./p.m. in either case, plain or in \\text',
                ['every explored path is replayed on the real code'])
