from ..unit import Property
from ..spec import verdict_unit, value, accept, boundary, dens, nonzero
from symx.values import snot


def spec(gt, gv):
    return accept(value(gt), value(gv))


def pre(gt, gv):
    for d in dens(gt) + dens(gv):
        yield nonzero(d)
    yield snot(boundary(value(gt), value(gv)))


Q = ['#~#', '#.##~#.##', '-#.##~-#.###', '#.##~-#.##', '0.###~0.###', '###~##.##', '0.0##~.0##', '#/#~0.##', '0.##~#/#', '-#/¹~-0.###',
     '\\frac{#}{#}~#.##', '#.###~#', '0~0.00##', '-#~-#.##', '0~-#.####', '1.00#~0.99##', '0.99##~1.00##', '-#.###~#.###',
     '\\frac{#}{¹}~\\frac{#}{¹}', '####~###.##', '0.####~0.0####']
T = Q + ['##.###~##.###', '-##.###~-##.###', '######~######.#', '##/##~#.###', '0.00###~0.00####', '-\\frac{##}{##}~-#.####', '#####.##~#####.###']


def units(tier):
    for t in (Q if tier == 'quick' else T):
        a, b = t.split('~')
        yield verdict_unit(t, a, b, spec, pre, secs=120 if tier == 'quick' else 600, weight=len(t))


PROP = Property('C03', lambda tier: list(units(tier)),
                'pairs of numerals: integers to 4 (thorough 6) digits, decimals to 4 (thorough 5) places, fractions of 1-2 digit '
                'integers, either sign; every digit symbolic',
                ['numbers exactly on a tolerance threshold are excluded (15-digit floating point decides there)',
                 'sympy numbers are modelled as exact rationals; every explored path is replayed on the real code'])
