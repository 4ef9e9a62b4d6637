from ..unit import Property
from ..spec import verdict_unit, value, accept, shape
from ._num import pre_vals, any_accept

Q = ['#\\%~#', '##\\%~0.##', '##%~#.#', '#.#\\%~0.0##', '#.#\\%~#.#%', '#.##~##%', '0.0#~#.#\\%', '##.#\\%~0.###', '-#.#\\%~-0.0##', '#.##\\%~0.0###', '0.0#\\%~0.000#', '##~##\\%', '###\\%~#.##', '#\\%~#.0\\%',
     '.#\\%~0.00#', '#0\\%~0.#']
T = Q + ['##.##\\%~0.####', '#.###\\%~0.0####', '0.00#\\%~0.0000#', '####\\%~##.##', '##.##~####%']


def vals(s):
    v = value(s)
    return [v, v / 100] if '%' in shape(s) else [v]


def spec(gt, gv):
    a, b = shape(gt).endswith('%'), shape(gv).endswith('%')
    if a and b:
        return (accept(value(gt), value(gv)), False)
    r = any_accept(vals(gt), vals(gv))
    return r


def pre(gt, gv):
    return pre_vals(vals(gt), vals(gv))


def units(tier):
    for t in (Q if tier == 'quick' else T):
        a, b = t.split('~')
        yield verdict_unit(t, a, b, spec, pre, secs=150 if tier == 'quick' else 600, weight=len(t))


PROP = Property('C06', lambda tier: list(units(tier)),
                'percentages with up to 3 (thorough 4) digits against decimals and percentages in both argument positions; every digit symbolic',
                ['numbers exactly on a tolerance threshold are excluded', 'two percentages are only required to match when their numbers match',
                 'sympy numbers are modelled as exact rationals; every explored path is replayed on the real code'])
