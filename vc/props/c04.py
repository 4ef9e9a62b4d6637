from ..unit import Property
from ..spec import verdict_unit
from ._num import spec_val, pre_val

Q = ['#.#0~#.#', '#.#~#.#00', '#.0~#', '¹,###~####', '##,###~#####', '¹,###.#~####.#', '¹,###,###~#######', '\\frac{#}{¹}~#/ò', '\\dfrac{#}{¹}~0.##',
     '\\tfrac##~#.#', '\\cfrac{¹#}{¹}~#.#', '\\frac##~\\dfrac{#}{#}', '\\frac #¹~#.#', '# million~#000000', '#.# million~##00000', '¹ billion~#000000000',
     '# trillion~#000000000000', '#trillion~#000000000000', '#.#million~##00000', '-#billion~-#000000000', '# trillion~## billion', '#.# million~0.### billion', '#.#\\times 10^d~##0', '#.#\\times 10^{d}~###', '#.##\\cdot 10^{-d}~0.0###', 'ñe-d~0.00##', 'ñ.5e-0d~0.0###',
     'ñEd~###', '2.ñ0e+d~###', '-¹,###~-####', '-\\frac{#}{¹}~-#.#', 'ñe-d~1\\times 10^{-d}', '-ñ.2e-d~-0.0##', '.##~0.##', '#~0#', 'ñ.#~ñ.ñe0']
T = Q + ['#.#e-0d~0.0###', '#Ed~###', '#.##e+d~###', '#e-d~#\\times 10^{-d}', '-#.#e-d~-0.0###', '#.#~#.#e0', '##,###,###~########', '\\frac{##}{¹#}~0.###', '#.###e-d~0.00####', '#.##e-1d~0.0##', '##.## million~####0000', '\\frac##~\\tfrac{#}{#}']
D = {'d': '0123'}


def units(tier):
    for t in (Q if tier == 'quick' else T):
        a, b = t.split('~')
        # 'd' (a small exponent digit) only in exponents: letters of words are protected by upper-case markers
        yield verdict_unit(t, fix(a), fix(b), spec_val, pre_val, doms={'ð': '0123', 'ñ': '0147', 'ò': '237'}, secs=150 if tier == 'quick' else 600, weight=len(t) + 50 * ('e' in t.replace('\\times', '')))


def fix(t):
    import re
    return re.sub(r'(?<=[eE^{+\-01])d(?=$|\})', 'ð', t)


PROP = Property('C04', lambda tier: list(units(tier)),
                'pairs of notations (plain decimal, trailing zeros, thousands groups, a/b, \\frac family, e-notation and \\times 10^n with '
                'exponents -3..3 (quick: mantissa digits 0,1,4,7 in e-notation), million/billion/trillion); every digit symbolic',
                ['nonzero denominators', 'numbers exactly on a tolerance threshold are excluded (15-digit floating point decides there)',
                 'sympy numbers are modelled as exact rationals; every explored path is replayed on the real code'])
