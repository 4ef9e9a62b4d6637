from ..unit import Property
from ..spec import verdict_unit
from ._num import spec_val, pre_val

Q = ['# #/¹~#.##', '# #/¹~##/ñ', '#\\frac{#}{¹}~#.#', '#\\frac#¹~##/ñ', '#\\frac{#}{ñ}~\\frac{##}{ñ}', '-# #/¹~-#.##', '-#\\frac{#}{¹}~-#.#', '-#\\frac#¹~-#.##', '# \\frac{#}{¹}~#.#', '## ¹/¹~##.#',
     '-#\\frac{#}{¹}~#.#', '- #\\frac{#}{¹}~-#.#', '# #/ñ~#\\frac{#}{ñ}', '#\\dfrac{#}{¹}~#.#', '#\\frac{#}¹~#.#', '#\\frac #¹~#.#']
T = Q + ['## ##/¹~##.##', '##\\frac{##}{¹#}~##.#', '-##\\frac{#}{¹#}~-##.#']


def units(tier):
    for t in (Q if tier == 'quick' else T):
        a, b = t.split('~')
        yield verdict_unit(t, a, b, spec_val, pre_val, doms={'ñ': '237'}, secs=150 if tier == 'quick' else 600, weight=len(t))


PROP = Property('C05', lambda tier: list(units(tier)),
                'mixed numbers with 1-2 digit parts, both signs, plain and \\frac forms, against decimals and fractions; every digit symbolic',
                ['nonzero denominators', 'numbers exactly on a tolerance threshold are excluded',
                 'sympy numbers are modelled as exact rationals; every explored path is replayed on the real code'])
