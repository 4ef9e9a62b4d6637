import re
from fractions import Fraction
from ..unit import Property
from ..spec import verdict_unit, value, dint, shape
from ._num import pre_vals, any_accept

Q = ['#_#~#', '##_#~##', '##_{#}~###', '###_#~###', '¹##_{¹}~####', '##_{1#}~###', '##~##_#', '####_2~##', '#_{#}~#.#', '##_{10}~##', '0##_8~##']
T = Q + ['####_#~####', '###_{1#}~####', '#####_2~##', '####_{16}~#####', '####_3~####']
RX = re.compile(r'^(\d+)_(?:(\d)|\{(\d+)\})$')


def vals(s):
    m = RX.match(shape(s))
    if not m:
        return [value(s)]
    ds = s[m.start(1):m.end(1)]
    i = 2 if m.group(2) is not None else 3
    b = dint(s[m.start(i):m.end(i)])
    if not isinstance(b, Fraction):
        from symx.core import Cur
        from symx.values import SymReal
        b = Fraction(Cur.eng.concretize(b.n, 1100))
    v = Fraction(0)
    for k in range(len(shape(ds))):
        v = v * b + dint(ds[k:k + 1])
    return [dint(ds), v]


def spec(gt, gv):
    return any_accept(vals(gt), vals(gv))


def pre(gt, gv):
    return pre_vals(vals(gt), vals(gv))


NORM = ['######_#', '######_{#}', '###_{ñ#}', '##_{1##}', ' ###_# ', '$##_{ñ#}$', '############_2', '########_{16}', '\\text{###_#}', '####_{0#}']


def norm_ok(s, r):
    from ..spec import drop, eq0
    from symx.values import sand, sor
    a, b = vals(drop(unwrap(s), ' $'))
    if isinstance(r, str) or not hasattr(r, '__iter__'):
        return False
    l = list(r)
    try:
        l = [value(y) for y in l]
    except Exception:
        return None
    if len(l) == 1:
        return sand(eq0(l[0] - a), eq0(l[0] - b))
    if len(l) != 2:
        return False
    return sor(sand(eq0(l[0] - a), eq0(l[1] - b)), sand(eq0(l[1] - a), eq0(l[0] - b)))


def unwrap(s):
    sh = shape(s)
    return s[6:len(sh) - 1] if sh.startswith('\\text{') else s


def norm_unit(t, tier):
    from ..unit import Unit
    from ..spec import tmpl, sym_normalize

    def body():
        from symx.core import Cur, Incomplete
        e = Cur.eng
        s = e.input('text', tmpl(t, 't', {'ñ': '123'}))
        r = sym_normalize(s)
        ok = norm_ok(s, r)
        if ok is None:
            raise Incomplete('reading')
        e.prove(ok, 'readings of ' + t)

    def oracle(i):
        from math_evaluation.core.latex_normalize import string_normalize
        r = string_normalize(i['text'])
        ok = norm_ok(i['text'], r)
        return dict(ok=True if ok is None else bool(ok), got=sorted(r) if not isinstance(r, str) else r, want='digits and positional value')
    return Unit('readings ' + t, body, oracle, secs=100, weight=9, max_paths=4000)


def units(tier):
    for t in NORM:
        yield norm_unit(t, tier)
    for t in (Q if tier == 'quick' else T):
        a, b = t.split('~')
        yield verdict_unit(t, a, b, spec, pre, secs=150 if tier == 'quick' else 600, weight=len(t))


PROP = Property('C07', lambda tier: list(units(tier)),
                'numerals of up to 4 (thorough 5) symbolic digits in every base written with one or two digits, against integers and decimals of up to 4 digits, both argument positions',
                ['base forked over all its values by the solver', 'numbers exactly on a tolerance threshold are excluded',
                 'sympy numbers are modelled as exact rationals; every explored path is replayed on the real code'])
