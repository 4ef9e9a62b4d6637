import re
from ..unit import Property
from ..spec import verdict_unit, shape, accept, boundary, dec, rdiv, dens, nonzero, world, tmpl, tb
from symx.values import sand, sor, snot, siff, simplies

NUM = r'(?:\\frac\{([\d.]+)\}\{(\d+)\}|([\d.]+))?'
TERM = re.compile(rf'^([+-]?){NUM}(i|I|\\sqrt\{{-1\}})?')


def parts(s):
    from ..spec import drop
    s = drop(s, ' ')
    sh = shape(s)
    re_, im = 0, 0
    while sh:
        m = TERM.match(sh)
        if not m.group(0):
            raise ValueError(sh)
        if m.group(2) is not None:
            v = rdiv(dec(s[m.start(2):m.end(2)]), dec(s[m.start(3):m.end(3)]))
        elif m.group(4) is not None:
            v = dec(s[m.start(4):m.end(4)])
        else:
            v = 1
        if m.group(1) == '-':
            v = -v
        if m.group(5):
            im = _add(im, v)
        else:
            re_ = _add(re_, v)
        s, sh = s[m.end():], sh[m.end():]
    return re_, im


def _add(a, b):
    if isinstance(a, int) and a == 0:
        return b
    return a + b


def spec(gt, gv):
    a, b = parts(gt)
    c, d = parts(gv)
    fa = sand(accept(a, c), accept(b, d))
    # a number whose imaginary part is written but zero is a real number
    return fa


def pre(gt, gv):
    for d in dens(gt) + dens(gv):
        yield nonzero(d)
    (a, b), (c, d) = parts(gt), parts(gv)
    for x, y in ((a, c), (b, d)):
        if not isinstance(x, int) or not isinstance(y, int):
            yield snot(boundary(x, y))


Q = ['¹+¹i~¹+¹i', '¹+¹i~¹-¹i', '#+#i~#+#i', '¹-¹i~¹.#-¹i', '¹-¹i~¹-¹.##i', '¹i~¹.##i', '-¹i~-¹.#i', '¹+¹i~#', '¹i~#', '#~¹i', '#~¹+¹i', '¹+¹\\sqrt{-1}~¹+¹i', '¹+¹i~¹+¹\\sqrt{-1}', '¹+¹I~¹+¹i', '¹-¹i~¹+¹I',
     '¹+¹i~\\frac{¹}{ò}+¹i', '¹+¹i~¹i+¹', '¹+i~¹+¹i', '¹-i~¹.0-¹i', '0.¹+0.¹i~0.##+0.¹i', '0.¹+¹i~0.¹+¹.##i', '¹+\\frac{¹}{ò}i~¹+¹.#i']
T = Q + ['##.#+##i~##.#+##.#i', '-#.##+#.##i~-#.##+#.##i', '0.##-0.##i~0.##-0.###i']
TQ = ['¹+¹i~¹+¹i', '¹-¹i~¹.#-¹i', '¹i~¹.##i', '¹+¹i~¹', '¹+¹I~¹+¹i', '¹ + ¹*i~¹+¹i']


def typed(t, secs):
    from ..unit import Unit
    a, b = t.split('~')

    def sp(gt, gv):
        from ..spec import drop
        return spec(drop(gt, '*'), drop(gv, '*'))

    def body():
        from symx.core import Cur
        e = Cur.eng
        gt, gv = e.input('gt', tmpl(a, 'g', D)), e.input('gv', tmpl(b, 'v', D))
        from ..spec import drop
        for c in pre(drop(gt, '*'), drop(gv, '*')):
            e.assume(c)
        r = tb(world().get('math_evaluation.core.type_evaluations').is_equiv_type(gt, gv, 'Complex'))
        e.prove(siff(r, sp(gt, gv)), 'typed complex verdict')
        return r

    def oracle(i):
        from math_evaluation.core.type_evaluations import is_equiv_type
        try:
            r = bool(is_equiv_type(i['gt'], i['gv'], 'Complex'))
        except Exception as ex:
            return dict(ok=False, got='raised ' + type(ex).__name__, want='a verdict')
        w = bool(sp(i['gt'], i['gv']))
        return dict(ok=r == w, got=r, want=w)
    return Unit('Complex:' + t, body, oracle, compare=lambda x, y: bool(x) == y, secs=secs, weight=len(t))


D = {'ò': '245'}


def units(tier):
    secs = 170 if tier == 'quick' else 900
    for t in (Q if tier == 'quick' else T):
        a, b = t.split('~')
        yield verdict_unit(t, a, b, spec, pre, doms=D, secs=secs, weight=len(t))
    for t in TQ:
        yield typed(t, secs)


PROP = Property('C17', lambda tier: list(units(tier)),
                'a+bi with symbolic one-digit (thorough: up to three-digit) integer, decimal and fractional parts of either sign, i / I / \\sqrt{-1} spellings, untyped and with type Complex',
                ['numbers exactly on a tolerance threshold are excluded', 'every explored path is replayed on the real code'])
