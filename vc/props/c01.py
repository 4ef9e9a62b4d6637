"""Identity and None. The answer is a template whose holes are solver variables over printable ASCII, white space and special characters
(or a text all of whose characters are), the padding is any white space; the algebra answers False or fails, so nothing but the identity can accept."""
from ..unit import Property, Unit
from ..spec import world
from .c02 import text, nat, patched, Verdict, is_bool, ALL, LATEX, E, HOLES
from symx.values import SymBool

WS = ' \t\n\r\x0b\x0c\xa0\u2028'
PADS = [('', '', '', ''), ('~', '', '', '~'), ('', '~~', '~', ''), ('~', '~', '', ''), ('', '', '~', '~~')]


def pad(p):
    from symx import values, sstr
    return sstr.mk([values.new_cell('w', [ord(c) for c in WS]) for _ in p])


def unit(name, mk, pads=PADS, modes=(False, 'fail'), **kw):
    def body():
        from symx.core import Cur
        e = Cur.eng
        s = mk()
        P = pads[e.choose(len(pads), 'pads')]
        gt = e.input('gt', pad(P[0]) + s + pad(P[1]))
        gv = e.input('gv', pad(P[2]) + s + pad(P[3]))
        mode = e.input('mode', modes[e.choose(len(modes), 'mode')])
        w = world({E + '.are_equal_under_sympy': Verdict(mode)})
        r, bad = nat(lambda: w.get(E).is_equiv(gt, gv))
        e.prove(False if bad or not is_bool(r) else r, f'{name}: {bad or r}')
        return bad or bool(r)

    def oracle(i):
        import math_evaluation.core.evaluations as ev
        with patched(ev, {'are_equal_under_sympy': Verdict(i['mode'])}):
            r, bad = nat(lambda: ev.is_equiv(i['gt'], i['gv']))
        return dict(ok=r is True, got=bad or r, want='True')
    return Unit(name, body, oracle, compare=lambda a, b: a == b, **kw)


def none_unit(tier):
    def body():
        from symx.core import Cur
        e = Cur.eng
        k = e.choose(3, 'which')
        s = None if k == 0 else e.input('s', text(['', '?', '??', '???'][e.choose(4, 'length')], 's'))
        e.input('which', k)
        if k == 0:
            e.input('s', None)
        a, b = [(None, None), (None, s), (s, None)][k]
        r, bad = nat(lambda: world().get(E).is_equiv(a, b))
        e.prove(bad is None and bool(r) is (k == 0), f'None: {bad or r}')
        return bad or bool(r)

    def oracle(i):
        from math_evaluation import is_equiv
        a, b = [(None, None), (None, i['s']), (i['s'], None)][i['which']]
        r, bad = nat(lambda: is_equiv(a, b))
        return dict(ok=r is (i['which'] == 0), got=bad or r, want=i['which'] == 0)
    return Unit('None on either side', body, oracle, compare=lambda a, b: a == b)


LONG = ['\\frac{?}{!}', '(?,!)', '[!,?]', '?,?!', '\\begin{pmatrix}?\\\\!\\end{pmatrix}', '?\\%', '90^\\circ?', '?:!0 pm', '1_{?}!', '\\text{!?}', '?=!', '?<!?', '\\{?,!\\}', '1 ?/!', 'No?!Solution', '\\boxed{?!', '?\\cup!', '\\int?!dx', '$?!$', '?!\\$', '\\left(?!', '1,?00,000!']


def units(tier):
    q = tier == 'quick'
    yield none_unit(tier)
    for n in range(0, 5 if q else 7):
        yield unit(f'any text of length {n}', lambda n=n: text('?' * n, 's'), secs=150, weight=3)
    for t in LONG + ([] if q else HOLES):
        yield unit(f'text {t!r}', lambda t=t: text(t, 's'), secs=150)
    yield unit('text with blanks inside', lambda: text('?', 's') + pad('~') + text('!', 's') + pad('~~') + text('?', 's'), secs=150)
    yield unit(f'any text of length {10 if q else 40}', lambda: text('?' * (10 if q else 40), 's'), secs=150)
    yield unit('long text with holes', lambda: text('x?' * 150 + '!', 's'), pads=PADS[:1] + PADS[3:4], secs=150)
    yield unit('very long text with holes', lambda: text(' + \\frac{?}{!}' * 200, 's'), pads=PADS[:1] + PADS[3:4], secs=150)


PROP = Property('C01', lambda tier: list(units(tier)),
                'every text of length up to 4 (thorough 6) over printable ASCII, white space and 14 special characters, every filling of the holes of 22 (thorough 100) templates, five ways of padding with up to two of 8 white space characters; None in every position',
                ['the algebra never accepts or fails (the weakest it can do)'])
