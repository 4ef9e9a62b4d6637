"""Totality. Every character of the text (or of the holes of a template) is a solver variable over printable ASCII, the ASCII white
space and 14 other characters that Python treats specially (Unicode digits, superscripts, blanks, letters without a code point in LaTeX).
The outcome of the algebra (are_equal_under_sympy) is arbitrary, and the parsers may fail or answer on anything."""
from ..unit import Property, Unit
from ..spec import world
from ._opaque import failure
from symx.values import SymBool

ASCII = ''.join(map(chr, list(range(9, 14)) + list(range(32, 127))))
ODD = '²½٣°π∪∞−\xa0\u2028éΩ万\x00'
ALL = ASCII + ODD
LATEX = '\\{}()[],.0a^_ %$-=<|&:'
FEW = LATEX + '1x+/*\n²٣é'      # quick: comparison of two texts
N, L, E = 'math_evaluation.core.latex_normalize', 'math_evaluation.core.latex_parser', 'math_evaluation.core.evaluations'

# holes: '?' any character, '!' a character that is special in LaTeX or in the normaliser
HOLES = ['\\frac{?!', '\\frac?!', '\\frac !?', '\\frac', '\\dfrac{?}!', '\\sqrt!?', '\\sqrt[!]?', '\\sqrt', '\\text{!?', '\\text!?', '\\mbox{!?}', '\\text{?}!', '\\begin{?!', '\\begin{matrix}!?', '\\begin{pmatrix}!?\\end{pmatrix}', '\\begin{array}{!?}1\\end{array}', '\\end{matrix}?',
         '(!,?', '[?,!)', '?,!)', '\\left!?', '\\left(!?\\right', '\\{?!', '?!_', '?_!', '!_{?', '1_{?}!', '1_?', '?^\\circ!', '?^{\\circ!', '\\circ?', '?:!?', '1:??!', '1:?? pm', '? pm!', 'p.m.?', '?!\\%', '?%', '%?', '1,?!?', '?,123', '1,2?3', '??e!', '1e?!', '!?million', '1 ?/!', '? 1/!', '? \\frac!?',
         '$?!', '!$', '\\$?!', '\\!?', '\\?!', '\\\\?!', '?\\', '\\boxed{?!', '\\pm?!', '?\\cup!', '(1,2)\\cup?!', '\\infty?!', '\\in?!', 'x\\in?!', 'x=?!', '?=!', '?<!', '\\leq?!', '\\sin?!', '\\log_?!', '|?!', '!?!', '\\xrightarrow?', '5 \\text{cm}?!', '5 cm?!', '7 hours?!', '90^\\circ?!', '\\overline{?!', '\\mathrm{?!', '{,}?!', '1{,}?!', '\\cdot?!', '?*10^!', '10^{?!', '\\dots?', 'and?!', 'or?!', '?and!']


def normal_ok(r):
    if isinstance(r, str) or type(r).__name__ == 'SymStr':
        return True
    return (isinstance(r, (set, frozenset)) or type(r).__name__ == 'SymSet') and all(isinstance(x, str) or type(x).__name__ == 'SymStr' for x in r)


def text(t, pre, full=ALL):
    from symx import values, sstr
    return sstr.mk([values.new_cell(pre, [ord(c) for c in (full if ch == '?' else LATEX)]) if ch in '?!' else ord(ch) for ch in t])


def nat(f):
    try:
        return f(), None
    except RecursionError:
        raise
    except Exception as ex:
        return None, 'raised ' + type(ex).__name__


def show(r):
    return 'set' if isinstance(r, (set, frozenset)) or type(r).__name__ == 'SymSet' else 'str' if isinstance(r, str) or type(r).__name__ == 'SymStr' else type(r).__name__


class Parser:
    """a parser that fails on everything, or (mode 'ok') is the real one"""
    def __init__(self, exc):
        self.exc = exc

    def __call__(self, *a, **k):
        raise failure(self.exc)


def norm_unit(name, mk, broken=None, **kw):
    st = {N + '.latex2sympy': Parser(broken), N + '.parse_latex': Parser(broken)} if broken else None

    def body():
        from symx.core import Cur
        e = Cur.eng
        s = e.input('s', mk())
        n = world(st).get(N)
        r, bad = nat(lambda: n.string_normalize(s))
        e.prove(bad is None and normal_ok(r), f'{name}: {bad or show(r)}')
        return bad or show(r)

    def oracle(i):
        import math_evaluation.core.latex_normalize as n
        with patched(n, {'latex2sympy': Parser(broken), 'parse_latex': Parser(broken)} if broken else {}):
            r, bad = nat(lambda: n.string_normalize(i['s']))
        return dict(ok=bad is None and normal_ok(r), got=bad or show(r), want='a string or a set of strings')
    return Unit(name, body, oracle, compare=lambda a, b: a == b, **kw)


class patched:
    def __init__(self, m, kv):
        self.m, self.kv = m, {k: v for k, v in kv.items() if hasattr(m, k)}

    def __enter__(self):
        self.old = {k: getattr(self.m, k) for k in self.kv}
        for k, v in self.kv.items():
            setattr(self.m, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)


class Verdict:
    """the algebra: any verdict, or a failure"""
    def __init__(self, mode):
        self.mode = mode

    def __call__(self, gt, gv, verbose=False):
        if isinstance(self.mode, str):
            raise failure('value')
        return self.mode


def is_bool(r):
    return isinstance(r, (bool, SymBool)) or type(r).__name__ == 'bool_'


def equiv_unit(name, mk1, mk2, **kw):
    def body():
        import z3
        from symx.core import Cur
        e = Cur.eng
        a, b = e.input('gt', mk1()), e.input('gv', mk2())
        mode = e.input('mode', 'fail' if e.choose(4, 'mode') == 3 else SymBool(z3.Bool('verdict')))
        w = world({E + '.are_equal_under_sympy': Verdict(mode)})
        r, bad = nat(lambda: w.get(E).is_equiv(a, b))
        e.prove(bad is None and is_bool(r), f'{name}: {bad or type(r).__name__}')
        return bad or 'verdict'

    def oracle(i):
        import math_evaluation.core.evaluations as ev
        with patched(ev, {'are_equal_under_sympy': Verdict(i['mode'])}):
            r, bad = nat(lambda: ev.is_equiv(i['gt'], i['gv']))
        ok = bad is None and isinstance(r, bool)
        return dict(ok=ok, got=bad or ('verdict' if ok else type(r).__name__), want='True or False')
    return Unit(name, body, oracle, compare=lambda a, b: a == b, **kw)


def units(tier):
    q = tier == 'quick'
    S = dict(secs=120 if q else 700, max_paths=60000)
    yield norm_unit('empty text', lambda: '', weight=1)
    for n in (1, 2) if q else (1, 2, 3):
        yield norm_unit(f'any text of length {n}', lambda n=n: text('?' * n, 's'), weight=4 ** n, every=9, **S)
    if q:
        yield norm_unit('any text of length 3, second or third character special', lambda: text('?!!', 's'), weight=50, every=30, **S)
    else:
        for c in range(0, len(ALL), 7):
            yield norm_unit(f'text of length 4 starting with one of {ALL[c:c + 7]!r}', lambda c=c: text4(ALL[c:c + 7]), weight=80, every=100, **S)
    for t in HOLES:
        for h in [t] if q else [t, t.replace('!', '?') + '!']:
            yield norm_unit(f'normalise {h!r}', lambda h=h: text(h, 's'), weight=6, every=9, **S)
    yield norm_unit('any text of length 2, parsers fail', lambda: text('??', 's'), broken='value', weight=10, every=9, **S)
    F = FEW if q else ALL
    for a, b in [('?', '?'), ('!', '(!'), ('{!', '!'), ('?', '1!'), ('x!', '?')] + ([] if q else [('?', '?!'), ('?!', '!'), ('??', '?'), ('!!', '!!'), ('!!!', '?'), ('?', '!!!')]):
        yield equiv_unit(f'compare any texts {a} {b}', lambda a=a: text(a, 'g', F), lambda b=b: text(b, 'v', F), weight=60, every=20, **S)
    for a, b in [('(!,?', '(1,2)'), ('[1,2]', '!?,3]'), ('!,?', '1,2'), ('\\begin{pmatrix}!?\\end{pmatrix}', '\\begin{pmatrix}1\\\\2\\end{pmatrix}'), ('\\begin{pmatrix}1&2\\\\3&4\\end{pmatrix}', '[[1,2],!?'), ('\\{!?\\}', '\\{1,2\\}'), ('1', '\\text{!?}'), ('(1,2)\\cup(3,4)', '(1,2)\\cup!?'), ('?\\%', '!\\%'), ('90^\\circ', '?!'), ('?:!0 pm', '3'), ('x!?', 'x=1'), ('1_{!}', '?_2'), ('!{?}', '1 \\frac{1}{2}')]:
        yield equiv_unit(f'compare {a!r} {b!r}', lambda a=a: text(a, 'g', F), lambda b=b: text(b, 'v', F), weight=20, every=9, **S)


def text4(first):
    from symx import values, sstr
    return sstr.mk([values.new_cell('s', [ord(c) for c in first])] + [values.new_cell('s', [ord(c) for c in ALL]) for _ in range(2)] + [values.new_cell('s', [ord(c) for c in LATEX])])


PROP = Property('C02', lambda tier: list(units(tier)),
                'string_normalize: every text of length up to 2 (quick; length 3 with two special characters) or 3 (thorough; length 4 with the last character special) over printable ASCII, white space and 14 non-ASCII characters, and every filling of the holes of 80 templates; is_equiv: every pair of texts of length up to 2 and templates with holes, for every verdict or failure of the algebra',
                ['the algebra below are_equal_under_sympy is arbitrary here; that it returns whatever its steps do is C19'])
