"""Building blocks shared by the harnesses: templates with symbolic digits, reference values of notations (written once,
they work on concrete text with Fractions and on symbolic text with solver terms), the acceptance rule."""
import re
import sys
from fractions import Fraction

REPO_MODS = ('math_evaluation.core.evaluations',)


# ------------------------------------------------------------------ templates
def tmpl(t, pre, doms=None):
    """'#' digit 0-9, '¹' digit 1-9, any other key of doms: a character from that set. -> symbolic string"""
    from symx import values, sstr
    out = []
    doms = doms or {}
    for ch in t:
        if ch in doms:
            d = doms[ch]
            out.append(values.new_cell(pre, [ord(c) for c in d]))
        elif ch == '#':
            out.append(values.new_cell(pre, range(48, 58)))
        elif ch == '¹':
            out.append(values.new_cell(pre, range(49, 58)))
        else:
            out.append(ord(ch))
    return sstr.mk(out)


def shape(s):
    """text with every symbolic character shown as '0' (only digits are symbolic in numeric templates)"""
    if isinstance(s, str):
        return s
    return ''.join(chr(c) if isinstance(c, int) else '0' for c in s.c)


def piece(s, a, b):
    return s[a:b]


def dint(s):
    """integer value of a digit string (concrete or symbolic)"""
    if isinstance(s, str):
        return Fraction(int(s)) if s else Fraction(0)
    from symx.values import SymReal
    import z3
    t = z3.IntVal(0)
    for c in s.c:
        t = t * 10 + ((c - 48) if isinstance(c, int) else c.e - 48)
    r = SymReal(z3.simplify(t), 1).norm()
    return r


def drop(s, bad):
    """remove the given concrete characters"""
    if isinstance(s, str):
        return ''.join(c for c in s if c not in bad)
    from symx import sstr
    return sstr.mk([c for c in s.c if not (isinstance(c, int) and chr(c) in bad)])


def cat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    from symx import sstr
    return sstr.mk(list(sstr.cells(a)) + list(sstr.cells(b)))


def dec(s):
    """value of [sign]digits[.digits] with optional commas"""
    s = drop(s, ', ')
    sh = shape(s)
    neg = False
    if sh[:1] in '+-' and sh:
        neg = sh[0] == '-'
        s, sh = s[1:], sh[1:]
    i = sh.find('.')
    if i < 0:
        v = dint(s)
    else:
        v = dint(cat(s[:i], s[i + 1:])) / 10 ** (len(sh) - i - 1)
    return -v if neg else v


def nonzero(x):
    from symx.values import snot
    return snot(eq(x, 0))


def eq(a, b):
    return a == b


NUM = r'[+-]?(?:\d[\d,]*\.?\d*|\.\d+)'
FORMS = [
    ('dec', re.compile(rf'^({NUM})$')),
    ('frac', re.compile(rf'^(-?)({NUM})/({NUM})$')),
    ('tfrac', re.compile(rf'^(-?)\\[dtc]?frac\{{({NUM})\}}\{{({NUM})\}}$')),
    ('tfrac1', re.compile(r'^(-?)\\[dtc]?frac ?(\d)(\d)$')),
    ('sci', re.compile(rf'^({NUM})[eE]([+-]?\d+)$')),
    ('tsci', re.compile(rf'^({NUM}) ?(?:\\times|\\cdot|\*) ?10\^(?:\{{(-?\d+)\}}|(\d))$')),
    ('word', re.compile(rf'^({NUM}) ?(?:\\text\{{ ?)?(million|billion|trillion)\}}?$')),
    ('mixed', re.compile(r'^(-?)(\d+) +(\d+)/(\d+)$')),
    ('mixedt', re.compile(r'^(-?) ?(\d+) *\\[dt]?frac ?(?:\{(\d+)\}|(\d))(?:\{(\d+)\}|(\d))$')),
    ('pct', re.compile(rf'^({NUM}) ?\\?%$')),
]


class NoVal(Exception):
    pass


def rdiv(a, b):
    """exact quotient; b's value may be symbolic (then a comparable ratio is returned)"""
    if isinstance(b, Fraction) or isinstance(b, int):
        if b == 0:
            raise NoVal('division by zero')
        return a / b if isinstance(b, Fraction) else a / Fraction(b)
    from symx.values import SymReal, SymRatio
    return SymRatio.make(SymReal.of(a), SymReal.of(b))


def pow10(e):
    """10**e for a digit string value"""
    if isinstance(e, Fraction):
        return Fraction(10) ** int(e)
    from symx.core import Cur
    k = Cur.eng.concretize(e.n)
    return Fraction(10) ** k


def value(s):
    """the number a notation denotes (raises NoVal when the shape is none of the known ones)"""
    sh = shape(s)
    for k, rx in FORMS:
        m = rx.match(sh)
        if not m:
            continue
        g = lambda i: s[m.start(i):m.end(i)] if m.group(i) is not None else None
        if k == 'dec':
            return dec(g(1))
        if k in ('frac', 'tfrac', 'tfrac1'):
            r = rdiv(dec(g(2)), dec(g(3)))
            return -r if m.group(1) == '-' else r
        if k == 'sci':
            return dec(g(1)) * pow10(dec(g(2)))
        if k == 'tsci':
            return dec(g(1)) * pow10(dec(g(2) if g(2) is not None else g(3)))
        if k == 'word':
            return dec(g(1)) * {'million': 10 ** 6, 'billion': 10 ** 9, 'trillion': 10 ** 12}[m.group(2)]
        if k == 'mixed':
            r = rdiv(dec(g(3)), dec(g(4))) + dec(g(2))
            return -r if m.group(1) == '-' else r
        if k == 'mixedt':
            n = g(3) if g(3) is not None else g(4)
            d = g(5) if g(5) is not None else g(6)
            r = rdiv(dec(n), dec(d)) + dec(g(2))
            return -r if m.group(1) == '-' else r
        if k == 'pct':
            return dec(g(1))
    raise NoVal(sh)


def dens(s):
    """denominators written in s (to be assumed nonzero)"""
    sh = shape(s)
    out = []
    for m in re.finditer(r'/(\d[\d.]*)', sh):
        out.append(dec(s[m.start(1):m.end(1)]))
    for m in re.finditer(r'frac ?(?:\{[^{}]*\}|\d)(?:\{([\d.]+)\}|(\d))', sh):
        i = 1 if m.group(1) is not None else 2
        out.append(dec(s[m.start(i):m.end(i)]))
    return out


# ------------------------------------------------------------------ the acceptance rule for numbers
EPS = Fraction(1, 1000)


def absv(x):
    return abs(x)


def accept(t, p, eps=EPS):
    """prediction p is within tolerance of truth t"""
    from symx.values import sand, sor
    at, d = abs(t), abs(t - p) if not _ratio(t, p) else abs(_sub(t, p))
    return sor(sand(at >= 1, d < 5 * eps), sand(at > 0, at < 1, d < _scale(at, eps)), sand(eq0(at), d < eps))


def boundary(t, p, eps=EPS):
    """exactly on a threshold: excluded (binary floating point decides there)"""
    from symx.values import sor
    at, d = abs(t), abs(_sub(t, p))
    return sor(eq0(_sub(d, 5 * eps)), eq0(_sub(d, _scale(at, eps))), eq0(_sub(d, eps)))


def eq0(x):
    return x == 0


def _ratio(*xs):
    return any(type(x).__name__ == 'SymRatio' for x in xs)


def _sub(a, b):
    return a + (-b) if type(a).__name__ == 'SymRatio' or type(b).__name__ != 'SymRatio' else (-b) + a


def _scale(a, k):
    return a * k


def assume(e, c):
    e.assume(c)


# ------------------------------------------------------------------ worlds
_M = {}


def world(stubs=None, generic=True):
    from symx import zsympy, loader
    ex = {'random': zsympy.GenericRand()} if generic else None
    return loader.World(zsympy.models(ex), stubs)


class Memo:
    """wraps a function of the code: its result on a concrete text is computed once per unit and reused on later paths
    (only when it neither forked nor used solver input)"""
    def __init__(self):
        self.store = _M.setdefault('memo', {})

    def _wrap(self, w, f):
        def g(x, *a, **k):
            from symx.core import Cur
            if type(x) is not str or a or k:
                return f(x, *a, **k)
            key = (f.__name__, x)
            if key in self.store:
                r = self.store[key]
                return r if not isinstance(r, set) else type(r)(r)
            n = len(Cur.eng.trace)
            r = f(x)
            if len(Cur.eng.trace) == n and (r is None or type(r) in (str, bool) or type(r).__module__.startswith('sympy')):
                self.store[key] = r
            return r
        return g


def sym_is_equiv(gt, gv):
    ev = world().get('math_evaluation.core.evaluations')
    return ev.is_equiv(gt, gv)


def sym_normalize(s):
    return world().get('math_evaluation.core.latex_normalize').string_normalize(s)


def real_is_equiv(gt, gv):
    from math_evaluation import is_equiv
    try:
        return is_equiv(gt, gv)
    except Exception as ex:
        return 'raised ' + type(ex).__name__


def tb(x):
    """verdict as symbolic/concrete boolean"""
    from symx.values import SymBool
    return x if isinstance(x, SymBool) else bool(x)


def verdict_unit(name, tgt, tgv, spec, pre=None, doms=None, mode='iff', **kw):
    """is_equiv(gt, gv) on two templates against spec(gt, gv).
    spec returns the required verdict (bool / SymBool), or a pair (must_accept, must_reject)."""
    from .unit import Unit
    from symx.values import siff, sand, snot, simplies, SymBool

    def holds(r, sp):
        if isinstance(sp, tuple):
            return sand(simplies(sp[0], r), simplies(sp[1], snot(r)))
        return siff(r, sp)

    def body():
        from symx.core import Cur
        e = Cur.eng
        gt = e.input('gt', tmpl(tgt, 'g', doms) if isinstance(tgt, str) else tgt())
        gv = e.input('gv', tmpl(tgv, 'v', doms) if isinstance(tgv, str) else tgv())
        if pre is not None:
            for c in pre(gt, gv):
                e.assume(c)
        r = tb(sym_is_equiv(gt, gv))
        sp = spec(gt, gv)
        e.prove(holds(r, sp), f'is_equiv verdict for {name}')
        return r

    def oracle(ins):
        gt, gv = ins['gt'], ins['gv']
        r = real_is_equiv(gt, gv)
        sp = spec(gt, gv)
        if not isinstance(r, (bool, type(None))) and not hasattr(r, '__bool__') or isinstance(r, str):
            return dict(ok=False, got=r, want=repr(sp))
        r = bool(r)
        return dict(ok=bool(holds(r, sp)), got=r, want=repr(sp))
    kw.setdefault('bound', f'{tgt!r} ~ {tgv!r}' if isinstance(tgt, str) else '')
    return Unit(name, body, oracle, compare=lambda a, b: bool(a) == b, **kw)
