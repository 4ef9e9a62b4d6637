"""Polynomial and rational answers: for every pair of formulas of a family the solver decides whether they are equal for all values of their
variables, or further apart than any tolerance at every point the sampling can draw; the real comparison has to give that verdict."""
from fractions import Fraction
from ..unit import Property, Unit
from . import _expr as X
from ._expr import num, var
import symx.core
import z3

F = Fraction
x, y, z, a, b, n = (var(c) for c in 'xyzabn')
N = num
add = lambda *s: s[0] if len(s) == 1 else ('add', add(*s[:-1]), s[-1])
sub = lambda p, q: ('sub', p, q)
mul = lambda p, q: ('mul', '\\cdot ', p, q)
im = lambda *s: s[0] if len(s) == 1 else ('imul', im(*s[:-1]), s[-1])
fr = lambda p, q: ('frac', '\\frac', p, q)
sl = lambda p, q: ('div', '/', p, q)
pw = lambda p, k: ('pow', p, N(str(k)) if isinstance(k, int) else k)
neg = lambda p: ('neg', p)
g = lambda p: ('grp', '(', ')', p)
sq = lambda p: ('app', lambda S, q: S.root(S.const(2), q), '\\sqrt{%s}', [p])
fn = lambda f, p: ('app', f, '\\' + f + '(%s)', [p])


def c(k, p):
    return im(N(str(k)), p)


FAMILIES = {
    'difference of squares': [
        sub(pw(x, 2), N('1')), im(g(sub(x, N('1'))), g(add(x, N('1')))), im(g(add(N('1'), x)), g(sub(x, N('1')))), add(neg(N('1')), pw(x, 2)), neg(g(sub(N('1'), pw(x, 2)))), sub(N('1'), pw(x, 2)), add(pw(x, 2), N('1')),
        sub(sub(pw(g(add(x, N('1'))), 2), c(2, x)), N('2')), fr(sub(pw(x, 4), N('1')), add(pw(x, 2), N('1'))), sub(mul(x, x), N('1')), add(pw(x, 2), c(2, x), N('1')), sub(c(2, pw(x, 2)), N('2')), fr(sub(c(2, pw(x, 2)), N('2')), N('2')),
        sub(pw(x, 2), N('1.5')), sub(pw(x, 2), N('1.0')), sub(pw(x, 3), N('1')), sub(pw(x, 2), N('31')), sub(pw(x, 2), c(12, x)), add(pw(x, 2), N('11'))],
    'linear': [
        add(c(2, x), N('3')), add(N('3'), c(2, x)), add(x, N('3'), x), sub(c(3, x), g(sub(x, N('3')))), im(N('2'), g(add(x, N('1.5')))), im(N('2'), g(add(x, fr(N('3'), N('2'))))), fr(add(c(4, x), N('6')), N('2')), neg(g(sub(neg(c(2, x)), N('3')))),
        sub(c(2, x), N('3')), add(c(3, x), N('2')), neg(add(c(2, x), N('3'))), add(c(-2, x), N('3')), add(c(2, x), N('13')), add(c(20, x), N('3')), add(c('2.5', x), N('3')), add(c(2, x), N('33')), add(x, N('3')), add(mul(x, N('2')), N('3')), add(c('2.0', x), N('3.00'))],
    'two variables': [
        add(x, y), add(y, x), sub(x, y), sub(y, x), neg(sub(y, x)), sub(add(c(2, x), y), x), fr(sub(pw(x, 2), pw(y, 2)), sub(x, y)), add(x, c(2, y)), add(c(2, x), y), fr(add(c(2, x), c(2, y)), N('2')), add(x, y, N('1')), im(g(add(x, y)), N('1')) if False else mul(g(add(x, y)), N('1')),
        im(x, y), im(y, x), mul(x, y), fr(pw(g(add(x, y)), 2), add(x, y)), add(x, pw(y, 2)), add(x, y, z), sl(g(add(pw(x, 2), im(x, y))), x), add(x, N('20'), y), im(N('2'), x, y)],
    'binomial': [
        pw(g(add(x, y)), 2), add(pw(x, 2), c(2, im(x, y)), pw(y, 2)), add(pw(x, 2), pw(y, 2)), sub(add(pw(x, 2), pw(y, 2)), c(2, im(x, y))), pw(g(sub(x, y)), 2), pw(g(sub(y, x)), 2), add(pw(y, 2), im(N('2'), y, x), pw(x, 2)), sub(pw(x, 2), pw(y, 2)),
        im(g(add(x, y)), g(sub(x, y))), pw(g(add(x, y)), 3), add(pw(x, 3), c(3, mul(pw(x, 2), y)), c(3, mul(x, pw(y, 2))), pw(y, 3)), im(g(add(x, y)), g(add(x, y))), neg(pw(g(add(x, y)), 2)), pw(g(add(c(2, x), y)), 2), add(c(4, pw(x, 2)), c(4, im(x, y)), pw(y, 2))],
    'fractions': [
        fr(N('1'), x), pw(x, N('-1')), sl(N('1'), x), fr(N('2'), c(2, x)), fr(x, pw(x, 2)), fr(N('1'), add(x, N('1'))), fr(N('1'), add(N('1'), x)), add(fr(N('1'), x), N('1')), fr(add(x, N('1')), x), add(N('1'), pw(x, N('-1'))), fr(N('2'), x), fr(N('1'), c(2, x)), fr(neg(N('1')), x), neg(fr(N('1'), x)),
        fr(N('1'), neg(x)), x, sub(fr(N('1'), x), fr(N('1'), add(x, N('1')))), fr(N('1'), im(x, g(add(x, N('1'))))), fr(N('1'), add(pw(x, 2), x)), fr(N('1'), fr(N('1'), x)), add(fr(N('1'), x), N('10'))],
    'fractions of two': [
        fr(x, y), sl(x, y), mul(x, pw(y, N('-1'))), fr(y, x), pw(fr(y, x), N('-1')), fr(c(3, x), c(3, y)), fr(neg(x), neg(y)), neg(fr(x, y)), fr(im(x, y), pw(y, 2)), fr(N('1'), fr(y, x)), fr(add(x, y), y), add(fr(x, y), N('1')), add(N('1'), sl(x, y)), fr(x, add(x, y)), fr(N('1'), add(N('1'), fr(y, x))), fr(x, c(2, y)), mul(fr(N('1'), N('2')), fr(x, y)), fr(c('0.5', x), y),
        sub(fr(x, y), fr(y, x)), fr(sub(pw(x, 2), pw(y, 2)), im(x, y))],
    'parameters': [
        add(im(a, x), b), add(b, mul(x, a)), add(im(b, x), a), sub(im(a, x), b), neg(sub(neg(im(a, x)), b)), mul(a, g(add(x, fr(b, a)))), add(im(a, x), b, N('20')), add(im(a, x), im(a, b)), im(N('2'), g(add(fr(im(a, x), N('2')), fr(b, N('2'))))), add(im(a, x), y), add(c(2, im(a, x)), c(2, b)), add(im(a, b), x), im(a, x)],
    'roots and functions': [
        sq(add(pw(x, 2), x)), sq(mul(x, g(add(x, N('1'))))), sq(add(x, pw(x, 2))), add(sq(add(pw(x, 2), x)), N('1')), add(N('1'), sq(add(x, pw(x, 2)))), neg(sq(add(x, pw(x, 2)))), c(2, sq(add(x, pw(x, 2)))), add(sq(x), N('5')), add(N('5'), sq(x)), sq(x), sub(N('5'), sq(x)), fn('sin', add(c(2, x), N('1'))),
        fn('sin', add(N('1'), x, x)), add(N('3'), fn('sin', add(N('1'), c(2, x)))), add(fn('sin', x), N('9')), fn('cos', x), mul(fn('sin', x), fn('cos', x)), mul(fn('cos', x), fn('sin', x)), mul(N('2'), g(add(fn('sin', x), N('4')))), add(c(2, fn('sin', x)), N('8')), fn('ln', add(x, N('1'))), fn('ln', add(N('1'), x)), add(fn('ln', add(N('1'), x)), N('7')),
        add(pw(fn('sin', x), 2), N('1')) if False else fr(fn('sin', x), x)],
    'exponentials': [
        pw(N('2'), x), pw(N('2'), add(x, N('0'))) if False else pw(N('2'), mul(N('1'), x)), pw(N('2'), sub(add(x, N('1')), N('1'))), neg(pw(N('2'), x)), add(pw(N('2'), x), N('4')), add(N('4'), pw(N('2'), x)), mul(N('3'), pw(N('2'), x)), pw(x, n), mul(N('1'), pw(x, n)), add(pw(x, n), N('1')), add(N('1'), pw(x, n)), neg(pw(x, n)), pw(x, add(n, N('1'))), pw(x, add(N('1'), n))],
}


POSITIVE = [sq(mul(pw(x, 2), y)), mul(x, sq(y)), mul(sq(y), x), sq(im(x, y)), mul(sq(x), sq(y)), sq(mul(x, y)), fr(x, sq(x)), sq(x), mul(sq(x), N('1')), fr(sq(x), sq(y)), sq(fr(x, y)), fr(sq(im(x, y)), y), sq(pw(x, 2)), x, add(sq(pw(x, 2)), N('2')), add(x, N('2')),
            mul(x, sq(mul(y, z))), mul(mul(sq(y), sq(z)), x), sq(im(pw(x, 2), y, z)), mul(N('2'), sq(x)), sq(c(4, x)), neg(sq(x)), sub(N('3'), sq(c(4, x))), sub(N('3'), mul(N('2'), sq(x)))]


def letters(q):
    """the same shapes in every letter a variable can have"""
    for l in 'abcdfghjklmnopqrstuvwxyz' + ('DN' if q else 'ABCDFGHJKLMNPQRTUVWXYZ'):
        v = var(l)
        yield l, [add(pw(v, 2), N('1')), add(N('1'), mul(v, v)), sub(pw(v, 2), N('1')), add(v, N('2')), add(N('2'), v), fr(add(pw(v, 2), v), v), add(v, N('1')), add(pw(v, 4), pw(v, 2)), add(N('-1'), pw(v, 2))]
    for l in ('\\theta', '\\alpha', '\\lambda', 'x_{1}', 'a_{n}'):
        v = var(l)
        yield l, [add(pw(v, 2), N('1')), add(N('1'), mul(v, v)), sub(pw(v, 2), N('1')), add(v, N('2')), add(N('2'), v)]


def wide():
    """polynomials with two or three small coefficients"""
    cs = (-2, -1, 1, 2, 3)
    for p in cs:
        for q in cs:
            t = c(abs(p), pw(x, 2)) if abs(p) != 1 else pw(x, 2)
            t = neg(t) if p < 0 else t
            u = c(abs(q), x) if abs(q) != 1 else x
            yield ('add' if q > 0 else 'sub', t, u)
            v = im(x, g(('add' if q > 0 else 'sub', x if abs(p) == 1 else c(abs(p), x), N(str(abs(q))))))
            yield mul(x, v[2]) if p > 0 else neg(mul(x, g(('sub' if q > 0 else 'add', x if abs(p) == 1 else c(abs(p), x), N(str(abs(q)))))))


LIMIT = F(1, 100)


def decide(p, q):
    """'equal' | 'apart' | None, by the solver"""
    B = X.Sym()
    try:
        u, v = X.ref(p, B), X.ref(q, B)
    except X.Undefined:
        return None, B
    s = z3.Solver()
    s.set('timeout', 3000)
    dom = list(B.dom)
    s.add(*dom)
    diff = z3.simplify(X.mulz(u.n, v.d) - X.mulz(v.n, u.d), som=True)
    s.push()
    s.add(diff != 0)
    if s.check() == z3.unsat:
        return 'equal', B
    s.pop()
    for t in B.vars.values():
        s.add(t >= 1, t <= 10)
    axioms(B, 0, s.add)
    s.push()
    s.add(diff != 0)
    if s.check() == z3.unsat:
        return 'equal', B           # for positive values: wherever points are drawn
    s.pop()
    d = X.mulz(u.d, v.d)
    lim = X.rv(LIMIT) * d * d
    s.add(diff * d <= lim, -diff * d <= lim)
    if s.check() == z3.unsat:
        return 'apart', B
    return None, B


def witness(p, q):
    """a point with whole, pairwise different coordinates in [1, 10] where the values differ by more than LIMIT under every exchange of the variables, or None"""
    import itertools
    vs = sorted(set(X.names(p)) | set(X.names(q)))
    if not vs or len(vs) > 3:
        return None
    B = X.Sym()
    try:
        u, v = X.ref(p, B), X.ref(q, B)
    except X.Undefined:
        return None
    if B.apps or set(X.names(p)) != set(X.names(q)):
        return None
    s = z3.Solver()
    s.set('timeout', 3000)
    diff, d = z3.simplify(X.mulz(u.n, v.d) - X.mulz(v.n, u.d), som=True), X.mulz(u.d, v.d)
    lim = X.rv(LIMIT) * d * d
    cond = z3.And(*B.dom, z3.Or(diff * d > lim, -diff * d > lim))
    ts = [B.vars[n] for n in vs if n in B.vars]
    if len(ts) != len(vs):
        return None
    ks = [z3.Int('w' + n) for n in vs]
    for k in ks:
        s.add(k >= 1, k <= 10)
    if len(ks) > 1:
        s.add(z3.Distinct(*ks))
    for per in itertools.permutations(ks):
        s.add(z3.substitute(cond, *zip(ts, [z3.ToReal(k) for k in per])))
    if s.check() != z3.sat:
        return None
    m = s.model()
    return {n: m.eval(k, model_completion=True).as_long() for n, k in zip(vs, ks)}


def axioms(B, k, add):
    """facts about the function values met since the k-th, for variables in [1, 10]"""
    for f, xs, w in B.apps[k:]:
        if f in ('sin', 'cos'):
            add(z3.And(w.n >= -1, w.n <= 1))
        elif f == 'root' and xs[0].q == 2:
            add(z3.And(w.n >= 0, w.n * w.n * xs[1].d == xs[1].n))
        elif f in ('exp', 'pow'):
            add(w.n > 0)                # the bases are variables or positive numbers
        elif f == 'ln':
            add(w.n >= 0)               # only of arguments above 1, see the families


def num_decide(p, q):
    """the same with numbers (replay)"""
    import mpmath
    vs = sorted(set(X.names(p)) | set(X.names(q)))
    low, same = None, True
    with mpmath.workdps(30):
        pts = [{v: F(k, 7) for v, k in zip(vs, ks)} for ks in ((9, 20, 33), (70, 13, 40), (31, 31, 31), (7, 70, 8), (70, 7, 69), (7, 7, 7), (70, 70, 70), (14, 55, 21))]
        for pt in pts:
            try:
                d = abs(X.ref(p, X.Num(pt, 'ref')) - X.ref(q, X.Num(pt, 'ref')))
            except (X.Undefined, OverflowError):
                continue
            same = same and d < mpmath.mpf(10) ** -15
            low = d if low is None or d < low else low
    return 'equal' if same and low is not None else 'apart' if low is not None and low > mpmath.mpf(1) / 100 else None


# ------------------------------------------------------------------ the comparison, with arbitrary draws
class Draws:
    """the module random: every draw an arbitrary value of its range (symbolically), the recorded ones first (natively)"""
    def __init__(self, rec=None, every=False):
        import random
        self.start, self.every = None, every    # unless every: fixed values once a path has branched six times over drawn ones
        self.rec, self.sym, self.rng = list(rec or []), rec is None, random.Random(7)

    def draw(self, a, b, whole):
        if not self.sym:
            if self.rec:
                v = self.rec.pop(0)
                return int(v) if whole else float(F(v))
            return self.rng.randint(a, b) if whole else self.rng.uniform(a, b)
        from symx.core import Cur
        from symx.values import SymInt, SymReal
        e = Cur.eng
        if self.start is None:
            self.start = len(e.trace)
        if not self.every and len(e.trace) > self.start + 6:
            v = self.rng.randint(a, b) if whole else a + (b - a) * self.rng.randint(1, 999) / 1000
            e.input(f'draw {len(self.rec)}', v)
            self.rec.append(v)
            return v
        k = len(self.rec)
        v = (z3.Int if whole else z3.Real)(e.name('draw'))
        e.add(z3.And(v >= a, v <= b))
        self.rec.append(v)
        e.input(f'draw {k}', v)
        return SymInt(v) if whole else SymReal(r=v)

    def randint(self, a, b): return self.draw(a, b, True)
    def uniform(self, a, b): return self.draw(a, b, False)
    def randrange(self, a, b): return self.draw(a, b - 1, True)
    def random(self): return self.draw(0, 1, False)
    def seed(self, *a): pass


class Values:
    """while active, a numeric evaluation of an expression at a symbolic point is its value as a solver term"""
    def __init__(self, want=None):
        import sympy as S
        from sympy.core.evalf import EvalfMixin
        self.S, self.E, self.points = S, EvalfMixin, {}
        self.want, self.missed = want, False

    def __enter__(self):
        self.evalf, self.subs = self.E.evalf, self.S.Basic.subs
        new, old, olds = self.at, self.evalf, self.subs

        def evalf(x, n=15, subs=None, *a, **k):
            return new(x, subs) if symbolic(subs) else old(x, n, subs, *a, **k)

        def subst(x, *a, **k):
            m = a[0] if len(a) == 1 else None
            if m is not None and not isinstance(m, dict):
                try:
                    m = dict(m)
                except TypeError:
                    m = None
            if m is None and len(a) == 2:
                m = {a[0]: a[1]}
            return new(x, m) if symbolic(m) else olds(x, *a, **k)
        self.E.evalf, self.S.Basic.subs = evalf, subst
        return self

    def __exit__(self, *a):
        self.E.evalf, self.S.Basic.subs = self.evalf, self.subs

    def at(self, x, subs):
        from symx.core import Control, Unsupported
        try:
            return self.at_(x, subs)
        except (Control, ArithmeticError):
            raise
        except Exception as ex:         # not to be taken for a failing evaluation
            raise Unsupported('value of ' + type(x).__name__ + ': ' + type(ex).__name__)

    def at_(self, x, subs):
        from symx.core import Cur, Unsupported
        from symx.values import SymInt, SymReal, SymBool
        from symx.zsympy import Z
        e = Cur.eng
        if not x.free_symbols <= set(subs):
            raise Unsupported('partial evaluation')
        key = tuple(sorted((s.name, str(SymReal.of(v).e) if symbolic({0: v}) else str(v)) for s, v in subs.items()))
        B = self.points.get(key)
        if B is None:
            B = self.points[key] = X.Sym()
            B.collect = False
            for s, v in subs.items():
                v = SymReal.of(v)
                B.vars[s.name] = v.e
            if self.want:
                c = z3.And(*[B.vars[n.name] == k for v, k in self.want.items() for n in subs if plain(n.name) == plain(v)])
                if e.check(c) == z3.unsat:
                    self.missed = True
                else:
                    e.add(c)
        k = len(B.apps)
        try:
            v = X.sym(x, B)
        except (X.Bad, X.Undefined):
            return self.S.nan
        axioms(B, k, e.add)
        if v.q is not None:
            return Z.const(v.q, 'float')
        d = z3.simplify(v.d)
        if z3.is_rational_value(d):
            return Z.const(SymReal(r=z3.simplify(v.n / d, som=True)), 'float')
        e.assume(SymBool(d != 0))           # points where a side has no value are excluded
        if z3.is_rational_value(z3.simplify(v.n)):
            return Z.const(SymReal(r=z3.simplify(v.n) / d), 'float')
        return Z.const(SymReal(r=v.n / d), 'float')


def plain(name):
    """names without case (comparison ignores it) and notation"""
    return ''.join(c for c in name.lower() if c.isalnum())


def symbolic(subs):
    return isinstance(subs, dict) and any(type(v).__module__.startswith('symx') for v in subs.values())


def meeting(k, ev, lp):
    """replay: two expressions that differ at a point (and its permutations): rejected there, and by real sampling"""
    import itertools
    P, bad, old = k['point'], [], lp.random
    runs = [list(per) * 60 for per in itertools.permutations(P.values())] + [None] * 25
    try:
        for rec in runs:
            lp.random = Draws(rec) if rec is not None else old
            bad.append(bool(ev.is_equiv(k['gt'], k['pred'])))
    except Exception as ex:
        return dict(ok=False, got='raised ' + type(ex).__name__, want='rejected')
    finally:
        lp.random = old
    return dict(ok=not any(bad[:-25]) and not all(bad[-25:]), got=any(bad[:-25]) or all(bad[-25:]), want=f"{k['gt']} and {k['pred']} differ at {P}: rejected when that point is drawn, and not always accepted")


def pairs_unit(name, rows, cols, every=40):
    def body():
        from symx.core import Cur, PathAbort
        from symx import loader, zsympy
        e = Cur.eng
        i = e.choose(len(rows), 'truth')
        j = e.choose(len(cols), 'prediction')
        p, q = rows[i], cols[j]
        t, u = X.tex(p)[0], X.tex(q)[0]
        e.input('gt', t), e.input('pred', u), e.input('ij', (i, j))
        w, B = decide(p, q)
        P = None
        if w is None:
            P = witness(p, q)
            if P is None:
                raise PathAbort('not decided')
            e.input('point', P)
        if w and set(X.names(p)) != set(X.names(q)) and w == 'equal':
            raise PathAbort('a variable that cancels')
        world = loader.World(zsympy.models({'random': Draws(every=P is not None)}), {})
        X.native()
        with Values(P) as vals:
            try:
                r = bool(world.get('math_evaluation.core.evaluations').is_equiv(t, u))
            except (ValueError, TypeError, AttributeError, KeyError, IndexError, ZeroDivisionError, RuntimeError, AssertionError) as ex:
                r = 'raised ' + type(ex).__name__
        if P:
            e.prove(not vals.missed and r is False, f'{t} and {u} differ at {P}' + (', which is never drawn' if vals.missed else f', verdict there {r}'))
            return r
        e.prove(r is (w == 'equal'), f'{t} and {u} are {w}, verdict {r}')
        return r

    def oracle(k):
        X.native()
        import math_evaluation.core.evaluations as ev
        import math_evaluation.core.latex_parser as lp
        i, j = k['ij']
        if k.get('point'):
            return meeting(k, ev, lp)
        w = num_decide(rows[i], cols[j])
        if w is None:
            return dict(ok=None, got='not decided', want='')
        rec = []
        while f'draw {len(rec)}' in k:
            rec.append(k[f'draw {len(rec)}'])
        old = lp.random
        lp.random = Draws(rec)
        try:
            r = bool(ev.is_equiv(k['gt'], k['pred']))
        except Exception as ex:
            r = 'raised ' + type(ex).__name__
        finally:
            lp.random = old
        return dict(ok=r is (w == 'equal'), got=r, want=f"{w == 'equal'} for {k['gt']} against {k['pred']} ({w})")
    return Unit(name, body, oracle, compare=lambda a, b: a == b, every=every, secs=300, max_paths=10 ** 5, weight=len(rows) * len(cols))


def units(tier):
    q = tier == 'quick'
    for k, fs in FAMILIES.items():
        for i in range(0, len(fs), 3):
            yield pairs_unit(f'{k} {i // 3 + 1}', fs[i:i + 3], fs)
    for i in range(len(POSITIVE)):
        yield pairs_unit(f'equal for positive values {i + 1}', POSITIVE[i:i + 1], POSITIVE)
    for l, fs in letters(q):
        yield pairs_unit(f'letter {l}', fs[:2] if q else fs, fs)
    ws = list(wide())
    rows = ws[::6] if q else ws
    for i in range(0, len(rows), 2):
        yield pairs_unit(f'small polynomials {i // 2 + 1}', rows[i:i + 2], ws)
    if not q:
        every = [f for fs in FAMILIES.values() for f in fs]
        for i in range(0, len(every), 2):
            yield pairs_unit(f'across families {i // 2 + 1}', every[i:i + 2], every)


PROP = Property('C34', lambda tier: list(units(tier)),
                'all pairs within ten families of 13-24 formulas (linear, squares, binomials, fractions, parameters, roots and functions, exponentials, equal for positive values only), of 50 polynomials with coefficients -2..3 (quick: 9 truths), of 9 shapes in every letter (quick: lower case, D, N); thorough: all pairs across the families; for all real values (equal), all values in [1, 10] (apart) and all draws; once a path has branched six times over drawn values further draws are fixed',
                ['the solver decides on the formulas whether they are equal or more than 0.01 apart wherever the sampling can look; for pairs that meet somewhere a point where they differ must be drawable and then rejects', 'points where a side has no value are excluded; function values are opaque (sine and cosine in [-1, 1], roots square back, powers positive)', 'expansion and simplification run as they are on the chosen pair'])
