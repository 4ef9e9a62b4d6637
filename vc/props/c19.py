"""Failing algebra steps. (a) two opaque expressions: each expansion, the simplification, the absolute value, the comparison, every numeric
evaluation may fail (time out, raise) or give any value; (b) the parsers may fail on either side; (c) the comparison of a pair of readings may fail.
The comparison must return a verdict and may accept only what a step that did not fail established."""
from ..unit import Property, Unit
from ..spec import world, boundary, tb, EPS
from ._opaque import judge, agree, failure
from .c18 import value, NN
from symx.values import sand, sor, snot, siff, simplies, SymBool

FAIL = ['timeout', 'value', 'type', 'zero', 'attribute']


def check(i, r):
    if i['fs'][0] == [] or i['fs'][1] == []:
        return snot(r) if i['fs'][0] != i['fs'][1] else const_check(i, r)
    ok = []
    if i['expand'] == ['ok', 'ok'] and i['same']:
        ok.append(True)
    if i['simplify'] == 'number' and i['abs'] == 'ok' and (i['less'] == 'ok' or i['evalf'] == 'ok' and i['less'] == 'undecided'):
        ok.append(abs(i['d']) < EPS)
    if i['fs'][0] == i['fs'][1]:
        ok += [agree(i, 'int'), agree(i, 'float')]
    return simplies(r, sor(*ok) if ok else False)


def const_check(i, r):
    a, b = i['const'][0], i['const'][1]
    return True if not isinstance(a, str) and not isinstance(b, str) else snot(r)


def unit(name, **sp):
    """every key of sp: list of alternatives (the engine chooses)"""
    def body():
        from symx.core import Cur
        e = Cur.eng
        i = dict(fs=[['x'], ['x']], expand=['ok', 'ok'], same=False, simplify='other', abs='ok', less='ok', evalf='ok', d=0, special={}, const={})
        for k, alts in sp.items():
            if k in ('int', 'float'):
                continue
            v = alts[e.choose(len(alts), k)]
            i[k] = list(v) if isinstance(v, tuple) else v
        if i['simplify'] == 'number':
            i['d'] = value(e, 'd')
            e.assume(snot(abs(i['d']) == EPS))
        for rnd in ('int', 'float'):
            alts = sp.get(rnd, [('number', 'far')])
            kd = alts[e.choose(len(alts), rnd)]
            if kd is None:
                continue
            at = e.choose(3, 'at') * 4 + 1
            if kd == ('number', 'far'):
                i['special'][rnd] = dict(at=at, kind=['number', 'number'], val=[2, 3])
            elif kd == ('number', 'number'):
                val = [value(e, 'g'), value(e, 'v')]
                e.assume(snot(boundary(*val)))
                e.assume(snot(sand(val[0] == 0, val[1] != 0)))
                i['special'][rnd] = dict(at=at, kind=list(kd), val=val)
            else:
                i['special'][rnd] = dict(at=at, kind=list(kd), val=[0, 0])
        for k, v in i.items():
            e.input(k, v)
        c, r = judge(world().get('math_evaluation.core.latex_parser'), i, True, check)
        e.prove(c, f'verdict {r}' if isinstance(r, str) else name)
        return r

    def oracle(i):
        import math_evaluation.core.latex_parser as lp
        c, r = judge(lp, i, False, check)
        return dict(ok=bool(c), got=r, want='a verdict that accepts only on an equality some working step established; scenario %s' % {k: v for k, v in i.items()})
    return Unit(name, body, oracle, compare=lambda x, y: (x if isinstance(x, str) else bool(x)) == y, secs=150, weight=10, every=4, max_paths=60000)


EXP = [(a, b) for a in ['ok', 'timeout', 'value'] for b in ['ok', 'timeout', 'attribute'] if (a, b) != ('ok', 'ok')]
ODD = [('timeout', 'number'), ('number', 'timeout'), ('value', 'value'), ('nan', 'nan'), ('zoo', 'zoo'), ('symbol', 'number')]


# ------------------------------------------------------------------ parsers and pairs of readings
SIDE = {'gt': 0, 'gv': 1}


class Reading:
    """what a parser gave; compared through the relation only"""
    def __init__(self, side, k):
        self.side, self.k = side, k

    def subs(self, *a, **k): return self
    def __eq__(self, o): return isinstance(o, Reading) and (self.side, self.k) == (o.side, o.k)
    def __hash__(self): return hash((self.side, self.k))
    def __bool__(self): return True


class Parsers:
    def __init__(self, out):
        self.out = out

    def p(self, k, s):
        side = SIDE[s]
        x = self.out[side][k]
        if x == 'same':         # gives the same reading as the first parser
            return Reading(side, 0)
        if x != 'ok':
            raise failure(x)
        return Reading(side, k)

    def latex2sympy(self, s, *a, **k): return self.p(0, s)
    def parse_latex(self, s, *a, **k): return self.p(1, s)
    def parse_expr(self, s, *a, **k): return self.p(2, s)
    standard_transformations = ()
    implicit_multiplication_application = None


class Pairs:
    def __init__(self, R):
        self.R = R

    def __call__(self, a, b, *x, **k):
        v = self.R[a.k][b.k]
        if isinstance(v, str):
            raise failure(v)
        return v


def run(lp, out, R):
    P = Parsers(out)
    old = lp.latex2sympy, lp.parse_latex, lp.sympy_parser, lp._are_equal_latex_sympy, lp._get_sympy_type
    try:
        lp.latex2sympy, lp.parse_latex, lp.sympy_parser, lp._are_equal_latex_sympy, lp._get_sympy_type = P.latex2sympy, P.parse_latex, P, Pairs(R), lambda x: 'Expression'
        try:
            r = lp.are_equal_under_sympy('gt', 'gv')
        except Exception as ex:
            return 'raised ' + type(ex).__name__
    finally:
        lp.latex2sympy, lp.parse_latex, lp.sympy_parser, lp._are_equal_latex_sympy, lp._get_sympy_type = old
    if r is None:
        r = False
    return r if isinstance(r, (SymBool, str)) else bool(r)


def allowed(out, R):
    got = [{0 if out[s][k] == 'same' else k for k in range(3) if out[s][k] in ('ok', 'same')} for s in (0, 1)]
    return [R[a][b] for a in got[0] for b in got[1] if not isinstance(R[a][b], str)]


SHAPES = [(9, 9)] + [(a, b) for a in range(3) for b in range(3)] + [(a, -1) for a in range(3)] + [(-1, b) for b in range(3)] + [(-1, -1)]


def parse_unit(name, kinds, pairfail):
    def body():
        import z3
        from symx.core import Cur
        e = Cur.eng
        out = e.input('out', [[kinds[e.choose(len(kinds), 'p')] for k in range(3)] for s in (0, 1)])
        if pairfail == 'lines':         # no pair, one pair, one row or column, or all pairs fail
            shape = SHAPES[e.choose(len(SHAPES), 'shape')]
            bad = lambda a, b: shape[0] in (a, -1) and shape[1] in (b, -1)
        else:
            bad = lambda a, b: pairfail and e.choose(2, 'f') == 1
        R = e.input('R', [['timeout' if bad(a, b) else SymBool(z3.Bool(f'R_{a}_{b}')) for b in range(3)] if out[0][a] == 'ok' or a == 0 else ['value'] * 3 for a in range(3)])
        r = run(world().get('math_evaluation.core.latex_parser'), out, R)
        e.prove(False if isinstance(r, str) else simplies(r, sor(*allowed(out, R))), f'{name}: {r}')
        return r

    def oracle(i):
        import math_evaluation.core.latex_parser as lp
        r = run(lp, i['out'], i['R'])
        ok = not isinstance(r, str) and (not r or any(allowed(i['out'], i['R'])))
        return dict(ok=ok, got=r, want=f'accepted only if one of the working readings is equal; parsers {i["out"]}, pairs {i["R"]}')
    return Unit(name, body, oracle, compare=lambda x, y: (x if isinstance(x, str) else bool(x)) == y, secs=150, weight=10, every=20, max_paths=60000)


def is_equiv_unit(exc):
    """a failure anywhere below is_equiv ends in a verdict"""
    PTS = ['evaluations.string_normalize_ok', 'evaluations.are_equal_under_sympy', 'evaluations._str_to_interval', 'evaluations.split_tuple', 'evaluations.split_matrix',
           'latex_normalize.latex2sympy', 'latex_normalize._parse_latex', 'latex_normalize._inject_implicit_mixed_number', 'latex_parser._sympy_parse', 'latex_parser._are_equal_latex_sympy', 'latex_parser._get_sympy_type', 'latex_parser.parse_latex']
    TEXT = [('(1,2]', '[1,2]'), ('(1,2)', '(1,3)'), ('1,2', '3,4'), ('\\begin{pmatrix}1\\\\2\\end{pmatrix}', '\\begin{pmatrix}1\\\\3\\end{pmatrix}'), ('x+1', 'x+2'), ('50\\%', '0.7'), ('\\frac{1}{2}', '\\frac{1}{3}'), ('1 \\frac{1}{2}', '2'), ('30^\\circ', '2'), ('x=1', 'y<2')]

    def raiser(*a, **k):
        raise failure(exc)

    def go(mod, at, gt, gv):
        M = {m: mod('math_evaluation.core.' + m) for m in ('evaluations', 'latex_normalize', 'latex_parser')}
        m, name = PTS[at].split('.')
        old = getattr(M[m], name, None)
        try:
            if old is not None:
                setattr(M[m], name, raiser)
            try:
                r = M['evaluations'].is_equiv(gt, gv)
            except Exception as ex:
                return 'raised ' + type(ex).__name__
        finally:
            if old is not None:
                setattr(M[m], name, old)
        return bool(r)

    def body():
        from symx.core import Cur
        e = Cur.eng
        at = e.input('at', e.choose(len(PTS), 'at'))
        k = e.choose(len(TEXT), 'text')
        gt, gv = e.input('gt', TEXT[k][0]), e.input('gv', TEXT[k][1])
        w = world()
        r = go(w.get, at, gt, gv)
        e.prove(r is False, f'{PTS[at]} fails: {r}')
        return r

    def oracle(i):
        import importlib
        r = go(importlib.import_module, i['at'], i['gt'], i['gv'])
        return dict(ok=r is False, got=r, want='False')
    return Unit(f'a step of is_equiv fails ({exc})', body, oracle, compare=lambda x, y: x == y, secs=150, weight=20, every=3)


def units(tier):
    q = tier == 'quick'
    yield unit('expansion fails', expand=EXP, same=[True, False], int=[('number', 'far'), None])
    yield unit('expansion fails, simplification gives a number', expand=EXP, same=[True, False], simplify=['number'])
    yield unit('expansion decides', same=[True, False], simplify=['timeout', 'value', 'other', 'nan'], int=[('timeout', 'number')], float=[('timeout', 'number')])
    yield unit('simplification fails', simplify=FAIL, int=[('number', 'number')])
    yield unit('simplified difference', simplify=['number'], less=['ok', 'undecided'], evalf=['ok'])
    yield unit('absolute value fails', simplify=['number'], abs=FAIL, less=['ok', 'undecided'])
    yield unit('comparison fails', simplify=['number'], less=['timeout', 'value', 'type'], evalf=['ok', 'timeout'])
    yield unit('evaluation of the difference fails', simplify=['number'], less=['undecided'], evalf=['timeout', 'value', 'type'])
    yield unit('evaluation fails at a point, integers', simplify=['other', 'timeout'], int=ODD)
    yield unit('evaluation fails at a point in each round', simplify=['timeout'], int=ODD, float=ODD)
    yield unit('everything fails', expand=EXP, same=[True], simplify=FAIL, int=ODD[:3], float=ODD[:3])
    yield unit('variables differ, steps fail', fs=[(['x'], ['y']), (['x'], []), ([], ['x']), (['x'], ['x', 'y'])], simplify=['timeout', 'other'], expand=[('ok', 'ok'), ('timeout', 'ok')], const=[{0: 1, 1: 1}, {0: 'timeout', 1: 'timeout'}], int=[None])
    yield unit('constants whose evaluation fails', fs=[([], [])], const=[{0: 'timeout', 1: 2}, {0: 2, 1: 'timeout'}, {0: 'timeout', 1: 'timeout'}, {0: 'value', 1: 'value'}], simplify=['timeout', 'other'], int=[None])
    import math_evaluation.core.latex_parser as lp
    if hasattr(lp, '_are_equal_latex_sympy') and hasattr(lp, '_get_sympy_type'):    # the comparison of two readings is replaced by an arbitrary relation
        yield parse_unit('parsers fail', ['ok', 'timeout', 'same'] if q else ['ok', 'timeout', 'value', 'same'], False)
        yield parse_unit('comparison of readings fails', ['ok', 'value'], 'lines' if q else True)
    for x in ('value', 'timeout') if q else FAIL:
        yield is_equiv_unit(x)


PROP = Property('C19', lambda tier: list(units(tier)),
                'every combination of failing steps listed in the units: expansion of either side, simplification, absolute value, comparison, numeric evaluation at points of either sampling round, the three parsers on both sides, the comparison of each pair of readings; values decimals with 3 places in [-30,30]',
                ['a timeout is the exception the timeout decorator raises; the delivery of the alarm itself is not modelled', 'exact threshold values are excluded'])
