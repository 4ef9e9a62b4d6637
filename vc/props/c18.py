"""Sampling. The two expressions are opaque: at each drawn point each of them has an arbitrary value (solver reals) or none, so whatever
points are drawn is covered. Expansion and simplification establish nothing; only sampling can accept."""
from ..unit import Property, Unit
from ..spec import world, boundary
from ._opaque import judge, agree
from symx.values import sand, sor, snot, siff, simplies, SymBool

BASE = dict(expand=['ok', 'ok'], same=False, simplify='other', abs='ok', less='ok', evalf='ok', d=0)
BAD = ['timeout', 'value', 'nan', 'zoo', 'symbol']


def check(i, r):
    a, b = i['fs']
    if a != b:
        return snot(r)
    ai, af = agree(i, 'int'), agree(i, 'float')
    return sand(simplies(sand(ai, af), r), simplies(sand(snot(ai), snot(af)), snot(r)))


def value(e, pre):
    """an arbitrary value with three decimals in [-30, 30]"""
    import z3
    from symx.values import SymReal
    v = z3.Int(e.name(pre))
    e.add(z3.And(v >= -30000, v <= 30000))
    return SymReal(v, 1000)


def unit(name, fs, rounds, kinds, secs=100):
    """rounds: for which rounds one arbitrary point is special; kinds: allowed kinds (pairs) there"""
    def body():
        from symx.core import Cur
        e = Cur.eng
        i = dict(BASE, fs=fs, special={})
        for k in i:
            e.input(k, i[k])
        for rnd in rounds:
            at = e.choose(10, 'at_' + rnd)
            kd = kinds[e.choose(len(kinds), 'kind_' + rnd)]
            val = [value(e, 'g_' + rnd), value(e, 'v_' + rnd)] if kd == ['number', 'number'] else [0, 0]
            if kd == ['number', 'number']:
                e.assume(snot(boundary(*val)))
                e.assume(snot(sand(val[0] == 0, val[1] != 0)))
            i['special'][rnd] = dict(at=at, kind=kd, val=val)
        e.input('special', i['special'])
        c, r = judge(world().get('math_evaluation.core.latex_parser'), i, True, check)
        e.prove(c, f'verdict {r}' if isinstance(r, str) else name)
        return r

    def oracle(i):
        import math_evaluation.core.latex_parser as lp
        c, r = judge(lp, dict(i, fs=[list(x) for x in i['fs']]), False, check)
        return dict(ok=bool(c), got=r, want='expressions over %s, values at the special points %s: accepted when every point agrees, rejected when each round has a point that disagrees or the variables differ' % (i['fs'], i['special']))
    return Unit(name, body, oracle, compare=lambda x, y: (x if isinstance(x, str) else bool(x)) == y, secs=secs, weight=len(rounds) * len(kinds), every=3, max_paths=60000)


NN = [['number', 'number']]
ODD = [['number', b] for b in BAD] + [[b, 'number'] for b in BAD] + [['timeout', 'timeout'], ['nan', 'nan'], ['zoo', 'zoo']]


def units(tier):
    yield unit('every point agrees, one variable', [['x'], ['x']], [], NN)
    yield unit('every point agrees, two variables', [['x', 'y'], ['x', 'y']], [], NN)
    for fs in (['x'], ['x', 'y'], ['x', 'y', 'z']):
        n = len(fs)
        yield unit(f'one arbitrary point, integer round, {n} variables', [fs, fs], ['int'], NN)
        yield unit(f'one arbitrary point, real round, {n} variables', [fs, fs], ['float'], NN)
        yield unit(f'one arbitrary point in each round, {n} variables', [fs, fs], ['int', 'float'], NN, secs=200)
    yield unit('a point without a value, integer round', [['x'], ['x']], ['int'], ODD)
    yield unit('a point without a value in each round', [['x'], ['x']], ['int', 'float'], ODD if tier != 'quick' else ODD[:6], secs=200)
    for a, b in ((['x'], ['y']), (['x'], ['x', 'y']), (['x', 'y'], ['x']), (['x', 'y'], ['x', 'z']), (['x'], []), ([], ['x']), (['x', 'y'], ['y', 'z']), (['x', 'y', 'z'], ['x', 'y'])):
        yield unit(f'variables {a} against {b}', [a, b], [], NN)
        yield unit(f'variables {a} against {b}, one arbitrary point', [a, b], ['int'], NN)


PROP = Property('C18', lambda tier: list(units(tier)),
                'one to three variables; in each round (integer draws, real draws) one point, at any position, whose two values are arbitrary decimals with 3 places in [-30,30] or which has no value (timeout, error, nan, infinity, leftover symbol); the other points agree',
                ['expressions are opaque: only sampling can relate them, expansion and simplification establish nothing', 'exact threshold values and a zero value of the truth against a nonzero value are excluded', 'a pair that disagrees in one round only is not specified'])
