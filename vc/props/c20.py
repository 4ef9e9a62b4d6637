"""Typed comparison against untyped comparison of the same answers, in one execution. The algebra is an arbitrary relation on texts."""
from ..unit import Property, Unit
from ..spec import world, Memo
from .c02 import text, nat, patched, Verdict, is_bool, LATEX, ALL, FEW, E, N
from ._rel import AnyRel, recall
from ._opaque import failure
from symx.values import SymBool, sand, simplies

T = 'math_evaluation.core.type_evaluations'
TYPES = [None, '', 'Vector', 'Set', 'Complex', 'Function', 'Real', 'Interval(s)', 'Matrix', 'Expression', 'Equation', 'Inequality', 'Others', 'Set of Vectors', 'Complex Function', 'Type: Vector', 'Vector.', 'set', 'A Function, not a Set']
ANS = ['p', '(p,q)', '[p,q]', 'p,q', '{p,q}', '\\{q,p\\}', 'f(x)=p', 'y=q', 'p+i', '2+3i', '50\\%', '90^\\circ', '3:00 pm', '12_{8}', '(1,2]', '[1,2]\\cup[3,4]', '\\begin{pmatrix}p\\\\q\\end{pmatrix}', '[[p,q],[q,p]]', 'p<q', 'x=', '=p', '', '(', ')', '{', '},{', '(p,q),(q,p)', '\\frac{', 'None', '1,234', '()', '[]', '(p', 'f(x)=50\\%', '\\text{No}', '\\pm 1']


def types_of(mod, *a):
    return nat(lambda: mod.is_equiv_type(*a))


def unit(name, answers, others, types, fails=False, **kw):
    def body():
        from symx.core import Cur
        e = Cur.eng
        gt = e.input('gt', answers[e.choose(len(answers), 'gt')])
        gv = e.input('gv', others[e.choose(len(others), 'gv')])
        ty = e.input('type', types[e.choose(len(types), 'type')])
        rel = AnyRel()
        w = world({E + '.are_equal_under_sympy': rel, N + '.string_normalize': Memo(), N + '._str_to_interval': Memo()})
        r, bad = types_of(w.get(T), gt, gv, ty)
        u, ubad = nat(lambda: w.get(E).is_equiv(gt, gv))
        e.prove(False if bad or not is_bool(r) else True if ubad else simplies(u, r), f'{name}: {bad or r}, untyped {ubad or u}')
        return bad or bool(r)

    def oracle(i):
        import math_evaluation.core.evaluations as ev, math_evaluation.core.type_evaluations as te
        with patched(ev, {'are_equal_under_sympy': recall(i)}):
            r, bad = types_of(te, i['gt'], i['gv'], i['type'])
            u, ubad = nat(lambda: ev.is_equiv(i['gt'], i['gv']))
        ok = bad is None and isinstance(r, bool) and (r or not u)
        return dict(ok=ok, got=bad or bool(r), want=f'a verdict, at least the untyped one ({ubad or u})')
    return Unit(name, body, oracle, compare=lambda a, b: a == b, **kw)


def text_unit(name, mk1, mk2, mkt, **kw):
    def body():
        import z3
        from symx.core import Cur
        e = Cur.eng
        gt, gv, ty = e.input('gt', mk1()), e.input('gv', mk2()), e.input('type', mkt(e))
        mode = e.input('mode', 'fail' if e.choose(2, 'mode') else SymBool(z3.Bool('verdict')))
        w = world({E + '.are_equal_under_sympy': Verdict(mode)})
        r, bad = types_of(w.get(T), gt, gv, ty)
        u, ubad = nat(lambda: w.get(E).is_equiv(gt, gv))
        e.prove(False if bad or not is_bool(r) else True if ubad else simplies(u, r), f'{name}: {bad or r}, untyped {ubad or u}')
        return bad or bool(r)

    def oracle(i):
        import math_evaluation.core.evaluations as ev, math_evaluation.core.type_evaluations as te
        with patched(ev, {'are_equal_under_sympy': Verdict(i['mode'])}):
            r, bad = types_of(te, i['gt'], i['gv'], i['type'])
            u, ubad = nat(lambda: ev.is_equiv(i['gt'], i['gv']))
        ok = bad is None and isinstance(r, bool) and (r or not u)
        return dict(ok=ok, got=bad or bool(r), want=f'a verdict, at least the untyped one ({ubad or u})')
    return Unit(name, body, oracle, compare=lambda a, b: a == b, **kw)


def pick(xs):
    return lambda e: xs[e.choose(len(xs), 'type')]


def units(tier):
    q = tier == 'quick'
    S = dict(secs=150 if q else 700, max_paths=80000)
    for k, ty in enumerate(TYPES):
        for c in range(0, len(ANS), 12 if ty in TYPES[2:6] else 36):
            yield unit(f'type {ty!r}, answers {c}', ANS[c:c + (12 if ty in TYPES[2:6] else 36)], ANS if ty in TYPES[2:6] and not q else ANS[::3] if ty in TYPES[2:6] else ANS[::9], [ty], weight=30 if ty in TYPES[2:6] else 15, every=12 if q else 5, **S)
    four = ['Vector', 'Set', 'Complex', 'Function']
    F = FEW if q else ALL
    for a, b in [('?', '?'), ('(p,!', 'q!')] + ([] if q else [('?!', '?'), ('?!', '?!'), ('(p?q)', '!p,q!')]):
        for ty in four:
            yield text_unit(f'{a} against {b} as {ty}', lambda a=a: text(a, 'g', F), lambda b=b: text(b, 'v', F), pick([ty]), weight=25, every=15, **S)
    for ty in ['?' * 3, 'Set?', '?Vector', 'Functio?', 'Comple!', '?et', 'Ve?tor!Set', '?' * 6]:
        yield text_unit(f'type text {ty}', lambda: '(p,q)', lambda: '[p,q]', lambda e, ty=ty: text(ty, 't'), weight=3, every=3, **S)


PROP = Property('C20', lambda tier: list(units(tier)),
                '36 answers against 4 to 36 answers under 19 types, with every verdict of the algebra on every pair of texts it is asked about; all texts of length 1 (thorough 2) and templates with holes under the four special types; every type text of length 3 and 6 and 6 templates',
                ['the algebra is an arbitrary function of the two texts'])
