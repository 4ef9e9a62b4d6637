"""Histories of the parser module: the result of the last call is compared with that of a newly executed copy of the module, by the
solver for all values of the variables; leftover module state is havocked; earlier calls succeed, fail, or are aborted at any call event."""
import ast
import itertools
import sys
from ..unit import Property, Unit
from ._expr import fresh, agree, agree_num, native, formula_unit, var, num, _code
import symx.core

GOOD = ['\\variable{v}+x', '\\frac{\\variable{v}}{x}', '\\frac{d}{dx}(x^2\\variable{v})', '\\frac{\\partial}{\\partial x}(xy)', '\\frac{dy}{dx}', '\\max(\\variable{v},x)', '\\gcd(12,\\variable{v})',
        '\\frac{a}{b}-\\variable{w}\\%', '\\begin{bmatrix}\\variable{v}&x\\\\1&2\\end{bmatrix}', '\\sum_{x=1}^{3}x\\variable{w}', '\\int\\variable{v}\\mathrm{d}x', '\\dfrac{x}{\\variable{v}}', 'x=\\variable{v}', '1,x,\\variable{v}',
        'x_1^{\\variable{w}}', '\\lim_{x\\to 0}\\variable{v}x', '\\sin^{2}x', '\\left|\\variable{v}-x\\right|!', '\\min(\\frac{d}{dx}(x^3),\\variable{w})', '\\frac{1}{\\frac{d}{dx}(\\variable{v}x)}', '\\left(A\\right)^T', '5\\%+1.5', '\\frac{\\partial f}{\\partial x}',
        '\\begin{bmatrix}1&2\\\\3&4\\end{bmatrix}\\xrightarrow{r_1+r_2}', '\\operatorname{rows}(\\begin{bmatrix}1&\\variable{v}\\\\3&4\\end{bmatrix})', '\\binom{x}{\\variable{v}}', '\\log_{\\variable{v}}x', '\\variable{v}\\%', '\\variable{x}x', '(\\variable{v}+x)_{y}']
BADS = ['x+', '\\frac{d}{dx}', '\\variable{v}+(', '\\nosuch{x}', '\\max(\\variable{v},', '\\frac{d}{dx}(x^2', '\\frac{\\partial}{', '\\begin{bmatrix}1&2\\\\3\\end{bmatrix}+\\frac{d}{dx}(x)', '', '\\frac{\\variable{v}}{0}+\\frac{dy}{dx}+)', '\\max(\\frac{d}{dx}(',
        '\\begin{bmatrix}\\variable{v}\\end{bmatrix}\\xrightarrow{r_9}']
VALS = [(), (('v', 'P'),), (('v', 'Q'),), (('w', 'P'),), (('v', 2), ('w', 'Q')), (('x', 'P'),)]


def vals(v):
    import sympy as sp
    return {k: sp.Symbol(x) if isinstance(x, str) else x for k, x in v}


def args(v):
    return (vals(v),) if v else ()


_memo = {}


def alone(t, v):
    """result in a module without history"""
    k = (t, v, id(native()))
    if k not in _memo:
        try:
            _memo[k] = ('ok', fresh().latex2sympy(t, *args(v)))
        except RecursionError:
            raise
        except Exception as ex:
            _memo[k] = ('error', type(ex).__name__)
    return _memo[k]


def call(m, t, v):
    try:
        return 'ok', m.latex2sympy(t, *args(v))
    except RecursionError:
        raise
    except Exception as ex:
        return 'error', type(ex).__name__


class Abort(BaseException):
    pass


def aborted(m, t, v, k):
    """m.latex2sympy(t, v), aborted at the k-th call or return inside the parser module; False when it ended before"""
    n = [0]

    def prof(fr, ev, arg):
        if ev in ('call', 'return') and fr.f_globals is m.__dict__:
            n[0] += 1
            if n[0] == k:
                sys.setprofile(None)
                raise Abort()
    sys.setprofile(prof)
    try:
        m.latex2sympy(t, *args(v))
        return False
    except Abort:
        return True
    except Exception:
        return False
    finally:
        sys.setprofile(None)


def states(m):
    """module-level names the module's functions rebind (other than through its documented setters)"""
    if 'g' not in _code or _code.get('gm') != m.__file__:
        t = ast.parse(open(m.__file__).read())
        g = set()
        for f in t.body:
            if isinstance(f, ast.FunctionDef) and not f.name.startswith('set_'):
                for n in ast.walk(f):
                    if isinstance(n, ast.Global):
                        g.update(n.names)
        _code['g'], _code['gm'] = sorted(g), m.__file__
    return _code['g']


class Stale(dict):
    """values for every name, left over from some earlier call"""
    def __contains__(self, k): return True
    def __len__(self): return 1
    def __bool__(self): return True
    def __iter__(self): return iter(())
    def items(self): return ()

    def __getitem__(self, k):
        import sympy as sp
        return sp.Symbol('STALE')

    def get(self, k, d=None):
        return self[k]


HAVOC = {'VARIABLE_VALUES': [lambda: Stale(), lambda: {}], 'diff_op': [lambda: True, lambda: False, None], 'partial_op': [lambda: True, lambda: False, None], 'frac_type': [lambda: '\\dfrac', lambda: '\\tfrac', lambda: '\\frac'],
         'is_real': [], 'variances': [], 'var': []}


def check(e, r, w, what):
    if w[0] == 'error' or r[0] == 'error':
        e.prove(r[0] == w[0], f'{what}: {r} instead of {w}')
        return r[0]
    return agree(e, w[1], r[1], what)


def judge(r, w, i):
    env = {k[4:]: v for k, v in i.items() if k.startswith('val ')}
    if w[0] == 'error' or r[0] == 'error':
        return dict(ok=r[0] == w[0], got=str(r), want=str(w))
    ok, g = agree_num(w[1], r[1], env)
    return dict(ok=ok, got=g, want='equal' if ok else f'as in a fresh module: {w[1]}')


def unit(name, cases, run, **kw):
    """run(case) -> (result, text, values) of the last call"""
    def body():
        from symx.core import Cur
        e = Cur.eng
        k = e.choose(len(cases), 'history')
        e.input('history', repr(cases[k]))
        e.input('k', k)
        r, t, v = run(cases[k])
        return check(e, r, alone(t, v), repr(cases[k]))

    def oracle(i):
        r, t, v = run(cases[i['k']])
        return judge(r, alone(t, v), i)
    return Unit(name, body, oracle, compare=lambda a, b: True, secs=250, max_paths=10 ** 6, **kw)


def run_history(c):
    m = fresh()
    for t, v in c[:-1]:
        call(m, t, v)
    t, v = c[-1]
    return call(m, t, v), t, v


def run_same_dict(c):
    """the caller reuses and changes one dictionary of values"""
    (t, v), (t2, v2) = c
    m, d = fresh(), vals(v)
    try:
        m.latex2sympy(t, d)
    except Exception:
        pass
    d.clear()
    d.update(vals(v2))
    try:
        return ('ok', m.latex2sympy(t2, d)), t2, v2
    except Exception as ex:
        return ('error', type(ex).__name__), t2, v2


def run_abort(c):
    (t, v), k, (t2, v2) = c
    m = fresh()
    aborted(m, t, v, k)
    return call(m, t2, v2), t2, v2


def run_havoc(c):
    hav, t, v = c
    m = fresh()
    for name, j in hav:
        f = HAVOC.get(name, [])
        if f and f[j] is not None:
            setattr(m, name, f[j]())
        elif f:
            m.__dict__.pop(name, None)
    return call(m, t, v), t, v


def havoc_cases(q):
    m = native()
    gs = [g for g in states(m) if HAVOC.get(g)]
    for t in GOOD + BADS:
        for v in VALS[:1] + VALS[3:4 if q else 5]:
            for js in itertools.product(*[range(1 if q and g == 'frac_type' else len(HAVOC[g])) for g in gs]):
                yield tuple(zip(gs, js)), t, v


def events(t, v):
    """number of abort points of one call"""
    m = fresh()
    n = [0]

    def prof(fr, ev, arg):
        if ev in ('call', 'return') and fr.f_globals is m.__dict__:
            n[0] += 1
    sys.setprofile(prof)
    try:
        m.latex2sympy(t, *args(v))
    except Exception:
        pass
    finally:
        sys.setprofile(None)
    return n[0]


def split(name, cases, n, run, every):
    cases = list(cases)
    for k in range(0, len(cases), n):
        yield unit(f'{name} {k // n + 1}', cases[k:k + n], run, every=every)


# ---------------------------------------------------------------- nested parses inside one formula
def composed(q):
    v, w, x, y = ('var', '\\variable{v}', 'P'), ('var', '\\variable{w}', 'Q'), var('x'), var('y')
    mx = lambda *a: ('app', 'max', '\\max(' + ','.join(['%s'] * len(a)) + ')', list(a))
    mn = lambda *a: ('app', 'min', '\\min(' + ','.join(['%s'] * len(a)) + ')', list(a))
    inner = [v, w, ('add', v, x), ('frac', '\\frac', v, x), ('imul', num('2'), w), ('pow', x, v), mx(v, x), mn(w, y), ('frac', '\\frac', num('1'), mx(v, w))]
    deriv = ('bind', 'diff', 'x', '\\frac{d}{dx}(%s)', ('mul', '\\cdot ', ('pow', x, num('2')), v), [x], lambda a: [(a[4], 0)], 7)
    inner.append(deriv)
    if q:
        inner = [inner[0], inner[3], inner[4], inner[6], inner[9]]
    for a, b in itertools.product(inner, repeat=2):
        for f in (mx, mn):
            yield ('add', f(a, b), v)
            yield ('add', v, f(a, b))
            yield ('frac', '\\frac', f(a, x), f(b, w))
            yield ('mul', '\\cdot ', f(a, f(b, w)), w)
        yield ('add', a, b)
        yield ('frac', '\\frac', a, b)
        yield ('sub', ('grp', '(', ')', a), ('frac', '\\frac', b, v))


def units(tier):
    q = tier == 'quick'
    ev = 20
    F = [(t, v) for t in GOOD for v in VALS[:5]]
    B = [(t, v) for t in BADS for v in VALS[:2]]
    last = [(t, v) for t in GOOD for v in VALS]
    if q:
        first = [(t, v) for t in GOOD for v in VALS[1:2]] + [('\\variable{v}', VALS[0])] + B[:]
        last = [(t, v) for t in GOOD[:16] + GOOD[17:20] for v in (VALS[0], VALS[2], VALS[3])] + [(t, VALS[0]) for t in GOOD]
    else:
        first = F + B
    yield from split('two calls', itertools.product(first, dict.fromkeys(last)), 400, run_history, 40)
    same = [((t, a), (t, b)) for t in GOOD for a in VALS for b in VALS]
    yield from split('the same formula, other values', same, 400, run_history, 40)
    yield from split('one dictionary', [((t, a), (t2, b)) for t in GOOD for t2 in {t, GOOD[0], GOOD[5]} for a in VALS[1:4] for b in VALS[1:4] if q is False or a != b], 400, run_same_dict, 40)
    rep = [((t, a), (t2, b), (t, c)) for t in GOOD[:14] for t2 in (GOOD[0], BADS[5]) for a in VALS[:2] for b in VALS[2:3] for c in VALS[:3]]
    yield from split('three calls', rep if q else [x for x in itertools.product([(t, v) for t in GOOD[:12] + BADS[:6] for v in VALS[1:3]], repeat=2) for x in [x + ((t, v),) for t in GOOD[:6] for v in VALS[:1] + VALS[3:4]]], 400, run_history, 40)
    yield from split('leftover state', havoc_cases(q), 400, run_havoc, 40)
    ab = []
    for t in (GOOD[:12] + GOOD[18:20] if q else GOOD + BADS):
        for v in VALS[1:2]:
            n = events(t, v)
            step = 1 if not q else max(1, n // 12)
            for k in range(1, n + 1, step):
                for t2 in (GOOD[0], GOOD[1], GOOD[2], GOOD[5], GOOD[8]) if q else GOOD[:20]:
                    ab.append(((t, v), k, (t2, VALS[0])))
    yield from split('aborted call', ab, 400, run_abort, 40)
    items = list(composed(q))
    for k in range(0, len(items), 60):
        yield formula_unit(f'nested parses {k // 60 + 1}', items[k:k + 60], parse=lambda t: native().latex2sympy(t, {**vals((('v', 'P'), ('w', 'Q')))}), every=20)


PROP = Property('C24', lambda tier: list(units(tier)),
                'all histories of two calls over 30 formulas, 12 failing texts and 6 sets of supplied values (quick: one value set before), repeated formulas with other values, reused dictionaries, three calls, an earlier call aborted at any function boundary, arbitrary leftover values of every module variable the parser rebinds, and nested parses within a formula; equal for all values of the variables',
                ['state set on purpose (set_real, set_variances, matrix declarations with \\in) is outside', 'sympy\'s and the generated parser\'s own caches are part of the platform', 'opaque functions: equal arguments give equal values'])
