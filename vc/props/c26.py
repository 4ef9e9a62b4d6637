"""Function and operator notation: every function, in every way of writing its argument, power and base, inside and around other formulas;
the solver proves that the parsed expression is that operation on those arguments, for all values of the variables."""
import itertools
from fractions import Fraction
from ..unit import Property
from ._expr import formula_unit, num, var, tex, IMUL, MUL, ADD, NEG, POST, POW, ATOM
from . import c22

F = Fraction
A, B, C, X, Y, Z = c22.LEAVES
N, TH = var('n'), var('\\theta', 'theta')
TRIG = ['sin', 'cos', 'tan', 'csc', 'sec', 'cot']
HYP = ['sinh', 'cosh', 'tanh']
ARC = ['arc' + t for t in TRIG]
HARC = ['arsinh', 'arcosh', 'artanh', 'arcsinh', 'arccosh', 'arctanh']
TEN = lambda S, x: S.div(S.app('ln', [x]), S.app('ln', [S.const(10)]))


def inv(n):
    """internal name of an inverse function"""
    return 'a' + (n[2:] if n in ('arsinh', 'arcosh', 'artanh') else n[3:])


# command -> how it acts on its argument's value
CMD = {}
for t in TRIG + HYP:
    CMD['\\' + t] = lambda S, x, t=t: S.app(t, [x])
for t in ARC + HARC:
    CMD['\\' + t] = lambda S, x, t=t: S.app(inv(t), [x])
for t in HARC:
    CMD['\\operatorname{%s}' % t] = lambda S, x, t=t: S.app(inv(t), [x])
CMD.update({'\\ln': lambda S, x: S.app('ln', [x]), '\\log': TEN, '\\exp': lambda S, x: S.app('exp', [x]), '\\floor': lambda S, x: S.app('floor', [x]), '\\ceil': lambda S, x: S.app('ceil', [x]),
            '\\operatorname{floor}': lambda S, x: S.app('floor', [x]), '\\operatorname{ceil}': lambda S, x: S.app('ceil', [x])})


def fn(cmd, x, style='('):
    f = CMD[cmd]
    if style == 'bare':
        return ('app', f, cmd + ' %s', [x], [IMUL], ADD - 1 + 1)        # treated like a sum operand: bracketed inside products
    o, c = {'(': ('(', ')'), 'l(': ('\\left(', '\\right)'), '{': ('{', '}'), '{(': ('{(', ')}'), 'm(': ('\\mleft(', '\\mright)'), ' (': (' (', ')')}[style]
    return ('app', f, cmd + o + '%s' + c, [x])


def fpow(cmd, k, kt, x, style='('):
    """\\sin^{k}x"""
    f = CMD[cmd]
    invs = cmd[1:] in TRIG + HYP

    def g(S, p, x):
        if invs and getattr(p, 'q', None) == -1 or invs and S.numeric and p == -1:
            return S.app('a' + cmd[1:], [x])
        return S.pow(f(S, x), p)
    o, c = {'(': ('(', ')'), 'l(': ('\\left(', '\\right)'), 'bare': (' ', ''), '{': ('{', '}')}[style]
    return ('app', lambda S, x: g(S, refv(S, k), x), cmd + '^' + kt + o + '%s' + c, [x], [ADD if style != 'bare' else IMUL], ATOM if style != 'bare' else ADD, [k])


def refv(S, a):
    from ._expr import ref
    return ref(a, S)


def log(b, bt, x, style='('):
    o, c = {'(': ('(', ')'), 'l(': ('\\left(', '\\right)'), 'bare': (' ', ''), '{': ('{', '}')}[style]
    return ('app', lambda S, x: S.div(S.app('ln', [x]), S.app('ln', [refv(S, b)])), '\\log_' + bt + o + '%s' + c, [x], [ADD if style != 'bare' else IMUL], ATOM if style != 'bare' else ADD, [b])


def plain():
    """every function with every argument form"""
    args = [X, ('add', X, Y), ('neg', X), ('imul', num('2'), X), ('frac', '\\frac', X, Y), ('pow', X, num('2')), num('2'), num('0.5'), TH, ('frac', '\\frac', num('1'), num('3')), ('mul', '\\cdot ', X, Y), ('app', 'abs', '|%s|', [X]), ('app', lambda S, p: S.root(S.const(2), p), '\\sqrt{%s}', [X])]
    for cmd in CMD:
        for x in args:
            for st in ('(', 'l(', 'm('):
                yield fn(cmd, x, st)
            yield ('add', fn(cmd, x), Y)
        for x in (X, ('imul', num('2'), X), ('frac', '\\frac', X, Y), ('pow', X, num('2')), num('2'), TH, ('imul', X, Y)):
            yield fn(cmd, x, 'bare')
            yield ('add', fn(cmd, x, 'bare'), Y)
            yield ('sub', Y, fn(cmd, x, 'bare'))
            yield ('neg', fn(cmd, x, 'bare'))
        yield fn(cmd, X, '{')
        yield fn(cmd, ('add', X, Y), '{')


def around():
    """function values as operands"""
    cmds = ['\\sin', '\\tanh', '\\ln', '\\log', '\\exp', '\\arctan', '\\floor', '\\operatorname{arcsinh}']
    for c in cmds:
        f = fn(c, X)
        for k, g in c22.BIN.items():
            if k != 'pow':
                yield g(f, Y)
                yield g(Y, f)
        yield ('pow', Y, f)
        for g in c22.UN.values():
            yield g(f) if g is not c22.UN['fact'] and g not in (c22.UN['sq'], c22.UN['cube'], c22.UN['recip']) else g(('grp', '(', ')', f))
        yield ('pow', ('grp', '(', ')', f), Y)
        for c2 in cmds:
            yield fn(c, fn(c2, X))
            yield fn(c, fn(c2, X, 'bare'))
            if (c, c2) != ('\\exp', '\\ln'):
                yield fn(c, ('add', fn(c2, X), Y))
            yield ('imul', fn(c, X), fn(c2, Y))
            yield ('add', fn(c, X, 'bare'), fn(c2, Y, 'bare'))
            yield ('frac', '\\frac', fn(c, X, 'bare'), fn(c2, Y, 'bare'))
            yield ('app', lambda S, x, y, c=c, c2=c2: S.mul(CMD[c](S, x), CMD[c2](S, y)), c + ' %s' + c2 + ' %s', [X, Y], [IMUL, IMUL], ADD)


def powers():
    ks = [(num('2'), '2'), (num('3'), '{3}'), (('neg', num('1')), '{-1}'), (N, 'n'), (N, '{n}'), (('neg', num('2')), '{-2}'), (('add', N, num('1')), '{n+1}'), (('neg', N), '{-n}'), (num('0'), '0'), (num('0'), '{0}'), (num('1'), '1'), (('frac', '\\frac', num('1'), num('2')), '{\\frac{1}{2}}'), (('neg', num('3')), '{-3}'), (num('10'), '{10}')]
    for cmd in CMD:
        for k, t in ks:
            for st in ('(', 'l(', 'bare', '{'):
                yield fpow(cmd, k, t, X, st)
            yield ('add', fpow(cmd, k, t, X), Y)
            yield ('imul', num('2'), fpow(cmd, k, t, ('add', X, Y)))
            yield ('add', fpow(cmd, k, t, X, 'bare'), fpow(cmd, num('2'), '2', Y, 'bare'))


def logs():
    bs = [(num('2'), '2'), (num('2'), '{2}'), (num('10'), '{10}'), (B, 'b'), (B, '{b}'), (('add', B, num('1')), '{b+1}'), (('pow', B, num('2')), '{b^{2}}'), (('frac', '\\frac', num('1'), num('2')), '{\\frac{1}{2}}'), (num('0.5'), '{0.5}'), (var('x_1'), '{x_1}'), (TH, '{\\theta}'), (('mul', '\\cdot ', num('2'), B), '{2\\cdot b}')]
    for b, t in bs:
        for x in (X, ('add', X, Y), ('pow', X, num('2')), num('8'), ('imul', num('2'), X), ('frac', '\\frac', X, Y)):
            for st in ('(', 'l(', '{', 'bare'):
                if st == 'bare' and (x[0] == 'add' or t[-1].isalnum() and x[0] in ('num', 'imul')):
                    continue            # \log_2 8 would be \log_28
                yield log(b, t, x, st)
            yield ('sub', Y, log(b, t, x))
            yield ('frac', '\\frac', log(b, t, x), Y)
    for b, t in bs[:5]:
        for k, kt in ((num('2'), '2'), (N, '{n}'), (('neg', num('1')), '{-1}')):
            for o in (('\\log_%s^%s' % (t, kt)), ('\\log^%s_%s' % (kt, t))):
                yield ('app', lambda S, x, b=b, k=k: S.pow(S.div(S.app('ln', [x]), S.app('ln', [refv(S, b)])), refv(S, k)), o + '(%s)', [X], [ADD], ATOM, [b, k])
                yield ('app', lambda S, x, b=b, k=k: S.pow(S.div(S.app('ln', [x]), S.app('ln', [refv(S, b)])), refv(S, k)), o + ' %s', [X], [IMUL], ADD, [b, k])


def exps():
    E = lambda S, x: S.app('exp', [x])
    for x in (X, ('add', X, Y), ('neg', X), num('2'), num('0'), ('pow', X, num('2')), ('frac', '\\frac', X, Y), ('imul', num('2'), X), fn('\\sin', X), N):
        e = ('app', E, 'e^{%s}', [x])
        yield e
        for g in (lambda e: ('imul', num('2'), e), lambda e: ('imul', Z, e), lambda e: ('mul', '\\cdot ', e, Z), lambda e: ('add', e, Z), lambda e: ('sub', Z, e), lambda e: ('frac', '\\frac', e, Z), lambda e: ('frac', '\\frac', Z, e), lambda e: ('neg', e), lambda e: fn('\\ln', e), lambda e: ('grp', '(', ')', e), lambda e: ('pow', ('grp', '(', ')', e), Z)):
            yield g(e)
    yield ('app', E, 'e^%s', [X])
    yield ('app', E, 'e^%s', [num('2')])
    e1 = ('app', lambda S: S.app('exp', [S.const(1)]), 'e', [])
    yield e1
    yield ('add', e1, X)
    yield ('imul', num('2'), e1)
    for s in ('\\pi',):
        p = ('app', lambda S: S.app('pi', []), s, [])
        for f in (lambda p: p, lambda p: ('imul', num('2'), p), lambda p: ('frac', '\\frac', p, num('4')), lambda p: fn('\\sin', ('frac', '\\frac', p, num('4'))) if False else ('add', p, X), lambda p: ('pow', p, num('2')), lambda p: ('mul', '\\cdot ', X, p)):
            yield f(p)


def rounding():
    fl, ce = 'floor', 'ceil'
    forms = [(fl, '\\lfloor %s\\rfloor '), (fl, '\\left\\lfloor %s\\right\\rfloor '), (fl, '\\llcorner %s\\lrcorner '), (fl, '\\mleft\\lfloor %s\\mright\\rfloor '), (fl, '\\floor(%s)'), (fl, '\\operatorname{floor}(%s)'), (ce, '\\lceil %s\\rceil '), (ce, '\\left\\lceil %s\\right\\rceil '),
             (ce, '\\ulcorner %s\\urcorner '), (ce, '\\mleft\\lceil %s\\mright\\rceil '), (ce, '\\ceil(%s)'), (ce, '\\operatorname{ceil}(%s)')]
    for f, t in forms:
        for x in (X, ('add', X, Y), ('frac', '\\frac', X, Y), num('2.5'), ('neg', num('2.5')), ('pow', X, num('2')), ('neg', X), ('imul', num('2'), X), ('frac', '\\frac', num('7'), num('2')), num('3')):
            e = ('app', f, t, [x])
            yield e
            yield ('add', e, Z)
            yield ('sub', Z, e)
            yield ('imul', num('2'), e)
            yield ('mul', '\\cdot ', e, e)
        for f2, t2 in forms[:1] + forms[6:7]:
            yield ('app', f, t, [('app', f2, t2, [('add', X, num('0.5'))])])


def extrema():
    for f in ('max', 'min'):
        for o, c in (('(', ')'), ('\\left(', '\\right)'), ('\\mleft(', '\\mright)')):
            mk = lambda *a, k='': ('app', f, '\\' + f + o + ','.join(['%s'] * len(a)) + c, list(a))
            for a, b in itertools.product((X, num('2'), ('add', X, Y), ('neg', Y), ('frac', '\\frac', X, Y), ('mul', '\\cdot ', X, Y), fn('\\sin', var('h'), 'bare'), ('pow', X, num('2')), num('1.5'), TH), repeat=2):
                yield mk(a, b)
            yield mk(X, Y, Z)
            yield mk(num('3'), num('7'))
            yield mk(num('3'), num('7'), num('5'))
            yield mk(num('3'), X, num('5'))
            yield mk(X)
            for g in ('max', 'min'):
                h = ('app', g, '\\' + g + '(%s,%s)', [Y, Z])
                yield mk(X, h)
                yield mk(h, X)
                yield mk(h, ('add', h, X))
                yield mk(('frac', '\\frac', X, h), Z)
            yield ('add', mk(X, Y), Z)
            yield ('imul', num('2'), mk(X, Y))
            yield ('sub', Z, mk(X, Y))
            yield fn('\\ln', mk(X, Y))
        for k, t in ((num('2'), '2'), (N, '{n}')):
            yield ('app', lambda S, x, y, k=k, f=f: S.pow(S.app(f, [x, y]), refv(S, k)), '\\' + f + '^' + t + '(%s,%s)', [X, Y], [ADD, ADD], ATOM, [k])
    # greatest common divisors and least common multiples of numbers
    for f in ('gcd', 'lcm'):
        for cmd in ('\\' + f, '\\operatorname{%s}' % f):
            for a, b in itertools.product(('12', '18', '7', '1', '100', '36'), repeat=2):
                e = ('app', f, cmd + '(%s,%s)', [num(a), num(b)])
                yield e
                yield ('add', e, X)
            for a, b, c in (('12', '18', '8'), ('6', '10', '15'), ('100', '75', '20'), ('4', '6', '9')):
                yield ('app', f, cmd + '(%s,%s,%s)', [num(a), num(b), num(c)])
                yield ('app', f, cmd + '\\left(%s,%s,%s\\right)', [num(a), num(b), num(c)])
            yield ('app', f, cmd + '(%s,%s)', [('mul', '\\cdot ', num('4'), num('9')), num('24')])
            yield ('app', f, cmd + '(%s,%s)', [num('24'), ('app', 'gcd' if f == 'lcm' else 'lcm', '\\' + ('gcd' if f == 'lcm' else 'lcm') + '(%s,%s)', [num('10'), num('4')])])
            yield ('pow', ('app', f, cmd + '(%s,%s)', [num('24'), num('36')]), num('2')) if False else ('sub', X, ('app', f, cmd + '(%s,%s)', [num('24'), num('36')]))


def bodies(k):
    return [k, ('mul', '\\cdot ', k, X), ('pow', k, num('2')), ('frac', '\\frac', num('1'), k), ('grp', '(', ')', ('add', k, X)), ('imul', num('2'), k), ('grp', '(', ')', ('sub', X, k)), ('frac', '\\frac', ('add', k, X), Y), ('pow', X, k), ('app', 'f1', 'f(%s)', [k]) if False else ('imul', X, ('grp', '(', ')', ('add', k, num('1')))) if False else ('pow', ('neg', num('1')), k)]


def one(kind, v, template, body, args, texs, lvl=ADD):
    """a binder: texs are the formulas written, in order, with the level they need"""
    return ('bind', kind, v[2], template, body, args, lambda a: texs, lvl)


def sums():
    for kind, cmd in (('sum', '\\sum'), ('prod', '\\prod')):
        for k in (var('k'), N, var('j'), TH):
            for lo, hi in ((num('1'), A), (A, B), (num('0'), num('5')), (('add', A, num('1')), ('imul', num('2'), B)), (num('1'), num('3')), (('neg', A), A), (B, num('5')), (A, num('0')), (('sub', A, num('2')), A)):
                for b in bodies(k) + [X, num('3'), ('grp', '(', ')', ('add', X, Y))]:
                    t = cmd + '_{' + k[1] + '=%s}^{%s}%s'
                    s = one(kind, k, t, b, [lo, hi], [(lo, ADD), (hi, ADD), (b, IMUL)])
                    yield s
                    if k[2] == 'k':
                        yield one(kind, k, cmd + '^{%s}_{' + k[1] + '=%s}%s', b, [lo, hi], [(hi, ADD), (lo, ADD), (b, IMUL)])
                        yield ('add', s, Z)
                        yield ('sub', Z, s)
                        yield ('frac', '\\frac', s, Z)
                        yield ('imul', num('2'), ('grp', '(', ')', s))
                        yield ('app', lambda S, q: S.mul(S.const(2), q), '2%s', [s])
                        yield ('neg', s)
            yield one(kind, k, cmd + '_{' + k[1] + '=1}^n%s', k, [num('1'), N], [(k, IMUL)]) if k[2] != 'n' else one(kind, k, cmd + '_{' + k[1] + '=1}^5%s', k, [num('1'), num('5')], [(k, IMUL)])
        k, j = var('k'), var('j')
        for kind2, cmd2 in (('sum', '\\sum'), ('prod', '\\prod')):
            for b in (('mul', '\\cdot ', k, j), ('grp', '(', ')', ('add', k, ('imul', num('2'), j))), ('pow', k, j), ('frac', '\\frac', k, j)):
                for hi in (k, B):
                    inner = one(kind2, j, cmd2 + '_{j=1}^{%s}%s', b, [num('1'), hi], [(hi, ADD), (b, IMUL)])
                    yield one(kind, k, cmd + '_{k=1}^{%s}%s', inner, [num('1'), A], [(A, ADD), (inner, 0)])


def limits():
    for cmd in ('\\to ', '\\rightarrow ', '\\Rightarrow ', '\\longrightarrow ', '\\Longrightarrow '):
        for v in (X, var('h'), TH):
            for p, pt in ((A, 'a'), (num('0'), '0'), (('app', lambda S: S.app('oo', []), '\\infty', []), '\\infty'), (('neg', ('app', lambda S: S.app('oo', []), '\\infty', [])), '-\\infty'), (('add', A, num('1')), 'a+1')):
                for d, k in (('', 'lim+'), ('^{+}', 'lim+'), ('^{-}', 'lim-')):
                    if d and 'infty' in pt:
                        continue
                    for b in ((v, ('pow', v, num('2')), ('frac', '\\frac', fn('\\sin', v), v), ('grp', '(', ')', ('add', v, Y)), ('mul', '\\cdot ', v, Y), ('frac', '\\frac', ('sub', v, A), ('add', v, Y))) if cmd == '\\to ' else (v, ('grp', '(', ')', ('add', v, Y)))):
                        l = one(k, v, '\\lim_{' + v[1] + cmd + pt + d + '}%s', b, [p], [(b, IMUL)])
                        yield l
                        if cmd == '\\to ' and v is X:
                            yield ('add', l, Z)
                            yield ('sub', Z, l)
                            yield ('frac', '\\frac', l, Z)


def derivs():
    for v in (X, Y, TH):
        for d, dv in (('d', 'd'), ('\\mathrm{d}', '\\mathrm{d}'), ('\\partial', '\\partial ')):
            for b in (('pow', v, num('2')), ('mul', '\\cdot ', v, Z), ('add', ('pow', v, num('3')), Z), ('frac', '\\frac', Z, v), fn('\\sin', v), ('imul', num('2'), v), ('pow', Z, v), v, ('mul', '\\cdot ', ('add', v, num('1')), ('sub', v, Z))):
                if d == '\\mathrm{d}' and v is TH:
                    pass
                for t, lvl in (('(%s)', ADD), ('\\left(%s\\right)', ADD), (' %s', IMUL), ('{%s}', ADD)):
                    D = one('diff', v, '\\frac{' + d + '}{' + dv + v[1] + '}' + t, b, [v], [(b, lvl)], MUL if t != ' %s' else ADD)
                    yield D
                    if t == '(%s)':
                        yield ('add', D, A)
                        yield ('sub', A, D)
                        yield ('frac', '\\frac', D, A)
                        yield ('app', lambda S, q: S.mul(S.const(2), q), '2%s', [D])
                        yield ('grp', '(', ')', D)
                # the body in the numerator
                yield one('diff', v, '\\frac{' + d + '(%s)}{' + dv + v[1] + '}', b, [v], [(b, ADD)], ATOM)
                yield one('diff', v, '\\frac{' + d + '{%s}}{' + dv + v[1] + '}', b, [v], [(b, ADD)], ATOM)
                yield ('add', one('diff', v, '\\frac{' + d + '(%s)}{' + dv + v[1] + '}', b, [v], [(b, ADD)], ATOM), A)


def integrals():
    for v in (X, var('t'), TH):
        for dt in (' d%s', '\\,d%s', '\\mathrm{d}%s', '{\\rm d}%s', ' \\, \\mathrm{d}%s'):
            dd = dt % v[1]
            for b in (v, ('pow', v, num('2')), ('mul', '\\cdot ', v, Z), ('grp', '(', ')', ('add', v, num('1'))), ('add', v, num('1')), ('frac', '\\frac', num('1'), v), fn('\\sin', v), ('imul', num('2'), v), ('app', lambda S, x: S.app('exp', [x]), 'e^{%s}', [v]), Z, num('3'), ('frac', '\\frac', v, ('add', v, num('1')))):
                yield one('int', v, '\\int %s' + dd, b, [v], [(b, ADD)])
                for lo, hi, t in ((A, B, '_{%s}^{%s}'), (num('0'), num('1'), '_%s^{%s}'), (A, B, '_%s^%s'), (('neg', A), ('frac', '\\frac', A, num('2')), '_{%s}^{%s}'), (num('0'), ('app', lambda S: S.app('oo', []), '\\infty', []), '_{%s}^{%s}'), (num('1'), ('add', B, num('2')), '_{%s}^{%s}')):
                    yield one('dint', v, '\\int' + t + ' %s' + dd, b, [lo, hi], [(lo, ADD), (hi, ADD), (b, ADD)])
                yield one('dint', v, '\\int^{%s}_{%s} %s' + dd, b, [A, B], [(B, ADD), (A, ADD), (b, ADD)])
            i = one('int', v, '\\int %s' + dd, ('pow', v, num('2')), [v], [(('pow', v, num('2')), ADD)])
            for g in (lambda i: ('add', i, A), lambda i: ('sub', A, i), lambda i: ('frac', '\\frac', i, A), lambda i: ('app', lambda S, q: S.mul(S.const(2), q), '2%s', [i]), lambda i: ('neg', i), lambda i: ('grp', '(', ')', i)):
                yield g(i)
        dv = 'd' + v[1]
        w = Y
        for b in (('mul', '\\cdot ', v, w), ('add', ('pow', v, num('2')), w), ('frac', '\\frac', v, w), Z):
            inner = one('dint', w, '\\int_{%s}^{%s} %s dy', b, [num('0'), v], [(num('0'), ADD), (v, ADD), (b, ADD)])
            yield one('dint', v, '\\int_{%s}^{%s} %s ' + dv, inner, [A, B], [(A, ADD), (B, ADD), (inner, 0)])
            inner = one('int', w, '\\int %s dy', b, [w], [(b, ADD)])
            yield one('int', v, '\\int %s ' + dv, inner, [v], [(inner, 0)])
        yield one('int', v, '\\int ' + dv, num('1'), [v], [])
        yield one('dint', v, '\\int_{%s}^{%s}' + dv, num('1'), [A, B], [(A, 0), (B, 0)])
        for b, t in ((v, v[1]), (('add', v, num('1')), v[1] + '+1'), (('pow', v, num('2')), v[1] + '^2')):
            yield one('int', v, '\\int\\frac{' + dv + '}{' + t + '}', ('frac', '\\frac', num('1'), b), [v], [])
            yield one('dint', v, '\\int_{%s}^{%s}\\frac{' + dv + '}{' + t + '}', ('frac', '\\frac', num('1'), b), [A, B], [(A, 0), (B, 0)])
            yield one('int', v, '\\int\\frac{2' + dv + '}{' + t + '}', ('frac', '\\frac', num('2'), b), [v], [])


def bars():
    """evaluation bars"""
    from ._expr import ref

    def at(b, v, x):
        def f(S, *_):
            old = S.bound.get(v[2]) if not S.numeric else S.env.get(v[2])
            w = ref(x, S)
            d = S.env if S.numeric else S.bound
            had = v[2] in d
            d[v[2]] = w
            try:
                return ref(b, S)
            finally:
                if had:
                    d[v[2]] = old
                else:
                    del d[v[2]]
        return f
    for v in (X, var('t')):
        for b in (('pow', v, num('2')), ('grp', '(', ')', ('add', v, Z)), ('frac', '\\frac', num('1'), v), ('grp', '(', ')', ('sub', ('pow', v, num('3')), ('imul', num('2'), v)))):
            for x in (A, num('3'), ('neg', num('1')), ('add', A, num('1')), ('frac', '\\frac', A, num('2'))):
                t, xt = tex(b)[0], tex(x)[0]
                yield ('app', at(b, v, x), (t + '|_{' + v[1] + '=' + xt + '}').replace('%', '%%'), [], [], ATOM, [b, v, x])
                yield ('app', lambda S, b=b, v=v, x=x: S.add(at(b, v, x)(S), refv(S, Y)), t + '|_{' + v[1] + '=' + xt + '}+y', [], [], ADD, [b, v, x, Y])
                yield ('app', lambda S, b=b, v=v, x=x: S.add(at(b, v, x)(S), S.neg(at(b, v, B)(S))), t + '|^{' + v[1] + '=' + xt + '}_{' + v[1] + '=b}', [], [], ATOM, [b, v, x, B])


def units(tier):
    q = tier == 'quick'
    G = [('functions', plain()), ('operands', around()), ('powers', powers()), ('logarithms', logs()), ('exponentials', exps()), ('rounding', rounding()), ('extrema', extrema()), ('sums', sums()), ('limits', limits()), ('derivatives', derivs()), ('integrals', integrals()), ('bars', bars())]
    for name, it in G:
        for nm, items in c22.chunk(name, it, 100):
            yield formula_unit(nm, items, every=8 if q else 15)


PROP = Property('C26', lambda tier: list(units(tier)),
                'every function command of the grammar (trigonometric, inverse, hyperbolic, area, logarithms, exponential, rounding) with 13 arguments, 14 powers and every bracket style; 12 logarithm bases; max/min/gcd/lcm incl. nested; sums, products (one and two levels), limits (five arrows, directions), derivatives, integrals (five differentials, limits in either order), evaluation bars; each as operand of the operators around it; for all real values of the variables',
                ['a function written without brackets is only followed by a sum (what a product behind it means is not fixed)', 'function values are opaque: equal arguments give equal values; binders are equal when kind, variable-renamed body and limits are', 'limits without a direction are taken from above, as the parser library notates them'])
