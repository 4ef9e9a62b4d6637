"""Histories of comparisons: the verdict of a comparison is that of newly loaded modules in which it is the first one, whatever was
compared before (related texts, typed comparisons, comparisons aborted at any call) and whether it reports what it does. The digits of
all texts are solver variables; a comparison of the history shares them."""
import contextlib
import importlib
import io
import sys
from ..unit import Property, Unit
from ..spec import world, tb, tmpl, boundary
from symx.values import siff, snot

E, T, N, P = ['math_evaluation.core.' + x for x in ('evaluations', 'type_evaluations', 'latex_normalize', 'latex_parser')]

PAIRS = {
    'decimals': ('#.#', '#'), 'fractions': ('#/4', '0.#5'), 'latex fractions': ('\\frac{#}{2}', '#.5'), 'mixed': ('¹ 1/2', '#.5'), 'thousands': ('¹,#00', '¹#00'), 'scientific': ('¹e2', '¹00'),
    'tolerance': ('0.99#', '1.00#'), 'percent': ('#\\%', '0.0#'), 'degrees': ('#0^\\circ', '#0'), 'clock': ('#:30 pm', '1#:30'), 'base': ('1#_3', '1#'), 'list': ('[#, 2]', '[2, #]'), 'tuple': ('(#, 7)', '(#, 7)'), 'set': ('#, 4', '4, #'),
    'interval': ('(#, 9]', '[#, 9]'), 'interval union': ('[0,#)\\cup(#,9]', '[0,#)'), 'matrix': ('\\begin{pmatrix}# & 1\\\\ 0 & 2\\end{pmatrix}', '\\begin{bmatrix}# & 1\\\\ 0 & 2\\end{bmatrix}'), 'matrix as list': ('\\begin{pmatrix}#\\\\ 2\\end{pmatrix}', '[[#],[2]]'),
    'unit': ('# \\text{ cm}', '# km'), 'equation': ('x=#', '#=x'), 'words': ('# or 3', '3 and #'), 'roman': ('\\text{#}', '# '), 'empty': ('', '#'), 'text': ('\\text{Yes}', 'yes'), 'sign': ('-#', '#'),
    'inequality': ('x<#', 'x<¹'), 'complex': ('#i+2', '2+#i'), 'expression': ('#x+1', '1+#x'),
}
# comparisons made before, in terms of the texts of the pair; kinds: plain, typed, normalization, aborted
HIST = [
    [('is_equiv', 'gt', 'gt2')], [('is_equiv', 'gv', 'gt')], [('is_equiv', 'gt2', 'gv')], [('is_equiv', 'gt', 'gv')],
    [('is_equiv', '[gt]', '(gv)')], [('is_equiv', 'GT', 'gv')], [('type', 'gt', 'gv', 'Vector')], [('type', 'gt', 'gv2', 'Complex')], [('type', 'gv', 'gt', 'Set'), ('normalize', 'gt')],
    [('type', 'gt', 'gv', 'Function')], [('is_equiv', '\\frac{gt', 'gv')], [('verbose', 'gt', 'gv2')], [('is_equiv', 'gt2', 'gv2'), ('is_equiv', 'gv2', 'gt')], [('sympy', 'gt', 'gv2')],
    [('is_equiv', 'gt no blanks', 'gv no blanks')], [('is_equiv', 'gt blanks', 'gv')], [('is_equiv', 'gt other brackets', 'gv other brackets')], [('is_equiv', 'gt no first', 'gv no first')], [('is_equiv', 'gt no last', 'gv no last')],
    [('is_equiv', 'gt no signs', 'gv no signs')], [('is_equiv', 'gt upper', 'gv upper')],
]


def change(x, d):
    """text with some of its concrete characters replaced"""
    if isinstance(x, str):
        return ''.join(d.get(c, c) for c in x)
    from symx import sstr
    out = []
    for c in x.c:
        out += [c] if not isinstance(c, int) else [ord(y) for y in d.get(chr(c), chr(c))]
    return sstr.mk(out)


def text(k, t):
    """history texts are built from those of the pair"""
    from ..spec import cat
    if k in t:
        return t[k]
    if k in ('[gt]', '(gv)'):
        return cat(cat(k[0], t[k[1:3]]), k[-1])
    if k == 'GT':
        return cat(' ', t['gt'])
    if k[2:3] == ' ':
        x, how = t[k[:2]], k[3:]
        sub = {'no blanks': {' ': ''}, 'no signs': dict.fromkeys('-%$\\^{}', ''), 'other brackets': dict(zip('()[]<', '[]()>')), 'upper': {c: c.upper() for c in 'xyzipmcefst'}}
        if how == 'no first':
            return x[1:]
        if how == 'no last':
            return x[:-1]
        if how == 'blanks':
            return cat(cat('  ', x), ' ')
        return change(x, sub[how])
    if k == '\\frac{gt':
        return cat('\\frac{', t['gt'])
    raise KeyError(k)


def silent(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def run(get, h, t):
    k = h[0]
    a = [text(x, t) for x in h[1:3]]
    if k == 'is_equiv':
        return get(E).is_equiv(*a)
    if k == 'verbose':
        return get(E).is_equiv(*a, verbose=True)
    if k == 'type':
        return get(T).is_equiv_type(*a, h[3])
    if k == 'type verbose':
        return get(T).is_equiv_type(*a, h[3], True)
    if k == 'normalize':
        return get(N).string_normalize(a[0])
    if k == 'sympy':
        return get(P).are_equal_under_sympy(*a)
    raise KeyError(k)


class Abort(BaseException):
    pass


def aborted(get, h, t, k):
    """the call, left by an exception at its k-th call or return inside the comparison modules; False when it ended before"""
    ms = [get(x).__dict__ for x in (E, N, P, T)]
    n = [0]

    def prof(fr, ev, arg):
        if ev in ('call', 'return') and any(fr.f_globals is m for m in ms):
            n[0] += 1
            if n[0] == k:
                sys.setprofile(None)
                raise Abort()
    sys.setprofile(prof)
    try:
        run(get, h, t)
        return False
    except Abort:
        return True
    except RecursionError:
        raise
    except Exception:
        return False
    finally:
        sys.setprofile(None)


def quiet(get, h, t):
    try:
        r = run(get, h, t)
    except RecursionError:
        raise
    except Exception as ex:
        return 'raised ' + type(ex).__name__
    return False if r is None else tb(r)


def newly():
    """natively: modules of the repository loaded anew"""
    mine = lambda k: k.split('.')[0] == 'math_evaluation' or k == 'latex2sympy.latex2sympy2'
    old = {k: sys.modules.pop(k) for k in list(sys.modules) if mine(k)}
    try:
        ms = {k: importlib.import_module(k) for k in (E, T, N, P)}
    finally:
        for k in [k for k in sys.modules if mine(k)]:
            del sys.modules[k]
        sys.modules.update(old)
    return ms.__getitem__


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return siff(a, b)


def unit(name, last, hists, abort=0, weight=3, tag='', stride=1):
    """last: the comparison whose verdict counts; hists: histories to choose from; abort: up to which event one is aborted"""
    tg, tv = PAIRS[name]

    def body():
        from symx.core import Cur
        e = Cur.eng
        t = {'gt': e.input('gt', tmpl(tg, 'g')), 'gv': e.input('gv', tmpl(tv, 'v')), 'gt2': e.input('gt2', tmpl(tg, 'g2')), 'gv2': e.input('gv2', tmpl(tv, 'v2'))}
        h = e.input('h', e.choose(len(hists), 'h'))
        w = world()
        k = 0
        if abort:
            k = e.input('k', 1 + stride * e.choose(abort // stride, 'k'))
            if not aborted(w.get, hists[h][0], t, k):
                return None
        else:
            for x in hists[h]:
                quiet(w.get, x, t)
        r = quiet(w.get, last, t)
        f = quiet(world().get, ('is_equiv' if last[0] == 'verbose' else 'type' if last[0] == 'type verbose' else last[0],) + last[1:], t)
        e.prove(same(r, f), f'{name}: {r} after {hists[h]}{f" aborted at {k}" if k else ""}, alone {f}')
        return r if isinstance(r, str) else bool(r)

    def oracle(i):
        t = {k: i[k] for k in ('gt', 'gv', 'gt2', 'gv2') if k in i}

        def go():
            g = newly()
            if abort:
                if not aborted(g, hists[i['h']][0], t, i['k']):
                    return None, None
            else:
                for x in hists[i['h']]:
                    quiet(g, x, t)
            r = quiet(g, last, t)
            f = quiet(newly(), ('is_equiv' if last[0] == 'verbose' else 'type' if last[0] == 'type verbose' else last[0],) + last[1:], t)
            return r, f
        r, f = silent(go)
        if f is None:
            return dict(ok=True, got=None, want='the history ended before the abort')
        return dict(ok=r == f, got=r if isinstance(r, str) else bool(r), want=f'{f} as in new modules: {last} after {hists[i["h"]]} on {t}')
    return Unit(f'{name}: {last[0]} {last[3] if len(last) > 3 else ""} after {"an aborted comparison" if abort else str(len(hists)) + " histories " + tag if hists != [[]] else "nothing"}', body, oracle,
                compare=lambda x, y: x == y, secs=120, weight=weight, every=4, max_paths=20000)


HEAVY = ('scientific', 'clock', 'equation', 'expression', 'words', 'interval union', 'matrix as list', 'inequality', 'list', 'degrees', 'tuple')
LONG = {'fractions': 60, 'set': 80, 'interval': 60, 'text': 30, 'percent': 60, 'matrix': 60, 'mixed': 60, 'unit': 60}


def units(tier):
    q = tier == 'quick'
    for n, name in enumerate(PAIRS):
        pool = [h for h in HIST if len(h) == 1 and not any('2' in x for x in h[0][1:3])] if q and name in HEAVY else HIST
        H = len(pool)
        m = 2 if name in HEAVY else 5
        if q and name in ('scientific', 'clock'):
            m = 1
        for j in range(0, m if q else H, 1 if name in HEAVY else 5):
            yield unit(name, ('is_equiv', 'gt', 'gv'), [pool[(n * 8 + x) % H] for x in range(j, min(j + (1 if name in HEAVY else 5), H))], weight=20 if name in HEAVY else 3, tag=f'{j}')
        yield unit(name, ('verbose', 'gt', 'gv'), [[]])
        yield unit(name, ('type verbose', 'gt', 'gv', ['Vector', 'Set', 'Complex', 'Function', 'Real'][n % 5]), [[]])
        if not q or name not in ('scientific', 'clock', 'equation'):
            yield unit(name, ('type', 'gt', 'gv', ['Set', 'Complex', 'Vector', 'Function'][n % 4]), [pool[(n * 4 + j) % H] for j in range(1 if name in HEAVY and q else 2)], weight=20 if name in HEAVY else 3)
    for name, k in LONG.items():
        yield unit(name, ('is_equiv', 'gt', 'gv'), [[('is_equiv', 'gt', 'gv2')]], abort=k if q else 2 * k, stride=5 if q else 1, weight=15)
        if not q:
            yield unit(name, ('is_equiv', 'gt', 'gv'), [[('type', 'gt2', 'gv', x)] for x in ('Set', 'Vector', 'Complex')], abort=2 * k, weight=15)


PROP = Property('C36', lambda tier: list(units(tier)),
                '28 kinds of answers with every digit symbolic; one earlier comparison or two (21 histories built from the same texts, from other texts of the same form and from texts that differ only in blanks, signs, brackets, case or an end character: plain, reversed, bracketed, failing, typed, normalised, verbose), rotated over the kinds; an earlier comparison aborted at any of its first 30-90 calls for 8 kinds; with and without reporting; typed comparisons for four types',
                ['sampling points are generic (C18, C34 treat them)', 'histories of more than two comparisons are outside'])
