"""Wording around answers: enumerations with or/and, membership prefixes, set-builder prefixes. Opaque units: the element
comparison is an arbitrary relation (one Boolean solver variable per pair); word units: the letters around or/and are
solver variables; numeric units: the digits are, and the real element comparison runs."""
import itertools
import re
from .. import unit as U
from ..unit import Property, Unit
from ..spec import world, tb, Memo, value, boundary, accept, tmpl, shape, verdict_unit
from .c12 import want, Rel, leaves, G, V, render
from symx.values import sand, sor, snot, siff, SymBool

S = lambda *xs: ('set', list(xs))
L = lambda *xs: ('list', list(xs))
T = lambda *xs: ('tuple', list(xs))

# wording -> structure; @n is element n
TWO = ['@0 or @1', '@0 and @1', '@0, or @1', '@0, and @1', '@0 \\text{or} @1', '@0\\text{ or }@1', '@0 \\text{ and } @1', '@0\\text{and}@1', '@0,\\text{ and }@1', '@0 , or @1', '$@0$ or $@1$', '$@0$, $@1$',
       '\\{@0 \\text{ or } @1\\}', '\\{@0, @1\\}', 'x \\in \\{@0, @1\\}', 'x\\in\\left\\{@0,@1\\right\\}', 'n \\in \\{@0 \\text{ and } @1\\}', '\\{x | @0 or @1\\}', '\\{x|@0, @1\\}', '\\{ x | @0 \\text{ or } @1 \\}', '\\text{@0 or @1}', '\\mbox{@0, @1}', '@0  or  @1', '@0 \\text{  and  } @1', '@0, @1', '{@0 and @1}', '\\{x|@0\\}, \\{y|@1\\}', '\\left\\{x | @0 \\text{ or } @1\\right\\}', '\\{x \\in R | @0, @1\\}']
THREE = ['@0, @1, and @2', '@0, @1 and @2', '@0, @1, or @2', '@0 or @1 or @2', '@0 and @1, @2', '@0\\text{ or }@1\\text{ or }@2', '@0, @1\\text{ and }@2', '@0, @1,\\text{ and }@2', '@0 and @1 and @2', '@0 or @1\\text{ or }@2', 'x \\in \\{@0, @1, @2\\}', '\\{x | @0, @1 or @2\\}', '$@0$, $@1$, and $@2$', '{@0, @1, and @2}', '\\text{@0, @1, or @2}']
FOUR = ['@0, @1, @2, and @3', '@0, @1 or @2, @3', '@0 and @1 and @2 and @3', '\\{x|@0, @1, @2\\text{ or }@3\\}']
LISTS = [('[@0 and @1]', L(0, 1)), ('(@0 and @1)', T(0, 1)), ('[@0, @1 and @2]', L(0, 1, 2)), ('x \\in [@0, @1]', L(0, 1)), ('\\left(@0\\text{ and }@1\\right)', T(0, 1)), ('y\\in(@0, @1)', T(0, 1)), ('P \\in (@0, @1, @2)', T(0, 1, 2)), ('\\{x | [@0, @1]\\}', L(0, 1))]
NEST = [('(@0, @1) or (@2, @3)', S(T(0, 1), T(2, 3))), ('(@0, @1)\\text{ and }(@2, @3)', S(T(0, 1), T(2, 3))), ('[@0, @1], or [@2, @3]', S(L(0, 1), L(2, 3))), ('@0 or (@1, @2)', S(0, T(1, 2))), ('x \\in \\{(@0, @1), (@2, @3)\\}', S(T(0, 1), T(2, 3)))]
ONE = ['x \\in @0', 'x\\in @0', 'y  \\in  @0', '\\{x | @0\\}', '\\{x|@0\\}', '\\{(x,y)|@0\\}', '\\left\\{x|@0\\right\\}', '\\left\\{ x_1 \\, | @0 \\right\\}', '\\{x \\in \\{1,2\\} | @0\\}', '\\text{@0}', 'ab\\in{@0}', '\\mbox{ @0 }']
# names that contain the words, or look like formulas
POOLS = [(G, V), (['x=1', 'x=7', 'x>9', 'x<3', 'x=8'], ['x=2', 'y=7', 'x>4', 'y<3', 'y=8']),
         (['orange', 'sand', 'for', 'andor', 'forest'], ['land', 'oreo', 'band', 'nor', 'hand']),
         (['2x+1', '\\frac{1}{3}', '-4', 'x^2', '\\sqrt{2}'], ['2x', '\\frac{2}{3}', '-5', 'x^3', '\\sqrt{3}']),
         (['|x|<1', '|y+2|=2', '3|z|', '2-|x|', '|x|-1'], ['|x|<5', '|y+4|=2', '3|w|', '5-|x|', '|x|-6'])]


def fill(t, names):
    return re.sub(r'@(\d)', lambda m: names[int(m.group(1))], t)


def flat(t, k=None):
    n = len(set(re.findall(r'@\d', t)))
    return S(*range(n))


def build(ta, a, tb_, b, pool):
    def body():
        import z3
        from symx.core import Cur
        e = Cur.eng
        one_a, one_b = isinstance(a, int), isinstance(b, int)
        n, m = 1 if one_a else len(leaves(a)), 1 if one_b else len(leaves(b))
        R = [[SymBool(z3.Bool(f'R_{i}_{j}')) for j in range(m)] for i in range(n)]
        e.input('R', R)
        gt, gv = fill(ta, pool[0]), fill(tb_, pool[1])
        e.input('gt', gt), e.input('gv', gv)
        w = world({'math_evaluation.core.evaluations.are_equal_under_sympy': Rel(R, pool[0], pool[1]),
                   'math_evaluation.core.latex_normalize.string_normalize': Memo(),
                   'math_evaluation.core.latex_normalize._str_to_interval': Memo()})
        r = tb(w.get('math_evaluation.core.evaluations').is_equiv(gt, gv))
        e.prove(siff(r, want(a, b, R)), f'{gt} against {gv}')
        return r

    def oracle(i):
        import math_evaluation.core.evaluations as ev
        w = bool(want(a, b, i['R']))
        real = ev.are_equal_under_sympy
        gt, gv = fill(ta, pool[0]), fill(tb_, pool[1])
        try:
            ev.are_equal_under_sympy = Rel(i['R'], pool[0], pool[1])
            try:
                r = bool(ev.is_equiv(gt, gv))
            except Exception as ex:
                r = 'raised ' + type(ex).__name__
        finally:
            ev.are_equal_under_sympy = real
        return dict(ok=r is w, got=r, want=f'{w} for {gt} against {gv} with element relation {i["R"]}')
    return Unit(f'{fill(ta, pool[0])} ~ {fill(tb_, pool[1])}', body, oracle, compare=lambda x, y: bool(x) == y, secs=150, weight=1 if isinstance(a, int) else len(leaves(a)), every=5, max_paths=100000)


# ---- words: or/and count only between blanks
def word_unit(t, word):
    """p ? word ? q with ? a blank or a letter on either side"""
    D = {'?': ' abz7'}

    def sides(gt):
        i = 1 + t.index('?') - 1
        return gt[t.index('?')], gt[len(t) - 1 - t[::-1].index('?')]

    def expect(gt):
        c, d = sides(gt)
        return sand(c == ' ', d == ' ')

    def spec_run(ev, gt, gvs):
        return [ev.is_equiv(gt, g) for g in gvs]

    def body():
        from symx.core import Cur
        e = Cur.eng
        gt = e.input('gt', tmpl(t, 'g', D))
        w = world({'math_evaluation.core.evaluations.are_equal_under_sympy': Same()})
        r = tb(w.get('math_evaluation.core.evaluations').is_equiv(gt, 'v,u'))
        e.prove(siff(r, expect(gt)), f'{t}: two answers exactly when {word} stands between blanks')
        return r

    def oracle(i):
        import math_evaluation.core.evaluations as ev
        real = ev.are_equal_under_sympy
        try:
            ev.are_equal_under_sympy = Same()
            try:
                r = bool(ev.is_equiv(i['gt'], 'v,u'))
            except Exception as ex:
                r = 'raised ' + type(ex).__name__
        finally:
            ev.are_equal_under_sympy = real
        w = bool(expect(i['gt']))
        return dict(ok=r is w, got=r, want=f'{w} for {i["gt"]!r} against "v,u"')
    return Unit(f'word {t}', body, oracle, compare=lambda x, y: bool(x) == y, secs=100, weight=3)


class Same:
    """elements are equal when they are written the same"""
    def __call__(self, a, b, verbose=False):
        return a == b


# ---- numbers
SPLIT = re.compile(r' *(?:,? *\\text\{ *(?:or|and) *\}|,? (?:or|and) |,(?!000)) *')


def elems(s):
    """pieces of an enumeration of plain numbers (works on symbolic text: only digits are symbolic)"""
    sh = shape(s)
    for rx in (r'^x ?\\in ?\\\{(.*)\\\}$', r'^\\\{x ?\|(.*)\\\}$', r'^\\\{(.*)\\\}$'):
        m = re.match(rx, sh)
        if m:
            s, sh = s[m.start(1):m.end(1)], m.group(1)
            break
    out, p = [], 0
    for m in SPLIT.finditer(sh):
        out.append((p, m.start()))
        p = m.end()
    out.append((p, len(sh)))
    return [s[a:b] for a, b in out]


def num_spec(gt, gv):
    A, B = [value(strip(x)) for x in elems(gt)], [value(strip(x)) for x in elems(gv)]
    if len(A) != len(B):
        return False
    return sor(*[sand(*[accept(a, B[j]) for a, j in zip(A, p)]) for p in itertools.permutations(range(len(B)))])


def strip(s):
    sh = shape(s)
    i, j = len(sh) - len(sh.lstrip()), len(sh.rstrip())
    return s[i:j]


def num_pre(gt, gv):
    for a in elems(gt):
        for b in elems(gv):
            yield snot(boundary(value(strip(a)), value(strip(b))))


def distinct(gt, gv):
    """no element twice on one side (a set keeps one copy)"""
    yield from num_pre(gt, gv)
    for s in (gt, gv):
        for a, b in itertools.combinations([value(strip(x)) for x in elems(s)], 2):
            yield snot(a == b)


NUMS = [('# or #', '#, #'), ('#\\text{ and }#', '# or #'), ('#.# or -#', '-#, #.#'), ('#, # and #', '# or # or #'), ('x \\in \\{#, #\\}', '# and #'), ('\\{x | # or #\\}', '\\{#, #\\}'), ('## or ##', '##, and ##'), ('\\frac{#}{2} and #', '#, #.5'), ('#/4 or #/2', '0.#5 and #.5'), ('¹ 1/2 or #', '#.5, #'), ('#, and #.#', '#.#0 or #'), ('¹,### or #', '#, ¹###'), ('¹e2 or #', '¹00, #'), ('# or # or #', '# and #'), ('#', '# or #'), ('-# and #', '# and -#')]


def units(tier):
    q = tier == 'quick'
    plain = {2: '@0, @1', 3: '@0, @1, @2', 4: '@0, @1, @2, @3'}
    for n, fam in ((2, TWO), (3, THREE), (4, FOUR)):
        for k, t in enumerate(fam):
            for pl, pool in enumerate(POOLS):
                if pl and (n == 4 or q and (pl + k) % 3 != 1):
                    continue
                if n < 4 or not q:
                    yield build(t, S(*range(n)), plain[n], S(*range(n)), pool)
                    yield build(plain[n], S(*range(n)), t, S(*range(n)), pool)
            if n == 4 and q and k:
                continue
            o = fam[(k + 3) % len(fam)]
            yield build(t, S(*range(n)), o, S(*range(n)), POOLS[k % 5])
            if n < 4:
                yield build(t, S(*range(n)), plain[5 - n], S(*range(5 - n)), POOLS[k % 5])
                yield build(t, S(*range(n)), '(' + plain[n] + ')', T(*range(n)), POOLS[0])
                yield build('[' + plain[n] + ']', L(*range(n)), t, S(*range(n)), POOLS[0])
                yield build(t, S(*range(n)), '@0', 0, POOLS[k % 5])
    for t, sh in LISTS:
        n = len(leaves(sh))
        base = render(sh, [f'@{i}' for i in range(n)])
        for pool in POOLS[:1] + POOLS[2:4]:
            yield build(t, sh, base, sh, pool)
            yield build(base, sh, t, sh, pool)
        yield build(t, sh, plain[n], S(*range(n)), POOLS[0])
    for t, sh in NEST:
        base = render(sh, [f'@{i}' for i in range(len(leaves(sh)))])
        yield build(t, sh, base, sh, POOLS[0])
        yield build(base, sh, t, sh, POOLS[2])
        for t2, sh2 in NEST:
            if t2 != t:
                yield build(t, sh, t2, sh2, POOLS[0])
    for t in ONE:
        # words in text mode are not compared as formulas (C38)
        for pool in POOLS if 't{' not in t and 'x{' not in t else POOLS[1:2] + POOLS[3:]:
            yield build(t, 0, '@0', 0, pool)
            yield build('@0', 0, t, 0, pool)
        yield build(t, 0, ONE[(ONE.index(t) + 2) % len(ONE)], 0, POOLS[3])
    for pool in POOLS:
        for t, sh in (('\\{x | @0\\} \\cup \\{x | @1\\}', S(0, 1)), ('\\{x|@0\\} \\cap \\{y|@1\\}', S(0, 1)), ('\\{x|@0\\}, \\{y|@1\\}', S(0, 1))):
            yield build(t, sh, '@0', 0, pool)
            yield build('@0', 0, t, sh, pool)
    for w in ('or', 'and'):
        yield word_unit(f'u?{w}?v', w)
        yield word_unit(f'u {w}?v', w)
        yield word_unit(f'u?{w} v', w)
    for a, b in NUMS:
        yield verdict_unit(f'numbers {a} ~ {b}', a, b, num_spec, pre=distinct, secs=120, every=3, weight=6)


PROP = Property('C35', lambda tier: list(units(tier)),
                'enumerations of 2 to 4 elements in 45 wordings, lists and tuples in 8, nested ones in 5, single answers behind 9 prefixes; every relation between the elements; one symbolic character on either side of or/and; numbers with up to 3 symbolic digits each in 16 pairs of wordings',
                ['elements are opaque names (letters, words that contain or/and, equations, fractions) in the relational units', 'a three-digit element behind a number reads as a thousands group (5 or 125 as 5,125) and is outside', 'no element occurs twice on one side in the numeric units'])
