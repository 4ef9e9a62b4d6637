"""Answers in words: \\text{...} and \\mbox{...} name words; two such answers are equal exactly when they consist of the same words up to
case and blanks, alone, as elements of lists, tuples and sets, and behind an equals sign. The letters of the words are solver variables;
the symbolic comparison of plain letters is a stand-in that says what a commutative product of letters says (same letters in any order)."""
import itertools
from ..unit import Property, Unit
from ..spec import world, tb, tmpl, shape
from symx.values import sand, sor, simplies, snot, SymBool

# letters and their other case; no word made of them is a unit or a conjunction
D = {'1': 'aAeE', '2': 'nNtT', '3': 'lLbB', '4': 'kr z', '5': 'oOuU', '6': 'aet '}


def fold(s):
    """cells of a text without blanks: for each cell its code with letters lowered (solver term or number)"""
    import z3
    if isinstance(s, str):
        return [ord(c) for c in s.lower()]
    out = []
    for c in s.c:
        out.append(ord(chr(c).lower()) if isinstance(c, int) else z3.If(z3.And(c.e >= 65, c.e <= 90), c.e + 32, c.e))
    return out


def eqc(a, b):
    r = a == b
    return r if isinstance(r, bool) else SymBool(r)


def blankfree(s):
    """alternatives (condition, cells) of a text without its blanks"""
    alts = [(True, [])]
    for c in fold(s):
        if isinstance(c, int):
            if c != 32:
                alts = [(k, l + [c]) for k, l in alts]
        else:
            b = SymBool(c == 32)
            alts = [(sand(k, snot(b)), l + [c]) for k, l in alts] + [(sand(k, b), l) for k, l in alts]
    return alts


def plain(s):
    """no symbolic cell of this text can be a blank"""
    return isinstance(s, str) or all(isinstance(c, int) or 32 not in c.dom() for c in s.c)


def same(a, b):
    if plain(a) and plain(b):
        x, y = [[c for c in fold(s) if not (isinstance(c, int) and c == 32)] for s in (a, b)]
        return len(x) == len(y) and sand(*[eqc(i, j) for i, j in zip(x, y)])
    return sor(*[sand(k, m, *[eqc(i, j) for i, j in zip(x, y)]) for k, x in blankfree(a) for m, y in blankfree(b) if len(x) == len(y)])


def anagram(a, b):
    """the same letters in some order"""
    out = []
    for k, x in blankfree(a):
        for m, y in blankfree(b):
            if len(x) == len(y):
                out.append(sand(k, m, perm(x, y)))
    return sor(*out) if out else False


def perm(x, y):
    x, y = list(x), list(y)
    if not any(not isinstance(c, int) for c in x + y):
        return sorted(x) == sorted(y)
    import z3
    # same number of every character that occurs in one of them
    conc = {c for c in x + y if isinstance(c, int)}
    sy = [c for c in x + y if not isinstance(c, int)]
    cond = []
    cnt = lambda v, l: z3.Sum([z3.IntVal(0)] + [z3.If(c == v, 1, 0) for c in l])
    for v in sorted(conc) + sy:
        cond.append(SymBool(cnt(v, x) == cnt(v, y)))
    return sand(*cond)


class Product:
    """the comparison of letters as products: same letters, in any order"""
    def __call__(self, a, b, verbose=False):
        return tb(anagram(a, b)) if not (isinstance(a, str) and isinstance(b, str)) else anagram(a, b)


def words(s):
    return s


class T:
    """an answer: structure over words. kind 'one', 'set', 'list', 'tuple'; layout with @i; word templates; in text mode?"""
    def __init__(self, layout, kind, ws):
        self.layout, self.kind, self.ws = layout, kind, ws
        self.order = [int(layout[i + 1]) for i in range(len(layout) - 1) if layout[i] == '@']

    def make(self, pre):
        from ..spec import cat
        self_w = [tmpl(w, pre, D) for w in self.ws]
        out, i = '', 0
        while i < len(self.layout):
            if self.layout[i] == '@':
                out = cat(out, self_w[int(self.layout[i + 1])])
                i += 2
            else:
                out = cat(out, self.layout[i])
                i += 1
        return out, self_w

    def strict(self):
        return all('{@%d' % k in self.layout.replace(' ', '') for k in self.order) and '=' not in self.layout and '\\{' not in self.layout[:2] and 'matrix' not in self.layout


def want(a, wa, b, wb, f):
    if a.kind != b.kind or len(wa) != len(wb):
        return False
    x, y = [wa[k] for k in a.order], [wb[k] for k in b.order]
    if a.kind != 'set':
        return sand(*[f(i, j) for i, j in zip(x, y)])
    return sor(*[sand(*[f(i, y[j]) for i, j in zip(x, p)]) for p in itertools.permutations(range(len(y)))])


def cut(t, s):
    """words of an instance of an answer (the layout and the lengths are known)"""
    pos, out, i = 0, {}, 0
    while i < len(t.layout):
        if t.layout[i] == '@':
            k = int(t.layout[i + 1])
            out[k] = s[pos:pos + len(t.ws[k])]
            pos += len(t.ws[k])
            i += 2
        else:
            pos += 1
            i += 1
    return [out[k] for k in range(len(t.ws))]


def unit(a, b, weight=2):
    exact = a.strict() or b.strict()

    def spec(wa, wb):
        must = want(a, wa, b, wb, same)
        return must, (snot(must) if exact else snot(want(a, wa, b, wb, anagram)))

    def holds(r, sp):
        return sand(simplies(sp[0], r), simplies(sp[1], snot(r)))

    def body():
        from symx.core import Cur
        e = Cur.eng
        gt, wa = a.make('g')
        gv, wb = b.make('v')
        gt, gv = e.input('gt', gt), e.input('gv', gv)
        w = world({'math_evaluation.core.evaluations.are_equal_under_sympy': Product()})
        r = tb(w.get('math_evaluation.core.evaluations').is_equiv(gt, gv))
        e.prove(holds(r, spec(wa, wb)), f'words {name}')
        return r

    def oracle(i):
        import math_evaluation.core.evaluations as ev
        sp = spec(cut(a, i['gt']), cut(b, i['gv']))
        try:
            r = bool(ev.is_equiv(i['gt'], i['gv']))
        except Exception as ex:
            return dict(ok=False, got='raised ' + type(ex).__name__, want='a verdict')
        return dict(ok=bool(holds(r, sp)), got=r, want=f'{bool(sp[0])} for {i["gt"]!r} against {i["gv"]!r}')
    name = f'{show(a)} ~ {show(b)}'
    return Unit(name, body, oracle, compare=lambda x, y: bool(x) == y, secs=200, weight=weight, every=4)


def show(t):
    s = t.layout
    for k, w in enumerate(t.ws):
        s = s.replace(f'@{k}', w)
    return s


ONE = ['\\text{@0}', '\\mbox{@0}', '\\text{ @0 }', '$\\text{@0}$', ' \\mbox{@0 }', '\\text {@0}', '@0', ' @0 ']
# pairs of word templates: same letters in another order, other letters, other lengths, several words
WORDS = [('1a2', '1a2'), ('1s2', '2s1'), ('li3', '3il'), ('c1b2', 'c1b2'), ('2ob1', '1bo2'), ('no s1', 'nos1'), ('re34', 're34'), ('r14k', 'r14k'), ('1b', '1b2'), ('T', '2'), ('3', '1'), ('v5w', 'v5w'), ('red 3ox', 'red 3ox')]
# two and three words: layout, kind
TWO = [('\\text{@0}, \\text{@1}', 'set'), ('\\text{@0},\\text{@1}', 'set'), ('(\\text{@0}, \\text{@1})', 'tuple'), ('[\\text{@0},\\text{@1}]', 'list'), ('\\{\\text{@0}, \\text{@1}\\}', 'set'), ('\\text{@0} \\text{ and } \\text{@1}', 'set'), ('\\text{@0 or @1}', 'set'), ('@0, @1', 'set'), ('\\mbox{@0}, \\mbox{@1}', 'set'), ('$\\text{@0}$, $\\text{@1}$', 'set'), ('\\text{@0, @1}', 'set'), ('(@0, @1)', 'tuple'), ('\\left(\\text{@0}, \\mbox{@1}\\right)', 'tuple'), ('\\text{@1} and \\text{@0}', 'set'), ('[@0, @1]', 'list')]
THREE = [('\\text{@0}, \\text{@1}, \\text{@2}', 'set'), ('(\\text{@0}, \\text{@1}, \\text{@2})', 'tuple'), ('\\text{@0}, \\text{@1}, and \\text{@2}', 'set'), ('@2, @0, @1', 'set')]
MIX = [('(\\text{@0}, 3)', '(\\text{@0}, 3)', 'tuple'), ('\\text{@0}, 7', '7, \\text{@0}', 'set'), ('[2, \\text{@0}]', '[2, @0]', 'list'), ('(1, \\text{@0}, 2)', '(1, \\text{@0},2)', 'tuple'), ('\\text{@0}, 7', '\\mbox{ @0 },7', 'set'), ('x, \\text{@0}', '\\text{@0} \\text{ or } x', 'set')]
ALONE = [('x=\\text{@0}', 'x = \\text{@0}'), ('x=\\text{@0}', 'x=@0'), ('\\{\\text{@0}\\}', '\\{ \\text{@0} \\}'), ('\\{\\mbox{@0}\\}', '\\{@0\\}'), ('\\{\\text{@0}\\}', '\\text{@0}')]
MAT = [('\\begin{pmatrix}\\text{@0}\\\\ 2\\end{pmatrix}', '\\begin{bmatrix}\\text{@0}\\\\ 2\\end{bmatrix}'), ('\\begin{pmatrix}1 & \\text{@0}\\end{pmatrix}', '\\begin{pmatrix}1 & @0\\end{pmatrix}')]


def units(tier):
    q = tier == 'quick'
    for k, (v, w) in enumerate(WORDS):
        for n, l in enumerate(ONE):
            for m, r in enumerate(ONE):
                if not q or (n + 2 * m + k) % 5 == 0 or n == m == 0:
                    yield unit(T(l, 'one', [v]), T(r, 'one', [w]))
    W2 = [(['1b', 's5z'], ['1b', 's5z']), (['n5', '3x'], ['n5', '5n']), (['b1r', 'c3o'], ['c3o', 'r1b'])]
    for k, (l, ka) in enumerate(TWO):
        for m, (r, kb) in enumerate(TWO):
            for n, (v, w) in enumerate(W2):
                if not q or (k + m + n) % 3 == 0 and (k == m or (k + 2 * m) % 4 == 0):
                    yield unit(T(l, ka, v), T(r, kb, w), 4)
    for k, (l, ka) in enumerate(TWO):
        yield unit(T(l, ka, W2[k % 3][0]), T('\\text{@0}', 'one', W2[k % 3][1][:1]), 3)
    for k, (l, ka) in enumerate(THREE):
        for r, kb in THREE:
            yield unit(T(l, ka, ['b1', '3v', 'x']), T(r, kb, ['b1', 'v3', 'x']), 6)
    for l, r, kind in MIX:
        for v, w in WORDS[:4]:
            yield unit(T(l, kind, [v]), T(r, kind, [w]))
    for l, r in ALONE:
        for v, w in WORDS[:4]:
            yield unit(T(l, 'one', [v]), T(r, 'one', [w]))
    for l, r in MAT:
        for v, w in (('b', '3'), ('3', 'B'), ('1', '1')):
            yield unit(T(l, 'one', [v]), T(r, 'one', [w]))


PROP = Property('C38', lambda tier: list(units(tier)),
                'single words of 1 to 7 letters with up to 3 symbolic letters (and one place that may be a blank) per side in 8 layouts, two and three words in 15 and 4 layouts as sets, lists and tuples, words next to numbers, behind an equals sign, in set braces and as matrix entries',
                ['plain words without \\text are products of letters as well (no ~ on): for them only same words must be equal and other letters different', 'unit words, and/or inside a word list, digits inside \\text'])
