from ..unit import Property, Unit
from ..spec import tmpl, world

ALL = '1,.([{)]} a'
# (name, template, domain of 'κ')
Q = [(f'any text, length {n}', 'κ' * n, ALL) for n in (0, 1, 2, 3, 4)] + \
    [('brackets and commas, length 5', 'κ' * 5, 'a,([)]'), ('round brackets and commas, length 6', 'κ' * 6, 'a,()'), ('commas in mixed brackets, length 5', 'κ' * 5, ',([{)]}')] + \
    [(f'digits and commas, length {n}', 'κ' * n, '1,') for n in (6, 8, 9)] + \
    [('digits, commas, blanks, dots, length 6', 'κ' * 6, '1, .')] + \
    [('inside round brackets', '(κκκκκ)', '1,()'), ('inside square brackets', '[κκκκκ]', '1,[]'), ('inside braces', '{κκκκκ}', 'a,{} '), ('two groups', '(κκκ),[κκκ]', 'a,(]'), ('half-open', '[κκκκκ)', '1,('),
     ('grouped in a list', '(κκ,111,κκκκ)', '1, '), ('long number', '111,κκκ,κκκκ,111', '1,'), ('after a point', '1.κκκκκ,111κ', '1,'), ('deep', '((κκ),κ[κκ],κ)', 'a,()'), ('intervals', '[κ,κ)\\cup(κ,κκ', '1])')]
T = Q + [('any text, length 5', 'κ' * 5, ALL), ('brackets and commas, length 6', 'κ' * 6, 'a,([)]'), ('digits and commas, length 11', 'κ' * 11, '1,'), ('digits, commas, blanks, dots, length 8', 'κ' * 8, '1, .'), ('inside brackets 6', '(κκκκκκ)', '1,()'), ('any text, length 6', 'κ' * 6, ALL), ('any text, length 7', 'κ' * 7, '1,([)] '), ('brackets and commas, length 8', 'κ' * 8, 'a,()'), ('brackets and commas, length 9', 'κ' * 9, ',()'),
         ('digits and commas, length 14', 'κ' * 14, '1,'), ('digits, commas, blanks, dots, length 9', 'κ' * 9, '1, .'), ('nested', '[(κκκκ),(κκκκ)]', '1,()')]


# ---- reference: written from the statement, works on text and on symbolic text
def B(x):
    return bool(x)


def ungroup(s):
    ch = [s[i:i + 1] for i in range(len(s))]
    dig = lambda i: 0 <= i < len(ch) and B(ch[i] == '1')
    is_ = lambda i, c: 0 <= i < len(ch) and B(ch[i] == c)
    out, i, n = [], 0, len(ch)
    while i < n:
        if dig(i) and not dig(i - 1) and not is_(i - 1, '.'):
            k = i
            while dig(k):
                k += 1
            ends = []               # ends of 1, 2, ... groups of exactly three digits
            if k - i <= 3:
                j = k
                while is_(j, ','):
                    m = j + 1
                    if is_(m, ' ') and dig(m + 1):
                        m += 1
                    if dig(m) and dig(m + 1) and dig(m + 2):
                        ends.append(m + 3)
                        if dig(m + 3):
                            break
                        j = m + 3
                    else:
                        break
            ends = [e for e in ends if not dig(e)]
            e = ends[-1] if ends else k
            out += [c for c in ch[i:e] if not B(c == ',')] if ends else ch[i:e]
            i = e
        else:
            out.append(ch[i])
            i += 1
    return out


def ref(s):
    """('refuse',) | ('text', cells) | (kind, [pieces])"""
    ch = ungroup(s)
    OPEN, CLOSE = '([{', ')]}'
    d, depth = 0, []
    kinds = []
    for c in ch:
        if any(B(c == x) for x in OPEN):
            d += 1
            kinds.append('o')
        elif any(B(c == x) for x in CLOSE):
            d -= 1
            kinds.append('c')
        else:
            kinds.append('-')
        depth.append(d)
    if d != 0:
        return ('refuse',)
    kind = 'set'
    if len(ch) > 2 and all(x != 0 for x in depth[:-1]):
        for o, c, k in (('(', ')', 'tuple'), ('[', ']', 'list'), ('{', '}', 'set')):
            if B(ch[0] == o) and B(ch[-1] == c):
                kind, ch, depth = k, ch[1:-1], [x - 1 for x in depth[1:-1]]
                break
    pieces, cur = [], []
    for c, x in zip(ch, depth):
        if x == 0 and B(c == ','):
            pieces.append(cur)
            cur = []
        else:
            cur.append(c)
    if cur:
        pieces.append(cur)
    if len(pieces) < 2:
        return ('text', ch)
    return (kind, [trim(p) for p in pieces])


def trim(p):
    while p and B(p[0] == ' '):
        p = p[1:]
    while p and B(p[-1] == ' '):
        p = p[:-1]
    return p


def join(cs):
    if all(isinstance(c, str) for c in cs):
        return ''.join(cs)
    from symx import sstr
    return sstr.mk([x for c in cs for x in sstr.cells(c)])


def agrees(got, want):
    """does the code's result match the reference's?"""
    if want[0] == 'refuse':
        return isinstance(got, tuple) and got[:1] == ('raised',)
    if isinstance(got, tuple) and got[:1] == ('raised',):
        return False
    if want[0] == 'text':
        return is_text(got) and B(got == join(want[1]))
    ps = [join(p) for p in want[1]]
    if want[0] == 'set':
        if not (isinstance(got, (set, frozenset)) or type(got).__name__ == 'SymSet'):
            return False
        g = list(got)
        return all(any(B(x == y) for y in ps) for x in g) and all(any(B(x == y) for x in g) for y in ps)
    if type(got) is not (list if want[0] == 'list' else tuple):
        return False
    return len(got) == len(ps) and all(B(x == y) for x, y in zip(got, ps))


def is_text(x):
    return isinstance(x, str) or type(x).__name__ == 'SymStr'


def show(x):
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted(x)
    return [type(x).__name__] + list(x) if isinstance(x, (tuple, list)) else x


def unit(name, t, dom, tier):
    def body():
        from symx.core import Cur
        e = Cur.eng
        s = e.input('text', tmpl(t, 't', {'κ': dom}))
        f = world().get('math_evaluation.core.latex_normalize').split_tuple
        try:
            r = f(s)
        except Exception as ex:
            r = ('raised', type(ex).__name__)
        e.prove(agrees(r, ref(s)), 'split of ' + name)

    def oracle(i):
        from math_evaluation.core.latex_normalize import split_tuple
        s = i['text']
        try:
            r = split_tuple(s)
        except Exception as ex:
            r = ('raised', type(ex).__name__)
        w = ref(s)
        return dict(ok=agrees(r, w), got=show(r), want=repr([w[0]] + [join(p) if isinstance(p, list) else p for p in (w[1] if len(w) > 1 else [])]))
    return Unit(name, body, oracle, secs=150 if tier == 'quick' else 900, weight=len(t), every=15 if tier == 'quick' else 2, max_paths=200000, bound=f'{t!r} with κ from {dom!r}')


def units(tier):
    for n, t, d in (Q if tier == 'quick' else T):
        yield unit(n, t, d, tier)


PROP = Property('C13', lambda tier: list(units(tier)),
                'every text of length <= 4 (thorough 6) over 1 , . ( [ { ) ] } blank a; brackets and commas to length 6 (thorough 9); digit groups to length 9 (thorough 14); bracketed and grouped skeletons with 5-8 free characters',
                ['the reference splitter is written from the statement (vc/props/c13.py); digits are one class for the code'])
