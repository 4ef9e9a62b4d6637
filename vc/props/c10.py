from ..unit import Property, Unit
from ..spec import tmpl, world, shape, drop, cat
from symx.values import sand, snot, sor

CJK = '立方厘米 立方分米 平方公里 平方英尺 平方英里 平方英寸 平方英寻 千公里 平方米 立方米 千米 厘米 分米 海里 毫米 公里 英里 公尺 英尺 元 分 角 米 度 里 升'.split()
LONG = 'centimeter second degree dollar minute radian square pound month units meter edges mile hour year cent foot feet inch yard week day rad mph'.split()
SHORT = 'eV kg mg km cm dm ml mL ft in'.split()
CLOCK = 'a.m. p.m. A.M. P.M. am AM PM pm'.split()
SINGLE = 'L l m g'.split()
NUMS = {'quick': ['#', '#.##', '-##'], 'thorough': ['#', '##', '#.##', '-##', '¹,###', '-#.#', '###.##', '#/¹']}


def spellings(u):
    """every supported way to write the unit after a number; '#' is a symbolic power digit"""
    pl = [u] if u in CJK else [u, u + 's'] + ([u + 'es'] if u == 'inch' else [])
    out = []
    for w in pl:
        for wrap in ('\\text{%s}', ' \\text{ %s}', ' \\mbox{%s}', '\\mbox{ %s }', ' \\text{%s }'):
            out.append(wrap % w)
            out.append(wrap % w + '^#')
            out.append(wrap % w + '^{#}')
        out.append(' \\text{%s^#}' % w)
        out.append('\\mbox{%s^{#}}' % w)
        if u not in SINGLE:
            out += [' ' + w, '  ' + w, ' ' + w + '^#', ' ' + w + '^{#}', ' ' + w + ' ^#']
        if u in LONG or u in CJK:
            out += [w, w + '^#']
    return out


def norm_eq(a, b):
    if isinstance(a, (set, frozenset)) or type(a).__name__ == 'SymSet' or type(b).__name__ == 'SymSet' or isinstance(b, set):
        return False
    return a == b


def unit_body(u, tier):
    def body():
        from symx.core import Cur
        e = Cur.eng
        nums = NUMS[tier]
        sp = spellings(u)
        n = nums[e.choose(len(nums), 'num')]
        w = sp[e.choose(len(sp), 'spelling')]
        num, suf = e.input('num', tmpl(n, 'n')), e.input('suffix', tmpl(w, 'p'))
        ln = world().get('math_evaluation.core.latex_normalize')
        r, want = ln.string_normalize(cat(num, suf)), ln.string_normalize(num)
        e.prove(norm_eq(r, want), f'number with unit {w}')
        return r

    def oracle(i):
        from math_evaluation.core.latex_normalize import string_normalize
        r, w = string_normalize(i['num'] + i['suffix']), string_normalize(i['num'])
        return dict(ok=r == w, got=r, want=w)
    return Unit('unit ' + u, body, oracle, compare=lambda a, b: a == b, secs=200 if tier == 'quick' else 900, weight=len(u) + (8 if u not in CJK else 0), every=9 if tier == 'quick' else 3)


def words():
    out = set()
    for u in LONG + SHORT + CLOCK:
        out |= {u, u + 's', u + 'es'}
    return out


WORDS = {w.lower() for w in words()} | {'million', 'billion', 'trillion', 'inf', 'nan', 'and', 'or', 'infinity'}
SHORTW = {w.lower() for u in SHORT for w in (u, u + 's', u + 'es')}
# 'λ' any lower-case letter; words that are no unit must come through (blanks are dropped)
PLAIN = ['λλ', 'λλλ', 'λ#', '# λλ', '# λλλ', '#+λ', 'a λλλλ', '#λ+λ', '# λλ+#', 'λλ=#'] + ['# %sλ' % u for u in SHORT + LONG if u.islower()] + ['λ%s' % u for u in LONG] + ['# λ%s' % u for u in SHORT + LONG if u.islower()] + \
    ['#%s' % u for u in ('kg', 'mg', 'km', 'cm', 'dm', 'ml', 'ft', 'in')] + ['#.#%s' % u for u in ('kg', 'cm', 'ft', 'in')] + ['%s#' % u for u in ('kg', 'mg', 'km', 'cm', 'dm', 'ml', 'ft')] + ['# m', '# g', '# l']


def has_word(s):
    """some blank-or-non-letter separated word of s is a unit (or a word with a meaning of its own)"""
    ch = list(s) if isinstance(s, str) else [s[i:i + 1] for i in range(len(shape(s)))]
    # all maximal letter runs of the shape: template letters and λ are letters
    from symx.values import sor
    sh = shape(s) if isinstance(s, str) else ''.join(chr(c) if isinstance(c, int) else 'λ' if 97 in c.dom() or any(x > 64 for x in c.dom()) else '0' for c in s.c)
    import re
    conds = []
    for m in re.finditer(r'[a-zA-Zλ]+', sh):
        w = s[m.start():m.end()]
        glued = m.start() > 0 and sh[m.start() - 1] != ' '      # short units count only after a blank
        for k in WORDS:
            if len(k) == m.end() - m.start() and not (glued and k in SHORTW):
                conds.append(w == k)
    return sor(*conds) if conds else False


def plain_body(ts, tier):
    def body():
        from symx.core import Cur
        e = Cur.eng
        t = ts[e.choose(len(ts), 'template')]
        s = e.input('text', tmpl(t, 't', {'λ': 'abcdefghijklmnopqrstuvwxyz'}))
        e.assume(snot(has_word(s)))
        r = world().get('math_evaluation.core.latex_normalize').string_normalize(s)
        e.prove(norm_eq(r, drop(s, ' ')), f'text without unit {t}')
        return r

    def oracle(i):
        from math_evaluation.core.latex_normalize import string_normalize
        s = i['text']
        if has_word(s):
            return dict(ok=True, got='a unit', want='')
        r, w = string_normalize(s), s.replace(' ', '')
        return dict(ok=r == w, got=r, want=w)
    return Unit('text ' + ' | '.join(ts)[:80], body, oracle, compare=lambda a, b: a == b, secs=200 if tier == 'quick' else 900, weight=20)


def units(tier):
    for u in LONG + SHORT + SINGLE + CJK:
        yield unit_body(u, tier)
    for k in range(8):
        yield plain_body(PLAIN[k::8], tier)


PROP = Property('C10', lambda tier: list(units(tier)),
                'all 64 supported non-clock units, every spelling (wrapper, plural, power with a symbolic digit, blanks), numbers of up to 3 (thorough 5) symbolic digits; '
                'texts without unit: templates with symbolic letters around every unit name',
                ['am/pm markers are times, not units (C08)', 'every 9th (thorough 3rd) explored path is replayed on the real code'])
