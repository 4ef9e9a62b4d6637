"""Self-test of the string/regex engine against the real re/str: every path's model is replayed concretely."""
import random, re, sys, time
import sys as _s
_s.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from . import core, values, sstr, sre

PATS = [r"^\\\s*(text|mbox){\s*(?P<text>.+?)}$", r"^\\{(.*)\|(.*)\\}$", r"\\:", r"\{,\}", r"^(\d+)_(?:(\d)|\{(\d+)\})$",
        r",? *((\\text\{ *(and|or) *\})| (and|or) )", r"[a-zA-Z]+\s*\\in", r" *cm(es|s)? *(\^\d|\^{\d+}+)?",
        r"(\d*)(\.\d+)? *\^ *(?:\{ *\\circ *\}|\\circ)", r"\d{1,3}(?:, ?\d{3})+", r"(\d+) +(\d+/\d+)",
        r"(\d+) *(\\frac(\d|{\d+})(\d|{\d+}))", "- *", r"(?<!\w)i(?!\w)|(?<=\d)i", r"(a|b)*c?", r"(?=a)(a|ab)(c?)", r"(\w)\1",
        r"\bi\b", r"x*", r"a|b|", r"(?i)[A-C]+", r"^a.*?b$", r"(?:a?b?){1,2}c", r"(?<!\d)\d{1,3}(?:, ?\d{3})+(?!\d)"]


def run(seconds=20, seed=1):
    rnd = random.Random(seed)
    t0 = time.time()
    n = paths = 0
    while time.time() - t0 < seconds:
        p = rnd.choice(PATS)
        lits = sorted(set(c for c in p if c.isalnum() or c in '{}\\,^_|/.-' ) | set('1 a'))
        L = rnd.randint(0, 6)
        tmpl = []
        for i in range(L):
            if rnd.random() < .4:
                tmpl.append(rnd.choice(lits))
            else:
                tmpl.append(frozenset(map(ord, rnd.sample(lits, rnd.randint(2, min(4, len(lits)))))))
        op = rnd.choice(['sub', 'search', 'match', 'fullmatch', 'findall', 'split', 'replace', 'find', 'strip', 'ssplit', 'lower', 'cnt'])
        arg = rnd.choice(lits) + (rnd.choice(lits) if rnd.random() < .3 else '')

        def act(s, R, real):
            if op == 'sub':
                return R.sub(p, lambda m: '<' + m.group(0) + '>', s)
            if op in ('search', 'match', 'fullmatch'):
                m = getattr(R, op)(p, s)
                return None if not m else (m.span(), m.groups())
            if op == 'findall':
                return R.findall(p, s)
            if op == 'split':
                return R.split(p, s)
            if real:
                return {'replace': lambda: s.replace(arg, 'ZZ'), 'find': lambda: (s.find(arg), s.rfind(arg)), 'strip': lambda: (s.strip(arg), s.strip()),
                        'ssplit': lambda: (s.split(arg), s.split()), 'lower': lambda: (s.lower(), s.upper(), s.isdigit() == True), 'cnt': lambda: (s.count(arg), s.partition(arg))}[op]()
            M = sstr
            return {'replace': lambda: M.replace(s, arg, 'ZZ'), 'find': lambda: (M.find(s, arg), M.rfind(s, arg)), 'strip': lambda: (M.strip(s, arg), M.strip(s)),
                    'ssplit': lambda: (M.split(s, arg), M.split(s)), 'lower': lambda: (M.lower(s), M.upper(s), bool(M.isdigit(s))), 'cnt': lambda: (M.count(s, arg), M.partition(s, arg))}[op]()
        e = core.Eng(max_paths=300)
        box = {}

        def body():
            s = sstr.mk([c if isinstance(c, str) else values.new_cell('c', c) for c in tmpl])
            e.input('s', s)
            return s, act(s, sre, False)

        def end(eng, r):
            nonlocal paths
            s, res = r
            m = eng.model()
            assert m is not None or eng.check() != core.z3.sat
            if m is None:
                return
            cs = values.concretize_model(s, m)
            want = act(cs, re, True)
            got = values.concretize_model(res, m)
            paths += 1
            if got != want:
                print('MISMATCH', repr(p), op, arg, repr(cs), 'got', got, 'want', want)
                raise SystemExit(1)
        e.explore(body, end)
        n += 1
    print('selftest ok', n, 'cases', paths, 'paths')


if __name__ == '__main__':
    run(float(sys.argv[1]) if len(sys.argv) > 1 else 20)
