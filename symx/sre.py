"""Exact symbolic execution of Python's regular expressions on symbolic strings (backtracking order preserved)."""
import re as _re
import re._parser as _sp
from re._constants import *  # noqa
import re._constants as C
from .core import Cur, Unsupported
from .sstr import SymStr, mk, cells, is_str, eq_cells
from .values import SymBool, Cell, sand, sor, snot, cell_in, cell_eq, in_set

error = _re.error
A = ASCII = _re.A
I = IGNORECASE = _re.I
M = MULTILINE = _re.M
S = DOTALL = _re.S
X = VERBOSE = _re.X
U = UNICODE = _re.U
escape = _re.escape
purge = _re.purge
Match = _re.Match

MAXREP = C.MAXREPEAT


class CharSet:
    """Predicate over code points for one single-character node, evaluated by the real re on that node."""
    def __init__(self, node, flags):
        self.node, self.flags = node, flags
        self.cache = {}
        self.dcache = {}

    def __contains__(self, c):
        r = self.cache.get(c)
        if r is None:
            r = self.cache[c] = self.ev(c)
        return r

    def inn(self, dom):
        r = self.dcache.get(dom)
        if r is None:
            if len(self.dcache) > 5000:
                self.dcache.clear()
            r = self.dcache[dom] = frozenset(c for c in dom if c in self)
        return r

    def ev(self, c):
        op, av = self.node
        ic = self.flags & _re.I
        cands = {c}
        if ic:
            for f in (str.lower, str.upper):
                t = f(chr(c))
                if len(t) == 1:
                    cands.add(ord(t))
            for d in list(cands):
                for f in (str.lower, str.upper):
                    t = f(chr(d))
                    if len(t) == 1:
                        cands.add(ord(t))
        if op is LITERAL:
            return av in cands
        if op is NOT_LITERAL:
            return av not in cands
        if op is ANY:
            return bool(self.flags & _re.S) or c != 10
        if op is IN:
            neg = False
            hit = False
            for o, a in av:
                if o is NEGATE:
                    neg = True
                elif o is LITERAL:
                    hit = hit or a in cands
                elif o is RANGE:
                    hit = hit or any(a[0] <= d <= a[1] for d in cands)
                elif o is CATEGORY:
                    hit = hit or _category(a, c, self.flags)
                else:
                    raise Unsupported('regex set ' + str(o))
            return hit != neg
        if op is CATEGORY:
            return _category(av, c, self.flags)
        raise Unsupported('regex char ' + str(op))


def _category(cat, c, flags):
    ch = chr(c)
    asc = flags & _re.A
    if cat in (CATEGORY_DIGIT, CATEGORY_NOT_DIGIT):
        r = ch.isdecimal() and (c < 128 or not asc)
        return r if cat is CATEGORY_DIGIT else not r
    if cat in (CATEGORY_SPACE, CATEGORY_NOT_SPACE):
        r = (ch in ' \t\n\r\f\v') if asc else ch.isspace()
        return r if cat is CATEGORY_SPACE else not r
    if cat in (CATEGORY_WORD, CATEGORY_NOT_WORD):
        r = (ch.isalnum() and (c < 128 or not asc)) or ch == '_'
        return r if cat is CATEGORY_WORD else not r
    raise Unsupported('category ' + str(cat))


def _mandatory(tree, flags, out):
    for op, av in tree:
        if op is LITERAL:
            out.append(CharSet((op, av), flags))
        elif op is SUBPATTERN:
            _mandatory(av[3], flags | av[1], out)
        elif op in (MAX_REPEAT, MIN_REPEAT) and av[0] >= 1:
            _mandatory(av[2], flags, out)


class St:
    """Alternative under construction: constraints, narrowed domains, groups."""
    __slots__ = ('cons', 'nd', 'gr')

    def __init__(self, cons=(), nd=None, gr=None):
        self.cons, self.nd, self.gr = cons, nd or {}, gr or {}

    def need(self, cell, cs):
        """require cell in charset cs; None if impossible."""
        if isinstance(cell, int):
            return self if cell in cs else None
        vd = self.nd.get(cell.vn)
        if vd is None:
            vd = cell.vdom()
        if cell.fm is None:
            if isinstance(cs, CharSet):
                inn = cs.inn(vd)
            else:
                inn = frozenset(c for c in vd if c in cs)
        else:
            inn = frozenset(c for c in vd if cell.fm.get(c, c) in cs)
        if not inn:
            return None
        if len(inn) == len(vd):
            return self
        nd = dict(self.nd)
        nd[cell.vn] = inn
        return St(self.cons, nd, self.gr)

    def extra(self, sb):
        if sb is True:
            return self
        if sb is False:
            return None
        return St(self.cons + (sb,), self.nd, self.gr)

    def grp(self, k, span):
        g = dict(self.gr)
        g[k] = span
        return St(self.cons, self.nd, g)

    def cond(self):
        xs = []
        g = Cur.eng
        import z3
        for vn, S in self.nd.items():
            S = S & g.dom[vn]
            if not S:
                return False
            if len(S) < len(g.dom[vn]):
                xs.append(SymBool(in_set(z3.Int(vn), S), [(vn, S)]))
        xs.extend(self.cons)
        return sand(*xs) if xs else True


class Pat:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymStr):
            pattern = pattern.concrete()
        self.pattern = pattern
        self.real = _re.compile(pattern, flags)
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex
        self._tree = None
        self._tpl = {}

    @property
    def tree(self):
        if self._tree is None:
            t = _sp.parse(self.pattern, self.flags & ~_re.U if False else self.flags)
            self._tree = prep(t, self.flags)
        return self._tree

    # ---- quick exact rejection: some character every match needs cannot occur in the text
    @property
    def must(self):
        m = getattr(self, '_must', None)
        if m is None:
            m = self._must = []
            _mandatory(_sp.parse(self.pattern, self.flags), self.flags, m)
        return m

    def impossible(self, s):
        if not self.must:
            return False
        k = s.possible()
        c = s._rej
        for cs in self.must:
            key = (cs.node, cs.flags & _re.I)
            r = c.get(key)
            if r is None:
                r = c[key] = any(x in cs for x in k)
            if not r:
                return True
        return False

    # ---- alternatives at one position, in priority order
    def alts(self, cs, pos, end):
        for p, st in mseq(self.tree, 0, pos, St(), cs, end):
            yield p, st

    def _first_ok(self, cs):
        """concrete quick rejection: set of start positions that cannot match at the first cell"""
        return None

    def match_at(self, s, cs, pos, end, full=False, nonempty_or=None):
        for p, st in self.alts(cs, pos, end):
            if full and p != end:
                continue
            if nonempty_or is not None and p == pos and nonempty_or:
                continue
            c = st.cond()
            if c is True or (c is not False and bool(c)):
                return SymMatch(self, s, cs, pos, p, st.gr)
        return None

    def _sym(self, s):
        if isinstance(s, SymStr):
            return True
        if not isinstance(s, str):
            raise TypeError('expected string or bytes-like object, got %r' % type(s).__name__)
        return False

    def match(self, s, pos=0, endpos=None):
        if not self._sym(s):
            return self.real.match(s, pos, len(s) if endpos is None else endpos)
        if self.impossible(s):
            return None
        n = len(s) if endpos is None else min(endpos, len(s))
        return self.match_at(s, s.c, pos, n)

    def fullmatch(self, s, pos=0, endpos=None):
        if not self._sym(s):
            return self.real.fullmatch(s, pos, len(s) if endpos is None else endpos)
        if self.impossible(s):
            return None
        n = len(s) if endpos is None else min(endpos, len(s))
        return self.match_at(s, s.c, pos, n, full=True)

    def search(self, s, pos=0, endpos=None):
        if not self._sym(s):
            return self.real.search(s, pos, len(s) if endpos is None else endpos)
        if self.impossible(s):
            return None
        n = len(s) if endpos is None else min(endpos, len(s))
        for i in range(pos, n + 1):
            m = self.match_at(s, s.c, i, n)
            if m:
                return m
        return None

    def _iter(self, s, limit=0):
        """Python >= 3.7: empty matches adjacent to a previous non-empty match are allowed; after an empty match at
        i the next must not be empty at i."""
        if isinstance(s, SymStr) and self.impossible(s):
            return
        cs = cells(s)
        n = len(cs)
        pos = 0
        must_advance = False
        k = 0
        while pos <= n:
            m = None
            i = pos
            while i <= n:
                m = self.match_at(s, cs, i, n, nonempty_or=(must_advance and i == pos))
                if m:
                    break
                i += 1
            if not m:
                return
            yield m
            k += 1
            if limit and k >= limit:
                return
            must_advance = m.end() == m.start()
            pos = m.end()

    def finditer(self, s, *a):
        if not self._sym(s):
            return self.real.finditer(s, *a)
        return self._iter(s)

    def findall(self, s, *a):
        if not self._sym(s):
            return self.real.findall(s, *a)
        out = []
        for m in self._iter(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(tuple(x if x is not None else '' for x in m.groups()))
        return out

    def subn(self, repl, s, count=0):
        if not self._sym(s) and not isinstance(repl, SymStr):
            if not callable(repl):
                return self.real.subn(repl, s, count)
        if not callable(repl):
            if isinstance(repl, SymStr):
                repl = repl.concrete()
            tpl = self._tpl.get(repl)
            if tpl is None:
                tpl = self._tpl[repl] = _sp.parse_template(repl, self.real)
        if isinstance(s, SymStr) and self.impossible(s):
            return s, 0
        cs = cells(s)
        out, last, k = [], 0, 0
        it = self._iter(s, count) if isinstance(s, SymStr) else self.real.finditer(s)
        for m in it:
            if count and k >= count:
                break
            out.extend(cs[last:m.start()])
            if callable(repl):
                r = repl(m)
                if not is_str(r):
                    raise TypeError('expected str instance')
                out.append(r)
            else:
                for t in tpl:
                    if isinstance(t, int):
                        g = m.group(t)
                        if g is not None:
                            out.append(g)
                    elif t:
                        out.append(t)
            last = m.end()
            k += 1
        out.extend(cs[last:])
        return mk(out) if k else s, k

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if not self._sym(s):
            return self.real.split(s, maxsplit)
        out, last = [], 0
        for m in self._iter(s, maxsplit):
            out.append(mk(s.c[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
        out.append(mk(s.c[last:]))
        return out


class SymMatch:
    def __init__(self, pat, s, cs, a, b, gr):
        self.re, self.string, self._cs = pat, s, cs
        self._sp = {0: (a, b)}
        self._sp.update(gr)

    def __bool__(self):
        return True

    def _k(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[g]
        g = int(g)
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def _g(self, g):
        sp = self._sp.get(self._k(g))
        if sp is None:
            return None
        return mk(self._cs[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._g(0)
        if len(gs) == 1:
            return self._g(gs[0])
        return tuple(self._g(g) for g in gs)

    def __getitem__(self, g):
        return self._g(g)

    def groups(self, default=None):
        r = [self._g(i) for i in range(1, self.re.groups + 1)]
        return tuple(default if x is None else x for x in r)

    def groupdict(self, default=None):
        return {k: (default if self._g(k) is None else self._g(k)) for k in self.re.groupindex}

    def span(self, g=0):
        return self._sp.get(self._k(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, t):
        out = []
        for x in _sp.parse_template(t, self.re.real):
            if isinstance(x, int):
                g = self.group(x)
                if g is not None:
                    out.append(g)
            else:
                out.append(x)
        return mk(out)

    @property
    def lastindex(self):
        ks = [k for k in self._sp if k]
        return max(ks, key=lambda k: (self._sp[k][1], -k)) if ks else None

    @property
    def pos(self):
        return 0


# ------------------------------------------------------------------ compilation of the parse tree
def prep(t, flags):
    out = []
    for op, av in t:
        if op in (LITERAL, NOT_LITERAL, ANY, IN):
            out.append(('c', CharSet((op, av), flags)))
        elif op is AT:
            out.append(('at', av, flags))
        elif op is BRANCH:
            out.append(('br', [prep(b, flags) for b in av[1]]))
        elif op is SUBPATTERN:
            g, addf, delf, p = av
            out.append(('g', g, prep(p, (flags | addf) & ~delf)))
        elif op in (MAX_REPEAT, MIN_REPEAT):
            lo, hi, p = av
            out.append(('r', lo, hi, prep(p, flags), op is MAX_REPEAT))
        elif op is C.POSSESSIVE_REPEAT or op is C.ATOMIC_GROUP:
            raise Unsupported('possessive regex')
        elif op in (ASSERT, ASSERT_NOT):
            d, p = av
            out.append(('look', d, prep(p, flags), op is ASSERT, width(p)))
        elif op is GROUPREF:
            out.append(('ref', av, flags))
        elif op is GROUPREF_EXISTS:
            g, y, n = av
            out.append(('refx', g, prep(y, flags), prep(n, flags) if n else []))
        else:
            raise Unsupported('regex op ' + str(op))
    return out


def width(p):
    lo, hi = p.getwidth()
    return lo


WORD = CharSet((CATEGORY, CATEGORY_WORD), 0)
AWORD = CharSet((CATEGORY, CATEGORY_WORD), _re.A)


def mseq(items, i, pos, st, cs, end):
    """Enumerates (end position, state) for items[i:] at pos, in backtracking priority order."""
    n = len(items)
    while i < n:
        it = items[i]
        if it[0] == 'c':
            if pos >= end:
                return
            st = st.need(cs[pos], it[1])
            if st is None:
                return
            pos += 1
            i += 1
            continue
        break
    if i == n:
        yield pos, st
        return
    it = items[i]
    k = it[0]
    if k == 'at':
        c = at_cond(it[1], it[2], pos, cs, end)
        st2 = st.extra(c)
        if st2 is not None:
            yield from mseq(items, i + 1, pos, st2, cs, end)
    elif k == 'br':
        for b in it[1]:
            for p, s2 in mseq(b, 0, pos, st, cs, end):
                yield from mseq(items, i + 1, p, s2, cs, end)
    elif k == 'g':
        for p, s2 in mseq(it[2], 0, pos, st, cs, end):
            if it[1] is not None:
                s2 = s2.grp(it[1], (pos, p))
            yield from mseq(items, i + 1, p, s2, cs, end)
    elif k == 'r':
        lo, hi, body, greedy = it[1:]
        hi = None if hi is MAXREP else hi
        for p, s2 in rep(body, lo, hi, greedy, 0, pos, st, cs, end):
            yield from mseq(items, i + 1, p, s2, cs, end)
    elif k == 'look':
        d, body, pos_look, w = it[1:]
        if d < 0:
            start = pos - w
            if start < 0:
                ok = [] 
            else:
                ok = [s2 for p, s2 in mseq(body, 0, start, St((), st.nd, st.gr), cs, end) if p == pos]
        else:
            ok = [s2 for p, s2 in mseq(body, 0, pos, St((), st.nd, st.gr), cs, end)]
        c = sor(*[s2.cond() for s2 in ok]) if ok else False
        if not pos_look:
            c = snot(c)
        elif len(ok) == 1:
            s3 = St(st.cons + ok[0].cons, ok[0].nd, ok[0].gr)
            yield from mseq(items, i + 1, pos, s3, cs, end)
            return
        elif any(s2.gr != st.gr for s2 in ok):
            raise Unsupported('groups in lookaround')
        st2 = narrow(st, c)
        if st2 is not None:
            yield from mseq(items, i + 1, pos, st2, cs, end)
    elif k == 'ref':
        sp = st.gr.get(it[1])
        if sp is None:
            return
        if it[2] & _re.I:
            raise Unsupported('case-insensitive back-reference')
        L = sp[1] - sp[0]
        if pos + L > end:
            return
        st2 = st.extra(eq_cells(cs[sp[0]:sp[1]], cs[pos:pos + L]))
        if st2 is not None:
            yield from mseq(items, i + 1, pos + L, st2, cs, end)
    elif k == 'refx':
        b = it[2] if st.gr.get(it[1]) is not None else it[3]
        for p, s2 in mseq(b, 0, pos, st, cs, end):
            yield from mseq(items, i + 1, p, s2, cs, end)


def narrow(st, c):
    """add a condition; if it is a single-variable one, also narrow the domain."""
    if c is True:
        return st
    if c is False:
        return None
    return st.extra(c)


def rep(body, lo, hi, greedy, cnt, pos, st, cs, end):
    # iterative fast path for single characters
    if len(body) == 1 and body[0][0] == 'c':
        ch = body[0][1]
        states = [(pos, st)]
        p, s = pos, st
        c = 0
        if not greedy:
            while True:
                if c >= lo:
                    yield p, s
                if (hi is not None and c >= hi) or p >= end:
                    return
                s = s.need(cs[p], ch)
                if s is None:
                    return
                p += 1
                c += 1
        while (hi is None or c < hi) and p < end:
            s = s.need(cs[p], ch)
            if s is None:
                break
            p += 1
            c += 1
            states.append((p, s))
        for p, s in reversed(states[lo:]):
            yield p, s
        return
    if greedy:
        if hi is None or cnt < hi:
            for p, s2 in mseq(body, 0, pos, st, cs, end):
                if p == pos and cnt >= lo:
                    continue
                yield from rep(body, lo, hi, greedy, cnt + 1, p, s2, cs, end)
        if cnt >= lo:
            yield pos, st
    else:
        if cnt >= lo:
            yield pos, st
        if hi is None or cnt < hi:
            for p, s2 in mseq(body, 0, pos, st, cs, end):
                if p == pos and cnt >= lo:
                    continue
                yield from rep(body, lo, hi, greedy, cnt + 1, p, s2, cs, end)


def _isin(c, cs):
    if isinstance(c, int):
        return c in cs
    return c.test(cs)


def at_cond(av, flags, pos, cs, end):
    n = len(cs)
    if av is AT_BEGINNING_STRING or (av is AT_BEGINNING and not flags & _re.M):
        return pos == 0
    if av is AT_BEGINNING:
        return True if pos == 0 else _isin(cs[pos - 1], (10,))
    if av is AT_END_STRING:
        return pos == n
    if av is AT_END:
        if pos == n:
            return True
        if flags & _re.M:
            return _isin(cs[pos], (10,))
        return _isin(cs[pos], (10,)) if pos == n - 1 else False
    if av in (AT_BOUNDARY, AT_NON_BOUNDARY):
        W = AWORD if flags & _re.A else WORD
        a = _isin(cs[pos - 1], W) if pos > 0 else False
        b = _isin(cs[pos], W) if pos < n else False
        from .values import siff
        r = snot(siff(a, b))
        return r if av is AT_BOUNDARY else snot(r)
    raise Unsupported('regex at ' + str(av))


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pat):
        return pattern
    if isinstance(pattern, _re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags
    if isinstance(pattern, SymStr):
        pattern = pattern.concrete()
    key = (pattern, int(flags))
    p = _cache.get(key)
    if p is None:
        p = _cache[key] = Pat(pattern, flags)
    return p


Pattern = Pat


def search(p, s, flags=0): return compile(p, flags).search(s)
def match(p, s, flags=0): return compile(p, flags).match(s)
def fullmatch(p, s, flags=0): return compile(p, flags).fullmatch(s)
def sub(p, r, s, count=0, flags=0): return compile(p, flags).sub(r, s, count)
def subn(p, r, s, count=0, flags=0): return compile(p, flags).subn(r, s, count)
def findall(p, s, flags=0): return compile(p, flags).findall(s)
def finditer(p, s, flags=0): return compile(p, flags).finditer(s)
def split(p, s, maxsplit=0, flags=0): return compile(p, flags).split(s, maxsplit)
