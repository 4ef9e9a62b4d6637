"""Symbolic strings: tuples of concrete code points and symbolic cells; length is always concrete."""
import unicodedata
from .core import Cur, Unsupported, PathAbort

WS = frozenset(c for c in range(0x3100) if chr(c).isspace())


def eng():
    return Cur.eng


def cells(x):
    if isinstance(x, SymStr):
        return x.c
    return tuple(map(ord, x))


def mk(cs):
    """cells (ints / Cells / str / SymStr pieces) -> real str when fully concrete."""
    if isinstance(cs, (str, SymStr)):
        return cs
    out = []
    sym = False
    for c in cs:
        if isinstance(c, int):
            out.append(c)
        elif isinstance(c, (str, SymStr)):
            for d in cells(c):
                out.append(d)
                sym = sym or not isinstance(d, int)
        else:
            out.append(c)
            sym = True
    if not sym:
        return ''.join(map(chr, out))
    # a cell whose domain is a single value is concrete
    if any(not isinstance(c, int) and len(c.dom()) == 1 for c in out):
        out = [c if isinstance(c, int) or len(c.dom()) != 1 else next(iter(c.dom())) for c in out]
        if all(isinstance(c, int) for c in out):
            return ''.join(map(chr, out))
    return SymStr(tuple(out))


def is_str(x):
    return isinstance(x, (str, SymStr))


def _need(x, what):
    if not is_str(x):
        raise TypeError(f'{what}: expected str, got {type(x).__name__}')
    return cells(x)


def eq_cells(a, b):
    from .values import cell_eq, sand
    if len(a) != len(b):
        return False
    rs = []
    for x, y in zip(a, b):
        r = cell_eq(x, y)
        if r is False:
            return False
        if r is not True:
            rs.append(r)
    if not rs:
        return True
    return sand(*rs)


class SymStr:
    __slots__ = ('c', '_poss', '_rej')

    def __init__(self, c):
        self.c = c
        self._poss = None
        self._rej = {}

    def possible(self):
        """every code point that can occur (domains only shrink, so a cached answer stays a superset)"""
        r = self._poss
        if r is None:
            r = set()
            for c in self.c:
                if isinstance(c, int):
                    r.add(c)
                else:
                    r.update(c.dom())
            self._poss = r
        return r

    # ---- basics
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def concrete(self):
        """Fork on every cell value."""
        g = eng()
        out = []
        for c in self.c:
            out.append(c if isinstance(c, int) else g.concretize(c.e, limit=200))
        return ''.join(map(chr, out))

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return 'S"' + ''.join(chr(c) if isinstance(c, int) else '\u25a1' for c in self.c) + '"'

    def __hash__(self):
        return hash(self.concrete())

    def __eq__(self, o):
        if not is_str(o):
            return False
        return eq_cells(self.c, cells(o))

    def __ne__(self, o):
        from .values import snot
        return snot(self.__eq__(o))

    def _lt(self, o, strict):
        from .values import SymBool, sand, sor
        import z3
        a, b = self.c, _need(o, 'comparison')
        from .values import cell_eq
        res = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            ex = x if isinstance(x, int) else x.e
            ey = y if isinstance(y, int) else y.e
            lt = (ex < ey) if isinstance(ex, int) and isinstance(ey, int) else SymBool(ex < ey)
            res = sor(lt, sand(cell_eq(x, y), res))
        return res

    def __lt__(self, o): return self._lt(o, True)
    def __le__(self, o): return self._lt(o, False)
    def __gt__(self, o):
        from .values import snot
        return snot(self._lt(o, False))
    def __ge__(self, o):
        from .values import snot
        return snot(self._lt(o, True))

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(self.c + cells(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(cells(o) + self.c)

    def __mul__(self, k):
        return mk(self.c * int(k))
    __rmul__ = __mul__

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mk(self.c[slice(_i(k.start), _i(k.stop), _i(k.step))])
        return mk((self.c[int(k)],))

    def __iter__(self):
        for c in self.c:
            yield mk((c,))

    def __contains__(self, o):
        return bool(contains(self, o))

    def __mod__(self, args):
        raise Unsupported('% formatting with a symbolic format string')

    def __format__(self, spec):
        raise Unsupported('native format of a symbolic string')

    def __getattr__(self, name):
        m = METHODS.get(name)
        if m is None:
            if name.startswith('__') or not hasattr(str, name):
                raise AttributeError(f"'str' object has no attribute '{name}'")
            return lambda *a, **k: getattr(self.concrete(), name)(*a, **k)
        return lambda *a, **k: m(self, *a, **k)


def _i(x):
    return None if x is None else int(x)


# ------------------------------------------------------------------ methods (self may be str or SymStr)
def _range(s, start, end):
    n = len(s)
    start = 0 if start is None else int(start)
    end = n if end is None else int(end)
    if start < 0:
        start = max(0, start + n)
    if end < 0:
        end = max(0, end + n)
    return start, min(end, n)


def contains(s, o):
    from .values import sor
    a, b = cells(s), _need(o, 'in <string>')
    rs = []
    for i in range(len(a) - len(b) + 1):
        r = eq_cells(a[i:i + len(b)], b)
        if r is True:
            return True
        if r is not False:
            rs.append(r)
    if not rs:
        return False
    return sor(*rs)


def find(s, sub, start=None, end=None):
    a, b = cells(s), _need(sub, 'find')
    lo, hi = _range(a, start, end)
    for i in range(lo, hi - len(b) + 1):
        if eq_cells(a[i:i + len(b)], b):
            return i
    return -1


def rfind(s, sub, start=None, end=None):
    a, b = cells(s), _need(sub, 'rfind')
    lo, hi = _range(a, start, end)
    for i in range(hi - len(b), lo - 1, -1):
        if eq_cells(a[i:i + len(b)], b):
            return i
    return -1


def index(s, sub, start=None, end=None):
    r = find(s, sub, start, end)
    if r < 0:
        raise ValueError('substring not found')
    return r


def rindex(s, sub, start=None, end=None):
    r = rfind(s, sub, start, end)
    if r < 0:
        raise ValueError('substring not found')
    return r


def count(s, sub, start=None, end=None):
    a, b = cells(s), _need(sub, 'count')
    lo, hi = _range(a, start, end)
    if not b:
        return hi - lo + 1 if hi >= lo else 0
    n = 0
    i = lo
    while i + len(b) <= hi:
        if eq_cells(a[i:i + len(b)], b):
            n += 1
            i += len(b)
        else:
            i += 1
    return n


def replace(s, old, new, cnt=-1):
    a, o, w = cells(s), _need(old, 'replace'), _need(new, 'replace')
    cnt = int(cnt)
    if cnt < 0:
        cnt = len(a) + 1
    if not o:
        out = []
        for i, c in enumerate(a):
            if cnt > 0:
                out.extend(w)
                cnt -= 1
            out.append(c)
        if cnt > 0:
            out.extend(w)
        return mk(out)
    out = []
    i = 0
    while i < len(a):
        if cnt > 0 and i + len(o) <= len(a) and eq_cells(a[i:i + len(o)], o):
            out.extend(w)
            i += len(o)
            cnt -= 1
        else:
            out.append(a[i])
            i += 1
    return mk(out)


def _chars_of(x):
    if x is None:
        return WS
    if isinstance(x, SymStr):
        x = x.concrete()
    return frozenset(map(ord, x))


def strip(s, chars=None):
    return lstrip(rstrip(s, chars), chars)


def lstrip(s, chars=None):
    from .values import cell_in
    a, S = cells(s), _chars_of(chars)
    i = 0
    while i < len(a) and cell_in(a[i], S):
        i += 1
    return mk(a[i:])


def rstrip(s, chars=None):
    from .values import cell_in
    a, S = cells(s), _chars_of(chars)
    i = len(a)
    while i > 0 and cell_in(a[i - 1], S):
        i -= 1
    return mk(a[:i])


def startswith(s, p, start=None, end=None):
    if isinstance(p, tuple):
        for q in p:
            if startswith(s, q, start, end):
                return True
        return False
    a, b = cells(s), _need(p, 'startswith')
    lo, hi = _range(a, start, end)
    if lo > len(a):
        return False
    a = a[lo:hi]
    return eq_cells(a[:len(b)], b) if len(a) >= len(b) else False


def endswith(s, p, start=None, end=None):
    if isinstance(p, tuple):
        for q in p:
            if endswith(s, q, start, end):
                return True
        return False
    a, b = cells(s), _need(p, 'endswith')
    lo, hi = _range(a, start, end)
    a = a[lo:hi]
    return eq_cells(a[len(a) - len(b):], b) if len(a) >= len(b) else False


def split(s, sep=None, maxsplit=-1):
    from .values import cell_in
    a = cells(s)
    maxsplit = int(maxsplit)
    if maxsplit < 0:
        maxsplit = len(a) + 1
    out = []
    if sep is None:
        i = 0
        while True:
            while i < len(a) and cell_in(a[i], WS):
                i += 1
            if i >= len(a):
                break
            if maxsplit == 0:
                out.append(rstrip(mk(a[i:])))
                break
            j = i
            while j < len(a) and not cell_in(a[j], WS):
                j += 1
            out.append(mk(a[i:j]))
            maxsplit -= 1
            i = j
        return out
    b = _need(sep, 'split')
    if not b:
        raise ValueError('empty separator')
    i = last = 0
    while i + len(b) <= len(a):
        if maxsplit > 0 and eq_cells(a[i:i + len(b)], b):
            out.append(mk(a[last:i]))
            i += len(b)
            last = i
            maxsplit -= 1
        else:
            i += 1
    out.append(mk(a[last:]))
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if int(maxsplit) < 0:
        return split(s, sep)
    a = cells(s)
    if sep is None:
        raise Unsupported('rsplit on whitespace')
    b = _need(sep, 'rsplit')
    if not b:
        raise ValueError('empty separator')
    out = []
    hi = len(a)
    i = hi - len(b)
    while i >= 0:
        if maxsplit > 0 and eq_cells(a[i:i + len(b)], b):
            out.append(mk(a[i + len(b):hi]))
            hi = i
            i -= len(b)
            maxsplit -= 1
        else:
            i -= 1
    out.append(mk(a[:hi]))
    return out[::-1]


def partition(s, sep):
    i = find(s, sep)
    a = cells(s)
    if i < 0:
        return (s, '', '')
    n = len(cells(sep))
    return (mk(a[:i]), sep, mk(a[i + n:]))


def rpartition(s, sep):
    i = rfind(s, sep)
    a = cells(s)
    if i < 0:
        return ('', '', s)
    n = len(cells(sep))
    return (mk(a[:i]), sep, mk(a[i + n:]))


def join(s, it):
    out = []
    sep = cells(s)
    for k, x in enumerate(it):
        if k:
            out.extend(sep)
        out.extend(_need(x, 'join'))
    return mk(out)


def splitlines(s, keepends=False):
    from .values import cell_in
    NL = frozenset([10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029])
    a = cells(s)
    out, last, i = [], 0, 0
    while i < len(a):
        if cell_in(a[i], NL):
            j = i + 1
            if cell_in(a[i], (13,)) and j < len(a) and cell_in(a[j], (10,)):
                j += 1
            out.append(mk(a[last:j if keepends else i]))
            last = i = j
        else:
            i += 1
    if last < len(a):
        out.append(mk(a[last:]))
    return out


def _case(fn):
    def f(s):
        out = []
        for c in cells(s):
            if isinstance(c, int):
                out.extend(map(ord, fn(chr(c))))
                continue
            m = c.mapped(lambda x: ord(fn(chr(x))) if len(fn(chr(x))) == 1 else None)
            if m is None:
                # some character of the domain changes length: fork on those
                from .values import cell_in
                odd = frozenset(x for x in c.dom() if len(fn(chr(x))) != 1)
                if cell_in(c, odd):
                    v = eng().concretize(c.e, limit=200)
                    out.extend(map(ord, fn(chr(v))))
                    continue
                m = c.mapped(lambda x: ord(fn(chr(x))) if len(fn(chr(x))) == 1 else x)
            out.append(m)
        return mk(out)
    return f


lower = _case(str.lower)
upper = _case(str.upper)
casefold = _case(str.casefold)
swapcase = _case(str.swapcase)


def capitalize(s):
    a = cells(s)
    return mk(list(cells(_case(str.title)(mk(a[:1])))) + list(cells(lower(mk(a[1:])))))


class _Pred:
    def __init__(self, f):
        self.f = f

    def __contains__(self, c):
        return self.f(c)


def _allp(name):
    f = getattr(str, name)
    P = _Pred(lambda c: f(chr(c)))

    def g(s):
        from .values import cell_in, sand
        a = cells(s)
        if not a:
            return name == 'isascii'
        return sand(*[cell_in(c, P) for c in a])
    return g


isdigit = _allp('isdigit')
isalpha = _allp('isalpha')
isalnum = _allp('isalnum')
isspace = _allp('isspace')
isdecimal = _allp('isdecimal')
isnumeric = _allp('isnumeric')
isascii = _allp('isascii')
isprintable = _allp('isprintable')


def islower(s):
    from .values import cell_in, sand, sor, snot
    a = cells(s)
    lo = [cell_in(c, _Pred(lambda x: chr(x).islower())) for c in a]
    up = [cell_in(c, _Pred(lambda x: chr(x).isupper())) for c in a]
    return sand(sor(*lo) if lo else False, *[snot(u) for u in up])


def isupper(s):
    from .values import cell_in, sand, sor, snot
    a = cells(s)
    lo = [cell_in(c, _Pred(lambda x: chr(x).islower())) for c in a]
    up = [cell_in(c, _Pred(lambda x: chr(x).isupper())) for c in a]
    return sand(sor(*up) if up else False, *[snot(u) for u in lo])


def removeprefix(s, p):
    return mk(cells(s)[len(p):]) if startswith(s, p) else s


def removesuffix(s, p):
    return mk(cells(s)[:len(s) - len(p)]) if len(p) and endswith(s, p) else s


def zfill(s, w):
    a = cells(s)
    from .values import cell_in
    pad = max(0, int(w) - len(a))
    if a and cell_in(a[0], (43, 45)):
        return mk(a[:1] + (48,) * pad + a[1:])
    return mk((48,) * pad + a)


def ljust(s, w, f=' '):
    a = cells(s)
    return mk(a + cells(f) * max(0, int(w) - len(a)))


def rjust(s, w, f=' '):
    a = cells(s)
    return mk(cells(f) * max(0, int(w) - len(a)) + a)


def encode(s, *a, **k):
    return (s if isinstance(s, str) else s.concrete()).encode(*a, **k)


def translate(s, table):
    out = []
    for c in cells(s):
        if isinstance(c, int):
            out.extend(map(ord, chr(c).translate(table)))
            continue
        m = c.mapped(lambda x: ord(chr(x).translate(table)) if len(chr(x).translate(table)) == 1 else None)
        if m is None:
            v = eng().concretize(c.e, limit=200)
            out.extend(map(ord, chr(v).translate(table)))
        else:
            out.append(m)
    return mk(out)


def fmt_value(v, spec='', conv=None):
    """One {}-field."""
    from .values import SymInt, SymReal, SymBool
    if conv == 'r' or conv == 114:
        if isinstance(v, SymStr):
            return mk(["'"] + list(v.c) + ["'"])
        if isinstance(v, (SymInt, SymReal)):
            return v.to_str()
        return repr(v)
    if isinstance(v, SymStr):
        if spec in ('', 's'):
            return v
        return format(v.concrete(), spec)
    if isinstance(v, SymInt):
        if spec in ('', 'd'):
            return v.to_str()
        if spec and spec[-1] in 'eEfFgG%':
            return fmt_real(SymReal.of(v), spec)
        if spec and spec.isdigit():
            t = v.to_str()
            return zfill(t, int(spec)) if spec[0] == '0' else rjust(t, int(spec))
        return format(int(v), spec)
    if isinstance(v, SymReal):
        if spec == '':
            return v.to_str()
        return fmt_real(v, spec)
    if isinstance(v, SymBool):
        return format(bool(v), spec)
    if isinstance(v, (list, tuple, SymSet, dict)) and spec == '':
        return to_str(v)
    return format(v, spec)


def fmt_real(v, spec):
    from .values import SymReal, SymInt, SymBool
    from fractions import Fraction
    import re as _re
    m = _re.fullmatch(r'(?:\.(\d+))?([gG]?)', spec)
    if m and spec:
        return fmt_g(v, int(m.group(1)) if m.group(1) else 6 if m.group(2) else 12)
    m = _re.fullmatch(r'\.?(\d*)([eEfF])', spec)
    if not m:
        raise Unsupported('float format ' + spec)
    p = int(m.group(1)) if m.group(1) else 6
    neg = bool(v < 0)
    a = -v if neg else v
    if m.group(2) in 'fF':
        n = round_half(a * 10 ** p)
        t = zfill(n.to_str() if isinstance(n, SymInt) else str(int(n)), p + 1)
        t = mk(list(cells(t)[:len(t) - p]) + (['.'] if p else []) + list(cells(t)[len(t) - p:]))
        return ('-' + t) if neg else t
    # exponent form
    if bool(a == 0):
        r = '0.' + '0' * p + m.group(2) + '+00' if p else '0' + m.group(2) + '+00'
        return ('-' + r) if neg else r
    e = 0
    while bool(a >= Fraction(10) ** (e + 1)):
        e += 1
        if e > 40:
            raise Unsupported('exponent')
    while e <= 0 and bool(a < Fraction(10) ** e):
        e -= 1
        if e < -40:
            raise Unsupported('exponent')
    n = round_half(a * (Fraction(10) ** (p - e)))
    if bool(n >= 10 ** (p + 1)):
        e += 1
        n = round_half(a * (Fraction(10) ** (p - e)))
    t = cells(n.to_str() if isinstance(n, SymInt) else str(int(n)))
    r = mk(list(t[:1]) + (['.'] + list(t[1:]) if p else []) + [m.group(2) + ('-' if e < 0 else '+') + str(abs(e)).zfill(2)])
    return ('-' + r) if neg else r


def fmt_g(v, p):
    p = max(p, 1)
    neg = bool(v < 0)
    a = -v if neg else v
    if bool(a == 0):
        return '0'
    t = fmt_real(a, f'.{p - 1}e')
    c = list(cells(t))
    k = max(i for i, x in enumerate(c) if not isinstance(x, str) and x == ord('e') or x == 'e')
    x = int(to_str(mk(c[k + 1:])) if not isinstance(mk(c[k + 1:]), str) else mk(c[k + 1:]))
    d = [y for y in c[:k] if y not in ('.', 46)]
    if -4 <= x < p:
        if x >= 0:
            ip, fp = d[:x + 1], d[x + 1:]
        else:
            ip, fp = ['0'], ['0'] * (-x - 1) + d
        tail = []
    else:
        ip, fp, tail = d[:1], d[1:], c[k:]
    f = mk(fp)
    f = METHODS['rstrip'](f, '0') if isinstance(f, SymStr) else f.rstrip('0')
    r = mk(list(ip) + (['.'] + list(cells(f)) if len(f) else []) + list(tail))
    return ('-' + r) if neg else r


def round_half(x):
    from .values import SymReal, SymInt
    r = round(x)
    return r


def to_str(x):
    """str(x)"""
    from .values import SymInt, SymReal, SymBool
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, (SymInt, SymReal)):
        return x.to_str()
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, list):
        return mk(['['] + _seq(x) + [']'])
    if isinstance(x, tuple):
        return mk(['('] + _seq(x) + ([',)'] if len(x) == 1 else [')']))
    if isinstance(x, SymSet):
        return mk(['{'] + _seq(list(x)) + ['}']) if len(x) else 'set()'
    t = getattr(type(x), '_sym_str', None)
    if t:
        return t(x)
    return str(x)


def _seq(x):
    out = []
    for i, y in enumerate(x):
        if i:
            out.append(', ')
        out.append(fmt_value(y, '', 'r'))
    return out


def str_format(s, *args, **kw):
    """s.format(...) with s concrete."""
    import string
    if isinstance(s, SymStr):
        s = s.concrete()
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = field, ''
        for k, ch in enumerate(field):
            if ch in '.[':
                first, rest = field[:k], field[k:]
                break
        if first == '':
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kw[first]
        if rest:
            if rest[0] == '[':
                k = rest[1:-1]
                v = v[int(k) if k.isdigit() else k]
            else:
                v = getattr(v, rest[1:])
        if spec and '{' in spec:
            spec = str_format(spec, *args, **kw)
        out.append(fmt_value(v, spec or '', conv))
    return mk(out)


def str_mod(fmt, args):
    """fmt % args with some symbolic argument."""
    import re as _re
    if isinstance(fmt, SymStr):
        raise Unsupported('symbolic format string')
    if not isinstance(args, tuple):
        args = (args,)
    out, k, pos = [], 0, 0
    for m in _re.finditer(r'%(\.?\d*)([sdreEfg%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(2) == '%':
            out.append('%')
            continue
        v = args[k]
        k += 1
        c = m.group(2)
        if c == 's':
            out.append(to_str(v))
        elif c == 'r':
            out.append(fmt_value(v, '', 'r'))
        else:
            out.append(fmt_value(v, m.group(1) + c))
    out.append(fmt[pos:])
    if k != len(args):
        raise TypeError('not all arguments converted during string formatting')
    return mk(out)


METHODS = {k: v for k, v in list(globals().items()) if k in (
    'find', 'rfind', 'index', 'rindex', 'count', 'replace', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith',
    'split', 'rsplit', 'partition', 'rpartition', 'join', 'splitlines', 'lower', 'upper', 'casefold', 'swapcase',
    'capitalize', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isdecimal', 'isnumeric', 'isascii', 'isprintable',
    'islower', 'isupper', 'removeprefix', 'removesuffix', 'zfill', 'ljust', 'rjust', 'encode', 'translate')}
METHODS['format'] = str_format


# ------------------------------------------------------------------ sets
class SymSet:
    """Set with insertion order; optionally iterated in an arbitrary (solver-chosen) order."""
    permute = False

    def __init__(self, it=(), frozen=False):
        self.items = []
        for x in it:
            self.add(x)

    def add(self, x):
        if not self._has(x):
            self.items.append(x)

    def _has(self, x):
        for y in self.items:
            if y is x:
                return True
            if type(y) is str and type(x) is str:
                if y == x:
                    return True
                continue
            if is_str(x) != is_str(y):
                continue
            if bool(x == y):
                return True
        return False

    def __contains__(self, x):
        return self._has(x)

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __iter__(self):
        items = list(self.items)
        if SymSet.permute and len(items) > 1:
            while items:
                yield items.pop(eng().choose(len(items), 'set_order'))
        else:
            yield from items

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return False
        o = o if isinstance(o, SymSet) else SymSet(o)
        return len(self) == len(o) and all(x in o for x in self.items)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def _mk(self, it):
        return SymSet(it)

    def union(self, *os):
        r = SymSet(self.items)
        for o in os:
            for x in o:
                r.add(x)
        return r

    def __or__(self, o): return self.union(o)
    __ror__ = __or__
    def intersection(self, o): return SymSet(x for x in self.items if x in o)
    def __and__(self, o): return self.intersection(o)
    def difference(self, o): return SymSet(x for x in self.items if x not in o)
    def __sub__(self, o): return self.difference(o)
    def update(self, *os):
        for o in os:
            for x in o:
                self.add(x)
    def issubset(self, o): return all(x in o for x in self.items)
    def __le__(self, o): return self.issubset(o)
    def issuperset(self, o): return all(x in self for x in o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return len(self) < len(o) and self.issubset(o)
    def __gt__(self, o): return len(self) > len(o) and self.issuperset(o)
    def isdisjoint(self, o): return not self.intersection(o)
    def symmetric_difference(self, o): return SymSet([x for x in self.items if x not in o] + [x for x in o if x not in self])
    __xor__ = symmetric_difference
    def copy(self): return SymSet(self.items)
    def discard(self, x):
        for i, y in enumerate(self.items):
            if is_str(x) == is_str(y) and bool(x == y):
                del self.items[i]
                return
    def remove(self, x):
        n = len(self.items)
        self.discard(x)
        if len(self.items) == n:
            raise KeyError(x)
    def pop(self):
        x = next(iter(self))
        self.items = [y for y in self.items if y is not x]
        return x
    def clear(self): self.items = []

    def __getattr__(self, n):
        if n.startswith('__') or not hasattr(set, n):
            raise AttributeError(f"'set' object has no attribute '{n}'")
        raise Unsupported('set.' + n)

    def __repr__(self):
        return 'SymSet(%r)' % (self.items,)
