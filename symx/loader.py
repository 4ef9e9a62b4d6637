"""Loads the repository's current source for symbolic execution: every run reads /repo, rewrites the syntax tree so that
operations which the Python runtime would perform natively on str/int/float/set are dispatched to the symbolic values,
and executes the modules afresh for every path (so that module state never leaks between paths)."""
import ast
import builtins as _b
import math as _math
import os
import sys
import types
from fractions import Fraction
from . import sre
from .core import Cur, Control, Unsupported, Incomplete
from .sstr import SymStr, SymSet, mk, cells, is_str, METHODS, to_str, fmt_value, str_mod, contains, str_format
from .values import SymBool, SymInt, SymReal, sand, sor, snot, cell_in

REPO = os.environ.get('VERIF_REPO', '/repo')
PKGS = ('math_evaluation', 'latex2sympy', 'demo', 'example_tora_eval')
SCRIPTS = ('example_tora_eval.py',)     # scripts that act when imported: only their imports and definitions are taken
SKIP = ('latex2sympy.gen',)

_code = {}          # path -> compiled code of the rewritten module
_real = {}          # cache of natively imported modules


# ------------------------------------------------------------------ AST rewriting
class RW(ast.NodeTransformer):
    def n(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def call(self, name, *args):
        return ast.Call(func=self.n(name), args=list(args), keywords=[])

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            return ast.copy_location(ast.Call(func=self.n('zz_mc'), args=[f.value, ast.Constant(f.attr)] + node.args,
                                              keywords=node.keywords), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                r = self.call('zz_in', node.left, node.comparators[0])
                if isinstance(op, ast.NotIn):
                    r = self.call('zz_not', r)
                return ast.copy_location(r, node)
            return node
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            raise Unsupported('chained in')
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(self.call('zz_not', node.operand), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.call('zz_mod', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                conv = ast.Constant(None if v.conversion == -1 else chr(v.conversion))
                parts.append(self.call('zz_fv', v.value, spec, conv))
        return ast.copy_location(self.call('zz_fs', *parts), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call('zz_set', ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call('zz_set', ast.ListComp(elt=node.elt, generators=node.generators)), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self.call('zz_get', node.value, self.sl(node.slice)), node)
        return node

    def sl(self, s):
        if isinstance(s, ast.Slice):
            N = ast.Constant(None)
            return self.call('zz_slice', s.lower or N, s.upper or N, s.step or N)
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self.sl(x) for x in s.elts], ctx=ast.Load())
        return s

    def visit_AnnAssign(self, node):
        node.value = self.visit(node.value) if node.value else None
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        self.generic_visit(node)
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(type=self.call('zz_ctl'), name=None,
                                                      body=[ast.Expr(self.call('zz_rr'))]))
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        return node


# ------------------------------------------------------------------ runtime helpers
_HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
_BUG = (AttributeError, NameError, TypeError, AssertionError, KeyError, RecursionError)


def _engine_error(e):
    """an exception that comes from the engine itself (not raised on purpose to imitate Python) must not be handled by
    the code under test"""
    if not isinstance(e, _BUG):
        return False
    if isinstance(e, RecursionError):
        return True
    tb = e.__traceback__
    if tb is None:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    fn = tb.tb_frame.f_code.co_filename
    if not fn.startswith(_HERE) or fn.endswith('harness.py'):
        return False
    import linecache
    line = linecache.getline(fn, tb.tb_lineno).strip()
    if 'raise ' in line or '# py' in line:
        return False
    return True


def zctl():
    e = sys.exc_info()[1]
    return BaseException if isinstance(e, Control) or _engine_error(e) else Control


def zrr():
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e
    if os.environ.get('SYMX_DEBUG'):
        import traceback
        traceback.print_exc()
    raise Unsupported('engine: ' + repr(e)[:100])


def zmc(obj, name, *a, **k):
    t = type(obj)
    if obj is None:
        raise AttributeError(f"'NoneType' object has no attribute '{name}'")
    if t is str:
        if name in ('join',):
            if a and not isinstance(a[0], (str, SymStr)):
                lst = list(a[0])
                if any(isinstance(x, SymStr) for x in lst):
                    return METHODS['join'](obj, lst)
                return obj.join(lst)
            if a and isinstance(a[0], SymStr):
                return METHODS['join'](obj, list(a[0]))
        if name == 'format':
            if any(_symdeep(x) for x in a) or any(_symdeep(x) for x in k.values()):
                return str_format(obj, *a, **k)
            return obj.format(*a, **k)
        if any(_symany(x) for x in a) or any(_symany(x) for x in k.values()):
            m = METHODS.get(name)
            if m is None:
                raise Unsupported('str.' + name)
            return m(obj, *a, **k)
        return getattr(obj, name)(*a, **k)
    if t is SymStr:
        return getattr(obj, name)(*a, **k)
    if t is dict and a and isinstance(a[0], SymStr) and name in ('get', 'pop', 'setdefault'):
        kk = _dkey(obj, a[0])
        if name == 'get':
            return obj.get(kk, *a[1:]) if kk is not None else (a[1] if len(a) > 1 else None)
        return getattr(obj, name)(kk if kk is not None else a[0].concrete(), *a[1:])
    if t is list and name in ('index', 'count') and a:
        if name == 'count':
            return sum(1 for x in obj if bool(x == a[0]))
        for i, x in enumerate(obj):
            if bool(x == a[0]):
                return i
        raise ValueError('not in list')
    if t is list and name == 'sort' and any(_symany(x) for x in obj):
        obj[:] = zsorted(obj, **k)
        return None
    if t in (set, frozenset) and a and any(_symany(x) for x in a):
        r = getattr(SymSet(obj), name)(*a, **k)
        if name in ('add', 'update', 'discard', 'remove'):
            raise Unsupported('native set mutated with a symbolic string')
        return r
    if t in (set, frozenset, dict, list, tuple, int, float, bool, bytes) and not hasattr(obj, name):
        raise AttributeError(f"'{t.__name__}' object has no attribute '{name}'")
    return getattr(obj, name)(*a, **k)


SYM = (SymStr, SymInt, SymReal, SymBool, SymSet)


def _symany(x):
    if isinstance(x, SYM):
        return True
    if isinstance(x, tuple):
        return any(isinstance(y, SYM) for y in x)
    return False


def _symdeep(x):
    if isinstance(x, SYM):
        return True
    if isinstance(x, (list, tuple, set)):
        return any(_symdeep(y) for y in x)
    if isinstance(x, dict):
        return any(_symdeep(y) for y in x.values())
    return hasattr(type(x), '_sym_str')


def _dkey(d, s):
    """the key of d equal to s (forking), or None"""
    for k in d:
        if isinstance(k, (str, SymStr)) and bool(s == k):
            return k
    return None


def zin(a, b):
    if isinstance(b, (str, SymStr)):
        if not is_str(a):
            raise TypeError("'in <string>' requires string as left operand, not " + type(a).__name__)
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        return contains(b, a)
    if isinstance(b, SymSet):
        return a in b
    if isinstance(b, dict):
        if isinstance(a, SymStr):
            return _dkey(b, a) is not None
        return a in b
    if isinstance(b, (list, tuple, set, frozenset)) and not isinstance(b, types.SimpleNamespace):
        if _symany(a) or any(_symany(y) for y in b):
            rs = []
            for y in b:
                if y is a:
                    return True
                if is_str(a) != is_str(y):
                    continue
                r = (a == y)
                if r is True:
                    return True
                if r is not False:
                    rs.append(r)
            return sor(*rs) if rs else False
    return a in b


def znot(x):
    if isinstance(x, SymBool):
        return snot(x)
    return not x


def zmod(a, b):
    if isinstance(a, (str, SymStr)):
        if isinstance(a, SymStr) or _symdeep(b):
            return str_mod(a, b)
    return a % b


def zfv(v, spec, conv):
    if _symdeep(v) or isinstance(spec, SymStr):
        return fmt_value(v, spec if isinstance(spec, str) else spec.concrete(), conv)
    if conv == 'r':
        v = repr(v)
    elif conv == 's':
        v = str(v)
    elif conv == 'a':
        v = ascii(v)
    return format(v, spec)


def zfs(*parts):
    return mk(parts)


def zset(items):
    if any(_symdeep(x) for x in items):
        return SymSet(items)
    if items and all(isinstance(x, str) for x in items) and SymSet.permute:
        return SymSet(items)
    return set(items)


def zget(o, k):
    if isinstance(k, SymInt):
        if isinstance(o, (str, SymStr, list, tuple)):
            k = int(k)
    if isinstance(k, slice):
        k = slice(_ci(k.start), _ci(k.stop), _ci(k.step))
    if type(o) is dict and isinstance(k, SymStr):
        kk = _dkey(o, k)
        if kk is None:
            raise KeyError(k)
        return o[kk]
    if isinstance(o, type) and o is VStr:
        return o
    if type(o) in (set, frozenset, SymSet, int, float, bool):
        raise TypeError(f"'{'set' if type(o) is SymSet else type(o).__name__}' object is not subscriptable")
    return o[k]


def _ci(x):
    return int(x) if isinstance(x, SymInt) else x


def zslice(a, b, c):
    return slice(a, b, c)


# ------------------------------------------------------------------ builtins
_FLOAT = r'\s*[+-]?(?:(?:\d+(?:_\d+)*\.?(?:\d+(?:_\d+)*)?|\.\d+(?:_\d+)*)(?:[eE][+-]?\d+(?:_\d+)*)?|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN])\s*'
_FLOATG = r'\s*([+-]?)(?:(\d+(?:_\d+)*)\.?(\d+(?:_\d+)*)?(?:[eE]([+-]?\d+(?:_\d+)*))?|\.(\d+(?:_\d+)*)(?:[eE]([+-]?\d+(?:_\d+)*))?|([iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN]))\s*'


def digits_val(cs):
    """value of ASCII (or decimal unicode) digit cells, underscores skipped -> (int/SymInt, count)"""
    import z3
    tot, n = 0, 0
    sym = []
    out = []
    for c in cs:
        if isinstance(c, int):
            if c == 95:
                continue
            out.append(int(chr(c)))
        else:
            if cell_in(c, (95,)):
                continue
            if not cell_in(c, frozenset(range(48, 58))):
                v = Cur.eng.concretize(c.e, limit=200)
                out.append(int(chr(v)))
                continue
            out.append(c)
    k = len(out)
    conc = 0
    terms = []
    for i, d in enumerate(out):
        w = 10 ** (k - 1 - i)
        if isinstance(d, int):
            conc += d * w
        else:
            terms.append((d.e - 48) * w)
    if not terms:
        return conc, k
    return SymInt.wrap(z3.Sum(*terms) + conc), k


def float_of(s):
    if isinstance(s, str):
        return float(s)
    m = sre.compile(_FLOATG).fullmatch(s)
    if not m:
        raise ValueError('could not convert string to float')
    sign, ip, fp, ex, fp2, ex2, word = m.groups()
    neg = bool(sign) and bool(sign == '-')
    if word is not None:
        w = word if isinstance(word, str) else word.concrete()
        return -float(w) if neg else float(w)
    if ip is None:
        ip, fp, ex = '', fp2, ex2
    a, _ = digits_val(cells(ip)) if ip else (0, 0)
    k = 0
    if fp:
        f, k = digits_val(cells(fp))
        a = a * 10 ** k + f
    e = 0
    if ex:
        e = int(int_of(ex))
        if abs(e) > 60:
            raise Unsupported('large exponent')
    r = SymReal.of(a)
    k -= e
    if k > 0:
        r = r / (10 ** k) if isinstance(r.n, int) else SymReal(r.n, r.d * 10 ** k)
    elif k < 0:
        r = r * (10 ** -k)
    if neg:
        r = -r
    n = r.norm()
    if isinstance(n, Fraction):
        return float(n)
    return n


def int_of(s, base=10):
    if isinstance(s, str):
        return int(s, base)
    base = int(base)
    if base == 10:
        m = sre.compile(r'\s*([+-]?)(\d+(?:_\d+)*)\s*').fullmatch(s)
        if not m:
            raise ValueError('invalid literal for int() with base 10')
        v, _ = digits_val(cells(m.group(2)))
        return -v if m.group(1) and bool(m.group(1) == '-') else v
    if not 2 <= base <= 36:
        raise ValueError('int() base must be >= 2 and <= 36, or 0')
    m = sre.compile(r'\s*([+-]?)([0-9A-Za-z]+)\s*').fullmatch(s)
    if not m:
        raise ValueError('invalid literal for int()')
    v = 0
    for c in cells(m.group(2)):
        if isinstance(c, int):
            d = int(chr(c), 36)
            if d >= base:
                raise ValueError('invalid literal for int()')
        else:
            ok = frozenset(x for x in c.dom() if chr(x).isalnum() and x < 128 and int(chr(x), 36) < base)
            if not cell_in(c, ok):
                raise ValueError('invalid literal for int()')
            if cell_in(c, frozenset(range(48, 58))):
                d = SymInt.wrap(c.e - 48)
            else:
                d = int(chr(Cur.eng.concretize(c.e)), 36)
        v = v * base + d
    return -v if m.group(1) and bool(m.group(1) == '-') else v


class _MV(type):
    def __instancecheck__(cls, x):
        return cls._isi(x)

    def __subclasscheck__(cls, c):
        return c is cls or (isinstance(c, type) and type.__subclasscheck__(cls._real, c) if not isinstance(c, _MV) else issubclass(c._real, cls._real))

    def __getattr__(cls, n):
        if n.startswith('_'):
            raise AttributeError(n)
        f = getattr(cls._real, n)
        if cls is VStr:
            return lambda obj, *a, **k: zmc(obj, n, *a, **k)
        return f

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._real)

    def __or__(cls, o):
        return (cls, o)

    def __getitem__(cls, k):
        return cls

    def __repr__(cls):
        return repr(cls._real)


class VStr(metaclass=_MV):
    _real = str
    _isi = staticmethod(lambda x: isinstance(x, (str, SymStr)))

    @staticmethod
    def _make(x='', *a):
        if a:
            return str(x, *a)
        return to_str(x)


class VInt(metaclass=_MV):
    _real = int
    _isi = staticmethod(lambda x: isinstance(x, (int, SymInt)) or isinstance(x, SymBool))

    @staticmethod
    def _make(x=0, base=None):
        if isinstance(x, (str, SymStr)):
            return int_of(x, 10 if base is None else base)
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return x.__trunc__()
        if isinstance(x, SymBool):
            return x._i()
        m = getattr(type(x), '_sym_int', None)
        if m:
            return m(x)
        return int(x)


class VFloat(metaclass=_MV):
    _real = float
    _isi = staticmethod(lambda x: isinstance(x, (float, SymReal)))

    @staticmethod
    def _make(x=0.0):
        if isinstance(x, (str, SymStr)):
            r = float_of(x)
            if isinstance(r, SymReal) and sum(1 for c in cells(x) if not isinstance(c, int) or 48 <= c <= 57) > 15:
                raise Unsupported('rounding of a float of more than 15 digits')
            return r
        if isinstance(x, SymInt):
            return SymReal.of(x)
        if isinstance(x, SymReal):
            return x
        if isinstance(x, Fraction):
            return float(x)
        m = getattr(type(x), '_sym_float', None)
        if m:
            return m(x)
        return float(x)


class VSet(metaclass=_MV):
    _real = set
    _isi = staticmethod(lambda x: isinstance(x, (set, SymSet)))

    @staticmethod
    def _make(it=()):
        return zset(list(it))


class VFrozenset(metaclass=_MV):
    _real = frozenset
    _isi = staticmethod(lambda x: isinstance(x, (frozenset, SymSet)))

    @staticmethod
    def _make(it=()):
        it = list(it)
        return SymSet(it) if any(_symdeep(x) for x in it) else frozenset(it)


class VBool(metaclass=_MV):
    _real = bool
    _isi = staticmethod(lambda x: isinstance(x, (bool, SymBool)))

    @staticmethod
    def _make(x=False):
        if isinstance(x, SymBool):
            return x
        return bool(x)


class VType(metaclass=_MV):
    _real = type
    _isi = staticmethod(lambda x: isinstance(x, type))

    @staticmethod
    def _make(x, *a):
        if a:
            return type(x, *a)
        if isinstance(x, (str, SymStr)):
            return VStr
        if isinstance(x, SymInt):
            return VInt
        if isinstance(x, SymReal):
            return VFloat
        if isinstance(x, SymBool):
            return VBool
        if isinstance(x, SymSet):
            return VSet
        t = type(x)
        return {int: VInt, float: VFloat, bool: VBool, set: VSet, frozenset: VFrozenset}.get(t, t)


def visinstance(x, t):
    if isinstance(t, tuple):
        return any(visinstance(x, u) for u in t)
    h = getattr(type(x), '_sym_isa', None)
    if h is not None:
        return h(x, t)
    if isinstance(t, _MV):
        return t._isi(x)
    if isinstance(t, types.UnionType):
        return any(visinstance(x, u) for u in t.__args__)
    if t is str:
        return isinstance(x, (str, SymStr))
    if t is int:
        return isinstance(x, (int, SymInt))
    if t is float:
        return isinstance(x, (float, SymReal))
    if t is set:
        return isinstance(x, (set, SymSet))
    if t is object:
        return True
    hook = getattr(t, '_sym_instancecheck', None)
    if hook is not None:
        return hook(x)
    try:
        return isinstance(x, t)
    except TypeError:
        if isinstance(t, type) is False:
            import typing
            org = typing.get_origin(t)
            if org:
                return visinstance(x, org)
        raise


def vlen(x):
    return len(x)


def vabs(x):
    return abs(x)


def vround(x, n=None):
    if isinstance(x, (SymReal, SymInt)):
        return x.__round__(n)
    m = getattr(type(x), '_sym_round', None)
    if m:
        return m(x, n)
    return round(x, n) if n is not None else round(x)


def _minmax(lt):
    def f(*a, key=None, default=None):
        it = list(a[0]) if len(a) == 1 else list(a)
        if not it:
            if default is not None:
                return default
            raise ValueError('empty')
        best = it[0]
        for x in it[1:]:
            p, q = (key(x), key(best)) if key else (x, best)
            if bool(p < q) if lt else bool(p > q):
                best = x
        return best
    return f


def zsorted(it, key=None, reverse=False):
    it = list(it)
    if not any(_symdeep(x) for x in it) and key is None:
        return sorted(it, reverse=reverse)
    out = []
    for x in it:
        kx = key(x) if key else x
        i = len(out)
        while i > 0:
            ky = out[i - 1][0]
            if bool(kx < ky) if not reverse else bool(ky < kx):
                i -= 1
            else:
                break
        out.insert(i, (kx, x))
    return [x for _, x in out]


def vord(x):
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        return SymInt.wrap(x.c[0].e)
    return ord(x)


def vchr(x):
    if isinstance(x, SymInt):
        return chr(int(x))
    return chr(x)


def vrepr(x):
    return fmt_value(x, '', 'r') if _symdeep(x) else repr(x)


def vformat(x, spec=''):
    return fmt_value(x, spec) if _symdeep(x) else format(x, spec)


def vrange(*a):
    return range(*[int(x) if isinstance(x, SymInt) else x for x in a])


def vhash(x):
    return hash(x)


def vprint(*a, **k):
    return None


def vany(it):
    for x in it:
        if x:
            return True
    return False


def vall(it):
    for x in it:
        if not x:
            return False
    return True


def vgetattr(o, n, *d):
    if isinstance(n, SymStr):
        n = n.concrete()
    return getattr(o, n, *d)


class Rec:
    """records printed output if a harness asks for it"""


def mk_builtins(imp):
    d = dict(_b.__dict__)
    d.update(zz_mc=zmc, zz_in=zin, zz_not=znot, zz_mod=zmod, zz_fv=zfv, zz_fs=zfs, zz_set=zset, zz_get=zget,
             zz_slice=zslice, zz_ctl=zctl, zz_rr=zrr, __import__=imp,
             str=VStr, int=VInt, float=VFloat, set=VSet, frozenset=VFrozenset, bool=VBool, type=VType,
             isinstance=visinstance, len=vlen, abs=vabs, round=vround, min=_minmax(True), max=_minmax(False),
             sorted=zsorted, ord=vord, chr=vchr, repr=vrepr, format=vformat, range=vrange, print=vprint, any=vany,
             all=vall, getattr=vgetattr)
    return d


# ------------------------------------------------------------------ modules
def repo_file(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(p):
        f = os.path.join(p, '__init__.py')
        return (f if os.path.exists(f) else None), True
    if os.path.exists(p + '.py'):
        return p + '.py', False
    return None, False


def definitions(t):
    """imports, functions, classes and constants of a script"""
    def const(v):
        return all(isinstance(n, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.Load, ast.expr_context, ast.UnaryOp, ast.unaryop, ast.BinOp, ast.operator)) or
                   isinstance(n, (ast.Call, ast.Attribute, ast.Name)) and ast.unparse(n).startswith('re') for n in ast.walk(v))
    keep = [n for n in t.body if isinstance(n, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)) or isinstance(n, ast.Assign) and const(n.value)]
    return ast.Module(body=keep, type_ignores=[])


def compiled(path):
    c = _code.get(path)
    if c is None:
        src = open(path, encoding='utf-8').read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            t = ast.parse(src, path)
            if os.path.basename(path) in SCRIPTS:
                t = definitions(t)
            t = RW().visit(t)
            ast.fix_missing_locations(t)
            c = compile(t, path, 'exec')
        _code[path] = c
    return c


class FakeMath(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_math, n)


def _mk_math():
    m = FakeMath('math')

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        d = abs(a - b)
        ma = max_(abs(a), abs(b))
        return bool(a == b) or bool(d <= ma * rel_tol) or bool(d <= abs_tol)
    max_ = _minmax(False)

    def wrap(name):
        f = getattr(_math, name)

        def g(*a):
            if any(isinstance(x, (SymInt, SymReal)) for x in a):
                if name == 'floor':
                    return a[0].__floor__()
                if name == 'ceil':
                    return a[0].__ceil__()
                if name == 'trunc':
                    return a[0].__trunc__()
                if name == 'fabs':
                    return abs(a[0])
                if name in ('isnan', 'isinf'):
                    return False
                if name == 'isfinite':
                    return True
                raise Unsupported('math.' + name)
            return f(*a)
        return g
    m.isclose = isclose
    for nm in ('floor', 'ceil', 'trunc', 'fabs', 'isnan', 'isinf', 'isfinite', 'sqrt', 'gcd', 'pow', 'log', 'log10'):
        setattr(m, nm, wrap(nm))
    return m


MATH = _mk_math()


class World:
    """The modules of one path. stubs: {'module.attr': value} applied after the module body ran (and seen by importers)."""

    def __init__(self, models=None, stubs=None, native=()):
        self.mods = {}
        self.models = models or {}      # top-level module name -> replacement
        self.stubs = stubs or {}
        self.native = native
        self.bi = mk_builtins(self.imp)

    def get(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path, pkg = repo_file(name)
        parent, _, leaf = name.rpartition('.')
        if parent:
            self.get(parent)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.bi
        m.__package__ = name if pkg else parent
        m.__file__ = path or ''
        if pkg:
            m.__path__ = [os.path.join(REPO, *name.split('.'))]
        self.mods[name] = m
        if path:
            exec(compiled(path), m.__dict__)
        elif not pkg:
            del self.mods[name]
            raise ModuleNotFoundError(f'No module named {name!r}', name=name)
        for k, v in self.stubs.items():
            mod, _, at = k.rpartition('.')
            if mod == name:
                if callable(getattr(v, '_wrap', None)):
                    v = v._wrap(self, m.__dict__.get(at))
                m.__dict__[at] = v
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m

    def is_repo(self, name):
        return name.split('.')[0] in PKGS and not any(name == s or name.startswith(s + '.') for s in SKIP)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if self.is_repo(name):
            m = self.get(name)
            if not fromlist:
                return self.get(top)
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        self.get(name + '.' + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if name == 'gen' or name.startswith('gen.'):
            raise ModuleNotFoundError('No module named ' + name)
        if name in self.models:
            return self.models[name]
        if top in self.models:
            mod = self.models[top]
            if hasattr(mod, '_sub'):
                return mod if not fromlist else mod._sub(name)
        if name == 're':
            return sre
        if name == 'math':
            return MATH
        return _b.__import__(name, globals, locals, fromlist, 0)


sre_mod = sre
