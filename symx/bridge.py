"""ANTLR bridge: the repository's generated lexer/parser run unmodified on a representative of the symbolic text (one
character per class of characters the lexer cannot tell apart, computed from the lexer's own automaton); token texts are
slices of the symbolic text."""
import types
import antlr4
from antlr4 import InputStream as RealInputStream
from antlr4.RuleContext import RuleContext
from antlr4.tree.Tree import TerminalNodeImpl
from .core import Cur
from .sstr import SymStr, mk, cells
from .values import cell_in

_cls = {}


def lexer_classes(lexer_cls, quote_possible):
    """partition function: code point -> class id, from the lexer ATN's transition labels."""
    key = (lexer_cls, quote_possible)
    if key in _cls:
        return _cls[key]
    atn = lexer_cls.atn
    labels = []
    seen = set()
    todo = [s for s in atn.ruleToStartState] + list(atn.modeToStartState)
    while todo:
        s = todo.pop()
        if s.stateNumber in seen:
            continue
        seen.add(s.stateNumber)
        for t in s.transitions:
            lab = t.label
            stop = False
            if lab is not None:
                rs = [(r.start, r.stop) for r in (lab.intervals or [])]
                if not quote_possible and any(a <= 34 < b and b - a == 1 for a, b in rs):
                    stop = True
                if not stop:
                    labels.append(rs)
            if not stop:
                todo.append(t.target)
                if hasattr(t, 'followState') and t.followState is not None:
                    todo.append(t.followState)
    uniq = sorted({tuple(l) for l in labels})
    cache = {}

    def f(c):
        r = cache.get(c)
        if r is None:
            r = cache[c] = tuple(i for i, l in enumerate(uniq) if any(a <= c < b for a, b in l))
        return r
    _cls[key] = f
    return f


def representative(s, PSLexer=None):
    """fork until each cell's domain lies within one lexer class; return the representative string."""
    if PSLexer is None:
        from latex2sympy.gen.PSLexer import PSLexer
    cs = s.c
    q = any((c == 34) if isinstance(c, int) else 34 in c.dom() for c in cs)
    f = lexer_classes(PSLexer, q)
    out = []
    for c in cs:
        if isinstance(c, int):
            out.append(c)
            continue
        while True:
            dom = c.dom()
            groups = {}
            for x in dom:
                groups.setdefault(f(x), []).append(x)
            if len(groups) == 1:
                break
            # largest class first
            g = max(groups.values(), key=len)
            cell_in(c, frozenset(g)) and True if False else bool(cell_in(c, frozenset(g)))
        g = sorted(dom)
        out.append(49 if 49 in dom else g[0])
    return ''.join(map(chr, out))


class SymInputStream(RealInputStream):
    def __init__(self, data, lexer=None):
        self._sym = data
        super().__init__(representative(data, lexer))

    def getText(self, start, stop):
        if stop >= self._size:
            stop = self._size - 1
        return mk(self._sym.c[start:stop + 1])


def InputStream(data, lexer=None):
    if isinstance(data, SymStr):
        return SymInputStream(data, lexer)
    return RealInputStream(data)


def _ctx_text(self):
    return mk([c.getText() for c in self.getChildren()]) if self.getChildCount() else ''


class _Buf:
    def __init__(self):
        self.xs = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, x):
        self.xs.append(x)

    def getvalue(self):
        return ''.join(self.xs) if all(type(x) is str for x in self.xs) else mk([c for x in self.xs for c in cells(x)])


def patch():
    RuleContext.getText = _ctx_text
    import antlr4.BufferedTokenStream as bts
    bts.StringIO = _Buf


class AntlrMod(types.ModuleType):
    def __getattr__(self, n):
        return getattr(antlr4, n)

    def _sub(self, name):
        import importlib
        return importlib.import_module(name)


def antlr_model():
    patch()
    m = AntlrMod('antlr4')
    m.InputStream = InputStream
    return m


_sp = []


def sympy_parse_latex(s):
    """sympy's own LaTeX parser (second opinion of the code under test): its source is executed like the repository's."""
    import importlib, importlib.util, builtins
    from . import loader, zsympy
    if not _sp:
        spec = importlib.util.find_spec('sympy.parsing.latex._parse_latex_antlr')
        lexer = importlib.import_module('sympy.parsing.latex._antlr.latexlexer').LaTeXLexer
        fake = AntlrMod('antlr4')
        fake.InputStream = lambda d: InputStream(d, lexer)

        def import_module(name, **k):
            if name == 'antlr4':
                return fake
            return importlib.import_module(name)

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                return importlib.import_module('sympy.parsing.latex.' + name)
            if name == 'sympy':
                return zsympy.zmodule('sympy')
            if name == 'sympy.external':
                m = types.ModuleType(name)
                m.import_module = import_module
                return m
            return builtins.__import__(name, globals, locals, fromlist, 0)
        m = types.ModuleType('sympy.parsing.latex._parse_latex_antlr')
        m.__dict__['__builtins__'] = loader.mk_builtins(imp)
        exec(loader.compiled(spec.origin), m.__dict__)
        _sp.append(m)
    return _sp[0].parse_latex(s)
