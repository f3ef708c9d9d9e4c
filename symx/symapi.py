"""Symbolic side of the harness interface."""
import os
from . import ir, rewrite, runtime, values
from .ir import IS, b_and, b_or, b_not, b_eq, b_in, ev, N
from .engine import Engine, PathEnd
from .values import SymStr, SymInt, SymBool, SymChoice, SymDict, SymSet, mkstr, wb, wi, ub, ui, cs, isstr, Sym
from .api import jsonable


def to_is(dom):
    if dom is None:
        return ir.IS_ALL
    if isinstance(dom, IS):
        return dom
    if isinstance(dom, str):
        return IS.chars(dom)
    return IS.norm([(a, b) if not isinstance(a, str) else (ord(a), ord(b)) for a, b in dom])


class Symbolic(object):
    symbolic = True

    def __init__(self, eng):
        self.e = eng

    def _reg(self, name, kind, payload):
        if name in self.e.input_names:
            raise AssertionError("duplicate input " + name)
        self.e.input_names.add(name)
        self.e.inputs.append((name, kind, payload))

    def char(self, name, dom=None, pick=None):
        d = to_is(dom)
        v = self.e.newvar(name, d, pick=ord(pick) if pick else (97 if 97 in d else None))
        self._reg(name, 'int', v)
        return mkstr((v,))

    def str(self, name, n, dom=None, pick=None):
        return mkstr(sum((cs(self.char("%s.%d" % (name, i), dom, pick)) for i in range(n)), ()))

    def int(self, name, lo=None, hi=None, pick=None):
        d = IS([(lo if lo is not None else -ir.INF, hi if hi is not None else ir.INF)])
        v = self.e.newvar(name, d, pick=pick)
        self._reg(name, 'int', v)
        return wi(v)

    def real(self, name):
        v = self.e.newvar(name, None, sort='r')
        self._reg(name, 'real', v)
        return wi(v)

    def bool(self, name):
        v = self.e.newvar(name, IS([(0, 1)]))
        self._reg(name, 'int', v)
        return wb(b_eq(v, 1))

    def choice(self, name, options):
        options = list(options)
        i = self.e.choose(len(options))
        self._reg(name, 'const', i)
        return options[i]

    def assume(self, c):
        self.e.assume(ub(c))

    def check(self, c, label):
        if isinstance(c, (SymBool, SymInt)):
            c = ub(c)
        else:
            c = bool(c)
        self.e.check(c, label)

    def iff(self, a, b):
        return wb(ir.b_iff(ub(a), ub(b)))

    def eq(self, a, b):
        return wb(deep_eq(a, b))

    def and_(self, *a):
        return wb(b_and(*[ub(x) for x in a]))

    def or_(self, *a):
        return wb(b_or(*[ub(x) for x in a]))

    def not_(self, a):
        return values.not_(a)

    def isin(self, ch, chars):
        s = to_is(chars)
        if isinstance(ch, str):
            return ord(ch) in s
        if isinstance(ch, SymStr):
            return wb(b_in(ch.c[0], s))
        if isinstance(ch, SymInt):
            return wb(b_in(ch.e, s))
        return ch in s

    def cover(self, label):
        self.e.covers.add(label)

    def observe(self, name, v):
        self.e.observed.append((name, snapshot(v)))

    def is_sym(self, v):
        return values.has_sym(v)

    # files
    def dir(self):
        return '/vfs'

    def file(self, name, text):
        p = self.path(name)
        self.e.files[p] = text
        return p

    def jsonfile(self, name, obj):
        p = self.path(name)
        self.e.files[p] = JsonData(obj)
        return p

    def path(self, name):
        p = '/vfs/' + name
        runtime.adddirs(os.path.dirname(p))
        return p

    def listfiles(self):
        """all files there are"""
        return sorted(self.e.files)

    def script(self, name, argv, stubs=None):
        """run a script of the repository with these arguments and other modules in the place of some that it imports;
        gives its exit status, what it printed and its variables"""
        return rewrite.run_script(name, argv, stubs or {})

    def encoded(self, text):
        """the UTF-8 bytes of a text"""
        from . import runtime
        return runtime.vfs().Encoded(text)

    def readfile(self, path):
        return self.e.files[path]


class JsonData(object):
    def __init__(self, obj):
        self.obj = obj


def deep_eq(a, b):
    if isstr(a) and isstr(b) and not isinstance(a, SymChoice) and not isinstance(b, SymChoice):
        return values.s_eq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return b_and(*[deep_eq(x, y) for x, y in zip(a, b)])
    return ub(a == b)


def snapshot(v, depth=8):
    """copy of the container structure, leaves kept symbolic"""
    if depth < 0:
        return '...'
    if isinstance(v, (Sym, str, int, float, type(None))):
        return v
    if isinstance(v, dict):
        return {'dict': [[snapshot(k, depth - 1), snapshot(x, depth - 1)] for k, x in v.items()]}
    if isinstance(v, (set, frozenset)):
        return {'set': [snapshot(x, depth - 1) for x in v]}
    if isinstance(v, (list, tuple)):
        return [snapshot(x, depth - 1) for x in v]
    return '<%s>' % values_typename(v)


def values_typename(v):
    from .runtime import pytype
    return pytype(v).__name__


def realise(v, m):
    """evaluate a snapshot under a model"""
    if isinstance(v, SymStr):
        return "".join(chr(ev(c, m)) for c in v.c)
    if isinstance(v, SymInt):
        return jsonable(ev(v.e, m))
    if isinstance(v, SymBool):
        return bool(ev(v.b, m))
    if isinstance(v, SymChoice):
        x = ev(v.e, m)
        for val, s in v.tab:
            if x in s:
                return jsonable(val)
        return '?'
    if isinstance(v, list):
        return [realise(x, m) for x in v]
    if isinstance(v, dict):
        if 'dict' in v:
            return {'dict': sorted(([realise(k, m), realise(x, m)] for k, x in v['dict']), key=repr)}
        return {'set': sorted((realise(x, m) for x in v['set']), key=repr)}
    return jsonable(v)
