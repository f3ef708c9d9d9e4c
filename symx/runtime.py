"""Runtime of instrumented code: every call, membership test, display and format goes through here."""
import builtins
import codecs
import io
import csv
import json
import os
import sys
import collections
import copy
import functools
import itertools
import operator
import re
import types
import unicodedata
from fractions import Fraction
from . import ir, tables, sre, strfmt, values
from .ir import IS, N, b_in, b_and, b_or, b_not, b_eq, isn
from .engine import Engine, Unsupported, Incomplete, SxBase
from .values import (Sym, SymBool, SymInt, SymStr, SymChoice, SymDict, SymSet, SymFrozenSet, mkstr, cs, isstr,
                     wb, wi, ub, ui, not_, join, is_symkey, has_sym, deep_conc, s_eq)

MODELS = {}           # id(function) -> model
KEEP = []             # keep modelled functions alive (ids stay valid)
TABULATED = {}        # id(function) -> name ; pure functions of one character
TAB_NAMES = set()     # (module, qualname)
REPO_PREFIX = '/repo/'
STUBS = {}            # id(function) -> python replacement (environment stubs), both modes


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[id(f)] = g
            KEEP.append(f)
        return g
    return deco


def tabulated(*fs):
    for f in fs:
        TABULATED[id(f)] = getattr(f, '__qualname__', repr(f))
        KEEP.append(f)


tabulated(unicodedata.category, unicodedata.combining, unicodedata.bidirectional, unicodedata.mirrored,
          unicodedata.east_asian_width, unicodedata.decomposition)


def anysym(args, kw):
    for a in args:
        if isinstance(a, Sym):
            return True
    if kw:
        for a in kw.values():
            if isinstance(a, Sym):
                return True
    return False


def anydeep(args, kw):
    for a in args:
        if has_sym(a, 3):
            return True
    if kw:
        for a in kw.values():
            if has_sym(a, 3):
                return True
    return False


_FT = (types.FunctionType,)


def call(f, *args, **kw):
    en = Engine.current
    if en is not None:
        en.steps += 1
        if en.steps > en.step_limit:
            en.tick()
    m = MODELS.get(id(f))
    if m is not None:
        return m(*args, **kw)
    t = type(f)
    if t is types.FunctionType:
        if en is not None:
            co = f.__code__
            if co.co_filename.startswith(REPO_PREFIX):
                en.functions.add(co.co_filename[len(REPO_PREFIX):] + ':' + co.co_qualname)
        return f(*args, **kw)
    if t is types.MethodType:
        fn = f.__func__
        if type(fn) is types.FunctionType and en is not None and fn.__code__.co_filename.startswith(REPO_PREFIX):
            co = fn.__code__
            en.functions.add(co.co_filename[len(REPO_PREFIX):] + ':' + co.co_qualname)
        return f(*args, **kw)
    if isinstance(f, type):
        return f(*args, **kw)
    if t is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    if t in (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodDescriptorType, types.WrapperDescriptorType,
             types.MethodWrapperType, types.ClassMethodDescriptorType):
        return call_native(f, args, kw)
    return f(*args, **kw)


def _native_self(f):
    s = getattr(f, '__self__', None)
    if isinstance(s, types.ModuleType):
        return None
    return s


def call_native(f, args, kw):
    name = getattr(f, '__name__', '')
    slf = _native_self(f)
    if not anysym(args, kw):
        if isinstance(slf, str) and name in ('join', 'format', 'format_map') and type(slf) is str:
            if name == 'join':
                parts = list(args[0])
                if any(isinstance(p, Sym) for p in parts):
                    return join(slf, parts)
                return slf.join(parts)
            if name == 'format':
                return strfmt.format_(slf, args, kw)
            if name == 'format_map':
                return strfmt.format_(slf, (), args[0])
        # unbound methods: str.join(sep, it), ...
        return f(*args, **kw)
    key = id(f)
    q = TABULATED.get(key)
    if q is None and TAB_NAMES:
        q = _tabname(f)
    if q is not None:
        return call_tab(q, f, args, kw)
    if type(slf) is str:
        if any(isinstance(a, SymChoice) for a in args):
            args = [a.conc() if isinstance(a, SymChoice) else a for a in args]
            return callm(slf, name, *args, **kw)
        return getattr(SymStr(tuple(map(ord, slf))), name)(*args, **kw)
    if isinstance(slf, (list, SymDict, SymSet, collections.deque)):
        return f(*args, **kw)
    if isinstance(slf, dict):
        return native_dict(slf, name, args, kw)
    if isinstance(slf, (set, frozenset)):
        return native_set(slf, name, args, kw)
    if isinstance(slf, types.MethodWrapperType) or name.startswith('__'):
        return f(*args, **kw)
    if type(f) is types.MethodDescriptorType and args and f.__objclass__ is str:
        return getattr(args[0] if isinstance(args[0], SymStr) else SymStr(cs(args[0])), name)(*args[1:], **kw)
    if slf is not None and type(slf).__module__ not in ('builtins', '_io', 're') and not isinstance(slf, type) \
            and name in PASS_METHODS:
        return f(*args, **kw)
    if name in PASS_METHODS:
        return f(*args, **kw)
    return concretised(f, args, kw)


PASS_METHODS = {'append', 'set', 'insert', 'appendleft', 'extend', 'setattr', '__setattr__', '__init__', '__new__'}


def concretised(f, args, kw):
    """C boundary without a model: fork on the values of the arguments (capped)"""
    en = Engine.current
    nm = getattr(f, '__qualname__', repr(f))
    en.concretised[nm] = en.concretised.get(nm, 0) + 1
    args = [deep_conc(a) for a in args]
    kw = {k: deep_conc(v) for k, v in kw.items()}
    return f(*args, **kw)


def _tabname(f):
    k = (getattr(f, '__module__', None), getattr(f, '__qualname__', None))
    if k in TAB_NAMES:
        return "%s.%s" % k
    return None


def call_tab(q, f, args, kw):
    """f is a pure function of one character argument; the others are concrete"""
    idx = [i for i, a in enumerate(args) if isinstance(a, Sym)]
    if len(idx) != 1 or kw:
        return concretised(f, args, kw)
    a = args[idx[0]]
    if isinstance(a, SymChoice):
        i = idx[0]
        return a.lift(lambda v: f(*(args[:i] + (v,) + args[i + 1:])))
    if isinstance(a, SymInt):
        e = a.e
        isint = True
    else:
        if len(a) != 1:
            return concretised(f, args, kw)
        e = a.c[0]
        isint = False
    i = idx[0]
    rest = tuple(x if isinstance(x, (int, str, type(None))) else repr(x) for j, x in enumerate(args) if j != i)
    key = (q, i, isint, rest)
    pre, post = tuple(args[:i]), tuple(args[i + 1:])
    if isint:
        fn = lambda ch: f(*pre, ord(ch), *post)
    else:
        fn = lambda ch: f(*pre, ch, *post)
    return SymChoice.make(e, tables.tabulate(key, fn))


def callm(obj, name, *args, **kw):
    if isinstance(obj, SymChoice):
        return getattr(obj, name)(*args, **kw)
    if type(obj) is str:
        if name == 'join':
            parts = list(args[0])
            if any(isinstance(p, Sym) for p in parts):
                return join(obj, parts)
            return obj.join(parts)
        if name == 'format':
            return strfmt.format_(obj, args, kw)
        if name == 'format_map':
            return strfmt.format_(obj, (), args[0])
        if anysym(args, kw):
            if any(isinstance(a, SymChoice) for a in args):
                args = [a.conc() if isinstance(a, SymChoice) else a for a in args]
                return callm(obj, name, *args, **kw)
            return getattr(SymStr(tuple(map(ord, obj))), name)(*args, **kw)
        if name in ('startswith', 'endswith') and args and isinstance(args[0], tuple) and has_sym(args[0]):
            return getattr(SymStr(tuple(map(ord, obj))), name)(*args, **kw)
        return getattr(obj, name)(*args, **kw)
    if isinstance(obj, Sym):
        if isinstance(obj, SymInt) and name == 'is_integer':
            return obj.isint()
        return getattr(obj, name)(*args, **kw)
    f = getattr(obj, name)
    return call(f, *args, **kw)


def native_dict(d, name, args, kw):
    """a dict built by C code, used with a symbolic key"""
    k = args[0] if args else None
    if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__'):
        if is_symkey(k):
            if isinstance(k, SymChoice):
                k = k.conc()
            t = SymDict(d)
            r = t._locate(k)
            if r is not None:
                return getattr(d, name)(r[1], *args[1:])
            if name == 'get':
                return args[1] if len(args) > 1 else None
            if name == '__contains__':
                return False
            if name == 'pop':
                if len(args) > 1:
                    return args[1]
                raise KeyError(k)
            if name == '__getitem__':
                raise KeyError(k)
            raise Unsupported('native dict store with symbolic key')
        return getattr(d, name)(*args, **kw)
    if name == 'update':
        for a in args:
            for kk, v in (a.items() if hasattr(a, 'items') else a):
                setitem(d, kk, v)
        return None
    return getattr(d, name)(*args, **kw)


def native_set(s, name, args, kw):
    if name == '__contains__':
        return SymSet(s).contains(args[0])
    if name in ('add', 'discard', 'remove'):
        if is_symkey(args[0]):
            r = SymSet(s)._locate(args[0])
            if r is not None:
                return getattr(s, name)(r[1])
            if name == 'add':
                raise Unsupported('native set store with symbolic element')
            if name == 'remove':
                raise KeyError(args[0])
            return None
        return getattr(s, name)(*args)
    return getattr(SymSet(s), name)(*args, **kw)


# ------------------------------------------------------------------ operators

def contains(c, x):
    """x in c"""
    if isinstance(x, SymChoice):
        if isinstance(c, Sym) or has_sym(c, 2):
            x = x.conc()
        else:
            return x.lift(lambda v: contains(c, v))
    if isinstance(c, SymChoice):
        if isinstance(x, Sym):
            c = c.conc()
        else:
            return c.lift(lambda v: x in v)
    if isinstance(c, str):
        if isinstance(x, SymStr):
            return SymStr(tuple(map(ord, c))).contains(x)
        return x in c
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(c, (SymDict, SymSet)):
        if type(c).__contains__ in (SymDict.__contains__, SymSet.__contains__):
            return c.contains(x)
        return x in c
    if type(c) in (list, tuple):
        if isinstance(x, Sym) or has_sym(c, 1):
            # a disjunction instead of element-wise forks, when the elements are strings or numbers
            if all(isinstance(y, (str, int, SymStr, SymInt)) for y in c) and isinstance(x, (str, int, SymStr, SymInt)):
                return wb(b_or(*[ub(x == y) for y in c]))
        return x in c
    if isinstance(c, range):
        if isinstance(x, SymInt) and c.step == 1:
            return wb(b_in(x.e, IS([(c.start, c.stop - 1)] if c.stop > c.start else [])))
        return x in c
    if isinstance(x, Sym) or is_symkey(x):
        if isinstance(c, dict):
            return SymDict(c).contains(x)
        if isinstance(c, (set, frozenset)):
            return SymSet(c).contains(x)
        if isinstance(c, (type({}.keys()), values.KeysView)):
            return SymSet(list(c)).contains(x)
    return x in c


def notcontains(c, x):
    return not_(contains(c, x))


def getitem(o, k):
    if isinstance(k, Sym) or type(k) is tuple:
        if isinstance(o, dict) and not isinstance(o, SymDict) and is_symkey(k):
            return native_dict(o, '__getitem__', (k,), {})
        if isinstance(k, SymInt) and isinstance(o, str):
            k = k.__index__()
        elif isinstance(k, SymChoice) and not isinstance(o, dict):
            k = k.conc()
    elif isinstance(o, str) and type(k) is slice:
        if isinstance(k.start, Sym) or isinstance(k.stop, Sym):
            k = slice(deep_conc(k.start), deep_conc(k.stop), deep_conc(k.step))
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict) and not isinstance(o, SymDict) and is_symkey(k):
        r = SymDict(o)._locate(k)
        if r is None:
            k = deep_conc(k)
        else:
            k = r[1]
    o[k] = v


def mod(a, b):
    if isinstance(a, (str, SymStr)):
        if isinstance(a, str) and not anydeep((b,), None):
            try:
                plain = isinstance(b, (str, int, float)) or (isinstance(b, tuple) and all(isinstance(x, (str, int, float)) for x in b))
            except TypeError:
                plain = False
            if plain:
                return a % b
        return strfmt.percent(a, b)
    return a % b


def fstr(*parts):
    return strfmt.fstr(parts)


def mkdict(pairs):
    r = SymDict()
    for k, v in pairs:
        r[k] = v
    return r


def mkdict_items(*items):
    """dict display: ('k', key, value) or ('*', mapping)"""
    r = SymDict()
    for it in items:
        if it[0] == '*':
            r.update(it[1])
        else:
            r[it[1]] = it[2]
    return r


def mkset(it):
    return SymSet(it)


def tick():
    en = Engine.current
    if en is not None:
        en.tick()
    return True


BASES = {set: SymSet, dict: SymDict}


def base(c):
    try:
        return BASES.get(c, c)
    except TypeError:
        return c


# ------------------------------------------------------------------ builtin models

def pytype(v):
    if isinstance(v, SymStr):
        return str
    if isinstance(v, SymInt):
        return int if v.e.sort == 'i' else float
    if isinstance(v, SymBool):
        return bool
    if isinstance(v, SymChoice):
        return type(v.tab[0][0])
    t = type(v)
    return {SymDict: dict, SymSet: set, SymFrozenSet: frozenset, sre.SymPattern: re.Pattern,
            sre.SymMatch: re.Match}.get(t, t)


@model(range)
def m_range(*a):
    if not any(isinstance(v, Sym) for v in a):
        return range(*a)
    a = [v.conc() if isinstance(v, SymChoice) else v for v in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if isinstance(step, Sym):
        step = deep_conc(step)
    d = stop - start
    if not isinstance(d, Sym):
        n = max(0, -((-d) // step) if step > 0 else -(d // step))
        return [start + i * step for i in range(n)]
    return _range(start, stop, step)


def _range(start, stop, step):
    while (start < stop) if step > 0 else (start > stop):
        Engine.current.tick()
        yield start
        start = start + step


@model(len)
def m_len(x):
    if isinstance(x, SymChoice):
        return x.lift(len)
    if isinstance(x, (SymInt, SymBool)):
        raise TypeError("object of type 'int' has no len()")
    return len(x)


@model(ord)
def m_ord(x):
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(x))
        return wi(x.c[0])
    if isinstance(x, SymChoice):
        return x.lift(ord)
    return ord(x)


@model(chr)
def m_chr(x):
    if isinstance(x, SymInt):
        if not Engine.current.branch(b_in(x.e, ir.IS_ANYCP)):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr((x.e,))
    return chr(deep_conc(x))


def _digit_source(chars, base):
    """chars = digits of one expression, most significant first?"""
    n = len(chars)
    src = None
    for i, c in enumerate(chars):
        if isn(c) and c.op == 'dig':
            e, k, b, u = c.args
            if b != base or k != n - 1 - i:
                return None
            if src is None:
                src = e
            elif src is not e:
                return None
        elif not isn(c) and c == 48 and src is None:
            continue
        else:
            return None
    if src is None:
        return None
    lead = 0
    while not isn(chars[lead]):
        lead += 1
    sig = n - lead
    # digits are exact only below base**sig
    if Engine.current.simpb(ir.b_lt(src, base ** sig)) is True:
        return src
    return None


_dsets = {}


def _dset(base):
    r = _dsets.get(base)
    if r is None:
        s = "0123456789"[:min(base, 10)]
        if base > 10:
            s += "abcdefghijklmnopqrstuvwxyz"[:base - 10] + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:base - 10]
        r = _dsets[base] = IS.chars(s)
    return r


_odd_int = None


@model(int)
def m_int(*a, **kw):
    if not a:
        return 0
    x = a[0]
    base = a[1] if len(a) > 1 else kw.get('base', 10)
    if isinstance(x, SymChoice):
        if all(isinstance(v, (str, int, float)) for v, s in x.tab):
            return x.lift(lambda v: int(v, base) if isinstance(v, str) else int(v))
        x = x.conc()
    if isinstance(x, SymBool):
        return wi(ui(x))
    if isinstance(x, SymInt):
        if x.e.sort == 'i':
            return x
        raise Unsupported('int(real)')
    if isinstance(x, SymStr):
        en = Engine.current
        if base == 0:
            return int(x.conc(), 0)
        c = x.c
        if not c:
            raise ValueError("invalid literal for int()")
        src = _digit_source(c, base)
        if src is not None:
            return wi(src)
        ds = _dset(base)
        neg = False
        if not en.branch(b_and(*[b_in(y, ds) for y in c])):
            # strip white space and sign
            if en.branch(b_or(*[b_in(y, IS([(28, 31)])) for y in c])):
                raise ValueError("invalid literal for int() with base %d" % base)
            y = x.strip()
            if isinstance(y, str):
                return int(y, base)
            c = y.c
            if not c:
                raise ValueError("invalid literal for int() with base %d" % base)
            if en.branch(b_in(c[0], IS.chars("+-"))):
                neg = en.branch(b_in(c[0], IS.chars("-")))
                c = c[1:]
                if not c:
                    raise ValueError("invalid literal for int() with base %d" % base)
            if not en.branch(b_and(*[b_in(z, ds) for z in c])):
                # no other digits, '_' separators or 0x prefixes: an error
                odd = values.str_is('isdecimal') | IS.chars("_xXoObB")
                for z in c:
                    if en.branch(b_and(b_in(z, odd), b_not(b_in(z, ds)))):
                        v = int(mkstr(c).conc() if not isinstance(mkstr(c), str) else mkstr(c), base)
                        return -v if neg else v
                raise ValueError("invalid literal for int() with base %d" % base)
        r = 0
        for y in c:
            if not isn(y):
                d = int(chr(y), base)
            else:
                dom = en.dom(y)
                d = None
                parts = [(IS([(48, 57)]), -48), (IS([(65, 90)]), -55), (IS([(97, 122)]), -87)]
                parts = [(s, k) for s, k in parts if dom is None or (dom & s)]
                d = ir.n_add(y, parts[-1][1])
                for s, k in parts[:-1]:
                    d = ir.n_ite(b_in(y, s), ir.n_add(y, k), d)
            r = ir.n_add(ir.n_mul(r, base), d)
        return wi(ir.n_neg(r) if neg else r)
    if type(x).__module__ != 'builtins' and hasattr(x, '__int__'):
        return x.__int__()
    if isinstance(base, Sym):
        base = base.__index__()
    if len(a) > 1 or kw:
        return int(x, base)
    return int(x)


DIGITS = IS.norm([(48, 57)])


def ub_digit(c):
    """is the character certainly an ASCII digit on this path (forks if that is open)"""
    if not isn(c):
        return 48 <= c <= 57
    return bool(values.wb(b_in(c, DIGITS)))


@model(float)
def m_float(x=0.0):
    if isinstance(x, SymInt):
        return wi(ir.node('add', (x.e, Fraction(0)), 'r')) if x.e.sort == 'i' else x
    if isinstance(x, SymStr):
        # digits with a sign are a whole number
        neg = False
        d = x
        if len(x.c) > 1:
            s = x.c[0]
            if chr(s) in '+-' if not isn(s) else Engine.current.branch(b_in(s, IS.chars("+-"))):
                neg = chr(s) == '-' if not isn(s) else Engine.current.branch(b_in(s, IS.chars("-")))
                d = mkstr(x.c[1:])
        if isinstance(d, SymStr) and all(ub_digit(c) for c in d.c):
            v = m_int(d)
            v = -v if neg else v
            return m_float(v)
    if isinstance(x, Sym):
        return float(deep_conc(x))
    return float(x)


@model(bool)
def m_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return wb(ub(x))
    return bool(x)


def model_str(x):
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, SymInt):
        return strfmt.fmt_value(x, '')
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymChoice):
        return x.lift(str)
    t = type(x)
    f = t.__str__
    if isinstance(f, types.FunctionType):
        r = call(f, x)
        if not isstr(r):
            raise TypeError("__str__ returned non-string (type %s)" % type(r).__name__)
        return r
    if f is object.__str__ or t in (list, tuple, SymDict, SymSet):
        return model_repr(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1:
            return model_str(x.args[0]) if not isinstance(x, KeyError) else model_repr(x.args[0])
    return str(x)


def model_repr(x):
    if isinstance(x, SymStr):
        simple = IS([(32, 38), (40, 91), (93, 126)])
        if Engine.current.branch(b_and(*[b_in(c, simple) for c in x.c])):
            return "'" + x + "'"
        return repr(x.conc())
    if isinstance(x, SymInt):
        return strfmt.fmt_value(x, '')
    if isinstance(x, SymBool):
        return repr(bool(x))
    if isinstance(x, SymChoice):
        return x.lift(repr)
    t = type(x)
    f = t.__repr__
    if isinstance(f, types.FunctionType) and f not in (SymDict.__repr__, SymSet.__repr__):
        return call(f, x)
    if has_sym(x) or isinstance(x, (SymDict, SymSet)):
        if isinstance(x, list):
            return "[" + join(", ", [model_repr(y) for y in x]) + "]"
        if isinstance(x, tuple) and not hasattr(x, '_fields'):
            if len(x) == 1:
                return "(" + model_repr(x[0]) + ",)"
            return "(" + join(", ", [model_repr(y) for y in x]) + ")"
        if isinstance(x, dict):
            return "{" + join(", ", [model_repr(k) + ": " + model_repr(v) for k, v in x.items()]) + "}"
        if isinstance(x, set):
            if not len(x):
                return "set()"
            return "{" + join(", ", [model_repr(k) for k in x]) + "}"
        return repr(deep_conc(x))
    return repr(x)


@model(str)
def m_str(*a, **kw):
    if not a:
        return ""
    if len(a) > 1 or kw:
        return str(*a, **kw)
    return model_str(a[0])


model(repr)(model_repr)


@model(format)
def m_format(v, spec=''):
    return strfmt.fmt_value(v, spec)


@model(isinstance)
def m_isinstance(x, t):
    if isinstance(x, (Sym, sre.SymPattern, sre.SymMatch)):
        pt = pytype(x)
        ts = t if isinstance(t, tuple) else (t,)
        for y in ts:
            if isinstance(y, tuple):
                if m_isinstance(x, y):
                    return True
            elif isinstance(y, types.UnionType):
                if m_isinstance(x, y.__args__):
                    return True
            elif issubclass(pt, y):
                return True
        return False
    if isinstance(x, SymFrozenSet):
        return isinstance(frozenset(), t)
    return isinstance(x, t)


_realtype = type


@model(type)
def m_type(*a, **kw):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a, **kw)


@model(callable)
def m_callable(x):
    return callable(x) and not isinstance(x, Sym)


@model(hash)
def m_hash(x):
    """case split on equality with what was hashed before on this path"""
    en = Engine.current
    if isinstance(x, SymChoice):
        x = x.conc()
    if isinstance(x, (SymStr, str, SymInt, tuple, SymFrozenSet)) and (has_sym(x) or en.hash_classes):
        for v, h in en.hash_classes:
            if type(v) is type(x) or (isinstance(v, (str, SymStr)) and isinstance(x, (str, SymStr))):
                if values.key_eq(v, x) if False else bool(wb(values.key_eq(v, x))):
                    return h
        if has_sym(x):
            h = 0x5bd1e995 * (len(en.hash_classes) + 12345) % ((1 << 61) - 1)
        else:
            h = hash(x)
        en.hash_classes.append((x, h))
        return h
    if isinstance(x, (str, tuple)):
        h = hash(x)
        en.hash_classes.append((x, h))
        return h
    f = type(x).__hash__
    if isinstance(f, types.FunctionType):
        return call(f, x)
    return hash(x)


@model(set)
def m_set(it=()):
    return SymSet(it)


@model(frozenset)
def m_frozenset(it=()):
    return SymFrozenSet(it)


@model(dict)
def m_dict(*a, **kw):
    return SymDict(*a, **kw)


@model(map)
def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


@model(filter)
def m_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def _key(key):
    if key is None:
        return None
    return lambda x: call(key, x)


@model(sorted)
def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_key(key), reverse=reverse)


@model(min)
def m_min(*a, **kw):
    if 'key' in kw:
        kw['key'] = _key(kw['key'])
    return min(*a, **kw)


@model(max)
def m_max(*a, **kw):
    if 'key' in kw:
        kw['key'] = _key(kw['key'])
    return max(*a, **kw)


@model(sum)
def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


@model(print)
def m_print(*a, **kw):
    f = kw.get('file') or sys.stdout
    if type(f).__name__ in ('VFile', 'StringIO') and hasattr(f, 'buf'):
        cs_ = []
        for i, v in enumerate(a):
            cs_ += list(cs((kw.get('sep') or ' ') if i else ''))
            cs_ += list(cs(v if isstr(v) else m_str(v)))
        f.write(mkstr(cs_ + list(cs(kw.get('end', '\n')))))


@model(abs)
def m_abs(x):
    return abs(x)


@model(round)
def m_round(x, n=None):
    if isinstance(x, Sym):
        x = deep_conc(x)
    return round(x, n) if n is not None else round(x)


@model(hex)
def m_hex(x):
    if isinstance(x, SymInt):
        return strfmt.fmt_value(x, '#x')
    return hex(x)


@model(oct)
def m_oct(x):
    return strfmt.fmt_value(x, '#o') if isinstance(x, SymInt) else oct(x)


@model(bin)
def m_bin(x):
    return strfmt.fmt_value(x, '#b') if isinstance(x, SymInt) else bin(x)


@model(getattr)
def m_getattr(o, n, *d):
    if isinstance(n, Sym):
        n = n.conc()
    return getattr(o, n, *d)


@model(setattr)
def m_setattr(o, n, v):
    if isinstance(n, Sym):
        n = n.conc()
    setattr(o, n, v)


@model(hasattr)
def m_hasattr(o, n):
    if isinstance(n, Sym):
        n = n.conc()
    return hasattr(o, n)


@model(functools.reduce)
def m_reduce(f, it, *init):
    return functools.reduce(lambda a, b: call(f, a, b), it, *init)


@model(operator.contains)
def m_opcontains(a, b):
    return contains(a, b)


@model(itertools.groupby)
def m_groupby(it, key=None):
    return itertools.groupby(it, _key(key))


def _itmodel(f):
    @model(f)
    def m(p, it):
        return f(_key(p), it)


for _f in (itertools.takewhile, itertools.dropwhile, itertools.filterfalse):
    _itmodel(_f)


@model(itertools.starmap)
def m_starmap(f, it):
    return (call(f, *xs) for xs in it)


@model(itertools.accumulate)
def m_accumulate(it, func=None, *, initial=None):
    return itertools.accumulate(it, None if func is None else (lambda a, b: call(func, a, b)), initial=initial)


for _f in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge, operator.add, operator.sub, operator.mul,
           operator.neg, operator.and_, operator.or_, operator.xor, operator.concat, iter):
    model(_f)(_f)
model(operator.getitem)(lambda a, b: getitem(a, b))
model(operator.mod)(lambda a, b: mod(a, b))
model(operator.not_)(lambda a: not_(a))
model(operator.truth)(lambda a: not_(not_(a)))
model(io.StringIO)(lambda *a, **kw: vfs().StringIO(*a, **kw))


def _pure(name, cname):
    """the functions of a module of the standard library without its parts in C"""
    import importlib.util
    sp = importlib.util.find_spec(name)
    md = importlib.util.module_from_spec(sp)
    old = sys.modules.get(cname)
    sys.modules[cname] = None
    try:
        sp.loader.exec_module(md)
    finally:
        if old is None:
            del sys.modules[cname]
        else:
            sys.modules[cname] = old
    real = __import__(name)
    for k, v in vars(md).items():
        r = getattr(real, k, None)
        if isinstance(v, types.FunctionType) and isinstance(r, types.BuiltinFunctionType):
            model(r)(v)


_pure('heapq', '_heapq')
_pure('bisect', '_bisect')


def isbool(a, b):
    """a is True, a is False"""
    if isinstance(a, SymBool):
        return a if b else not_(a)
    return a is b


model(re.compile)(sre.compile_)
model(re.match)(sre.m_match)
model(re.fullmatch)(sre.m_fullmatch)
model(re.search)(sre.m_search)
model(re.findall)(sre.m_findall)
model(re.finditer)(sre.m_finditer)
model(re.split)(sre.m_split)
model(re.sub)(sre.m_sub)
model(re.subn)(sre.m_subn)
model(re.escape)(sre.m_escape)


_norm_safe = {}


def norm_stable(form):
    """characters that no normalisation of kind `form` changes or reorders in any context"""
    r = _norm_safe.get(form)
    if r is None:
        n = unicodedata.normalize
        bad = set()
        iv = []
        second = set()
        # characters that can be the second half of a canonical composition
        for cp in range(ir.MAXCP + 1):
            if 0xD800 <= cp <= 0xDFFF:
                continue
            d = unicodedata.decomposition(chr(cp))
            if d and not d.startswith('<'):
                p = d.split()
                if len(p) == 2:
                    second.add(int(p[1], 16))
                    if form in ('NFC', 'NFKC'):
                        pass
        firsts = set()
        for cp in range(ir.MAXCP + 1):
            d = unicodedata.decomposition(chr(cp))
            if d and not d.startswith('<'):
                p = d.split()
                if len(p) == 2:
                    firsts.add(int(p[0], 16))
        comp = form in ('NFC', 'NFKC')
        st = None
        for cp in range(ir.MAXCP + 1):
            ch = chr(cp)
            ok = not (0xD800 <= cp <= 0xDFFF) and unicodedata.combining(ch) == 0 and n(form, ch) == ch
            if ok and comp:
                # only an unstable pair needs both a first and a second; forbid seconds
                if cp in second or 0x1161 <= cp <= 0x1175 or 0x11A8 <= cp <= 0x11C2:
                    ok = False
            if ok:
                if st is None:
                    st = cp
            elif st is not None:
                iv.append((st, cp - 1))
                st = None
        if st is not None:
            iv.append((st, ir.MAXCP))
        r = _norm_safe[form] = IS(iv)
    return r


@model(unicodedata.normalize)
def m_normalize(form, s):
    if isinstance(s, SymChoice):
        return s.lift(lambda v: unicodedata.normalize(form, v))
    if isinstance(s, SymStr):
        st = norm_stable(form)
        en = Engine.current
        out = []
        if en.branch(b_and(*[b_in(c, st) for c in s.c])):
            return s
        # concretise the unstable characters and their neighbours
        res = []
        for c in s.c:
            if isn(c) and not en.branch(b_in(c, st)):
                c = en.concretise(c, cap=6, why='normalize')
            res.append(c)
        # stable characters commute with normalisation of the runs between them, except that
        # a starter may compose with a following mark: concretise starters before unstable ones
        for i, c in enumerate(res):
            if isn(c) and i + 1 < len(res) and not isn(res[i + 1]) and res[i + 1] not in st:
                res[i] = en.concretise(c, cap=6, why='normalize')
        fin = []
        run = []
        for c in res:
            if isn(c):
                fin.extend(map(ord, unicodedata.normalize(form, "".join(map(chr, run)))))
                run = []
                fin.append(c)
            else:
                run.append(c)
        fin.extend(map(ord, unicodedata.normalize(form, "".join(map(chr, run)))))
        return mkstr(fin)
    return unicodedata.normalize(form, s)


@model(copy.copy)
def m_copy(x):
    return copy.copy(x)


@model(collections.OrderedDict)
def m_odict(*a, **kw):
    return SymDict(*a, **kw)


class SymDefaultDict(SymDict):
    def __init__(self, default_factory=None, *a, **kw):
        SymDict.__init__(self, *a, **kw)
        self.default_factory = default_factory

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = call(self.default_factory)
        self[k] = v
        return v

    def __getitem__(self, k):
        r = self._locate(k)
        if r is None:
            return self.__missing__(k)
        return r[1][1] if r[0] == 's' else dict.__getitem__(self, r[1])


@model(collections.defaultdict)
def m_defaultdict(*a, **kw):
    return SymDefaultDict(*a, **kw)


BASES[collections.OrderedDict] = SymDict
BASES[collections.defaultdict] = SymDefaultDict


@model(str.maketrans)
def m_maketrans(*a):
    return str.maketrans(*[dict(x) if isinstance(x, SymDict) else x for x in a])


def str_unbound(name):
    def f(s, *a, **kw):
        if isinstance(s, SymChoice):
            return getattr(s, name)(*a, **kw)
        return callm(s, name, *a, **kw)
    return f


for _n in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'split', 'join', 'title', 'capitalize', 'startswith',
           'endswith', 'replace', 'format', 'isupper', 'islower', 'isdigit', 'isalpha', 'find', 'casefold'):
    MODELS[id(getattr(str, _n))] = str_unbound(_n)
    KEEP.append(getattr(str, _n))


# ---- files: paths under /vfs are virtual, written and read in memory

VF = None


def vfs():
    global VF
    if VF is None:
        from . import rewrite
        VF = rewrite.load_file('symx_vfile', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vfile.py'))
    return VF


def isvirtual(p):
    return isinstance(p, str) and p.startswith('/vfs') and Engine.current is not None


CWD = None      # where relative paths are, while a script runs


def rel(p):
    """concrete path, absolute if there is a virtual current directory"""
    if isinstance(p, SymStr):
        p = p.conc()
    if CWD and isinstance(p, str) and not p.startswith('/'):
        p = os.path.join(CWD, p)
    return p


def m_open(path, mode='r', *a, **kw):
    path = rel(path)
    if isvirtual(path):
        if 'b' in mode and 'r' not in mode:
            raise Unsupported('binary file')
        path = os.path.normpath(path)
        files = Engine.current.files
        if mode == 'rb':        # the text stands for its UTF-8 encoding
            if path not in files:
                raise FileNotFoundError(2, 'No such file or directory', path)
            return vfs().VFile(files, path, 'r', '', 'utf-8')
        if 'r' in mode and path not in files:
            raise FileNotFoundError(2, 'No such file or directory', path)
        if 'r' not in mode:
            if not m_isdir(os.path.dirname(path)):
                raise FileNotFoundError(2, 'No such file or directory', path)
            if m_isdir(path):
                raise IsADirectoryError(21, 'Is a directory', path)
            adddirs(os.path.dirname(path))
        enc = kw.get('encoding')
        return vfs().VFile(files, path, mode, kw.get('newline'), enc)
    if not set(mode) <= set('rbt'):
        raise Unsupported('writing to a real file')
    return open(path, mode, *a, **kw)


def m_codecs_open(path, mode='r', encoding=None, *a, **kw):
    return m_open(path, mode, encoding=encoding, newline='\n')


def m_getwriter(encoding):
    if encoding.lower().replace('_', '-') != 'utf-8':
        raise Unsupported('encoding ' + encoding)
    return vfs().Writer


def m_bytesio(data=b''):
    if isinstance(data, vfs().Encoded):
        return vfs().EncodedIO(data)
    return io.BytesIO(data)


def m_exists(p):
    p = rel(p)
    if isvirtual(p):
        p = os.path.normpath(p)
        return p in Engine.current.files or m_isdir(p)
    return _exists(p)


def m_isfile(p):
    p = rel(p)
    if isvirtual(p):
        return os.path.normpath(p) in Engine.current.files
    return _isfile(p)


def m_getsize(p):
    p = rel(p)
    if isvirtual(p):
        p = os.path.normpath(p)
        if p not in Engine.current.files:
            raise FileNotFoundError(2, 'No such file or directory', p)
        return len(Engine.current.files[p])
    return _getsize(p)


def adddirs(p):
    """these directories exist even when nothing is in them"""
    p = os.path.normpath(p)
    while len(p) > 4:
        Engine.current.dirs.add(p)
        p = os.path.dirname(p)


def _vpath(p):
    p = rel(p)
    return os.path.normpath(p) if isvirtual(p) else p


def m_isdir(p):
    p = _vpath(p)
    if not isvirtual(p):
        return _isdir(p)
    return p == '/vfs' or p in Engine.current.dirs or any(f.startswith(p + '/') for f in Engine.current.files)


def m_listdir(p='.'):
    p = _vpath(p)
    if not isvirtual(p):
        return _listdir(p)
    if not m_isdir(p):
        if p in Engine.current.files:
            raise NotADirectoryError(20, 'Not a directory', p)
        raise FileNotFoundError(2, 'No such file or directory', p)
    return sorted({f[len(p) + 1:].split('/')[0] for f in list(Engine.current.files) + list(Engine.current.dirs)
                   if f.startswith(p + '/')})


def m_walk(top, topdown=True, onerror=None, followlinks=False):
    top = _vpath(top)
    if not isvirtual(top):
        yield from _walk(top, topdown, onerror, followlinks)
        return
    if not m_isdir(top):
        return
    names = m_listdir(top)
    ds = [n for n in names if m_isdir(os.path.join(top, n))]
    fs = [n for n in names if n not in ds]
    if topdown:
        yield top, ds, fs
    for d in ds:
        yield from m_walk(os.path.join(top, d), topdown)
    if not topdown:
        yield top, ds, fs


def m_makedirs(p, mode=0o777, exist_ok=False):
    p = _vpath(p)
    if not isvirtual(p):
        raise Unsupported('making a real directory')
    if p in Engine.current.files or (m_isdir(p) and not exist_ok):
        raise FileExistsError(17, 'File exists', p)
    adddirs(p)


def m_mkdir(p, mode=0o777):
    p = _vpath(p)
    if isvirtual(p) and not m_isdir(os.path.dirname(p)):
        raise FileNotFoundError(2, 'No such file or directory', p)
    m_makedirs(p)


def m_unlink(p):
    p = _vpath(p)
    if not isvirtual(p):
        raise Unsupported('removing a real file')
    if m_isdir(p):
        raise IsADirectoryError(21, 'Is a directory', p)
    if p not in Engine.current.files:
        raise FileNotFoundError(2, 'No such file or directory', p)
    adddirs(os.path.dirname(p))
    del Engine.current.files[p]


_isdir = os.path.isdir
_listdir = os.listdir
_walk = os.walk
_getsize = os.path.getsize
_exists = os.path.exists
_isfile = os.path.isfile
_json_load = json.load


def m_json_load(f, *a, **kw):
    o = getattr(f, 'obj', None)
    if type(o).__name__ == 'JsonData':
        return copydata(o.obj)
    if type(f).__name__ == 'VFile':
        raise Unsupported('json text')
    return wrapdata(_json_load(f, *a, **kw))


def copydata(v):
    if isinstance(v, dict):
        d = SymDict()
        for k, x in v.items():
            d[k] = copydata(x)
        return d
    if isinstance(v, list):
        return [copydata(x) for x in v]
    return v


def wrapdata(v):
    return copydata(v) if Engine.current is not None else v


DIALECTS = {'excel': (',', '"'), 'excel-tab': ('\t', '"')}


def m_csv_reader(f, dialect='excel', **kw):
    d, q = DIALECTS[dialect]
    return vfs().Reader(f, kw.get('delimiter', d), kw.get('quotechar', q))


def m_csv_dict(f, fieldnames=None, restkey=None, restval=None, dialect='excel', **kw):
    d, q = DIALECTS[dialect]
    return vfs().DictReader(f, fieldnames, kw.get('delimiter', d), kw.get('quotechar', q), restkey, restval)


model(open)(m_open)
model(codecs.open)(m_codecs_open)
model(codecs.getwriter)(m_getwriter)
model(io.BytesIO)(m_bytesio)
model(os.path.exists)(m_exists)
model(os.path.isfile)(m_isfile)
model(os.path.getsize)(m_getsize)
model(os.path.isdir)(m_isdir)
model(os.listdir)(m_listdir)
model(os.walk)(m_walk)
model(os.makedirs)(m_makedirs)
model(os.mkdir)(m_mkdir)
model(os.unlink)(m_unlink)
model(os.remove)(m_unlink)
model(json.load)(m_json_load)
model(csv.reader)(m_csv_reader)
model(csv.DictReader)(m_csv_dict)


try:
    import six

    @model(six.with_metaclass)
    def m_with_metaclass(meta, *bases):
        return six.with_metaclass(meta, *[base(b) for b in bases])
except ImportError:
    pass
