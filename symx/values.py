"""Symbolic proxy values."""
from fractions import Fraction
import builtins
import unicodedata
from . import ir, tables
from .ir import IS, N, b_and, b_or, b_not, b_in, b_eq, b_le, b_lt, isn
from .engine import Engine, Unsupported, Incomplete


def eng():
    return Engine.current


class Sym(object):
    __slots__ = ()


def wb(b):
    if isinstance(b, bool):
        return b
    b = Engine.current.simpb(b)
    return b if isinstance(b, bool) else SymBool(b)


def wi(e):
    if isinstance(e, N):
        e = Engine.current.simp(e)
    return SymInt(e) if isinstance(e, N) else e


def ub(x):
    """truth value as IR boolean"""
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, SymInt):
        return b_not(b_eq(x.e, 0))
    return bool(x)


def ui(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return ir.n_ite(x.b, 1, 0)
    if isinstance(x, bool):
        return int(x)
    return x


def isnum(x):
    return isinstance(x, (int, float, Fraction, SymInt, SymBool))


class SymBool(Sym):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return Engine.current.branch(self.b)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wb(ir.b_iff(self.b, ub(o)))
        if isnum(o):
            return wb(b_eq(ui(self), ui(o)))
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wb(b_and(self.b, ub(o)))
        return int(bool(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wb(b_or(self.b, ub(o)))
        return int(bool(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wb(b_not(ir.b_iff(self.b, ub(o))))
        return int(bool(self)) ^ o
    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __add__(self, o):
        return wi(ir.n_add(ui(self), ui(o))) if isnum(o) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return wi(ir.n_sub(ui(self), ui(o))) if isnum(o) else NotImplemented

    def __rsub__(self, o):
        return wi(ir.n_sub(ui(o), ui(self))) if isnum(o) else NotImplemented

    def __mul__(self, o):
        if isnum(o):
            return wi(ir.n_mul(ui(self), ui(o)))
        return o * int(bool(self))
    __rmul__ = __mul__

    def __lt__(self, o):
        return wb(b_lt(ui(self), ui(o))) if isnum(o) else NotImplemented

    def __le__(self, o):
        return wb(b_le(ui(self), ui(o))) if isnum(o) else NotImplemented

    def __gt__(self, o):
        return wb(b_lt(ui(o), ui(self))) if isnum(o) else NotImplemented

    def __ge__(self, o):
        return wb(b_le(ui(o), ui(self))) if isnum(o) else NotImplemented

    def __repr__(self):
        return "SymBool(%r)" % (self.b,)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def not_(x):
    if isinstance(x, SymBool):
        return wb(b_not(x.b))
    return not x


class SymInt(Sym):
    """integer or (sort 'r') real"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def isint(self):
        return self.e.sort == 'i'

    def _bin(self, o, f):
        if isinstance(o, float):
            o = Fraction(o)
        if isnum(o):
            return wi(f(self.e, ui(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, ir.n_add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, ir.n_sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: ir.n_sub(b, a))

    def __mul__(self, o):
        if isinstance(o, (str, SymStr, list, tuple)):
            return o * self.__index__()
        return self._bin(o, ir.n_mul)
    __rmul__ = __mul__

    def __neg__(self):
        return wi(ir.n_neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return wi(ir.n_ite(b_le(0, self.e), self.e, ir.n_neg(self.e)))

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and self.isint():
            return wi(ir.n_div(self.e, o))
        return self.__index__() // _conc(o)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and self.isint():
            return wi(ir.n_mod(self.e, o))
        return self.__index__() % _conc(o)

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool) and o != 0:
            return wi(ir.n_mul(self.e, Fraction(1) / Fraction(o)))
        return self.__index__() / _conc(o)

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 3:
            r = 1
            for i in range(o):
                r = self * r
            return r
        return self.__index__() ** _conc(o)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        return self * (1 << _conc(o))

    def __rshift__(self, o):
        return self // (1 << _conc(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.__index__() & _conc(o)
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | _conc(o)
    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ _conc(o)
    __rxor__ = __xor__

    def __invert__(self):
        return wi(ir.n_sub(ir.n_neg(self.e), 1))

    def __eq__(self, o):
        if isinstance(o, float):
            o = Fraction(o)
        return wb(b_eq(self.e, ui(o))) if isnum(o) else False

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        if isinstance(o, float):
            o = Fraction(o)
        return wb(b_lt(self.e, ui(o))) if isnum(o) else NotImplemented

    def __le__(self, o):
        if isinstance(o, float):
            o = Fraction(o)
        return wb(b_le(self.e, ui(o))) if isnum(o) else NotImplemented

    def __gt__(self, o):
        if isinstance(o, float):
            o = Fraction(o)
        return wb(b_lt(ui(o), self.e)) if isnum(o) else NotImplemented

    def __ge__(self, o):
        if isinstance(o, float):
            o = Fraction(o)
        return wb(b_le(ui(o), self.e)) if isnum(o) else NotImplemented

    def __bool__(self):
        return Engine.current.branch(b_not(b_eq(self.e, 0)))

    def __index__(self):
        v = Engine.current.concretise(self.e, why='int')
        if isinstance(v, Fraction):
            raise Unsupported('real used as an index')
        return v
    __int__ = __index__

    def __float__(self):
        return float(Engine.current.concretise(self.e, why='float'))

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return "SymInt(%r)" % (self.e,)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _conc(o):
    return o.__index__() if isinstance(o, SymInt) else o


# ------------------------------------------------------------------ strings

def cs(s):
    """tuple of character expressions"""
    if isinstance(s, SymStr):
        return s.c
    if isinstance(s, str):
        return tuple(map(ord, s))
    if isinstance(s, SymChoice):
        return cs(s.conc())
    raise TypeError("expected str, got %s" % type(s).__name__)


def isstr(s):
    return isinstance(s, (str, SymStr)) or (isinstance(s, SymChoice) and s.isstr())


def mkstr(chars):
    e = Engine.current
    if e is not None:
        chars = tuple([e.simp(c) if isinstance(c, N) else c for c in chars])
    for c in chars:
        if isinstance(c, N):
            return SymStr(chars)
    return "".join(map(chr, chars))


def s_eq(a, b):
    a, b = cs(a), cs(b)
    if len(a) != len(b):
        return False
    sb = Engine.current.simpb
    parts = []
    for x, y in zip(a, b):
        p = b_eq(x, y)
        if p is not True:
            p = sb(p)
            if p is False:
                return False
        parts.append(p)
    return b_and(*parts)


def s_lt(a, b, orequal=False):
    a, b = cs(a), cs(b)
    n = min(len(a), len(b))
    res = (len(a) <= len(b)) if orequal else (len(a) < len(b))
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        lt = b_lt(x, y)
        res = b_or(lt, b_and(b_eq(x, y), res))
    return res


WS = None


def is_ws():
    global WS
    if WS is None:
        WS = IS.chars("".join(c for c in tables.allchars() if c.isspace()))
    return WS


def inset(c, s):
    """fork: is character c in IS s"""
    return Engine.current.branch(b_in(c, s))


_strset = {}


def str_is(name):
    r = _strset.get(name)
    if r is None:
        f = getattr(str, name)
        iv = []
        st = None
        for i in range(ir.MAXCP + 1):
            if f(chr(i)):
                if st is None:
                    st = i
            elif st is not None:
                iv.append((st, i - 1))
                st = None
        if st is not None:
            iv.append((st, ir.MAXCP))
        r = _strset[name] = IS(iv)
    return r


def _idx(i, n, default):
    if i is None:
        return default
    if isinstance(i, SymInt):
        i = i.__index__()
    if i < 0:
        i = max(0, i + n)
    return min(i, n)


CASE_LIMIT = 40


def case_char(name, c, alone=False):
    """apply str.<name> (upper/lower/title/casefold) to one character: tuple of chars"""
    e = Engine.current
    c = e.simp(c)
    if not isinstance(c, N):
        if c == 0x3A3 and not alone and name in ('lower', 'title', 'capitalize'):
            raise Unsupported('lower() of capital sigma')
        return tuple(map(ord, getattr(chr(c), name)()))
    delta, multi = tables.charmap(name, lambda ch: getattr(ch, name)())
    d = e.dom(c)
    if d is None:
        raise Unsupported('case of unbounded char')
    if name == 'lower' and 0x3A3 in d:
        if e.branch(b_in(c, IS([(0x3A3, 0x3A3)]))):
            if not alone:
                raise Unsupported('lower() of capital sigma')
            return (0x3C3,)
        d = e.dom(c)
    for s, iset in multi.items():
        if d & iset:
            if e.branch(b_in(c, iset)):
                return tuple(map(ord, s))
            d = e.dom(c)
    c = e.simp(c)
    if not isinstance(c, N):
        return tuple(map(ord, getattr(chr(c), name)()))
    d = e.dom(c)
    groups = [(k, d & iset) for k, iset in delta.items()]
    groups = [(k, i) for k, i in groups if i]
    groups.sort(key=lambda x: (-x[1].size(), x[0]))
    if len(groups) == 1:
        return (ir.n_add(c, groups[0][0]),)
    if len(groups) <= CASE_LIMIT:
        r = ir.n_add(c, groups[0][0])
        for k, i in groups[1:]:
            r = ir.n_ite(b_in(c, i), ir.n_add(c, k), r)
        return (r,)
    # many different offsets: fork on the unchanged characters first
    for k, i in groups:
        if e.branch(b_in(c, i)):
            return (ir.n_add(c, k),)
    raise Unsupported('case map')


class SymStr(Sym):
    __slots__ = ('c',)

    def __init__(self, chars):
        self.c = chars

    # basic protocol
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for x in self.c:
            yield mkstr((x,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[slice(*(x.__index__() if isinstance(x, SymInt) else x
                                        for x in (i.start, i.stop, i.step)))])
        if isinstance(i, SymInt):
            i = i.__index__()
        try:
            return mkstr((self.c[i],))
        except IndexError:
            raise IndexError("string index out of range")

    def __add__(self, o):
        if isstr(o):
            return mkstr(self.c + cs(o))
        return NotImplemented

    def __radd__(self, o):
        if isstr(o):
            return mkstr(cs(o) + self.c)
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, (int, SymInt, SymBool)):
            return mkstr(self.c * n.__index__())
        return NotImplemented
    __rmul__ = __mul__

    def __eq__(self, o):
        if isstr(o):
            return wb(s_eq(self, o))
        return False

    def __ne__(self, o):
        if isstr(o):
            return wb(b_not(s_eq(self, o)))
        return True

    def __lt__(self, o):
        return wb(s_lt(self, o)) if isstr(o) else NotImplemented

    def __le__(self, o):
        return wb(s_lt(self, o, True)) if isstr(o) else NotImplemented

    def __gt__(self, o):
        return wb(s_lt(o, self)) if isstr(o) else NotImplemented

    def __ge__(self, o):
        return wb(s_lt(o, self, True)) if isstr(o) else NotImplemented

    def conc(self, cap=6):
        e = Engine.current
        cap = getattr(e, 'str_cap', cap)
        return "".join(chr(e.concretise(x, cap=cap, why='string')) for x in self.c)

    def __hash__(self):
        return hash(self.conc())

    def __str__(self):
        return self.conc()

    def __repr__(self):
        return "SymStr(%s)" % (",".join(chr(x) if not isinstance(x, N) else repr(x) for x in self.c))

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __mod__(self, args):
        from . import strfmt
        return strfmt.percent(self, args)

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        if not isstr(x):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(x).__name__)
        sub = cs(x)
        n = len(sub)
        if n == 0:
            return True
        if n == 1:
            consts = [y for y in self.c if not isn(y)]
            parts = []
            if consts:
                parts.append(b_in(sub[0], IS.of(consts)))
            parts.extend(b_eq(y, sub[0]) for y in self.c if isn(y))
            return wb(b_or(*[Engine.current.simpb(p) for p in parts]))
        return wb(b_or(*[s_eq(SymStr(self.c[i:i + n]), x) for i in range(len(self.c) - n + 1)]))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # searching
    def _rng(self, start, end):
        n = len(self.c)
        st = start
        if isinstance(st, SymInt):
            st = st.__index__()
        if st is not None and st > n:
            return None
        return _idx(st, n, 0), _idx(end, n, n)

    def find(self, sub, start=None, end=None):
        r = self._rng(start, end)
        s = cs(sub)
        if r is None:
            return -1
        a, b = r
        for i in range(a, b - len(s) + 1):
            if Engine.current.branch(s_eq(SymStr(self.c[i:i + len(s)]), SymStr(s))):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        r = self._rng(start, end)
        s = cs(sub)
        if r is None:
            return -1
        a, b = r
        for i in range(b - len(s), a - 1, -1):
            if Engine.current.branch(s_eq(SymStr(self.c[i:i + len(s)]), SymStr(s))):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        r = self._rng(start, end)
        s = cs(sub)
        if r is None:
            return 0
        a, b = r
        if len(s) == 0:
            return b - a + 1
        if len(s) == 1:
            return wi(_sum([ir.n_ite(Engine.current.simpb(b_eq(x, s[0])), 1, 0) for x in self.c[a:b]]))
        n = 0
        i = a
        while i + len(s) <= b:
            if Engine.current.branch(s_eq(SymStr(self.c[i:i + len(s)]), SymStr(s))):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        r = self._rng(start, end)
        if r is None:
            return False
        c = self.c[r[0]:r[1]]
        if isinstance(p, tuple):
            return wb(b_or(*[ub(SymStr(c).startswith(x)) for x in p]))
        s = cs(p)
        if len(s) > len(c):
            return False
        return wb(s_eq(SymStr(c[:len(s)]), SymStr(s)))

    def endswith(self, p, start=None, end=None):
        r = self._rng(start, end)
        if r is None:
            return False
        c = self.c[r[0]:r[1]]
        if isinstance(p, tuple):
            return wb(b_or(*[ub(SymStr(c).endswith(x)) for x in p]))
        s = cs(p)
        if len(s) > len(c):
            return False
        return wb(s_eq(SymStr(c[len(c) - len(s):]), SymStr(s)))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        o, nw = cs(old), cs(new)
        if isinstance(count, SymInt):
            count = count.__index__()
        res = []
        i = 0
        k = 0
        c = self.c
        if len(o) == 0:
            for x in c:
                if count < 0 or k < count:
                    res.extend(nw)
                    k += 1
                res.append(x)
            if count < 0 or k < count:
                res.extend(nw)
            return mkstr(res)
        if len(o) == 1 and len(nw) == 1 and count < 0:
            sb = Engine.current.simpb
            return mkstr([ir.n_ite(sb(b_eq(x, o[0])), nw[0], x) for x in c])
        while i < len(c):
            if (count < 0 or k < count) and i + len(o) <= len(c) and \
                    Engine.current.branch(s_eq(SymStr(c[i:i + len(o)]), SymStr(o))):
                res.extend(nw)
                i += len(o)
                k += 1
            else:
                res.append(c[i])
                i += 1
        return mkstr(res)

    # splitting
    def split(self, sep=None, maxsplit=-1):
        c = self.c
        res = []
        if sep is None:
            ws = is_ws()
            i = 0
            n = len(c)
            k = 0
            while True:
                while i < n and inset(c[i], ws):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and k >= maxsplit:
                    j = n
                    while j > i and inset(c[j - 1], ws):
                        j -= 1
                    res.append(mkstr(c[i:j]))
                    break
                j = i
                while j < n and not inset(c[j], ws):
                    j += 1
                res.append(mkstr(c[i:j]))
                k += 1
                i = j
            return res
        s = cs(sep)
        if not s:
            raise ValueError("empty separator")
        i = st = 0
        while i + len(s) <= len(c):
            if (maxsplit < 0 or len(res) < maxsplit) and \
                    Engine.current.branch(s_eq(SymStr(c[i:i + len(s)]), SymStr(s))):
                res.append(mkstr(c[st:i]))
                i += len(s)
                st = i
            else:
                i += 1
        res.append(mkstr(c[st:]))
        return res

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            rev = SymStr(self.c[::-1])
            return [x[::-1] for x in SymStr.split(rev, None, maxsplit)][::-1]
        s = cs(sep)
        res = []
        c = self.c
        i = en = len(c)
        while i - len(s) >= 0:
            if len(res) < maxsplit and Engine.current.branch(s_eq(SymStr(c[i - len(s):i]), SymStr(s))):
                res.append(mkstr(c[i:en]))
                i -= len(s)
                en = i
            else:
                i -= 1
        res.append(mkstr(c[:en]))
        return res[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        brk = IS.chars("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
        res = []
        c = self.c
        i = st = 0
        while i < len(c):
            if inset(c[i], brk):
                en = i
                if inset(c[i], IS.chars("\r")) and i + 1 < len(c) and inset(c[i + 1], IS.chars("\n")):
                    i += 1
                i += 1
                res.append(mkstr(c[st:i if keepends else en]))
                st = i
            else:
                i += 1
        if st < len(c):
            res.append(mkstr(c[st:]))
        return res

    def _strip(self, chars, left, right):
        c = self.c
        i, j = 0, len(c)
        if chars is None:
            test = lambda x: inset(x, is_ws())
        else:
            cc = cs(chars)
            consts = IS.of([x for x in cc if not isn(x)])
            syms = [x for x in cc if isn(x)]
            test = lambda x: Engine.current.branch(b_or(b_in(x, consts), *[b_eq(x, y) for y in syms]))
        if left:
            while i < j and test(c[i]):
                i += 1
        if right:
            while j > i and test(c[j - 1]):
                j -= 1
        return mkstr(c[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def join(self, it):
        return join(self, it)

    # padding
    def zfill(self, n):
        k = n - len(self.c)
        if k <= 0:
            return self
        if inset(self.c[0], IS.chars("+-")):
            return mkstr(self.c[:1] + (48,) * k + self.c[1:])
        return mkstr((48,) * k + self.c)

    def ljust(self, n, f=" "):
        return mkstr(self.c + cs(f) * max(0, n - len(self.c)))

    def rjust(self, n, f=" "):
        return mkstr(cs(f) * max(0, n - len(self.c)) + self.c)

    def center(self, n, f=" "):
        pad = max(0, n - len(self.c))
        left = pad // 2 + (pad & n & 1)
        return mkstr(cs(f) * left + self.c + cs(f) * (pad - left))

    # case
    def upper(self):
        return mkstr(sum((case_char('upper', x) for x in self.c), ()))

    def lower(self):
        return mkstr(sum((case_char('lower', x, len(self.c) == 1) for x in self.c), ()))

    def casefold(self):
        return mkstr(sum((case_char('casefold', x) for x in self.c), ()))

    def capitalize(self):
        return mkstr(case_char('title', self.c[0]) + sum((case_char('lower', x) for x in self.c[1:]), ()))

    def title(self):
        res = ()
        prev = False
        cased = _cased()
        for x in self.c:
            if prev:
                res += case_char('lower', x)
            else:
                res += case_char('title', x)
            prev = inset(x, cased)
        return mkstr(res)

    def swapcase(self):
        res = ()
        for x in self.c:
            if inset(x, str_is('isupper')):
                res += case_char('lower', x)
            elif inset(x, str_is('islower')):
                res += case_char('upper', x)
            else:
                res += (x,)
        return mkstr(res)

    def _all(self, name):
        return wb(b_and(*[b_in(x, str_is(name)) for x in self.c]))

    def isalpha(self):
        return self._all('isalpha')

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isprintable(self):
        return self._all('isprintable')

    def isascii(self):
        return wb(b_and(*[b_in(x, IS([(0, 127)])) for x in self.c]))

    def isupper(self):
        lo = str_is('islower') | _titlecase()
        up = str_is('isupper')
        return wb(b_and(b_or(*[b_in(x, up) for x in self.c]), *[b_not(b_in(x, lo)) for x in self.c]))

    def islower(self):
        up = str_is('isupper') | _titlecase()
        lo = str_is('islower')
        return wb(b_and(b_or(*[b_in(x, lo) for x in self.c]), *[b_not(b_in(x, up)) for x in self.c]))

    def istitle(self):
        return self.conc().istitle()

    def isidentifier(self):
        return self.conc().isidentifier()

    def encode(self, *a, **kw):
        return self.conc().encode(*a, **kw)

    def translate(self, table):
        res = ()
        for x in self.c:
            hit = None
            if isinstance(x, N):
                keys = IS.of([k for k in table.keys() if isinstance(k, int)])
                if not inset(x, keys):
                    res += (x,)
                    continue
                x = Engine.current.concretise(x, why='translate')
            v = table.get(x, x)
            if v is None:
                continue
            res += (v,) if isinstance(v, int) else cs(v)
        return mkstr(res)

    def expandtabs(self, n=8):
        return self.conc().expandtabs(n)

    def format(self, *a, **kw):
        from . import strfmt
        return strfmt.format_(self, a, kw)

    def format_map(self, m):
        from . import strfmt
        return strfmt.format_(self, (), m)


def _sum(xs):
    r = 0
    for x in xs:
        r = ir.n_add(r, x)
    return r


_cased_is = None


def _cased():
    global _cased_is
    if _cased_is is None:
        _cased_is = str_is('isupper') | str_is('islower') | _titlecase()
    return _cased_is


_tc = None


def _titlecase():
    global _tc
    if _tc is None:
        _tc = IS.chars("".join(c for c in tables.allchars() if unicodedata.category(c) == 'Lt'))
    return _tc


def join(sep, it):
    parts = list(it)
    res = []
    sc = cs(sep)
    for i, p in enumerate(parts):
        if not isstr(p):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(p).__name__))
        if i:
            res.extend(sc)
        res.extend(cs(p))
    return mkstr(res)


# ------------------------------------------------------------------ finite choices

class SymChoice(Sym):
    """A value that is a table function of one character expression: value -> IS."""
    __slots__ = ('e', 'tab')

    def __init__(self, e, tab):
        self.e = e
        self.tab = tab

    @staticmethod
    def make(e, table):
        en = Engine.current
        e = en.simp(e)
        d = en.dom(e)
        tab = []
        for v, s in table:
            if d is not None:
                s = s & d
            if s:
                tab.append((v, s))
        if not tab:
            raise Unsupported('empty choice')
        if len(tab) == 1:
            return _unexc(tab[0][0])
        vals = [v for v, s in tab]
        if all(isinstance(v, bool) for v in vals):
            t = None
            for v, s in tab:
                if v:
                    t = s if t is None else t | s
            return wb(b_in(e, t) if t is not None else False)
        if any(isinstance(v, tables.Exc) for v in vals):
            ex = [(v, s) for v, s in tab if isinstance(v, tables.Exc)]
            for v, s in ex:
                if en.branch(b_in(e, s)):
                    _unexc(v)
            return SymChoice.make(e, [(v, s) for v, s in tab if not isinstance(v, tables.Exc)])
        return SymChoice(e, tuple(tab))

    def live(self):
        en = Engine.current
        d = en.dom(self.e)
        if d is None:
            return self.tab
        return tuple((v, s & d) for v, s in self.tab if s & d)

    def lift(self, f):
        acc = {}
        un = []
        for v, s in self.live():
            try:
                r = f(v)
            except Exception as x:
                r = tables.Exc(type(x), x.args)
            if isinstance(r, Sym):
                return f(self.conc())
            try:
                k = (type(r), r)
                acc[k] = (acc[k] | s) if k in acc else s
            except TypeError:
                return f(self.conc())
        return SymChoice.make(self.e, [(k[1], s) for k, s in acc.items()])

    def isstr(self):
        return all(isinstance(v, str) for v, s in self.tab)

    def conc(self):
        en = Engine.current
        for v, s in sorted(self.live(), key=lambda x: -x[1].size()):
            if en.branch(b_in(self.e, s)):
                return v
        raise Unsupported('choice exhausted')

    def to_sym(self):
        """as SymInt/SymStr when possible without forking"""
        t = self.live()
        if all(isinstance(v, int) for v, s in t):
            r = t[-1][0]
            for v, s in t[:-1]:
                r = ir.n_ite(b_in(self.e, s), v, r)
            return wi(r)
        return self.conc()

    def __eq__(self, o):
        if isinstance(o, Sym):
            return self.conc() == o
        return self.lift(lambda v: v == o)

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        r = self.lift(lambda v: bool(v))
        return bool(r)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        vals = [v for v, s in self.tab]
        t = type(vals[0])
        if not hasattr(t, name):
            raise AttributeError(name)

        def meth(*a, **kw):
            if any(isinstance(x, Sym) for x in a):
                from .runtime import callm
                return callm(self.conc(), name, *a, **kw)
            return self.lift(lambda v: getattr(v, name)(*a, **kw))
        return meth

    def __len__(self):
        r = self.lift(len)
        return r.conc() if isinstance(r, SymChoice) else r

    def __iter__(self):
        return iter(self.conc())

    def __getitem__(self, i):
        if isinstance(i, Sym):
            return self.conc()[i]
        if isinstance(i, slice):
            return self.lift(lambda v: v[i])
        return self.lift(lambda v: v[i])

    def __contains__(self, o):
        return o in self.conc()

    def __add__(self, o):
        if isinstance(o, Sym) or not isinstance(o, (str, int)):
            return self.conc() + o
        return self.lift(lambda v: v + o)

    def __radd__(self, o):
        if isinstance(o, Sym) or not isinstance(o, (str, int)):
            return o + self.conc()
        return self.lift(lambda v: o + v)

    def _cmp(self, o, f):
        if isinstance(o, Sym):
            return f(self.conc(), o)
        return self.lift(lambda v: f(v, o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __index__(self):
        return self.conc().__index__()

    def __str__(self):
        return str(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __repr__(self):
        return "SymChoice(%s)" % ([v for v, s in self.tab],)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _unexc(v):
    if isinstance(v, tables.Exc):
        raise v.t(*v.args)
    return v


# ------------------------------------------------------------------ containers

def is_symkey(k):
    """does a hash key have symbolic content?"""
    if isinstance(k, Sym):
        return True
    t = type(k)
    if t is str or t is int or t is float or k is None:
        return False
    if isinstance(k, (tuple, frozenset)):
        return any(is_symkey(x) for x in k)
    h = getattr(t, '__sx_symkey__', None)
    if h is not None:
        return h(k)
    return False


def key_eq(a, b):
    """IR boolean (or bool): are the two keys equal"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return b_and(*[key_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        return s_eq(a, b)
    if isinstance(a, (SymStr, str)) != isinstance(b, (SymStr, str)) and \
            not isinstance(a, SymChoice) and not isinstance(b, SymChoice):
        return False
    return ub(a == b)


class _Missing(object):
    pass


MISSING = _Missing()


def _norm_key(k):
    if isinstance(k, SymChoice):
        return k.conc()
    return k


def find_key(k, concrete, bylen, symbolic):
    """Locate key k.  concrete: dict/set of concrete keys; symbolic: list of entries [key,...].
    Forks.  Returns (kind, key/entry) or None."""
    en = Engine.current
    if isinstance(k, SymStr):
        n = len(k)
        cands = bylen(n)
        if n == 1:
            c = k.c[0]
            keys = cands           # IS of code points
            hit = en.simpb(b_in(c, keys))
            if hit is not False and en.branch(hit):
                v = en.concretise(c, why='key')
                return ('c', chr(v))
        else:
            live = []
            for x in cands:
                e = en.simpb(s_eq(k, x))
                if e is True:
                    return ('c', x)
                if e is not False:
                    live.append((e, x))
            if live:
                if len(live) == 1 or en.branch(b_or(*[e for e, x in live])):
                    for e, x in live:
                        if en.branch(e):
                            return ('c', x)
    elif not is_symkey(k):
        if k in concrete:
            return ('c', k)
    else:
        for x in list(concrete):
            if en.branch(key_eq(k, x)):
                return ('c', x)
    for ent in symbolic:
        if en.branch(key_eq(ent[0], k)):
            return ('s', ent)
    return None


class _KeyIndex(object):
    """index of concrete str keys by length, rebuilt when the number of keys changes"""
    __slots__ = ('n', 'd', 'owner')

    def __init__(self):
        self.n = -1
        self.d = {}

    def get(self, keys, length):
        if self.n != len(keys):
            self.d = {}
            for k in keys:
                if type(k) is str:
                    self.d.setdefault(len(k), []).append(k)
            if 1 in self.d:
                self.d[1] = IS.of([ord(k) for k in self.d[1]])
            self.n = len(keys)
        return self.d.get(length, IS(()) if length == 1 else [])


class SymDict(dict):
    """dict; symbolic keys are kept in an ordered side list (then iteration uses _ord)."""

    def _st(self):
        return self.__dict__.get('_sx')

    def _symmode(self):
        """switch to ordered-entries mode; entries are [key, value]"""
        st = self.__dict__.get('_sx')
        if st is None:
            st = self.__dict__['_sx'] = [[k, dict.__getitem__(self, k)] for k in dict.keys(self)]
        return st

    def _locate(self, k):
        k = _norm_key(k)
        st = self.__dict__.get('_sx')
        if st is None:
            if not is_symkey(k):
                return None if not dict.__contains__(self, k) else ('c', k)
            idx = self.__dict__.get('_ki')
            if idx is None:
                idx = self.__dict__['_ki'] = _KeyIndex()
            ki = idx
            keys = dict.keys(self)
            # deletions + insertions of equal count would go unnoticed: invalidate in __delitem__
            return find_key(k, keys, lambda n: ki.get(keys, n), ())
        conc = {}
        syms = []
        for ent in st:
            if is_symkey(ent[0]):
                syms.append(ent)
            else:
                conc[ent[0]] = ent
        ki = _KeyIndex()
        r = find_key(k, conc, lambda n: ki.get(conc, n), syms)
        if r is None:
            return None
        return ('s', conc[r[1]] if r[0] == 'c' else r[1])

    def __contains__(self, k):
        return self._locate(k) is not None

    def contains(self, k):
        """membership without forking where possible"""
        k = _norm_key(k)
        st = self.__dict__.get('_sx')
        if not is_symkey(k) and st is None:
            return dict.__contains__(self, k)
        if isinstance(k, SymStr):
            parts = []
            sb = Engine.current.simpb
            keys = dict.keys(self) if st is None else [e[0] for e in st]
            if len(k) == 1:
                parts.append(sb(b_in(k.c[0], IS.of([ord(x) for x in keys if type(x) is str and len(x) == 1]))))
                keys = [x for x in keys if not isinstance(x, str)] if st is not None else ()
            for x in keys:
                if isinstance(x, (str, SymStr)) and len(x) == len(k):
                    parts.append(sb(s_eq(k, x)))
            return wb(b_or(*parts))
        return self._locate(k) is not None

    def __getitem__(self, k):
        if self.__dict__.get('_sx') is None and not isinstance(k, (Sym, tuple)):
            return dict.__getitem__(self, k)
        r = self._locate(k)
        if r is None:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return r[1][1] if r[0] == 's' else dict.__getitem__(self, r[1])

    def __setitem__(self, k, v):
        k = _norm_key(k)
        r = self._locate(k) if (is_symkey(k) or '_sx' in self.__dict__) else ('c', k)
        if r is None:
            if is_symkey(k) or '_sx' in self.__dict__:
                self._symmode().append([k, v])
                return
            dict.__setitem__(self, k, v)
        elif r[0] == 's':
            r[1][1] = v
        else:
            dict.__setitem__(self, r[1], v)

    def __delitem__(self, k):
        r = self._locate(k)
        if r is None:
            raise KeyError(k)
        if r[0] == 's':
            st = self._symmode()
            for i, e in enumerate(st):
                if e is r[1]:
                    del st[i]
                    break
        else:
            dict.__delitem__(self, r[1])
            self.__dict__.pop('_ki', None)

    def get(self, k, d=None):
        if isinstance(k, SymChoice) and '_sx' not in self.__dict__ and not isinstance(d, Sym):
            try:
                hash(d)
                return k.lift(lambda v: dict.get(self, v, d))
            except TypeError:
                pass
        r = self._locate(k)
        if r is None:
            return d
        return r[1][1] if r[0] == 's' else dict.__getitem__(self, r[1])

    def setdefault(self, k, d=None):
        r = self._locate(k)
        if r is None:
            self[k] = d
            return d
        return r[1][1] if r[0] == 's' else dict.__getitem__(self, r[1])

    def pop(self, k, *d):
        r = self._locate(k)
        if r is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = r[1][1] if r[0] == 's' else dict.__getitem__(self, r[1])
        self.__delitem__(r[1][0] if r[0] == 's' else r[1])
        return v

    def popitem(self):
        st = self.__dict__.get('_sx')
        if st is None:
            self.__dict__.pop('_ki', None)
            return dict.popitem(self)
        if not st:
            raise KeyError('popitem(): dictionary is empty')
        e = st.pop()
        return (e[0], e[1])

    def clear(self):
        self.__dict__.pop('_sx', None)
        self.__dict__.pop('_ki', None)
        dict.clear(self)

    def __len__(self):
        st = self.__dict__.get('_sx')
        return dict.__len__(self) if st is None else len(st)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        st = self.__dict__.get('_sx')
        return dict.__iter__(self) if st is None else iter([e[0] for e in st])

    def __reversed__(self):
        return iter(list(self)[::-1])

    def keys(self):
        st = self.__dict__.get('_sx')
        return dict.keys(self) if st is None else KeysView(self)

    def values(self):
        st = self.__dict__.get('_sx')
        return dict.values(self) if st is None else [e[1] for e in st]

    def items(self):
        st = self.__dict__.get('_sx')
        return dict.items(self) if st is None else [(e[0], e[1]) for e in st]

    def update(self, *a, **kw):
        for o in a:
            if hasattr(o, 'keys'):
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __init__(self, *a, **kw):
        dict.__init__(self)
        if a or kw:
            SymDict.update(self, *a, **kw)

    def copy(self):
        return SymDict(self)

    def __copy__(self):
        r = type(self).__new__(type(self))
        for k, v in self.__dict__.items():
            if k not in ('_sx', '_ki'):
                r.__dict__[k] = v
        for k in list(SymDict.keys(self)):
            SymDict.__setitem__(r, k, SymDict.__getitem__(self, k))
        return r

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        parts = []
        for k in list(self.keys()):
            x = SymDict._locate(self, k)
            r = SymDict._locate(o, k) if isinstance(o, SymDict) else (('c', k) if k in o else None)
            if r is None:
                return False
            ov = r[1][1] if r[0] == 's' else dict.__getitem__(o, r[1])
            sv = x[1][1] if x[0] == 's' else dict.__getitem__(self, x[1])
            if not (sv is ov or sv == ov):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r

    def __repr__(self):
        if '_sx' in self.__dict__:
            return "{" + ", ".join("%r: %r" % (k, v) for k, v in self._sx) + "}"
        return dict.__repr__(self)

    def __reduce_ex__(self, proto):
        d = {k: v for k, v in self.__dict__.items() if k not in ('_sx', '_ki')}
        return (_new_obj, (type(self),), d or None, None, iter([(k, SymDict.__getitem__(self, k)) for k in list(SymDict.keys(self))]))


def _new_obj(cls):
    return cls.__new__(cls)


class KeysView(list):
    """keys() of a dict with symbolic keys: ordered, with set operations"""
    def __init__(self, d):
        list.__init__(self, iter(d))
        self.d = d

    def __contains__(self, k):
        return k in self.d

    def _s(self):
        return SymSet(list(self))

    def __or__(self, o):
        return self._s() | SymSet(o)

    def __and__(self, o):
        return self._s() & SymSet(o)

    def __sub__(self, o):
        return self._s() - SymSet(o)

    def isdisjoint(self, o):
        return not len(self & o)

    def __eq__(self, o):
        return self._s() == SymSet(o)

    __hash__ = None


class SymSet(set):
    """set; as soon as a symbolic element is added, elements live in an ordered list of
    pairwise distinct elements."""

    def __init__(self, it=()):
        set.__init__(self)
        for x in it:
            SymSet.add(self, x)

    def _l(self):
        return self.__dict__.get('_sx')

    def _locate(self, k):
        k = _norm_key(k)
        st = self.__dict__.get('_sx')
        if st is None:
            if not is_symkey(k):
                return ('c', k) if set.__contains__(self, k) else None
            ki = _KeyIndex()
            return find_key(k, SymSet._native(self), lambda n: ki.get(SymSet._native(self), n), ())
        conc = {}
        syms = []
        for ent in st:
            if is_symkey(ent[0]):
                syms.append(ent)
            else:
                conc[ent[0]] = ent
        ki = _KeyIndex()
        r = find_key(k, conc, lambda n: ki.get(conc, n), syms)
        if r is None:
            return None
        return ('s', conc[r[1]] if r[0] == 'c' else r[1])

    def _native(self):
        return list(set.__iter__(self))

    def __contains__(self, k):
        return self._locate(k) is not None

    def contains(self, k):
        k = _norm_key(k)
        st = self.__dict__.get('_sx')
        if st is None and not is_symkey(k):
            return set.__contains__(self, k)
        if isinstance(k, SymStr):
            sb = Engine.current.simpb
            keys = SymSet._native(self) if st is None else [e[0] for e in st]
            parts = []
            if len(k) == 1:
                parts.append(sb(b_in(k.c[0], IS.of([ord(x) for x in keys if type(x) is str and len(x) == 1]))))
                keys = [x for x in keys if not isinstance(x, str)]
            for x in keys:
                if isinstance(x, (str, SymStr)) and len(x) == len(k):
                    parts.append(sb(s_eq(k, x)))
            return wb(b_or(*parts))
        return self._locate(k) is not None

    def add(self, k):
        k = _norm_key(k)
        st = self.__dict__.get('_sx')
        if st is None and not is_symkey(k):
            set.add(self, k)
            return
        if self._locate(k) is None:
            if st is None:
                st = self.__dict__['_sx'] = [[x] for x in SymSet._native(self)]
            st.append([k])

    def discard(self, k):
        r = self._locate(k)
        if r is None:
            return
        self._rm(r)

    def _rm(self, r):
        if r[0] == 's':
            st = self._sx
            for i, e in enumerate(st):
                if e is r[1]:
                    del st[i]
                    break
        else:
            set.discard(self, r[1])

    def remove(self, k):
        r = self._locate(k)
        if r is None:
            raise KeyError(k)
        self._rm(r)

    def pop(self):
        st = self.__dict__.get('_sx')
        if st is None:
            return set.pop(self)
        if not st:
            raise KeyError('pop from an empty set')
        return st.pop(0)[0]

    def clear(self):
        self.__dict__.pop('_sx', None)
        set.clear(self)

    def __len__(self):
        st = self.__dict__.get('_sx')
        return set.__len__(self) if st is None else len(st)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        st = self.__dict__.get('_sx')
        return set.__iter__(self) if st is None else iter([e[0] for e in st])

    def copy(self):
        return SymSet(self)

    def __copy__(self):
        r = type(self).__new__(type(self))
        for k, v in self.__dict__.items():
            if k != '_sx':
                r.__dict__[k] = v
        for x in SymSet.__iter__(self):
            SymSet.add(r, x)
        return r

    def __reduce_ex__(self, proto):
        d = {k: v for k, v in self.__dict__.items() if k != '_sx'}
        return (_new_set, (type(self), list(SymSet.__iter__(self))), d or None)

    def update(self, *its):
        for it in its:
            for x in list(it):
                SymSet.add(self, x)

    def union(self, *its):
        r = SymSet(self)
        r.update(*its)
        return r

    def intersection(self, *its):
        r = SymSet(self)
        for it in its:
            o = it if isinstance(it, SymSet) else SymSet(it)
            r = SymSet([x for x in r if SymSet.__contains__(o, x)])
        return r

    def difference(self, *its):
        r = SymSet(self)
        for it in its:
            o = it if isinstance(it, SymSet) else SymSet(it)
            r = SymSet([x for x in r if not SymSet.__contains__(o, x)])
        return r

    def symmetric_difference(self, it):
        o = it if isinstance(it, SymSet) else SymSet(it)
        return SymSet([x for x in self if not SymSet.__contains__(o, x)] +
                      [x for x in o if not SymSet.__contains__(self, x)])

    def _replace(self, o):
        self.clear()
        for x in list(o):
            SymSet.add(self, x)

    def intersection_update(self, *its):
        self._replace(self.intersection(*its))

    def difference_update(self, *its):
        self._replace(self.difference(*its))

    def symmetric_difference_update(self, it):
        self._replace(self.symmetric_difference(it))

    def _op(self, o, f):
        if not isinstance(o, (set, frozenset, KeysView, type({}.keys()))):
            return NotImplemented
        return f(o)

    def __or__(self, o):
        return self._op(o, self.union)
    def __ror__(self, o):
        return self._op(o, lambda x: SymSet(x).union(self))

    def __and__(self, o):
        return self._op(o, self.intersection)
    __rand__ = __and__

    def __sub__(self, o):
        return self._op(o, self.difference)

    def __rsub__(self, o):
        return self._op(o, lambda x: SymSet(x).difference(self))

    def __xor__(self, o):
        return self._op(o, self.symmetric_difference)
    __rxor__ = __xor__

    def __ior__(self, o):
        if self._op(o, lambda x: True) is NotImplemented:
            return NotImplemented
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(SymSet.__contains__(o, x) for x in self)

    def issuperset(self, o):
        return all(SymSet.__contains__(self, x) for x in o)

    def isdisjoint(self, o):
        return not any(SymSet.__contains__(self, x) for x in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self._op(o, self.issubset)

    def __ge__(self, o):
        return self._op(o, self.issuperset)

    def __lt__(self, o):
        return self._op(o, lambda x: len(self) < len(x) and self.issubset(x))

    def __gt__(self, o):
        return self._op(o, lambda x: len(self) > len(x) and self.issuperset(x))

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}"


def _new_set(cls, items):
    r = cls.__new__(cls)
    for x in items:
        SymSet.add(r, x)
    return r


class SymFrozenSet(SymSet):
    """frozenset stand-in (hashable by structure)"""
    def __hash__(self):
        return hash(frozenset(self))


def has_sym(v, depth=6):
    """does a value (deeply, through plain containers) contain symbolic parts?"""
    if isinstance(v, Sym):
        return True
    if depth <= 0:
        return False
    if isinstance(v, (str, bytes, int, float, type(None))):
        return False
    if isinstance(v, (SymDict, SymSet)) and '_sx' in v.__dict__:
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth - 1) for x in v)
    if isinstance(v, dict):
        return any(has_sym(x, depth - 1) for x in v.values()) or any(has_sym(x, depth - 1) for x in v.keys())
    return False


def deep_conc(v):
    if isinstance(v, SymStr):
        return v.conc()
    if isinstance(v, SymInt):
        x = Engine.current.concretise(v.e)
        return float(x) if isinstance(x, Fraction) else x
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, SymChoice):
        return v.conc()
    if type(v) is list:
        return [deep_conc(x) for x in v]
    if type(v) is tuple:
        return tuple(deep_conc(x) for x in v)
    if type(v) in (SymDict, dict):
        return {deep_conc(k): deep_conc(x) for k, x in v.items()}
    if type(v) in (SymSet, set):
        return {deep_conc(x) for x in v}
    return v
