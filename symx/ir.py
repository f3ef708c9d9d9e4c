"""Expression IR of the symbolic executor: interval sets, integer and boolean nodes.

Nodes are hash-consed.  They translate to z3 (integers as mathematical Int, which is what
Python ints and code points are) and can be evaluated directly under a model (dict name->int).
"""
from bisect import bisect_right
import z3

MAXCP = 0x10FFFF
_and_memo = {}
_or_memo = {}
_sub_memo = {}


_weight = [0]


def _memo(t, k, r):
    _weight[0] += len(r.iv) + 8
    if _weight[0] > 3000000:
        _and_memo.clear()
        _or_memo.clear()
        _sub_memo.clear()
        IS._cache.clear()
        _weight[0] = 0
    t[k] = r
    return r


class IS(object):
    """Immutable set of integers as sorted disjoint closed intervals."""
    __slots__ = ('iv', '_los', '_h')
    _cache = {}

    def __new__(cls, iv):
        iv = tuple(iv)
        r = cls._cache.get(iv)
        if r is None:
            r = object.__new__(cls)
            r.iv = iv
            r._los = [a for a, b in iv]
            r._h = hash(iv)
            if len(cls._cache) > 200000:
                cls._cache.clear()
            cls._cache[iv] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, IS) and self.iv == o.iv)

    def __contains__(self, v):
        i = bisect_right(self._los, v) - 1
        return i >= 0 and v <= self.iv[i][1]

    def __bool__(self):
        return bool(self.iv)

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def __and__(self, o):
        k = (self, o)
        r = _and_memo.get(k)
        if r is None:
            r = _memo(_and_memo, k, self._and(o))
        return r

    def _and(self, o):
        a, b = self.iv, o.iv
        if len(a) > len(b):
            a, b = b, a
            o, self = self, o
        res = []
        if len(a) * 8 < len(b):
            los = o._los
            for lo, hi in a:
                j = max(bisect_right(los, lo) - 1, 0)
                while j < len(b) and b[j][0] <= hi:
                    l, h = max(lo, b[j][0]), min(hi, b[j][1])
                    if l <= h:
                        res.append((l, h))
                    j += 1
            return IS(res)
        i = j = 0
        while i < len(a) and j < len(b):
            l, h = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
            if l <= h:
                res.append((l, h))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        return IS(res)

    def __or__(self, o):
        k = (self, o)
        r = _or_memo.get(k)
        if r is None:
            r = _memo(_or_memo, k, IS.norm(self.iv + o.iv))
        return r

    @staticmethod
    def norm(iv):
        res = []
        for a, b in sorted(iv):
            if res and a <= res[-1][1] + 1:
                if b > res[-1][1]:
                    res[-1] = (res[-1][0], b)
            else:
                res.append((a, b))
        return IS(res)

    @staticmethod
    def of(vals):
        return IS.norm([(v, v) for v in vals])

    @staticmethod
    def chars(s):
        return IS.norm([(ord(c), ord(c)) for c in s])

    def __sub__(self, o):
        k = (self, o)
        r = _sub_memo.get(k)
        if r is None:
            r = _memo(_sub_memo, k, self._sub(o))
        return r

    def _sub(self, o):
        res = []
        for a, b in self.iv:
            cur = a
            i = max(bisect_right(o._los, a) - 1, 0)
            while i < len(o.iv) and o.iv[i][0] <= b:
                l, h = o.iv[i]
                if h >= cur:
                    if l > cur:
                        res.append((cur, l - 1))
                    cur = max(cur, h + 1)
                i += 1
            if cur <= b:
                res.append((cur, b))
        return IS(res)

    def shift(self, k):
        return IS([(a + k, b + k) for a, b in self.iv])

    def min(self):
        return self.iv[0][0]

    def max(self):
        return self.iv[-1][1]

    def single(self):
        return len(self.iv) == 1 and self.iv[0][0] == self.iv[0][1]

    def values(self):
        for a, b in self.iv:
            for v in range(a, b + 1):
                yield v

    def __repr__(self):
        return "IS(%s)" % (",".join("%x-%x" % x for x in self.iv[:6]) + ("..." if len(self.iv) > 6 else ""))


def unary(n):
    """(variable name, IS) when n constrains exactly one int variable by membership, else None"""
    op = n.op
    if op == 'in':
        e = n.args[0]
        return (e.args[0], n.args[1]) if e.op == 'var' else None
    if op == 'not':
        u = unary(n.args[0])
        return (u[0], IS_INT - u[1]) if u is not None else None
    if op in ('and', 'or'):
        if len(n.vars) != 1:
            return None
        acc = None
        for x in n.args:
            u = unary(x)
            if u is None:
                return None
            acc = u[1] if acc is None else (acc & u[1] if op == 'and' else acc | u[1])
        return (next(iter(n.vars)), acc)
    return None


_zdom = {}


def z_dom(name, s):
    """z3 term: integer variable name is in s"""
    k = (name, s)
    r = _zdom.get(k)
    if r is None:
        if len(_zdom) > 30000:
            _zdom.clear()
        r = _zdom[k] = z_in(z3.Int(name), s)
    return r


IS_ALL = IS([(0, 0xD7FF), (0xE000, MAXCP)])
IS_ANYCP = IS([(0, MAXCP)])
INF = 1 << 80
IS_INT = IS([(-INF, INF)])

_cons = {}


def cons_size():
    return len(_cons)


def cons_clear():
    _cons.clear()


class N(object):
    """A hash-consed node. sort: 'i' int, 'r' real, 'b' bool."""
    __slots__ = ('op', 'args', 'sort', '_z', 'vars')

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(str, self.args)))


def node(op, args, sort):
    # 1 == 1.0 == True hash alike: types go in the key of constants only where they matter
    key = (op, sort) + tuple((id(a) if isinstance(a, N) else a) for a in args)
    r = _cons.get(key)
    if r is None:
        r = object.__new__(N)
        r.op, r.args, r.sort, r._z = op, args, sort, None
        vs = frozenset()
        if op == 'var':
            vs = frozenset([args[0]])
        else:
            for a in args:
                if isinstance(a, N):
                    vs = vs | a.vars
        r.vars = vs
        _cons[key] = r
    return r


def var(name, sort='i'):
    return node('var', (name,), sort)


def isn(x):
    return isinstance(x, N)


def sort_of(x):
    if isinstance(x, N):
        return x.sort
    return 'i' if isinstance(x, int) else 'r'


def _num(x):
    return x


def n_add(a, b):
    if not isn(a) and not isn(b):
        return a + b
    if not isn(a):
        a, b = b, a
    if not isn(b):
        if b == 0 and (a.sort == 'r' or isinstance(b, int)):
            return a
        if a.op == 'add' and not isn(a.args[1]):
            return n_add(a.args[0], a.args[1] + b)
    s = 'r' if 'r' in (sort_of(a), sort_of(b)) else 'i'
    return node('add', (a, b), s)


def n_neg(a):
    return n_mul(a, -1)


def n_sub(a, b):
    if not isn(b):
        return n_add(a, -b)
    if a is b:
        return 0
    return n_add(a, n_neg(b))


def n_mul(a, b):
    if not isn(a) and not isn(b):
        return a * b
    if not isn(a):
        a, b = b, a
    if not isn(b):
        if b == 1 and isinstance(b, int):
            return a
        if b == 0 and isinstance(b, int):
            return 0
        if a.op == 'mul' and not isn(a.args[1]):
            return n_mul(a.args[0], a.args[1] * b)
    s = 'r' if 'r' in (sort_of(a), sort_of(b)) else 'i'
    return node('mul', (a, b), s)


def n_div(a, k):
    """floor division by a positive int constant"""
    if not isn(a):
        return a // k
    if k == 1:
        return a
    return node('fdiv', (a, k), 'i')


def n_mod(a, k):
    if not isn(a):
        return a % k
    if k == 1:
        return 0
    return node('mod', (a, k), 'i')


def n_dig(a, k, base, upper):
    """character code of digit k (base**k place) of a non-negative int"""
    if not isn(a):
        d = (a // base ** k) % base
        return d + 48 if d < 10 else d - 10 + (65 if upper else 97)
    return node('dig', (a, k, base, bool(upper) and base > 10), 'i')


def n_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if not isn(a) and not isn(b) and a == b and type(a) == type(b):
        return a
    if a is b:
        return a
    s = 'r' if 'r' in (sort_of(a), sort_of(b)) else 'i'
    return node('ite', (c, a, b), s)


def b_not(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    return node('not', (a,), 'b')


def b_and(*xs):
    res = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if x.op == 'and':
            res.extend(y for y in x.args if y not in res)
        elif x not in res:
            res.append(x)
    if not res:
        return True
    if len(res) == 1:
        return res[0]
    return node('and', tuple(res), 'b')


def b_or(*xs):
    res = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if x.op == 'or':
            res.extend(y for y in x.args if y not in res)
        elif x not in res:
            res.append(x)
    if not res:
        return False
    if len(res) == 1:
        return res[0]
    # merge memberships of one variable
    ins = {}
    other = []
    for x in res:
        if x.op == 'in':
            ins.setdefault(x.args[0], []).append(x.args[1])
        else:
            other.append(x)
    if len(ins) + len(other) < len(res):
        out = list(other)
        for e, ss in ins.items():
            s = ss[0]
            for t in ss[1:]:
                s = s | t
            out.append(node('in', (e, s), 'b'))
        if len(out) == 1:
            return out[0]
        return node('or', tuple(out), 'b')
    return node('or', tuple(res), 'b')


def b_in(e, s):
    if not isn(e):
        return e in s
    if not s:
        return False
    if e.op == 'add' and not isn(e.args[1]) and isinstance(e.args[1], int):
        return b_in(e.args[0], s.shift(-e.args[1]))
    if e.op == 'ite' and e.sort == 'i':
        c, a, b = e.args
        return b_or(b_and(c, b_in(a, s)), b_and(b_not(c), b_in(b, s)))
    return node('in', (e, s), 'b')


def b_eq(a, b):
    if not isn(a) and not isn(b):
        return a == b
    if a is b:
        return True
    if not isn(a):
        a, b = b, a
    if not isn(b) and a.sort == 'i':
        if isinstance(b, int):
            return b_in(a, IS([(b, b)]))
        if b != int(b):
            return False
        return b_in(a, IS([(int(b), int(b))]))
    if isn(b) and id(b) < id(a):
        a, b = b, a
    return node('eq', (a, b), 'b')


def b_le(a, b):
    if not isn(a) and not isn(b):
        return a <= b
    if a is b:
        return True
    if not isn(b) and isinstance(b, int) and a.sort == 'i':
        return b_in(a, IS([(-INF, b)]))
    if not isn(a) and isinstance(a, int) and b.sort == 'i':
        return b_in(b, IS([(a, INF)]))
    return node('le', (a, b), 'b')


def b_lt(a, b):
    return b_not(b_le(b, a)) if (isn(a) or isn(b)) else a < b


def b_iff(a, b):
    if isinstance(a, bool):
        return b if a else b_not(b)
    if isinstance(b, bool):
        return a if b else b_not(a)
    if a is b:
        return True
    return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))


# ---------------------------------------------------------------- evaluation

def ev(n, m):
    if not isinstance(n, N):
        return n
    op = n.op
    a = n.args
    if op == 'var':
        return m[a[0]]
    if op == 'in':
        return ev(a[0], m) in a[1]
    if op == 'and':
        for x in a:
            if not ev(x, m):
                return False
        return True
    if op == 'or':
        for x in a:
            if ev(x, m):
                return True
        return False
    if op == 'not':
        return not ev(a[0], m)
    if op == 'eq':
        return ev(a[0], m) == ev(a[1], m)
    if op == 'le':
        return ev(a[0], m) <= ev(a[1], m)
    if op == 'add':
        return ev(a[0], m) + ev(a[1], m)
    if op == 'mul':
        return ev(a[0], m) * ev(a[1], m)
    if op == 'fdiv':
        return ev(a[0], m) // a[1]
    if op == 'mod':
        return ev(a[0], m) % a[1]
    if op == 'ite':
        return ev(a[1], m) if ev(a[0], m) else ev(a[2], m)
    if op == 'dig':
        return n_dig(ev(a[0], m), a[1], a[2], a[3])
    if op == 'bvar':
        return bool(m[a[0]])
    raise AssertionError(op)


# ---------------------------------------------------------------- z3

def z_in(z, s):
    parts = []
    for a, b in s.iv:
        if a == b:
            parts.append(z == a)
        elif a <= -INF and b >= INF:
            return z3.BoolVal(True)
        elif a <= -INF:
            parts.append(z <= b)
        elif b >= INF:
            parts.append(z >= a)
        else:
            parts.append(z3.And(z >= a, z <= b))
    if not parts:
        return z3.BoolVal(False)
    if len(parts) == 1:
        return parts[0]
    return z3.Or(parts)


def _zc(x):
    if isinstance(x, N):
        return z(x)
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    from fractions import Fraction
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def _zr(x):
    """z3 term, promoted to Real"""
    t = _zc(x)
    if z3.is_int(t):
        if isinstance(x, N):
            return z3.ToReal(t)
        return z3.RealVal(x)
    return t


def z(n):
    if not isinstance(n, N):
        return _zc(n)
    if n._z is not None:
        return n._z
    op, a = n.op, n.args
    if op == 'var':
        r = z3.Int(a[0]) if n.sort == 'i' else z3.Real(a[0])
    elif op == 'in':
        zz = z(a[0])
        s = a[1]
        lo = -INF
        comp = IS([(-INF, INF)]) - s
        if len(comp.iv) < len(s.iv):
            r = z3.Not(z_in(zz, comp))
        else:
            r = z_in(zz, s)
    elif op == 'and':
        r = z3.And([z(x) for x in a])
    elif op == 'or':
        r = z3.Or([z(x) for x in a])
    elif op == 'not':
        r = z3.Not(z(a[0]))
    elif op in ('eq', 'le', 'add', 'mul'):
        if sort_of(a[0]) == 'r' or sort_of(a[1]) == 'r':
            x, y = _zr(a[0]), _zr(a[1])
        else:
            x, y = _zc(a[0]), _zc(a[1])
        r = {'eq': lambda: x == y, 'le': lambda: x <= y,
             'add': lambda: x + y, 'mul': lambda: x * y}[op]()
    elif op == 'fdiv':
        r = z(a[0]) / a[1]
    elif op == 'mod':
        r = z(a[0]) % a[1]
    elif op == 'ite':
        if n.sort == 'r':
            r = z3.If(z(a[0]), _zr(a[1]), _zr(a[2]))
        else:
            r = z3.If(z(a[0]), _zc(a[1]), _zc(a[2]))
    elif op == 'dig':
        d = (z(a[0]) / (a[2] ** a[1])) % a[2]
        if a[2] <= 10:
            r = d + 48
        else:
            r = z3.If(d < 10, d + 48, d + ((65 if a[3] else 97) - 10))
    else:
        raise AssertionError(op)
    n._z = r
    return r
