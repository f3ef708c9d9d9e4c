"""Regular expressions over symbolic strings: an interpreter of the sre parse tree that forks
on symbolic character tests.  Character classes are tabulated with the real re module."""
import re
import re._parser as sp
import re._constants as sc
from . import ir, tables
from .ir import IS, b_in, b_not, b_or, b_and, b_eq, isn
from .engine import Engine, Unsupported
from .values import SymStr, Sym, SymChoice, mkstr, cs, isstr, s_eq

SINGLE = {sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN}


def cls_text(op, av):
    if op is sc.LITERAL:
        return re.escape(chr(av))
    if op is sc.NOT_LITERAL:
        return '[^' + re.escape(chr(av)) + ']'
    if op is sc.ANY:
        return '.'
    out = []
    neg = False
    for o, a in av:
        if o is sc.NEGATE:
            neg = True
        elif o is sc.LITERAL:
            out.append(re.escape(chr(a)))
        elif o is sc.RANGE:
            out.append(re.escape(chr(a[0])) + '-' + re.escape(chr(a[1])))
        elif o is sc.CATEGORY:
            out.append({sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s',
                        sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[a])
        else:
            raise Unsupported('regex set item %s' % o)
    return '[' + ('^' if neg else '') + "".join(out) + ']'


_single = {}


def single_set(op, av, flags):
    key = (op, repr(av), int(flags) & (re.I | re.S | re.A))
    r = _single.get(key)
    if r is None:
        simple = not (flags & re.I)
        if simple and op is sc.LITERAL:
            r = IS([(av, av)])
        elif simple and op is sc.NOT_LITERAL:
            r = ir.IS_ANYCP - IS([(av, av)])
        elif simple and op is sc.IN and all(o in (sc.NEGATE, sc.LITERAL, sc.RANGE) for o, a in av):
            r = IS.norm([(a, a) if o is sc.LITERAL else (a[0], a[1]) for o, a in av if o is not sc.NEGATE])
            if any(o is sc.NEGATE for o, a in av):
                r = ir.IS_ANYCP - r
        else:
            r = tables.charset_re(cls_text(op, av), int(flags) & (re.I | re.S | re.A))
        _single[key] = r
    return r


class Matcher(object):
    def __init__(self, pat, s):
        self.pat = pat
        self.c = cs(s)
        self.n = len(self.c)

    def test(self, i, iset):
        return Engine.current.branch(b_in(self.c[i], iset))

    def run(self, items, k, i, flags, g, cont):
        """match items[k:] at i with groups g; cont(i, g) continues"""
        while True:
            if k >= len(items):
                return cont(i, g)
            op, av = items[k]
            if op in SINGLE:
                if i < self.n and self.test(i, single_set(op, av, flags)):
                    i += 1
                    k += 1
                    continue
                return None
            if op is sc.AT:
                if not self.at(av, i, flags):
                    return None
                k += 1
                continue
            break
        nxt = lambda j, gg: self.run(items, k + 1, j, flags, gg, cont)
        if op is sc.SUBPATTERN:
            grp, addf, delf, p = av
            f2 = (flags | addf) & ~delf
            if grp is None:
                return self.run(list(p), 0, i, f2, g, nxt)

            def close(j, gg):
                gg = dict(gg)
                gg[grp] = (i, j)
                gg['last'] = grp
                return nxt(j, gg)
            return self.run(list(p), 0, i, f2, g, close)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, i, flags, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.POSSESSIVE_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            hi = self.n + 1 if hi is sc.MAXREPEAT else hi
            if len(p) == 1 and p[0][0] in SINGLE:
                iset = single_set(p[0][0], p[0][1], flags)
                if op is sc.MIN_REPEAT:
                    j = i
                    cnt = 0
                    while cnt < lo:
                        if j >= self.n or not self.test(j, iset):
                            return None
                        j += 1
                        cnt += 1
                    while True:
                        r = nxt(j, g)
                        if r is not None:
                            return r
                        if cnt >= hi or j >= self.n or not self.test(j, iset):
                            return None
                        j += 1
                        cnt += 1
                j = i
                while j - i < hi and j < self.n and self.test(j, iset):
                    j += 1
                if j - i < lo:
                    return None
                if op is sc.POSSESSIVE_REPEAT:
                    return nxt(j, g)
                while j - i >= lo:
                    r = nxt(j, g)
                    if r is not None:
                        return r
                    j -= 1
                return None
            if op is sc.POSSESSIVE_REPEAT:
                raise Unsupported('possessive group repeat')

            def rep(cnt, j, gg):
                def more():
                    if cnt >= hi:
                        return None

                    def after(j2, g2):
                        if j2 == j and cnt >= lo:
                            return None
                        return rep(cnt + 1, j2, g2)
                    return self.run(p, 0, j, flags, gg, after)
                if cnt < lo:
                    return more()
                if op is sc.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(j, gg)
                r = nxt(j, gg)
                return r if r is not None else more()
            return rep(0, i, g)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, p = av
            p = list(p)
            if d > 0:
                r = self.run(p, 0, i, flags, g, lambda j, gg: (j, gg))
            else:
                lo, hi = av[1].getwidth()
                r = None
                st = i - lo
                if st >= 0:
                    r = self.run(p, 0, st, flags, g, lambda j, gg: (j, gg) if j == i else None)
            if op is sc.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        if op is sc.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if flags & re.I:
                raise Unsupported('ignorecase backreference')
            L = b - a
            if i + L > self.n:
                return None
            if Engine.current.branch(s_eq(SymStr(self.c[a:b]), SymStr(self.c[i:i + L]))):
                return nxt(i + L, g)
            return None
        if op is sc.GROUPREF_EXISTS:
            grp, yes, no = av
            p = yes if grp in g else no
            return self.run(list(p) if p else [], 0, i, flags, g, nxt)
        if op is getattr(sc, 'ATOMIC_GROUP', None):
            r = self.run(list(av), 0, i, flags, g, lambda j, gg: (j, gg))
            return nxt(*r) if r is not None else None
        raise Unsupported('regex op %s' % op)

    def word(self, i, flags):
        if i < 0 or i >= self.n:
            return False
        return self.test(i, single_set(sc.IN, [(sc.CATEGORY, sc.CATEGORY_WORD)], flags))

    def at(self, av, i, flags):
        nl = IS([(10, 10)])
        if av is sc.AT_BEGINNING:
            if flags & re.M:
                return i == 0 or self.test(i - 1, nl)
            return i == 0
        if av is sc.AT_BEGINNING_STRING:
            return i == 0
        if av is sc.AT_END:
            if flags & re.M:
                return i == self.n or self.test(i, nl)
            return i == self.n or (i == self.n - 1 and self.test(i, nl))
        if av is sc.AT_END_STRING:
            return i == self.n
        if av is sc.AT_BOUNDARY:
            return self.word(i - 1, flags) != self.word(i, flags)
        if av is sc.AT_NON_BOUNDARY:
            return self.word(i - 1, flags) == self.word(i, flags)
        raise Unsupported('regex at %s' % av)


class SymMatch(object):
    def __init__(self, pat, s, start, end, g, pos=0):
        self.re = pat
        self.string = s
        self._g = {k: v for k, v in g.items() if k != 'last'}
        self._g[0] = (start, end)
        self.lastindex = g.get('last')
        self.pos = pos
        self.endpos = len(s)

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def _num(self, k):
        if isinstance(k, str):
            return self.re.groupindex[k]
        if not 0 <= k <= self.re.groups:
            raise IndexError("no such group")
        return k

    def span(self, k=0):
        return self._g.get(self._num(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _get(self, k, d=None):
        k = self._num(k)
        if k not in self._g:
            return d
        a, b = self._g[k]
        return self.string[a:b]

    def group(self, *ks):
        if not ks:
            return self._get(0)
        if len(ks) == 1:
            return self._get(ks[0])
        return tuple(self._get(k) for k in ks)

    def __getitem__(self, k):
        return self._get(k)

    def groups(self, d=None):
        return tuple(self._get(k, d) for k in range(1, self.re.groups + 1))

    def groupdict(self, d=None):
        return {n: self._get(k, d) for n, k in self.re.groupindex.items()}

    def expand(self, tmpl):
        return self.re._expand(tmpl, self)

    def __bool__(self):
        return True


class SymPattern(object):
    def __init__(self, pattern, flags=0):
        self.real = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
        self.pattern = self.real.pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex
        self._tree = None

    @property
    def tree(self):
        if self._tree is None:
            t = sp.parse(self.pattern, self.flags & ~re.U if isinstance(self.pattern, str) else self.flags)
            self._tree = (list(t), t.state.flags | (self.flags & (re.I | re.M | re.S | re.X)))
        return self._tree

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _try(self, s, i, full=False):
        items, flags = self.tree
        m = Matcher(self, s)

        def cont(j, g):
            if full and j != m.n:
                return None
            return (j, g)
        return m.run(items, 0, i, flags, {}, cont)

    def _s(self, s):
        if isinstance(s, SymChoice):
            return s.conc()
        if not isinstance(s, (str, SymStr)):
            raise TypeError("expected string or bytes-like object, got '%s'" % type(s).__name__)
        return s

    def match(self, s, pos=0, endpos=None):
        s = self._s(s)
        if isinstance(s, str):
            return self.real.match(s, pos) if endpos is None else self.real.match(s, pos, endpos)
        if endpos is not None:
            s = s[:endpos]
        r = self._try(s, pos)
        return SymMatch(self, s, pos, r[0], r[1]) if r is not None else None

    def fullmatch(self, s, pos=0, endpos=None):
        s = self._s(s)
        if isinstance(s, str):
            return self.real.fullmatch(s, pos) if endpos is None else self.real.fullmatch(s, pos, endpos)
        if endpos is not None:
            s = s[:endpos]
        r = self._try(s, pos, True)
        return SymMatch(self, s, pos, r[0], r[1]) if r is not None else None

    def search(self, s, pos=0, endpos=None):
        s = self._s(s)
        if isinstance(s, str):
            return self.real.search(s, pos) if endpos is None else self.real.search(s, pos, endpos)
        if endpos is not None:
            s = s[:endpos]
        for i in range(pos, len(s) + 1):
            r = self._try(s, i)
            if r is not None:
                return SymMatch(self, s, i, r[0], r[1])
        return None

    def finditer(self, s, pos=0):
        s = self._s(s)
        if isinstance(s, str):
            yield from self.real.finditer(s, pos)
            return
        start = pos
        n = len(s)
        must = False
        items, flags = self.tree
        while True:
            i = start
            hit = None
            while i <= n:
                m = Matcher(self, s)
                req = must and i == start

                def cont(j, g, i=i, req=req):
                    if req and j == i:
                        return None
                    return (j, g)
                hit = m.run(items, 0, i, flags, {}, cont)
                if hit is not None:
                    break
                i += 1
            if hit is None:
                return
            j, g = hit
            yield SymMatch(self, s, i, j, g)
            must = (j == i)
            start = j

    def findall(self, s, pos=0):
        s = self._s(s)
        if isinstance(s, str):
            return self.real.findall(s, pos)
        res = []
        for m in self.finditer(s, pos):
            if self.groups == 0:
                res.append(m.group(0))
            elif self.groups == 1:
                res.append(m._get(1, ""))
            else:
                res.append(m.groups(""))
        return res

    def split(self, s, maxsplit=0):
        s = self._s(s)
        if isinstance(s, str):
            return self.real.split(s, maxsplit)
        res = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            res.append(s[last:m.start()])
            res.extend(m.groups())
            last = m.end()
            n += 1
        res.append(s[last:])
        return res

    def _expand(self, repl, m):
        if isinstance(repl, SymStr):
            if Engine.current.branch(b_or(*[b_eq(x, 92) for x in repl.c])):
                repl = repl.conc()
            else:
                return repl
        if '\\' not in repl:
            return repl
        t = sp.parse_template(repl, self.real)
        res = ""
        for x in t:
            if isinstance(x, int):
                res = res + (m._get(x, "") if isinstance(m, SymMatch) else (m.group(x) or ""))
            elif x is not None and x != '':
                res = res + x
        return res

    def subn(self, repl, s, count=0):
        s = self._s(s)
        if isinstance(count, re.RegexFlag):
            count = int(count)
        fn = repl
        if callable(repl) and not isinstance(repl, Sym):
            from .runtime import call
            fn = lambda m: call(repl, m)
        else:
            fn = lambda m: self._expand(repl, m)
            if isinstance(s, str) and isinstance(repl, str):
                return self.real.subn(repl, s, count)
        res = ()
        last = 0
        n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            res += cs(s[last:m.start()])
            x = fn(m)
            if x is None:
                x = ""
            if not isstr(x):
                raise TypeError("expected str instance, %s found" % type(x).__name__)
            res += cs(x)
            last = m.end()
            n += 1
        res += cs(s[last:])
        return mkstr(res), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def __repr__(self):
        return repr(self.real)


_pcache = {}


def compile_(pattern, flags=0):
    if isinstance(pattern, SymPattern):
        return pattern
    if isinstance(pattern, Sym):
        pattern = pattern.conc()
    if isinstance(pattern, bytes) or (isinstance(pattern, re.Pattern) and isinstance(pattern.pattern, bytes)):
        return re.compile(pattern, flags)
    k = (pattern, int(flags))
    r = _pcache.get(k)
    if r is None:
        r = _pcache[k] = SymPattern(pattern, flags)
    return r


def m_match(p, s, flags=0):
    return compile_(p, flags).match(s)


def m_fullmatch(p, s, flags=0):
    return compile_(p, flags).fullmatch(s)


def m_search(p, s, flags=0):
    return compile_(p, flags).search(s)


def m_findall(p, s, flags=0):
    return compile_(p, flags).findall(s)


def m_finditer(p, s, flags=0):
    return compile_(p, flags).finditer(s)


def m_split(p, s, maxsplit=0, flags=0):
    return compile_(p, flags).split(s, maxsplit)


def m_sub(p, repl, s, count=0, flags=0):
    return compile_(p, flags).sub(repl, s, int(count))


def m_subn(p, repl, s, count=0, flags=0):
    return compile_(p, flags).subn(repl, s, int(count))


def m_escape(s):
    if isinstance(s, SymStr):
        special = IS.of(re._special_chars_map.keys())
        res = ()
        for x in s.c:
            if Engine.current.branch(b_in(x, special)):
                res += (92, x)
            else:
                res += (x,)
        return mkstr(res)
    return re.escape(s)
