"""A sequence of unicode sets parses to the sets it denotes."""
from sldr import UnicodeSets as US

PROPERTY = 'U03'
BOUNDS = ("sequences of up to 2 sets (thorough 3) of up to 3 members (thorough 4); members: a character, an escaped "
          "character, \\x, \\u and \\U hex escapes, a range of up to 3 characters, a {string} of up to 2 (escaped) "
          "characters; optional negation and blanks between members; characters are any Unicode scalar value")
ASSUMPTIONS = ["property sets, variables and set operators between nested sets are outside (the parser documents that "
               "it does not handle them)"]
COVERS = ['range', 'string', 'hex', 'escape', 'negated']
SYNTAX = "[]{}\\&-|^$:() "
SIMPLE = {'a': "\u0007", 'b': "\u0008", 't': "\u0009", 'n': "\u000A", 'v': "\u000B", 'f': "\u000C", 'r': "\u000D"}
KINDS = "cexuUrs"


def cases(tier):
    r = []
    for k in KINDS:
        r.append(k)
        r.append("^" + k)
        for l in KINDS:
            r.append(k + l)
            if tier == 'thorough':
                for m in KINDS:
                    r.append(k + l + m)
    r += ["c,c", "cc,e", "s,c", "r,s", "ce,^u", "!c", "!cc", "!ec", "!uc", "!s,c"]
    return r


def member(x, nm, k):
    """text and the strings it denotes"""
    if k == 'c':
        c = x.char(nm)
        x.assume(x.not_(x.isin(c, SYNTAX)))
        return c, [c]
    if k == 'e':
        c = x.char(nm)
        x.assume(x.not_(x.isin(c, '0123456789uUx')))
        x.assume(not c.isdecimal())
        x.cover('escape')
        for a, b in SIMPLE.items():
            if c == a:
                return "\\" + c, [b]
        return "\\" + c, [c]
    if k == 'x':
        c = x.char(nm, [(0, 255)])
        x.cover('hex')
        return "\\x%02x" % ord(c), [c]
    if k == 'u':
        c = x.char(nm, [(0, 0xD7FF), (0xE000, 0xFFFF)])
        x.cover('hex')
        return "\\u%04X" % ord(c), [c]
    if k == 'U':
        c = x.char(nm)
        x.cover('hex')
        return "\\U%08x" % ord(c), [c]
    if k == 'r':
        c = x.char(nm)
        n = x.choice(nm + "n", [0, 1, 2])
        x.assume(x.not_(x.isin(c, SYNTAX)))
        x.assume(ord(c) + n <= 0x10FFFF)
        d = chr(ord(c) + n)
        x.assume(x.not_(x.isin(d, SYNTAX)))
        x.cover('range')
        return c + "-" + d, [chr(ord(c) + i) for i in range(n + 1)]
    if k == 's':
        c = x.char(nm)
        d = x.char(nm + "b")
        x.assume(x.not_(x.isin(c, SYNTAX)))
        x.cover('string')
        if x.isin(d, "[]{}\\&-|^$: "):
            return "{" + c + "\\" + d + "}", [c + d]
        return "{" + c + d + "}", [c + d]


def run(x, case):
    text = ""
    want = []
    bare = case.startswith("!")
    for j, part in enumerate(case.lstrip("!").split(",")):
        neg = part.startswith("^")
        part = part.lstrip("^")
        blanks = x.choice("b%d" % j, [0, 1])
        items = []
        vals = []
        for i, k in enumerate(part):
            t, v = member(x, "m%d_%d" % (j, i), k)
            items.append(t)
            if bare:
                want.append((set(v), False))
            vals += v
        sep = " " * blanks
        if bare:
            text += sep.join(items)
        else:
            text += "[" + ("^" if neg else "") + sep.join(items) + "]"
            want.append((set(vals), neg))
            if neg:
                x.cover('negated')
    res = US.parse(text)
    x.observe("text", text)
    x.observe("res", [[set(r), r.negative] for r in res])
    x.check(len(res) == len(want), "as many sets as were written")
    for r, (v, neg) in zip(res, want):
        x.check(set(r) == v, "the set holds the strings it denotes")
        x.check(r.negative == neg, "negation is kept")
        x.check(r.asSet() == (set() if neg else v), "asSet gives the strings of a positive set")
