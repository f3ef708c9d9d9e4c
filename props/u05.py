"""Escapes in strings are resolved to the characters they stand for."""
from sldr import UnicodeSets as US

PROPERTY = 'U05'
BOUNDS = "strings of up to 3 tokens (thorough 4): raw, \\c, \\xHH, \\uHHHH, \\UHHHHHHHH, \\u{H...}, \\x{H...}, group reference; any character"
ASSUMPTIONS = ["a raw token is not a backslash; a backslash is followed by a well formed escape"]
COVERS = ['hex', 'escape', 'group']
SIMPLE = {'a': "\u0007", 'b': "\u0008", 't': "\u0009", 'n': "\u000A", 'v': "\u000B", 'f': "\u000C", 'r': "\u000D"}
KINDS = "cexuUgbB"


def cases(tier):
    r = []
    for a in KINDS:
        r.append(a)
        for b in KINDS:
            r.append(a + b)
            if tier == 'thorough':
                for c in KINDS:
                    r.append(a + b + c)
    return r + ["cbe", "BcB", "eBx"] + ["cxe", "ece", "uex", "euc", "gcg", "eue"]


def token(x, nm, k, groups):
    c = x.char(nm)
    if k == 'c':
        x.assume(c != '\\')
        return c, c
    if k == 'e':
        x.assume(x.not_(x.isin(c, '0123456789uUx')))
        x.cover('escape')
        for a, b in SIMPLE.items():
            if c == a:
                return "\\" + c, b
        return "\\" + c, c
    if k == 'g':
        n = x.choice(nm + "g", [1, 2])
        x.cover('group')
        return "\\%d" % n, groups[n - 1]
    # resolved digits stay clear of group references
    x.cover('hex')
    if k == 'x':
        x.assume(ord(c) < 256)
        return "\\x%02X" % ord(c), c
    if k in 'bB':
        return ("\\u{%x}" if k == 'b' else "\\x{%04X}") % ord(c), c
    if k == 'u':
        x.assume(ord(c) < 0x10000)
        return "\\u%04x" % ord(c), c
    return "\\U%08x" % ord(c), c


def run(x, case):
    groups = [x.str("g0", 1), "zy"]
    usegroups = 'g' in case
    text = want = ""
    for i, k in enumerate(case):
        t, w = token(x, "t%d" % i, k, groups)
        if usegroups:
            x.assume(w != '\\' or k == 'g')
            # \1 followed by a digit is group ten and up
            if i and case[i - 1] == 'g':
                x.assume(x.not_(x.isin(w[0], "0123456789")))
        text += t
        want += w
    if usegroups:
        x.assume(x.not_(x.isin(groups[0], "\\")))
        res = US.struni(text, groups)
    else:
        res = US.struni(text)
    x.observe("res", res)
    x.check(res == want, "every escape resolves to its character")
