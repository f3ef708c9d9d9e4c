"""A set or sequence pattern stands for exactly the characters, ranges and strings in it."""
import unicodedata
from sldr import UnicodeSets as US

PROPERTY = 'U06'
BOUNDS = "patterns of up to 3 (thorough 4) items in one set, or sequences of up to 3 characters and sets of up to 2 items: characters, escapes, ranges of up to 3, strings of up to 2 in braces, spaces between, negated or not; any characters; in normal form C or D, with six letters and marks of all kinds"
ASSUMPTIONS = ["no set in a set", "raw characters are not syntax"]
COVERS = ['range', 'escape', 'string', 'negated', 'hyphen', 'sequence', 'reversed', 'normal form']
SIMPLE = {'a': "\u0007", 'b': "\u0008", 't': "\u0009", 'n': "\u000A", 'v': "\u000B", 'f': "\u000C", 'r': "\u000D"}
SYNTAX = '[]{}\\&-|^ '


def cases(tier):
    ks = "crseXRu"
    r = [a for a in ks] + [a + b for a in ks for b in ks]
    r += ["^c", "^r", "^cX", "^se", "-c", "c-", "-r", "r-", "^-c", "^e-", "cs-", "s-", "e-", "X-", "u-", "-s", "^rs-", "crs", "src", "eXr", "ucR"]
    # a normal form asked for
    r += [p + ":" + f for p in ("^c", "^e", "^s", "c/^c") for f in ("NFC", "NFD")] + ["cs:NFD"]
    # a sequence: parts after a slash are sets or single items
    r += ["c/cc", "/c/r", "cr/e/^c", "c/s/u", "^cr/X", "e/^Rc/c"]
    if tier == 'thorough':
        r += [a + b + c for a in "crsR" for b in ks for c in "ceu"] + ["^" + a + b + c for a in "cr" for b in "sX" for c in "eu"]
    return r


NORMAL = "a\u00e9\u0323\u0301\u1e69\u212b"
DOM = None


def raw(x, nm):
    c = x.char(nm, DOM) if DOM else x.char(nm)
    x.assume(x.not_(x.isin(c, SYNTAX)))
    return c


def item(x, nm, k):
    """text and what it stands for"""
    if k == 'c':
        c = raw(x, nm)
        return c, [c]
    if k == '-':
        x.cover('hyphen')
        return "-", ["-"]
    if k == 'e':
        x.cover('escape')
        c = x.char(nm, DOM) if DOM else x.char(nm)
        x.assume(x.not_(x.isin(c, "0123456789uUx")))
        for a, b in SIMPLE.items():
            if c == a:
                return "\\" + c, [b]
        return "\\" + c, [c]
    if k == 'u':
        c = x.char(nm)
        x.assume(ord(c) < 0x10000)
        return "\\u%04x" % ord(c), [c]
    if k == 's':
        x.cover('string')
        t = raw(x, nm + "a") + raw(x, nm + "b")
        return "{" + t + "}", [t]
    if k == 'X':
        x.cover('string')
        c = x.char(nm)
        x.assume(ord(c) < 0x10000)
        d = raw(x, nm + "b")
        return "{\\u%04X" % ord(c) + d + "}", [c + d]
    x.cover('range')
    n = x.choice(nm + "n", [0, 1, 2])
    if k == 'r':
        c = raw(x, nm)
        x.assume(ord(c) < 0x10FF00)
        d = chr(ord(c) + n)
        x.assume(x.not_(x.isin(d, SYNTAX)))
        return c + "-" + d, [chr(ord(c) + i) for i in range(n + 1)]
    c = x.char(nm)
    x.assume(ord(c) < 0xFF00)
    return "\\u%04x - \\u%04x" % (ord(c), ord(c) + n), [chr(ord(c) + i) for i in range(n + 1)]


def check(x, got, neg, want, cls):
    x.check(bool(got.negative) == neg, "a set is negated if it is written so")
    x.check(got == set(want), "a set has exactly what is written in it")


def run(x, case):
    global DOM
    case, form = (case + ":").split(":")[:2]
    DOM = NORMAL if form else None
    text = ""
    wants = []
    for i, part in enumerate(case.split("/")):
        neg = part.startswith("^")
        cls = i == 0 or len(part) > 1
        items = []
        body = ""
        for j, k in enumerate(part.lstrip("^")):
            t, w = item(x, "t%d%d" % (i, j), k)
            if j and (i + j) % 2:
                body += " "
            body += t
            items += w
        if neg:
            x.cover('negated')
        if not part:
            continue
        if not cls and len(part) == 1 and part[0] in "rR":
            cls = True
        text += "[" + ("^" if neg else "") + body + "]" if cls else body
        wants.append((neg, items, cls))
    if form:
        x.cover('normal form')
        got = US.parse(text, normal=form)
        wants = [(neg, [unicodedata.normalize(form, w) for w in items], cls) for neg, items, cls in wants]
        x.check(len(got) == len(wants), "a sequence has one set for every part in a normal form")
        for g, (neg, items, cls) in zip(got, wants):
            check(x, g, neg, items, cls)
        return
    got = US.parse(text)
    x.observe("text", text)
    x.check(len(got) == len(wants), "a sequence has one set for every part")
    for g, (neg, items, cls) in zip(got, wants):
        check(x, g, neg, items, cls)
    if len(wants) > 1:
        x.cover('sequence')
        back = got.reverse()
        x.cover('reversed')
        x.check(len(back) == len(wants), "a reversed sequence has all sets")
        for g, (neg, items, cls) in zip(back, wants[::-1]):
            check(x, g, neg, items, cls)
    flat = US.us2list(text)
    x.check(set(flat) == set(wants[0][1]), "a list made from a pattern has what the pattern stands for")
