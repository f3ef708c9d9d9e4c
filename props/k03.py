"""Parsing a tailoring gives the elements that were written."""
from sldr.collation import Collation

PROPERTY = 'K03'
BOUNDS = ("tailorings of up to 2 resets and 3 elements (thorough 3 and 4), with or without [before n]; keys, bases and "
          "expansions of up to 2 characters, each written literally, with a backslash, as \\uHHHH, \\UHHHHHHHH or ''; "
          "comments with up to 2 arbitrary characters; characters are any Unicode scalar value")
ASSUMPTIONS = ["a literal character is not tailoring syntax (& < = / \\ # ' [) or white space", "all keys are different (apart from one key up to 3 times among letters)"]
COVERS = ['escape', 'hex', 'quote', 'before', 'expansion', 'comment', 'tight', 'lines', 'identical', 'again']
# a word per character of text: l literal, e backslash, u/U hex, q quote
# elements: level + characters [/ characters] [#]
T = [
    ["l", 0, ["1l"]],
    ["e", 0, ["1l"]],
    ["u", 0, ["2e"]],
    ["U", 0, ["3u"]],
    ["q", 0, ["4U"]],
    ["l", 1, ["1q"]],
    ["ll", 2, ["2ll"]],
    ["l", 3, ["3l/l"]],
    ["l", 0, ["1e/e"]],
    ["le", 0, ["2ee"]],
    ["e", 0, ["1le/ul"]],
    ["l", 0, ["1l", "3l"]],
    ["l", 0, ["1u", "2e"]],
    ["l", 0, ["4q", "1q"]],
    ["l", 0, ["1l#", "2l"]],
    ["l#", 0, ["1l"]],
    ["e", 1, ["1e#", "3e#"]],
    ["l", 0, ["1l/l", "3l/e"]],
    ["l", 0, ["1eq"]],
    ["l", 1, ["4l", "1l"]],
    ["l", 2, ["2l", "4l", "2l"]],
    ["l", 3, ["3l", "1l", "3l"]],
    ["l#", 1, ["4l#", "4l#", "1l"]],
]
PAIRS = [[5, 11], [14, 0], [15, 5], [12, 12], [8, 6], [17, 1], [4, 4], [3, 2]]


def cases(tier):
    big = (9, 10, 16)
    r = [[i, lay] for i in range(len(T)) for lay in ("n", "t", "w") if tier == 'thorough' or lay == "n" or i not in big]
    r += [[p, "n"] for p in PAIRS] + [["again", n] for n in (2, 3, 4)]
    if tier == 'thorough':
        r += [[[i, j], "n"] for i in range(len(T)) for j in range(len(T)) if [i, j] not in PAIRS]
        r += [[p, lay] for p in PAIRS for lay in ("t", "w")]
        r += [[[11, 14, 8], "n"], [[5, 5, 16], "n"]]
    return r


def piece(x, nm, k):
    """text and the character it stands for"""
    if k == 'q':
        x.cover('quote')
        return "''", "'"
    c = x.char(nm)
    if k == 'l':
        x.assume(x.not_(x.isin(c, "&<=/\\#'[")))
        x.assume(not c.isspace())
        return c, c
    if k == 'e':
        x.assume(x.not_(x.isin(c, "uU")))
        x.cover('escape')
        return "\\" + c, c
    x.cover('hex')
    if k == 'u':
        x.assume(ord(c) < 0x10000)
        return "\\u%04x" % ord(c), c
    return "\\U%08X" % ord(c), c


def pieces(x, nm, ks):
    t = w = ""
    for i, k in enumerate(ks):
        a, b = piece(x, nm + "_%d" % i, k)
        t += a
        w += b
    return t, w


def comment(x, nm):
    x.cover('comment')
    a = x.char(nm)
    b = x.char(nm + "b")
    x.assume(a != "\n" and b != "\n")
    return " #" + a + b + "\n"


def again(x, n):
    """the same key several times"""
    ks, text, want = [x.char("k%d" % i) for i in range(2)], "", []
    for c in ks:
        x.assume(x.not_(x.isin(c, "&<=/\\#'[")))
        x.assume(not c.isspace())
    x.assume(ks[0] != ks[1])
    for i in range(n):
        k = ks[0] if i < n - 1 else ks[1]
        level = 1 + i % 3
        text += ("&a" if x.bool("reset%d" % i) or not i else "") + "<" * level + k
        want.append([k, level])
    x.cover('again')
    coll = Collation(ducetDict={"a": ((1, 1, 1),)})
    coll.parse(text)
    got = sorted(coll.items(), key=lambda e: e[1].order)
    x.observe("coll", [[k, v.level] for k, v in got])
    x.check(x.eq([[k.rstrip(" "), v.level] for k, v in got], want), "as many elements as were written, in their order")


def run(x, case):
    if case[0] == "again":
        return again(x, case[1])
    which, lay = case
    gap = {"n": " ", "t": "", "w": " \n\t "}[lay]
    if lay == "t":
        x.cover('tight')
    if lay == "w":
        x.cover('lines')
    text = ""
    want = []
    for j, w in enumerate([which] if isinstance(which, int) else which):
        base, before, elems = T[w]
        com = base.endswith("#")
        t, b = pieces(x, "b%d" % j, base.rstrip("#"))
        text += "&" + gap
        if before:
            x.cover('before')
            text += "[before" + (gap if lay == "w" else " ") + str(before) + (gap if lay == "w" else "") + "]" + gap
        text += t
        text += comment(x, "bc%d" % j) if com else gap
        for i, e in enumerate(elems):
            com = e.endswith("#")
            level = int(e[0])
            ks = e[1:].rstrip("#").split("/")
            text += ("<" * level if level < 4 else "=") + gap
            t, k = pieces(x, "k%d%d" % (j, i), ks[0])
            text += t
            exp = ""
            if level == 4:
                x.cover('identical')
            if len(ks) > 1:
                x.cover('expansion')
                t, exp = pieces(x, "x%d%d" % (j, i), ks[1])
                text += "/" + t
            text += comment(x, "kc%d%d" % (j, i)) if com else gap
            for o in want:
                x.assume(o[0] != k)
            want.append((k, b, level, before, exp))
            b = k
            before = 0
    x.observe("text", text)
    coll = Collation(ducetDict={"a": ((1, 1, 1),)})
    coll.parse(text)
    x.check(len(coll) == len(want), "as many elements as were written")
    x.observe("coll", [[k, v.base, v.level, v.before, v.exp] for k, v in coll.items()])
    last = None
    for k, b, level, before, exp in want:
        x.check(k in coll, "every key is there")
        v = coll[k]
        x.check(v.base == b, "the base is the element before it, or what was reset to")
        x.check(v.level == level, "the level is the one written")
        x.check(v.before == before, "[before n] applies to the first element after the reset")
        x.check(v.exp == exp, "the expansion is the one written")
        x.check(last is None or last < v.order, "elements keep their order")
        last = v.order
