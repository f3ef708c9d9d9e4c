"""A simple collation puts its items in the order they are listed."""
from sldr.collation import Collation, diffLevel
import h_chain

PROPERTY = 'K08'
BOUNDS = ("lists of up to 4 letters, cased or not, and two-letter combinations (in the table or not), in every arrangement into lines, groups "
          "(blank) and variants (slash); every order of the letters in the default table (symbolic primary weights)")
ASSUMPTIONS = ["strict conversion, so that no upper case forms are guessed for combinations",
               "the letters are known to the default table, with different primary weights",
               "a lower case letter and its upper case letter differ at the tertiary level in the table"]
COVERS = ['moved', 'kept', 'secondary', 'tertiary', 'digraph', 'contraction', 'case', 'before']


def cases(tier):
    r = []
    for n in (2, 3, 4):
        for cased in (0, 1):
            r.append(["letters", n, cased])
    r += [["digraph", 2, 0], ["digraph", 2, 1], ["contraction", 2, 0], ["contraction", 2, 1], ["full", 2, 1], ["full", 3, 1]]
    if tier == 'thorough':
        r += [["digraph", 3, 0], ["contraction", 3, 0], ["full", 4, 1]]
    return r


def run(x, case):
    kind, n, cased = case
    letters = list("abcd"[:n]) if cased else list("\u05d0\u05d1\u05d2\u05d3"[:n])
    d = {}
    for i, c in enumerate(letters):
        w = x.int("w%d" % i, 1)
        for o in d.values():
            x.assume(o[0][0] != w)
        d[c] = ((w, 1, 1),)
    words = list(letters)
    if kind in ("digraph", "contraction"):
        x.cover(kind)
        words.insert(x.choice("at", list(range(1, n + 1))), letters[-1] + letters[0])
        if kind == "contraction":
            w = x.int("w", 1)
            for o in d.values():
                x.assume(o[0][0] != w)
            d[letters[-1] + letters[0]] = ((w, 1, 1),)
    if cased:
        x.cover('case')
        for c in letters:
            d[c.upper()] = ((d[c][0][0], 1, 3),)
    text = ""
    want = []
    for i, c in enumerate(words):
        sep = "\n"
        if i:
            sep = x.choice("sep%d" % i, ["\n", " ", "/"])
            text += sep
        l = 1 if sep == "\n" else 2 if sep == " " else 3
        if l > 1:
            x.cover('secondary' if l == 2 else 'tertiary')
        text += c
        want.append((c, l))
        if kind == "full":
            text += "/" + c.upper()
            want.append((c.upper(), 3))
    coll = Collation(ducetDict=d)
    coll.convertSimple(text.split("\n"), strict=True)
    x.observe("coll", [[k, v.base, v.level, v.before] for k, v in coll.items()])
    if any(v.before for v in coll.values()):
        x.cover('before')
    x.cover('moved' if d[letters[0]][0][0] > d[letters[1]][0][0] else 'kept')
    for i in range(1, len(want)):
        a = coll.sortKey(want[i - 1][0])
        b = coll.sortKey(want[i][0])
        x.check(diffLevel(a, b) == want[i][1], "each item follows the one before it, differing at its level")
