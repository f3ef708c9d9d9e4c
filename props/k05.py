"""Writing a collation as a tailoring and reading that again gives the same order."""
from sldr.collation import Collation, diffLevel
import h_chain as k4

#tab - ud.category
PROPERTY = 'K05'
BOUNDS = ("one or two resets with up to 3 elements (thorough 4) at every combination of levels, with and without "
          "[before n]; keys, bases and expansions of one or two arbitrary characters in the 'text' cases; any "
          "non-negative integer weights in the table for up to 2 elements, given weights for more; 3 elements at every combination of levels, any of them reset to either of 2 entries, each with an expansion or none")
ASSUMPTIONS = ["no two resets to the same base but with given weights (resets)", "keys are different and do not end in white space", "expansions are not made of tailored characters"]
COVERS = ['before', 'order', 'text', 'expansion', 'resets']


def cases(tier):
    r = [["order", n, b, 0] for n in (1, 2, 3) for b in (0, 1, 2, 3)] + [["order", 2, b, 1] for b in (0, 1, 2, 3)]
    r += [["text", n, e, b] for n, e, b in ((1, "", 0), (1, "f", 1), (1, "?", 0), (2, "", 1), (2, "f", 0))]
    r += [["text", 11, "", 0], ["text", 12, "", 0], ["wrap", 3, "", 0], ["text", 11, "?", 0]]
    r += [["resets", 3, l, 0] for l in (1, 2, 3, 4)]
    if tier == 'thorough':
        r += [["order", 4, b, 0] for b in (0, 1, 2, 3)] + [["order", 3, 0, 1], ["order", 3, 2, 1], ["text", 22, "", 0], ["text", 2, "??", 0], ["text", 11, "?", 1]]
    return r


def run(x, case):
    kind, n, b, two = case
    if kind == "resets":
        return resets(x, n, b)
    if kind != "order":
        return text(x, kind, n, b, two)
    if n > 2 or two:
        d = {"a": ((10, 5, 2),), "e": ((10, 6, 2),), "f": ((12, 5, 3),)}
    else:
        d = {"a": k4.entry(x, "a"), "e": k4.entry(x, "e")}
    if b:
        x.cover('before')
        x.assume(d["a"][0][b - 1] > 0)
    names = "xyzw"[:n]
    levels, t = k4.chain(x, "l", names, b)
    t = "&" + ("[before %d]" % b if b else "") + "a" + t
    if two:
        m, u = k4.chain(x, "m", "uv", 0)
        t += " &f" + u
        names += "uv"
    same(x, d, t, names)


def resets(x, n, first):
    """elements may all be reset to the same place, with or without an expansion"""
    d = {"a": ((10, 5, 2),), "e": ((10, 6, 2),), "f": ((12, 5, 3),)}
    names = "xyz"[:n]
    t = ""
    for i, k in enumerate(names):
        if i == 0 or x.bool("reset%d" % i):
            t += "&" + x.choice("base%d" % i, ["a", "e"])
        level = first if i == 0 else x.choice("level%d" % i, [1, 2, 3, 4])
        t += "<<<"[:level] if level < 4 else "="
        t += k + ("/f" if x.bool("expands%d" % i) else "")
    x.cover('resets')
    same(x, d, t, names)


def same(x, d, t, names):
    """what is written of a tailoring has the same order"""
    c1 = Collation(ducetDict=d)
    c1.parse(t)
    out = c1.asICU()
    x.observe("out", out)
    c2 = Collation(ducetDict=d)
    c2.parse(out)
    c2._setSortKeys()
    x.check(sorted(c2.keys()) == sorted(c1.keys()), "the same keys")
    x.cover('order')
    for i, p in enumerate(names):
        for q in names[i + 1:]:
            x.check(diffLevel(c1[p].key, c1[q].key) == diffLevel(c2[p].key, c2[q].key),
                    "elements differ as they did")
        for e in d:
            k = [[d[e][0][j]] for j in range(3)]
            x.check(diffLevel(c1[p].key, k) == diffLevel(c2[p].key, k), "and from the entries of the table")


def text(x, kind, n, exp, before):
    x.cover('text')
    d = {"a": ((10, 1, 1),), "f": ((20, 1, 1),)}
    coll = Collation(ducetDict=d)
    keys = []
    base = "a"
    for i, ch in enumerate(str(n)):
        k = x.str("k%d" % i, 1 if kind == "wrap" else int(ch))
        x.assume(not k[-1].isspace())
        for o in keys + ["a", "f"]:
            x.assume(o != k)
        keys.append(k)
    t = "&"
    if before:
        t += "[before 1]"
    t += "a"
    for k in keys:
        t += " < " + "".join(["\\U%08X" % ord(c) for c in k])
    e = ""
    if exp:
        x.cover('expansion')
        e = "".join([x.char("e%d" % i) if c == "?" else c for i, c in enumerate(exp)])
        x.assume(not e[0].isspace() and not e[-1].isspace())
        t += "/" + "".join(["\\U%08X" % ord(c) for c in e])
    coll.parse(t)
    out = coll.asICU(wrap=2 if kind == "wrap" else 0)
    x.observe("out", out)
    c2 = Collation(ducetDict=d)
    c2.parse(out)
    x.check(len(c2) == len(keys), "as many keys")
    for i, k in enumerate(keys):
        x.check(k in c2, "the same keys")
        v = c2[k]
        x.check(v.base == (keys[i - 1] if i else "a") and v.level == 1, "the same bases and levels")
        x.check(v.before == (before if i == 0 else 0), "the same [before n]")
        x.check(v.exp == (e if i == len(keys) - 1 else ""), "the same expansion")
