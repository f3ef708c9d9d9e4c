"""Tailored elements are placed where the tailoring says."""
from sldr.collation import Collation, diffLevel
from h_chain import entry, chain

PROPERTY = 'K04'
BOUNDS = ("one reset with up to 3 elements (thorough 4) at every combination of levels, with and without [before n] of "
          "the level of the first element, chains of 11 or 12 elements of one level, a second reset to another base or to a tailored element; base and other "
          "entries of the table have any non-negative integer weights")
ASSUMPTIONS = ["entries of the table that are compared have one collation element",
               "no two resets to the same base but in the case for it",
               "the base of a [before n] has a weight at that level",
               "no expansions except in the cases for them"]
COVERS = ['later', 'unknown', 'same', 'before', 'identical', 'primary', 'secondary', 'tertiary', 'entry', 'reset', 'expansion']


def cases(tier):
    r = [["chain", n, b] for n in (1, 2, 3) for b in (0, 1, 2, 3)]
    r += [["two", 1, 1], ["long", 12, 0], ["long", 12, 1], ["long", 11, 3], ["on", 2, 0], ["on", 2, 1], ["exp", 1, 0], ["exp", 2, 0], ["exps", 2, 0], ["exps", 3, 0], ["expafter", 2, 0], ["later", 1, 0], ["later", 2, 0],
          ["unknown", 2, 0], ["same", 2, 0]]
    if tier == 'thorough':
        r += [["chain", 4, b] for b in (0, 1, 2, 3)] + [["two", 2, 0], ["two", 3, 0], ["two", 2, 1], ["two", 3, 2]]
    return r


def rel(a, b):
    """(sign, level) of the first difference of two keys: sign 1 when a is before b"""
    for j in range(3):
        if a[j] < b[j]:
            return (1, j + 1)
        if a[j] > b[j]:
            return (-1, j + 1)
    return (0, 4)


def keyrel(a, b):
    r = diffLevel(a, b)
    if r == 4:
        return (0, 4)
    return (1, r) if r > 0 else (-1, -r)


def follow(r, m):
    """relation to an entry of something placed right after what has relation r to it, at level m"""
    s, l = r
    if m == 4 or (s != 0 and l < m):
        return r
    if s == 1 and l == m:
        return r
    return (-1, m)


def precede(r, n):
    """relation to an entry of something placed right before what has relation r to it, at level n"""
    s, l = r
    if s != 0 and l < n:
        return r
    if s == -1 and l == n:
        return r
    return (1, n)


def expect(base, levels, before):
    """relations to an entry of the elements of a chain whose base has relation base to it"""
    res = []
    r = base
    for i, l in enumerate(levels):
        r = precede(r, l) if before and i == 0 else follow(r, l)
        res.append(r)
    return res


def between(levels):
    m = 4
    for l in levels:
        m = min(m, l)
    return (0, 4) if m == 4 else (1, m)


def run(x, case):
    kind, n, before = case
    d = {"a": entry(x, "a"), "e": entry(x, "e"), "f": entry(x, "f")}
    names = "xyzwghijklmn"[:n]
    levels, text = chain(x, "l", names, before, x.choice("same", [1, 2, 3]) if kind == "long" else None)
    if kind == "unknown":
        x.cover('unknown')
        del d["a"]
    if kind == "same":
        # ICU: each is placed right after the base, so the later one comes first
        x.cover('same')
        l = x.choice("same", [1, 2, 3])
        coll = Collation(ducetDict=d)
        coll.parse("&a %s x &a %s y" % ("<" * l, "<" * l))
        coll._setSortKeys()
        x.check(keyrel(coll["y"].key, coll["x"].key) == (1, l), "the last element placed right after a base comes first")
        return
    if before:
        x.cover('before')
        x.assume(d["a"][0][before - 1] > 0)
    t = "&" + ("[before %d]" % before if before else "") + "a" + text
    coll = Collation(ducetDict=d)
    if kind in ("exps", "expafter"):
        # an element has its own expansion, whatever the ones before it have
        x.cover('expansion')
        keep = x.choice("last", [True, False])
        parts = t.split(" ")
        fs = ["e", "f", "e"][:n]
        if kind == "exps":
            for f in ("e", "f"):
                x.assume(d[f][0][0] < d["a"][0][0])
        for i in range(n):
            if keep or i < n - 1:
                parts[2 + 2 * i] += "/" + fs[i]
        coll.parse(" ".join(parts))
        coll._setSortKeys()
        plain = Collation(ducetDict=d)
        plain.parse(t)
        plain._setSortKeys()
        if kind == "expafter":
            # known finding: the place after an element with an expansion that comes after it
            want = [list(plain["y"].key[j]) + [d["f" if keep else "e"][0][j]] for j in range(3)]
            x.check(x.eq([list(l) for l in coll["y"].key], want), "an element after one whose expansion comes after it is placed like any other")
            return
        for i in range(n):
            f = fs[i] if keep or i < n - 1 else fs[i - 1]
            x.check(x.eq([list(l) for l in coll[names[i]].key], [list(plain[names[i]].key[j]) + [d[f][0][j]] for j in range(3)]),
                    "an element has its own expansion or else that of the one before it")
        return
    if kind in ("exp", "later"):
        x.cover('expansion' if kind == "exp" else 'later')
        t += "/f"
        coll.parse(t + (" < f" if kind == "later" else ""))
        coll._setSortKeys()
        plain = Collation(ducetDict=d)
        plain.parse(t[:-2] + (" < f" if kind == "later" else ""))
        plain._setSortKeys()
        k = coll[names[-1]].key
        p = plain[names[-1]].key
        x.check(x.eq([list(l) for l in k], [list(p[j]) + [d["f"][0][j]] for j in range(3)]),
                "an expansion is appended to the key")
        return
    second = None
    if kind == "two":
        x.cover('reset')
        second, u = chain(x, "m", "uv"[:max(1, 3 - n)], 0)
        t += " &f" + u
    elif kind == "on":
        # a second reset, to the last element tailored
        x.cover('reset')
        second, u = chain(x, "m", "u", 0)
        t += " &" + names[-1] + u
    coll.parse(t)
    coll._setSortKeys()
    x.observe("keys", [[k, [list(l) for l in v.key]] for k, v in coll.items()])
    order = list(names)
    lev = list(levels)
    if kind == "on":
        order.append("u")
        lev += second
    # in the chain
    for i in range(len(order)):
        for j in range(i + 1, len(order)):
            x.check(keyrel(coll[order[i]].key, coll[order[j]].key) == between(lev[i + 1:j + 1]),
                    "elements are in the order written, differing at the strongest level between them")
    # against the table
    for e in ("a", "e"):
        if e not in d:
            continue
        x.cover('entry')
        ek = [[d[e][0][j]] for j in range(3)]
        b = rel(d["a"][0] if "a" in d else (0, 0, 0), d[e][0])
        for k, w in zip(order, expect(b, lev, before)):
            x.check(keyrel(coll[k].key, ek) == w, "an element is between its base and the next entry at its level")
    if kind == "two":
        fk = [[d["f"][0][j]] for j in range(3)]
        ek = [[d["e"][0][j]] for j in range(3)]
        b = rel(d["f"][0], d["e"][0])
        for k, w in zip("uv", expect(b, second, 0)):
            x.check(keyrel(coll[k].key, ek) == w, "elements of a second reset are placed after its base")
        for k, w in zip("uv", expect((0, 4), second, 0)):
            x.check(keyrel(coll[k].key, fk) == w, "elements of a second reset follow its base")
