"""Comparing two entries of the default table gives the level at which they differ."""
from sldr.ducet import ducetCompare, keyfn

PROPERTY = 'D01'
BOUNDS = "entries of one or two collation elements, not both two (thorough: up to 3), or of 3 or 4 that differ only in the last or of which one lacks it, with any non-negative weights; every limiting level"
ASSUMPTIONS = ["both strings are entries of the table", "zero weights do not count, as in the UCA"]
COVERS = ['primary', 'secondary', 'tertiary', 'equal', 'limited']


def cases(tier):
    r = [[1, 1], [1, 2], [2, 1], ["long", 3], ["long", 4], ["longer", 4]]
    return r + ([[2, 2], [1, 3], [3, 2]] if tier == 'thorough' else [])


def ref(a, b):
    for j in range(3):
        u = [ce[j] for ce in a if ce[j] != 0]
        v = [ce[j] for ce in b if ce[j] != 0]
        for i in range(max(len(u), len(v))):
            p = u[i] if i < len(u) else 0
            q = v[i] if i < len(v) else 0
            if p < q:
                return j + 1
            if p > q:
                return -(j + 1)
    return 0


def run(x, case):
    d = {}
    if case[0] in ("long", "longer"):
        # the same but in the last element
        n = case[1]
        same = [tuple([x.int("s%d%d" % (i, j), 1) for j in range(3)]) for i in range(n - 1)]
        d["p"] = tuple(same + [tuple([x.int("p%d" % j, 0) for j in range(3)])])
        d["q"] = tuple(same + ([tuple([x.int("q%d" % j, 0) for j in range(3)])] if case[0] == "long" else []))
    else:
      for k, n in zip("pq", case):
        d[k] = tuple([tuple([x.int("%s%d%d" % (k, i, j), 0) for j in range(3)]) for i in range(n)])
    want = ref(d["p"], d["q"])
    got = ducetCompare(d, "p", "q")
    x.observe("got", got)
    x.cover(['equal', 'primary', 'secondary', 'tertiary'][abs(want)])
    x.check(got == want, "the level of the first difference, positive if the first comes first")
    x.check(ducetCompare(d, "q", "p") == -want, "and the other way round")
    level = x.choice("level", [1, 2, 3, 4])
    if abs(want) > level:
        x.cover('limited')
    K = keyfn(d, level)
    p = K("p")
    q = K("q")
    lt = 0 < want <= level
    gt = 0 < -want <= level
    x.check((p < q) == lt, "less as a sort key")
    x.check((p > q) == gt, "greater as a sort key")
    x.check((p <= q) == (not gt), "not greater")
    x.check((p >= q) == (not lt), "not less")
