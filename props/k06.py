"""The sort key of a text is made of the longest known pieces, in order, without zero weights."""
from sldr.collation import ducetSortKey, SortKey, Collation

PROPERTY = 'K06'
BOUNDS = ("texts of up to 4 characters (thorough 5) over four letters, spaces, marks or supplementary characters, one of them unknown to the table; or of 2 and then 4 fixed ones; tables with up to "
          "two contractions of up to 5 characters, entries of one or two collation elements with any non-negative weights; with and without "
          "a tailored key")
ASSUMPTIONS = ["a character unknown to the table has no weight"]
COVERS = ['contraction', 'unknown', 'zero', 'single', 'tailored']
TABLES = [["a", "b", "c"], ["a", "b", "ab"], ["a", "b", "c", "ab", "abc"], ["a", "b", "c", "abc", "bc"],
          ["a", "b2", "c", "ab2"], ["a", "b", "c", "abcab"]]
LETTERS = ["abcx", " \u0301A\ue000", "\U00010400\\\n\U000e0100"]      # the last one is not in the table


def cases(tier):
    r = []
    for t in range(len(TABLES)):
        for n in range(0, 5 if tier == 'thorough' else 4):
            for tail in (None, "a", "ab"):
                if n == 3 and tier != 'thorough' and [t, tail] not in ([0, "a"], [1, None], [2, None], [4, None], [3, "ab"], [1, "ab"]):
                    continue
                if tail != "ab" or n > 1:
                    r.append([t, n, tail, 0])
    r += [[t, n, None, a] for t, n in ((1, 1), (2, 2), (2, 3)) for a in (1, 2)]
    r += [[5, 2, tail, a, "bcab"] for tail, a in ((None, 0), ("a", 0), (None, 1), (None, 2))]
    if tier == 'thorough':
        r += [[1, 4, None, 0], [2, 4, None, 0]] + [[2, 5, None, 0], [3, 5, None, 0]] + [[t, n, None, a] for t in (1, 3) for n in (3, 4) for a in (1, 2)]
    return r


def run(x, case):
    t, n, tail, a = case[:4]
    letters = LETTERS[a]
    d = {}
    for k in TABLES[t]:
        m = 2 if k.endswith("2") else 1
        k = "".join([letters["abc".index(c)] for c in k.rstrip("2")])
        d[k] = tuple([tuple([x.int("w_%s_%d_%d" % ("_".join(["%x" % ord(c) for c in k]), i, j), 0) for j in range(3)]) for i in range(m)])
    text = x.str("t", n, letters)
    if len(case) > 4:
        text += "".join([letters["abc".index(c)] for c in case[4]])
        n = len(text)
    coll = Collation(ducetDict=d)
    keys = {}
    for k, v in d.items():
        keys[k] = [[ce[j] for ce in v] for j in range(3)]
    if tail:
        coll.parse("&b < " + tail)
        coll._setSortKeys()
        got = coll.sortKey(text)
        keys[tail] = [list(l) for l in coll[tail].key]
    else:
        got = ducetSortKey(d, text)
    want = [[], [], []]
    i = 0
    whole = None
    while i < n:
        for l in range(n - i, 0, -1):
            piece = text[i:i + l]
            hit = None
            for k in keys:
                if len(k) == l and piece == k:
                    hit = k
                    break
            if hit is not None:
                break
        if hit is None:
            x.cover('unknown')
            i += 1
            continue
        if len(hit) > 1:
            x.cover('contraction')
        if hit == tail:
            x.cover('tailored')
        for j in range(3):
            want[j] += keys[hit][j]
        i += len(hit)
    if n == 1:
        x.cover('single')
    else:
        for j in range(3):
            want[j] = [w for w in want[j] if w != 0]
            x.cover('zero')
    x.observe("got", [list(l) for l in got])
    x.check(isinstance(got, SortKey), "the result is a sort key")
    x.check(x.eq([list(l) for l in got], want), "the weights of the pieces, in order")
