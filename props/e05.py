"""Frequent exemplars are main, their capitals the index, and graphemes are listed by frequency."""
from icu import Char, UCharCategory, UProperty
import h_exemplars

#tab - Char.charType
#tab - Char.hasBinaryProperty
#tab - Char.getCombiningClass
#tab - Char.getIntPropertyValue
#tab - Char.ispunct
#tab - Char.isUUppercase
#tab - Char.isULowercase
#tab - Char.isUAlphabetic
#tab - Script.getScript
#tab - Script.getScriptCode
PROPERTY = 'E05'
BOUNDS = ("texts of up to 6 characters (thorough 7): letters of 3 in either case, letters without case, a mark, a sign, digits, punctuation and tatweel in "
          "stated arrangements; any of 6 limits for what is frequent")
ASSUMPTIONS = ["the text is its own NFD form", "script statistics are stubbed out", "upper case is that of Python for the letters used"]
COVERS = ['main', 'auxiliary', 'tatweel', 'index', 'no index', 'order', 'only lower', 'only upper', 'both cases', 'no case']
BUDGET = 100
DOM = {'b': [('b', 'd')], 'B': [('b', 'd'), ('B', 'D')], 'm': "\u0301\u0302", 'v': "\u093e", 'p': "!,", 'd': "12", 't': "\u0640", 'c': "\u05d0\u0905\u01bb\u00aa"}
FREQ = [1, 50, 100, 120, 150, 200]


def cases(tier):
    r = [["bbb", f] for f in FREQ] + [["bbbb", f] for f in (100, 120)] + [["bbbbb", 100]]
    r += [["bmb", 100], ["bvbb", 100], ["bbt", 1], ["tmb", 50], ["tmbt", 100], ["bdpb", 50], ["bmbmb", 50], ["BBB", 100], ["BmBm", 100], ["pbdbv", 120], ["cBc", 100], ["cmBm", 50]]
    if tier == 'thorough':
        r += [["bbbbbb", f] for f in (50, 120, 200)] + [["BBBB", 1], ["BmBmB", 120], ["bvbvbb", 100]]
    return r


def get(pairs, key):
    for w in pairs:
        if w[0] == key:
            return w[1]
    pairs.append([key, []])
    return pairs[-1][1]


def run(x, case):
    kinds, freq = case
    text = "".join([x.char("c%d" % i, DOM[k]) for i, k in enumerate(kinds)])
    ex = h_exemplars.make()
    ex.ucd.toupper = lambda s: s.upper()
    ex.frequent = freq
    ex.process(text)
    # what there is, from the text
    raw = []
    cased = []
    for i, k in enumerate(kinds):
        if k in 'mv':
            raw[-1] += text[i]
            cased[-1][0] += text[i]
        elif k in 'bBdtc':
            raw.append(text[i].lower() if k == 'B' else text[i])
            cased.append([raw[-1], text[i].isupper(), k in 'bBc', k])
        else:
            raw.append("")
            cased.append(["", False, False, k])
    count = []
    for r in raw:
        if len(r):
            get(count, r).append(1)
    ex.analyze()
    # graphemes
    x.check(x.eq(sorted(ex._graphemes), sorted(k for k, v in count)), "every grapheme of the text is listed once")
    x.check(x.eq([f.rsplit(":", 1)[0] for f in ex._frequency], ex._graphemes), "with its frequency")
    last = None
    for f in ex._frequency:
        g, n = f.rsplit(":", 1)
        x.check(len(get(count, g)) == int(n), "which is how often it occurs")
        if last is not None:
            x.cover('order')
            x.check(int(n) <= last, "the most frequent first")
        last = int(n)
    # main and auxiliary, from the exemplars that are left
    total = sum(ex.clusters.values())
    num = len(ex.clusters)
    for e, n in ex.clusters.items():
        if not n:
            continue
        if e.text == "\u0640":
            x.cover('tatweel')
            x.check(e.text in ex._auxiliary and e.text not in ex._main, "a tatweel is auxiliary")
        elif n * num * 100 > total * freq:
            x.cover('main')
            x.check(e.text in ex._main and e.text not in ex._auxiliary, "what occurs more often than the limit is main")
        else:
            x.cover('auxiliary')
            x.check(e.text in ex._auxiliary and e.text not in ex._main, "what does not is auxiliary")
    for s in list(ex._main) + list(ex._auxiliary):
        x.check(any(e.text == s for e in ex.clusters), "nothing else is in these sets")
    # the index
    want = []
    for s in ex._main:
        if s[0] in "\u0301\u0302\u093e":
            x.cover('no index')
        else:
            x.cover('index')
            want.append(s.upper())
    x.check(x.eq(sorted(ex._index), sorted(want)), "the index has the capitals of the main exemplars that are no marks")
    # case
    for s, up, letter, k in cased:
        if not letter:
            continue
        if k == 'c' and not Char.isULowercase(s[0]):
            x.cover('no case')
            x.check(s not in ex.non_casing_chars, "a letter without case is not told")
            continue
        forms = [u for t, u, l, k in cased if t == s]
        w = None if True in forms and False in forms else "only_upper" if up else "only_lower"
        x.cover('both cases' if w is None else 'only upper' if up else 'only lower')
        x.check(ex.non_casing_chars.get(s) == w, "what occurs in one case only is told")
