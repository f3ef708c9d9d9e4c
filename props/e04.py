"""A mark is an exemplar of its own exactly if it is documented to be."""
from icu import Char, UCharCategory, UProperty
import h_exemplars

#tab - Char.charType
#tab - Char.hasBinaryProperty
#tab - Char.getCombiningClass
#tab - Char.getIntPropertyValue
#tab - Char.ispunct
#tab - Char.isUUppercase
#tab - Char.isULowercase
#tab - Char.isUAlphabetic
#tab - Script.getScript
#tab - Script.getScriptCode
PROPERTY = 'E04'
BOUNDS = ("texts of up to 6 characters (thorough 8): up to 4 bases of 4 letters and marks U+0300-036F of any combining class, vowel signs, nuktas and ZWJ, in stated "
          "arrangements; many_bases 1, 2 or 5")
ASSUMPTIONS = ["the text is its own NFD form", "script statistics are stubbed out"]
COVERS = ['same bases', 'many bases', 'second mark', 'stays', 'sign', 'elsewhere', 'nukta']
BUDGET = 100
DOM = {'b': [('b', 'e')], 'm': [(0x300, 0x36F)], 'v': [(0x93E, 0x94D)], 'z': "\u200d", 'k': "\u093c"}


def cases(tier):
    r = [["bm", 5], ["bmbm", 5], ["bmbm", 1], ["bmm", 5], ["bmmbm", 5], ["bmbmm", 5], ["bmmm", 5], ["bmbmbm", 2], ["bmbmbm", 1],
         ["bvm", 5], ["bmzm", 5], ["bmbbm", 1], ["bmbkm", 1], ["bkmbm", 5], ["bkmbmb", 1], ["bvkbm", 5], ["bmkbk", 5]]
    if tier == 'thorough':
        r += [["bmmbmm", 5], ["bmmbmm", 1], ["bmmmbm", 5], ["bmbmbmm", 2], ["bvmbm", 1]]
    return r


def get(pairs, key):
    """the value for a key, that is made if it is not there"""
    for w in pairs:
        if w[0] == key:
            return w[1]
    pairs.append([key, []])
    return pairs[-1][1]


def same(a, b):
    return all(c in b for c in a) and all(c in a for c in b)


def run(x, case):
    kinds, many = case
    text = "".join([x.char("c%d" % i, DOM[k]) for i, k in enumerate(kinds)])
    ex = h_exemplars.make()
    ex.many_bases = many
    ex.process(text)
    ex.analyze()
    # the clusters by their definition: base, marks
    raw = []
    for i, k in enumerate(kinds):
        if k == 'b':
            raw.append([text[i], []])
        elif k == 'k' and not raw[-1][1]:
            x.cover('nukta')
            raw[-1][0] += text[i]
        else:
            raw[-1][1].append([text[i], k])
    bases = []
    for b, ms in raw:
        for m, k in ms:
            if k != 'z':
                s = get(bases, m)
                if b not in s:
                    s.append(b)
    sep = [e.trailers for e in ex.clusters if e.base == '']
    loose = []
    for m, s in bases:
        reason = ""
        if 0x93E <= ord(m) <= 0x94D or Char.hasBinaryProperty(m, UProperty.DEFAULT_IGNORABLE_CODE_POINT):
            reason = 'sign'
        elif len(s) > many:
            reason = 'many bases'
        elif any(o != m and same(s, t) for o, t in bases):
            reason = 'same bases'
        if reason:
            x.cover(reason)
            x.check(m in sep, "a mark that is on the bases of another, or on many, or a sign is separate")
            loose.append(m)
        elif m in sep:
            # it follows another of its class
            x.cover('second mark')
            x.check(any(q == m and any(Char.getCombiningClass(p) == Char.getCombiningClass(m) for p, kp in ms[:j] if kp != 'z')
                        for b, ms in raw for j, (q, kq) in enumerate(ms)),
                    "any other separate mark follows one of its class")
            loose.append(m)
        else:
            x.cover('stays')
    # all other marks stay with their base, in all clusters alike
    want = []
    for b, ms in raw:
        rest = "".join([m for m, k in ms if k != 'z' and m not in loose])
        for i in range(1, len(rest)):
            x.check(Char.getCombiningClass(rest[i - 1]) != Char.getCombiningClass(rest[i]), "of two marks of a class the second is separate")
        if len(rest) < len(ms):
            x.cover('elsewhere')
        get(want, b + rest).append(1)
        for m, k in ms:
            if k != 'z' and m in loose:
                get(want, m).append(1)
    got = sorted([e.text, n] for e, n in ex.clusters.items() if n)
    x.observe("got", [len(got)])
    x.check(x.eq(got, sorted([k, len(v)] for k, v in want)), "every base with the marks that stay, and every separate mark, as often as it occurs")
