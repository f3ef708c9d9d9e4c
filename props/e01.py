"""Text is divided into exemplar clusters as documented."""
from icu import Char, Script, UCharCategory, UProperty, UScriptCode
import h_exemplars

#tab - Char.charType
#tab - Char.hasBinaryProperty
#tab - Char.getCombiningClass
#tab - Char.getIntPropertyValue
#tab - Char.ispunct
#tab - Char.isUUppercase
#tab - Char.isULowercase
#tab - Char.isUAlphabetic
#tab - Script.getScript
#tab - Script.getScriptCode
PROPERTY = 'E01'
BOUNDS = ("texts of 1-3 arbitrary characters; texts of up to 5 characters (thorough 6) with stated kinds per position "
          "(base, upper case, punctuation, number, mark, nukta, joiner, other); a base and 5 of three marks and ZWJ")
ASSUMPTIONS = ["the text is its own NFD form (ICU normalisation is stubbed by the identity)",
               "U+0130, whose lower case is two characters, is left out",
               "script statistics are stubbed out", "ICU character properties are tabulated at run time"]
COVERS = ['cluster', 'punctuation', 'skipped', 'nukta', 'mark', 'zwj', 'zwnj', 'upper']
KINDS = "bupnmkzw"
BUDGET = 120


def cases(tier):
    r = ["?", "??"]
    if tier == 'thorough':
        r.append("???")
    ks = ["bmmbm", "bkmzb", "bzmwb", "umpb", "nmnkb", "ukmb", "bwmbz", "pmbpm", "mbmmm", "bkkmm", "zbmwm", "ob", "bu", "attttt", "nktttt", "utttb", "bmkm", "bkzkk"]

    r += ks
    if tier == "thorough":
        r += ["bob", "bub"]
    if tier == 'thorough':
        r += [k + "m" for k in ks] + [k + "b" for k in ks]
    return r


MARKS = (UCharCategory.NON_SPACING_MARK, UCharCategory.COMBINING_SPACING_MARK, UCharCategory.ENCLOSING_MARK)
NUMBERS = (UCharCategory.DECIMAL_DIGIT_NUMBER, UCharCategory.OTHER_NUMBER)


def ismark(c):
    return Char.charType(c) in MARKS


def isnukta(c):
    return Char.getCombiningClass(c) == 7


def letterlike(c):
    return Char.getIntPropertyValue(c, UProperty.WORD_BREAK) in (1, 3)


def ispunct(c):
    return not letterlike(c) and Char.ispunct(c)


def allowable(c):
    if Char.charType(c) in NUMBERS:
        return True
    if Char.isUUppercase(c):
        return False
    if Script.getScriptCode(Script.getScript(c)) not in (UScriptCode.COMMON, UScriptCode.INHERITED):
        return True
    return letterlike(c) or Char.isUAlphabetic(c)


def clusters(text, x):
    """reference segmentation: list of (base, trailers)"""
    res = []
    i = 0
    while i < len(text):
        c = text[i]
        i += 1
        if ispunct(c):
            x.cover('punctuation')
            res.append((c, ""))
            continue
        if Char.isUUppercase(c):
            x.cover('upper')
            c = c.lower()
        if not allowable(c):
            x.cover('skipped')
            continue
        base = c
        rest = ""
        while i < len(text):
            t = text[i]
            if t == "\u200d":
                x.cover('zwj')
                rest += t
                i += 1
            elif t == "\u200c":
                x.cover('zwnj')
                rest += t
                i += 1
                break
            elif ismark(t):
                i += 1
                if isnukta(t) and not rest:
                    x.cover('nukta')
                    base += t
                else:
                    x.cover('mark')
                    rest += t
            else:
                break
        x.cover('cluster')
        res.append((base, rest))
    return res


def pick(x, nm, k):
    c = x.char(nm)
    if k == '?':
        pass
    elif k == 'b':
        x.assume(Char.isUAlphabetic(c))
        x.assume(x.not_(Char.isUUppercase(c)))
        x.assume(x.not_(ismark(c)))
    elif k == 'a':
        c = "a"
    elif k == 'u':
        x.assume(Char.isUUppercase(c))
    elif k == 'p':
        x.assume(ispunct(c))
    elif k == 'n':
        x.assume(Char.charType(c) in NUMBERS)
    elif k == 'm':
        x.assume(ismark(c))
        x.assume(x.not_(isnukta(c)))
    elif k == 'k':
        x.assume(isnukta(c))
    elif k == 'z':
        c = "\u200d"
    elif k == 'w':
        c = "\u200c"
    elif k == 't':
        x.assume(x.isin(c, "\u0301\u0323\u093e\u200d"))
    elif k == 'o':
        x.assume(x.not_(allowable(c)))
    x.assume(c != "\u0130")
    return c


def run(x, case):
    text = "".join([pick(x, "c%d" % i, k) for i, k in enumerate(case)])
    ex = h_exemplars.make()
    ex.process(text)
    x.observe("clusters", [[e.base, e.trailers, n] for e, n in ex.clusters.items()])
    want = []
    for c in clusters(text, x):
        for w in want:
            if w[0] == c:
                w[1] += 1
                break
        else:
            want.append([c, 1])
    got = [[(e.base, e.trailers), n] for e, n in ex.clusters.items()]
    x.check(len(got) == len(want), "as many different clusters as the text has")
    for w in want:
        x.check(w in got, "every cluster is counted as often as it occurs")
