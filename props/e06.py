"""The sets are written with the exemplars of the script of the text, in their order."""
from icu import Char, Script, UCharCategory, UProperty, UScriptCode
from sldr import UnicodeSets
from sldr.ldml_exemplars import Exemplars

#tab - Char.charType
#tab - Char.hasBinaryProperty
#tab - Char.getCombiningClass
#tab - Char.getIntPropertyValue
#tab - Char.ispunct
#tab - Char.isUUppercase
#tab - Char.isULowercase
#tab - Char.isUAlphabetic
PROPERTY = 'E06'
BOUNDS = "texts of up to 5 characters (thorough 6): letters of Latin, Greek and Cyrillic, punctuation and digits, in stated arrangements; any order of the collator"
ASSUMPTIONS = ["the text is its own NFC and NFD form", "the collator is stubbed by an arbitrary order"]
COVERS = ['one script', 'two scripts', 'left out', 'common', 'tie']
BUDGET = 100
DOM = {'l': "abcαβγж", 'k': "abα", 'p': "!,", 'd': "12", 'm': "\u0301"}
SCRIPTS = {'Latn': "abc", 'Grek': "αβγ", 'Cyrl': "ж"}


def cases(tier):
    r = ["k", "lp", "lld", "lll", "klp", "kkk", "lmk", "plk", "kkl", "lmkk"]
    if tier == 'thorough':
        r += ["kkkk", "llll", "klpd", "lmlm"]
    return r


class Order(object):
    """stands for the collator"""
    def __init__(self, weights):
        self.weights = weights

    def getSortKey(self, s):
        return [self.weights.get(c, 0) for c in s]


def script(c):
    for s, cs in SCRIPTS.items():
        if c in cs:
            return s
    return None


def run(x, case):
    text = "".join([x.choice("c%d" % i, list(DOM[k])) for i, k in enumerate(case)])
    ex = Exemplars()
    ex.ucd.normalize = lambda form, t: t
    ex.ucd.toupper = lambda t: t.upper()
    weights = {}
    for c in "abcαβγж!,12\u0301":
        if c in text:
            weights[c] = x.int("w%d" % ord(c), 0, 99)
    vals = list(weights.values())
    for i in range(len(vals)):
        for j in range(i):
            x.assume(vals[i] != vals[j])
    ex.collator = Order(weights)
    ex.process(text)
    ex.analyze()
    # the script that most characters have
    n = {s: len([c for c in text if script(c) == s]) for s in SCRIPTS}
    n[None] = len([c for c in text if script(c) is None])
    best = [s for s in n if n[s] == max(n.values())]
    x.cover('one script' if len([s for s in SCRIPTS if n[s]]) < 2 else 'two scripts')
    common = [c for c in text if script(c) is None]
    for name, held in (('main', ex._main), ('auxiliary', ex._auxiliary), ('punctuation', ex._punctuation), ('digits', ex._digits)):
        if not held:
            continue
        got = [s for s in list(ex_list(ex, name))]
        x.observe(name, got)
        if len(best) > 1:
            x.cover('tie')
            x.check(any(x.eq(got, want(x, held, b, weights)) for b in best), "exemplars of the most frequent script, in order")
        else:
            w = want(x, held, best[0], weights)
            if len(w) < len(held):
                x.cover('left out')
            if any(script(s[0]) is None for s in w):
                x.cover('common')
            x.check(x.eq(got, w), "exemplars of the most frequent script, in order")


def ex_list(ex, name):
    """the strings written, in order"""
    t = getattr(ex, name)
    r = []
    for item in t[1:-1].split():
        if item.startswith("{"):
            item = item[1:-1]
        r.append(UnicodeSets.struni(item))
    return r


def want(x, held, b, weights):
    r = [s for s in held if script(s[0]) == b or script(s[0]) is None]
    return sorted(r, key=lambda s: [weights.get(c, 0) for c in s])
