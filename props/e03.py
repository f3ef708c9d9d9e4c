"""Analysis loses and invents nothing: counts are conserved by splitting and everything is classified."""
from icu import Char, UCharCategory, UProperty
import h_exemplars

#tab - Char.charType
#tab - Char.hasBinaryProperty
#tab - Char.getCombiningClass
#tab - Char.getIntPropertyValue
#tab - Char.ispunct
#tab - Char.isUUppercase
#tab - Char.isULowercase
#tab - Char.isUAlphabetic
#tab - Script.getScript
#tab - Script.getScriptCode
PROPERTY = 'E03'
BOUNDS = ("texts of up to 6 characters (thorough 8): bases (lower case Latin letters, digits, punctuation, soft hyphen), "
          "marks U+0300-036F, vowel signs U+093E-094D, nuktas, ZWJ and ZWNJ; up to 5 of three marks on one base; many_bases 1 or 5")
ASSUMPTIONS = ["the text is its own NFD form", "script statistics and upper-casing for the index set are stubbed out"]
COVERS = ['split', 'auxiliary', 'digits', 'punctuation', 'main']
BUDGET = 60


def cases(tier):
    r = [["bm", 5], ["bmm", 5], ["bmbm", 1], ["bmbmb", 1], ["bmmbm", 5], ["bvm", 5], ["bv", 5], ["bzbm", 5], ["bwmb", 5],
         ["dmd", 5], ["pbd", 5], ["bvzm", 5], ["hbm", 5], ["bmh", 5], ["bmvb", 5], ["ahb", 5], ["bvkm", 5], ["bzkm", 1], ["bmkbv", 1], ["bkvk", 5], ["1MMMM", 1], ["1MMMMM", 5], ["1MM2MMM", 1]]
    if tier == 'thorough':
        r += [["bmbmbm", 1], ["bmmbmm", 1], ["bmbmmb", 5], ["bvvm", 5], ["bmmm", 1], ["bvmbvm", 1]]
    return r


DOM = {'b': [('b', 'e')], 'a': "a", 'd': [('0', '9')], 'p': "!,.", 'm': [(0x300, 0x36F)], 'v': [(0x93E, 0x94D)],
       'z': "\u200d", 'w': "\u200c", 'k': "\u093c", 'h': "\u3164", '1': 'a', '2': 'b', 'M': "\u0301\u0323\u0304"}


def totals(clusters):
    """number of occurrences of every character in a counter of exemplars"""
    r = []
    for e, n in clusters.items():
        for c in e.text:
            for w in r:
                if w[0] == c:
                    w[1] += n
                    break
            else:
                r.append([c, n])
    return r


def run(x, case):
    kinds, many = case
    text = "".join([x.char("c%d" % i, DOM[k]) for i, k in enumerate(kinds)])
    ex = h_exemplars.make()
    ex.many_bases = many
    ex.process(text)
    ex.find_punctuation()
    ex.save_graphemes()
    ex.find_numbers()
    before = totals(ex.clusters)
    nraw = len(ex.clusters)
    ex.count_marks()
    steps = 0
    while ex.need_splitting:
        steps += 1
        x.check(steps < 20, "splitting ends")
        ex.need_splitting = False
        ex.find_indic_matras_and_viramas()
        ex.find_marks_on_same_bases()
        ex.find_productive_marks()
        ex.find_second_marks()
    if len(ex.clusters) != nraw:
        x.cover('split')
    after = totals(ex.clusters)
    x.observe("before", {'set': []} if not before else [sorted([b[1] for b in before])])
    x.check(len(before) == len(after), "no character appears or disappears")
    for b in before:
        x.check(b in after, "every character keeps its number of occurrences")
    for e in ex.clusters:
        if len(e.trailers) and e.base != '':
            for t in e.trailers:
                x.check(not (0x93E <= ord(t) <= 0x94D), "vowel signs stand alone")
    # whole analysis on a fresh object
    ex2 = h_exemplars.make()
    ex2.many_bases = many
    ex2.process(text)
    ex2.analyze()
    sets = [ex2._main, ex2._auxiliary, ex2._punctuation, ex2._digits]
    for s, nm in zip(sets, ('main', 'auxiliary', 'punctuation', 'digits')):
        if s:
            x.cover(nm)
    for e in ex.clusters:
        x.check(any(e.text in s for s in sets), "every exemplar is classified")
    for i, k in enumerate(kinds):
        c = text[i]
        if k == 'p':
            x.check(c in ex2._punctuation, "punctuation is in the punctuation set")
        if k == 'd' and (i + 1 == len(kinds) or kinds[i + 1] not in 'mvzw'):
            x.check(c in ex2._digits, "a plain digit is in the digits set")
        if k == 'h':
            x.check(c in ex2._auxiliary and c not in ex2._main, "an ignorable base is auxiliary")
