"""The longest exemplar already known is taken at every position of a text."""
import h_exemplars

#tab - Char.charType
#tab - Char.hasBinaryProperty
#tab - Char.getCombiningClass
#tab - Char.getIntPropertyValue
#tab - Char.ispunct
#tab - Char.isUUppercase
#tab - Char.isULowercase
#tab - Char.isUAlphabetic
#tab - Script.getScript
#tab - Script.getScriptCode
PROPERTY = 'E02'
BOUNDS = ("up to two (thorough three) known exemplars of 1-3 letters, texts of up to 5 letters and combining marks (thorough 6), the letters being any of a-z; "
          "every placement (main, auxiliary, index, punctuation) of the known exemplars; up to 2 of 1 to 3 and texts of 3 (thorough 4) of a, e, b, their composed "
          "forms and U+0301, composed or not")
ASSUMPTIONS = ["ICU normalisation is that of the letters used, script statistics are stubbed out", "text of plain lower case letters and U+0301"]
COVERS = ['multigraph', 'single', 'known single', 'longest', 'forms']


def cases(tier):
    r = [["main", [2], "llll"], ["auxiliary", [2], "llll"], ["index", [2], "lll"], ["punctuation", [2], "lll"],
         ["main", [2, 3], "llll"], ["main", [1, 2], "llll"], ["auxiliary", [3], "llll"], ["main", [2, 2], "llll"],
         ["main", [2], "lllll"], ["main", [1], "lml"], ["auxiliary", [1, 2], "lmllm"], ["main", [2], "llmm"],
         ["index", [1], "llm"], ["punctuation", [1], "lml"]]
    r += [["forms", [2], "ll"], ["forms", [1, 2], "lml"], ["forms", [2, 2], "lll"], ["forms", [3], "llm"]]
    if tier == 'thorough':
        r += [["forms", [1, 2], "llll"], ["forms", [2, 3], "llml"], ["forms", [3, 2], "lllm"]]
        r += [["main", [2, 3], "lllll"], ["main", [2, 2], "lllll"], ["index", [3, 2], "lllll"],
              ["auxiliary", [1, 3], "lllll"], ["main", [2], "llllll"], ["main", [1, 2, 3], "llmlm"],
              ["auxiliary", [2, 1], "llmllm"]]
    return r


COMPOSED = {"a": "\u00e1", "e": "\u00e9"}


def nfd(s):
    for b, c in COMPOSED.items():
        s = s.replace(c, b + "\u0301")
    return s


def nfc(s):
    s = nfd(s)
    for b, c in COMPOSED.items():
        s = s.replace(b + "\u0301", c)
    return s


def forms(x, case):
    """known exemplars and text may be composed or not"""
    which, sizes, pat = case
    dom = "aeb\u00e1\u00e9\u0301"
    known = [x.str("k%d" % i, k, dom) for i, k in enumerate(sizes)]
    for k in known:
        x.assume(k[0] != "\u0301")
    text = x.str("t", len(pat), dom)
    ex = h_exemplars.make()
    ex.ucd.normalize = lambda form, s: nfd(s) if form == 'NFD' else nfc(s)
    where = x.choice("which", ["main", "auxiliary", "index", "punctuation"])
    setattr(ex, where, "[" + " ".join(k if len(k) == 1 else "{" + k + "}" for k in known) + "]")
    ex.process(text)
    x.observe("clusters", [[e.text, c] for e, c in ex.clusters.items()])
    known = [nfd(k) for k in known]
    text = nfd(text)
    x.cover('forms')
    count(x, ex, known, text, ['m' if c == "\u0301" else 'l' for c in text])


def run(x, case):
    which, sizes, pat = case
    if which == 'forms':
        return forms(x, case)
    n = len(pat)
    n = len(pat)
    known = [x.str("k%d" % i, k, "abcdefghijklmnopqrstuvwxyz") for i, k in enumerate(sizes)]
    text = ""
    for i, c in enumerate(pat):
        text += x.str("t%d" % i, 1, "abcdefghijklmnopqrstuvwxyz") if c == 'l' else "\u0301"
    ex = h_exemplars.make()
    setattr(ex, which, "[" + " ".join(k if len(k) == 1 else "{" + k + "}" for k in known) + "]")
    ex.process(text)
    x.observe("clusters", [[e.text, c] for e, c in ex.clusters.items()])
    count(x, ex, known, text, pat)


def count(x, ex, known, text, pat):
    n = len(text)
    want = []
    i = 0
    while i < n:
        best = ""
        for k in known:
            if len(k) > len(best) and text[i:i + len(k)] == k:
                if len(best) > 1:
                    x.cover('longest')
                best = k
        if best:
            x.cover('multigraph' if len(best) > 1 else 'known single')
        elif pat[i] == 'm':         # a mark with no base is left out
            i += 1
            continue
        else:
            x.cover('single')
            best = text[i]
            while i + len(best) < n and pat[i + len(best)] == 'm':
                best += "\u0301"
        i += len(best)
        for w in want:
            if w[0] == best:
                w[1] += 1
                break
        else:
            want.append([best, 1])
    got = [[e.text, c] for e, c in ex.clusters.items()]
    x.check(len(got) == len(want), "as many different exemplars as the text has")
    for w in want:
        x.check(w in got, "every exemplar is counted as often as it occurs")
