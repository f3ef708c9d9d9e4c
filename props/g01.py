"""Text is broken where ICU says, with the rules of the locale."""

#xml
PROPERTY = 'G01'
BOUNDS = ("two or three variables, of which each may refer to the others without a circle, with names of up to 3 characters and any letter as value; up to three rules with "
          "any order of their numbers, which may have decimals; rules of the locale, of its parent, or none; the four types; "
          "texts of two lines of up to three and two characters, ASCII, Latin-1, Devanagari or beyond the BMP, with any breaks")
ASSUMPTIONS = ["the package icu is replaced by a stand-in that keeps the rules and breaks at any places", "each variable is defined once"]
COVERS = ['refers', 'underscore', 'decimal', 'inherited', 'not flattened', 'missing', 'lang', 'beyond BMP', 'blank', 'outfile', 'stdout']
TYPES = {'lb': ("LineBreak", "Line"), 'gb': ("GraphemeClusterBreak", "Character"), 'wb': ("WordBreak", "Word"), 'sb': ("SentenceBreak", "Sentence")}
LOW = [('a', 'z')]
CHARS = [(' ', ' '), ('!', '~'), ('\xa1', '\xff'), ('\u0900', '\u097f'), ('\U00010000', '\U0010ffff')]


def cases(tier):
    return ["variables", "rules", "types", "inherit", "text", "lang"]


class Brk(object):
    def __init__(self, log, breaks):
        self.log = log
        self.breaks = breaks
        self.text = None

    def setText(self, t):
        self.text = t
        self.log.append(("text", t))

    def __iter__(self):
        return iter(self.breaks(self.text))


def icu(log, breaks):
    class RuleBasedBreakIterator(Brk):
        def __init__(self, rules):
            Brk.__init__(self, log, breaks)
            log.append(("rules", rules))

    class BreakIterator(object):
        pass

    def creator(name):
        def create(loc):
            log.append(("create", name, loc))
            return Brk(log, breaks)
        return create
    for n in ("Line", "Character", "Word", "Sentence"):
        setattr(BreakIterator, "create" + n + "Instance", staticmethod(creator(n)))

    class Locale(object):
        @staticmethod
        def createFromName(n):
            return "locale " + n
    return {"icu": {"RuleBasedBreakIterator": RuleBasedBreakIterator, "BreakIterator": BreakIterator, "Locale": Locale}}


def ldml(lang, segs):
    """segs: list of (type, variables, rules)"""
    text = '<ldml><identity><version number="1"/><language type="%s"/></identity><segmentations>' % lang
    for t, vs, rs in segs:
        text += '<segmentation type="' + t + '"><variables>'
        for k, v in vs:
            text += '<variable id="' + k + '">' + v + '</variable>'
        text += '</variables><segmentRules>'
        for i, r in rs:
            text += '<rule id="' + i + '">' + r + '</rule>'
        text += '</segmentRules></segmentation>'
    return text + '</segmentations></ldml>\n'


def go(x, args, text, breaks, outfile=False):
    log = []
    inf = x.file("in.txt", text)
    argv = [inf] + args
    out = x.path("out.txt")
    if outfile:
        argv += ["-o", out]
    status, printed, ns = x.script("icubreaktext", argv, icu(log, breaks))
    res = (x.readfile(out) if out in x.listfiles() else None) if outfile else printed
    x.observe("out", res)
    x.observe("log", log)
    return status or 0, res, log


def lines(log):
    """the lines of the rules given to ICU"""
    r = [l for l in log if l[0] == "rules"]
    if len(r) != 1:
        return None
    t = r[0][1]
    return [s.strip() for s in t.split(";") if s.strip()]


def whole(t):
    return [len(t)] if len(t) else []


def run(x, case):
    if case == "variables":
        v = [x.str("v%d" % i, 1, dom=LOW) for i in range(3)]
        names = [x.choice("n0", ["$a", "$a_b"]), x.choice("n1", ["$Z", "$b1"]), "$x"]
        if "_" in names[0]:
            x.cover('underscore')
        # which of them refer to which
        kind = x.choice("kind", [[None, None, None], [1, None, None], [None, 0, None], [2, None, 1], [1, 2, None], [None, 2, 0], [None, 0, 1]])
        vals = [v[i] + (names[kind[i]] if kind[i] is not None else "") for i in range(3)]
        if any(k is not None for k in kind):
            x.cover('refers')
        x.file("d/aa.xml", ldml("aa", [("LineBreak", [(names[i], vals[i]) for i in range(3)], [("1", names[1] + "*")])]))
        status, out, log = go(x, ["-l", "aa", "-d", x.path("d"), "-F"], "q\n", whole)
        x.cover('not flattened')
        got = lines(log)
        x.check(status == 0 and got is not None, "ICU is asked")
        x.check(len(got) == 4 and got[3] == names[1] + "*", "the variables come before the rules")
        for i in range(3):
            mine = [j for j in range(3) if got[j].startswith(names[i] + "=")]
            x.check(len(mine) == 1 and got[mine[0]] == names[i] + "=[" + vals[i] + "]", "each variable is there once, as a set")
            if kind[i] is not None:
                used = [j for j in range(3) if got[j].startswith(names[kind[i]] + "=")]
                x.check(used[0] < mine[0], "a variable comes after those that it uses")
        return
    if case == "rules":
        # any order of three numbers of two digits, with or without a fraction
        n = [x.str("n%d" % i, 1, dom="129") + x.choice("f%d" % i, [["", "0", ".1"], ["", ".5"], ["", ".2"]][i]) for i in range(3)]
        num = []
        for w in n:
            if "." in w:
                x.cover('decimal')
                num.append((ord(w[0]) - 48) * 10 + int(w[2]))
            elif len(w) == 2:
                num.append((ord(w[0]) - 48) * 100)
            else:
                num.append((ord(w[0]) - 48) * 10)
        x.assume(x.and_(num[0] != num[1], num[0] != num[2], num[1] != num[2]))
        r = [x.str("r%d" % i, 2, dom=LOW) for i in range(3)]
        x.file("d/aa.xml", ldml("aa", [("LineBreak", [], [(n[i], ["", "\n "][i % 2] + r[i] + " ") for i in range(3)])]))
        status, out, log = go(x, ["-l", "aa", "-d", x.path("d"), "-F"], "q\n", whole)
        order = [0, 1, 2]
        order.sort(key=lambda i: num[i])
        x.check(lines(log) == [r[i] for i in order], "the rules are in the order of their numbers")
        return
    if case == "types":
        r = {t: x.str("r" + t, 2, dom=LOW) for t in sorted(TYPES)}
        x.file("d/a/aa.xml", ldml("aa", [(TYPES[t][0], [], [("1", r[t])]) for t in sorted(TYPES)]))
        t = x.choice("t", [None] + sorted(TYPES))
        status, out, log = go(x, ["-l", "aa", "-d", x.path("d"), "-F"] + (["-t", t] if t else []), "q\n", whole)
        x.check(lines(log) == [r[t or 'lb']], "the rules are those of the type that is asked for, or for lines")
        return
    if case == "inherit":
        r = x.str("r", 2, dom=LOW)
        p = x.str("p", 2, dom=LOW)
        where = x.choice("where", ["own", "parent", "none", "nofile"])
        flat = x.choice("flat", [True, False])
        x.file("d/root.xml", ldml("root", []))
        x.file("d/aa.xml", ldml("aa", [("LineBreak", [], [("1", p)])] if where != "none" else []))
        if where != "nofile":
            x.file("d/aa_BB.xml", ldml("aa", [("LineBreak", [], [("1", r)])] if where == "own" else []).replace(
                '</identity>', '<territory type="BB"/></identity>'))
        if where == "nofile":
            return
        status, out, log = go(x, ["-l", "aa_BB", "-d", x.path("d")] + ([] if flat else ["-F"]), "qq\n", whole)
        if where == "own":
            x.check(lines(log) == [r], "the rules of the locale")
        elif where == "parent" and flat:
            x.cover('inherited')
            x.check(lines(log) == [p], "the rules of the locale that it inherits from")
        else:
            x.cover('missing')
            x.check(status == 0 and not [l for l in log if l[0] != "x"], "without rules nothing is broken")
            x.check(not out or "segmentations" in out, "and no text is written")
            return
        x.check(out == "qq\n", "the text is written")
        return
    if case in ("text", "lang"):
        # the breaks of a text: any places between its characters
        ls = []
        for i in range(2):
            n = x.choice("n%d" % i, [0, 1, 2, 3] if i == 0 else [1])
            if n == 0:
                x.cover('blank')
            cs = [x.str("c%d%d" % (i, j), 1, dom=CHARS if 0 < j < n - 1 else CHARS[1:]) for j in range(n)]
            ls.append("".join(cs))
        asked = {}

        def breaks(t):
            # positions count in UTF-16
            r = []
            pos = 0
            for j in range(len(t)):
                pos += 2 if ord(t[j]) > 0xFFFF else 1
                if j == len(t) - 1 or asked[len(t)][j]:
                    r.append(pos)
            return r
        for n in (0, 1, 2, 3):
            asked[n] = [x.choice("b%d%d" % (n, j), [False, True]) for j in range(n - 1)] if any(len(l) == n for l in ls) else []
        want = ""
        for l in ls:
            for j in range(len(l)):
                if ord(l[j]) > 0xFFFF:
                    x.cover('beyond BMP')
                want += l[j]
                if j < len(l) - 1 and asked[len(l)][j]:
                    want += "|"
            want += "\n"
        outfile = case == "lang"
        x.cover('outfile' if outfile else 'stdout')
        if case == "text":
            r = x.str("r", 2, dom=LOW)
            x.file("d/aa.xml", ldml("aa", [("LineBreak", [], [("1", r)])]))
            status, out, log = go(x, ["-l", "aa", "-d", x.path("d"), "-F"], "  " + ls[0] + "\n" + ls[1] + " \n", breaks)
        else:
            x.cover('lang')
            t = x.choice("t", [None] + sorted(TYPES)) if len(ls[0]) < 2 else None
            status, out, log = go(x, ["-l", "aa"] + (["-t", t] if t else []), ls[0] + "\n" + ls[1] + "\n", breaks, True)
            x.check(log[0] == ("create", TYPES[t or "lb"][1], "locale aa"), "without a directory the rules of ICU for the locale are used")
        x.check(status == 0 and out == want, "each line is written, with | where it is broken")
        return
