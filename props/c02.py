"""The coverage of a locale is what it has of what English has, level by level."""
#xml
PROPERTY = 'C02'
BOUNDS = ("English and one or two other locales, each with any of 5 items (letters of the items arbitrary where that matters), with white space between "
          "elements or without; levels with variables, targets, and conditions on the language, script and territory; a currency with any first and last day "
          "in years of one arbitrary digit, on any day; one level or all; locales in a directory or asked for")
ASSUMPTIONS = ["the package langtag, today and the pool of processes are replaced by stand-ins"]
COVERS = ['core', 'basic', 'variable', 'calendar', 'currency', 'no currency', 'condition', 'no condition', 'level', 'unknown', 'nothing', 'compact',
          'sorted', 'more than English', 'cldr', 'pool']
LOW = [('a', 'c')]
BUDGET = 200
LEVELS = ['core', 'posix', 'minimal', 'basic', 'moderate', 'modern']


def cases(tier):
    return ["items", "variable", "target", "currency", "condition", "level", "two", "source"]


class Obj(object):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class Result(object):
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v


class Pool(object):
    def map_async(self, fn, items):
        return Result([fn(i) for i in items])


def doc(loc, items, gap, ident=""):
    """items: (group, element) pairs"""
    s = '<ldml>' + gap + '<identity>' + gap + '<language type="%s"/>' % loc + ident + '</identity>' + gap
    groups = {}
    for g, e in items:
        groups[g] = groups.get(g, "") + e + gap
    for g, e in groups.items():
        o, c = "", ""
        for p in g.split("/"):
            k = p.split(" ")[0]
            o += '<' + p + '>' + gap
            c = '</' + k + '>' + gap + c
        s += o + e + c
    return s + '</ldml>\n'


def level(value, match, more=""):
    return '<coverageLevel value="%s" match="%s"%s/>' % (value, match, more)


EX = ("characters", '<exemplarCharacters>[a]</exemplarCharacters>')
CORE = level("core", "characters/exemplarCharacters")


def run(x, case):
    tags = {"en": Obj(lang="en", script="Latn", region="US"), "aa": Obj(lang="aa", script="Latn", region="ET"),
            "bb": Obj(lang="bb", script="Cyrl", region="RU")}

    def lookup(tag, default=None, **kw):
        if tag not in tags:
            return default
        return tags[tag]

    class Date(object):
        @staticmethod
        def today():
            return now
    now = Obj(year=2020, month=5, day=15)
    levels = [CORE]
    var = ""
    sup = ""
    gap = x.choice("gap", ["", "\n  "]) if case in ("items", "target") else "\n"
    if not gap:
        x.cover('compact')
    docs = {"en": [EX], "aa": []}
    # what each has at each level
    have = {"en": {"core": 1}, "aa": {}}
    ident = {}
    argv = []
    if case == "items":
        levels.append(level("basic", "localeDisplayNames/languages/language[@type='aa']"))
        levels.append(level("modern", "delimiters/quotation(Start|End)"))
        for l in ("en", "aa"):
            if l == "aa" and x.choice("ex" + l, [True, False]):
                docs[l].append(EX)
                have[l]["core"] = 1
            if x.choice("lang" + l, [True, False]):
                docs[l].append(("localeDisplayNames/languages", '<language type="aa">x</language>'))
                have[l]["basic"] = 1
            for k in ("Start", "End"):
                if x.choice("q" + k + l, [True, False]):
                    docs[l].append(("delimiters", '<quotation%s>x</quotation%s>' % (k, k)))
                    have[l]["modern"] = have[l].get("modern", 0) + 1
            # what is of no level
            docs[l] += x.choice("other" + l, [[], [("characters", '<exemplarCharacters type="index">[A]</exemplarCharacters>'),
                                                   ("layout/orientation", '<characterOrder>left-to-right</characterOrder>')]])
    elif case == "variable":
        x.cover('variable')
        var = '<coverageVariable key="%langs" value="(ab|b[ab])"/><coverageVariable key="%what" value="language"/>'
        levels.append(level("basic", "localeDisplayNames/%whats/%what[@type='%langs']".replace("%whats", "languages")))
        for l in ("en", "aa"):
            c = x.char("c" + l, LOW)
            d = x.char("d" + l, LOW)
            docs[l].append(("localeDisplayNames/languages", '<language type="' + c + d + '">x</language>'))
            if x.or_(x.and_(c == "a", d == "b"), x.and_(c == "b", d != "c")):
                have[l]["basic"] = 1
    elif case == "target":
        x.cover('calendar')
        n = x.choice("n", [1, 2])
        sup = ('<calendarPreferenceData><calendarPreference territories="SD ET" ordering="%s"/><calendarPreference territories="US" ordering="gregorian"/>'
               '</calendarPreferenceData>' % ["ethiopic", "gregorian ethiopic"][n - 1])
        levels.append(level("basic", "dates/calendars/calendar[@type='${Target-Calendars}']/x"))
        levels.append(level("modern", "localeDisplayNames/languages/language[@type='${Target-Language}']"))
        for l in ("en", "aa"):
            cal = x.choice("cal" + l, ["gregorian", "ethiopic", "buddhist"])
            docs[l].append(('dates/calendars/calendar type="%s"' % cal, '<x>y</x>'))
            if cal in {"en": ["gregorian"], "aa": ["ethiopic", "gregorian"][:n]}[l]:
                have[l]["basic"] = 1
            c = x.choice("lang" + l, ["aa", "en", "bb"])
            docs[l].append(("localeDisplayNames/languages", '<language type="%s">x</language>' % c))
            if c == l:
                have[l]["modern"] = 1
    elif case == "currency":
        def date(nm):
            c = x.char(nm, [('0', '9')])
            m = x.choice(nm + "m", ["05", "06"])
            d = x.choice(nm + "d", ["14", "15"]) if m == "05" else "15"
            return c, m, d, "202" + c + "-" + m + "-" + d
        now.year = 2020 + x.int("now", 0, 9)

        def before(c, m, d):
            """is it before today?"""
            return x.or_(2020 + int(c) < now.year, x.and_(2020 + int(c) == now.year, m == "05" and d == "14"))

        def after(c, m, d):
            return x.or_(2020 + int(c) > now.year, x.and_(2020 + int(c) == now.year, m == "06"))
        kind = x.choice("kind", ["from", "to", "both", "none"])
        attrs = ""
        valid = True
        if kind in ("from", "both"):
            c, m, d, t = date("f")
            attrs += ' from="' + t + '"'
            valid = x.not_(after(c, m, d))
        if kind in ("to", "both"):
            c, m, d, t = date("t")
            attrs += ' to="' + t + '"'
            valid = x.and_(valid, x.not_(before(c, m, d)))
        sup = '<currencyData><region iso3166="ET"><currency iso4217="ETB"' + attrs + '/><currency iso4217="OLD"/></region></currencyData>'
        levels.append(level("basic", "numbers/currencies/currency[@type='${Target-Currencies}']/symbol"))
        cur = '<symbol>y</symbol>'
        docs["en"].append(('numbers/currencies/currency type=""', cur))
        has = x.choice("has", ["ETB", "OLD"])
        docs["aa"].append(('numbers/currencies/currency type="%s"' % has, cur))
        have["en"]["basic"] = 1
        if valid:
            x.cover('currency')
        else:
            x.cover('no currency')
        if x.eq(valid, has == "ETB"):
            have["aa"]["basic"] = 1
    elif case == "condition":
        k = x.choice("k", [0, 1, 2])
        v = x.char("v", [('R', 'U')] if k == 2 else LOW)
        cond = [' inLanguage="' + v + 'a"', ' inScript="L' + v + 'tn"', ' inTerritory="(US|E' + v + ')"'][k]
        levels.append(level("basic", "delimiters/quotationStart", cond))
        holds = {"en": k == 2 or x.and_(k == 1, v == "a"), "aa": x.eq(v, ["a", "a", "T"][k])}
        for l in docs:
            docs[l].append(("delimiters", '<quotationStart>x</quotationStart>'))
            if holds[l]:
                have[l]["basic"] = 1
                x.cover('condition')
            else:
                x.cover('no condition')
    elif case == "level":
        x.cover('level')
        levels.append(level("basic", "delimiters/quotationStart"))
        for l in docs:
            docs[l].append(("delimiters", '<quotationStart>x</quotationStart>'))
            have[l]["basic"] = 1
        docs["aa"].append(EX)
        have["aa"]["core"] = 1
        only = x.choice("only", ["core", "basic", "modern"])
        argv += ["--level", only]
        for l in have:
            have[l] = {k: v for k, v in have[l].items() if k == only}
    elif case == "two":
        tags.pop("bb") if x.choice("unknown", [False, True]) else None
        docs["bb"] = []
        have["bb"] = {}
        levels.append(level("basic", "delimiters/quotation(Start|End)"))
        docs["en"] += [("delimiters", '<quotation%s>x</quotation%s>' % (k, k)) for k in ("Start", "End")]
        have["en"]["basic"] = 2
        for l in ("aa", "bb"):
            for k in ("Start", "End"):
                if x.choice("q" + k + l, [True, False]):
                    docs[l].append(("delimiters", '<quotation%s>x</quotation%s>' % (k, k)))
                    have[l]["basic"] = have[l].get("basic", 0) + 1
        if "bb" not in tags:
            x.cover('unknown')
            have["bb"] = {}
    else:
        docs["aa"].append(EX)
        have["aa"]["core"] = 1
        x.cover('cldr')
        ident["aa"] = '<special xmlns:sil="urn://www.sil.org/ldml/0.1"><sil:identity source="s%s"/></special>' % x.choice("source", ["cldr", "x"])
    for l, items in docs.items():
        x.file("in/" + ("" if l == "en" else l[0] + "/") + l + ".xml", doc(l, items, gap, ident.get(l, "")))
    x.file("sup/coverageLevels.xml", '<supplementalData><coverageLevels>' + var + "".join(levels) + '</coverageLevels></supplementalData>\n')
    x.file("sup/supplementalData.xml", '<supplementalData>' + sup + '</supplementalData>\n')
    argv += ["-i", x.path("in"), "-s", x.path("sup")]
    single = x.choice("single", [True, False]) if case in ("level", "source", "two") else True
    if single:
        argv.append("-S")
    else:
        x.cover('pool')
    wanted = sorted(docs)
    if case == "two" and x.choice("named", [False, True]):
        wanted = ["aa"]
        argv += ["-l", "aa"]
    out = None
    if case == "source":
        argv += ["-o", x.path("out.csv")]
    status, printed, ns = x.script("sldrcoverage", argv, {"langtag": {"lookup": lookup, "langtag": lookup}, "datetime": {"date": Date},
                                                          "multiprocessing": {"Pool": Pool}})
    x.check(status == 0, "the script succeeds")
    text = x.readfile(x.path("out.csv")) if case == "source" else printed
    rows = [r.split(",") for r in text.replace("\r", "").split("\n") if r]
    x.observe("rows", rows)
    x.check(rows[0] == ["langtag", "source"] + LEVELS, "there is a heading")
    want = []
    for l in wanted:
        if not have[l]:
            x.cover('nothing')
            continue
        p = []
        for k in LEVELS:
            h, e = have[l].get(k, 0), have["en"].get(k, 0)
            if h > e:
                x.cover('more than English')
            if h and k in ("core", "basic"):
                x.cover(k)
            p.append(100. * h / e if e else 0.)
        src = ident.get(l)
        src = "False" if l == "bb" and "bb" not in tags else "" if src is None else src.split('"')[3]
        want.append((-sum(p), l, src, ["%.2f" % v for v in p]))
    want.sort()
    if len(want) > 1 and want[0][1] > want[1][1]:
        x.cover('sorted')
    x.check(len(rows) == len(want) + 1, "there is a row for each locale that has anything")
    for r, (s, l, src, p) in zip(rows[1:], want):
        x.check(r[0] == l, "those that have most come first")
        x.check(r[2:] == p, "the percentages are what the locale has of what English has")
        x.check(r[1] == src, "the source is that of the identity")
