"""A filled-in spreadsheet becomes an LDML document of just its cells."""
from sldr.ldml import Ldml
import h_ldml
import h_sheet

#xml
#symlib odf.teletype -
PROPERTY = 'S01'
BOUNDS = ("TSV files and ODS sheets (cells run-length coded in several ways) of 1 to 6 rows of every kind: paths with and without "
          "attributes, attributes as values, tables of one and two dimensions in either direction, tables of several paths, rows "
          "without a path or without values, short rows, tables of 7 rows or 12 columns, other sheets, cells in parts (spans, spaces, tabs, line "
          "breaks), covered cells and cells with comments; every value empty or 1 to 2 (the quick tier) or 3 arbitrary characters")
ASSUMPTIONS = ["the values of TSV cells have no tab, line end or leading double quote, except where they are quoted",
               "a value that becomes an attribute, or a heading of a row or column, has not both kinds of quotes in it",
               "a table ends with a row without path (or the end of the file)",
               "odfpy keeps its nodes as they are put together (sheets are not saved to files)"]
COVERS = ['text', 'attribute', '1d', '2d', '2d reversed', 'several paths', 'empty cell', 'later', 'quoted', 'heading', 'short row',
          'other sheet', 'end of table', 'written', 'path with value', 'large', 'quotes', 'headings', 'far', 'parts', 'covered', 'comment']


def cal(*rest):
    return [("dates", {}), ("calendars", {}), ("calendar", {"type": "gregorian"})] + list(rest)


GREG = 'dates/calendars/calendar[@type="gregorian"]/'
MONTH = GREG + "months/monthContext[@type='format']/monthWidth[@type='$col']/month[@type='$row']"
MONTHR = GREG + "months/monthContext[@type='format']/monthWidth[@type='$row']/month[@type='$col']"


def month(width, m):
    return cal(("months", {}), ("monthContext", {"type": "format"}), ("monthWidth", {"type": width}), ("month", {"type": m}))


def cases(tier):
    r = []
    more = tier == 'thorough'
    for kind in ("tsv", "ods"):
        for name in ("plain", "attr", "table1", "table2", "table2r", "several", "mixed", "short", "again", "heading"):
            r.append([kind, name, 1])
            r.append([kind, name, 2])
            if more:
                r.append([kind, name, 3])
        r.append([kind, "written", 1])
        for name in ("heads2", "heads2r", "heads2x"):
            r.append([kind, name, 1])
            if more:
                r.append([kind, name, 2])
        for name in ("long1", "wide2", "wide2r", "wide2x", "tall2"):
            r.append([kind, name, 1])
    r.append(["tsv", "quoted", 1])
    r.append(["tsv", "quoted", 2])
    r.append(["ods", "sheets", 1])
    r.append(["ods", "repeats", 1])
    for kind in ("tsv", "ods"):
        r += [[kind, "far", n] for n in (1, 2) if n == 1 or more]
    for how in range(len(HOW)):
        r += [["ods", "parts", n, how] for n in (1, 2) if n == 1 or more]
    r += [["ods", "covered", n] for n in (1, 2)]
    r += [["ods", "comment", n] for n in (1, 2)]
    if more:
        r.append(["tsv", "quoted", 3])
    return r


class Sheet(object):
    """rows of a sheet and what is to come of them"""
    def __init__(self, x, kind, n):
        self.x = x
        self.kind = kind
        self.n = n
        self.rows = []
        self.want = []
        self.count = 0
        self.letters = False

    def attvalue(self, name, n):
        """what may be in a path"""
        x = self.x
        v = x.str(name, n)
        h_ldml.xmlchars(x, v)
        x.assume(x.not_(x.and_("'" in v, '"' in v)))
        if "'" in v or '"' in v:
            x.cover('quotes')
        for c in v:
            x.assume(x.not_(x.or_(c == '\t', c == '\r', c == '\n')))
        if self.kind == 'tsv':
            x.assume(v[0] != '"')
        return v

    def value(self, letters=False):
        """a cell: empty or not"""
        x = self.x
        self.count += 1
        name = "v%d" % self.count
        if not x.bool(name + "?"):
            x.cover('empty cell')
            return ""
        if letters and not self.letters:
            return self.attvalue(name, self.n)
        v = x.str(name, self.n)
        if self.letters:
            for c in v:
                x.assume(x.or_(x.and_('a' <= c, c <= 'z'), x.and_('A' <= c, c <= 'Z'), c == '-'))
            return v
        h_ldml.xmlchars(x, v)
        if self.kind == 'tsv':
            for c in v:
                x.assume(x.not_(x.or_(c == '\t', c == '\r', c == '\n')))
            x.assume(v[0] != '"')
        return v

    def row(self, *cells):
        self.rows.append([[c, 1] if not isinstance(c, list) else c for c in ["A"] + list(cells)])

    def add(self, path, text):
        for i in range(len(self.want)):
            if self.want[i][0] == path:
                self.want[i] = (path, text)
                self.x.cover('later')
                return
        self.want.append((path, text))

    def plain(self, path, steps, tail=()):
        v = self.value()
        self.row(path, "about", v, *tail)
        if v != "":
            self.x.cover('text')
            self.add(steps, v)

    def attr(self, path, steps, at):
        v = self.value(True)
        self.row(path, "", v)
        if v != "":
            self.x.cover('attribute')
            self.add(steps[:-1] + [(steps[-1][0], {at: v})], "")

    def blank(self):
        self.x.cover('end of table')
        self.row("", "about", "not this", "nor this")

    def table1(self, heads=("sun", "mon")):
        self.row("table1d(" + GREG + "days/dayContext[@type='format']/dayWidth[@type='wide']/day[@type='$row'])", "h", "value")
        for d in heads:
            v = self.value()
            self.row(d, "about", v, "and this is not")
            if v != "":
                self.x.cover('1d')
                self.add(cal(("days", {}), ("dayContext", {"type": "format"}), ("dayWidth", {"type": "wide"}),
                             ("day", {"type": d})), v)

    def table2(self, rev=False, rows=("1", "2"), short=False):
        cols = ("wide", "narrow")
        self.row(("table2dr(" + MONTHR if rev else "table2d(" + MONTH) + ")", "h", cols[0], cols[1], "", "more")
        for m in rows:
            vs = [self.value(), "" if short else self.value()]
            if short:
                self.x.cover('short row')
                self.row(m, "about", vs[0])
            else:
                self.row(m, "about", vs[0], vs[1], "", "not this")
            for c, v in zip(cols, vs):
                if v != "":
                    self.x.cover('2d reversed' if rev else '2d')
                    self.add(month(m, c) if rev else month(c, m), v)

    def several(self):
        self.row("table2dx(localeDisplayNames/languages/language[@type='$row'],localeDisplayNames/scripts/script[@type='$row'])",
                 "h", "language", "script", "")
        for code in ("aa", "", "cc", "bb"):
            if code == "cc":
                # no values at all
                self.row("", code)
                continue
            vs = [self.value(), self.value()] if code else ["x", "y"]
            self.row("", code, vs[0], vs[1], "not this")
            for (g, e), v in zip((("languages", "language"), ("scripts", "script")), vs):
                if v != "" and code != "":
                    self.x.cover('several paths')
                    self.add([("localeDisplayNames", {}), (g, {}), (e, {"type": code})], v)


COLS = ["wide", "narrow", "short", "abbreviated", "wide-x", "narrow-x", "short-x"]


def large(s, x, name):
    """a table of many rows or columns with a hole somewhere"""
    n = 7
    hole = x.choice("hole", [None] + list(range(n)))
    vs = []
    for i in range(n):
        v = x.str("w%d" % i, s.n)
        h_ldml.xmlchars(x, v)
        if s.kind == 'tsv':
            for c in v:
                x.assume(x.not_(x.or_(c == '\t', c == '\r', c == '\n', c == '"')))
        vs.append("" if i == hole else v)
    x.cover('large')
    if name == 'long1':
        s.row("table1d(" + GREG + "days/dayContext[@type='format']/dayWidth[@type='wide']/day[@type='$row'])", "h", "value")
        for c, v in zip(COLS, vs):
            s.row(c, "", v)
            if v != "":
                s.add(cal(("days", {}), ("dayContext", {"type": "format"}), ("dayWidth", {"type": "wide"}), ("day", {"type": c})), v)
    elif name == 'wide2x':
        ts = [("languages", "language"), ("scripts", "script"), ("territories", "territory"), ("variants", "variant")]
        s.row("table2dx(" + ",".join("localeDisplayNames/" + g + "/" + e + "[@type='$row']" for g, e in ts) + ")", "h", *COLS)
        s.row("", "aa", *vs)
        for (g, e), v in zip(ts, vs):
            if v != "":
                s.add([("localeDisplayNames", {}), (g, {}), (e, {"type": "aa"})], v)
    elif name == 'tall2':
        s.row("table2d(" + MONTH + ")", "h", COLS[0])
        for c, v in zip(COLS, vs):
            s.row(c, "", v)
            if v != "":
                s.add(month(COLS[0], c), v)
    else:
        rev = name == 'wide2r'
        s.row(("table2dr(" + MONTHR if rev else "table2d(" + MONTH) + ")", "h", *COLS)
        s.row("1", "about", *(vs + ["not this"]))
        for c, v in zip(COLS, vs):
            if v != "":
                s.add(month("1", c) if rev else month(c, "1"), v)


# a cell in parts: texts, spans as lists, spaces as numbers, tabs and line breaks
HOW = [["v", ["w"]], [["v"]], [["v", ["w"]], "u"], ["v", 0, "w"], ["v ", 2, "w"], ["v", ("t",), "w", ("n",), "u"], [0, "v"], ["v", ["w", 3], 0],
       ["", ["v"], "w"]]


def fillin(x, s, how, texts):
    res = []
    for a in how:
        if isinstance(a, list):
            res.append(fillin(x, s, a, texts))
        elif isinstance(a, str) and a[:1].isalpha():
            v = x.str("part%d" % len(texts), s.n)
            h_ldml.xmlchars(x, v)
            texts.append(v + a[1:])
            res.append(texts[-1])
        else:
            texts.append(" " * (a or 1) if isinstance(a, int) else {'t': "\t", 'n': "\n"}[a[0]] if isinstance(a, tuple) else a)
            res.append(a)
    return res


def run(x, case):
    kind, name, n = case[:3]
    s = Sheet(x, kind, n)
    sheets = None
    s.row("", "", "")
    if name == 'plain':
        s.plain("characters/exemplarCharacters", [("characters", {}), ("exemplarCharacters", {})])
        s.plain('characters/exemplarCharacters[@type="auxiliary"]',
                [("characters", {}), ("exemplarCharacters", {"type": "auxiliary"})])
        x.cover('path with value')
        s.row("", "", "not this")
        s.plain("delimiters/quotationStart", [("delimiters", {}), ("quotationStart", {})], ("", "not this"))
    elif name == 'attr':
        s.attr("identity/language[@type]", [("identity", {}), ("language", {})], "type")
        s.attr("numbers/symbols[@numberSystem]", [("numbers", {}), ("symbols", {})], "numberSystem")
        s.plain('dates/timeZoneNames/zone[@type="America/Nuuk"]/exemplarCity',
                [("dates", {}), ("timeZoneNames", {}), ("zone", {"type": "America/Nuuk"}), ("exemplarCity", {})])
    elif name == 'table1':
        s.table1()
        s.blank()
        s.plain("delimiters/quotationEnd", [("delimiters", {}), ("quotationEnd", {})])
    elif name in ('table2', 'table2r'):
        s.table2(name == 'table2r')
    elif name == 'several':
        s.several()
    elif name == 'mixed':
        s.table2(rows=("1",))
        s.blank()
        s.table1(("sun",))
        s.blank()
        s.table2(True, ("wide",))
        s.blank()
        s.plain("delimiters/quotationStart", [("delimiters", {}), ("quotationStart", {})])
    elif name == 'short':
        s.table2(rows=("1", "2"), short=True)
        s.blank()
        s.row("delimiters/quotationEnd", "about")
        s.table2(True, rows=("wide",), short=True)
        s.blank()
        s.row("table1d(delimiters/$row)", "h", "v")
        s.row("quotationStart", "about")
        s.rows.append([["A", 1]])
        s.rows.append([])
    elif name == 'again':
        s.plain("delimiters/quotationStart", [("delimiters", {}), ("quotationStart", {})])
        s.plain("delimiters/quotationStart", [("delimiters", {}), ("quotationStart", {})])
        s.table1(("mon", "mon"))
    elif name in ("long1", "wide2", "wide2r", "wide2x", "tall2"):
        large(s, x, name)
    elif name in ('heads2', 'heads2r', 'heads2x'):
        h, g, v = s.attvalue("h", n), s.attvalue("g", n), s.value()
        x.cover('headings')
        if name == 'heads2x':
            s.row("table2dx(localeDisplayNames/languages/language[@type=\"$row\"],localeDisplayNames/scripts/script[@type='$row'])", "h")
            s.row("", h, "", v)
            path = [("localeDisplayNames", {}), ("scripts", {}), ("script", {"type": h})]
        elif name == 'heads2r':
            s.row("table2dr(" + MONTHR + ")", "h", h)
            s.row(g, "about", v)
            path = month(g, h)
        else:
            s.row("table2d(" + MONTH.replace("'$col'", '"$col"') + ")", "h", h)
            s.row(g, "about", v)
            path = month(h, g)
        if v != "":
            s.add(path, v)
    elif name == 'heading':
        h = s.attvalue("h", n)
        s.table1((h,))
        x.cover('heading')
    elif name == 'written':
        s.letters = True
        s.attr("identity/language[@type]", [("identity", {}), ("language", {})], "type")
        s.plain("delimiters/quotationEnd", [("delimiters", {}), ("quotationEnd", {})])
        s.plain("delimiters/quotationStart", [("delimiters", {}), ("quotationStart", {})])
    elif name == 'sheets':
        s.plain("delimiters/quotationStart", [("delimiters", {}), ("quotationStart", {})])
        t = Sheet(x, kind, n)
        t.count = 10
        t.plain("delimiters/quotationEnd", [("delimiters", {}), ("quotationEnd", {})])
        no = Sheet(x, kind, n)
        no.row("delimiters/alternateQuotationEnd", "about", "not this")
        s.want += t.want
        sheets = [["Notes", no.rows], ["Core", s.rows], ["Basic", t.rows]]
        x.cover('other sheet')
    elif name == 'far':
        # one value far from the others
        cols = ["wide", "narrow", "short"] + ["c%s" % c for c in "abcdefghi"]
        s.row("table2d(" + MONTH + ")", "h", *cols)
        at = x.choice("at", [0, 1, 8, 9, 10, 11])
        v = s.value()
        s.row("1", "about", *(([["", at]] if at else []) + [v] + ([["", 11 - at]] if at < 11 else []) + [["", 1000]]))
        w = s.value()
        # the same in all
        s.row("2", "about", [w, 12], ["", 9])
        x.cover('far')
        if v != "":
            s.add(month(cols[at], "1"), v)
        if w != "":
            for c in cols:
                s.add(month(c, "2"), w)
    elif name == 'parts':
        x.cover('parts')
        texts = []
        parts = fillin(x, s, HOW[case[3]], texts)
        where = x.choice("where", ["value", "1d"])
        if where == "value":
            s.rows.append([["A", 1], ["delimiters/quotationStart", 1], ["about", 1], [parts, 1], ["not this", 1]])
            s.want.append(([("delimiters", {}), ("quotationStart", {})], "".join(texts)))
        else:
            s.rows.append([["A", 1], [["table1d(", ["delimiters/"], "$row)"], 1], ["h", 1]])
            s.rows.append([["A", 1], [["quotation", ["Start"]], 1], [["about"], 1], [parts, 1]])
            s.want.append(([("delimiters", {}), ("quotationStart", {})], "".join(texts)))
    elif name == 'covered':
        x.cover('covered')
        v, w = s.value(), s.value()
        s.rows.append([["A", 1], ["delimiters/quotationStart", 1], ["", 1, 'covered'], [v, 1], ["", 1, 'covered'], ["not this", 1]])
        s.row("table2d(" + MONTH + ")", "h", "wide", "narrow", "short", "abbreviated")
        s.rows.append([["A", 1], ["1", 1], ["", 1, 'covered'], [v, 1], ["", 2, 'covered'], [w, 1]])
        if v != "":
            s.want += [([("delimiters", {}), ("quotationStart", {})], v), (month("wide", "1"), v)]
        if w != "":
            s.want.append((month("abbreviated", "1"), w))
    elif name == 'comment':
        x.cover('comment')
        v, w = s.value(), s.value()
        s.rows.append([["A", 1], ["delimiters/quotationStart", 1], ["", 1, 'comment'], [v, 1, 'comment']])
        s.rows.append([["A", 1], ["delimiters/quotationEnd", 1, 'comment'], ["", 1, 'empty'], [w, 2, 'comment'], ["", 10, 'empty']])
        for e, t in (("quotationStart", v), ("quotationEnd", w)):
            if t != "":
                s.want.append(([("delimiters", {}), (e, {})], t))
    elif name == 'repeats':
        v = s.value()
        w = s.value()
        s.row(["table2d(" + MONTH + ")", 1], ["h", 1], ["wide", 1], ["narrow", 1], ["", 3], ["", 1000])
        s.row("1", ["about", 1], [v, 2], ["", 1022])
        s.row(["2", 1], ["", 2], [w, 1])
        s.row("3", ["same", 2], ["", 1020])
        s.row("", ["", 1022])
        s.row("delimiters/quotationStart", "about", ["", 1022])
        s.row("delimiters/quotationEnd", ["", 1023])
        s.row(["delimiters/alternateQuotationEnd", 1], ["also", 2], ["", 1021])
        s.want = [([("delimiters", {}), ("alternateQuotationEnd", {})], "also"), (month("wide", "3"), "same")]
        if v != "":
            s.want += [(month("wide", "1"), v), (month("narrow", "1"), v)]
        if w != "":
            s.want.append((month("narrow", "2"), w))
    elif name == 'quoted':
        v = x.str("q", n)
        h_ldml.xmlchars(x, v)
        s.row("delimiters/quotationStart", "about", '"' + v.replace('"', '""') + '"')
        s.want.append(([("delimiters", {}), ("quotationStart", {})], v))
        x.cover('quoted')
    sh, doc = h_sheet.make(x, kind, sheets or [["Core", s.rows]])
    sh.process()
    h_sheet.check_leaves(x, sh.ldml.root, s.want)
    if name == 'written':
        sh.writeldml(x.path("out.xml"))
        h_sheet.check_leaves(x, Ldml(x.path("out.xml")).root, s.want)
        x.cover('written')
