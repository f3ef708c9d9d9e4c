"""Filling in a spreadsheet from a document puts every value into its own cell and reading it gives the values back."""
from sldr.ldml import Ldml
from sldr.sheet import Sheet
import h_ldml
import h_sheet

#xml
#symlib odf.teletype -
PROPERTY = 'S02'
BOUNDS = ("template sheets of 1 to 5 rows and up to 12 columns of every kind, the blank cells of each row run-length coded in any of 10 ways (also rows "
          "that end before the column), or with cells that have texts, spans, comments or empty paragraphs, or are covered, in 7 ways, documents that have or do not have each of the values, values of 1 to 2 (thorough 3) "
          "arbitrary characters, also an element without text")
ASSUMPTIONS = ["odfpy keeps its nodes as they are put together (sheets are not saved to files)"]
COVERS = ['text', 'attribute', '1d', '2d', '2d reversed', 'several paths', 'missing', 'other type', 'no text', 'split', 'extended',
          'used cell', 'wide', 'far', 'old text', 'comment', 'empty', 'covered', 'quotes']
HEADS = ["aa", "o'x", 'o"x']
# how the cells after the first three of a row are coded: runs of blank cells, texts between them
LAYOUTS = {
    'single': [1, 1, 1, 1, 1],
    'run': [8],
    'long': [1021],
    'two': [2, 6],
    'first': [1, 7],
    'text': [1, 2, "after", 5],
    'none': [],
    'one': [1],
    'three': [3],
    'text2': [3, "after"],
    'far': [10, 5],
    # cells that are not blank: a text, how often, how
    'old': [("x", 1), ("y", 1)],
    'oldrun': [("x", 4), 2],
    'oldrun2': [1, ("xy", 3), "after"],
    'oldspan': [(["a", ["b", 2, ["c"]], 0], 1), (["d", ("t",), "e"], 2)],
    'comment': [("", 1, 'comment'), ("old", 2, 'comment'), 3],
    'empty': [("", 1, 'empty'), ("", 2, 'empty'), 2],
    'covered': [("", 1, 'covered'), 1, ("", 2, 'covered'), ("last", 1)],
}
USED = [k for k in LAYOUTS if any(isinstance(l, tuple) for l in LAYOUTS[k])]


def textof(l):
    if isinstance(l, list):
        return "".join(textof(a) for a in l)
    return " " * (l or 1) if isinstance(l, int) else {'t': "\t", 'n': "\n"}[l[0]] if isinstance(l, tuple) else l

GREG = 'dates/calendars/calendar[@type="gregorian"]/'
DAY = GREG + "days/dayContext[@type='format']/dayWidth[@type='wide']/day[@type='%s']"
MONTH = GREG + "months/monthContext[@type='format']/monthWidth[@type='%s']/month[@type='%s']"


def cases(tier):
    r = []
    for l in LAYOUTS:
        r.append(["plain", l, 1])
        r.append(["2d", l, 1])
    for k in ("1d", "2dr", "2dx", "attr", "kinds", "types", "empty", "mixed"):
        r.append([k, "run", 1])
        r.append([k, "first", 1])
    r.append(["heads", "run", 1])
    r.append(["plain", "run", 2])
    for l in ("run", "first", "none", "single", "far", "covered", "oldrun"):
        r += [["wide" + k, l, 1] for k in ("2d", "2dr", "2dx")]
    if tier == 'thorough':
        for l in LAYOUTS:
            for k in ("1d", "2dr", "2dx", "attr", "mixed"):
                r.append([k, l, 1])
            r.append(["plain", l, 2])
        r.append(["plain", "run", 3])
        r.append(["2d", "run", 2])
        r.append(["mixed", "two", 2])
    return r


class Template(object):
    def __init__(self, x, layout, n):
        self.x = x
        self.layout = LAYOUTS[layout]
        self.n = n
        self.rows = []
        self.want = []          # rows of texts
        self.values = []        # path, text
        self.ldml = Ldml(None, usedrafts=False)
        self.count = 0
        self.only = None

    def row(self, *cells):
        self.rows.append([[c, 1] for c in ["A"] + list(cells)])
        self.want.append(["A"] + list(cells))

    def blank(self):
        self.row("", "about", "not this")

    def value(self, path, letters=False):
        """the document has a value for the path or not"""
        x = self.x
        self.count += 1
        if self.only is not None and self.only != self.count or self.only is None and not x.bool("v%d?" % self.count):
            x.cover('missing')
            return None
        v = x.str("v%d" % self.count, self.n)
        h_ldml.xmlchars(x, v)
        for c in v:
            # what odfpy keeps
            x.assume(x.not_(x.or_(ord(c) < 32, x.and_(ord(c) >= 127, ord(c) < 160), x.and_(ord(c) >= 0xFDD0, ord(c) < 0xFDF0))))
            x.assume(ord(c) % 0x10000 < 0xFFFE)
        if letters:
            for c in v:
                x.assume(x.and_('a' <= c, c <= 'z'))
        else:
            self.ldml.ensure_path(path)[0].text = v
        self.values.append((path, v))
        return v

    def valuerow(self, cells, paths, cover, letters=False):
        """a row whose value cells get the values of the paths"""
        row = [[c, 1] for c in ["A"] + cells]
        table = ["A"] + cells
        for l in self.layout:
            row.append([l, 1] if isinstance(l, str) else list(l) if isinstance(l, tuple) else ["", l])
            table += [l] if isinstance(l, str) else [textof(l[0])] * l[1] if isinstance(l, tuple) else [""] * l
            if not isinstance(l, int):
                self.x.cover('used cell')
            if isinstance(l, tuple):
                self.x.cover('old text' if len(l) == 2 else l[2])
        self.rows.append(row)
        for i, p in enumerate(paths):
            if p is None:
                continue
            v = self.value(p, letters)
            if v is None:
                continue
            while len(table) < 4 + i:
                table.append("")
                self.x.cover('extended')
            if len(self.layout) <= 2:
                self.x.cover('split')
            self.x.cover(cover)
            table[3 + i] = v
        self.want.append(table)


def oned(t, heads=("sun", "mon")):
    t.row("table1d(" + DAY % "$row" + ")", "h", "value")
    for h in heads:
        t.valuerow([h, "about"], [DAY % h], '1d')


def twod(t, rev=False, rows=("1", "2"), cols=("wide", "narrow")):
    t.row("table2d%s(%s)" % ("r" if rev else "", MONTH % (("$row", "$col") if rev else ("$col", "$row"))), "h", *cols)
    for r in rows:
        t.valuerow([r, "about"], [MONTH % ((r, c) if rev else (c, r)) for c in cols], '2d reversed' if rev else '2d')


def run(x, case):
    kind, layout, n = case
    t = Template(x, layout, n)
    t.row("", "", "")
    attr = None
    if kind == 'plain':
        t.valuerow(["delimiters/quotationStart", "about"], ["delimiters/quotationStart"], 'text')
        t.row("", "")
        t.valuerow(['characters/exemplarCharacters[@type="auxiliary"]', ""],
                   ['characters/exemplarCharacters[@type="auxiliary"]'], 'text')
    elif kind == 'attr':
        t.valuerow(["identity/language[@type]", ""], ["identity/language[@type]"], 'attribute', True)
        t.valuerow(["identity/script[@type]", ""], ["identity/script[@type]"], 'attribute', True)
        for p, v in t.values:
            t.ldml.ensure_path(p[:-7])[0].set("type", v)
        if x.bool("bare"):
            # an element without the attribute
            t.ldml.ensure_path("identity/script")
    elif kind == 'heads':
        # headings with quotes in them
        h, g = x.choice("h", HEADS), x.choice("g", HEADS)
        which = x.choice("which", ["1d", "2d", "2dr", "2dx"])
        x.cover('quotes')

        def q(path, *vs):
            for v in vs:
                path = path.replace("'%s'", "'" + v + "'" if "'" not in v else '"' + v + '"', 1)
            return path
        if which == '1d':
            t.row("table1d(" + DAY % "$row" + ")", "h", "value")
            t.valuerow([h, "about"], [q(DAY, h)], '1d')
        elif which == '2dx':
            t.row("table2dx(localeDisplayNames/languages/language[@type=\"$row\"],localeDisplayNames/scripts/script[@type='$row'])", "h")
            t.valuerow(["", h], [q("localeDisplayNames/%s[@type='%%s']" % e, h) for e in ("languages/language", "scripts/script")], 'several paths')
        else:
            a = ("$row", "$col") if which == '2dr' else ("$col", "$row")
            t.row("table%s(%s)" % (which, MONTH % a), "h", h)
            t.valuerow([g, "about"], [q(MONTH, *((g, h) if which == '2dr' else (h, g)))], '2d')
    elif kind == '1d':
        oned(t)
    elif kind == '2d':
        twod(t)
    elif kind == '2dr':
        twod(t, True)
    elif kind.startswith('wide'):
        # many columns, one value in one of them
        cols = ["wide", "narrow", "short", "abbreviated", "wide-x", "narrow-x", "short-x"]
        if layout == 'far':
            x.cover('far')
            cols += ["wide-y", "narrow-y", "short-y", "wide-z", "narrow-z"]
        ts = [("languages", "language"), ("scripts", "script"), ("territories", "territory"), ("variants", "variant")]
        only = x.choice("only", range(4 if kind == "wide2dx" else len(cols)))
        t.only = only + 1
        x.cover('wide')
        if kind == "wide2dx":
            t.row("table2dx(" + ",".join("localeDisplayNames/%s/%s[@type='$row']" % g for g in ts) + ")", "h", *cols)
            t.valuerow(["", "aa"], ["localeDisplayNames/%s/%s[@type='aa']" % g for g in ts], 'several paths')
        else:
            twod(t, kind == "wide2dr", ("1",), cols)
    elif kind == '2dx':
        t.row("table2dx(localeDisplayNames/languages/language[@type='$row'],localeDisplayNames/scripts/script[@type='$row'])",
              "h", "language", "script", "")
        for code in ("aa", "", "bb"):
            t.valuerow(["", code], ["localeDisplayNames/languages/language[@type='%s']" % code if code else None,
                                    "localeDisplayNames/scripts/script[@type='%s']" % code if code else None], 'several paths')
    elif kind == 'types':
        # elements of the same name with other attributes
        aux = t.ldml.ensure_path('characters/exemplarCharacters[@type="auxiliary"]')[0]
        aux.text = "no"
        # one of a type below another element with an attribute
        t.ldml.ensure_path('numbers/symbols[@numberSystem="latn"]/decimal[@type="x"]')[0].text = "no"
        inner = 'numbers/symbols[@numberSystem="latn"]/decimal'
        t.valuerow([inner, ""], [], 'text')
        x.cover('other type')
        path = 'characters/exemplarCharacters'
        t.valuerow([path, ""], [], 'text')
        if x.bool("main"):
            e = t.ldml.addnode(aux.parent, 'exemplarCharacters')
            e.text = x.str("m", 1)
            h_ldml.xmlchars(x, e.text)
            x.assume(e.text >= ' ')
            t.want[-1][3] = e.text
            t.values.append((path, e.text))
    elif kind == 'empty':
        e = t.ldml.ensure_path("delimiters/quotationStart")[0]
        e.text = x.choice("text", [None, ""])
        x.cover('no text')
        t.valuerow(["delimiters/quotationStart", ""], [], 'text')
        oned(t, ("sun",))
        t.blank()
        twod(t, rows=("1",), cols=("wide",))
        t.ldml.ensure_path(DAY % "sat")
        t.ldml.ensure_path(MONTH % ("wide", "2"))
    else:
        twod(t, rows=("1",))
        t.blank()
        oned(t, ("sun",))
        t.blank()
        twod(t, True, rows=("abbreviated",), cols=("3", "4"))
        t.blank()
        t.valuerow(["delimiters/quotationStart", "about"], ["delimiters/quotationStart"], 'text')
    real = h_sheet.sheet.Ldml
    h_sheet.sheet.Ldml = lambda f: t.ldml if f is not None else real(f)
    s, doc = h_sheet.make(x, "ods", [["Core", t.rows]], "in.xml")
    try:
        s.process()
    finally:
        h_sheet.sheet.Ldml = real
    got = h_sheet.table(doc)
    x.observe("rows", [r[:12] for r in got])
    x.check(len(got) == len(t.want), "there are as many rows as before")
    for g, w in zip(got, t.want):
        x.check(len(g) == len(w), "a row has as many cells as before, or up to its value")
        x.check(x.and_(*[x.eq(a, b) for a, b in zip(g, w)]), "every value is in its own cell and the other cells are as before")
    # and back
    h_sheet.sheet.load = lambda f: doc
    back = Sheet(odsfile="filled.ods")
    back.process()
    for p, v in t.values:
        e = back.ldml.find(p[:-7] if p.endswith("[@type]") else p)
        x.check(e is not None and x.eq(e.get("type") if p.endswith("[@type]") else e.text, v), "reading the sheet gives the values back")
