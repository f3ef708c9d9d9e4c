"""Spreadsheets for the harnesses, made with odfpy."""
from odf.opendocument import OpenDocumentSpreadsheet
from odf.table import CoveredTableCell, Table, TableCell, TableColumn, TableRow
from odf.office import Annotation
from odf.dc import Creator
from odf.text import P, Span, S, Tab, LineBreak
import odf.teletype
from sldr import sheet


def paragraph(parts):
    """of texts, [texts] in a span, numbers of spaces, 't' for a tab and 'n' for a line break in tuples"""
    p = P()
    fill(p, parts)
    return p


def fill(p, parts):
    for a in parts:
        if isinstance(a, list):
            s = Span()
            fill(s, a)
            p.addElement(s)
        elif isinstance(a, int):
            p.addElement(S(c=a) if a else S())
        elif isinstance(a, tuple):
            p.addElement(Tab() if a[0] == 't' else LineBreak())
        elif a != "":
            p.addText(a)


def cellof(text, times, how=None):
    """of a text or the parts of one; how: covered, or with a comment on it"""
    c = CoveredTableCell() if how == 'covered' else TableCell()
    if times != 1:
        c.setAttribute('numbercolumnsrepeated', str(times))
    if how == 'comment':
        a = Annotation()
        a.addElement(Creator(text="me"))
        a.addElement(P(text="a comment"))
        c.addElement(a)
    if how == 'empty':
        c.addElement(P())
    elif isinstance(text, list):
        c.addElement(paragraph(text))
    elif text != "":
        c.addElement(P(text=text))
    return c


def ods(sheets):
    """sheets: [name, rows], rows: [cells], cells: [text, times] or [text, times, how]"""
    doc = OpenDocumentSpreadsheet()
    for name, rows in sheets:
        t = Table(name=name)
        t.addElement(TableColumn())
        for row in rows:
            r = TableRow()
            for cell in row:
                r.addElement(cellof(*cell))
            t.addElement(r)
        doc.spreadsheet.addElement(t)
    return doc


def table(doc):
    """every row of every sheet: the texts of its cells, repeated ones as often as they are"""
    res = []
    for t in doc.spreadsheet.childNodes:
        for r in t.childNodes:
            if r.tagName != 'table:table-row':
                continue
            row = []
            for c in r.childNodes:
                text = ""
                for p in c.childNodes:
                    if p.tagName == 'text:p':
                        text += odf.teletype.extractText(p)
                times = c.getAttribute('numbercolumnsrepeated')
                row += [text] * (int(times) if times is not None else 1)
            res.append(row)
    return res


def make(x, kind, sheets, ldmlfile=None):
    if kind == 'tsv':
        text = ""
        for name, rows in sheets:
            for row in rows:
                first = True
                for cell, times in row:
                    for i in range(times):
                        text += ("" if first else "\t") + cell
                        first = False
                text += "\r\n"
        return sheet.Sheet(tsvfile=x.file("sheet.tsv", text)), None
    doc = ods(sheets)
    sheet.load = lambda f: doc
    return sheet.Sheet(odsfile="sheet.ods", ldmlfile=ldmlfile), doc


def leaves(e, steps=()):
    """the elements that have a text or no elements in them"""
    res = []
    for c in e:
        s = steps + ((c.tag, c.attrib),)
        text = c.text
        if text is None:
            text = ""
        if len(c):
            res += leaves(c, s)
        if not len(c):
            res.append((s, text))
    return res


def check_leaves(x, root, want):
    """want: {path: text}, a path being a text of steps tag or tag@name=value, separated by |"""
    got = leaves(root)
    x.observe("leaves", [["|".join([t for t, a in s]), text] for s, text in got])
    x.check(len(got) == len(want), "there is just what the cells say")
    for path, text in want:
        found = []
        for s, t in got:
            if len(s) != len(path):
                continue
            same = True
            for (tag, at), w in zip(s, path):
                if tag != w[0] or len(at) != len(w[1]):
                    same = False
                    break
                for k, v in w[1].items():
                    if at.get(k) != v:
                        same = False
            if same:
                found.append(t)
        x.check(len(found) == 1, "the element that the path of the row describes is there once")
        x.check(x.eq(found[0], text), "it has the text of the cell")
