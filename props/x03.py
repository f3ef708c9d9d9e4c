"""Normalising gives the order of the DTD whatever order the document has, and nothing changes the second time."""
import os
import re
import sldr.ldml
from sldr.ldml import Ldml
import h_ldml

#xml
PROPERTY = 'X03'
BOUNDS = ("2 or 3 siblings in every order: all pairs of names that the DTD allows in 9 (thorough 20) elements, all pairs of "
          "values of 5 enumerated attributes and of 13 of the time zones, and of arbitrary others (any 1 character, ASCII up to 3; thorough 4), also differing in case only, texts of up to 4 "
          "characters (thorough 6)")
ASSUMPTIONS = []
COVERS = ['zones', 'names', 'enumerated', 'values', 'same start', 'two attributes', 'text', 'nested', 'unknown name', 'case only']
PARENTS = ['characters', 'delimiters', 'numbers', 'numbers/symbols', 'dates/calendars/calendar', 'identity',
           'localeDisplayNames', 'dates', 'dates/calendars/calendar/days']
MORE = ['.', 'layout', 'units', 'listPatterns', 'posix', 'dates/timeZoneNames', 'dates/timeZoneNames/zone',
        'collations', 'characterLabels', 'dates/fields/field']
ENUMS = [['dates/calendars/calendar/days/dayContext/dayWidth', 'day', 'type'],
         ['dates/calendars/calendar/months/monthContext/monthWidth', 'month', 'type'],
         ['dates/calendars/calendar/days/dayContext', 'dayWidth', 'type'],
         ['dates/calendars/calendar/quarters/quarterContext/quarterWidth', 'quarter', 'type'],
         ['dates/calendars/calendar/months', 'monthContext', 'type']]
FREE = [['localeDisplayNames/territories', 'territory', 'type'], ['localeDisplayNames/keys', 'key', 'type'],
        ['characters', 'exemplarCharacters', 'type']]
TZ = os.path.join(os.path.dirname(sldr.ldml.__file__), 'tzones.csv')
DTD = open(os.path.join(os.path.dirname(sldr.ldml.__file__), 'sil.dtd')).read()


def dtdnames(parent):
    """names of children in the order the DTD has them"""
    m = re.search(r'<!ELEMENT\s+' + parent + r'\s+\((.*?)\)\s*>', DTD, re.S)
    r = []
    for n in re.findall(r'#?[\w:]+', m.group(1)):
        if n not in ('EMPTY', 'ANY', '#PCDATA'):
            r.append(n)
    return [n for n in r if n != 'alias' and ':' not in n] if parent != 'special' else r


def dtdvalues(tag, at):
    m = re.search(r'<!ATTLIST\s+' + tag + r'\s+' + at + r'\s+\(([^)]*)\)', DTD)
    return [v.strip() for v in m.group(1).split("|")]


def zones():
    """time zones of the table, in its order, and one that it does not have"""
    r = [l.split("#")[0].split(",")[0].strip() for l in open(TZ)]
    r = [z for z in r if z and r.count(z) == 1]
    return [r[i] for i in (0, 1, 8, 9, 10, 20, 97, 98, 99, 100, 150, len(r) - 2, len(r) - 1)]


def cases(tier):
    more = tier == 'thorough'
    r = [["names", p] for p in PARENTS + (MORE if more else [])]
    r += [["enum", e] for e in range(len(ENUMS))] + [["mixed", e] for e in range(len(ENUMS))]
    r += [["free", f, [a, b]] for f in range(len(FREE)) for a in (1, 2) for b in (1, 2)]
    r += [["free", 0, [1, 1, 1]], ["free", 0, [3, 2]], ["two", [1, 1]], ["case", [1, 1]], ["case", [2, 2]], ["case", [1, 1, 1]], ["unknown", 2], ["deep", 1], ["zones", 2]]
    r += [["text", n] for n in range(1, 7 if more else 5)]
    if more:
        r += [["free", 0, [a, b, c]] for a in (1, 2) for b in (1, 2) for c in (1, 2) if a + b + c > 3]
        r += [["free", 0, [4, 3]], ["two", [2, 1]], ["unknown", 3], ["deep", 2]]
    return r


def build(path, items):
    l = Ldml(None, usedrafts=False)
    p = l.ensure_path(path)[0] if path != "." else l.root
    for tag, at, sub in items:
        e = l.addnode(p, tag, attrib=at)
        for s, a in sub:
            l.addnode(e, s, attrib=a)
    return l, p


def kids(p):
    return [[c.tag, sorted([k, v] for k, v in c.attrib.items())] for c in p]


def word(x, name, n, ascii=True):
    s = x.str(name, n)
    h_ldml.xmlchars(x, s)
    if ascii:
        for c in s:
            x.assume(x.and_(c >= ' ', c <= '~'))
    if n > 1:
        x.assume(x.not_("\u03a3" in s))
    return s


def run(x, case):
    kind = case[0]
    want = None
    sub = []
    if kind == 'text':
        t = x.str("t", case[1])
        h_ldml.xmlchars(x, t)
        l = Ldml(None, usedrafts=False)
        e = l.ensure_path("characters/exemplarCharacters")[0]
        e.text = t
        l.normalise()
        x.cover('text')
        got = e.text
        x.observe("text", got)
        # every line without the blanks at its ends, no blank lines at the ends of the text
        ls = t.split("\n")
        n = len(ls)
        for i in range(n):
            # a carriage return only counts as white space at the ends of the text
            if i > 0:
                ls[i] = ls[i].lstrip(" \t")
            if i < n - 1:
                ls[i] = ls[i].rstrip(" \t")
        x.check(got == "\n".join(ls).strip(" \t\r\n"), "a text loses only white space at the ends of lines")
        l.normalise()
        x.check(e.text == got, "a normalised text stays")
        return
    if kind == 'names':
        path = case[1]
        tags = dtdnames(path.split("/")[-1] if path != "." else "ldml")
        i = x.int("i", 0, len(tags) - 1)
        j = x.int("j", 0, len(tags) - 1)
        x.assume(i < j)
        x.cover('names')
        want = [[tags[int(i)], {}, []], [tags[int(j)], {}, []]]
    elif kind == 'enum':
        path, tag, at = ENUMS[case[1]]
        vals = dtdvalues(tag, at)
        i = x.int("i", 0, len(vals) - 1)
        j = x.int("j", 0, len(vals) - 1)
        x.assume(i < j)
        x.cover('enumerated')
        want = [[tag, {at: vals[int(i)]}, []], [tag, {at: vals[int(j)]}, []]]
    elif kind == 'zones':
        path = 'dates/timeZoneNames'
        vals = zones()
        i = x.int("i", 0, len(vals) - 1)
        j = x.int("j", 0, len(vals) - 1)
        x.assume(i < j)
        x.cover('zones')
        want = [['zone', {'type': vals[int(i)]}, []], ['zone', {'type': vals[int(j)]}, []]]
    elif kind == 'mixed':
        path, tag, at = ENUMS[case[1]]
        vals = dtdvalues(tag, at)
        i = x.int("i", 0, len(vals) - 1)
        v = word(x, "v", 2)
        x.assume(v not in vals)
        want = [[tag, {at: vals[int(i)]}, []], [tag, {at: v}, []]]
    elif kind == 'free':
        path, tag, at = FREE[case[1]]
        vs = [word(x, "v%d" % i, n, case[2] != [1, 1]) for i, n in enumerate(case[2])]
        for i in range(len(vs) - 1):
            x.assume(vs[i].lower() < vs[i + 1].lower())
            x.assume(tag != 'exemplarCharacters' or vs[i] < vs[i + 1])      # values the DTD does not have
        x.cover('values')
        if len(vs[0]) > 1 and len(vs[1]) > 1 and vs[0][0] == vs[1][0]:
            x.cover('same start')
        want = [[tag, {at: v}, []] for v in vs]
    elif kind == 'case':
        # any order, but always the same
        path, tag, at = FREE[0]
        vs = [word(x, "v%d" % i, n) for i, n in enumerate(case[1])]
        for i in range(len(vs)):
            for j in range(i):
                x.assume(vs[i] != vs[j])
        x.assume(vs[0].lower() == vs[1].lower())
        x.cover('case only')
        l, p = build(path, [[tag, {at: v}, []] for v in vs])
        l.normalise()
        want = [[tag, dict(e.attrib), []] for e in p]
    elif kind == 'two':
        # the attributes in the order of the DTD: type before count
        path = 'numbers/currencies/currency'
        a, b, c, d = [word(x, n, case[1][i % 2]) for i, n in enumerate("abcd")]
        path, tag = 'localeDisplayNames/types', 'type'
        x.cover('two attributes')
        x.assume(x.or_(a.lower() < c.lower(), x.and_(a == c, b.lower() < d.lower())))
        names = re.findall(r'<!ATTLIST\s+type\s+(\w+)', DTD)
        first, second = sorted(('key', 'type'), key=names.index)
        want = [[tag, {first: a, second: b}, []], [tag, {first: c, second: d}, []]]
    elif kind == 'unknown':
        # names that the DTD does not have come after those it has, in the order of their names
        path = 'delimiters'
        a, b = word(x, "a", case[1]), word(x, "b", 1)
        for s in (a, b):
            x.assume(x.and_(*[x.or_(x.and_(c >= 'a', c <= 'z'), x.and_(c >= 'A', c <= 'Z')) for c in s]))
        x.assume(a < b)
        x.cover('unknown name')
        want = [['special', {}, []], [a, {}, []], [b, {}, []]]
    elif kind == 'deep':
        path = 'dates/calendars/calendar/days/dayContext'
        v, w = word(x, "v", case[1]), word(x, "w", 1)
        x.assume(v < w)
        x.cover('nested')
        vals = dtdvalues('day', 'type')
        x.assume(v not in vals and w not in vals)
        sub = [['day', {'type': 'tue'}], ['day', {'type': v}], ['day', {'type': w}]]
        want = [['default', {}, []], ['dayWidth', {'type': 'narrow'}, sub]]
    n = len(sub or want)
    perm = []
    for i in range(n):
        k = int(x.int("p%d" % i, 0, n - 1))
        x.assume(k not in perm)
        perm.append(k)
    if sub:
        items = [want[1][:2] + [[sub[k] for k in perm]], want[0]]
    else:
        items = [want[k] for k in perm]
    l, p = build(path, items)
    l.normalise()
    got = kids(p)
    x.observe("order", got)
    x.check(x.eq(got, [[t, sorted([k, v] for k, v in a.items())] for t, a, _ in want]), "children are in the order of the DTD")
    if sub:
        x.check(x.eq(kids(p[1]), [[t, [[k, v] for k, v in a.items()]] for t, a in sub]), "and so are those further down")
    before = h_ldml.dump(l.root)
    l.normalise()
    x.check(x.eq(h_ldml.dump(l.root), before), "normalising again changes nothing")
