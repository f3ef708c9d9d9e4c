"""Reading a document loses nothing of it."""
import os
import re
import sldr.ldml
from sldr.ldml import Ldml
import h_ldml

#xml
PROPERTY = 'X06'
BOUNDS = ("documents of an identity, exemplars and a special: a text of up to 4 parts (thorough 5), each an arbitrary XML "
          "character, a CDATA section of one, a reference or a comment, one attribute of an arbitrary character and a "
          "reference, comments of one or two arbitrary characters at 9 places, 1 or 2 of them in a document of no elements; and trees of 6 to 8 elements with 3 texts, one "
          "of up to 3 arbitrary characters, any of which may be the mark of inheritance; with and without drafts; and two elements that differ in "
          "one attribute (two of its values, or an arbitrary letter and another), for each of the attributes that the DTD does not say to be metadata or a value")
ASSUMPTIONS = ["texts are compared up to the white space that normalisation removes at the ends of lines",
               "expat is modelled (replays run the real one)"]
COVERS = ['siblings', 'comment in text', 'cdata', 'reference', 'comments', 'attribute', 'dropped', 'parent dropped', 'kept arrows', 'empty']
REFS = [['&amp;', '&'], ['&#x1d7d8;', '\U0001d7d8'], ['&#62;', '>']]
PLACES = ['before', 'first', 'in identity', 'between', 'in characters', 'after exemplars', 'after characters', 'last', 'after all']


DTD = open(os.path.join(os.path.dirname(sldr.ldml.__file__), 'sil.dtd')).read()
CHUNKS = 8


def keyed():
    """[parent, element, attribute, values] for the attributes that tell elements of a name apart"""
    parents, res, last = {}, [], None
    for m in re.finditer(r'<!ELEMENT\s+(\S+)\s+(.*?)>', DTD, re.S):
        for n in re.findall(r'[\w:-]+', m.group(2)):
            parents.setdefault(n, m.group(1))
    for el, t, a, kind, note in re.findall(r'<!ELEMENT\s+(\S+)|<!ATTLIST\s+(\S+)\s+(\S+)\s+(\([^)]*\)|\S+)|<!--@([A-Z]+)', DTD):
        if t:
            last = [parents.get(t, 'ldml'), t, a, [v.strip() for v in kind[1:-1].split("|")] if kind.startswith("(") else []]
            res.append(last)
        elif note in ('METADATA', 'VALUE') and last in res:
            res.remove(last)
    # (quotations are told apart by their level and type)
    return [r for r in res if r[0] != 'ldml' and r[1] != 'ldml' and r[2] not in ('draft', 'alt', 'xmlns:sil') and len(r[3]) != 1
            and (r[1] != 'sil:quotation' or r[2] in ('level', 'type'))]


KEYED = keyed()


def siblings(x, case):
    """elements that differ in an attribute that tells them apart"""
    parent, tag, at, vals = KEYED[x.choice("which", list(range(case[1], len(KEYED), CHUNKS)))]
    vs = []
    for i in range(2):
        if vals:
            vs.append(vals[-i])
            continue
        v = "m" if i else x.str("v", 1)
        x.assume(x.and_(v >= "a", v <= "z"))
        vs.append(v)
    x.assume(vs[0] != vs[1])
    x.cover('siblings')
    q = lambda n: h_ldml.SIL + n[4:] if n.startswith('sil:') else n.replace('xml:', '{http://www.w3.org/XML/1998/namespace}')
    doc = ('<?xml version="1.0" encoding="UTF-8"?>\n<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><' + parent + '>'
           + ''.join('<' + tag + ' ' + at + '="' + v + '"/>' for v in vs) + '</' + parent + '></ldml>')
    l = Ldml(x.file("in.xml", doc), usedrafts=True)
    x.observe("tree", h_ldml.dump(l.root))
    x.check(l.root[0].tag == q(parent) and [c.tag for c in l.root[0]] == [q(tag)] * 2, "elements that differ in such an attribute are all kept")
    got = [c.get(q(at)) for c in l.root[0]]
    x.check(x.or_(x.eq(got, vs), x.eq(got, vs[::-1])), "each with its own attribute")


def cases(tier):
    r = [['text', n, d] for n in (1, 2, 3) for d in (False, True)] + [['text', 4, True]]
    r += [['comments', k, n] for k, n in ((1, 2), (2, 1), (9, 0))]
    r += [['arrows', u, d, k] for u in (False, True) for d in (False, True) for k in (0, 2)]
    r += [['empty', n] for n in (1, 2)]
    r += [['siblings', k] for k in range(CHUNKS)]
    if tier == 'thorough':
        r += [['text', 4, False], ['text', 5, True], ['comments', 3, 1], ['comments', 1, 4]]
    return r


def char(x, name):
    c = x.str(name, 1)
    h_ldml.xmlchars(x, c)
    x.assume(x.not_(x.isin(c, "<&>\r")))
    return c


def texts(x, case):
    _, n, drafts = case
    src = want = ""
    com = []
    for i in range(n):
        k = x.choice("part%d" % i, list(range(4)))
        if k == 0:
            c = char(x, "c%d" % i)
            src += c
            want += c
        elif k == 1:
            c = x.str("c%d" % i, 1)
            h_ldml.xmlchars(x, c)
            x.assume(c != "\r")
            x.cover('cdata')
            src += "<![CDATA[" + c + "]]>"
            want += c
        elif k == 2:
            r, c = REFS[x.choice("ref%d" % i, list(range(len(REFS))))]
            x.cover('reference')
            src += r
            want += c
        else:
            if i:
                x.cover('comment in text')
            src += "<!--note %d-->" % i
            com.append("note %d" % i)
    x.assume(want != "\u2191\u2191\u2191")
    r, c = REFS[0]
    a = "b"
    if n == 1:
        a = x.str("a", 1)
        h_ldml.xmlchars(x, a)
        x.assume(x.not_(x.isin(a, "<&\"\n\t\r")))
        x.cover('attribute')
    doc = ('<?xml version="1.0" encoding="UTF-8"?>\n<ldml>\n<identity>\n<version number="1"/>\n</identity>\n'
           '<characters>\n<exemplarCharacters type="' + a + r + '">' + src + '</exemplarCharacters>\n</characters>\n</ldml>\n')
    l = Ldml(x.file("in.xml", doc), usedrafts=drafts)
    x.observe("tree", h_ldml.dump(l.root))
    x.check(x.eq(h_ldml.dump(l.root), ['ldml', [], '', [
        ['identity', [], '', [['version', [['number', '1']], '', []]]],
        ['characters', [], '', [['exemplarCharacters', [['type', a + c]], h_ldml.lines(want), []]]]]]),
        "all texts and attributes of the document are read")
    x.check(x.eq(h_ldml.comments(l.root), com), "all comments are read")


def comments(x, case):
    _, k, n = case
    at = {}
    com = []
    if n == 0:
        used = [i for i in range(len(PLACES)) if x.choice("has%d" % i, list(range(2)))]
    else:
        used = []
        for i in range(k):
            used.append(x.choice("place%d" % i, list(range(len(PLACES)))))
        x.assume(x.and_(*[used[i] <= used[i + 1] for i in range(k - 1)]))
    for i, p in enumerate(used):
        c = "comment %d" % i
        if n:
            c = x.str("c%d" % i, n)
            h_ldml.xmlchars(x, c)
            x.assume(x.not_("--" in c) and not c.endswith("-") and x.not_("\r" in c))
        x.cover('comments')
        at[p] = at.get(p, "") + "<!--" + c + "-->\n"
        com.append(c)
    g = [at.get(i, "") for i in range(len(PLACES))]
    doc = ('<?xml version="1.0" encoding="UTF-8"?>\n' + g[0] + '<ldml>\n' + g[1] + '<identity>\n' + g[2] +
           '<version number="1"/>\n</identity>\n' + g[3] + '<characters>\n' + g[4] + '<exemplarCharacters>[a]'
           '</exemplarCharacters>\n' + g[5] + '</characters>\n' + g[6] +
           '<special xmlns:sil="urn://www.sil.org/ldml/0.1"><sil:note>x</sil:note></special>\n' + g[7] + '</ldml>\n' + g[8])
    l = Ldml(x.file("in.xml", doc), usedrafts=False)
    x.observe("tree", h_ldml.dump(l.root))
    x.observe("comments", h_ldml.comments(l.root))
    x.check(x.eq(h_ldml.dump(l.root), ['ldml', [], '', [
        ['identity', [], '', [['version', [['number', '1']], '', []]]],
        ['characters', [], '', [['exemplarCharacters', [], '[a]', []]]],
        ['special', [], '', [[h_ldml.SIL + 'note', [], 'x', []]]]]]), "the elements are those of the document")
    x.check(x.eq(h_ldml.comments(l.root), com), "all comments are read, in their order")


def empty(x, case):
    """a document of no elements"""
    com = []
    src = ["", "", ""]
    for i in range(x.choice("count", [1, 2])):
        c = x.str("c%d" % i, case[1])
        h_ldml.xmlchars(x, c)
        x.assume(x.not_("--" in c) and not c.endswith("-") and x.not_("\r" in c))
        com.append(c)
        k = x.choice("at%d" % i, [0, 1, 2])
        x.assume(not any(src[k + 1:]))
        src[k] += "<!--" + c + "-->"
    x.cover('empty')
    short = not src[1] and x.bool("short")
    l = Ldml(x.file("in.xml", src[0] + ("<ldml/>" if short else "<ldml>" + src[1] + "</ldml>") + src[2]), usedrafts=False)
    x.check(l.root.tag == 'ldml' and len(l.root) == 0, "there are no elements")
    x.check(x.eq(h_ldml.comments(l.root), com), "all comments are read, in their order")
    m = Ldml(x.file("out.xml", h_ldml.write(l)), usedrafts=False)
    x.check(x.eq(h_ldml.comments(m.root), com), "and written")


def arrows(x, case):
    _, up, ident, k = case
    drafts = ident
    t = []
    for i in range(3):
        if x.choice("arrow%d" % i, list(range(2))):
            t.append("\u2191\u2191\u2191")
        else:
            n = x.choice("len", [1, 2, 3]) if i == k else 0
            s = x.str("t%d" % i, n) if n else "z"
            h_ldml.xmlchars(x, s)
            x.assume(x.and_(*[x.not_(x.isin(c, "<&>\r")) for c in s]))
            x.assume(s != "\u2191\u2191\u2191")
            t.append(s)
    doc = ('<?xml version="1.0" encoding="UTF-8"?>\n<ldml>' +
           ('<identity><version number="1"/></identity>' if ident else '') +
           '<characters><exemplarCharacters>' + t[0] + '</exemplarCharacters></characters>'
           '<dates><calendars><calendar type="gregorian"><months>' + t[1] + '</months><days>' + t[2] +
           '</days></calendar></calendars></dates></ldml>')
    arrow = [s == "\u2191\u2191\u2191" for s in t]
    keep = [up or not a for a in arrow]
    cal = [[n, [], h_ldml.lines(t[i]), []] for i, n in ((1, 'months'), (2, 'days')) if keep[i]]
    want = [['identity', [], '', [['version', [['number', '1']], '', []]]]] if ident else []
    if keep[0]:
        want.append(['characters', [], '', [['exemplarCharacters', [], h_ldml.lines(t[0]), []]]])
    else:
        x.cover('dropped')
    if cal:
        want.append(['dates', [], '', [['calendars', [], '', [['calendar', [['type', 'gregorian']], '', cal]]]]])
    else:
        x.cover('parent dropped')
    if up and (arrow[0] or arrow[1] or arrow[2]):
        x.cover('kept arrows')
    l = Ldml(x.file("in.xml", doc), usedrafts=drafts, uparrows=up)
    x.observe("tree", h_ldml.dump(l.root))
    x.check(x.eq(h_ldml.dump(l.root), ['ldml', [], '', want]),
            "just the elements that say that they inherit are dropped, and what is empty then")


def run(x, case):
    {'siblings': siblings, 'text': texts, 'comments': comments, 'empty': empty, 'arrows': arrows}[case[0]](x, case)
