"""Comments with an @ become attributes of the element they follow."""
import re
import xml.etree.ElementTree as ET

#xml
PROPERTY = 'P01'
BOUNDS = ("one document of 7 elements of 4 depths with two comments, each at one of 9 places after an element, before any, or in "
          "the middle of a text: a name of up to 2 capitals, a value of up to 2 arbitrary characters, space of up to 1 "
          "character before, between and after them, or another comment of up to 3 arbitrary characters; a text and an "
          "attribute of 2 arbitrary characters; written to a file or to the standard output")
ASSUMPTIONS = ["expat is modelled (replays run the real one)", "texts have no new lines (they are indented) nor carriage returns"]
COVERS = ['becomes an attribute', 'true', 'value', 'other comment', 'same name twice', 'in text', 'stdout', 'text', 'attribute']
C = "{urn://unicode.org/cldr/types/0.1}"
# a place follows the element of that number in the order of the ends; 0: before any
DOC = ['<ldml>', '<a x="%s"><b>', '</b>', '<c y="1"/>', '</a>', '<d><e><f>%s</f>', '</e>', '</d>', '<g>hi', 'you</g>', '</ldml>']
AT = [None, None, 'b', 'c', 'a', 'f', 'e', 'd', 'd', 'g']
TREE = ['ldml', [], None, [['a', ['x'], None, [['b', [], None, []], ['c', ['y'], None, []]]],
                           ['d', [], None, [['e', [], None, [['f', [], None, []]]]]], ['g', [], None, []]]]


def cases(tier):
    r = [["name", k] for k in (1, 2, 3)] + [["other", n] for n in (1, 2, 3)] + [["two", 0], ["text", 2]]
    if tier == 'thorough':
        r += [["other", 4], ["text", 3], ["name", 4], ["name", 5]]
    return r


def xmlchar(x, s):
    for c in s:
        n = ord(c)
        x.assume(x.or_(n >= 0x20, n == 9, n == 10))
        x.assume(x.not_(x.and_(n >= 0xD800, n < 0xE000)))
        x.assume(n != 0xFFFE and n != 0xFFFF)


def run(x, case):
    what, n = case
    ta = tx = "q"
    com = []
    if what == "name":
        name = x.str("name", 1 + (n > 2), [('A', 'Z')])
        m = [0, 1, 2, 1, 2][n - 1]
        v = x.str("v", m)
        xmlchar(x, v)
        x.assume(x.not_(x.isin(v[0], "\n")) if m else True)
        x.assume(x.and_(*[c != "\n" for c in v]))
        x.assume(x.not_("--" in v) and not v.endswith("-"))
        sp = x.choice("space", ["", " ", "  "])
        end = x.choice("end", ["", " ", "\n"]) if not m else ""
        t = sp + "@" + name + (":" + v if m else "") + end
        want = v.rstrip() if m else ""
        x.cover('value' if m else 'true')
        com.append([x.choice("at", list(range(1, 10))), t, name, want or "true"])
        if m:
            x.assume(len(want) > 0)
    elif what == "other":
        t = x.str("t", n)
        xmlchar(x, t)
        x.assume(x.not_("--" in t) and not t.endswith("-"))
        x.assume(t.lstrip()[:1] != "@")
        x.cover('other comment')
        com.append([x.choice("at", list(range(0, 10))), t, None, None])
    elif what == "two":
        n1, n2 = x.str("n1", 1, [('A', 'Z')]), x.str("n2", 1, [('A', 'Z')])
        p1 = x.choice("at1", list(range(1, 10)))
        p2 = x.choice("at2", list(range(p1, 10)))
        com = [[p1, "@" + n1 + ":x", n1, "x"], [p2, "@" + n2, n2, "true"]]
        if AT[p1] == AT[p2] and n1 == n2:
            x.cover('same name twice')
    else:
        ta, tx = x.str("ta", n), x.str("tx", n)
        for s in (ta, tx):
            xmlchar(x, s)
            x.assume(x.and_(*[x.not_(x.isin(c, "<>&\"\n\t")) for c in s]))
        ta = ta + "&amp;&quot;&#9;"
        tx += "&lt;&amp;"
        x.cover('text')
        x.cover('attribute')
        com = [[x.choice("at", list(range(0, 10))), "@A:b", 'A', 'b']]
    want = {}
    for p, t, k, v in com:
        if p == 8:
            x.cover('in text')
        if k is not None and p > 1:
            e = AT[p]
            x.cover('becomes an attribute')
            want[e] = [o for o in want.get(e, []) if o[0] != C + k.lower()] + [[C + k.lower(), v]]
    doc = '<?xml version="1.0"?>\n'
    for i, s in enumerate(DOC):
        if i == 1:
            s = '<a x="' + ta + '"><b>'
        elif i == 5:
            s = '<d><e><f>' + tx + '</f>'
        doc += s
        for p, t, k, v in com:
            if p == i:
                doc += "<!--" + t + "-->"
    x.cover('stdout' if what == "two" else 'attribute')
    out = x.path("out.xml")
    status, said, ns = x.script("proccldrcomments", [x.file("in.xml", doc)] + ([] if what == "two" else ["-o", out]))
    x.check(status == 0, "the program ends well")
    text = said if what == "two" else x.readfile(out)
    x.check(text is not None, "the document is written")
    root = ET.parse(x.file("again.xml", text)).getroot()

    def dump(e):
        return [e.tag, sorted([k, v] for k, v in e.attrib.items()), (e.text or "") if not len(e) else "", [dump(c) for c in e]]

    def exp(t):
        name, ats, text, kids = t
        al = [[k, (ta.replace("&amp;&quot;&#9;", "&\"\t") if k == 'x' else "1")] for k in ats] + want.get(name, [])
        text = {'f': tx.replace("&lt;&amp;", "<&"), 'g': "hiyou"}.get(name, "")
        return [name, sorted(al), text if not kids else "", [exp(c) for c in kids]]
    x.observe("text", text)
    x.check(x.eq(dump(root), exp(TREE)), "the elements are as they were, with the attributes of the comments")
