"""The namespaces of a document survive being written, whatever prefixes it uses."""
from sldr.ldml import Ldml, etwrite
import h_ldml

#xml
PROPERTY = 'X02'
BOUNDS = ("documents with elements and attributes of up to 3 namespaces besides that of LDML, each declared under any prefix of 3 letters and digits "
          "or as the default namespace, at the root, at a parent or at the element itself, also two under the same "
          "prefix and one under two; read as LDML, or any tree of elements; written with namespaces at the top or low down")
ASSUMPTIONS = []
COVERS = ['default', 'same prefix', 'sil prefix', 'sil other', 'attribute', 'undeclared', 'tree', 'added', 'cousins']
URIS = ["urn:q", "urn://www.sil.org/ldml/0.1", "urn:r"]
PREFIXES = [0, 3]      # lengths
LOW = "abcdefghijklmnopqrstuvwxyz"
XMLNS = "{http://www.w3.org/XML/1998/namespace}"


def cases(tier):
    r = []
    for topns in (True, False):
        r += [["two", topns, d] for d in (False, True)]
        r += [["nested", topns, d] for d in (False, True)]
        r += [["root", topns, False], ["attr", topns, True], ["cousins", topns, False], ["undeclare", topns, False], ["tree", topns, False], ["add", topns, True]]
        if tier == 'thorough':
            r += [["three", topns, False], ["tree3", topns, False]]
    return r


def decl(p, u):
    return ' xmlns%s="%s"' % (":" + p if p else "", u)


def name(p, n):
    return (p + ":" if p else "") + n


def strip(d):
    """without the order of elements, which is for X03"""
    return [d[0], d[1], d[2].strip(), sorted(strip(c) for c in d[3])]


def pick(x, i, uris=URIS, prefixes=PREFIXES):
    n = x.choice("n%d" % i, prefixes)
    p = x.str("p%d" % i, 1, dom=LOW) + x.str("s%d" % i, n - 1, dom=LOW + "0123456789") if n else ""
    x.assume(p != "xml")
    u = x.choice("u%d" % i, uris)
    if p == "":
        x.cover('default')
    if p == "sil" and u != URIS[1]:
        x.cover('sil prefix')
    if p != "sil" and u == URIS[1]:
        x.cover('sil other')
    return p, u


def q(u, n):
    return "{%s}%s" % (u, n)


def build(x, kind):
    """a document and what it holds"""
    ident = ["identity", [], "", []]
    i = "<identity/>"
    if kind == "two" or kind == "three":
        n = 2 if kind == "two" else 3
        t = ""
        cs = []
        seen = []
        for j in range(n):
            p, u = pick(x, j)
            if p in seen:
                x.cover('same prefix')
            seen.append(p)
            one = name(p, "one%d" % j)
            t += '<%s%s><%s b="1">t%d</%s></%s>' % (one, decl(p, u), name(p, "two"), j, name(p, "two"), one)
            cs.append([q(u, "one%d" % j), [], "", [[q(u, "two"), [["b", "1"]], "t%d" % j, []]]])
        # each in its own element
        t = "".join("<special>%s</special>" % s for s in [t])
        return "<ldml>%s%s</ldml>" % (i, t), ["ldml", [], "", [ident, ["special", [], "", cs]]]
    if kind == "nested":
        p, u = pick(x, 0)
        r, v = pick(x, 1)
        if p == r:
            x.cover('same prefix')
        t = '<%s%s><%s%s/></%s>' % (name(p, "one"), decl(p, u), name(r, "two"), decl(r, v), name(p, "one"))
        return ("<ldml>%s<special>%s</special></ldml>" % (i, t),
                ["ldml", [], "", [ident, ["special", [], "", [[q(u, "one"), [], "", [[q(v, "two"), [], "", []]]]]]]])
    if kind == "root":
        p, u = pick(x, 0, prefixes=PREFIXES[1:])
        r, v = pick(x, 1, prefixes=PREFIXES[1:])
        x.assume(p != r)
        t = '<%s/><%s/>' % (name(p, "one"), name(r, "two"))
        return ("<ldml%s%s>%s<special>%s</special></ldml>" % (decl(p, u), decl(r, v), i, t),
                ["ldml", [], "", [ident, ["special", [], "", [[q(u, "one"), [], "", []], [q(v, "two"), [], "", []]]]]])
    if kind == "attr":
        x.cover('attribute')
        p, u = pick(x, 0, prefixes=PREFIXES[1:])
        r, v = pick(x, 1)
        t = '<%s%s%s %s="x"/>' % (name(r, "two"), decl(p, u), decl(r, v) if p != r else "", name(p, "at"))
        w = u if p == r else v
        return ("<ldml>%s<special>%s</special></ldml>" % (i, t),
                ["ldml", [], "", [ident, ["special", [], "", [[q(w, "two"), [[q(u, "at"), "x"]], "", []]]]]])
    if kind == "cousins":
        # what one declares does not count for the other
        p, u = pick(x, 0, prefixes=PREFIXES[1:])
        r, v = pick(x, 1)
        t = '<one><two%s %s="x"/></one>' % (decl(p, u), name(p, "at"))
        t += '<three><%s%s/></three>' % (name(r, "four"), decl(r, v))
        if u == v:
            x.cover('cousins')
        return ("<ldml>%s<special>%s</special></ldml>" % (i, t),
                ["ldml", [], "", [ident, ["special", [], "", [["one", [], "", [["two", [[q(u, "at"), "x"]], "", []]]],
                                                             ["three", [], "", [[q(v, "four"), [], "", []]]]]]]])
    if kind == "undeclare":
        x.cover('undeclared')
        u = x.choice("u0", URIS)
        t = '<one%s><two xmlns=""/></one>' % decl("", u)
        return ("<ldml>%s<special>%s</special></ldml>" % (i, t),
                ["ldml", [], "", [ident, ["special", [], "", [[q(u, "one"), [], "", [["two", [], "", []]]]]]]])


def run(x, case):
    kind, topns, drafts = case
    if kind in ("tree", "tree3"):
        # any tree of elements
        x.cover('tree')
        h = Ldml(None)
        E = h.root.makeelement
        uris = [x.choice("u%d" % j, [None] + URIS) for j in range(3 if kind == "tree3" else 2)]
        at = x.choice("at", [None, XMLNS, "{urn:q}"])
        top = E("top" if uris[0] is None else q(uris[0], "top"), {})
        for j, u in enumerate(uris[1:]):
            c = E("one" if u is None else q(u, "one"), {} if at is None else {at + "lang": "en"})
            top.append(c)
        want = h_ldml.dump(top)
        out = []
        etwrite(top, out.append, topns=topns)
        text = "".join(out)
        x.observe("text", text)
        got = Ldml(x.file("out.xml", text), usedrafts=False)
        x.check(x.eq(strip(h_ldml.dump(got.root)), strip(want)), "the elements are those written")
        return
    if kind == "add":
        # an element is added to a document
        x.cover('added')
        l = Ldml(None, usedrafts=drafts)
        u = x.choice("u0", URIS)
        v = x.choice("u1", URIS)
        s = l.ensure_path("special")[0]
        e = l.addnode(s, q(u, "one"))
        l.addnode(e, q(v, "two"))
        want = ["ldml", [], "", [["special", [], "", [[q(u, "one"), [], "", [[q(v, "two"), [], "", []]]]]]]]
    else:
        text, want = build(x, kind)
        l = Ldml(x.file("in.xml", '<?xml version="1.0" encoding="utf-8"?>\n' + text), usedrafts=drafts)
        x.check(x.eq(strip(h_ldml.dump(l.root)), strip(want)), "the document is read as it is")
    text = h_ldml.write(l, topns=topns)
    x.observe("text", text)
    m = Ldml(x.file("out.xml", text), usedrafts=drafts)
    x.check(x.eq(strip(h_ldml.dump(m.root)), strip(want)), "the document written is the same")
    if kind != "add":
        x.check(x.eq(h_ldml.write(m, topns=topns), text), "and is written the same way again")
