"""Overlaying fills in what is missing, the difference takes out what is the same, and one undoes the other."""
from sldr.ldml_merge import LdmlMerge
import h_ldml
import h_merge

#xml
PROPERTY = 'M03'
BOUNDS = ("documents of up to 2 texts (thorough 3) of ordinary elements at the same or different places, or a collation, each "
          "absent, an arbitrary letter or (if alone) empty in both documents, aliases beside 0 to 2 elements, an element or alternative with an attribute, with and without drafts")
ASSUMPTIONS = ["a collation is taken whole"]
COVERS = ['filled in', 'kept', 'same', 'nothing', 'arrows', 'alternatives', 'attributes', 'fonts', 'alias', 'collations']
PLACES = ["ab", "ac", "de", "df", "ns", "da", "ka"]


def cases(tier):
    r = [[p, d] for p in PLACES for d in (True, False)]
    r += [["arrows", d] for d in (True, False)] + [["alternatives", True]] + [["attributes", d] for d in (True, False)] + [["fonts", d] for d in (True, False)]
    r += [[p, d] for p in "acs" for d in (True, False)] + [["alias", d] for d in (True, False)] + [["collations", d] for d in (True, False)]
    if tier == 'thorough':
        r += [[p, d] for p in ("abc", "def", "adk", "nsa") for d in (True, False)]
    return r


def contents(x, keys, n):
    return {k: h_merge.maybe(x, n + k, len(keys) == 1) for k in keys}


def same(x, a, b, label):
    x.check(x.eq(h_ldml.dump(a.root), h_ldml.dump(b.root)), label)


def run(x, case):
    keys, drafts = case
    if keys == "arrows":
        return arrows(x, drafts)
    if keys == "alternatives":
        return alternatives(x)
    if keys == "alias":
        return alias(x, drafts)
    if keys == "collations":
        return collations(x, drafts)
    if keys == "attributes":
        return attributes(x, drafts)
    if keys == "fonts":
        return fonts(x, drafts)
    C, P = contents(x, keys, "c"), contents(x, keys, "p")
    F, D = {}, {}
    for k in keys:
        F[k] = P[k] if C[k] is None else C[k]
        D[k] = None if C[k] == P[k] else C[k]
        x.cover('filled in' if C[k] is None and P[k] is not None else 'same' if C[k] == P[k] and P[k] is not None
                else 'nothing' if C[k] is None else 'kept')
    c = h_merge.build(C, drafts)
    p = h_merge.build(P, drafts, lang="pp")
    c.overlay(p)
    c.normalise(usedrafts=drafts)
    x.observe("overlaid", sorted([k, v] for k, v in h_merge.contents(c).items()))
    full = h_merge.build(F, drafts)
    same(x, c, full, "what is missing is filled in, what is there stays")
    # overlaying again, or by less, changes nothing
    c.overlay(h_merge.build(P, drafts, lang="pp"))
    c.normalise(usedrafts=drafts)
    same(x, c, full, "overlaying again changes nothing")

    c = h_merge.build(C, drafts)
    c.difference(h_merge.build(P, drafts, lang="pp"))
    x.observe("difference", sorted([k, v] for k, v in h_merge.contents(c).items()))
    c.normalise(usedrafts=drafts)
    same(x, c, h_merge.build(D, drafts), "exactly what is the same is taken out")
    c.overlay(h_merge.build(P, drafts, lang="pp"))
    c.normalise(usedrafts=drafts)
    same(x, c, full, "overlaying brings it back")
    # what was filled in is taken out again
    full.difference(h_merge.build(P, drafts, lang="pp"))
    full.normalise(usedrafts=drafts)
    same(x, full, h_merge.build(D, drafts), "the difference of a full document is that of the document itself")


def arrows(x, drafts):
    """a text that stands for that of the parent"""
    up = "\u2191\u2191\u2191"
    c = h_merge.build({'a': up, 'c': up, 'd': "z"}, drafts)
    P = contents(x, "acd", "p")
    x.cover('arrows')
    c.overlay(h_merge.build(P, drafts, lang="pp"))
    got = h_merge.contents(c)
    x.observe("overlaid", sorted([k, v] for k, v in got.items()))
    for k in "ac":
        x.check(got[k] == (up if P[k] is None else P[k]), "arrows are replaced by the text that is overlaid")
    x.check(got['d'] == "z", "other texts stay")


def alias(x, drafts):
    """an alias stands for all of an element"""
    there = x.choice("there", ["nothing", "empty", "one", "two", "alias"])
    beside = x.bool("beside")
    p1 = "dates/calendars/calendar[@type='buddhist']"
    p2 = p1 + "/months/monthContext[@type='format']/monthWidth[@type='wide']"
    place = p1 + "/months" if x.bool("high") else p2
    docs = []
    for n in ("c", "p", "w"):
        l = h_merge.build({}, drafts, lang="pp" if n == "p" else "aa")
        e = None
        if n == "p" or there != "nothing":
            e = l.ensure_path(place)[0]
        elif n == "w":
            e = l.ensure_path(place)[0]
        if n != "p":
            for i in range({"one": 1, "two": 2}.get(there, 0)):
                f = l.addnode(e, 'special') if place != p2 else l.ensure_path(p2 + "/month[@type='%d']" % (i + 1))[0]
                f.text = "z"
            if there == "alias":
                l.addnode(e, 'alias', source="locale", path="old")
        if n == "p" or n == "w" and there in ("nothing", "empty"):
            l.addnode(e, 'alias', source="locale", path="new")
        if n != "c" and beside:
            l.ensure_path(h_merge.PATHS['a'])[0].text = "a"
        l.normalise(usedrafts=drafts)
        docs.append(l)
    c, p, w = docs
    x.cover('alias')
    c.overlay(p)
    c.normalise(usedrafts=drafts)
    x.observe("overlaid", h_ldml.dump(c.root))
    same(x, c, w, "an alias is added only where there is nothing")


def collations(x, drafts):
    """a collation is not made of parts of two"""
    parts = ["cr", "suppress_contractions", "special"]
    t, u = h_merge.text(x, "c"), h_merge.text(x, "p")
    docs = []
    for n, v in zip("cp", (t, u)):
        has = [x.bool(n + k) for k in parts[:2]] + [n == "p"]
        inner = "".join("<%s>%s</%s>" % (k, v, k) for k, h in zip(parts, has) if h)
        docs.append('<ldml><identity><language type="aa"/></identity><collations><collation type="standard">' + inner + '</collation></collations></ldml>')
    c, w, p = [LdmlMerge(x.file(n + ".xml", docs[i]), usedrafts=drafts) for n, i in (("c", 0), ("w", 0), ("p", 1))]
    x.cover('collations')
    c.overlay(p)
    c.normalise(usedrafts=drafts)
    x.observe("overlaid", h_ldml.dump(c.root))
    same(x, c, w, "a collation that there is stays whole")
    c.difference(w)
    x.check(not c.findall('collations/collation[@type="standard"]'), "and is taken out as a whole if it is the same")


def withalt(x, t, a, lang):
    s = '<ldml><identity><language type="' + lang + '"/></identity><delimiters><quotationStart>' + t + '</quotationStart>'
    if a is not None:
        s += '<quotationStart alt="proposed" draft="suspect">' + a + '</quotationStart>'
    return LdmlMerge(x.file(lang + ".xml", s + '</delimiters></ldml>'), usedrafts=True)


def alternatives(x):
    t, u = h_merge.text(x, "c"), h_merge.text(x, "p")
    a, b = [h_merge.text(x, n) if x.bool("has" + n) else None for n in ("ca", "pa")]
    c = withalt(x, t, a, "aa")
    p = withalt(x, u, b, "pp")
    x.cover('alternatives')
    c.difference(p)
    es = c.findall(h_merge.PATHS['c'])
    if t == u and a == b:
        x.check(not es, "what is the same is taken out")
    elif t != u or a is not None:
        # (an alternative that only the other has cannot be taken out)
        x.check(len(es) == 1 and es[0].text == t, "what differs in the text or in an alternative stays")
        al = getattr(es[0], 'alternates', {})
        x.check(t == u or x.eq(sorted([k, v.text] for k, v in al.items()), [] if a is None else [["proposed", a]]),
                "with its alternatives")
        x.check(a is None or a == b or [v.text for v in al.values()] == [a], "an alternative that differs stays")
    c = withalt(x, t, a, "aa")
    p = withalt(x, u, b, "pp")
    c.overlay(p)
    es = c.findall(h_merge.PATHS['c'])
    al = getattr(es[0], 'alternates', {})
    x.check(len(es) == 1 and es[0].text == t, "the text stays")
    x.check(a is None or al["proposed"].text == a, "and so does its alternative")


def attributes(x, drafts):
    """attributes that do not tell elements apart, of an element or of its alternative"""
    x.cover('attributes')
    t, u = h_merge.text(x, "c"), h_merge.text(x, "p")
    docs = []
    refs = [h_merge.text(x, "r" + n) if x.bool("ref" + n) else None for n in "cp"]
    alt = drafts and x.bool("alt")
    for n, v, ref in zip("cp", (t, u), refs):
        own = '<quotationStart' + (' alt="proposed" draft="suspect"' if alt else '') + ('' if ref is None else ' references="' + ref + '"') + '>' + v + '</quotationStart>'
        docs.append('<ldml><identity><language type="aa"/></identity><delimiters>' + ('<quotationStart>z</quotationStart>' if alt else '') + own
                    + '<quotationEnd references="y">e</quotationEnd></delimiters></ldml>')
    def load():
        return [LdmlMerge(x.file(n + ".xml", d), usedrafts=drafts) for n, d in zip("cp", docs)]
    def own(l):
        es = l.findall(h_merge.PATHS['c'])
        if alt:
            es = [v for e in es for v in getattr(e, 'alternates', {}).values()]
        return [[e.text, e.get('references')] for e in es]
    c, p = load()
    c.difference(p)
    x.observe("difference", own(c))
    x.check(own(c) == ([] if t == u and refs[0] == refs[1] else [[t, refs[0]]]), "what differs in an attribute stays, and nothing else")
    x.check(not c.findall('delimiters/quotationEnd'), "what is the same with its attributes is taken out")
    c.overlay(p)
    x.check(own(c) == [[t, refs[0]]], "overlaying brings it back")
    c, p = load()
    c.overlay(p)
    x.check(own(c) == [[t, refs[0]]], "the attributes that there are stay")


def fonts(x, drafts):
    """the font of a document stays when another is overlaid"""
    x.cover('fonts')
    names = [h_merge.text(x, n) for n in "cp"]
    types = [x.choice("t" + n, ["default", "ui", "default ui"]) for n in "cp"]
    docs = []
    for n, t in zip(names, types):
        l = h_merge.build({}, drafts)
        l.ensure_path('special/sil:external-resources/sil:font[@name="%s"][@types="%s"]' % (n, t))
        l.normalise(usedrafts=drafts)
        docs.append(l)
    c, p = docs
    c.overlay(p)
    fs = [f for f in c.findall('special/sil:external-resources/sil:font')]
    x.observe("fonts", [[f.get('name'), f.get('types')] for f in fs])
    for t in types[0].split():
        who = [f.get('name') for f in fs if t in f.get('types').split()]
        x.check(names[0] in who, "the font that the document has for something stays")
    for t in types[1].split():
        who = [f.get('name') for f in fs if t in f.get('types').split()]
        x.check(len(who) > 0, "there is a font for everything")
