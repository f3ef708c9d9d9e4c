"""A document that is written and read again is the same."""
from sldr.ldml import Ldml
import h_ldml

#xml
PROPERTY = 'X01'
BOUNDS = ("documents with one text, attribute value or comment of up to 3 arbitrary XML characters (thorough 4), two "
          "of up to 2 at the same time, in ordinary, CDATA and sil: elements, at several depths, with and without "
          "drafts, namespaces declared at the top or low down")
ASSUMPTIONS = ["texts are compared up to the white space that normalisation removes at the ends of lines",
               "expat is modelled (replays run the real one)"]
COVERS = ['text', 'cdata', 'attribute', 'comment', 'nested', 'low namespaces']
PLACES = {
    'text': ('characters/exemplarCharacters', None),
    'deep': ('dates/calendars/calendar/months/monthContext', None),
    'cdata': ('collations/collation/cr', None),
    'note': ('special/sil:note', None),
    'attr': ('characters/exemplarCharacters', 'type'),
    'silattr': ('special/sil:external-resources/sil:font', 'name'),
    'nsattr': ('characters/exemplarCharacters', h_ldml.SIL + 'alias'),
    'comment': ('characters', '#'),
    'after': ('characters/exemplarCharacters', '##'),
}


def cases(tier):
    r = []
    for drafts in (False, True):
        for topns in (True, False):
            for p in PLACES:
                if drafts and topns or p in ('nsattr', 'silattr', 'note', 'text'):
                    r.append([[[p, 1]], drafts, topns])
    r += [[[[p, 2]], False, True] for p in PLACES if p not in ('nsattr', 'silattr')]
    r += [[[[p, 3]], False, True] for p in ('attr', 'comment')]
    r += [[[["text", 1], ["attr", 1], ["comment", 1]], True, True], [[["cdata", 1], ["silattr", 1]], True, False],
          [[["note", 1], ["nsattr", 1]], True, False]]
    if tier == 'thorough':
        r += [[[[p, 2]], False, True] for p in ('nsattr', 'silattr')]
        r += [[[[p, 3]], False, True] for p in PLACES if p not in ('attr', 'comment')]
        r += [[[[p, 2]], True, t] for p in PLACES if p not in ('nsattr', 'silattr') for t in (True, False)]
        r += [[[["text", 2], ["attr", 2]], True, True], [[["cdata", 2], ["comment", 2]], False, True],
              [[["comment", 4]], False, True], [[["attr", 4]], False, True]]
    return r


def run(x, case):
    places, drafts, topns = case
    l = Ldml(None, usedrafts=drafts)
    marks = []
    for p, n in places:
        path, at = PLACES[p]
        v = x.str(p, n)
        h_ldml.xmlchars(x, v)
        if n > 1 and p in ('nsattr', 'silattr'):
            x.assume(x.not_("\u03a3" in v))
        e = l.ensure_path(path)[0]
        if at is None:
            x.assume(v != "\u2191\u2191\u2191")
            x.cover('cdata' if p in ('cdata', 'note') else 'nested' if p == 'deep' else 'text')
            e.text = v
            marks.append([path, 'text', h_ldml.lines(v)])
        elif at == '#' or at == '##':
            x.cover('comment')
            x.assume(x.not_("--" in v) and not v.endswith("-") and x.not_("\r" in v))
            if at == '#':
                e.comments = [v]
            else:
                e.commentsafter = [v]
        else:
            x.cover('attribute')
            e.set(at, v)
            marks.append([path, at, v])
    if not topns:
        x.cover('low namespaces')
    l.normalise(usedrafts=drafts)
    before = h_ldml.dump(l.root)
    said = h_ldml.comments(l.root)
    h_ldml.write(l, topns=topns)
    text = h_ldml.write(l, topns=topns)
    x.observe("text", text)
    m = Ldml(x.file("out.xml", text), usedrafts=drafts)
    x.check(x.eq(h_ldml.dump(m.root), before), "the elements, attributes and texts are those written")
    x.check(x.eq(h_ldml.comments(m.root), said), "the comments are those written")
    for path, at, v in marks:
        es = m.findall(path)
        x.check(len(es) == 1, "the element is there")
        if at == 'text':
            x.check((es[0].text or "") == v, "with its text")
        else:
            x.check(es[0].get(at) == v, "with its attribute")
