"""The best alternative of an element comes first and none is lost."""
from sldr.ldml import Ldml, _alldrafts
import h_ldml

#xml
PROPERTY = 'X05'
BOUNDS = ("one element with up to 3 (thorough 4) alternatives, each with any draft status or none (with 3 in documents that are written or changed, 4 of the 7; with 4 that are changed, 2; thorough all), alternative names of 1 "
          "arbitrary XML letter, texts of up to 2 characters; added one by one, read in any order, written and read, normalised "
          "again, given another draft status, or looked for by text, draft status or name")
ASSUMPTIONS = []
COVERS = ['added', 'displaced', 'same name', 'read', 'no main', 'written', 'changed', 'promoted', 'improved', 'keyed', 'matched', 'made']
DRAFTS = list(_alldrafts) + [None]
FEW = ['approved', 'provisional', 'unconfirmed', 'suspect', None]
TWO = ['approved', 'provisional']
UNCONFIRMED = _alldrafts.index('unconfirmed')       # what no draft means


def cases(tier):
    more = tier == 'thorough'
    r = [["add", 2], ["add", 3], ["write", 2], ["write", 3, 0], ["read", 2], ["read", 3, 0], ["change", 2], ["change", 3, 0],
         ["text", 2], ["path", 2], ["keyed", 2], ["change", 4, 1], ["match", 2, 0], ["match", 3, 1]]
    if more:
        r += [["write", 3], ["read", 3], ["change", 3], ["add", 4, 0], ["text", 3, 0], ["path", 3], ["keyed", 3], ["match", 3, 0]]
    return r


def rate(d):
    return UNCONFIRMED if d is None else _alldrafts.index(d)


def name(x, n):
    s = x.str(n, 1)
    x.assume(x.or_(x.and_(s >= 'a', s <= 'z'), x.and_(s >= '\u0400', s <= '\u04ff')))
    return s


def has(d):
    """what is known of a node"""
    return [d.text, d.get('draft')]


def eqdraft(a, b):
    """draft status that is not written is the default"""
    return rate(a) == rate(b)


def main(p, tag):
    es = [c for c in p if c.tag == tag]
    return es[0], len(es)


def run(x, case):
    kind, n = case[:2]
    tag = 'quotationStart'
    if kind == 'keyed':
        return keyed(x, n)
    # only what is read may have no draft status
    all_ = [d for d in DRAFTS if d is not None or kind == 'read']
    if len(case) > 2:
        all_ = [d for d in all_ if d in (FEW, TWO)[case[2]]]
    drafts = [x.choice("d%d" % i, all_) for i in range(n)]
    alts = [None] + [name(x, "a%d" % i) for i in range(1, n)]
    if len(case) > 2 and case[2]:
        alts = [None] + ["abcdef"[i] for i in range(1, n)]
    texts = ["t%d" % i for i in range(n)]
    if kind == 'text':
        for i in range(n):
            texts[i] = x.str("t%d" % i, 1)
            h_ldml.xmlchars(x, texts[i])
            x.assume(x.not_(x.or_(texts[i] in " \t\r\n", texts[i] == "\u2191\u2191\u2191")))
        for i in range(n):
            for j in range(i):
                x.assume(texts[i] != texts[j])
    if kind == 'read':
        return read(x, n, tag, drafts, alts, texts)
    l = Ldml(None, usedrafts=True)
    p = l.ensure_path('delimiters')[0]
    shown = []
    for i in range(n):
        # what the new one replaces: the one of the same name, unless that is better
        kw = {} if drafts[i] is None else {'draft': drafts[i]}
        e = l.addnode(p, tag, alt=alts[i], returnnew=True, **kw)
        e.text = texts[i]
        shown.append(e)
        x.cover('added')
    e, count = main(p, tag)
    x.check(count == 1, "there is one main element")
    al = getattr(e, 'alternates', {})
    x.observe("main", has(e))
    x.observe("alternates", sorted([k, v.text, v.get('draft')] for k, v in al.items()))
    best = min(rate(d) for d in drafts)
    x.check(rate(e.get('draft')) == best, "the main element has the best draft status")
    x.check(e.get('alt') is None, "and is no alternative")
    if e is not shown[0]:
        x.cover('displaced')
    nodes = [e] + list(al.values())
    x.check(len(set(id(a) for a in nodes)) == len(nodes), "nothing is kept twice")
    for a in nodes:
        i = [id(s) for s in shown].index(id(a))
        x.check(a.text == texts[i] and a.get('draft') == drafts[i], "what is kept is as it was added")
    names = []
    for a in alts[1:]:
        if a not in names:
            names.append(a)
    x.check(len(al) == len(names) and all(a in al for a in names), "there is an alternative of every name")
    if len(names) < n - 1:
        x.cover('same name')
        if not len(al) or n == 3:
            kept = [id(a) for a in nodes]
            for i in range(n):
                if id(shown[i]) not in kept:
                    x.check(all(rate(a.get('draft')) <= rate(drafts[i]) for a in nodes), "what is dropped is no better than what is kept")
        if kind != 'add':
            return
    before = [has(e), sorted([k] + has(v) for k, v in al.items())]
    if kind == 'change':
        d = x.choice("new", list(_alldrafts))
        x.cover('changed')
        h_ldml.write(l)
        l.change_draft(e, d, alt="\u0100")
        m, count = main(p, tag)
        h_ldml.write(l)
        got = main(p, tag)
        x.check(count == 1 and got[0] is m and got[1] == 1, "writing changes nothing")
        ma = getattr(m, 'alternates', {})
        now = [m] + list(ma.values())
        x.check(sorted(id(a) for a in now) == sorted(id(a) for a in nodes), "every alternative is still there, once")
        x.check(rate(e.get('draft')) == rate(d), "the element has its new draft status")
        x.check(all(rate(m.get('draft')) <= rate(a.get('draft')) for a in now), "the main element has the best draft status again")
        if m is not e:
            x.cover('promoted')
        check_written(x, l, m, ma, tag)
        return
    if kind == 'text' or kind == 'path':
        want = x.str("w", 1) if kind == 'text' else texts[int(x.int("w", 0, n - 1))]
        d = x.choice("new", list(_alldrafts))
        old = [[s.text, s.get('draft')] for s in shown]
        match = [s for s in nodes if s.text == want]
        x.assume(len(match) == 1)
        res = l.ensure_path('delimiters/' + tag, text=want, draft=d, alt="\u0100")
        m, count = main(p, tag)
        ma = getattr(m, 'alternates', {})
        now = [m] + list(ma.values())
        x.check(len(res) == 1 and res[0] is match[0], "the alternative with the text is found")
        x.check(count == 1 and sorted(id(a) for a in now) == sorted(id(a) for a in nodes), "every alternative is still there, once")
        i = [id(s) for s in shown].index(id(match[0]))
        if rate(d) < rate(old[i][1]):
            x.cover('improved')
            x.check(match[0].get('draft') == d, "its draft status is improved")
        else:
            x.check(match[0].get('draft') == old[i][1], "its draft status is not made worse")
        for j in range(n):
            if j != i:
                x.check(shown[j].get('draft') == old[j][1] and shown[j].text == old[j][0], "the others are as before")
        x.check(all(rate(m.get('draft')) <= rate(a.get('draft')) for a in now), "the main element has the best draft status")
        return
    if kind == 'match':
        lookup(x, l, e, al, tag, nodes, all_)
    if kind == 'write':
        check_written(x, l, e, al, tag)


def lookup(x, l, e, al, tag, nodes, all_):
    """elements and alternatives are found by draft status, by name or by both"""
    al = dict(al)
    mode = x.choice("mode", ['draft', 'alt', 'both'])
    d = x.choice("want", all_)
    a = x.choice("name", sorted(al) + ["\u0100"])
    if mode == 'draft':
        want = [c for c in nodes if c.get('draft') == d]
    else:
        want = [c for k, c in al.items() if k == a and (mode == 'alt' or c.get('draft') == d)]
    make = x.choice("make", [False, True])
    res = l.ensure_path('delimiters/' + tag, draft=d, alt=a, matchdraft=mode, dontadd=not make)
    x.observe("found", [has(c) for c in res])
    m, count = main(l.find('delimiters'), tag)
    now = [m] + list(getattr(m, 'alternates', {}).values())
    kept = sorted(id(c) for c in now)
    if want or not make:
        x.cover('matched')
        x.check(sorted(id(c) for c in res) == sorted(id(c) for c in want), "just those with the draft status or name are found")
        x.check(kept == sorted(id(c) for c in nodes), "nothing else changes")
        return
    x.cover('made')
    x.check(count == 1 and len(res) == 1 and id(res[0]) in kept, "one that is missing is made")
    x.check(all(id(c) in kept for c in nodes if c is not al.get(a)), "no other is lost")
    x.check(all(rate(m.get('draft')) <= rate(c.get('draft')) for c in now), "the main element has the best draft status")
    if a not in al:
        x.check(res[0].get('draft') == d and len(now) == len(nodes) + 1, "it has the draft status asked for")


def check_written(x, l, e, al, tag):
    before = [[e.text, rate(e.get('draft'))], sorted([k, v.text, rate(v.get('draft'))] for k, v in al.items())]
    text = h_ldml.write(l)
    x.check(h_ldml.write(l) == text, "writing again gives the same")
    x.cover('written')
    m = Ldml(x.file("out.xml", text), usedrafts=True)
    for again in range(2):
        f, count = main(m.find('delimiters'), tag)
        fa = getattr(f, 'alternates', {})
        x.check(count == 1 and x.eq([[f.text, rate(f.get('draft'))],
                                     sorted([k, v.text, rate(v.get('draft'))] for k, v in fa.items())], before),
                "a document that is read has the alternatives that were written")
        m.normalise(usedrafts=True)


def read(x, n, tag, drafts, alts, texts):
    if x.bool("nomain"):
        alts[0] = "m"
        x.cover('no main')
    perm = []
    for i in range(n):
        k = int(x.int("p%d" % i, 0, n - 1))
        x.assume(k not in perm)
        perm.append(k)
    x.cover('read')
    s = '<ldml><delimiters>'
    for i in perm:
        s += '<quotationStart'
        if alts[i] is not None:
            s += ' alt="' + alts[i] + '"'
        if drafts[i] is not None:
            s += ' draft="' + drafts[i] + '"'
        s += '>' + texts[i] + '</quotationStart>'
    s += '</delimiters></ldml>'
    m = Ldml(x.file("in.xml", s), usedrafts=True)
    for again in range(2):
        e, count = main(m.find('delimiters'), tag)
        al = dict(getattr(e, 'alternates', {}))
        x.observe("main%d" % again, has(e))
        x.check(count == 1, "there is one main element")
        i = texts.index(e.text)
        if alts[0] is None:
            x.check(i == 0, "the main element is the one that is no alternative")
        else:
            x.check(rate(drafts[i]) == min(rate(d) for d in drafts), "without one the best alternative is")
        al[alts[i]] = e
        names = []
        for a in alts:
            if a not in names:
                names.append(a)
        x.check(len(al) == len(names) and all(a in al for a in names), "there is an alternative of every name")
        for a in names:
            v = al[a]
            j = texts.index(v.text)
            same = [k for k in range(n) if alts[k] == a]
            x.check(j in same and v.get('draft') == drafts[j], "it is one that was read")
            x.check(all(rate(drafts[j]) <= rate(drafts[k]) for k in same), "the best of its name")
        m.normalise(usedrafts=True)


def keyed(x, n):
    """alternatives belong to the element with the same attributes"""
    ats = [name(x, "k%d" % i) for i in range(n)]
    x.cover('keyed')
    s = '<ldml><localeDisplayNames><territories>'
    for i, a in enumerate(ats):
        s += '<territory type="' + a + '">t' + str(i) + '</territory>'
        s += '<territory type="' + a + '" alt="v' + str(i) + '">u' + str(i) + '</territory>'
    s += '</territories></localeDisplayNames></ldml>'
    m = Ldml(x.file("in.xml", s), usedrafts=True)
    p = m.find('localeDisplayNames/territories')
    first = []
    for i in range(n):
        if ats[i] not in [ats[j] for j in first]:
            first.append(i)
    x.check(len(p) == len(first), "elements with different attributes are no alternatives of each other")
    for e in p:
        i = [j for j in range(n) if e.get('type') == ats[j]]
        x.check(e.text == "t%d" % i[0], "the main element is the one without alternative")
        al = e.alternates
        x.check(len(al) == len(i) and all(al["v%d" % j].text == "u%d" % j for j in i), "with the alternatives of the same attributes")
