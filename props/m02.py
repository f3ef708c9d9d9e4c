"""What both sides have changed differently is not lost in a three-way merge, and nothing else is touched."""
import h_ldml
import h_merge

#xml
PROPERTY = 'M02'
BOUNDS = ("one text or attribute that both sides change differently (all of change, addition and removal), in 5 places, and another that one "
          "side may change, all texts arbitrary letters or missing inside the element, an element with 2 texts removed on one side and changed or added to inside on the other, with and without drafts; any two draft statuses of base and ours")
ASSUMPTIONS = []
COVERS = ['changed twice', 'added twice', 'removed and changed', 'changed and removed', 'worse status', 'better status', 'no text', 'attribute added twice',
          'attribute removed and changed', 'attribute changed and removed', 'attribute changed twice', 'removed and attribute changed', 'removed and changed inside']
DRAFTS = ['approved', 'contributed', 'provisional', 'unconfirmed', 'tentative', 'generated', 'suspect', None]


def cases(tier):
    places = ["ab", "ca", "de", "sn", "kc"] + (["fd", "ac", "ea"] if tier == 'thorough' else [])
    r = [["clash", p, d, f] for p in places for d, f in ((True, None), (True, 'proposed'), (False, None))]
    r += [["empty", p, d, f] for p in places[:3] for d, f in ((True, None), (True, 'proposed'), (False, None))]
    r += [["attribute", p, d, f] for p in ["ab"] + places[3:] for d, f in ((True, None), (True, 'proposed'), (False, None))]
    r += [["gone", p, d, f] for p in ["ab", "dc"] + places[3:] for d, f in ((True, None), (True, 'proposed'), (False, None))]
    r += [["tree", p, d, f] for p in ["abc", "dea", "dfs", "def"] for d, f in ((True, None), (True, 'proposed'), (False, None))]
    r += [["status", p, True, f] for p in ("ab", "dc") for f in (None, 'proposed')]
    return r


def run(x, case):
    kind, keys, drafts, default = case
    if kind == 'tree':
        return tree(x, keys, drafts, default)
    k, l = keys
    if kind == 'status':
        return status(x, k, l, default)
    if kind == 'gone':
        return gone(x, k, l, drafts, default)
    if kind == 'attribute':
        return attribute(x, k, l, drafts, default)
    b, t, o = [h_merge.maybe(x, n, kind == 'empty') for n in "bto"]
    x.assume(kind != 'empty' or b == "" or t == "" or o == "")
    x.assume(t != o and o != b and b != t)
    u, v = h_merge.text(x, "u"), h_merge.text(x, "v")
    this = h_merge.build({k: t, l: u}, drafts)
    other = h_merge.build({k: o, l: v}, drafts)
    base = h_merge.build({k: b, l: u}, drafts)
    this.merge(other, base, default=default)
    this.normalise(usedrafts=drafts)
    got = h_merge.contents(this)
    x.observe("merged", sorted([k, v] for k, v in got.items()))
    x.check(got[l] == v, "the other text is as the side has it that changed it")
    for n in h_merge.PATHS:
        if n not in keys:
            x.check(got[n] is None, "nothing else appears")
    said = h_ldml.comments(this.root)
    x.observe("comments", said)
    if b is None:
        x.cover('added twice')
        x.check(x.or_(got[k] == t, x.and_(drafts, got[k] == o)), "of two additions one stays")
    elif t is None:
        x.cover('removed and changed')
        x.check(got[k] == o, "a change is kept against a removal")
    elif o is None:
        x.cover('changed and removed')
        x.check(got[k] == t, "a change is kept against a removal")
    else:
        x.cover('changed twice')
        x.check(got[k] == t, "of two changes ours stays")
        e = this.find(h_merge.PATHS[k])
        cs = getattr(e, 'comments', [])
        x.check(len(cs) == 1 and len(said) == 1, "with one comment")
        x.check(all(not w or ('"' + w + '"') in cs[0] for w in (b, t, o)), "that has all three texts")
        if "" in (b, t, o):
            x.cover('no text')


def attribute(x, k, l, drafts, default):
    """an attribute that both sides change differently"""
    b, t, o = [h_merge.maybe(x, n) for n in "bto"]
    x.assume(t != o and o != b and b != t)
    u, v, w = h_merge.text(x, "u"), h_merge.text(x, "v"), h_merge.text(x, "w")
    docs = []
    for a, c in ((t, u), (o, v), (b, u)):
        m = h_merge.build({k: w, l: c}, drafts)
        if a is not None:
            m.find(h_merge.PATHS[k]).set('references', a)
        m.normalise(usedrafts=drafts)
        docs.append(m)
    this, other, base = docs
    this.merge(other, base, default=default)
    this.normalise(usedrafts=drafts)
    got = h_merge.contents(this)
    x.check(got[l] == v and got[k] == w, "the texts are as they were or as the side has it that changed it")
    for n in h_merge.PATHS:
        if n not in (k, l):
            x.check(got[n] is None, "nothing else appears")
    e = this.find(h_merge.PATHS[k])
    r = e.get('references')
    x.observe("attribute", r)
    said = h_ldml.comments(this.root)
    x.observe("comments", said)
    if b is None:
        x.cover('attribute added twice')
        x.check(x.or_(r == t, r == o), "of two additions one stays")
    elif t is None:
        x.cover('attribute removed and changed')
        x.check(r == o, "a change is kept against a removal")
    elif o is None:
        x.cover('attribute changed and removed')
        x.check(r == t, "a change is kept against a removal")
    else:
        x.cover('attribute changed twice')
        x.check(r == t, "of two changes ours stays")
        x.check(len(said) == 1 and len(getattr(e, 'comments', [])) == 1, "with one comment")
        x.check(all(('"' + s + '"') in said[0] for s in (b, t, o)), "that has all three values")


def gone(x, k, l, drafts, default):
    """one side has removed an element that the other side has changed in an attribute only"""
    b, c = [h_merge.maybe(x, n) for n in "bc"]
    x.assume(b != c)
    u, v, w = h_merge.text(x, "u"), h_merge.text(x, "v"), h_merge.text(x, "w")
    ours = x.bool("ours")
    docs = []
    for text, a, n in ((w, b, u), (w, c, u), (None, None, v)):
        m = h_merge.build({k: text, l: n}, drafts)
        if a is not None:
            m.find(h_merge.PATHS[k]).set('references', a)
        m.normalise(usedrafts=drafts)
        docs.append(m)
    base, changed, removed = docs
    this, other = (changed, removed) if ours else (removed, changed)
    this.merge(other, base, default=default)
    this.normalise(usedrafts=drafts)
    got = h_merge.contents(this)
    x.cover('removed and attribute changed')
    x.observe("merged", sorted([k, v] for k, v in got.items()))
    x.check(got[l] == v, "the other text is as the side has it that changed it")
    e = this.find(h_merge.PATHS[k])
    x.check(e is not None and got[k] == w and e.get('references') == c, "a change of an attribute is kept against a removal")


def tree(x, keys, drafts, default):
    """one side has removed an element that the other side has changed deep inside"""
    k, m, l = keys
    b = h_merge.maybe(x, "b")
    c, w, u, v = [h_merge.text(x, n) for n in "cwuv"]
    x.assume(b != c)
    ours = x.bool("ours")
    base = h_merge.build({k: b, m: w, l: u}, drafts)
    changed = h_merge.build({k: c, m: w, l: u}, drafts)
    removed = h_merge.build({l: v}, drafts)
    this, other = (changed, removed) if ours else (removed, changed)
    this.merge(other, base, default=default)
    this.normalise(usedrafts=drafts)
    got = h_merge.contents(this)
    x.cover('removed and changed inside')
    x.observe("merged", sorted([k, v] for k, v in got.items()))
    x.check(got[l] == v, "the other text is as the side has it that changed it")
    x.check(got[k] == c, "a change inside is kept against a removal")
    x.check(got[m] == w, "with what is beside it")
    for n in h_merge.PATHS:
        if n not in keys:
            x.check(got[n] is None, "nothing else appears")


def status(x, k, l, default):
    """ours with another draft status, the other side has changed something else"""
    b, t, u, v = [h_merge.text(x, n) for n in "btuv"]
    db, dt = x.choice("db", DRAFTS), x.choice("dt", DRAFTS)
    x.assume(b != t)
    docs = []
    for text, d, w in ((b, db, u), (t, dt, u), (b, db, v)):
        m = h_merge.build({k: text, l: w}, True)
        if d is not None:
            m.find(h_merge.PATHS[k]).set('draft', d)
        m.normalise(usedrafts=True)
        docs.append(m)
    base, this, other = docs
    this.merge(other, base, default=default)
    this.normalise(usedrafts=True)
    got = h_merge.contents(this)
    x.observe("merged", sorted([k, v] for k, v in got.items()))
    x.check(got[l] == v, "the other text is as the side has it that changed it")
    rb, rt = [DRAFTS.index('unconfirmed' if d is None else d) for d in (db, dt)]
    e = this.find(h_merge.PATHS[k])
    alts = [a.text for a in getattr(e, 'alternates', {}).values()]
    x.observe("alternates", alts)
    if rb < rt:
        x.cover('worse status')
        # only looked at if the other side has changed something near
        if got[k] == t:
            x.check(not alts and this.get_draft(e) == rt, "ours takes its place")
        else:
            x.check(got[k] == b and this.get_draft(e) == rb, "or that of the base stays as it has a better draft status")
            x.check(len(alts) == 1 and alts[0] == t, "and ours becomes an alternative")
    else:
        x.cover('better status')
        x.check(got[k] == t and not alts, "ours takes its place otherwise")
        x.check(this.get_draft(e) == rt, "the status is that of the text")
