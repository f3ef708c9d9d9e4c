"""A three-way merge applies the changes of both sides."""
from sldr.ldml_merge import LdmlMerge
import h_ldml
import h_merge

#xml
PROPERTY = 'M01'
BOUNDS = ("2 texts (thorough 3) at the same or different places, or attributes, each absent, an arbitrary letter or (if alone) empty in the base and on both "
          "sides, with and without drafts, with the default draft of ldmlmerge or none; a text and an alternative of it, each changed by either side or both alike; documents built")
ASSUMPTIONS = ["no text is changed differently on both sides (M02), no element is removed on one side with changes inside it "
               "on the other"]
COVERS = ['ours', 'theirs', 'both alike', 'added', 'removed', 'nothing', 'attribute', 'alternatives', 'altered']
PLACES = ["ab", "ac", "de", "df", "ns", "ck", "da"]
ATTRIBS = {'p': 'references', 'q': 'unknown', 'r': 'draft'}     # none distinguishes the element (a draft only without drafts)


def cases(tier):
    r = [[p, d, f] for p in PLACES for d, f in ((True, 'proposed'), (False, None))] + [["ab", True, None]]
    r += [[["p", "q"], d, None] for d in (True, False)] + [[["a", "p"], d, None] for d in (True, False)]
    r += [[["a", "r"], False, None]]
    r += [[p, d, None] for p in "acs" for d in (True, False)]
    r += [["alternatives", True, f] for f in (None, 'proposed')] + [["altered", True, f] for f in (None, 'proposed')]
    if tier == 'thorough':
        r += [[["a", "p", "q"], d, f] for d in (True, False) for f in (None, 'proposed')]
        r += [[p, d, 'proposed'] for p in ("abc", "def", "nsk", "abd", "ade") for d in (True, False)]
    return r


def run(x, case):
    keys, drafts, default = case
    if keys == "alternatives":
        return alternatives(x, default)
    if keys == "altered":
        return altered(x, default)
    if keys[-1] in ATTRIBS:
        return attributes(x, keys, drafts, default)
    B, T, O, W = {}, {}, {}, {}
    for k in keys:
        for d, n in ((B, "b"), (T, "t"), (O, "o")):
            d[k] = h_merge.maybe(x, n + k, len(keys) == 1)
        b, t, o = B[k], T[k], O[k]
        x.assume(x.or_(t == o, o == b, t == b))
        if t == o:
            x.cover('nothing' if t == b else 'both alike')
            W[k] = t
        elif o == b:
            x.cover('ours')
            W[k] = t
        else:
            x.cover('theirs')
            x.cover('added' if b is None else 'removed' if o is None else 'theirs')
            W[k] = o
    groups = {}
    for k in keys:
        steps = h_merge.PATHS[k].split("/")
        for i in range(1, len(steps)):
            groups.setdefault("/".join(steps[:i]), []).append(k)
    for g in groups.values():       # what one side removes the other side does not change
        x.assume(all(B[k] is None for k in g) or (any(T[k] is not None for k in g) and any(O[k] is not None for k in g))
                 or all(T[k] == B[k] for k in g) or all(O[k] == B[k] for k in g) or all(T[k] == O[k] for k in g))
    this = h_merge.build(T, drafts)
    other = h_merge.build(O, drafts)
    base = h_merge.build(B, drafts)
    this.merge(other, base, default=default)
    this.normalise(usedrafts=drafts)
    got = h_merge.contents(this)
    x.observe("merged", sorted([k, v] for k, v in got.items()))
    for k in h_merge.PATHS:
        x.check(got[k] == W.get(k), "every text that one side has changed is as that side has it, every other as it was")
    x.check(not h_ldml.comments(this.root), "there are no comments about clashes")
    want = h_merge.build(W, drafts)
    for k in W:
        if W[k] is not None:
            e, f = this.find(h_merge.PATHS[k]), want.find(h_merge.PATHS[k])
            x.check(x.eq(h_ldml.dump(e), h_ldml.dump(f)), "elements have their attributes")
    x.check(x.eq(h_ldml.dump(this.find("identity")), h_ldml.dump(want.find("identity"))), "the identity stays")


def attributes(x, keys, drafts, default):
    """one element, of which p, q and r are attributes that do not distinguish it and a is the text"""
    docs = [{}, {}, {}]
    want = {}
    for k in keys:
        for d, n in zip(docs, "bto"):
            d[k] = h_merge.text(x, n + k) if x.bool("has" + n + k) else None
        b, t, o = [d[k] for d in docs]
        x.assume(x.or_(t == o, o == b, t == b))
        want[k] = o if t == b else t
        x.cover('attribute')
    ls = []
    for d in docs + [want]:
        l = h_merge.build({'b': "text"}, drafts)
        e = l.find(h_merge.PATHS['b'])
        for k in ATTRIBS:
            if d.get(k) is not None:
                e.set(ATTRIBS[k], d[k])
        if 'a' in d:
            e.text = d['a']
        l.normalise(usedrafts=drafts)
        ls.append(l)
    base, this, other, w = ls
    this.merge(other, base, default=default)
    this.normalise(usedrafts=drafts)
    es = this.findall(h_merge.PATHS['b'])
    x.check(len(es) == 1, "the element stays one")
    x.observe("merged", h_ldml.dump(es[0]))
    x.check(x.eq(h_ldml.dump(es[0]), h_ldml.dump(w.find(h_merge.PATHS['b']))), "every attribute that one side has changed is as that side has it")
    x.check(not h_ldml.comments(this.root), "there are no comments about clashes")


def alternatives(x, default):
    """each side may add an alternative to a text, or a text with one, and change another text"""
    t = h_merge.text(x, "t")
    inbase = x.bool("inbase")
    other = x.choice("other", ["none", "ours", "theirs", "both"])
    x.cover('alternatives')
    docs = []
    added = {}
    for n in "bto":
        has = n != "b" and x.bool("alt" + n)
        a = h_merge.text(x, "a" + n)
        d = x.choice("d" + n, ["suspect", "contributed"]) if has else None
        s = '<ldml><identity><language type="aa"/></identity><delimiters>'
        if inbase or n == "t" or n == "o" and has:
            s += '<quotationStart>' + t + '</quotationStart>'
            if has:
                name = "one" if n == "t" or x.bool("samename") else "two"
                s += '<quotationStart alt="' + name + '" draft="' + d + '">' + a + '</quotationStart>'
                added.setdefault(name, []).append([a, d])
        q = {"b": "0", "t": "1" if other in ("ours", "both") else "0", "o": "2" if other == "theirs" else "1" if other == "both" else "0"}[n]
        s += '<quotationEnd>' + q + '</quotationEnd></delimiters></ldml>'
        docs.append(LdmlMerge(x.file(n + ".xml", s), usedrafts=True))
    # the same alternative under two names counts once
    x.assume(len(added) < 2 or added["one"][0][0] != added["two"][0][0])
    base, this, theirs = docs
    this.merge(theirs, base, default=default)
    this.normalise(usedrafts=True)
    es = this.findall("delimiters/quotationStart")
    x.check(len(es) == 1 and es[0].text == t, "the text stays")
    x.check([e.text for e in this.findall("delimiters/quotationEnd")] == ["0" if other == "none" else "2" if other == "theirs" else "1"],
            "the other text is merged")
    al = getattr(es[0], 'alternates', {})
    x.observe("alternates", sorted([k, v.text, v.get('draft')] for k, v in al.items()))
    x.check(sorted(al.keys()) == sorted(added.keys()), "alternatives that either side has added are there")
    for k, v in al.items():
        x.check([v.text, v.get('draft')] in added[k], "as they were added")


def altered(x, default):
    """a side may change the text of an alternative that the base has, or the text that it is one of"""
    d = x.choice("draft", ["suspect", "contributed", None])
    docs = []
    want = {}
    vals = {}
    for k in ("m", "a"):
        vals[k] = {"b": h_merge.text(x, "b" + k), "n": h_merge.text(x, "n" + k)}
        side = x.choice("side" + k, ["none", "ours", "theirs", "both"])
        for n in "bto":
            vals[k + n] = vals[k]["n" if n == "t" and side in ("ours", "both") or n == "o" and side in ("theirs", "both") else "b"]
        want[k] = vals[k]["b" if side == "none" else "n"]
    x.assume(vals["a"]["b"] != vals["m"]["b"] and vals["a"]["n"] != vals["m"]["b"])
    x.assume(vals["a"]["b"] != vals["m"]["n"] and vals["a"]["n"] != vals["m"]["n"])
    x.cover('altered')
    for n in "bto":
        s = '<ldml><identity><language type="aa"/></identity><delimiters>'
        s += '<quotationStart>' + vals["m" + n] + '</quotationStart>'
        s += '<quotationStart alt="one"' + (' draft="' + d + '"' if d else '') + '>' + vals["a" + n] + '</quotationStart></delimiters></ldml>'
        docs.append(LdmlMerge(x.file(n + ".xml", s), usedrafts=True))
    base, this, theirs = docs
    this.merge(theirs, base, default=default)
    this.normalise(usedrafts=True)
    es = this.findall("delimiters/quotationStart")
    x.observe("main", [e.text for e in es])
    x.check(len(es) == 1 and es[0].text == want["m"], "the text is as the side has it that has changed it")
    al = getattr(es[0], 'alternates', {})
    x.observe("alternates", sorted([k, v.text, v.get('draft')] for k, v in al.items()))
    x.check(list(al.keys()) == ["one"] and al["one"].text == want["a"] and al["one"].get('draft') == d,
            "the alternative is as the side has it that has changed it")
    x.check(not h_ldml.comments(this.root), "there are no comments about clashes")
