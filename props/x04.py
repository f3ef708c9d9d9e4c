"""A path finds exactly the elements it describes; what is not there is made, once."""
from sldr.ldml import Ldml
import h_ldml

#xml
PROPERTY = 'X04'
BOUNDS = ("documents with 2 or 3 siblings with up to 2 attributes, the values of the attributes and of the predicates being "
          "arbitrary XML strings of 1 to 3 characters (thorough 4) without a double quote; predicates in double or single quotes, "
          "with blanks around the equal sign, and steps after the predicate; 2 to 3 (thorough 4) elements with up to 2 elements in them, with and without predicates")
ASSUMPTIONS = ["values in double quotes hold no double quote, in single quotes no single quote"]
COVERS = ['found', 'created', 'slash', 'bracket', 'quote', 'namespace', 'several', 'removed', 'below', 'xpath', 'before', 'text', 'deep']
# parent, name, attributes
SHAPES = {
    'zone': ['dates/timeZoneNames', 'zone', ['type']],
    'type': ['localeDisplayNames/types', 'type', ['key', 'type']],
    'pair': ['special/sil:matched-pairs', 'sil:matched-pair', ['open', 'close']],
    'font': ['special/sil:external-resources', 'sil:font', ['name']],
    'lang': ['special/sil:names', 'sil:name', ['xml:lang']],
}
NEAR = [['special'], ['myspecial', 'special'], ['specials', 'special', 'special'], ['Special', 'special', 'spec']]
FORMS = ['[@{}="{}"]', "[@{}='{}']", '[@{} = "{}"]']


def cases(tier):
    r = []
    for s in SHAPES:
        k = len(SHAPES[s][2])
        one = [[1]] if k == 1 else [[1, 0], [0, 1]]
        for o in one:
            for f in range(len(FORMS)):
                r.append(["find", s, f, [o, o], o])
            r.append(["find", s, 0, [o] * 3, o])
            r.append(["find", s, 0, [[n * 2 for n in o], o], [n * 2 for n in o]])
            r.append(["xpath", s, 0, [o, o], o])
            r.append(["before", s, 0, [o], o])
            r.append(["text", s, 0, [o], o])
        r.append(["some", s, 0, [one[0]] * 3, [1]])
        if k == 2:
            r.append(["find", s, 0, [[1, 1], [0, 0]], [1, 1]])
            r.append(["find", s, 0, [[1, 0], [0, 1]], [1, 0]])
    r.append(["find", "zone", 0, [[3], [2]], [3]])
    r += [["deep", n, pp, cp, 1] for n in (2, 3) for pp in (0, 1) for cp in (0, 1)]
    if tier == 'thorough':
        r += [["deep", 4, pp, cp, 2] for pp in (0, 1) for cp in (0, 1)]
        for s in SHAPES:
            k = len(SHAPES[s][2])
            for f in range(len(FORMS)):
                r.append(["find", s, f, [[2] * k, [2] * k], [2] * k])
                r.append(["find", s, f, [[1] * k, [1] * k], [1] * k])
            r.append(["xpath", s, 0, [[2] * k, [2] * k], [2] * k])
        r.append(["find", "zone", 0, [[4], [3]], [4]])
        r.append(["find", "zone", 1, [[4], [3]], [4]])
    return r


def value(x, name, n, quote, cover=False):
    if n == 0:
        return "k"
    v = x.str(name, n)
    h_ldml.xmlchars(x, v)
    x.assume(x.not_(quote in v))
    if not cover:
        return v
    if "/" in v:
        x.cover('slash')
    elif "]" in v or "[" in v:
        x.cover('bracket')
    elif "'" in v or '"' in v:
        x.cover('quote')
    return v


def qname(l, a):
    return {'xml:lang': '{http://www.w3.org/XML/1998/namespace}lang'}.get(a, a)


def deep(x, count, ppred, cpred, n):
    """a path with steps that several elements fit"""
    l = Ldml(None, usedrafts=False)
    top = l.ensure_path("dates/calendars")[0]
    kids = []
    for i in range(count):
        c = l.addnode(top, "calendar", attrib={"type": value(x, "c%d" % i, 1, '"')})
        m = l.addnode(c, "months")
        for j in range(x.choice("kids%d" % i, [0, 1, 2] if count < 3 else [0, 1])):
            k = l.addnode(m, "monthContext", attrib={"type": value(x, "k%d%d" % (i, j), n, '"')})
            kids.append([c, k])
    pv = value(x, "p", 1, '"')
    cv = value(x, "q", n, '"')
    x.cover('deep')
    path = "dates/calendars/calendar" + ('[@type="' + pv + '"]' if ppred else '') + "/months/monthContext"
    path += '[@type="' + cv + '"]' if cpred else ''
    want = [k for c, k in kids if (not ppred or c.get("type") == pv) and (not cpred or k.get("type") == cv)]
    got = l.findall(path)
    x.observe("found", [[k for c, k in kids].index(e) for e in got])
    x.check([id(e) for e in got] == [id(e) for e in want], "every element that fits is found below every element that fits")
    got = l.findall("calendar" + path[len("dates/calendars/calendar"):], elem=top)
    x.check([id(e) for e in got] == [id(e) for e in want], "also from within")
    if want:
        res = l.ensure_path(path)
        x.check([id(e) for e in res] == [id(e) for e in want], "what is there is not made again")
    gone = l.remove_path(path)
    x.check([id(e) for e in gone] == [id(e) for e in want], "what the path describes is removed")
    left = [k for c in top for m in c if m.tag == "months" for k in m]
    x.check([id(k) for k in left] == [id(k) for c, k in kids if k not in want], "and nothing else")


def run(x, case):
    if case[0] == 'deep':
        return deep(x, *case[1:])
    kind, shape, form, items, preds = case
    parent, name, ats = SHAPES[shape]
    tag = name.replace("sil:", h_ldml.SIL)
    if ':' in name:
        x.cover('namespace')
    fmt = FORMS[form]
    quote = '"' if '"' in fmt else "'"
    l = Ldml(None, usedrafts=False)
    p = l.ensure_path(parent)[0]
    x.check(p.tag == parent.split("/")[-1].replace("sil:", h_ldml.SIL), "the elements of the path are made")
    made = []
    for i, ns in enumerate(items):
        at = {}
        for a, n in zip(ats, ns):
            at[qname(l, a)] = value(x, "v%d%s" % (i, a[:1]), n, quote if kind in ('xpath', 'before') else "\0")
        made.append(l.addnode(p, name, attrib=at))
    for a, e in enumerate(made):
        x.check(e.tag == tag, "namespaces are understood")
    want = {}
    path = parent + "/" + name
    for a, n in zip(ats, preds):
        v = value(x, "p" + a[:1], n, quote, True)
        want[qname(l, a)] = v
        path += fmt.format(a, v)

    def matching():
        return [e for e in p if e.tag == tag and all(e.get(k) == v for k, v in want.items())]

    if kind == 'xpath':
        x.assume(x.not_(x.and_(*[x.eq(made[0].attrib[k], made[1].attrib[k]) for k in made[0].attrib])))
        x.cover('xpath')
        for e in made + [p]:
            got = l.findall(l.as_xpath(e))
            x.check(len(got) == 1 and got[0] is e, "the path of an element finds that element")
        return
    before = list(p)
    ms = matching()
    got = l.findall(path)
    x.observe("found", [list(p).index(e) for e in got])
    x.check([id(e) for e in got] == [id(e) for e in ms], "what the path describes is found, in the order of the document")
    f = l.find(path)
    x.check(f is (ms[0] if ms else None), "the first is found")
    x.check([id(e) for e in p] == [id(e) for e in before], "finding changes nothing")
    if kind == 'before':
        near = x.choice("near", NEAR)
        for n in near:
            l.addnode(p, n)
        res = l.ensure_path(path, before='special')
        if not ms:
            x.cover('before')
            rest = [e for e in p if e is not res[0]]
            i = [e.tag for e in rest].index('special')
            x.check([id(e) for e in p] == [id(e) for e in rest[:i]] + [id(res[0])] + [id(e) for e in rest[i:]], "a new element comes before what is named")
        return
    if kind == 'text':
        t = x.str("t", 1)
        for e in made:
            e.text = "a"
        res = l.ensure_path(path, text=t)
        same = [e for e in ms if e.text == t]
        if same:
            x.check([id(e) for e in res] == [id(e) for e in same], "the elements with the text are found")
        else:
            x.cover('text')
            x.check(len(res) == 1 and len(p) == len(before) + 1 and res[0] is p[-1], "else one is made")
        x.check(all(e.text == t and e.tag == tag and all(e.get(k) == v for k, v in want.items()) for e in res), "with the text")
        x.check(all(e.text == "a" for e in made), "others keep theirs")
        return
    res = l.ensure_path(path)
    if ms:
        x.cover('several' if len(ms) > 1 else 'found')
        x.check([id(e) for e in res] == [id(e) for e in ms], "what is there is not made again")
        x.check([id(e) for e in p] == [id(e) for e in before], "nor is anything else")
    else:
        x.cover('created')
        x.check(len(res) == 1 and len(p) == len(before) + 1 and res[0] is p[-1], "one element is made at the end")
        e = res[0]
        x.check(e.tag == tag and x.eq(sorted([k, v] for k, v in e.attrib.items()), sorted([k, v] for k, v in want.items())),
                "it is what the path describes")
        again = l.ensure_path(path)
        x.check(len(again) == 1 and again[0] is e and len(p) == len(before) + 1, "it is found from then on")
    sub = l.ensure_path(path + "/special")
    x.cover('below')
    x.check(len(sub) == 1 and sub[0].parent is res[0] and sub[0].tag == 'special', "steps after a predicate are below its element")
    x.check(l.findall(path + "/special") == sub, "and are found there")
    count = len(p)
    ms = matching()
    gone = l.remove_path(path)
    x.cover('removed')
    x.check([id(e) for e in gone] == [id(e) for e in ms], "what the path describes is removed")
    x.check(len(p) == count - len(ms) and not matching(), "and nothing else")
