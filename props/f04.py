"""Old files are brought up to date: orientation, status, region and language are where they belong."""
from sldr.ldml import Ldml
import h_ldml

#xml
PROPERTY = 'F04'
BOUNDS = ("documents with any status, any of the named regions or another one, both orders of an orientation with any value out of 4, a layout or none, "
          "language and script with codes of any two letters as code or as type, names of languages from English, from ISO 639 or from neither, two exemplars with or without "
          "a draft, and any default of drafts; up to three files in two directories or asked for")
ASSUMPTIONS = ["no layout has an orientation already", "the pool of processes is replaced by a stand-in"]
COVERS = ['moved', 'dropped', 'one order', 'layout', 'no layout', 'unused', 'draft', 'own draft', 'region', 'other region', 'code', 'type', 'script', 'English',
          'ISO', 'unknown', 'debug', 'all', 'asked', 'pool', 'own identity']
SIL = h_ldml.SIL
LOW = [('a', 'z')]
CODES = {"Benin": "BJ", "Bolivia": "BO", "Brazil": "BR", "Burkina Faso": "BF", "Cameroon": "CM", "Cape Verde Islands": "CV", "Central African Republic": "CF",
         "Chad": "TD", "Congo": "CG", "Democratic Republic of Congo": "CD", "Equatorial Guinea": "GQ", "Eritrea": "ER", "Ethiopia": "ET", "Ghana": "GH", "Guinea": "GN",
         "Iran": "IR", "Kenya": "KE", "Liberia": "LR", "Malaysia": "MY", "Mali": "ML", "Niger": "NE", "Nigeria": "NG", "Pakistan": "PK", "Papua New Guinea": "PG",
         "Senegal": "SN", "Sierra Leone": "SL", "Sudan": "SD", "Togo": "TG", "Uganda": "UG", "Viet Nam": "VN"}


def cases(tier):
    return ["orientation", "status", "region", "language", "files"]


def doc(ident='<language type="aa"/>', body="", sil=""):
    if sil:
        sil = '<special><sil:identity%s/></special>' % sil
    return ('<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><identity><version number="1"/>%s%s</identity>%s</ldml>\n' % (ident, sil, body))


class Result(object):
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v


class Pool(object):
    def map_async(self, fn, items):
        return Result([fn(i) for i in items])

    def close(self):
        pass

    def join(self):
        pass


def go(x, args, pool=False):
    argv = ["-o", x.path("out")] + ([] if pool else ["-s"]) + args
    x.path("out/x")
    status, printed, ns = x.script("fixsldr", argv, {"multiprocessing": {"Pool": Pool}})
    return status or 0, printed


def result(x, name="aa.xml"):
    p = x.path("out/" + name)
    if p not in x.listfiles():
        return None, ""
    x.observe(name, x.readfile(p))
    return Ldml(p), x.readfile(p)


def texts(l, path):
    return [e.text for e in l.root.findall(path)]


def tags(e):
    return sorted(c.tag for c in e)


def run(x, case):
    d = x.path("d")
    if case == "orientation":
        a, b = [x.str(n, 2, dom=LOW) for n in "ab"]
        cho = x.choice("character", [None, "left-to-right", "right-to-left", "top-to-bottom"])
        lino = x.choice("line", [None, "top-to-bottom", "left-to-right", "right-to-left"])
        layout = x.choice("layout", [None, True])
        body = "<characters><exemplarCharacters>[" + a + "]</exemplarCharacters></characters>"
        if layout:
            x.cover('layout')
            body = "<layout><special><sil:note>" + b + "</sil:note></special></layout>" + body
        x.assume(not (cho is None and lino is None))
        body += "<orientation>" + ("<characterOrder>" + cho + "</characterOrder>" if cho else "") + ("<lineOrder>" + lino + "</lineOrder>" if lino else "") + "</orientation>"
        x.file("d/aa.xml", doc(body=body))
        status, out = go(x, ["-i", d])
        l, text = result(x)
        x.check(status == 0 and l is not None, "a file is written")
        want = {}
        if cho and cho != "left-to-right":
            want['characterOrder'] = cho
        if lino and lino != "top-to-bottom":
            want['lineOrder'] = lino
        if len(want) == 1:
            x.cover('one order')
        if want and not layout:
            x.cover('no layout')
        x.cover('moved' if want else 'dropped')
        os = l.root.findall('.//orientation')
        x.check(len(os) == (1 if want else 0) and len(l.root.findall('layout/orientation')) == len(os), "the orientation is in the layout unless it is the usual one")
        if os:
            x.check({c.tag: c.text for c in os[0]} == want, "orders that are the usual ones are left out")
        x.check(texts(l, 'layout/special/%snote' % SIL) == ([b] if layout else []), "what is in the layout is kept")
        x.check(texts(l, 'characters/exemplarCharacters') == ["[" + a + "]"], "the rest is kept")
        x.check(len(l.root.findall('layout')) == (1 if layout or want else 0), "there is no layout without content, and not more than one")
        return
    if case == "status":
        st = x.choice("status", [None, "Draft", "HOLD", "Final", ""])
        drafts = [x.choice("draft%d" % i, [None, "approved", "provisional", "unconfirmed"]) for i in range(2)]
        default = x.choice("default", [None, "approved", "contributed"])
        ts = [x.str("t%d" % i, 2, dom=LOW) for i in range(2)]
        body = ""
        if st is not None:
            body = '<status%s/>' % (' value="%s"' % st if st else "")
        body += "<characters>"
        for i, k in enumerate(["", ' type="auxiliary"']):
            body += "<exemplarCharacters%s%s>[%s]</exemplarCharacters>" % (k, ' draft="%s"' % drafts[i] if drafts[i] else "", ts[i])
        body += "</characters>"
        if default:
            x.cover('own identity')
        x.file("d/aa.xml", doc(body=body, sil=' draft="%s"' % default if default else ""))
        status, out = go(x, ["-i", d])
        l, text = result(x)
        x.check(status == 0 and l is not None, "a file is written")
        x.check(not l.root.findall('status') and "<status" not in text, "there is no status any more")
        ids = l.root.findall('identity/special/%sidentity' % SIL)
        x.check(len(ids) == (1 if st == "HOLD" or default else 0), "there is one identity of SIL if any")
        x.check(not ids or ids[0].get('usage') == ("unused" if st == "HOLD" else None), "what is on hold is not used")
        x.check(not ids or ids[0].get('draft') == default, "the draft of the file is kept")
        if st == "HOLD":
            x.cover('unused')
        es = l.root.findall('characters/exemplarCharacters')
        x.check(len(es) == 2, "all exemplars are there")
        for i, e in enumerate(sorted(es, key=lambda e: e.get('type') or "")):
            x.check(e.text == "[" + ts[i] + "]", "exemplars are as they were")
            want = drafts[i] or (default or "unconfirmed")
            if drafts[i]:
                x.cover('own draft')
            elif st in ("Draft", "HOLD"):
                x.cover('draft')
                want = "unconfirmed"
            x.check((e.get('draft') or default or "unconfirmed") == want, "the exemplars of a draft are not confirmed unless they say so")
        return
    if case == "region":
        names = sorted(CODES)
        own = x.choice("own", [None, "ZZ"])
        name = x.choice("region", names + ["Atlantis", "", "none", "empty"] if own is None else ["Kenya", "Atlantis", "none"])
        a = x.str("a", 2, dom=LOW)
        body = {"none": "", "empty": "<regionInfo/>"}.get(name, '<regionInfo><region type="%s"/></regionInfo>' % name)
        if not name:
            body = "<regionInfo><region/></regionInfo>"
        x.file("d/aa.xml", doc(body="<characters><exemplarCharacters>[" + a + "]</exemplarCharacters></characters>" + body, sil=' defaultRegion="%s"' % own if own else ""))
        status, out = go(x, ["-i", d])
        l, text = result(x)
        x.check(status == 0 and l is not None, "a file is written")
        x.cover('region' if name in CODES else 'other region')
        x.check(tags(l.root) == ["characters", "identity"], "there is no information of a region any more")
        x.check([e.get('defaultRegion') for e in l.root.findall('identity/special/%sidentity' % SIL)] == ([CODES[name]] if name in CODES else [own] if own else []),
                "the region is the default one of the identity")
        x.check(texts(l, 'characters/exemplarCharacters') == ["[" + a + "]"], "the rest is kept")
        return
    if case == "language":
        a = x.str("lang", 2, dom=LOW)
        s = x.str("script", 2, dom=LOW)
        e = x.str("english", 2, dom=LOW)
        i = x.str("iso", 2, dom=LOW)
        n, m = [x.str(k, 2, dom=LOW) for k in ("n", "m")]
        x.assume(a != "en")
        how = x.choice("how", ["code", "type", "named"])
        x.cover('type' if how == "type" else 'code')
        named = ' name="Some"' if how == "named" else ""
        att = "type" if how == "type" else "code"
        ident = '<language %s="%s"%s/>' % (att, a, named)
        hasscript = x.choice("hasscript", [False, True])
        if hasscript:
            x.cover('script')
            ident += '<script %s="%s"%s/>' % (att, s, named)
        x.file("d/aa.xml", doc(ident))
        x.file("d/en.xml", doc('<language type="en"/>', '<localeDisplayNames><languages><language type="' + e + '">' + n + '</language></languages></localeDisplayNames>'))
        args = ["-i", d]
        useiso = x.choice("useiso", [False, True])
        if useiso:
            args += ["--iso", x.file("iso.xml", '<iso_639_3_entries><iso_639_3_entry id="' + i + '" reference_name="' + m + '"/><iso_639_3_entry id="zz" reference_name="Z"/></iso_639_3_entries>')]
        status, out = go(x, args)
        l, text = result(x)
        x.check(status == 0 and l is not None, "a file is written")
        if a == e:
            x.cover('English')
            want = n
        elif useiso and a == i:
            x.cover('ISO')
            want = m
        elif useiso and a == "zz":
            want = "Z"
        else:
            x.cover('unknown')
            want = "Unknown"
        x.check(text.count("<!--") == 1 and ('<!-- name.en(' + a + ')="' + want + '" -->') in text, "the English name of the language is in a comment")
        g = l.root.find('identity/language')
        x.check(g is not None and dict(g.attrib) == {'type': a}, "the language is the type, without a name")
        g = l.root.find('identity/script')
        x.check((dict(g.attrib) == {'type': s}) if hasscript else g is None, "and so is the script")
        x.check(result(x, "en.xml")[0] is not None, "all files are done")
        return
    # files
    ts = [x.str("t%d" % i, 2, dom=LOW) for i in range(3)]
    names = ["d/aa.xml", "d/bb.xml", "e/cc.xml"]
    for i, f in enumerate(names):
        x.file(f, doc('<language type="%s"/>' % f[2:4], "<characters><exemplarCharacters>[" + ts[i] + "]</exemplarCharacters></characters>"))
    x.file("d/note.txt", "no file of a locale")
    which = x.choice("which", [[], [0], [1, 2]])
    debug = x.choice("debug", [False, True])
    pool = x.choice("pool", [False, True])
    x.cover('asked' if which else 'all')
    args = ["-i", d, "-i", x.path("e")] + (["--debug"] if debug else [])
    for i in which:
        args += ["-l", x.path(names[i])]
    status, out = go(x, args, pool)
    if pool:
        x.cover('pool')
    x.check(status == 0, "all goes well")
    if debug:
        x.cover('debug')
        for i in (which or range(3)):
            x.check(("Processing " + x.path(names[i]) + "\n") in out, "with --debug each file is named")
    else:
        x.check(out == "", "nothing is printed otherwise")
    for i, f in enumerate(names):
        l, text = result(x, f[2:])
        x.check((l is not None) == (not which or i in which), "the files asked for, or all, are written")
        if l is not None:
            x.check(texts(l, 'characters/exemplarCharacters') == ["[" + ts[i] + "]"], "each from its own source")
        x.check(x.readfile(x.path(f)) == doc('<language type="%s"/>' % f[2:4], "<characters><exemplarCharacters>[" + ts[i] + "]</exemplarCharacters></characters>"),
                "the sources are left alone")
    x.check(len([f for f in x.listfiles() if f.startswith(x.path("out/"))]) == len(which or names), "nothing else is written")
