"""The parts of a CLDR locale are put together into one file, named as its source."""
from sldr.ldml import Ldml
import h_ldml

#xml
PROPERTY = 'C01'
BOUNDS = ("one to three locales with any of the four parts (main, collation, casing, segments), up to two items in a part out of three, "
          "of the same kind or of different kinds, each text any two letters; one reference anywhere, on an item or an alternative; tag known, "
          "without a region, or unknown; six locales for a file that is there before")
ASSUMPTIONS = ["the package langtag and the program hg are replaced by stand-ins", "--single is given"]
COVERS = ['one part', 'two parts', 'four parts', 'first part wins', 'reference', 'alternative', 'unknown', 'seed', 'cldr', 'removed', 'kept',
          'revision', 'not the first reference', 'own identity']
SIL = h_ldml.SIL
LOW = [('a', 'z')]
BUDGET = 200
PARTS = ['main', 'collation', 'casing', 'segments']


def cases(tier):
    return ["parts", "same", "references", "identity", "remove", "hg"]


class Obj(object):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


def doc(loc, body, ident=""):
    return ('<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><identity><version number="1"/><language type="%s"/>%s</identity>%s</ldml>\n'
            % (loc, ident, body))


def item(kind, txt, ref=None, alt=None):
    a = (' references="%s"' % ref if ref else "") + (' alt="%s"' % alt if alt else "")
    if kind < 2:
        return '<localeDisplayNames><languages><language type="%s"%s>%s</language></languages></localeDisplayNames>' % (["aa", "bb"][kind], a, txt)
    return '<characters><exemplarCharacters%s>[%s]</exemplarCharacters></characters>' % (a, txt)


def values(l):
    """items of a document: the texts by kind and all attributes called references"""
    r = {}
    refs = 0
    for e in l.root.iter():
        k = None
        if e.tag == "language" and e.get("type") in ("aa", "bb") and e.text:
            k = ["aa", "bb"].index(e.get("type"))
        elif e.tag == "exemplarCharacters":
            k = 2
        if k is not None:
            r.setdefault(k, []).append(e.text if k < 2 else e.text[1:-1])
    return r


def run(x, case):
    tags = {"en": Obj(script="Latn", region="US"), "ab": Obj(script="Cyrl", region="GE"), "ab-Latn": Obj(script="Latn", region="GE")}
    asked = []

    def lookup(tag, **kw):
        asked.append(tag)
        return tags[tag]
    ran = []

    def check_output(cmd):
        ran.append(cmd)
        return b"1234\n2020-02-03 10:00 +0000"
    stubs = {"langtag": {"lookup": lookup}}
    argv = ["-s"]
    loc = "ab"
    if case == "identity":
        loc = x.choice("loc", ["ab", "ab_Latn", "zz"])
    where = PARTS[:1]
    if case == "parts":
        where = [p for i, p in enumerate(PARTS) if x.choice("in" + p, [True, False])]
        x.assume(len(where) > 0)
    elif case == "same":
        where = PARTS[:3]
    elif case in ("references", "hg"):
        where = PARTS[:2]
    if len(where) in (1, 2, 4):
        x.cover({1: 'one part', 2: 'two parts', 4: 'four parts'}[len(where)])
    want = {}
    ident = ""
    if case == "identity":
        ident = x.choice("ident", ["", '<special><sil:identity source="old" windowsLCID="1"/></special>'])
    refat = x.choice("refat", range(len(where))) if case == "references" else None
    for i, p in enumerate(where):
        body = ""
        kinds = [i % 3] if case in ("parts", "references") else [0]
        if case == "same":
            kinds = x.choice("kinds%d" % i, [[0], [1], [0, 2]])
        for k in kinds:
            t = x.str("t%d%d" % (i, k), 2, LOW) if case != "references" else "ab"
            ref = None
            if refat == i:
                ref = "R" + x.char("ref", LOW)
                x.cover('reference')
                if i == 0:
                    x.cover('not the first reference')
            body += item(k, t, ref)
            if k in want:
                x.cover('first part wins')
            else:
                want[k] = t
            if ref and x.choice("alternative", [False, True]):
                x.cover('alternative')
                body += item(k, "cd", "S1", "long")
        x.file("cldr/common/" + p + "/" + loc + ".xml", doc(loc, body, ident if i == 0 else ""))
    if case == "remove":
        # another locale, and files of locales of before
        x.file("cldr/common/collation/az.xml", doc("az", item(0, "ef")))
        x.file("cldr/common/main/readme.txt", "not a locale")
        old = x.choice("old", ["ab", "az", "ac", "bb", "ab_Latn", "a"])
        path = x.file("out/" + old[0] + "/" + old + ".xml", doc("ab", item(1, "gh")))
        other = x.file("out/" + old[0] + "/" + old + ".txt", "hi")
        rem = x.choice("rem", [True, False])
        if rem:
            argv.append("-r")
    if x.choice("seed", [False, True]) if case == "identity" else False:
        x.cover('seed')
        argv.append("--seed")
    else:
        x.cover('cldr')
    if case == "hg":
        argv.append("--hg")
        stubs["subprocess"] = {"check_output": check_output}
    if x.choice("top", [False, True]) if case == "parts" else False:
        argv.append("-t")
    status, out, ns = x.script("cldrimport", argv + [x.path("cldr/common"), x.path("out")], stubs)
    x.check(status == 0, "the script succeeds")
    res = x.path("out/" + loc[0] + "/" + loc + ".xml")
    text = x.readfile(res)
    l = Ldml(res)
    got = values(l)
    x.observe("got", got)
    x.check(x.eq(sorted(got), sorted(want)), "the items of all parts are there, and no others")
    for k in want:
        if case != "references":
            x.check(len(got[k]) == 1, "an item is there once")
        x.check(x.eq(got[k][0], want[k]), "the text of an item is that of the first part that has it")
    x.check(" references=" not in text, "no references are left")
    for e in l.root.iter():
        x.check(e.get("references") is None, "no references are left")
    s = l.root.findall("identity/special/" + SIL + "identity")
    x.check(len(s) == 1, "there is one identity")
    a = s[0]
    x.check(a.get("source") == ("cldrseed" if "--seed" in argv else "cldr"), "the source is given")
    x.check(a.get("draft") == ("unconfirmed" if "--seed" in argv else None), "what comes from the seed is unconfirmed")
    t = tags.get(loc.replace("_", "-"))
    if t is None:
        x.cover('unknown')
    if ident:
        x.cover('own identity')
        x.check(a.get("windowsLCID") == "1", "other attributes of the identity stay")
    x.check(a.get("script") == (t.script if t else None), "the script is the one of the tag")
    x.check(a.get("defaultRegion") == (t.region if t else None), "the region is the one of the tag")
    if case == "hg":
        x.cover('revision')
        x.check(len(ran) == 1 and ran[0][-2:] == [x.path("cldr/common/" + p + "/ab.xml") for p in where], "the revision is that of the files")
        x.check(x.eq([e.get("number") for e in l.root.findall("identity/version")], ["$Revision: 1234 $"]), "the revision is given")
        x.check(x.eq([e.get("date") for e in l.root.findall("identity/generation")], ["$Date: 2020-02-03 10:00 +0000 $"]), "the date is given")
    if case == "remove":
        files = [f for f in x.listfiles() if "/out/" in f]
        source = x.or_(x.eq(old, "ab"), x.eq(old, "az"))
        gone = x.and_(rem, x.not_(source))
        if gone:
            x.cover('removed')
        else:
            x.cover('kept')
        exp = {x.path("out/a/ab.xml"), x.path("out/a/az.xml"), other}
        if not gone:
            exp.add(path)
        x.check(x.eq(sorted(set(files)), sorted(exp)), "just the files of locales that are not in the source are removed")
    else:
        x.check(x.eq([f for f in x.listfiles() if "/out/" in f], [res]), "there is one file for the locale")
