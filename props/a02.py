"""The files of the languages that a keyboard is for get an entry for it."""
from sldr.ldml import Ldml
import h_ldml

#xml
PROPERTY = 'A02'
BOUNDS = ("up to 2 keyboards (thorough 3) with identifiers of one arbitrary letter, each for 1 or 2 of 3 languages; languages "
          "under their tag, under one that is corrected, or unknown; files in the directory, in the one of the letter or "
          "missing; an entry for the keyboard there or not; report, dry run and quiet or not")
ASSUMPTIONS = ["the langtag package is replaced by an arbitrary table of entries"]
COVERS = ['entry', 'corrected', 'unknown', 'no file', 'dry run', 'report', 'there', 'two', 'flat']
SIL = h_ldml.SIL
LOW = [('a', 'z')]
BUDGET = 150


def cases(tier):
    r = ["plain", "tags", "files", "there", "dry", "report", "reportfont"]
    return r + (["three"] if tier == "thorough" else [])


class Entry(object):
    def __init__(self, fname):
        self.fname = fname

    def asSldr(self):
        return self.fname


def doc(nm, more=""):
    return ('<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><identity><version number="1"/><language type="%s"/></identity>'
            '<characters><exemplarCharacters>[a b]</exemplarCharacters></characters>%s</ldml>\n' % (nm, more))


def kbds(l):
    return [[dict(e.attrib), [c.text for c in e]] for e in l.root.iter(SIL + "kbd")]


def url(i):
    return "https://keyman.com/go/keyboard/" + i + "/download/kmp"


def run(x, case):
    n = {"plain": 2, "three": 3}.get(case, 1 if case.startswith("report") else 2)
    ids = [x.char("id%d" % i, LOW) for i in range(n)] if not case.startswith("report") else ["k"]
    for i in range(n):
        for j in range(i):
            x.assume(ids[i] != ids[j])
    langs = ["aa", "bb"]
    if case == "tags":
        langs = [x.choice("lang", ["aa", "hau", "yor", "qq", "kau"]), "bb"]
    table = {"aa": "aa.xml", "bb": "bb_Latn.xml", "ha": "ha.xml", "yo": "yo.xml"}
    where = "a/aa.xml"
    if case == "files":
        where = x.choice("where", ["a/aa.xml", "aa.xml", None])
    there = ""
    if case == "there":
        there = '<special><sil:external-resources><sil:kbd id="%s" type="kmp"><sil:url>%s</sil:url></sil:kbd></sil:external-resources></special>'
        old = x.char("old", LOW)
        there = there % (old, x.char("url", LOW))
    paths = {}
    for f, p in (("aa.xml", where), ("bb_Latn.xml", "b/bb_Latn.xml"), ("ha.xml", "h/ha.xml"), ("cc.xml", "c/cc.xml"), ("yo.xml", "yo.xml")):
        if p:
            paths[f] = x.file("sldr/" + p, doc(f[:2], there if f == "aa.xml" else ""))
    before = {f: x.readfile(p) for f, p in paths.items()}
    data = []
    want = {}
    rows = []
    for i in range(n):
        ls = x.choice("for%d" % i, [[0], [1], [0, 1]])
        ks = []
        for j in ls:
            k = {"id": langs[j]}
            row = [langs[j], ids[i]]
            if case == "reportfont":
                for s in ("font", "oskfont"):
                    if x.choice("%s%d%d" % (s, i, j), [True, False]):
                        k[s] = {"family": "F" + s, "source": [s + ".ttf", "other.ttf"]}
                        row += ["F" + s, s + ".ttf"]
                    else:
                        row += ["", ""]
            ks.append(k)
            rows.append(row)
            want.setdefault(langs[j], []).append(ids[i])
        data.append({"id": ids[i], "languages": ks})
    if any(len(v) > 1 for v in want.values()):
        x.cover('two')
    argv = ["-f", x.jsonfile("keyboards.json", {"keyboard": data})]
    dry = False
    if case.startswith("report"):
        out = x.path("report.csv")
        argv += ["-o", out]
    else:
        argv += ["-s", x.path("sldr")]
        dry = case == "dry"
        if dry:
            argv.append("-n")
        if x.choice("quiet", [True, False]):
            argv.append("-q")

    def lookup(tag):
        return Entry({"aa": "aa.xml", "bb": "bb_Latn.xml", "ha": "ha.xml", "yo": "yo.xml"}[tag])
    status, printed, ns = x.script("sldraddkeymans", argv, {"langtag": {"lookup": lookup}, "requests": {}})
    x.check(status == 0, "the script succeeds")
    if case.startswith("report"):
        x.cover('report')
        lines = x.readfile(out).replace("\r\n", "\n").split("\n")
        x.check(len(lines) == len(rows) + 2, "the report has a line for every keyboard of a language")
        got = [l.split(",") for l in lines[1:-1]]
        for r in got:
            x.check(len(r) == len(lines[0].split(",")), "a line has all columns")
        for r in rows:
            x.check(any(all(v in g for v in r) for g in got), "a line tells language, keyboard and fonts")
        return
    for f, p in paths.items():
        tags = [t for t in want if table.get(t, {"hau": "ha.xml", "yor": "yo.xml"}.get(t)) == f]
        if dry:
            x.cover('dry run')
        if dry or not tags:
            x.check(x.readfile(p) == before[f], "other files stay as they are, and all do in a dry run")
            continue
        if tags[0] not in table:
            x.cover('corrected')
        if p == x.path("sldr/aa.xml"):
            x.cover('flat')
        x.cover('entry')
        l = Ldml(p)
        got = kbds(l)
        o = Ldml(x.file("o.xml", before[f]))
        exp = kbds(o)
        for i in want[tags[0]]:
            if any(e[0]["id"] == i for e in exp):
                x.cover('there')
            for e in exp:
                if e[0]["id"] == i:
                    e[1] = [url(i)]
                    break
            else:
                exp.append([{"id": i, "type": "kmp", "draft": "generated"}, [url(i)]])
        x.check(len(got) == len(exp), "one entry for every keyboard")
        for a, u in exp:
            x.check(any(g[0]["id"] == a["id"] and g[0]["type"] == "kmp" and x.eq(g[1], u) for g in got), "with the place it is downloaded from")
        for l2 in (l, o):
            for e in list(l2.root):
                if e.tag == "special":
                    l2.root.remove(e)
        x.check(x.eq(h_ldml.dump(l.root), h_ldml.dump(o.root)), "everything else stays")
    if "qq" in want:
        x.cover('unknown')
    if where is None and "aa" in want:
        x.cover('no file')
        x.check(not any(p.endswith("aa.xml") for p in x.listfiles()), "no file is made")
