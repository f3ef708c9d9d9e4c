"""A whole directory of locales is flattened, unflattened or copied, one file for each."""
from sldr.ldml import Ldml
import h_ldml
import h_merge

#xml
PROPERTY = 'F02'
BOUNDS = ("up to six locales in two directories and directories in them, each with one or two texts absent or any letter; all locales or "
          "those asked for, one of them not there or not well formed; in one process or in a pool")
ASSUMPTIONS = ["multiprocessing and git are replaced by stand-ins (the pool takes one locale after the other)"]
COVERS = ['all', 'asked for', 'missing', 'bad', 'letter', 'flat', 'revid', 'git', 'stub', 'no identity', 'inherited', 'unflattened', 'copied', 'alias',
          'collation']
BUDGET = 200


def cases(tier):
    more = [["round", 2], ["round", 3]] if tier == 'thorough' else [["round", 2]]
    return [["which", k] for k in range(4)] + [["rev", k] for k in range(3)] + [["stubs", 0], ["alias", 0], ["import", 0], ["import", 1]] + more


class Result(object):
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v


class Pool(object):
    def map_async(self, fn, items):
        return Result([fn(i) for i in items])

    def close(self):
        pass

    def join(self):
        pass


def doc(loc, a=None, c=None, more=""):
    s = '<ldml><identity><language type="%s"/></identity>' % loc
    if a is not None:
        s += '<characters><exemplarCharacters type="index">' + a + '</exemplarCharacters></characters>'
    if c is not None:
        s += '<delimiters><quotationStart>' + c + '</quotationStart></delimiters>'
    return s + more + '</ldml>'


def run(x, case):
    what, kind = case
    ran = []

    def check_output(cmd):
        ran.append(cmd)
        return b"abc123\n2020-02-03 10:00 +0000"
    stubs = {"multiprocessing": {"Pool": Pool}, "subprocess": {"check_output": check_output}}

    def go(argv):
        status, out, ns = x.script("ldmlflatten", argv, stubs)
        x.check(status == 0, "the script succeeds")
        return out

    def contents(p):
        r = h_merge.contents(Ldml(p))
        return [r['a'], r['c']]

    def near(docs, l, at, k):
        """the nearest text"""
        v = docs[l][k]
        for p in at:
            if v is None and p in docs:
                v = docs[p][k]
        return v
    parents = {"aa": ["root"], "aa_XX": ["aa", "root"], "aa_YY": ["aa", "root"], "root": [], "Bb": ["root"], "cc": ["root"]}
    outs = lambda: [f for f in x.listfiles() if "/out/" in f]
    single = ["-s"] if (x.choice("single", [True, False]) if what not in ("import", "alias") else kind == 0) else []
    if what == "which":
        # one file for each locale, at its place
        places = {"in/aa.xml": "aa", "in/a/aa_XX.xml": "aa_XX", "in2/root.xml": "root", "in2/b/Bb.xml": "Bb", "in/x/notes.txt": None}
        docs = {}
        for p, l in places.items():
            if l is None:
                x.file(p, "hello")
                continue
            docs[l] = [h_merge.text(x, "t" + l) if l == "root" or x.choice("has" + l, [True, False]) else None, None]
            x.file(p, doc(l, docs[l][0]))
        argv = ["-i", x.path("in"), "-i", x.path("in2"), "-o", x.path("out")] + single
        want = sorted(docs)
        out = None
        if kind == 1 or kind == 3:
            x.cover('letter')
            argv.append("-a")
        else:
            x.cover('flat')
        if kind >= 2:
            x.cover('asked for')
            want = x.choice("asked", [["aa"], ["aa_XX"], ["Bb", "aa"], ["aa_XX", "qq", "root"], ["bad", "aa"]])
            for l in want:
                argv += ["-l", l]
            if "bad" in want:
                if single:
                    return
                x.file("in/bad.xml", "<ldml><identity>")
                x.cover('bad')
        else:
            x.cover('all')
        rev = x.choice("rev", [None, "-c"])
        if rev:
            argv.append(rev)
            x.cover('copied')
        text = go(argv)
        exp = []
        for l in want:
            if l not in docs:
                x.cover('missing')
                x.check("Error in " + l in text, "a locale that cannot be read is reported")
                continue
            p = x.path("out/" + (l[0].lower() + "/" if "-a" in argv else "") + l + ".xml")
            exp.append(p)
            got = contents(p)
            v = docs[l][0] if rev else near(docs, l, parents[l], 0)
            if v is not None and docs[l][0] is None:
                x.cover('inherited')
            x.check(x.eq(got[0], v), "a locale has the nearest text")
        x.check(outs() == sorted(exp), "there is one file for each locale, at its place")
    elif what == "rev":
        t = h_merge.text(x, "t")
        x.file("in/aa.xml", doc("aa", t))
        x.file("in/root.xml", doc("root", None, "z"))
        argv = ["-i", x.path("in"), "-o", x.path("out"), "-l", "aa"] + single
        rev = None
        if kind == 0:
            rev = "r" + h_merge.text(x, "r")
            argv += ["--revid", rev]
            x.cover('revid')
        elif kind == 1:
            argv.append("-g")
            rev = "abc123"
            x.cover('git')
        go(argv)
        l = Ldml(x.path("out/aa.xml"))
        e = l.root.findall("identity/special/" + h_ldml.SIL + "identity")
        if rev is None:
            x.check(not e, "no revision is made up")
        else:
            x.check(len(e) == 1 and x.eq(e[0].get("revid"), rev), "the revision is put in the identity")
        if kind == 1:
            x.check(len(ran) == 1 and ran[0][0] == "git" and ran[0][-1] == x.path("in/aa.xml"), "it is the revision of the file of the locale")
        x.check(x.eq(contents(x.path("out/aa.xml")), [t, "z"]), "the texts are as they are without")
    elif what == "stubs":
        t = h_merge.text(x, "t") if x.choice("has", [True, False]) else None
        r = h_merge.text(x, "r") if x.choice("hasr", [True, False]) else None
        d = doc("aa", t)
        if t is not None and x.choice("noid", [False, True]):
            # one element, but no identity
            x.cover('no identity')
            d = d.replace('<identity><language type="aa"/></identity>', '')
        x.file("in/aa.xml", d)
        x.file("in/root.xml", doc("root", r))
        skip = x.choice("skip", [True, False])
        go(["-i", x.path("in"), "-o", x.path("out")] + single + (["--skipstubs"] if skip else []))
        exp = []
        if t is not None or not skip:
            exp.append(x.path("out/aa.xml"))
        if r is not None or not skip:
            exp.append(x.path("out/root.xml"))
        if len(exp) < 2:
            x.cover('stub')
        x.check(outs() == exp, "just those files that have more than an identity are there")
    elif what == "alias":
        t = h_merge.text(x, "t")
        al = '<dates><calendars><calendar type="%s">%s</calendar></calendars></dates>'
        mon = '<eras><eraAbbr><era type="0">' + t + '</era></eraAbbr></eras>'
        x.file("in/aa.xml", doc("aa", None, None, al % ("gregorian", mon)))
        x.file("in/root.xml", doc("root", None, None, al % ("buddhist", '<alias source="locale" path="../calendar[@type=\'gregorian\']"/>')))
        args = ["-A"] if x.choice("alias", [True, False]) else []
        for s in (["-s"], []):
            go(["-i", x.path("in"), "-o", x.path("out"), "-l", "aa"] + s + args)
            l = Ldml(x.path("out/aa.xml"))
            got = [e.text for e in l.root.findall('dates/calendars/calendar[@type="buddhist"]/eras/eraAbbr/era')]
            if args:
                x.cover('alias')
            x.check(x.eq(got, [t] if args else []), "an alias stands for what it stands for")
            x.check(len(l.root.findall('dates/calendars/calendar[@type="buddhist"]/alias')) == (0 if args else 1), "an alias stays if it is not asked for")
    elif what == "import":
        t = h_merge.text(x, "t")
        cl = '<collations><collation type="standard"><cr>%s</cr></collation></collations>'
        x.file("in/aa.xml", doc("aa", None, None, cl % ("&amp;a&lt;" + t)))
        x.file("in/bb.xml", doc("bb", None, None, cl % "[import aa-u-co-standard]&amp;b&lt;c"))
        go(["-i", x.path("in"), "-o", x.path("out"), "-l", "bb"] + single)
        x.cover('collation')
        l = Ldml(x.path("out/bb.xml"))
        x.check(x.eq([e.text.strip() for e in l.root.findall("collations/collation/cr")], ["&a<" + t + "&b<c"]), "imports of collations are put in")
    else:
        # flatten, unflatten what is flat, flatten again
        names = ["root", "aa", "aa_XX", "aa_YY"][:kind + 1]
        docs = {}
        for l in names:
            docs[l] = [h_merge.text(x, "t" + l) if x.choice("has" + l, [True, False]) else None,
                       h_merge.text(x, "c" + l) if l == "root" else None]
            x.file("in/" + l[0] + "/" + l + ".xml", doc(l, *docs[l]))
        go(["-i", x.path("in"), "-o", x.path("out/flat"), "-a"] + single)
        for l in names:
            x.check(x.eq(contents(x.path("out/flat/%s/%s.xml" % (l[0], l))), [near(docs, l, parents[l], k) for k in (0, 1)]),
                    "a locale has the nearest text")
        go(["-i", x.path("out/flat"), "-o", x.path("out/unflat"), "-a", "-r"] + single)
        for l in names:
            got = contents(x.path("out/unflat/%s/%s.xml" % (l[0], l)))
            x.observe(l, got)
            for k in (0, 1):
                v = near(docs, l, parents[l], k)
                up = near(docs, parents[l][0], parents[l][1:], k) if parents[l] else None
                same = x.and_(v is not None, up is not None, x.eq(v, up))
                if same:
                    x.cover('unflattened')
                    v = None
                x.check(x.eq(got[k], v), "what is the same in the parent is taken out")
        go(["-i", x.path("out/unflat"), "-o", x.path("out/again"), "-a"] + single)
        for l in names:
            x.check(x.eq(contents(x.path("out/again/%s/%s.xml" % (l[0], l))), [near(docs, l, parents[l], k) for k in (0, 1)]),
                    "flattening again brings it back")
