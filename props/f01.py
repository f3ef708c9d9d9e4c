"""Every document of a directory is normalised in its own place."""
from sldr.ldml import Ldml
import h_ldml

#xml
PROPERTY = 'F01'
BOUNDS = ("one file, or a directory with up to four of six files in it and in two directories of it: documents with either ending, a document that "
          "is not well formed, another file; the output is the input, another file or directory, there or not; two items of two arbitrary letters "
          "each in any order")
ASSUMPTIONS = ["--validate is not given"]
COVERS = ['one file', 'same file', 'directory', 'same directory', 'subdirectory', 'bad', 'other', 'ldml', 'sorted', 'swapped']
LOW = [('a', 'z')]
BUDGET = 150
NAMES = ["aa.xml", "bb.ldml", "c/cc.xml", "d/dd.ldml", "c/bad.xml", "readme.txt", "c/note.txt"]


def cases(tier):
    return [["one", 0], ["one", 1]] + [["dir", k] for k in range(4)]


def doc(a, b, ta, tb):
    return ('<ldml><localeDisplayNames><languages><language type="%s">%s</language><language type="%s">%s</language></languages>'
            '</localeDisplayNames><identity><language type="aa"/><version number="1"/></identity></ldml>' % (a, ta, b, tb))


def run(x, case):
    what, kind = case
    names = ["aa.xml"]
    if what == "dir":
        names = [[0, 2, 3], [1, 4, 2], [5, 0, 3], [6, 2, 1, 4]][kind]
        names = [NAMES[i] for i in names if x.choice("has%d" % i, [True, False])]
        x.assume(len(names) > 0)
    there = {}
    first = ([n for n in names if "bad" not in n and not n.endswith(".txt")] + [None])[0]
    for n in names:
        if "bad" in n:
            x.cover('bad')
            there[n] = '<ldml><identity><language type="aa"/></ldml>'
        elif n.endswith(".txt"):
            x.cover('other')
            there[n] = '<ldml>'
        else:
            a = "k" + x.char("a", LOW) if n == first else "kb"
            b = "k" + x.char("b", LOW) if n == first else "ka"
            x.assume(x.not_(x.eq(a, b)))
            ta = x.char("ta", LOW) if n == first else "c"
            there[n] = doc(a, b, ta, "y")
            exp = sorted([(a, ta), (b, "y")])
            if exp[0][1] == "y":
                x.cover('swapped')
            else:
                x.cover('sorted')
            there[n + "!"] = exp
        x.file("in/" + n, there[n])
    out = x.choice("out", ["in", "out", "new"])
    base = x.path("in")
    if what == "one":
        base += "/aa.xml"
        x.cover('one file' if out != "in" else 'same file')
    else:
        x.cover('directory' if out != "in" else 'same directory')
    if out != "new":
        x.file(out + "/here.txt", "here")
    argv = [base]
    dest = x.path(out) + ("/aa.xml" if what == "one" else "")
    if out != "in" or x.choice("twice", [False, True]):
        argv.append(dest)
    status, text, ns = x.script("ldmlnormalize", argv)
    x.check(status == 0, "the script succeeds")
    files = x.listfiles()
    exp = [x.path("in/" + n) for n in names]
    if out != "new":
        exp.append(x.path(out + "/here.txt"))
    for n in names:
        p = x.path(out + "/" + n)
        if n + "!" in there:
            if p not in exp:
                exp.append(p)
            l = Ldml(p)
            x.observe("got", x.readfile(p))
            x.check(x.eq([(e.get("type"), e.text) for e in l.root.findall("localeDisplayNames/languages/language")], there[n + "!"]),
                    "the items of a document are all there, in their order")
            s = x.readfile(p)
            pos = [s.find(w) for w in ("<identity>", "<version", "<language type=\"aa\"", "<localeDisplayNames>",
                                       ' type="' + there[n + "!"][0][0] + '"', ' type="' + there[n + "!"][1][0] + '"')]
            x.check(pos[0] > 0 and pos == sorted(pos), "the document is written in its order")
            if "/" in n:
                x.cover('subdirectory')
            if n.endswith("ldml"):
                x.cover('ldml')
        if out != "in" or n + "!" not in there:
            x.check(x.eq(x.readfile(x.path("in/" + n)), there[n]), "other files are left as they are")
        if "bad" in n:
            x.check("bad.xml" in text, "a document that cannot be read is reported")
    if out != "new":
        x.check(x.eq(x.readfile(x.path(out + "/here.txt")), "here"), "other files are left as they are")
    x.check(x.eq(files, sorted(exp)), "no other files are written")
