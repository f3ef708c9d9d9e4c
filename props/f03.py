"""ldmlmerge writes what the merge of three files gives, with git it finds two of them itself."""
from sldr.ldml_merge import LdmlMerge
import h_ldml
import h_merge

#xml
PROPERTY = 'F03'
BOUNDS = ("two texts at the same or different places, each absent or any letter in the base and on both sides; to a file or the standard output, "
          "with and without --winner, --verbose; with git a locale with a parent and root that give one of the texts, changed by others or not")
ASSUMPTIONS = ["git is replaced by a stand-in", "no text is changed differently on both sides, except that one side has removed it"]
COVERS = ['file', 'output', 'ours', 'theirs', 'both', 'none', 'winner', 'git', 'newer', 'not newer', 'parent']
BUDGET = 200


def cases(tier):
    return [["merge", "ac", k] for k in range(4)] + [["merge", "ab", 0], ["winner", "ac", 0], ["git", "ac", 0], ["git", "ac", 1]]


def doc(texts, ident=""):
    """what the three files have: all have something in common"""
    s = '<ldml><identity><version number="1"/><language type="aa"/>%s</identity>' % ident
    if texts.get('a') is not None or texts.get('b') is not None:
        s += '<characters>'
        if texts.get('b') is not None:
            s += '<exemplarCharacters type="auxiliary">' + texts['b'] + '</exemplarCharacters>'
        if texts.get('a') is not None:
            s += '<exemplarCharacters type="index">' + texts['a'] + '</exemplarCharacters>'
        s += '</characters>'
    s += '<delimiters>'
    if texts.get('c') is not None:
        s += '<quotationStart>' + texts['c'] + '</quotationStart>'
    return s + '<quotationEnd>e</quotationEnd></delimiters></ldml>'


def run(x, case):
    what, keys, kind = case
    if what == "git":
        return git(x, keys, kind)
    B, T, O, W = {}, {}, {}, {}
    for k in keys:
        for d, n in ((B, "b"), (T, "t"), (O, "o")):
            d[k] = h_merge.maybe(x, n + k)
        b, t, o = B[k], T[k], O[k]
        if what == "winner" and k == "a":
            x.assume(b is not None and t is not None and o is None)
            x.assume(b != t)
            W[k] = None
            continue
        x.assume(x.or_(t == o, o == b, t == b))
        if t == o:
            x.cover('none' if t == b else 'both')
            W[k] = t
        elif o == b:
            x.cover('ours')
            W[k] = t
        else:
            x.cover('theirs')
            W[k] = o
    argv = []
    if what == "winner":
        x.cover('winner')
        win = x.choice("winner", ["other", "this", None])
        if win != "other":
            W["a"] = T["a"]
        if win:
            argv += ["-w", win]
    if keys == "ab":
        # otherwise one side takes away the element around, in which the other makes a change
        x.assume(all(B[k] is None for k in keys) or (any(T[k] is not None for k in keys) and any(O[k] is not None for k in keys))
                 or all(T[k] == B[k] for k in keys) or all(O[k] == B[k] for k in keys) or all(T[k] == O[k] for k in keys))
    for n, d in (("base", B), ("this", T), ("other", O)):
        x.file(n + ".xml", doc(d))
    res = None
    if kind % 2 == 0:
        x.cover('file')
        # the output may be one of the files
        res = x.path(x.choice("res", ["out.xml", "this.xml"]))
        argv += ["-o", res]
    else:
        x.cover('output')
    if kind > 1:
        argv.append("-G")
        argv.append("--default=unconfirmed")
    status, out, ns = x.script("ldmlmerge", argv + [x.path(n + ".xml") for n in ("this", "base", "other")])
    x.check(status == 0, "the script succeeds")
    if res is None:
        res = x.file("printed.xml", out)
    else:
        x.check(x.eq(out, ""), "nothing is printed")
    merged(x, res, W)
    for n, d in (("base", B), ("other", O), ("this", T)):
        if x.path(n + ".xml") != res:
            x.check(x.eq(x.readfile(x.path(n + ".xml")), doc(d)), "the files that are merged are left as they are")


def merged(x, res, W):
    l = LdmlMerge(res)
    got = h_merge.contents(l)
    x.observe("merged", sorted([k, v] for k, v in got.items()))
    for k in h_merge.PATHS:
        x.check(got[k] == W.get(k), "every text that one side has changed is as that side has it, every other as it was")
    x.check([e.text for e in l.findall("delimiters/quotationEnd")] == (["e"] if W.get("end", True) else []), "what is the same everywhere stays")
    return l


def git(x, keys, kind):
    """this: a flat file that someone has edited; base: the file at the revision from which it was flattened; other: the file now"""
    x.cover('git')
    newer = kind == 1
    x.cover('newer' if newer else 'not newer')
    up = {"a": h_merge.maybe(x, "ua"), "c": None}
    root = {"a": None, "c": h_merge.maybe(x, "rc") if kind == 0 else "r"}
    B = {"a": h_merge.maybe(x, "ba"), "c": None}
    O = dict(B)
    if newer:
        O["c"] = h_merge.maybe(x, "oc")
    flat = {k: B[k] if B[k] is not None else up[k] if up[k] is not None else root[k] for k in keys}
    T = dict(flat)
    if x.choice("edited", [False, True]):
        T["a"] = h_merge.text(x, "ta")
    revid = "r" + h_merge.text(x, "rev")
    sil = '<special xmlns:sil="urn://www.sil.org/ldml/0.1"><sil:identity revid="%s" uid="u" source="s"/></special>' % revid
    x.file("sldr/a/aa.xml", doc(up))
    x.file("sldr/root.xml", doc(root))
    now = x.file("sldr/a/aa_XX.xml", doc(O))
    this = x.file("edited/aa_XX.xml", doc(T, sil))
    ran = []

    def check_output(cmd):
        ran.append(cmd)
        x.check(cmd[0] == "git" and cmd[-1].endswith(now), "git is asked for the file of the locale")
        if cmd[1] == "log":
            x.check(x.or_(*[x.eq(c, revid + "..") for c in cmd]), "it is asked for what has changed since")
            return b"f00" if newer else b""
        x.check(cmd[1] == "show", "git is asked for a version")
        if x.eq(cmd[2], revid + ":" + now):
            return x.encoded(doc(B))
        x.check(newer and cmd[2] == "f00:" + now, "it is the version of the revision, or the last one")
        return x.encoded(doc(O))

    status, out, ns = x.script("ldmlmerge", ["-g", "-d", x.path("sldr"), "-o", x.path("out.xml"), this, "aa_XX.xml"],
                               {"subprocess": {"check_output": check_output}})
    x.check(status == 0, "the script succeeds")
    W = {}
    for k in keys:
        theirs = O[k] if O[k] is not None else up[k] if up[k] is not None else root[k]
        v = T[k] if T[k] != flat[k] else theirs
        first = up[k] if up[k] is not None else root[k]
        if v is not None and v == up[k]:
            x.cover('parent')
            v = None
        W[k] = v
    W["end"] = False
    l = merged(x, x.path("out.xml"), W)
    e = l.root.findall("identity/special/" + h_ldml.SIL + "identity")
    x.check(len(e) == 1 and e[0].get("revid") is None and e[0].get("uid") is None and e[0].get("source") == "s",
            "revision and user are taken out of the identity")
