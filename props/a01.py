"""Names from the language tags are filled in where there are none, and nothing else changes."""
from sldr.ldml import Ldml
import h_ldml

#xml
PROPERTY = 'A01'
BOUNDS = ("a file named on the command line or all files of a tree (2), each with any combination of: no identity of its own, "
          "from CLDR, English name and own name absent, empty or an arbitrary letter, main exemplars (or auxiliary ones alone) with one of the "
          "letters written as apostrophe or not; entries of language tags with or without a name of one letter, several local names, "
          "one, or none, of two arbitrary letters or apostrophes")
ASSUMPTIONS = ["the langtag package is replaced by an arbitrary table of entries"]
COVERS = ['filled', 'kept', 'cldr', 'no sil', 'only identity', 'no entry', 'letter', 'tree', 'no local', 'local', 'no alphabet']
SIL = h_ldml.SIL
XL = "{http://www.w3.org/XML/1998/namespace}lang"
LOW = [('a', 'z')]
BUDGET = 150


def cases(tier):
    r = [["file", t] for t in ("names", "ident", "letter", "local")] + [["tree", "ident"]]
    return r + ([["tree", t] for t in ("names", "letter", "local")] if tier == "thorough" else [])


class Entry(object):
    pass


def doc(x, nm, what):
    """(text, English name, own name, letter in main, may be filled)"""
    ident = "own"
    if what == "ident":
        ident = x.choice(nm + "ident", ["own", "own", "cldr", "none", "only"])
    en = own = None
    if what == "names" or what == "ident":
        k = x.choice(nm + "en", [0, 1, 2])
        en = [None, "", x.char(nm + "e", LOW)][k]
    if what == "names":
        k = x.choice(nm + "own", [0, 1, 2])
        own = [None, "", x.char(nm + "o", LOW)][k]
    letter = x.choice(nm + "l", ["", "\ua78c", "\u02bc", "'"]) if what == "letter" else ""
    t = '<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><identity><version number="1"/><language type="%s"/>' % nm
    if ident != "none":
        t += '<special><sil:identity%s/></special>' % (' source="cldr"' if ident == "cldr" else ' script="Latn"')
    t += '</identity>'
    if ident != "only":
        t += '<localeDisplayNames><languages><language type="zz">%s</language>' % x.char(nm + "z", LOW)
        if own is not None:
            t += '<language type="%s">%s</language>' % (nm, own)
        t += '</languages>'
        if en is not None:
            t += '<special><sil:names><sil:name xml:lang="en">%s</sil:name></sil:names></special>' % en
        t += '</localeDisplayNames><characters><exemplarCharacters type="index">[\ua78c]</exemplarCharacters>'
        if what == "letter" and x.choice(nm + "nomain", [False, True]):
            x.cover('no alphabet')
            t += '<exemplarCharacters type="auxiliary">[a b%s]</exemplarCharacters></characters>' % letter
            letter = ""
        else:
            t += '<exemplarCharacters>[a b%s]</exemplarCharacters></characters>' % letter
    return t + "</ldml>\n", en, own, letter, ident


def entry(x, nm, what):
    """an entry, its name and its local name"""
    e = Entry()
    name = local = None
    if what != "names" or x.choice(nm + "hasname", [True, False]):
        name = e.name = x.char(nm + "n", LOW)
    k = "localname" if what == "letter" else "localnames"
    if what == "local":
        k = x.choice(nm + "k", ["localname", "localnames", "none"])
    if k != "none":
        local = ""
        for i in range(2):
            c = x.char(nm + "c%d" % i, [('a', 'b'), ("'", "'")])
            local += c
        setattr(e, k, local if k == "localname" else [local, "other"])
    return e, name, local


def without(l, nm):
    """everything but the two names"""
    for e in l.findall("localeDisplayNames/languages"):
        for c in list(e):
            if c.get("type") == nm:
                e.remove(c)
        if len(e) == 0:
            l.root.find("localeDisplayNames").remove(e)
    for e in l.findall("localeDisplayNames/special"):
        for n in list(e):
            for c in list(n):
                if c.tag == SIL + "name" and c.get(XL) == "en":
                    n.remove(c)
            if len(n) == 0:
                e.remove(n)
        if len(e) == 0:
            l.root.find("localeDisplayNames").remove(e)
    return h_ldml.dump(l.root)


def find(l, nm):
    own = en = None
    for e in l.findall("localeDisplayNames/languages/language"):
        if e.get("type") == nm:
            own = e.text
    for e in l.findall("localeDisplayNames/special/" + SIL + "names/" + SIL + "name"):
        if e.get(XL) == "en":
            en = e.text
    return en, own


def run(x, case):
    kind, what = case
    names = ["aa"] if kind == "file" else ["aa", "bb"]
    table = {}
    docs = {}
    for i, nm in enumerate(names):
        docs[nm] = doc(x, nm, what if i == 0 else "plain")
        x.file("sldr/%s/%s.xml" % (nm[0], nm), docs[nm][0])
        if what != "ident" or i or x.choice("known", [True, False]):
            table[nm] = entry(x, nm, what if i == 0 else "plain")
    if kind == "file":
        x.file("sldr/b/bb.xml", "not to be read")
    else:
        x.cover('tree')
        x.file("sldr/b/notes.txt", "not to be read")

    def lookup(tag, default=None, **kw):
        return table[tag][0] if tag in table else default
    argv = [x.path("sldr")] + (["-l", "aa"] if kind == "file" else [])
    status, out, ns = x.script("sldrautonames", argv, {"langtag": {"lookup": lookup}})
    x.check(status == 0, "the script succeeds")
    if kind == "file":
        x.check(x.readfile(x.path("sldr/b/bb.xml")) == "not to be read", "only the file named is changed")
    for nm in names:
        text, en, own, letter, ident = docs[nm]
        path = x.path("sldr/%s/%s.xml" % (nm[0], nm))
        after = x.readfile(path)
        if ident != "own" or nm not in table:
            x.cover({'cldr': 'cldr', 'none': 'no sil', 'only': 'only identity'}.get(ident, 'no entry'))
            x.check(after == text, "files of CLDR, without an identity of their own or without an entry stay as they are")
            continue
        e, name, local = table[nm]
        l = Ldml(path)
        gen, gown = find(l, nm)
        if en or name is None:
            x.cover('kept')
            x.check((gen or "") == (en or ""), "an English name that is there stays")
        else:
            x.cover('filled')
            x.check(gen == name, "an English name that is missing is filled in")
        if local is None:
            x.cover('no local')
        if own or local is None:
            x.check((gown or "") == (own or ""), "a name in the language itself stays")
        else:
            x.cover('local')
            if letter and letter != "'":
                x.cover('letter')
                local = local.replace("'", letter)
            x.check(gown == local, "a name in the language itself is filled in, spelled with the letters of the language")
        x.check(x.eq(without(l, nm), without(Ldml(x.file("o.xml", text)), nm)), "everything else stays")
