"""A flattened locale has for everything the nearest value in its chain of parents."""
from sldr.ldml import Ldml
from sldr.ldml_merge import flattenlocale, LdmlMerge
import h_ldml
import h_merge

#xml
PROPERTY = 'M04'
BOUNDS = ("chains of up to 4 documents (any of the parents may be missing), parents from the name, from the table of parent "
          "locales or from a fallback element, each document with one text (thorough 2) absent or an arbitrary letter, any scripts "
          "declared; flattening, unflattening and restricting to changed locales")
ASSUMPTIONS = []
COVERS = ['own', 'parent', 'grandparent', 'root', 'missing file', 'other script', 'fallback', 'table', 'unflattened', 'unchanged',
          'alias', 'import']
# locale, chain of parents
CHAINS = {
    'name': ["aa_Latn_XX", ["aa_Latn", "aa", "root"]],
    'short': ["aa_XX", ["aa", "root"]],
    'table': ["en_AU", ["en_001", "en", "root"]],
    'fallback': ["aa_XX", ["bb_YY", "bb", "cc", "root"]],
    'root': ["root", []],
}


def cases(tier):
    more = tier == 'thorough'
    r = [["flatten", c, "a"] for c in CHAINS] + [["flatten", "short", "d"]]
    r += [["unflatten", c, "a"] for c in ("name", "short", "table")] + [["unflatten", "short", "d"]]
    r += [["changed", c, ""] for c in CHAINS] + [["alias", "short", "f"], ["import", "short", "k"]]
    if more:
        r += [[m, c, "d"] for m in ("flatten", "unflatten") for c in ("name", "table", "fallback")]
        r += [["both", c, "a"] for c in ("name", "table", "fallback")]
        r += [[m, c, k] for m in ("flatten", "unflatten") for c in ("short", "table") for k in ("ab", "ac", "df")]
    return r


def doc(texts, script=None, how=0, fallback=None, extra="", lang="aa"):
    s = '<ldml><identity><language type="' + lang + '"/>'
    if script is not None and how == 0:
        s += '<script type="' + script + '"/>'
    if script is not None and how == 1:
        s += '<special xmlns:sil="urn://www.sil.org/ldml/0.1"><sil:identity script="' + script + '"/></special>'
    s += '</identity>'
    if fallback is not None:
        s += '<fallback>' + fallback + '</fallback>'
    if texts.get('a') is not None or texts.get('b') is not None:
        s += '<characters>'
        if texts.get('b') is not None:
            s += '<exemplarCharacters type="auxiliary">' + texts['b'] + '</exemplarCharacters>'
        if texts.get('a') is not None:
            s += '<exemplarCharacters type="index">' + texts['a'] + '</exemplarCharacters>'
        s += '</characters>'
    if texts.get('c') is not None:
        s += '<delimiters><quotationStart>' + texts['c'] + '</quotationStart></delimiters>'
    if texts.get('d') is not None or texts.get('f') is not None:
        s += '<dates><calendars><calendar type="gregorian">'
        if texts.get('d') is not None:
            s += ('<months><monthContext type="format"><monthWidth type="wide"><month type="1">' + texts['d']
                  + '</month></monthWidth></monthContext></months>')
        if texts.get('f') is not None:
            s += ('<days><dayContext type="format"><dayWidth type="wide"><day type="sun">' + texts['f'] + '</day></dayWidth>'
                  + extra + '</dayContext></days>')
        s += '</calendar></calendars></dates>'
    if texts.get('k') is not None:
        s += '<collations><collation type="standard"><cr>' + texts['k'] + '</cr></collation></collations>'
    return s + '</ldml>'


def run(x, case):
    kind, chain, keys = case
    name, parents = CHAINS[chain]
    x.dir()
    if kind == 'alias':
        return alias(x)
    if kind == 'import':
        return imported(x)
    fallback = "bb_YY cc" if chain == 'fallback' else None
    x.cover({'fallback': 'fallback', 'table': 'table'}.get(chain, 'own'))
    docs = []
    # the script that the document itself has, and one parent that may have another
    scripts = ["Latn" if x.bool("script") else None]
    odd = int(x.int("odd", 0, len(parents)))
    how = odd % 2
    gone = int(x.int("gone", 0, len(parents)))          # one of the parents may have no file
    x.assume(kind == 'both' or chain == 'short' and kind == 'flatten' or odd == 0 or gone == 0)
    for i, n in enumerate([name] + parents):
        t = {k: h_merge.text(x, "t%d%s" % (i, k)) if x.bool("has%d%s" % (i, k)) else None for k in keys}
        if i and i == odd:
            scripts.append(x.choice("s", [None, "Latn", "Cyrl"]))
        elif i:
            scripts.append(None)
        docs.append(t)
    for i, n in enumerate([name] + parents):
        if i and i == gone:
            x.cover('missing file')
            continue
        x.file(n + ".xml", doc(docs[i], scripts[i], how, fallback if i == 0 else None, lang=n))
    used = []
    for i in range(1, len(parents) + 1):
        if i == gone:
            continue
        if scripts[i] is not None and scripts[i] != scripts[0]:
            x.cover('other script')
            continue
        used.append(i)
    want = {}
    for k in keys:
        want[k] = docs[0][k]
        for i in used:
            if want[k] is None:
                want[k] = docs[i][k]
                if want[k] is not None:
                    x.cover('parent' if i == 1 else 'root' if parents[i - 1] == 'root' else 'grandparent')
    dirs = [x.path("none"), x.dir()]
    if kind == 'changed':
        changed = [["aa", "bb", "en", "root", "cc", "xx"][int(x.int("ch", 0, 5))]]
        l = flattenlocale(name, dirs=dirs, changed=set(changed))
        x.check((l is None) == (not any(p in changed for p in parents)), "only locales with a changed parent are flattened")
        if l is None:
            x.cover('unchanged')
            return
    else:
        l = flattenlocale(name, dirs=dirs)
    check(x, l, keys, want, docs[0], "each text is the nearest in the chain of parents")
    x.check(x.eq(h_ldml.dump(l.find("identity")), h_ldml.dump(LdmlMerge(x.path(name + ".xml")).find("identity"))),
            "the identity is that of the locale")
    if kind == 'unflatten':
        l.normalise(usedrafts=True)
        x.file(name + ".xml", h_ldml.write(l))
        u = flattenlocale(name, dirs=dirs, rev='r')
        got = h_merge.contents(u)
        x.cover('unflattened')
        for k in keys:
            x.check(got[k] is None or got[k] == want[k], "unflattening takes out, and changes nothing")
            if used:
                first = docs[used[0]][k]
                x.check(got[k] == (None if first == want[k] else want[k]), "what is the same as in the first parent is taken out")
        x.file(name + ".xml", h_ldml.write(u))
        l = flattenlocale(name, dirs=dirs)
        check(x, l, keys, want, docs[0], "flattening again brings it back")


def check(x, l, keys, want, own, label):
    got = h_merge.contents(l)
    x.observe("flat", sorted([k, v] for k, v in got.items()))
    for k in h_merge.PATHS:
        x.check(got[k] == want.get(k), label)


def alias(x):
    """an alias of the root stands for what the locale has"""
    t = h_merge.text(x, "t") if x.bool("hast") else None
    n = h_merge.text(x, "n") if x.bool("hasn") else None
    r = h_merge.text(x, "r")
    x.cover('alias')
    narrow = '<dayWidth type="narrow"><day type="sun">%s</day></dayWidth>' % n if n is not None else ""
    x.file("aa.xml", doc({'f': t}, extra=narrow) if t is not None else doc({}))
    x.file("root.xml", doc({'f': r}, extra='<dayWidth type="narrow"><alias source="locale" path="../dayWidth[@type=\'short\']"/></dayWidth>'
                           '<dayWidth type="short"><alias source="locale" path="../dayWidth[@type=\'wide\']"/></dayWidth>'))
    l = flattenlocale("aa", dirs=[x.dir()], resolveAlias=True)
    got = h_merge.contents(l)
    w = r if t is None else t
    x.check(got['f'] == w, "the locale has its text")
    p = h_merge.PATHS['f']
    for width in ("short", "narrow"):
        es = l.findall(p.replace("wide", width))
        x.check(len(es) == 1 and es[0].text == (n if width == "narrow" and t is not None and n is not None else w),
                "an alias gives what the locale has, unless it has its own")
    x.check("alias" not in h_ldml.write(l), "no alias is left")


def imported(x):
    """collations that others import"""
    a, b, c = [h_merge.text(x, n) for n in "abc"]
    x.cover('import')
    name = x.choice("name", ["aa_XX", "baa", "aa_cc"])
    lang = x.choice("lang", ["aa", "und", "cc", "dd-Latn"])
    kind, typ = x.choice("type", [["standard", "standard"], ["phonebk", "phonebook"], ["trad", "traditional"]])
    def of(text):
        return doc({'k': text}).replace('type="standard"', 'type="' + typ + '"')
    x.file(name + ".xml", of("&amp;x&lt;" + a + "[import " + lang + "-u-co-" + kind + "]" + b))
    for n, v in (("aa", "&amp;y&lt;" + c), ("cc", "[import aa-u-co-" + kind + "]&amp;z&lt;" + a), ("root", "&amp;w&lt;" + b),
                 ("dd_Latn", "&amp;v&lt;" + b)):
        x.file(n + ".xml", of(v))
    l = flattenlocale(name, dirs=[x.dir()], flattencollation=True)
    t = {"aa": "&y<" + c, "und": "&w<" + b, "cc": "&y<" + c + "&z<" + a, "dd-Latn": "&v<" + b}[lang]
    x.check(l.find(h_merge.PATHS['k'].replace('standard', typ)).text == "&x<" + a + t + b, "an import is replaced by the collation")
