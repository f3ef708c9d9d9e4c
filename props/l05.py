"""Territories and scripts of languages from the supplemental data."""
from sldr import langtags_full as LT

#xml
PROPERTY = 'L05'
BOUNDS = ("two languages, any letters, one counted in one or two of three territories, with none to two scripts in one or two entries; not known "
          "before, known from the registry or with likely subtags for the same or another region; a third language counted with a script")
ASSUMPTIONS = ["the script that likely subtags give is that which is listed, if just one is"]
COVERS = ['new', 'registry', 'likely', 'other region', 'one script', 'several territories', 'with a script']
LOW = "abcdefghijklmnopqrstuvwxyz"


def cases(tier):
    r = [[k, s, t] for k in ('new', 'registry', 'suppress', 'same', 'other') for s in (0, 1, 2) for t in (1, 2)]
    return r + [['with', s, t] for s in (0, 1) for t in (1, 2)]


def full(*p):
    return "-".join(q for q in p if q)


def run(x, case):
    kind, ns, nt = case
    LT.Singleton._instances.clear()
    L = x.str("L", 2, dom=LOW)
    M = x.str("M", 3, dom=LOW)
    x.assume(x.and_(M != "und", M != "root"))
    S = [x.str("S%d" % i, 1, dom="ABC") + x.str("s%d" % i, 3, dom=LOW) for i in range(2)]
    R = [x.str("R%d" % i, 2, dom=LOW[:25].upper()) for i in range(3)]
    x.assume(S[0] != S[1])
    for i, j in ((0, 1), (0, 2), (1, 2)):
        x.assume(R[i] != R[j])
    table = LT.LangTags(alltags=x.file("empty.txt", ""))
    LT.Singleton._instances.clear()
    if kind in ('registry', 'suppress'):
        x.cover('registry')
        table.readIana(x.file("registry.txt", "File-Date: 2025-02-06\n%%\nType: language\nSubtag: " + L + "\nDescription: One\nAdded: 2005-10-16\n" +
                              ("Suppress-Script: " + S[0] + "\n" if kind == 'suppress' else "")))
    elif kind in ('same', 'other'):
        x.cover('likely')
        table.readLikelySubtags(x.file("likely.xml", '<supplementalData><likelySubtags><likelySubtag from="' + L + '" to="' + L + "_" + S[0] + "_" +
                                       R[0 if kind == 'same' else 2] + '"/></likelySubtags></supplementalData>'))
    else:
        x.cover('new')
    name = L
    if kind == 'with':
        x.cover('with a script')
        name = L + "_" + S[0]
    split = ns == 2 and x.choice("split", [False, True])
    data = '<supplementalData><languageData>'
    if split:
        data += '<language type="' + L + '" scripts="' + S[0] + '"/><language type="' + L + '" scripts="' + S[1] + '" alt="secondary"/>'
    elif ns:
        data += '<language type="' + L + '" scripts="' + " ".join(S[:ns]) + '" territories="' + R[0] + ' ' + R[1] + '"/>'
    data += '<language type="' + M + '" territories="' + R[1] + '"/></languageData><territoryInfo>'
    for i in range(nt):
        data += '<territory type="' + R[i] + '"><languagePopulation type="' + name + '"/>'
        if i == 0:
            data += '<languagePopulation type="' + M + '"/>'
        data += '</territory>'
    data += '</territoryInfo></supplementalData>'
    before = {}
    for k in table:
        before[k] = repr(table[k])
    table.readSupplementalData(x.file("supplemental.xml", data))
    want = dict(before)
    want[M] = want[full(M, R[0])] = full(M, R[0])
    script = S[0] if kind == 'suppress' or kind == 'same' or ns == 1 and kind in ('new', 'registry') else ""
    if nt == 2:
        x.cover('several territories')
    elif kind == 'with':
        for f in (full(L, S[0]), full(L, S[0], R[0])):
            want[f] = full(L, S[0], R[0])
    elif kind == 'other':
        x.cover('other region')
        own = S[0] if ns == 1 else ""
        for f in (full(L, R[0]), full(L, own, R[0])):
            want[f] = full(L, own, R[0])
    else:
        if ns == 1:
            x.cover('one script')
        for f in (full(L), full(L, R[0]), full(L, script), full(L, script, R[0])):
            want[f] = full(L, script, R[0])
    x.observe("table", sorted([k, repr(table[k])] for k in table))
    x.check(x.eq(sorted([k, repr(table[k])] for k in table), sorted([k, want[k]] for k in want)),
            "the languages counted in one territory have it, others stay as they were")
    if nt == 1 and kind != 'other':
        x.check(str(table[full(L, R[0]) if kind != 'with' else full(L, S[0], R[0])]) == name.replace("_", "-"), "the territory is hidden")
    for k in list(table):
        v = table[k]
        x.check(table.get(str(v)) is v, "the canonical text of a tag stands for it")
        x.check(v.matches(LT.LangTag(k)), "a tag matches what stands for it")
    lines = table.generate_alltags()
    x.check(x.eq(sorted(f for l in lines for f in l), sorted(want)), "every tag is written once, in all its forms")
    for l in lines:
        for f in l:
            x.check(want[f] == l[-1], "together with those that stand for the same, the full one last")
