"""The table of tags made from likely subtags and the registry."""
from sldr import langtags_full as LT

#xml
PROPERTY = 'L04'
BOUNDS = "up to 3 likely subtags of one language (by language, language and script, language and region) and one of another, in any order of the former; read from CLDR or from extras, with or without a suppressed script in the registry; any letters; registries of up to 4 records of languages, extended languages and variants with or without prefixes"
ASSUMPTIONS = ["no two likely subtags are for the same tag", "likely subtags agree: what is likely for a language and script, or region, is likely for the language too if it is the same script or region"]
COVERS = ['variant', 'extlang', 'deprecated', 'script', 'region', 'registry', 'listed', 'extras']
LOW = "abcdefghijklmnopqrstuvwxyz"
# L likely for the language, S for its script two, R for its region two (to script two), P for region three (to script one), T for script three and region one
SETS = ["L", "LS", "SL", "LR", "RL", "LP", "PL", "LT", "LSR", "LRS", "SRL", "LSP", "S", "R", "SR", "RS"]


def cases(tier):
    r = []
    for s in SETS + (["PLS", "LPR", "TLS", "LST", "RPL", "TL", "RSL", "SLR"] if tier == 'thorough' else []):
        r.append((s, "none"))
        if tier == 'thorough' or len(s) < 3:
            r.append((s, "script"))
            r.append((s, "extras"))
    for o in ["lv", "lvv", "lvl", "el", "lel", "lve", "vlv", "vvl"] + (["levl", "lvvl", "vlve", "lrvl", "lrev"] if tier == 'thorough' else ["lrvl"]):
        r.append((o, "registry"))
    return r


def registry(x, order):
    """records of languages, extended languages, regions and variants"""
    data = "File-Date: 2025-02-06\n"
    langs = []
    variants = []
    for i, t in enumerate(order):
        nm = "%d" % i
        data += "%%\nType: " + {'l': "language", 'e': "extlang", 'v': "variant", 'r': "region"}[t] + "\nSubtag: "
        if t == 'r':
            data += x.str("g" + nm, 2, dom=LOW.upper()) + "\nDescription: Somewhere\n"
        elif t == 'v':
            x.cover('variant')
            sub = x.str("v" + nm, 5, dom=LOW)
            for s, _ in variants:
                x.assume(s != sub)
            prefixes = [x.str("p%s%d" % (nm, k), 2, dom=LOW) for k in range(x.choice("np" + nm, [0, 1, 2]))]
            if len(prefixes) == 2:
                x.assume(prefixes[0] != prefixes[1])
            data += sub + "\nDescription: Some\nAdded: 2000-01-01\n" + "".join("Prefix: " + p + "\n" for p in prefixes)
            variants.append((sub, prefixes))
        else:
            sub = x.str("l" + nm, 3, dom=LOW)
            for l in langs:
                x.assume(l[1] != sub)
            desc = x.str("d" + nm, 2, dom=LOW)
            lines = "Description: " + desc + "\n"
            dep = bool(x.bool("dep" + nm))
            pref = x.str("f" + nm, 2, dom=LOW) if dep else None
            if dep:
                x.cover('deprecated')
                lines += "Deprecated: 2001-01-01\nPreferred-Value: " + pref + "\n"
            full = sub
            if t == 'e':
                x.cover('extlang')
                px = x.str("x" + nm, 2, dom=LOW)
                lines += "Prefix: " + px + "\n"
                full = px + "-" + sub
            data += sub + "\n" + lines
            langs.append((full, sub, desc, pref))
    data += "%%\nType: redundant\nTag: az-Arab\nDescription: none of these\nAdded: 2003-05-30\n"
    table = LT.LangTags(alltags=x.file("empty.txt", ""))
    table.readIana(x.file("registry.txt", data))
    x.check(len(table) == len(langs), "the table has the languages of the registry and no others")
    for full, sub, desc, pref in langs:
        x.check(full in table, "a language is found, an extended one by its prefix")
        t = table[full]
        x.check(repr(t) == full and t.desc == [desc], "a language has its own description")
        x.check(getattr(t, 'deprecated', False) == (pref is not None), "a deprecated language is known for it")
        x.check(getattr(t, 'preferred', None) == pref, "the preferred value is known")
    x.check(table.global_variants == [v for v, p in variants if not p], "variants without a prefix go with every language")
    for v, ps in variants:
        for p in ps:
            want = [w for w, qs in variants if bool(x.or_(*([q == p for q in qs] + [False])))]
            x.check(table.variants[p] == want, "a prefix has the variants that go with it")


def run(x, case):
    kinds, reg = case
    LT.Singleton._instances.clear()
    if reg == "registry":
        registry(x, kinds)
        LT.Singleton._instances.clear()
        return
    L = x.str("L", 2, dom=LOW)
    M = x.str("M", 3, dom=LOW)
    x.assume(M != "und")
    scripts = [x.str("S%d" % i, 1, dom="ABC") + x.str("s%d" % i, 3, dom=LOW) for i in range(3)]
    regions = [x.str("R%d" % i, 2, dom=LOW[:25].upper()) for i in range(3)]
    for a in (scripts, regions):
        x.assume(a[0] != a[1])
        x.assume(a[0] != a[2])
        x.assume(a[1] != a[2])
    def tag(*p):
        return "_".join(p)
    pairs = {'L': (tag(L), tag(L, scripts[0], regions[0])), 'S': (tag(L, scripts[1]), tag(L, scripts[1], regions[1])),
             'R': (tag(L, regions[1]), tag(L, scripts[1], regions[1])), 'P': (tag(L, regions[2]), tag(L, scripts[0], regions[2])),
             'T': (tag(L, scripts[2]), tag(L, scripts[2], regions[0]))}
    used = [pairs[k] for k in kinds] + [(M, tag(M, scripts[0], regions[0]))]
    text = "<supplementalData><likelySubtags>"
    for f, t in used:
        text += '<likelySubtag from="' + f + '" to="' + t + '"/>'
    text += '<likelySubtag from="und" to="en_Latn_US"/></likelySubtags></supplementalData>'
    table = LT.LangTags(alltags=x.file("empty.txt", ""))
    LT.Singleton._instances.clear()
    if reg == "script":
        x.cover('registry')
        table.readIana(x.file("registry.txt", "File-Date: 2025-02-06\n%%\nType: language\nSubtag: " + L + "\nDescription: One\nAdded: 2005-10-16\nSuppress-Script: "
                              + scripts[0] + "\n%%\nType: language\nSubtag: " + M + "\nDescription: Two\n"))
        x.check(L in table and repr(table[L]) == L + "-" + scripts[0], "the suppressed script is known")
        x.check(M in table and repr(table[M]) == M and table[M].desc == ["Two"], "a language is known from the registry")
        x.check(str(table[L]) == L, "the suppressed script is hidden")
    if reg == "extras":
        x.cover('extras')
        text = "langtag\tlikely_subtag\tconfirmed\n" + "".join(f + "\t" + t + "\tyes\n" for f, t in used) + "zzz\tzzz_Zzzz_ZY\tCLDR\n"
        x.assume(M != "zzz")
        table.readExtras(x.file("extras.csv", text))
        x.check("zzz" not in table, "what is confirmed to be in CLDR is not taken from the extras")
    else:
        table.readLikelySubtags(x.file("likely.xml", text))
    if 'S' in kinds or 'T' in kinds:
        x.cover('script')
    if 'R' in kinds or 'P' in kinds:
        x.cover('region')
    for f, t in used:
        f = f.replace("_", "-")
        t = t.replace("_", "-")
        x.cover('listed')
        x.check(f in table and repr(table[f]) == t, "a tag stands for its likely full tag")
        x.check(t in table and repr(table[t]) == t, "a full tag stands for itself")
        x.check(repr(LT.LangTag(f).analyse(table)) == t, "analysing fills in the likely subtags")
    for k in list(table):
        v = table[k]
        x.check(table.get(str(v)) is v, "the canonical text of a tag stands for it")
        x.check(v.matches(LT.LangTag(k)), "a tag matches what stands for it")
    x.check("und" not in table, "an undetermined language is no entry")
