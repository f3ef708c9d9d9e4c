"""The forms of a language tag."""
from sldr import langtags_full as LT

PROPERTY = 'L02'
BOUNDS = "a tag with or without script, region, up to 3 variants and up to 2 extensions and private use; any letters; any of the parts hidden"
ASSUMPTIONS = ["hidden parts are present, and script and region may only be left out together if the tag says so"]
COVERS = ['hidden', 'variants', 'extensions', 'both', 'more']
LOW = "abcdefghijklmnopqrstuvwxyz"


def cases(tier):
    r = []
    for s in (0, 1):
        for g in (0, 1):
            for v in range(3 if tier == 'quick' else 4):
                for e in ("", "u2", "x2", "t1u1", "u2x1") if tier == 'thorough' or v < 2 else ("", "u2"):
                    r.append((s, g, v, e))
    return r


def run(x, case):
    s, g, v, e = case
    lang = x.str("lang", 2, dom=LOW)
    script = x.str("S", 1, dom=LOW.upper()) + x.str("s", 3, dom=LOW) if s else None
    region = x.str("r", 2, dom=LOW.upper()) if g else None
    variants = [x.str("v%d" % i, 5, dom=LOW) for i in range(v)] if v else None
    exts = {}
    tail = ""
    for i in range(0, len(e), 2):
        exts[e[i]] = [x.str("e%s%d" % (e[i], k), 2, dom=LOW) for k in range(int(e[i + 1]))]
        tail += "-" + "-".join([e[i]] + exts[e[i]])
    if v:
        x.cover('variants')
    if e:
        x.cover('extensions')
    mid = "".join("-" + t for t in (variants or []))
    tag = LT.LangTag(lang=lang, script=script, region=region, variants=variants, extensions=exts if e else None)
    hs = bool(x.bool("hidescript")) if s else False
    hr = bool(x.bool("hideregion")) if g else False
    hb = bool(x.bool("hideboth"))
    x.assume(hb or not ((hs or not s) and (hr or not g)) or (hs and hr))
    tag.hidescript = hs
    tag.hideregion = hr
    tag.hideboth = hb
    if hs or hr:
        x.cover('hidden')
    want = []
    for a in [script] + ([None] if hs and s else []):
        for b in [region] + ([None] if hr and g else []):
            if a is None and b is None:
                if not hb:
                    continue
                x.cover('both')
            want.append("-".join([lang] + [p for p in (a, b) if p is not None]) + mid + tail)
    forms = tag.allforms()
    x.check(len(forms) == len(want), "every form is listed once")
    for w in want:
        x.check(x.or_(*[f == w for f in forms]), "every way of leaving out hidden parts is a form")
    x.check(x.or_(*[f == repr(tag) for f in forms]), "the full tag is one of its forms")
    x.check(x.or_(*[f == str(tag) for f in forms]), "the canonical tag is one of its forms")
    if hs == (not not s) or not hr:
        x.check(all(len(str(tag)) <= len(f) for f in forms), "nothing that may be hidden is in the canonical tag")
    for f in forms:
        other = LT.LangTag(f)
        x.check(tag.matches(other), "every form matches the tag")
        x.check(len(repr(other)) == len(f) and repr(other) == f, "a form reads as it is written")
    # what differs in any part does not match
    o = LT.LangTag(lang=lang, script=script, region=region, variants=variants, extensions=exts if e else None)
    which = x.choice("differ", ["lang", "script", "region", "variant", "ext", "more"])
    n = x.str("other", 2, dom=LOW)
    if which == "lang":
        x.assume(n != lang)
        o.lang = n
    elif which == "script":
        o.script = "Q" + n + "q"
        x.assume(not s or o.script != script)
    elif which == "region":
        o.region = n.upper()
        x.assume(not g or o.region != region)
    elif which == "variant":
        o.variants = [n + "xyz"] + (variants or [])[1:]
        x.assume(not v or o.variants[0] != variants[0])
    elif which == "ext":
        k = e[0] if e else "x"
        o.extensions = dict(exts)
        o.extensions[k] = exts.get(k, [])[:-1] + [n]
        x.assume(not e or n != exts[k][-1])
    else:
        # something more or less
        what = x.choice("more", ["variant", "no variant", "ext", "no ext", "no script", "no region"])
        if what == "variant":
            o.variants = (variants or []) + [n + "xyz"]
        elif what == "ext":
            o.extensions = dict(exts)
            o.extensions["z" if "x" in e else "x"] = [n]
        elif what == "no variant":
            x.assume(v > 0)
            o.variants = variants[:-1] or None
        elif what == "no ext":
            x.assume(len(e) > 0)
            o.extensions = {k: exts[k] for k in exts if k != e[0]} or None
        elif what == "no script":
            x.assume(s and not hs)
            o.script = None
        else:
            x.assume(g and not hr)
            o.region = None
        x.cover('more')
    x.check(not tag.matches(o), "a tag that differs in some part does not match")
