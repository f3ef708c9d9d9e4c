"""The first font rule that fits a language tag is the one that is used."""
#xml
PROPERTY = 'A04'
BOUNDS = ("up to three rules, each for none or some of script, language and region, each a value or a list of two; every letter of a value "
          "and of the tag any of three; tags with or without script and region, in the table or not")
ASSUMPTIONS = ["the package langtag is replaced by a stand-in"]
COVERS = ['first', 'second', 'third', 'none', 'list', 'no script', 'unknown tag', 'known tag', 'rule for all']
LOW = [('a', 'c')]
UP = [('A', 'C')]
BUDGET = 200


def cases(tier):
    return [[n, k] for n in ([1, 2] if tier == 'quick' else [1, 2, 3]) for k in ([0, 1, 2, 3] if n == 1 else [0, 1])] + [[3, 4]]


class Obj(object):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


def langtag(s):
    if isinstance(s, Obj):
        return s
    bits = s.split("-")
    r = {"lang": bits[0], "script": None, "region": None}
    for b in bits[1:]:
        r["script" if len(b) == 4 else "region"] = b
    return Obj(**r)


def run(x, case):
    n, kind = case
    lang = "a" + x.char("lang", LOW)
    script = x.char("script", UP) + "xxx" if kind in (0, 1, 3, 4) else None
    region = "X" + x.char("region", UP) if kind in (0, 2, 4) else None
    full = lang + ("-" + script if script is not None else "") + ("-" + region if region is not None else "")
    known = kind != 1

    def lookup(tag, **kw):
        if not known:
            raise KeyError(tag)
        x.check(x.eq(tag, lang), "it is the tag that was given that is looked up")
        return Obj(full=full, tag=lang)
    x.cover('known tag' if known else 'unknown tag')
    rules = []
    shapes = [[], ["scr"], ["lang"], ["reg"], ["lang", "scr"], ["reg", "scr"], ["lang", "reg", "scr"]]
    fits = []
    for i in range(n):
        m = {}
        fit = True
        for k in x.choice("shape%d" % i, shapes if n < 3 else shapes[1:3]):
            def one(nm):
                if k == "scr":
                    return x.char(nm, UP) + "xxx"
                return "a" + x.char(nm, LOW) if k == "lang" else "X" + x.char(nm, UP)
            have = {"scr": script, "lang": lang, "reg": region}[k]
            if (n == 1 or k == "scr") and x.choice("list%d%s" % (i, k), [False, True]):
                x.cover('list')
                m[k] = [one("m%d%s0" % (i, k)), one("m%d%s1" % (i, k))]
                fit = x.and_(fit, have is not None and x.or_(x.eq(have, m[k][0]), x.eq(have, m[k][1])))
            else:
                m[k] = one("m%d%s" % (i, k))
                fit = x.and_(fit, have is not None and x.eq(have, m[k]))
        if not m:
            x.cover('rule for all')
        rules.append({"result": {"fontid": "f%d" % i}, "match": m})
        fits.append(fit)
    if script is None:
        x.cover('no script')
    path = x.jsonfile("rules.json", rules)
    status, out, ns = x.script("fontmatch", [lang if known else full, "--rules", path],
                               {"langtag": {"lookup": lookup, "langtag": langtag}})
    x.check(status == 0, "the script succeeds")
    last = [w for w in out.split("\n") if w.startswith("{")]
    x.observe("got", last)
    none = True
    for i in range(n):
        if x.and_(none, fits[i]):
            x.cover(['first', 'second', 'third'][i])
            x.check(x.eq(last, ['{"fontid": "f%d"}' % i]), "it is the font of the first rule that fits")
        none = x.and_(none, x.not_(fits[i]))
    if none:
        x.cover('none')
        x.check(x.eq(last, []), "there is no font if no rule fits")
