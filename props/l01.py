"""A language tag is split into its parts and put together again."""
from sldr import langtags_full as LT

PROPERTY = 'L01'
BOUNDS = "well formed tags: language of 2 or 3 letters, optional extended language, script, region (letters or digits), up to 2 variants, up to 2 extensions of up to 2 subtags, private use; subtag lengths by case; any ASCII letters and digits in either case; - or _ between subtags"
ASSUMPTIONS = ["the language is neither private nor grandfathered", "a tag that writes the region before the script is not well formed"]
COVERS = ['extlang', 'script', 'region', 'variant', 'extension', 'private']
LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"
# l language, e extended language, s script, r region of letters, d region of digits, y variant with a first digit of four,
# v variant of five, w variant of eight, a b extensions (a: one subtag of two, b: two subtags), x private (x1: subtags 1, 3; x2: 2, 1)
QUICK = ["l2", "l3", "l2 s", "l2 r", "l3 d", "l2 s r", "l2 e", "l2 e s", "l2 e s r", "l2 e r", "l2 y", "l2 r y", "l2 s y", "l2 v", "l2 v y",
         "l2 e y", "l2 s r v", "l2 a", "l2 b", "l2 a b", "l2 r a", "l2 s d b", "l2 x1", "l2 x2", "l2 a x1", "l2 b x2", "l2 s r y a x1",
         "l2 e v b", "l3 w b x1"]
MORE = ["l3 e s d v w b a x2", "l3 s d w v a b x1", "l2 y w", "l2 e d y b x2", "l3 e x1", "l3 r v x2", "l2 w v y", "l2 s a b x2"]


def cases(tier):
    return QUICK + (MORE if tier == 'thorough' else [])


def run(x, case):
    lang = script = region = None
    variants = []
    exts = []
    private = None
    subs = []
    for i, p in enumerate(case.split()):
        nm = "p%d" % i
        if p[0] == 'l':
            t = x.str(nm, int(p[1]), dom=LET)
            lang = t.lower()
        elif p == 'e':
            x.cover('extlang')
            t = x.str(nm, 3, dom=LET)
            lang = lang + "-" + t.lower()
        elif p == 's':
            x.cover('script')
            t = x.str(nm, 4, dom=LET)
            script = t[:1].upper() + t[1:].lower()
        elif p in 'rd':
            x.cover('region')
            t = x.str(nm, 2, dom=LET) if p == 'r' else x.str(nm, 3, dom=DIG)
            region = t.upper()
        elif p in 'yvw':
            x.cover('variant')
            t = x.char(nm + "h", dom=DIG) + x.str(nm, 3, dom=LET + DIG) if p == 'y' else x.str(nm, 5 if p == 'v' else 8, dom=LET + DIG)
            variants.append(t.lower())
        elif p in 'ab':
            x.cover('extension')
            s = x.char(nm + "n", dom="tuvTUV0")
            body = [x.str("%s%d" % (nm, k), n, dom=LET + DIG) for k, n in enumerate([2] if p == 'a' else [3, 2])]
            for e in exts:
                x.assume(e[0] != s.lower())
            exts.append((s.lower(), [b.lower() for b in body]))
            subs.append(s)
            subs.extend(body)
            continue
        else:
            x.cover('private')
            s = x.char(nm + "n", dom="xX")
            body = [x.str("%s%d" % (nm, k), n, dom=LET + DIG) for k, n in enumerate([1, 3] if p == 'x1' else [2, 1])]
            private = ('x', [b.lower() for b in body])
            subs.append(s)
            subs.extend(body)
            continue
        subs.append(t)
    text = subs[0]
    for i, s in enumerate(subs[1:]):
        text += x.char("sep%d" % i, dom="-_") + s
    tag = LT.LangTag(text)
    x.check(tag.lang == lang, "the language is found")
    x.check(tag.script == script, "the script is found")
    x.check(tag.region == region, "the region is found")
    x.check((tag.variants or []) == variants, "the variants are found in order")
    got = dict(tag.extensions or {})
    want = exts + ([private] if private else [])
    x.check(len(got) == len(want), "all extensions are found and no others")
    for k, v in want:
        x.check(k in got and got[k] == v, "the subtags of an extension are found in order")
    exts = sorted(exts)
    full = [lang] + [p for p in (script, region) if p is not None] + variants
    for k, v in exts + ([private] if private else []):
        full += [k] + v
    full = "-".join(full)
    x.observe("full", full)
    x.check(repr(tag) == full, "the full tag is put together again in canonical form")
    x.check(str(tag) == full, "a tag that hides nothing is written in full")
    x.check(len(tag) == len(full.split("-")) - (1 if 'e' in case.split() else 0), "the length is the number of parts")
    again = LT.LangTag(full)
    x.check(repr(again) == full, "the canonical form is stable")
    x.check(tag.matches(again) and again.matches(tag), "the canonical form matches")
