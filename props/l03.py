"""A table of equivalent tags, and filling in a tag from it."""
from sldr import langtags_full as LT

PROPERTY = 'L03'
BOUNDS = "a table of two lines, each with a full tag and up to 4 other tags equivalent to it (script or region left out, another region, another language), stars, empty lines; any letters; then a tag of the languages of the table with or without script, region, variant, private use"
ASSUMPTIONS = ["the full tag is the last of its line and has a script and a region", "no tag is on two lines"]
COVERS = ['listed', 'unlisted', 'filled', 'star', 'region of another line']
LOW = "abcdefghijklmnopqrstuvwxyz"
SHAPES = ["L", "L-S", "L-R", "L-R,L-S", "L,L-R,L-S", "L-Q,L-S-Q", "L,L-Q,L-S-Q", "M,M-S", "L,M", "L-R,L-Q"]
TAGS = ["L", "L-S", "L-R", "L-S-R", "L-V", "L-x", "L-S-x", "L-R-x", "L-T", "L-T-R", "L-U", "L-S-U", "L-S-U-x", "L-S-V", "N-S-R", "L-ZZ", "L-S-ZZ", "L-R-V", "L-U-x"]


def cases(tier):
    r = []
    for i, s in enumerate(SHAPES):
        for j, t in enumerate(TAGS):
            if tier == 'thorough' or (i + j) % 3 == 0:
                r.append((s, SHAPES[(i + 3) % len(SHAPES)], t))
    return r


def make(d, t):
    return "-".join([d[k] if k in d else k for k in t.split("-")])


def run(x, case):
    one, two, probe = case
    lines = []
    text = ""
    langs = []
    for i, shape in enumerate((one, two)):
        d = {'L': x.str("L%d" % i, 2, dom=LOW), 'S': x.str("S%d" % i, 1, dom="ABC") + x.str("s%d" % i, 3, dom=LOW),
             'R': x.str("R%d" % i, 2, dom=LOW[:25].upper()), 'Q': "Q" + x.str("Q%d" % i, 1, dom=LOW.upper()), 'M': x.str("M%d" % i, 3, dom=LOW)}
        x.assume(d['R'] != d['Q'])
        lines.append((d, shape.split(",") + ["L-S-R"]))
    x.assume(lines[0][0]['L'] != lines[1][0]['L'])
    x.assume(lines[0][0]['M'] != lines[1][0]['M'])
    for i, (d, shape) in enumerate(lines):
        if x.bool("empty%d" % i):
            text += "\n"
        tags = []
        for k, t in enumerate(shape):
            star = k == 0 and x.bool("star%d" % i)
            if star:
                x.cover('star')
            tags.append(("*" if star else "") + make(d, t))
        text += " = ".join(tags) + "\n"
    LT.Singleton._instances.clear()
    table = LT.LangTags(alltags=x.file("langtags.txt", text))
    for d, shape in lines:
        full = make(d, "L-S-R")
        for t in shape:
            x.cover('listed')
            t = make(d, t)
            x.check(t in table, "every tag of the table is found")
            x.check(repr(table[t]) == full, "a tag stands for the full tag of its line")
            got = LT.LangTag(t).analyse(table)
            x.check(repr(got) == full, "a listed tag is analysed to the full tag of its line")
            x.check(table[t].matches(LT.LangTag(full)), "the full tag matches its own text")
            x.check(str(table[t]) in [make(d, u) for u in shape], "the canonical text is a tag of the line")
    # a tag that need not be listed
    d = dict(lines[0][0])
    d['V'] = x.str("V", 5, dom=LOW)
    d['x'] = "x-" + x.str("X", 2, dom=LOW)
    d['T'] = "D" + x.str("T", 3, dom=LOW)
    d['U'] = lines[1][0]['R']
    d['N'] = "q" + x.str("N", 2, dom=LOW)
    text = make(d, probe)
    LT.Singleton._instances.clear()
    if 'U' in probe:
        x.cover('region of another line')
    given = LT.LangTag(text)
    has = given.script, given.region, given.variants, given.extensions
    listed = text in table
    got = LT.LangTag(text).analyse(table)
    x.observe("got", repr(got))
    if not listed:
        x.cover('unlisted')
        x.check(got.lang == given.lang, "analysing keeps the language")
        x.check(has[0] is None or got.script == has[0], "analysing keeps the script that is given")
        x.check(has[1] is None or got.region == has[1] or has[1] == "ZZ", "analysing keeps the region that is given")
        x.check(got.variants == has[2] and (got.extensions or {}) == (has[3] or {}), "analysing keeps the variants and extensions")
        x.check(got.region != "ZZ", "ZZ is no region")
        short = probe.rsplit("-", 1)[0]
        if probe in ("L-S-x", "L-R-x", "L-S-V", "L-R-V", "L-U-x"):
            LT.Singleton._instances.clear()
            less = LT.LangTag(make(d, short)).analyse(table)
            kept = (has[0] is None or has[0] == less.script) and (has[1] is None or has[1] == less.region)
            x.check(not kept or (got.script, got.region) == (less.script, less.region), "variants and extensions do not change what is filled in")
        if (has[0] is None and got.script is not None) or (has[1] is None and got.region is not None):
            x.cover('filled')
            x.check(got.script is None or got.script == d['S'] or got.script == has[0], "what is filled in comes from the line of the language")
            x.check(has[0] is None or has[0] == d['S'], "nothing is filled in for another script")
            x.check(has[1] is None or has[1] == "ZZ" or has[1] == d['R'] or has[1] == d['Q'], "nothing is filled in for another region")
            x.check(got.region is None or got.region == d['R'] or got.region == has[1], "what is filled in comes from the line of the language")
