"""The coordinates of a time zone are those of zone.tab."""

PROPERTY = 'Z01'
BOUNDS = ("any degrees, minutes and seconds of either sign, in a whole zone.tab for chosen coordinates: up to 2 zones, "
          "3 latitudes and longitudes with every sign, in degrees and minutes or with seconds, comments; "
          "six renamed zones under one or both names with another zone of the same place")
ASSUMPTIONS = ["coordinates are written as in zone.tab", "degrees are compared to within a thousandth of a second of arc"]
COVERS = ['minutes', 'seconds', 'south', 'west', 'renamed', 'two', 'both names']


def cases(tier):
    return ["deg2", "deg3", "file1", "file2", "alias"]


def digits(x, nm, n):
    """n digits and their value"""
    t = ""
    v = 0
    for i in range(n):
        c = x.char("%s%d" % (nm, i), [('0', '9')])
        t += c
        v = v * 10 + int(c)
    return t, v


def coord(x, nm, width, seconds):
    neg = x.bool(nm + "neg")
    t = "+"
    if neg:
        t = "-"
    d, dv = digits(x, nm + "d", width)
    m, mv = digits(x, nm + "m", 2)
    s, sv = digits(x, nm + "s", 2) if seconds else ("", 0)
    x.assume(mv < 60)
    x.assume(sv < 60)
    v = dv * 3600 + mv * 60 + sv
    return t + d + m + s, -v if neg else v


def close(x, got, want):
    """degrees against seconds of arc"""
    return x.and_(got * 3600 - want < 0.001, want - got * 3600 < 0.001)


def one(x, case):
    """a coordinate of any digits"""
    status, out, ns = x.script("zonetab", [x.file("zone.tab", ""), x.path("out.csv")])
    seconds = x.choice("seconds", [False, True])
    t, v = coord(x, "c", int(case[3:]), seconds)
    n = int(case[3:]) + 1
    got = ns["latlongdeg"](t[0], t[1:n], t[n:n + 2], t[n + 2:] if seconds else None)
    x.cover('seconds' if seconds else 'minutes')
    x.check(close(x, got, v), "degrees have the minutes and seconds added to them on the same side of zero")


LAT = [("0000", 0), ("0530", 5 * 3600 + 1800), ("003015", 1815), ("895959", 89 * 3600 + 59 * 60 + 59)]
LON = [("00000", 0), ("17945", 179 * 3600 + 45 * 60), ("0000830", 510), ("0101010", 10 * 3600 + 610)]


KNOWN = [("America/Atikokan", "America/Coral_Harbour"), ("Asia/Kolkata", "Asia/Calcutta"), ("Africa/Asmara", "Africa/Asmera"), ("Pacific/Chuuk", "Pacific/Truk"),
         ("America/Argentina/Jujuy", "America/Jujuy"), ("Asia/Ho_Chi_Minh", "Asia/Saigon")]


def alias(x):
    """a zone under both of its names, and a zone of the same place"""
    new, old = x.choice("zone", KNOWN)
    names = x.choice("order", [[new, old], [old, new], [new], [old]])
    minutes = x.str("m", 1, dom="024") + "0"
    # a country before IN, the same, or one after it
    c = x.choice("country", ["AA", "IN", "ZZ"])
    lines = "%s\t+10%s-010%s\tEurope/Other\n" % (c, minutes, minutes)
    for n in names:
        lines += "IN\t+10%s-010%s\t%s\n" % (minutes, minutes, n)
    out = x.path("out.csv")
    status, printed, ns = x.script("zonetab", [x.file("zone.tab", lines), out])
    x.check(status == 0, "the script succeeds")
    got = [l.split(", ")[0] for l in x.readfile(out).split("\n") if l and not l.startswith("Etc/")]
    x.observe("got", got)
    want = sorted([(c, "Europe/Other"), ("IN", old)])
    if len(names) == 2:
        x.cover('both names')
    x.check(got == [w[1] for w in want], "every zone is there once, in the order of countries, coordinates and names")


def run(x, case):
    if case.startswith("deg"):
        return one(x, case)
    if case == "alias":
        return alias(x)
    n = int(case[4:])
    lines = "# comment\n"
    want = {}
    for i in range(n):
        a, av = x.choice("a%d" % i, LAT)
        o, ov = x.choice("o%d" % i, LON if not i else LON[1:2])
        sa = x.choice("sa%d" % i, [1, -1])
        so = x.choice("so%d" % i, [1, -1])
        if sa < 0:
            x.cover('south')
        if so < 0:
            x.cover('west')
        name = ["Asia/Kolkata", "Africa/Accra"][i]
        if i:
            x.cover('two')
        lines += "%s\t%s%s%s%s\t%s\tcomments # and more\n" % (["IN", "GH"][i], "+-"[sa < 0], a, "+-"[so < 0], o, name)
        want[["Asia/Calcutta", "Africa/Accra"][i]] = (sa * av, so * ov, ["IN", "GH"][i])
        if i == 0:
            x.cover('renamed')
    out = x.path("out.csv")
    status, printed, ns = x.script("zonetab", [x.file("zone.tab", lines), out])
    x.check(status == 0, "the script succeeds")
    found = {}
    last = None
    for l in x.readfile(out).split("\n"):
        if l:
            k, c, a, o = l.split(", ")
            found[k] = (c, float(a), float(o))
            x.check(last is None or last <= c, "zones are in the order of their countries")
            last = c
    for k, (a, o, c) in want.items():
        x.check(k in found, "every zone is there, under the name that CLDR has for it")
        x.check(found[k][0] == c, "with its country")
        x.check(abs(found[k][1] * 3600 - a) < 2, "and its latitude")
        x.check(abs(found[k][2] * 3600 - o) < 2, "and its longitude")
    x.check(len([k for k in found if not k.startswith("Etc/")]) == n, "and no other")
