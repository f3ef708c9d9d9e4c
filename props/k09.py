"""icupretty prints a tailoring that means the same."""
from sldr.collation import Collation, CollElement

#tab - ud.category
PROPERTY = 'K09'
BOUNDS = ("tailorings of up to 4 elements at any levels, each in a chain or after a reset to any earlier element or to a character of the table, "
          "with [before n] or without, expansions of one ASCII character; a key of an arbitrary character and one of an ASCII one or a diacritic; keys of up to 50 characters around the width of a line; "
          "up to 3 keys with an asat")
ASSUMPTIONS = ["keys are different and do not end in white space", "the table of characters is a small one", "an element with a dot below is not in the tailoring already"]
COVERS = ['chain', 'reset', 'inner reset', 'before', 'identical', 'expansion', 'long', 'dot', 'stdout', 'outfile']
D = {"a": ((10, 1, 1),), "f": ((20, 1, 1),), "g": ((20, 2, 1),)}


def cases(tier):
    r = [["resets", n] for n in (2, 3)] + [["before", 2], ["text", 2], ["long", 3], ["dot", 2]]
    r.append(["resets", 4])
    return r


def place(x, items):
    """the order that a tailoring makes, each with its difference from the one before it: items are (key, base, level, before)"""
    lists = {}
    where = {}
    for k, b, level, before in items:
        if before or b not in where:
            b = (b, before)
            if b not in lists:
                lists[b] = [(b, 0)]
                where[b] = b
        name = where[b]
        l = lists[name]
        i = [e[0] for e in l].index(b) + 1
        while i < len(l) and l[i][1] > level:
            i += 1
        l.insert(i, (k, level))
        where[k] = name
    # identical ones are in no order
    res = {}
    for name, l in lists.items():
        res[name] = []
        for k, level in l:
            if level == 4:
                res[name][-1][0].append(k)
            else:
                res[name].append(([k], level))
    return {n: [(sorted(g, key=str), level) for g, level in l] for n, l in res.items()}


def esc(s):
    return "".join(["\\U%08X" % ord(c) for c in s])


def pretty(x, text, args=[]):
    """the output of the script for a tailoring"""
    out = x.path("out.txt")
    outfile = x.choice("outfile", [False, True])
    x.cover('outfile' if outfile else 'stdout')
    status, printed, ns = x.script("icupretty", [x.file("in.txt", text)] + args + (["-o", out] if outfile else []),
                                   {"sldr.collation": {"Collation": lambda: Collation(ducetDict=D), "CollElement": CollElement}})
    x.check(not status, "the script does its work")
    if outfile:
        x.check(out in x.listfiles(), "the file is written")
        res = x.readfile(out)
    else:
        res = printed
    x.observe("res", res)
    return res, printed


def read(x, text):
    c = Collation(ducetDict=D)
    c.parse(text)
    return [(k, v.base, v.level, v.before) for k, v in sorted(c.items(), key=lambda i: i[1].order)], c


def run(x, case):
    kind, n = case
    items = []
    exps = {}
    names = ["x", "y", "z", "w"]
    text = ""
    if kind in ("resets", "before"):
        last = None
        for i in range(n):
            level = x.choice("l%d" % i, [1, 2, 3, 4] if n < 4 else [1, 3, 4])
            if kind == "before":
                bases = ["a", "f"] + names[:i]
            else:
                bases = ["a", "f"][:1 if n == 4 else 2] + names[:i]
            b = x.choice("b%d" % i, (["chain"] if i else []) + bases)
            before = 0
            if b == "chain":
                x.cover('chain')
                b = last
                text += " "
            else:
                x.cover('inner reset' if b in names else 'reset')
                if kind == "before" and b not in names and level < 4:
                    before = x.choice("before%d" % i, [0, level])
                if before:
                    x.cover('before')
                text += ("\n" if i else "") + "&" + ("[before %d]" % before if before else "") + b + " "
            if level == 4:
                x.cover('identical')
            text += ("<" * level if level < 4 else "=") + names[i]
            items.append((names[i], b, level, before))
            last = names[i]
    elif kind == "text":
        # any characters
        keys = []
        b = "a"
        text = "&a"
        for i in range(n):
            k = x.char("k0") if i == 0 else x.str("k1", 1, dom=[("!", "~"), ("\u0300", "\u036f")])
            x.assume(not k[-1].isspace())
            for o in keys + ["a", "f", "g"]:
                x.assume(k != o)
            level = x.choice("l%d" % i, [1, 4])
            text += ("<" if level == 1 else "=") + esc(k)
            if i == 1 and x.choice("exp", [False, True]):
                x.cover('expansion')
                e = x.str("e", 1, dom=[("!", "~")])
                x.assume(not e.isspace())
                text += "/" + esc(e)
                exps[k] = e
            items.append((k, b, level, 0))
            keys.append(k)
            b = k
    elif kind == "long":
        # lines are broken
        x.cover('long')
        b = "a"
        text = "&a"
        for i in range(n):
            m = x.choice("n%d" % i, [1, 38, 50])
            k = chr(ord('p') + i) * (m - 1) + x.str("k%d" % i, 1, dom=[('A', 'Z')])
            for o in items:
                x.assume(k != o[0])
            text += " < " + k
            items.append((k, b, 1, 0))
            b = k
    else:
        x.cover('dot')
        b = "a"
        text = "&a"
        for i in range(n + 1):
            k = x.str("k%d" % i, 1, dom=[("\u1000", "\u1020")])
            for o in items:
                x.assume(k != o[0][0])
            k += x.choice("asat%d" % i, ["", "\u103a", "\u103aa"])
            level = x.choice("l%d" % i, [1, 3])
            text += " " + "<" * level + " " + k
            items.append((k, b, level, 0))
            b = k
    x.observe("text", text)
    res, printed = pretty(x, text, ["--adddot"] if kind == "dot" else [])
    if kind == "dot":
        dots = [(k[:-1] + "\u1037\u103a", k) for k, b, l, f in items if k.endswith("\u103a")]
        x.check(("Added %d rules\n" % len(dots)) in printed, "how many rules were added is printed")
        if res is printed:
            res = res[res.index("\n") + 1:]
    got, coll = read(x, res)
    if kind == "dot":
        x.check(len(got) == len(items) + len(dots), "rules are added for each key that ends in an asat")
        for k, o in dots:
            m = [g for g in got if g[0] == k]
            x.check(len(m) == 1 and m[0][2] == 4 and coll[k].exp == "\u1037", "the key with a dot is what the key with the dot behind it is")
            x.check(m[0][1] == o, "it is next to its key")
        plain = []
        for g in got:
            if not any(bool(g[0] == k) for k, o in dots):
                # what follows a dotted key follows its key
                b = g[1]
                for k, o in dots:
                    if b == k:
                        b = o
                plain.append((g[0], b, g[2], g[3]))
        got = plain
    x.check(len(got) == len(items), "as many elements")
    if kind in ("text", "long", "dot"):
        for g, w in zip(got, items):
            x.check(g[0] == w[0] and g[1] == w[1] and g[2] == w[2] and g[3] == w[3], "the same elements in the same order")
            x.check(kind == "dot" or coll[g[0]].exp == exps.get(w[0], ""), "the same expansions")
        return
    x.check(sorted(g[0] for g in got) == sorted(w[0] for w in items), "the same keys")
    x.check(place(x, got) == place(x, items), "what is printed puts each element where the tailoring does")
