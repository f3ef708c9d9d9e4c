"""The records of the registry of language subtags."""
from sldr.iana import Iana

PROPERTY = 'I01'
BOUNDS = "registries of up to 3 records (thorough 4) of subtags and whole tags of up to 2 types, each with up to 4 fields, repeated and continued on further lines; texts of any characters but line ends, 2 to 5 long"
ASSUMPTIONS = ["a text neither starts nor ends in white space", "the type of a record comes first and then its subtag, as in the registry"]
COVERS = ['repeated', 'continued', 'tag', 'colon', 'repeated and continued']
# fields: d description, D continued description, p prefix, c comments with a colon, C continued comments with a colon, s suppress-script
RECORDS = ["d", "dd", "D", "dD", "Dd", "dp", "dpp", "C", "dC", "dc", "ds", "dsC", "DD", "Cd", "ddd"]
ORDERS = ["ll", "lv", "lg", "gl", "lvl", "glg"]


def cases(tier):
    r = []
    for i, f in enumerate(RECORDS):
        for j, o in enumerate(ORDERS):
            if tier == 'thorough' or j == i % len(ORDERS) or len(f) == 1:
                r.append((o, f, RECORDS[(i * 4 + j + 1) % len(RECORDS)]))
    return r


def text(x, nm, n):
    t = x.str(nm, n)
    for i in range(n):
        # what splits lines when reading in text mode
        x.assume(x.not_(x.isin(t[i], "\n\r")))
    for c in (t[0], t[n - 1]):
        x.assume(not c.isspace())
    return t


TYPES = {'l': 'language', 'v': 'variant', 'g': 'grandfathered'}
FIELDS = {'d': 'Description', 'D': 'Description', 'p': 'Prefix', 'c': 'Comments', 'C': 'Comments', 's': 'Suppress-Script'}


def run(x, case):
    order, f1, f2 = case
    data = "File-Date: 2025-02-06\n"
    want = []
    for i, t in enumerate(order):
        sub = x.str("sub%d" % i, 2 if t == 'l' else 5, dom="abcdefghijklmnopqrstuvwxyz-" if t == 'g' else "abcdefghijklmnopqrstuvwxyz0123456789")
        for u, s, _ in want:
            if u == t:
                x.assume(s != sub)
        data += "%%\nType: " + TYPES[t] + "\n" + ("Tag: " if t == 'g' else "Subtag: ") + sub + "\n"
        if t == 'g':
            x.cover('tag')
        vals = {}
        for k, f in enumerate(f1 if i == 0 else f2 if i == 1 else "d"):
            name = FIELDS[f]
            v = text(x, "t%d%d" % (i, k), 2)
            if f in 'cC':
                x.cover('colon')
                v = v + ": y" if f == 'c' else v
            data += name + (x.choice("colon", [": ", ":", ":  "]) if i == k == 0 else ": ") + v + "\n"
            if f in 'DC':
                x.cover('continued')
                w = text(x, "w%d%d" % (i, k), 2)
                if f == 'C':
                    w = "z: " + w
                data += (x.choice("blanks%d" % k, ["  ", " "]) if i == 0 else "  ") + w + "\n"
                v = v + " " + w
                if name in vals:
                    x.cover('repeated and continued')
            if name in vals:
                x.cover('repeated')
            vals.setdefault(name, []).append(v)
        want.append((t, sub, vals))
    reg = Iana(x.file("registry.txt", data))
    for t in set(order):
        mine = [(s, v) for u, s, v in want if u == t]
        table = getattr(reg, TYPES[t])
        x.check(len(table) == len(mine), "every record is there once")
        for s, vals in mine:
            x.check(s in table, "a record is found by its subtag")
            rec = table[s]
            x.check(len(rec) == len(vals), "a record has the fields that it was given and no others")
            for name, v in vals.items():
                got = rec.get(name.lower())
                x.check(got == (v[0] if len(v) == 1 else v), "a field has its text, a repeated one all its texts in order")
