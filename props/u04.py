"""flatten yields every string of a sequence of sets exactly once."""
from sldr import UnicodeSets as US

PROPERTY = 'U04'
BOUNDS = "sequences of up to 5 sets, up to 3 members each (thorough: 4 members), members any character"
ASSUMPTIONS = ["members of one set are different and are not set syntax, digits after a backslash or blanks"]
COVERS = ['product']
SYNTAX = "[]{}\\&-|^$:() "


def cases(tier):
    r = ["", "1", "2", "3", "1,1", "2,1", "1,2", "2,2", "3,2", "1,1,1", "2,1,2", "s", "s,1", "2,s", "1,1,1,2", "2,1,1,2", "1,1,1,1,2"]
    if tier == 'thorough':
        r += ["3,3", "2,2,2", "4", "1,2,1,2", "2,2,2,2", "1,1,1,1,1,2", "2,s,2", "ss"]
    return r


def run(x, case):
    sets = []
    text = ""
    for j, part in enumerate(p for p in case.split(",") if p):
        if part[0] == 's':
            vals = [x.str("s%d_%d" % (j, i), 2) for i in range(len(part))]
        else:
            vals = [x.str("c%d_%d" % (j, i), 1) for i in range(int(part))]
        for v in vals:
            for c in v:
                x.assume(x.not_(x.isin(c, SYNTAX)))
        for i in range(len(vals)):
            for k in range(i):
                x.assume(vals[i] != vals[k])
        text += "[" + "".join(("{" + v + "}") if len(v) > 1 else v for v in vals) + "]"
        sets.append(vals)
    res = list(US.flatten(text))
    x.observe("res", set(res))
    want = [""]
    for vals in sets:
        want = [w + v for w in want for v in vals]
    x.cover('product')
    x.check(len(res) == len(want), "one string per combination")
    x.check(set(res) == set(want), "every combination and nothing else")
