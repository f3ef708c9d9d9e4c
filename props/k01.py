"""Sort keys are totally ordered: primary before secondary before tertiary, trailing zeros not counting."""
from sldr.collation import SortKey

PROPERTY = 'K01'
BOUNDS = ("three sort keys of three levels, up to 2 weights per level (thorough 3); weights are any non-negative "
          "integers, or any non-negative reals for one case")
ASSUMPTIONS = ["sort keys that are compared have three levels"]
COVERS = ['primary', 'secondary', 'tertiary', 'equal', 'trailing zero', 'third']


def cases(tier):
    r = [["111", "111", None], ["211", "111", None], ["111", "121", None], ["112", "111", None], ["222", "111", None],
         ["000", "111", None], ["122", "211", None], ["222", "222", None], ["100", "200", None], ["221", "221", "add"],
         ["010", "002", "add"], ["21", "111", "add"], ["1", "11", "add"], ["", "111", "add"], ["121", "", "add"], ["111", "111", "111"], ["200", "200", "200"], ["110", "110", "210"]]
    if tier == 'thorough':
        r += [["333", "333", None], ["333", "122", None], ["211", "211", "211"], ["333", "222", "add"],
              ["300", "300", "300"], ["220", "220", "220"]]
    return r


def mk(x, nm, sizes):
    return SortKey([[x.int("%s_%d_%d" % (nm, j, i), 0) for i in range(int(n))] for j, n in enumerate(sizes)])


def strip(l):
    l = list(l)
    while len(l) and l[-1] == 0:
        l.pop()
    return l


def ref(x, a, b):
    """1, 2, 3: a before b at that level, negative: after, 0: equal"""
    for j in range(3):
        p = strip(a[j])
        q = strip(b[j])
        if len(p) != len(a[j]):
            x.cover('trailing zero')
        for i in range(max(len(p), len(q))):
            if i >= len(p):
                return j + 1
            if i >= len(q):
                return -(j + 1)
            if p[i] < q[i]:
                return j + 1
            if p[i] > q[i]:
                return -(j + 1)
    return 0


def run(x, case):
    a = mk(x, "a", case[0])
    b = mk(x, "b", case[1])
    if case[2] == "add":
        s = a + b
        want = []
        for j in range(max(len(a), len(b))):
            want.append((list(a[j]) if j < len(a) else []) + (list(b[j]) if j < len(b) else []))
        a0 = [list(l) for l in a]
        b0 = [list(l) for l in b]
        x.check([list(l) for l in s] == [list(l) for l in want], "adding concatenates level by level")
        c = a.copy()
        c += b
        x.check(isinstance(c, SortKey) and [list(l) for l in c] == [list(l) for l in want], "in place too")
        if len(c):
            c[0].append(7)
        x.check([list(l) for l in a] == a0 and [list(l) for l in b] == b0, "the operands stay as they were")
        x.check(isinstance(s, SortKey), "the sum is a sort key")
        return
    r = ref(x, a, b)
    x.cover({0: 'equal', 1: 'primary', 2: 'secondary', 3: 'tertiary'}[abs(r)])
    x.observe("r", r)
    x.check((a < b) == (r > 0), "less")
    x.check((a > b) == (r < 0), "greater")
    x.check((a == b) == (r == 0), "equal")
    x.check((a != b) == (r != 0), "not equal")
    x.check((a <= b) == (r >= 0), "not greater")
    x.check((a >= b) == (r <= 0), "not less")
    x.check((b < a) == (r < 0), "the other way round")
    x.check(abs(a.cmp(b)) == abs(r), "the level of the first difference is reported")
    if r == 0:
        x.check(hash(a) == hash(b), "equal keys hash alike")
    if case[2]:
        x.cover('third')
        c = mk(x, "c", case[2])
        if a < b and b < c:
            x.check(a < c, "the order is transitive")
        if a == b and b == c:
            x.check(a == c, "equality is transitive")
