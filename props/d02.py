"""The default collation table file is read completely and exactly."""
import os
from sldr import collation, ducet

PROPERTY = 'D02'
BOUNDS = ("files of up to 3 lines: entries of up to 2 code points (4 to 6 hex digits each, any code point) and up to 2 "
          "elements with any 4-digit weights, comment lines, directives, blank lines, trailing comments")
ASSUMPTIONS = ["entries are for different strings"]
COVERS = ['bmp', 'supplementary', 'comment', 'directive', 'contraction', 'variable']
# e: 4-digit code points, s: 5, t: 6; number of elements follows
LINES = ["e1", "s1", "t1", "ee1", "es2", "e2", "e1v", "e2v", "e2w", "ss1", "c", "d", "i", "b"]


def cases(tier):
    r = [[w, l] for w in ("collation", "ducet") for l in LINES]
    r += [[w, l] for w in ("collation", "ducet") for l in ("c,e1", "d,s1", "i,e2", "b,es2", "e1,s1", "s1,e1", "ee1,e1v,t1")]
    if tier == 'thorough':
        r += [[w, a + "," + b] for w in ("collation", "ducet") for a in LINES for b in LINES]
    return r


def run(x, case):
    which, lines = case
    text = ""
    want = []
    for i, l in enumerate(lines.split(",")):
        if l == 'c':
            x.cover('comment')
            text += "# [.0000.0000.0000] 0041 ; x\n"
            continue
        if l == 'd':
            x.cover('directive')
            text += "@version 9.0.0\n"
            continue
        if l == 'i':
            x.cover('directive')
            text += "@implicitweights 17000..18AFF; FB00 # Tangut\n"
            continue
        if l == 'b':
            text += "\n"
            continue
        marks = "*" * 9 if l.endswith("v") else ".*" * 9 if l.endswith("w") else "." * 9
        if "*" in marks:
            x.cover('variable')
        l = l.rstrip("vw")
        key = ""
        cps = []
        for j, k in enumerate(l[:-1]):
            lo, hi, f = {'e': (0, 0xFFFF, "%04X"), 's': (0x10000, 0xFFFFF, "%05X"), 't': (0x100000, 0x10FFFF, "%06X")}[k]
            n = x.int("k%d_%d" % (i, j), lo, hi)
            x.assume(x.not_(x.and_(n >= 0xD800, n < 0xE000)))
            x.cover('bmp' if k == 'e' else 'supplementary')
            cps.append(f % n)
            key += chr(n)
        if len(cps) > 1:
            x.cover('contraction')
        val = []
        t = ""
        for j in range(int(l[-1])):
            v = [x.int("v%d_%d_%d" % (i, j, m), 0, 0xFFFF) for m in range(3)]
            val.append(tuple(v))
            t += "[" + marks[j] + ".".join(["%04X" % n for n in v]) + "]"
        for w in want:
            x.assume(w[0] != key)
        want.append((key, tuple(val)))
        text += " ".join(cps) + "  ; " + t + " # LETTER\n"
    if which == "ducet":
        x.file("allkeys.txt", text)
        old = ducet.__file__
        ducet.__file__ = os.path.join(x.dir(), "ducet.py")
        try:
            got = ducet.readDucet()
        finally:
            ducet.__file__ = old
    else:
        got = collation.readDucet(x.file("allkeys.txt", text))
    x.observe("got", got)
    x.check(len(got) == len(want), "as many entries as the file has")
    for k, v in want:
        x.check(k in got, "every entry is there")
        x.check(x.eq([list(e) for e in got[k]], [list(e) for e in v]), "with its weights")
