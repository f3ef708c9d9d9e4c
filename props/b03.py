"""Keyboards: characters are put in the order that the reorders give, run by run."""
from sldr.ldml_keyboard import Keyboard
import h_kbd

#xml
PROPERTY = 'B03'
BOUNDS = "up to 4 keystrokes (thorough 5) of bases, marks of two orders, marks that can carry tertiaries, tertiaries, prebases and other characters in alphabets of up to 5; any orders from 1 to 9; the output compared after every keystroke; with and without transforms before and after"
ASSUMPTIONS = []
COVERS = ['tertiary first', 'swapped', 'tertiary', 'prebase', 'no base', 'two runs', 'equal orders', 'pair', 'transform', 'final', 'list']
# b c bases; m n marks; h mark that can carry tertiaries; t u tertiaries; p q prebases; x anything else; k b together: k a mark, b a base;
# z y v together: three marks of which the last two have the same order, y alone a mark
ALPHABETS = ["bmn", "bmt", "btu", "bhmt", "bpm", "bpq", "bcm", "bxmp", "kbm", "bhtu", "phb", "bmnp", "zyvb", "zymb", "tpm"]


def cases(tier):
    r = [[a, 4 if len(a) < 4 else 3, ""] for a in ALPHABETS]
    r += [["zyvb", 4, ""]]
    r += [["bmn", 3, "simple"], ["bpm", 3, "simple"], ["bmn", 3, "final"], ["bpm", 4, "final"]]
    if tier == 'thorough':
        r = [[a, 5 if len(a) < 4 else 4, ""] for a in ALPHABETS] + r[len(ALPHABETS):] + [["bmt", 4, "simple"], ["bpm", 4, "simple"], ["bhtu", 4, "final"]]
    return r


def reorder(x, s, order, pair):
    """the text in order, by its definition"""
    # in a pair of k and b the k is a mark that goes last; elsewhere a k is a base
    kind = []
    ords = []
    three = 0
    for i, c in enumerate(s):
        if s[i:i + 3] == "zyv" and "zyv" in order:
            three = 3
            x.cover('list')
        if three:
            ords.append(order["zyv"][0 if three == 3 else 1])
            kind.append('m')
            three -= 1
            continue
        ords.append(order.get(c, 0))
        if c == 'y' and c in order:
            kind.append('m')
        elif c == 'k':
            kind.append('m' if i + 1 < len(s) and s[i + 1] == 'b' else 'x')
        elif c in 'mnhtupq':
            kind.append('m' if c in 'mn' else 't' if c in 'tu' else 'p' if c in 'pq' else 'h')
        else:
            kind.append('b')
    out = ""
    i = 0
    # what comes before the first run stays
    while i < len(s) and kind[i] in 'mh':
        out += s[i]
        i += 1
    if i < len(s) and kind[i] == 't':
        # nothing to go with: as a base
        x.cover('tertiary first')
        kind[i] = 'x'
    runs = []
    begun = False
    for j in range(i, len(s)):
        if not runs or (begun and kind[j] in 'bxp'):
            runs.append([])
            begun = False
        runs[-1].append(j)
        if kind[j] != 'p':
            begun = True
    if len(runs) > 1:
        x.cover('two runs')
    for r in runs:
        units = []
        if not any(kind[j] in 'bx' for j in r):
            x.cover('no base')
            units.append([0, True, "\u25cc", []])
        for j in r:
            if kind[j] == 't':
                x.cover('tertiary')
                [u for u in units if u[1]][-1][3].append((ords[j], s[j]))
            elif kind[j] in 'bx':
                units.append([0, True, s[j], []])
            else:
                if kind[j] == 'p':
                    x.cover('prebase')
                units.append([ords[j], kind[j] == 'h', s[j], []])
        text = ""
        for u in insertion(units):
            text += u[2]
            for t in insertion(u[3]):
                text += t[1]
        out += text
    return out


def insertion(items):
    """stable order by the first part"""
    res = []
    for it in items:
        k = len(res)
        while k > 0 and it[0] < res[k - 1][0]:
            k -= 1
        res.insert(k, it)
    return res


def run(x, case):
    alphabet, n, more = case
    order = {}
    text = "<keyboard>" + h_kbd.keymap([])[:-9]
    for c in "bcmnhtupqkzyv":
        text += '<map iso="' + c + '" to="' + c + '"/>'
    other = h_kbd.plain(x, "x") if 'x' in alphabet else 'x'
    x.assume(x.not_(x.isin(other, "bcmnhtupqkzyv")))
    text += '<map iso="x" to="' + other + '"/></keyMap>'
    if more == "simple":
        # b typed twice is a base with a mark; the mark n then p is another base
        text += '<transforms type="simple"><transform from="bb" to="bm"/><transform from="mb" to="bm"/></transforms>'
    if more == "final":
        text += '<transforms type="final"><transform from="bm" to="m"/><transform from="bp" to="B"/></transforms>'
    text += "<reorders>"
    for c in alphabet:
        if c == 'z':
            d = [x.str("oz%d" % i, 1, dom="123456789") for i in range(2)]
            if 'v' in alphabet:
                order["zyv"] = [int(o) for o in d]
                text += '<transform from="zyv" order="' + d[0] + " " + d[1] + '"/>'
        if c in 'mnhtupqky':
            d = x.str("o" + c, 1, dom="123456789") if c != 'k' else "9"
            order[c] = int(d)
            text += '<transform from="' + ("kb" if c == 'k' else c) + '" '
            if c in 'tu':
                text += 'tertiary="' + d + '"/>'
            else:
                text += 'order="' + d + (" 0" if c == 'k' else "") + '"' + (' tertiary_base="true"' if c == 'h' else ' prebase="true"' if c in 'pq' else "") + "/>"
    kbd = Keyboard(x.file("kbd.xml", text + "</reorders></keyboard>"))
    typed = ""
    got = ""
    for i in range(n):
        c = alphabet[x.choice("k%d" % i, list(range(len(alphabet))))]
        typed += other if c == 'x' else c
        before = typed
        if more == "simple":
            x.cover('transform')
            before = h_kbd.apply(x, [h_kbd.rule(["b", "b"], "bm"), h_kbd.rule(["m", "b"], "bm")], typed)
        want = reorder(x, before, order, 'k' in alphabet)
        if more == "final":
            x.cover('final')
            want = h_kbd.apply(x, [h_kbd.rule(["b", "m"], "m"), h_kbd.rule(["b", "p"], "B")], want)
        got = str(kbd.process(c, []))
        x.check(got == want, "the output is the text in order")
    if 'k' in alphabet and "kb" in typed:
        x.cover('pair')
    if got != typed:
        x.cover('swapped')
    if 'm' in order and 'n' in order and order['m'] == order['n']:
        x.cover('equal orders')
    x.observe("got", got)
