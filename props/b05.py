"""The keyboard tester reports exactly the events after which the text is not the recorded one."""

#xml
PROPERTY = 'B05'
BOUNDS = ("keyboards of two maps of three keys each with any character as output; one to three events, each of any of the 48 virtual keys or of one of the mapped ones, with any of "
          "the 7 sets of modifiers, and a recorded text of up to 3 characters, any of them; 255 to 257 and 512 failing events")
ASSUMPTIONS = []
COVERS = ['passed', 'failed', 'usvs', 'modifier', 'unmapped', 'empty', 'skipped', 'many', 'white']
KEYS = {"K_K": "C08", "K_X": "B02", "K_A": "C01", "K_1": "E01", "K_SPACE": "A03", "K_HYPHEN": "E11", "K_BKQUOTE": "E00", "K_0": "E10", "K_COLON": "C10",
        "K_M": "B07", "K_BKSLASH": "B00", "K_P": "D10"}
# the rows of a keyboard, from their first key on
ROWS = {"E00": "BKQUOTE 1 2 3 4 5 6 7 8 9 0 HYPHEN EQUAL", "D01": "Q W E R T Y U I O P LBRKT RBRKT", "C01": "A S D F G H J K L COLON QUOTE",
        "B00": "BKSLASH Z X C V B N M COMMA PERIOD SLASH", "A03": "SPACE"}
MODS = {"shift": "shift", "ctrl": "ctrl", "rctrl": "ctrlR", "alt": "alt", "altgr": "altR", "caps": "caps"}
SETS = [[], ["shift"], ["ctrl", "alt"], ["rctrl"], ["altgr", "shift"], ["caps"], ["alt"]]


def table():
    r = {}
    for first, names in ROWS.items():
        for i, n in enumerate(names.split()):
            r["K_" + n] = first[0] + "%02d" % (int(first[1:]) + i)
    return r


def cases(tier):
    r = [["key", i] for i in range(len(ROWS))]
    r += [["one", i] for i in range(len(SETS))]
    r += [["events", n] for n in (2, 3)]
    r += [["odd", 0], ["many", 0]]
    return r


def xml(x, c):
    x.assume(x.not_(x.isin(c, '\\<>&"')))
    x.assume(ord(c) >= 33)
    x.assume(x.not_(x.isin(c, "\ufffe\uffff")))
    return c


def keyboard(x, maps):
    """maps: list of (modifiers, {key: output})"""
    text = "<keyboard>"
    for m, keys in maps:
        text += "<keyMap" + (' modifiers="' + m + '"' if m else "") + ">"
        for k, v in keys:
            text += '<map iso="' + k + '" to="' + v + '"/>'
        text += "</keyMap>"
    return x.file("kbd.xml", text + "</keyboard>")


def event(vkey, mods, text, pad=""):
    r = "<event><key><vkey>" + pad + vkey + pad + "</vkey>"
    if mods is not None:
        r += "<shiftstate>" + "".join("<" + m + "/>" for m in mods) + "</shiftstate>"
    return r + "</key><postcontext><text>" + text + "</text></postcontext></event>"


def test(x, kbd, events, args):
    f = x.file("test.xml", "<test><events>" + "".join(events) + "</events></test>")
    status, out, ns = x.script("kbdtest", [kbd, f] + args)
    x.observe("out", out)
    return status or 0, out


def expected(x, wants, usvs):
    """what is printed of [(number, is, should be)]"""
    r = ""
    for n, a, b in wants:
        r += "Failed test " + str(n) + ": " + a + " should be " + b + "\n"
        if usvs:
            r += " ".join("U+%04X" % ord(c) for c in a) + " should be " + " ".join("U+%04X" % ord(c) for c in b) + "\n"
    return r


def run(x, case):
    kind, arg = case
    if kind == "key":
        # all keys of a row
        c = xml(x, x.char("c"))
        d = xml(x, x.char("d"))
        t = table()
        row = sorted(ROWS)[arg]
        vkey = x.choice("vkey", ["K_" + n for n in ROWS[row].split()])
        kbd = keyboard(x, [("", [(t[vkey], c)])])
        status, out = test(x, kbd, [event(vkey, None, d)], [])
        x.cover('passed' if c == d else 'failed')
        x.check((status == 0) == (c == d), "the status says whether all events passed")
        x.check(out == expected(x, [] if c == d else [(1, c, d)], False), "a key is at its place on the keyboard")
        return
    if kind == "one":
        mods = SETS[arg]
        want = sorted(MODS[m] for m in mods)
        c = xml(x, x.char("c"))
        d = xml(x, x.char("d"))
        x.assume(c != d)
        t = xml(x, x.char("t"))
        # two maps: the one for these modifiers and another
        kbd = keyboard(x, [("+".join(want), [("C01", c)]), ("ctrlL" if want else "shift", [("C01", d)])])
        usvs = x.choice("usvs", [False, True])
        if mods:
            x.cover('modifier')
        if usvs:
            x.cover('usvs')
        ms = mods if mods else x.choice("none", [None, []])
        status, out = test(x, kbd, [event("K_A", ms, t)], ["--usvs"] if usvs else [])
        x.check((status == 0) == (c == t), "the status says whether the event passed")
        x.check(out == expected(x, [] if c == t else [(1, c, t)], usvs), "what a key with modifiers gives is compared")
        return
    if kind == "events":
        outs = [xml(x, x.char("c%d" % i)) for i in range(2)]
        up = xml(x, x.char("up"))
        kbd = keyboard(x, [("", [("C01", outs[0]), ("E01", outs[1])]), ("shift", [("C01", up)])])
        events = []
        sofar = ""
        wants = []
        for i in range(arg):
            k = x.choice("k%d" % i, ["K_A", "K_1", "shift", "K_SLASH"])
            sofar += {"K_A": outs[0], "K_1": outs[1], "shift": up, "K_SLASH": ""}[k]
            if k == "K_SLASH":
                x.cover('unmapped')
            if i == arg - 1:
                n = x.choice("n", [0, 1, len(sofar)] if len(sofar) > 1 else [0, 1])
                rec = "".join(xml(x, x.char("t%d" % j)) for j in range(n))
            else:
                rec = x.choice("r%d" % i, [sofar, sofar + "!", ""])
            if rec == "":
                x.cover('empty')
            events.append(event("K_A" if k == "shift" else k, ["shift"] if k == "shift" else [], rec))
            if rec != sofar:
                wants.append((i + 1, sofar, rec))
        usvs = arg == 2 and x.choice("usvs", [False, True])
        status, out = test(x, kbd, events, ["--usvs"] if usvs else [])
        x.cover('failed' if wants else 'passed')
        x.check((status == 0) == (not wants), "the status says whether all events passed")
        x.check(out == expected(x, wants, usvs), "the events that fail are printed with what is there and what should be, and no others")
        return
    if kind == "odd":
        # events without a key or without a text to compare
        c = xml(x, x.char("c"))
        t = [xml(x, x.char("t%d" % i)) for i in range(2)]
        kbd = keyboard(x, [("", [("C01", c)])])
        odd = x.choice("odd", ["nokey", "novkey", "notext", "white"])
        pad = "\n  " if odd == "white" else ""
        first = {"nokey": "<event><postcontext><text>" + t[0] + "</text></postcontext></event>",
                 "novkey": "<event><key><shiftstate/></key><postcontext><text>" + t[0] + "</text></postcontext></event>",
                 "notext": "<event><key><vkey>K_A</vkey></key><postcontext/></event>",
                 "white": event("K_A", [], t[0], pad)}[odd]
        x.cover('white' if odd == "white" else 'skipped')
        status, out = test(x, kbd, [first, event("K_A", [], t[1])], [])
        wants = []
        if odd == "white" and c != t[0]:
            wants.append((1, c, t[0]))
        if odd == "notext" or odd == "white":
            # what is typed is not typed again, only compared
            second = c + c if odd == "white" else None
        else:
            second = c
        if second is None:
            # without a text nothing is compared; whether the key is typed is not said
            x.assume(t[1] != c)
            x.check(status != 0, "the second event fails")
            return
        if second != t[1]:
            wants.append((2, second, t[1]))
        x.check((status == 0) == (not wants), "the status says whether all events passed")
        x.check(out == expected(x, wants, False), "events without a key or a text to compare are left out")
        return
    # many failures
    n = x.choice("count", [255, 256, 257, 512])
    x.cover('many')
    c = xml(x, x.char("c"))
    x.assume(c != "!")
    kbd = keyboard(x, [("", [("C01", c)])])
    status, out = test(x, kbd, [event("K_SLASH", [], "!")] * n, [])
    x.check(status % 256 != 0, "a system sees eight bits of a status, and they say that events failed")
    x.check(out.count("Failed test") == n, "all are printed")
