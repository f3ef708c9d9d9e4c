"""Keyboards: a key gives what the map for its modifiers says."""
from sldr.ldml_keyboard import Keyboard

#xml
PROPERTY = 'B01'
BOUNDS = "keyboards of up to 3 maps with alternative and optional modifiers, each with the same two keys of any letter; any character as output, written as itself or as an escape; one or two keystrokes with any of 11 sets of modifiers in any order and case; all maps in one file, or some in one or two files it imports"
ASSUMPTIONS = ["no combination of modifiers is in two maps", "the keys of a map differ"]
COVERS = ['base', 'optional', 'alternative', 'unmapped', 'escape', 'second', 'import']
MAPS = [
    ["", "shift"], ["", "shift alt"], ["", "shift+caps?"], ["", "shift+caps? alt"], ["shift? caps", "ctrl+shift?+alt?"], ["", "ctrl+altR", "caps+alt? caps+shift"],
    ["altL? shift", "ctrl", "ctrl+altL"], ["shift+alt+ctrl?", "shift", "alt"], [None, "Shift Caps", "shift+caps"], [None, "ctrlL+ctrlR?+Alt? altR"],
    ["", "shift+caps?+alt?+ctrl?+altR? altR"],
]
TYPED = [[], ["shift"], ["caps"], ["alt", "shift"], ["ctrl", "alt", "Shift"], ["caps", "SHIFT"], ["altR", "ctrl"], ["ctrlR", "ctrlL"], ["altL", "CTRL"], ["alt", "ctrlL", "ctrlR"],
         ["altR", "shift", "ctrl", "caps", "alt"]]


def cases(tier):
    r = []
    for i, m in enumerate(MAPS):
        for j, t in enumerate(TYPED):
            if tier == 'thorough' or (i + j) % 2 == 0:
                r.append([i, j, (i + j // 2) % 4])
    return r


def combos(mods):
    """the sets of modifiers that a map is for"""
    r = []
    for alt in (mods or "").lower().split(" "):
        sets = [[]]
        for m in alt.split("+"):
            if m.endswith("?"):
                sets = sets + [s + [m[:-1]] for s in sets]
            elif m:
                sets = [s + [m] for s in sets]
        r.extend(sets)
    return [sorted(s) for s in r]


def written(x, parts, how):
    """the maps in one file, or some of them in files that it imports, whose names are relative to
    the file that imports them"""
    if how == 0:
        return x.file("kbd.xml", "<keyboard>" + "".join(parts) + "</keyboard>")
    x.cover('import')
    if how == 1:
        x.file("part.xml", "<keyboard>" + parts[-1] + "</keyboard>")
        return x.file("kbd.xml", "<keyboard>" + "".join(parts[:-1]) + '<import path="part.xml"/></keyboard>')
    if how == 2:
        x.file("sub/part.xml", "<keyboard>" + parts[0] + "</keyboard>")
        return x.file("kbd.xml", '<keyboard><import path="sub/part.xml"/>' + "".join(parts[1:]) + "</keyboard>")
    x.file("sub/last.xml", "<keyboard>" + parts[-1] + "</keyboard>")
    x.file("sub/part.xml", '<keyboard>' + "".join(parts[1:-1]) + '<import path="last.xml"/></keyboard>')
    return x.file("kbd.xml", '<keyboard><import path="sub/part.xml"/>' + parts[0] + "</keyboard>")


def run(x, case):
    maps = MAPS[case[0]]
    typed = TYPED[case[1]]
    keys = [x.str("k0", 1, dom="ABCDE") + "0" + x.str("n0", 1, dom="123"), "D07"]
    x.assume(keys[0] != keys[1])
    parts = []
    outs = []
    for i, m in enumerate(maps):
        text = "<keyMap" + ("" if m is None else ' modifiers="' + m + '"') + ">"
        outs.append([])
        for j, k in enumerate(keys):
            c = x.char("c%d%d" % (i, j))
            how = x.choice("how%d%d" % (i, j), ["raw", "u", "brace"]) if i == len(maps) - 1 and j == 0 else "raw"
            if how == "raw":
                x.assume(x.not_(x.isin(c, '\\<>&"')))
                x.assume(ord(c) >= 32)
                x.assume(x.not_(x.isin(c, "\ufffe\uffff")))
                w = c
            else:
                x.cover('escape')
                if how == "u":
                    x.assume(ord(c) < 0x10000)
                w = "\\u%04X" % ord(c) if how == "u" else "\\u{%x}" % ord(c)
            outs[-1].append(c)
            text += '<map iso="' + k + '" to="' + w + '"/>'
        parts.append(text + "</keyMap>")
    kbd = Keyboard(written(x, parts, case[2]))
    mods = sorted(m.lower() for m in typed)
    found = [i for i, m in enumerate(maps) if mods in combos(m)]
    if found == [0]:
        x.cover('base')
    elif found:
        x.cover('alternative' if " " in (maps[found[0]] or "") else 'optional' if "?" in (maps[found[0]] or "") else 'second')
    else:
        x.cover('unmapped')
    which = x.choice("key", [0, 1, 2])
    pressed = (keys + ["F" + x.str("o", 2, dom="0123456789")])[which]
    want = outs[found[0]][which] if found and which < 2 else ""
    got = str(kbd.process(pressed, list(typed)))
    x.observe("got", got)
    x.check(got == want, "a key gives what its map says, or nothing")
    base = [i for i, m in enumerate(maps) if [] in combos(m)]
    more = outs[base[0]][1] if base else ""
    x.check(str(kbd.process(keys[1], [])) == want + more, "the next key is added")
    kbd.initstring()
    res = [str(c) for c in kbd.process_string("[" + " ".join(typed + [pressed]) + "][ " + keys[1] + " ]")]
    x.check(res == [want, want + more], "keystrokes in a text give the same")
