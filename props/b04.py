"""Keyboards: backspace takes away what its transforms say, or one character, for good."""
from sldr.ldml_keyboard import Keyboard
import h_kbd
from h_kbd import rule

#xml
PROPERTY = 'B04'
BOUNDS = "up to 5 keystrokes (thorough 6), any of them a backspace, the others any characters; 9 sets of backspace transforms (thorough 12) with sets, replacements, contexts-free and errors, with and without simple and final transforms"
ASSUMPTIONS = []
COVERS = ['one character', 'transform', 'replaced', 'rejected', 'empty', 'typed after', 'simple', 'final']
SETS = {
    'none': ([], []),
    'pair': ([('a b', '')], []),
    'set': ([('ab ^a', 'T')], []),
    'longest': ([('a b', ''), ('c a b', 'dT')], []),
    'error': ([('a a', None), ('a', '')], []),
    'simple': ([('c d', 'T')], [('a b', 'c'), ('c', 'cd', '', 'a')]),
    'simple none': ([], [('a b', 'cT'), ('b', 'd', 'a', '')]),
    'swap': ([('a b', 'bT')], [('c', 'ab')]),
    'same': ([('a b', 'ab')], []),
    'final': ([('c d', 'T')], [('a b', 'c')], [('a', 'x'), ('c a', 'd')]),
    'final none': ([], [], [('a b', 'cT'), ('b', 'd', 'a', '')]),
    'long': ([('a b c', ''), ('b', 'ab')], [('d d', 'abc')]),
}
QUICK = ['none', 'pair', 'set', 'longest', 'error', 'simple', 'simple none', 'final', 'final none']


def cases(tier):
    # which keystrokes are backspaces
    r = []
    for s in (QUICK if tier == 'quick' else sorted(SETS)):
        for p in ["kb", "kkb", "kkbk", "kkkbk", "kkbkb", "bkk", "kkkbb", "kkbbk"] + (["kkkbkb", "kkkkbb", "kkkbbk", "kkbkkb"] if tier == 'thorough' else []):
            r.append([s, p])
    return r


def run(x, case):
    name, pattern = case
    bk, simple = SETS[name][:2]
    final = SETS[name][2] if len(SETS[name]) > 2 else []
    back = [rule(q[0].split(), None if q[1] is None else q[1].replace('T', h_kbd.plain(x, "T")) if 'T' in q[1] else q[1], error=q[1] is None) for q in bk]
    to = [rule(q[0].split(), q[1].replace('T', h_kbd.plain(x, "S")) if 'T' in q[1] else q[1], *[c.split() for c in q[2:]]) for q in simple]
    fin = [rule(q[0].split(), q[1].replace('T', h_kbd.plain(x, "F")) if 'T' in q[1] else q[1], *[c.split() for c in q[2:]]) for q in final]
    keys = [h_kbd.plain(x, "k%d" % i) for i, p in enumerate(pattern) if p == 'k']
    text = "<keyboard>" + h_kbd.keymap(keys)
    if to:
        x.cover('simple')
        text += h_kbd.transforms('transforms type="simple"', to)
    if fin:
        x.cover('final')
        text += h_kbd.transforms('transforms type="final"', fin)
    if back:
        text += h_kbd.transforms('backspaces', back)
    kbd = Keyboard(x.file("kbd.xml", text + "</keyboard>"))
    kept = ""
    typed = ""
    shown = ""
    n = 0
    back_before = False
    for p in pattern:
        if p == 'k':
            typed += keys[n]
            ctxt = kbd.process("K%d" % n, [])
            n += 1
            shown = h_kbd.apply(x, to, kept + typed, start=len(kept))
            if fin:
                shown = h_kbd.apply(x, fin, shown, start=len(kept))
            if back_before:
                x.cover('typed after')
            x.check(not ctxt.error and str(ctxt) == shown, "what is typed is added to what a backspace left")
            continue
        ctxt = kbd.process("BKSP", [])
        # the longest transform that matches the end
        found = None
        for r in back:
            f = r['from']
            if len(f) <= len(shown) and h_kbd.begins(x, f, shown, len(shown) - len(f)) and (found is None or len(f) > len(found['from'])):
                found = r
        if found is not None and found['error']:
            x.cover('rejected')
            x.check(bool(ctxt.error), "a backspace that is an error is rejected")
            x.check(str(ctxt) == "*" + shown + "*", "a rejected backspace takes nothing away")
            continue
        if not shown:
            x.cover('empty')
        if found is not None:
            x.cover('replaced' if found['to'] else 'transform')
            shown = shown[:len(shown) - len(found['from'])] + found['to']
        else:
            x.cover('one character')
            shown = shown[:-1] if shown else shown
        x.check(not ctxt.error and str(ctxt) == shown, "a backspace takes away what its transform says, or one character")
        kept = shown
        typed = ""
        back_before = True
    x.observe("shown", shown)
