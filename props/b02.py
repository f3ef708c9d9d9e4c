"""Keyboards: simple transforms replace the longest match from the left, whatever was typed before."""
from sldr.ldml_keyboard import Keyboard
import h_kbd
from h_kbd import rule

#xml
PROPERTY = 'B02'
BOUNDS = "15 sets (thorough 22) of 1 to 4 transforms with sets, negated sets, contexts before and after, removal, errors and hidden partial matches; up to 4 keystrokes (thorough 5) of any characters, the output compared after every one; any replacement"
ASSUMPTIONS = ["of two transforms that match the same text at least one has a context, and one at most"]
COVERS = ['replaced', 'longer', 'copied', 'context', 'rejected', 'hidden', 'changed later', 'final', 'removed']
SETS = {
    'prefix': ([('a b', 'T'), ('a b c', 'Uv')], {}),
    'gap': ([('a', 'T'), ('a b c', 'U')], {}),
    'overlap': ([('a b', 'T'), ('b c', 'U'), ('c', 'w')], {}),
    'set': ([('ab c', 'T'), ('d', 'U')], {}),
    'negated': ([('^ab c', 'T'), ('a d', 'U')], {}),
    'negated later': ([('^a b', 'T'), ('c d', 'U'), ('c ^ad b', 'w')], {}),
    'before': ([('b', 'T', 'a', ''), ('b', 'U')], {}),
    'after': ([('b', 'T', '', 'c'), ('b b', 'U')], {}),
    'both': ([('b', 'T', 'a', 'c'), ('c', 'U', 'b', ''), ('a', 'w')], {}),
    'sets around': ([('b', 'T', 'ac b', 'cd'), ('b', 'U')], {}),
    'removal': ([('a b', ''), ('b', 'T')], {}),
    'error': ([('a a', None), ('a', 'T'), ('b', 'U')], {}),
    'hidden': ([('a b c', 'T'), ('b b', 'U')], {'hide': True}),
    'final': ([('a', 'bT'), ('b b', 'U')], {'final': [('b b', 'w'), ('T', 'y')]}),
    'chain': ([('a', 'b'), ('b', 'T')], {'final': [('b T', 'x'), ('c', 'U', 'b', '')]}),
    'long': ([('a b c d', 'T'), ('b c', 'U'), ('c', 'w')], {}),
    'hidden set': ([('ab c', 'T'), ('^ac d d', 'U')], {'hide': True}),
    'after two': ([('a', 'T', '', 'b c'), ('b', 'U')], {}),
    'three before': ([('a', 'T', 'b c d', ''), ('a', 'U')], {}),
    'three after': ([('a', 'T', '', 'b c d'), ('c', 'U')], {}),
    'repeat': ([('a a a', 'T'), ('a a', 'U')], {}),
    'error after': ([('b', None, 'a', ''), ('b', 'T')], {}),
}
QUICK = ['prefix', 'gap', 'overlap', 'set', 'negated', 'negated later', 'before', 'both', 'after two', 'removal', 'error', 'hidden', 'final', 'three before', 'three after']


def cases(tier):
    return [[s, 4] for s in QUICK] if tier == 'quick' else [[s, 5 if len(SETS[s][0]) < 3 and 'final' not in SETS[s][1] else 4] for s in SETS]


def rules(x, rs, nm):
    r = []
    for i, q in enumerate(rs):
        to = q[1]
        if to is not None and 'T' in to:
            # any replacement
            to = to.replace('T', h_kbd.plain(x, nm + "T"))
        r.append(rule(q[0].split(), to, *([c.split() for c in q[2:]] if len(q) > 2 else []), error=to is None))
    return r


def run(x, case):
    name, n = case
    rs, more = SETS[name]
    hide = more.get('hide', False)
    simple = rules(x, rs, "s")
    final = None
    if 'final' in more:
        final = [rule(q[0].split(), q[1], *([c.split() for c in q[2:]] if len(q) > 2 else [])) for q in more['final']]
    keys = [h_kbd.plain(x, "k%d" % i) for i in range(n)]
    text = "<keyboard>"
    if hide:
        text += '<settings transformPartial="hide"/>'
    text += h_kbd.keymap(keys) + h_kbd.transforms('transforms type="simple"', simple)
    if final:
        text += h_kbd.transforms('transforms type="final"', final)
    kbd = Keyboard(x.file("kbd.xml", text + "</keyboard>"))
    typed = ""
    last = ""
    for i in range(n):
        want = h_kbd.apply(x, simple, typed + keys[i], hide)
        if want is not None and final:
            x.cover('final')
            want = h_kbd.apply(x, final, want)
        ctxt = kbd.process("K%d" % i, [])
        if want is None:
            x.cover('rejected')
            x.check(bool(ctxt.error), "a keystroke that makes a text in error is rejected")
            x.check(str(ctxt) == "*" + last + "*", "what was there before is shown in error")
            continue
        typed += keys[i]
        x.check(not ctxt.error, "other keystrokes are accepted")
        got = str(ctxt)
        if len(got) < len(typed):
            x.cover('removed' if name == 'removal' else 'hidden' if hide else 'replaced')
        if bool(got == typed):
            x.cover('copied')
        elif len(last) and not bool(got[:len(last)] == last):
            x.cover('changed later')
        x.check(got == want, "the output is that of the whole text that was typed")
        last = got
    x.observe("got", last)
    if any(r['before'] or r['after'] for r in simple):
        x.cover('context')
    if name in ('prefix', 'gap'):
        x.cover('longer')
