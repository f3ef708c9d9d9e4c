"""Reference for keyboard transforms and making of keyboard files."""


def rule(f, to, before="", after="", error=False):
    """f: list of 'abc' (one of) or '^abc' (any but)"""
    return {'from': f, 'to': to, 'before': before, 'after': after, 'error': error}


def pattern(f):
    return "".join(s if len(s) == 1 else "[" + s + "]" for s in f)


def member(x, c, s):
    if s[0] == '^' and len(s) > 1:
        return x.not_(x.isin(c, s[1:]))
    return x.isin(c, s)


def begins(x, f, s, i):
    """does s from i match f as far as it goes?"""
    for k, st in enumerate(f):
        if i + k >= len(s):
            break
        if not member(x, s[i + k], st):
            return False
    return True


def context(x, r, s, i, n):
    b, a = r['before'], r['after']
    if b and (i < len(b) or not all(bool(member(x, s[i - len(b) + k], st)) for k, st in enumerate(b))):
        return False
    if a and (i + n + len(a) > len(s) or not all(bool(member(x, s[i + n + k], st)) for k, st in enumerate(a))):
        return False
    return True


def best(x, rules, s, i):
    """the rule that applies at i: the longest, one with a context before one without"""
    found = None
    for r in rules:
        n = len(r['from'])
        if i + n > len(s) or not begins(x, r['from'], s, i) or not context(x, r, s, i, n):
            continue
        rank = (n, 1 if r['before'] or r['after'] else 0)
        if found is None or rank > found[0]:
            found = (rank, r)
    return found[1] if found else None


def apply(x, rules, s, hide=False, start=0):
    """text after the rules, or None for an error; what is before start is kept"""
    out = s[:start]
    i = start
    while i < len(s):
        if hide and any(len(r['from']) > len(s) - i and begins(x, r['from'], s, i) for r in rules):
            break
        r = best(x, rules, s, i)
        if r is None:
            out += s[i]
            i += 1
        else:
            if r['error']:
                return None
            out += r['to']
            i += len(r['from'])
    return out


def transforms(tag, rules):
    text = "<" + tag + ">"
    for r in rules:
        text += '<transform from="' + pattern(r['from']) + '"'
        if r['error']:
            text += ' error="fail"'
        else:
            text += ' to="' + r['to'] + '"'
        if r['before']:
            text += ' before="' + pattern(r['before']) + '"'
        if r['after']:
            text += ' after="' + pattern(r['after']) + '"'
        text += "/>"
    return text + "</" + tag.split()[0] + ">"


def keymap(keys):
    return "<keyMap>" + "".join('<map iso="K' + str(i) + '" to="' + c + '"/>' for i, c in enumerate(keys)) + "</keyMap>"


def plain(x, nm, dom=None):
    """a character that can stand in an attribute and a pattern as it is"""
    c = x.char(nm, dom=dom)
    if dom is None:
        x.assume(x.not_(x.isin(c, '\\<>&"\ufffe\uffff')))
        x.assume(ord(c) >= 32)
    return c
