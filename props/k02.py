"""Escaping text for a tailoring and unescaping it again gives the text."""
from sldr.collation import escape, unescape

#tab unicodedata category
#tab - ud.category
PROPERTY = 'K02'
BOUNDS = "texts of up to 3 characters (thorough 4), each any Unicode scalar value; with and without escaping of marks"
ASSUMPTIONS = []
COVERS = ['hex', 'quote', 'syntax']


def cases(tier):
    r = []
    for n in range(0, 4 if tier != 'thorough' else 5):
        for a in (False, True):
            r.append([n, a])
    return r


SYNTAX = '!"#$%&()*+,-./:;<=>?@[\\]^_`{|}~'


def run(x, case):
    n, allchars = case
    s = x.str("s", n)
    e = escape(s, allchars)
    x.observe("e", e)
    if len(e) > 6:
        x.cover('hex')
    for c in s:
        if c == "'":
            x.cover('quote')
    # no syntax character is left bare
    i = 0
    while i < len(e):
        if e[i] == "\\":
            x.cover('syntax')
            i += 2
            continue
        x.check(x.not_(x.isin(e[i], SYNTAX)), "no syntax character is left unescaped")
        i += 1
    x.check(unescape(e) == s, "unescaping gives the text back")
