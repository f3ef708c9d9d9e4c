"""Tables over all code points, computed at run time from the real predicates."""
from .ir import IS, IS_ANYCP, MAXCP
import re

_ALL = None


def allchars():
    global _ALL
    if _ALL is None:
        _ALL = "".join(map(chr, range(MAXCP + 1)))
    return _ALL


_charset = {}


def charset_re(cls, flags=0):
    """IS of the code points matched by a single-character regex"""
    key = (cls, int(flags))
    r = _charset.get(key)
    if r is None:
        iv = [(m.start(), m.end() - 1) for m in re.compile('(?:' + cls + ')+', flags).finditer(allchars())]
        r = IS.norm(iv)
        _charset[key] = r
    return r


_tab = {}
_scripts = {}


def tabulate(key, f, dom=None):
    """value -> IS for f over every code point (as 1-char str).  Exceptions become ('!exc', type)."""
    r = _tab.get(key)
    if r is None:
        acc = {}
        last = None
        start = 0
        exc = {}
        for i in range(MAXCP + 1):
            if i == 0xD800:
                pass
            try:
                v = f(chr(i))
                if type(v).__name__ == 'Script':
                    # ICU script objects compare by identity; one per script is enough
                    v = _scripts.setdefault(type(v).getScriptCode(v), v)
            except Exception as e:        # e.g. unicodedata.name on unnamed characters
                v = exc.setdefault(type(e), Exc(type(e), e.args))
            if i == 0:
                last = v
            elif v != last or type(v) is not type(last):
                acc.setdefault((type(last), last), []).append((start, i - 1))
                last = v
                start = i
        acc.setdefault((type(last), last), []).append((start, MAXCP))
        r = tuple((v, IS.norm(iv)) for (t, v), iv in acc.items())
        _tab[key] = r
    return r


class Exc(object):
    def __init__(self, t, args):
        self.t = t
        self.args = args


_map = {}


def charmap(key, f):
    """For str->str per-character maps: dict with
       'delta': {delta: IS} for single-char results, 'multi': {string: IS} otherwise"""
    r = _map.get(key)
    if r is None:
        delta = {}
        multi = {}
        for i in range(MAXCP + 1):
            s = f(chr(i))
            if len(s) == 1:
                delta.setdefault(ord(s) - i, []).append((i, i))
            else:
                multi.setdefault(s, []).append((i, i))
        r = ({k: IS.norm(v) for k, v in delta.items()}, {k: IS.norm(v) for k, v in multi.items()})
        _map[key] = r
    return r
