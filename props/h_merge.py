"""building documents of a few texts for merging, overlaying and flattening"""
from sldr.ldml_merge import LdmlMerge
import h_ldml

MONTH = "dates/calendars/calendar[@type='gregorian']/months/monthContext[@type='format']/monthWidth[@type='wide']/month"
DAY = "dates/calendars/calendar[@type='gregorian']/days/dayContext[@type='format']/dayWidth[@type='wide']/day"
PATHS = {
    'a': "characters/exemplarCharacters[@type='index']",
    'b': "characters/exemplarCharacters[@type='auxiliary']",
    'c': "delimiters/quotationStart",
    'd': MONTH + "[@type='1']",
    'e': MONTH + "[@type='2']",
    'f': DAY + "[@type='sun']",
    'n': "special/sil:note",
    's': "special/sil:external-resources/sil:kbd[@id='k']/sil:url",
    'k': "collations/collation[@type='standard']/cr",
}


def build(texts, drafts, attribs=None, cls=LdmlMerge, lang="aa"):
    """a document with the given texts (None: not there, "": an element without text)"""
    l = cls(None, usedrafts=drafts)
    l.ensure_path("identity/language[@type='%s']" % lang)
    for k in sorted(texts):
        if texts[k] is not None:
            e = l.ensure_path(PATHS[k])[0]
            e.text = texts[k] or None
            if attribs:
                for a, v in attribs.items():
                    e.set(a, v)
    l.normalise(usedrafts=drafts)
    return l


def contents(l):
    """the texts of a document, and what else is there"""
    res = {}
    for k in PATHS:
        es = l.findall(PATHS[k])
        res[k] = es[0].text or "" if len(es) == 1 else None if not es else len(es)
    return res


def full(l):
    """everything, empty elements too"""
    return h_ldml.dump(l.root)


def text(x, name):
    s = x.str(name, 1)
    x.assume(x.or_(x.and_(s >= 'a', s <= 'z'), x.and_(s >= '\u0400', s <= '\u04ff')))
    return s


def maybe(x, name, empty=False):
    """a text, nothing, or an empty element"""
    if not x.bool("has" + name):
        return None
    if empty and x.bool("empty" + name):
        return ""
    return text(x, name)
