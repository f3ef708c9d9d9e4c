"""building, writing, reading and comparing LDML documents"""
import re
from sldr.ldml import Ldml

Ldml.ReadMetadata()     # once for all paths
Ldml.ReadSupplementalData()
SIL = "{urn://www.sil.org/ldml/0.1}"


def xmlchars(x, s):
    """every character can occur in an XML document"""
    for c in s:
        n = ord(c)
        x.assume(x.or_(n >= 0x20, n == 9, n == 10, n == 13))
        x.assume(x.not_(x.and_(n >= 0xD800, n < 0xE000)))
        x.assume(n != 0xFFFE and n != 0xFFFF)


def dump(e):
    return [e.tag, sorted([k, v] for k, v in e.attrib.items()), e.text or "", [dump(c) for c in e]]


def comments(e):
    res = list(getattr(e, 'comments', []))
    for c in e:
        res.extend(comments(c))
    res.extend(getattr(e, 'commentsafter', []))
    return res


def write(l, **kw):
    out = []
    l.serialize_xml(out.append, **kw)
    return "".join(out)


def lines(t):
    """text as it is after normalisation"""
    return re.sub(r'[ \t]*\n[ \t]*', '\n', t.strip(' \t\r\n'))
