"""Everything that must not appear raw in written set text is written as a hex escape."""
from icu import Char, UCharCategory, UProperty
from sldr import UnicodeSets as US
from sldr.ldml_exemplars import UCD

#tab - Char.charType
#tab - Char.hasBinaryProperty
#tab - Char.getCombiningClass
#tab - Char.getIntPropertyValue
PROPERTY = 'U02'
ucd = UCD()
BOUNDS = ("one string of 1-3 characters (thorough: 4), every character any Unicode scalar value; two strings of one "
          "character")
ASSUMPTIONS = ["ICU character properties are tabulated from the installed library at run time"]
COVERS = ['escaped', 'plain']


def cases(tier):
    return ["1", "2", "1,1", "3"] + (["2,1", "4"] if tier == 'thorough' else [])


HIDDEN = (UCharCategory.FORMAT_CHAR, UCharCategory.SPACE_SEPARATOR, UCharCategory.PRIVATE_USE_CHAR)
MARKS = (UCharCategory.NON_SPACING_MARK, UCharCategory.COMBINING_SPACING_MARK, UCharCategory.ENCLOSING_MARK)


def needs(c, prev):
    t = Char.charType(c)
    if t in HIDDEN or Char.hasBinaryProperty(c, UProperty.DEFAULT_IGNORABLE_CODE_POINT):
        return True
    return t in MARKS and (prev is None or prev == ' ')


def run(x, case):
    strs = [x.str("s%d" % k, int(n)) for k, n in enumerate(case.split(","))]
    text = US.list2us(strs, ucd)
    x.observe("text", text)
    exp = []
    for s in strs:
        r = ""
        prev = None
        for c in s:
            if needs(c, prev):
                x.cover('escaped')
                n = ord(c)
                r += ("\\u%04x" % n) if n < 0x10000 else ("\\U%08x" % n)
            else:
                x.cover('plain')
                r += ("\\" + c) if c in "[]{}\\&-|^$:" else c
            prev = c
        exp.append("{" + r + "}" if len(s) > 1 else r)
    x.check(text == "[" + " ".join(exp) + "]", "text is escaped as required and nothing else is changed")
