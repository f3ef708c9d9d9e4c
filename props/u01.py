"""Unicode set text written for a list of strings reads back as exactly those strings."""
from sldr import UnicodeSets as US
from sldr.ldml_exemplars import UCD

#tab - Char.charType
#tab - Char.hasBinaryProperty
#tab - Char.getCombiningClass
#tab - Char.getIntPropertyValue
PROPERTY = 'U01'
ucd = UCD()
BOUNDS = ("quick: one string of 1-3 characters, two strings of 1 character; thorough: also one string of 4, lists of "
          "2+1, 1+1+1; every character is any Unicode scalar value")
ASSUMPTIONS = ["ICU character properties are tabulated from the installed library at run time"]
COVERS = ['roundtrip']


def cases(tier):
    r = ["1", "2", "3", "1,1"]
    if tier == 'thorough':
        r += ["2,1", "1,1,1", "4"]
    return r


def run(x, case):
    strs = []
    for k, part in enumerate(case.split(",")):
        strs.append(x.str("s%d" % k, int(part)))
    text = US.list2us(strs, ucd)
    x.observe("text", text)
    back = US.us2list(text)
    x.observe("back", set(back))
    x.cover('roundtrip')
    x.check(set(back) == set(strs), "reads back the same strings")
