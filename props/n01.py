"""The parents of a language tag are the shorter forms of it that stand for something else and qualify."""
import sys
import types

if 'langtag' not in sys.modules:
    m = types.ModuleType('langtag')
    m.langtag = m.lookup = None
    sys.modules['langtag'] = m
from sldr import utils

PROPERTY = 'N01'
BOUNDS = ("tags of 1 to 4 subtags, with and without private use, given as tags or file names; any table of entries: each shorter "
          "form may be missing, stand for the same entry as another or for one of its own, with any script and region "
          "and with or without an SLDR file; every choice of the four options")
ASSUMPTIONS = ["the langtag package is replaced by an arbitrary table of entries", "the tag itself is in the table under its full text, or (if only the nearest is asked for) it is an entry with one of its variants, the region 001 or private use",
               "no directory named sldr is beside the current one"]
COVERS = ['parent', 'no parent', 'two parents', 'same entry', 'missing', 'other script', 'other region', 'no file', 'private', 'unlisted', 'no variant']
TAGS = ["aa", "aa-Latn", "aa-Latn-BB", "aa-Latn-BB-fonipa", "aa-Latn-BB-x-foo", "aa-Latn-BB-x-foo-bar"]


def cases(tier):
    return [[t, to_root, sldr, script, region] for t in (TAGS if tier == 'thorough' else TAGS[:5]) for to_root in (0, 1)
            for sldr in (0, 1) for script, region in ((1, 0), (0, 1), (1, 1))] + \
           [[t, 0, sldr, 1, 0, k] for sldr in (0, 1) for t, k in (("aa-Latn-fonipa", "variant"), ("aa-Latn-001", "001"), ("aa-Latn-x-foo-bar", "private"))]


def unlisted(x, tag, needs_sldr, kind):
    """a tag that is not in the table, but is an entry with something more"""
    x.cover('unlisted')
    s = "aa-Latn"
    own = Entry(s, "Latn", x.str("region", 1), x.bool("sldr"))
    own.variants = [x.str("v%d" % i, 6, dom="fonipax") for i in range(2)]
    table = {s: own}
    if x.bool("more"):
        table["aa"] = Entry("aa", x.choice("script", ["Latn", "Cyrl"]), x.str("region1", 1), x.bool("sldr1"))
    qualifies = own.sldr or not needs_sldr
    if kind == "variant":
        if not ("fonipa" in own.variants):
            x.cover('no variant')
            return
    utils.os = Os
    utils.langtag = lambda t: Tag(t.replace("_", "-"))
    utils.lookup = lambda t, default=None, matchRegions=True, **kw: table.get(t, default)
    asked = x.choice("as", [tag, "some/where/" + tag.replace("-", "_") + ".xml"])
    is_root, root, entry, path = utils.find_parents(asked, to_root=False, needs_sldr=bool(needs_sldr))
    x.observe("parents", [is_root, root, path])
    if qualifies:
        x.check(not is_root and root == s and entry is own and path == [s], "the nearest parent is the entry of which it is a variant")
    else:
        x.cover('no file')
        x.check(is_root or entry.sldr, "a parent has a file if asked")


class Tag(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Entry(object):
    def __init__(self, full, script, region, sldr):
        self.full = full
        self.tag = full
        self.tags = []
        self.script = script
        self.region = region
        self.sldr = sldr

    def __str__(self):
        return self.full


class Path(object):
    @staticmethod
    def basename(p):
        return p.split("/")[-1]

    @staticmethod
    def splitext(p):
        i = p.rfind(".")
        return (p[:i], p[i:]) if i > 0 else (p, "")

    @staticmethod
    def join(*a):
        return "/".join(a)

    @staticmethod
    def isfile(p):
        return False


class Os(object):
    path = Path


def shorter(tag):
    """the shorter forms, longest first, first without the private use"""
    res = []
    i = tag.rfind("-x-")
    if i > 0:
        tag = tag[:i]
        res.append(tag)
    while '-' in tag:
        tag = tag[:tag.rfind("-")]
        res.append(tag)
    return res


def run(x, case):
    if len(case) > 5:
        unlisted(x, case[0], case[2], case[5])
        return
    tag, to_root, needs_sldr, script, region = case
    # script and region are arbitrary texts
    own = Entry(tag, x.str("script", 1), x.str("region", 1), x.bool("sldr"))
    table = {tag: own}
    entries = [own]
    if '-x-' in tag:
        x.cover('private')
    for i, s in enumerate(shorter(tag)):
        k = x.choice("is%d" % i, ["missing", "new"] + list(range(len(entries))))
        if k == "missing":
            x.cover('missing')
            continue
        if k == "new":
            e = Entry(s, x.str("script%d" % i, 1), x.str("region%d" % i, 1), x.bool("sldr%d" % i))
            entries.append(e)
        else:
            e = entries[k]
        table[s] = e
    # what is to be found
    want = []
    last = own
    for s in shorter(tag):
        e = table.get(s, "")
        before = last
        last = e
        if e == "":
            continue
        if e is own or e is before:
            x.cover('same entry')
            continue
        if script and e.script != own.script:
            x.cover('other script')
            continue
        if region and e.region != own.region:
            x.cover('other region')
            continue
        if needs_sldr and not getattr(e, 'sldr', None):
            x.cover('no file')
            continue
        want.append(s)
        if not to_root:
            break
    asked = x.choice("as", [tag, "some/where/" + tag.replace("-", "_") + ".xml"])
    utils.os = Os
    utils.langtag = Tag
    utils.lookup = lambda t, default=None, matchRegions=True, **kw: table.get(t, default)
    if asked != tag:
        table_asked = asked.split("/")[-1][:-4]
        table[table_asked] = own
    is_root, root, entry, path = utils.find_parents(asked, to_root=bool(to_root), needs_sldr=bool(needs_sldr),
                                                    match_script=bool(script), match_region=bool(region))
    x.observe("parents", [is_root, root, path])
    x.check(path == [tag] + want, "the parents are the shorter forms that qualify, nearest first")
    x.cover('two parents' if len(want) > 1 else 'parent' if want else 'no parent')
    x.check(root == (want[-1] if want else tag), "the root is the last parent")
    x.check(entry is table.get(root), "with its entry")
    x.check(is_root == (entry is own), "the tag is its own root if there is no parent")
