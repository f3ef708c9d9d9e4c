"""Model of xml.parsers.expat for documents with symbolic content (instrumented when loaded): a namespace-aware
well-formedness parser without DTDs.  Concrete documents go to the real expat."""
import xml.parsers.expat as _real

error = _real.error
ExpatError = _real.ExpatError
version_info = _real.version_info
model = _real.model
XMLNS = "http://www.w3.org/XML/1998/namespace"
HANDLERS = ('StartElementHandler', 'EndElementHandler', 'CharacterDataHandler', 'CommentHandler',
            'StartNamespaceDeclHandler', 'EndNamespaceDeclHandler', 'ProcessingInstructionHandler',
            'DefaultHandler', 'DefaultHandlerExpand', 'ElementDeclHandler', 'AttlistDeclHandler',
            'StartDoctypeDeclHandler', 'EndDoctypeDeclHandler', 'XmlDeclHandler', 'EntityDeclHandler',
            'ExternalEntityRefHandler', 'StartCdataSectionHandler', 'EndCdataSectionHandler',
            'UnparsedEntityDeclHandler', 'NotationDeclHandler', 'NotStandaloneHandler', 'SkippedEntityHandler')
OPTIONS = ('buffer_text', 'buffer_size', 'ordered_attributes', 'specified_attributes')
NAMED = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}


def ParserCreate(encoding=None, namespace_separator=None, intern=None):
    return Parser(encoding, namespace_separator)


def fail(msg, code=4):
    e = error(msg)
    e.code = code
    e.lineno = 1
    e.offset = 0
    raise e


def isspace(c):
    return c == " " or c == "\n" or c == "\t" or c == "\r"


class Parser(object):
    def __init__(self, encoding, sep):
        for h in HANDLERS:
            setattr(self, h, None)
        self.buffer_text = 0
        self.buffer_size = 8192
        self.ordered_attributes = 0
        self.specified_attributes = 0
        self.encoding = encoding
        self.sep = sep
        self.real = None
        self.got = False
        self.pend = ""
        self.ErrorLineNumber = 1
        self.ErrorColumnNumber = 0
        self.CurrentLineNumber = 1
        self.CurrentColumnNumber = 0
        self.CurrentByteIndex = 0
        self.ErrorCode = 0

    def Parse(self, data, isfinal=False):
        if self.real is None and not self.got:
            if __sx_concrete__(data):
                self.real = _real.ParserCreate(self.encoding, self.sep)
            elif len(data):
                self.got = True
        if self.real is not None:
            for o in OPTIONS:
                setattr(self.real, o, getattr(self, o))
            for h in HANDLERS:
                if getattr(self, h) is not None:
                    setattr(self.real, h, self._forward(h))
            return self.real.Parse(__sx_plain__(data), isfinal)
        self.pend = self.pend + data if not (isinstance(data, bytes) and not data) else self.pend
        if isfinal:
            self._doc(self.pend)
        return 1

    def ParseFile(self, fh):
        return self.Parse(fh.read(), True)

    def _forward(self, h):
        def fwd(*a):
            f = getattr(self, h)
            if f is not None:
                return f(*a)
        return fwd

    def _text(self, t):
        if len(t):
            h = self.CharacterDataHandler
            if h is not None:
                h(t)
            elif self.DefaultHandlerExpand is not None:
                self.DefaultHandlerExpand(t)

    def _unbuffered(self, s, raw=False):
        """lines, ends of lines and references come one by one"""
        part = ""
        i = 0
        while i < len(s):
            c = s[i]
            if c == "\n" or c == "&" and not raw:
                self._text(part)
                part = ""
                j = i + 1
                if c == "&":
                    j = s.find(";", i) + 1
                    if j < 1:
                        fail("not well-formed (invalid token)")
                self._text(s[i:j] if raw else self._decode(s[i:j], False))
                i = j
                continue
            part += c
            i += 1
        self._text(part)

    def _chars(self, s):
        for c in s:
            o = ord(c)
            if o < 0x20:
                if not (o == 9 or o == 10 or o == 13):
                    fail("not well-formed (invalid token)")
            elif o == 0xFFFE or o == 0xFFFF:
                fail("not well-formed (invalid token)")

    def _decode(self, s, attr):
        """references, and white space in attributes"""
        res = ""
        i = 0
        while i < len(s):
            c = s[i]
            if c == "&":
                j = s.find(";", i)
                if j < 0:
                    fail("not well-formed (invalid token)")
                name = s[i + 1:j]
                if name[:2] == "#x":
                    res += chr(int(name[2:], 16))
                elif name[:1] == "#":
                    res += chr(int(name[1:]))
                else:
                    for k in NAMED:
                        if name == k:
                            res += NAMED[k]
                            break
                    else:
                        fail("undefined entity", 11)
                i = j + 1
                continue
            if attr and (c == "\n" or c == "\t"):
                c = " "
            res += c
            i += 1
        return res

    def _name(self, s, i):
        j = i
        while j < len(s):
            c = s[j]
            if isspace(c) or c == "/" or c == ">" or c == "=" or c == "<" or c == '"' or c == "'" or c == "&":
                break
            j += 1
        if j == i:
            fail("not well-formed (invalid token)")
        return s[i:j], j

    def _skip(self, s, i):
        while i < len(s) and isspace(s[i]):
            i += 1
        return i

    def _expand(self, name, ns, attr):
        k = name.find(":")
        if k > 0:
            p = name[:k]
            if p == "xml":
                uri = XMLNS
            elif p in ns:
                uri = ns[p]
            else:
                fail("unbound prefix", 27)
            return uri + self.sep + name[k + 1:]
        if not attr and "" in ns and ns[""]:
            return ns[""] + self.sep + name
        return name

    def _doc(self, s):
        s = s.replace("\r\n", "\n").replace("\r", "\n")
        self._chars(s)
        i = 0
        if s[:5] == "<?xml":
            i = s.find("?>") + 2
        stack = []
        scopes = [{}]
        done = False
        data = ""
        while i < len(s):
            if s[i] != "<":
                j = s.find("<", i)
                if j < 0:
                    j = len(s)
                t = s[i:j]
                if not len(stack):
                    if len(t.strip(" \n\t\r")):
                        fail("junk after document element" if done else "syntax error", 9 if done else 2)
                else:
                    if "]]>" in t:
                        fail("not well-formed (invalid token)")
                    if self.buffer_text:
                        data += self._decode(t, False)
                    else:
                        self._unbuffered(t)
                i = j
                continue
            if s[i:i + 4] == "<!--":
                j = s.find("--", i + 4)
                if j < 0 or s[j + 2:j + 3] != ">":
                    fail("not well-formed (invalid token)")
                if self.CommentHandler is not None or self.DefaultHandlerExpand is not None:
                    self._text(data)
                    data = ""
                if self.CommentHandler is not None:
                    self.CommentHandler(s[i + 4:j])
                i = j + 3
                continue
            if s[i:i + 9] == "<![CDATA[":
                if not len(stack):
                    fail("syntax error", 2)
                j = s.find("]]>", i + 9)
                if j < 0:
                    fail("unclosed CDATA section", 20)
                if self.DefaultHandlerExpand is not None:   # which empties the buffer
                    self._text(data)
                    data = ""
                    self.DefaultHandlerExpand("<![CDATA[")
                if self.buffer_text:
                    data += s[i + 9:j]
                else:
                    self._unbuffered(s[i + 9:j], True)
                if self.DefaultHandlerExpand is not None:
                    self._text(data)
                    data = ""
                    self.DefaultHandlerExpand("]]>")
                i = j + 3
                continue
            if s[i:i + 2] == "<!":
                __sx_unsupported__("document type declaration")
            if s[i:i + 2] == "<?":
                __sx_unsupported__("processing instruction")
            self._text(data)
            data = ""
            if s[i:i + 2] == "</":
                name, i = self._name(s, i + 2)
                i = self._skip(s, i)
                if s[i:i + 1] != ">":
                    fail("not well-formed (invalid token)")
                i += 1
                if not len(stack) or stack[-1] != name:
                    fail("mismatched tag", 7)
                self._end(stack, scopes)
                if not len(stack):
                    done = True
                continue
            if done and not len(stack):
                fail("junk after document element", 9)
            name, i = self._name(s, i + 1)
            raw = []
            closed = False
            while True:
                k = self._skip(s, i)
                if k >= len(s):
                    fail("unclosed token", 5)
                if s[k] == ">":
                    i = k + 1
                    break
                if s[k] == "/":
                    if s[k + 1:k + 2] != ">":
                        fail("not well-formed (invalid token)")
                    closed = True
                    i = k + 2
                    break
                if k == i:
                    fail("not well-formed (invalid token)")
                an, i = self._name(s, k)
                i = self._skip(s, i)
                if s[i:i + 1] != "=":
                    fail("not well-formed (invalid token)")
                i = self._skip(s, i + 1)
                q = s[i:i + 1]
                if not (q == '"' or q == "'"):
                    fail("not well-formed (invalid token)")
                j = s.find(q, i + 1)
                if j < 0:
                    fail("unclosed token", 5)
                v = s[i + 1:j]
                if "<" in v:
                    fail("not well-formed (invalid token)")
                for o, _ in raw:
                    if o == an:
                        fail("duplicate attribute", 8)
                raw.append((an, self._decode(v, True)))
                i = j + 1
            ns = dict(scopes[-1])
            decl = []
            attrs = []
            if self.sep is not None:
                for an, v in raw:
                    if an == "xmlns":
                        ns[""] = v
                        decl.append(None)
                        if self.StartNamespaceDeclHandler is not None:
                            self.StartNamespaceDeclHandler(None, v or None)
                    elif an[:6] == "xmlns:":
                        ns[an[6:]] = v
                        decl.append(an[6:])
                        if self.StartNamespaceDeclHandler is not None:
                            self.StartNamespaceDeclHandler(an[6:], v)
                    else:
                        attrs.append((an, v))
                attrs = [(self._expand(an, ns, True), v) for an, v in attrs]
                for a in range(len(attrs)):
                    for b in range(a):
                        if attrs[a][0] == attrs[b][0]:
                            fail("duplicate attribute", 8)
                full = self._expand(name, ns, False)
            else:
                attrs = raw
                full = name
            stack.append(name)
            scopes.append(ns)
            self.names = getattr(self, 'names', [])
            self.names.append((full, decl))
            if self.StartElementHandler is not None:
                if self.ordered_attributes:
                    l = []
                    for an, v in attrs:
                        l.append(an)
                        l.append(v)
                    self.StartElementHandler(full, l)
                else:
                    self.StartElementHandler(full, dict(attrs))
            if closed:
                self._end(stack, scopes)
                if not len(stack):
                    done = True
        if len(stack) or not done:
            fail("no element found", 3)

    def _end(self, stack, scopes):
        full, decl = self.names.pop()
        if self.EndElementHandler is not None:
            self.EndElementHandler(full)
        if self.EndNamespaceDeclHandler is not None:
            for p in reversed(decl):
                self.EndNamespaceDeclHandler(p)
        stack.pop()
        scopes.pop()
