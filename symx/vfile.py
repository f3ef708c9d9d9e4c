"""In-memory text files for the symbolic side (this file is instrumented when it is loaded)."""


class VFile(object):
    def __init__(self, files, path, mode, newline=None, encoding=None):
        self.files = files
        self.path = path
        self.mode = mode
        self.newline = newline
        self.closed = False
        self.buf = []
        self.obj = None
        self.name = path
        self.lines = None
        if 'r' in mode:
            text = files[path]
            if not isinstance(text, str):
                self.obj = text
                return
            if encoding is not None and encoding.lower().replace('_', '-') == 'utf-8-sig' and text[:1] == '\ufeff':
                text = text[1:]
            if newline is None:
                text = text.replace('\r\n', '\n').replace('\r', '\n')
            self.rest = text
        else:
            if 'a' in mode and path in files:
                self.buf.append(files[path])
            files[path] = "".join(self.buf)

    def read(self, n=-1):
        if n is None or n < 0:
            r = self.rest
            self.rest = ""
        else:
            r = self.rest[:n]
            self.rest = self.rest[n:]
        return r

    def _eol(self, text):
        i = text.find("\n")
        if self.newline != '':
            return i + 1 if i >= 0 else len(text)
        # csv mode: any of \n, \r, \r\n ends a line and is kept
        j = text.find("\r")
        if j >= 0 and (i < 0 or j < i):
            return j + 2 if i == j + 1 else j + 1
        return i + 1 if i >= 0 else len(text)

    def readline(self, n=-1):
        i = self._eol(self.rest)
        r = self.rest[:i]
        self.rest = self.rest[i:]
        return r

    def readlines(self, hint=-1):
        r = []
        while True:
            l = self.readline()
            if len(l) == 0:
                return r
            r.append(l)

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if len(l) == 0:
            raise StopIteration
        return l

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        self.buf.append(s)
        self.files[self.path] = "".join(self.buf)
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class StringIO(VFile):
    """io.StringIO"""
    def __init__(self, text="", newline="\n"):
        VFile.__init__(self, {}, "text", "w")
        self.text = ""
        self.pos = 0
        self.name = None
        if text is not None and len(text):
            self.write(text)
            self.pos = 0

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected")
        self.text = self.text[:self.pos] + s + self.text[self.pos + len(s):]
        self.pos += len(s)
        return len(s)

    def getvalue(self):
        return self.text

    def seek(self, pos, whence=0):
        self.pos = len(self.text) if whence == 2 else pos
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self.text = self.text[:self.pos if size is None else size]

    def read(self, n=-1):
        r = self.text[self.pos:] if n is None or n < 0 else self.text[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self, n=-1):
        r = self.text[self.pos:]
        i = r.find("\n")
        if i >= 0:
            r = r[:i + 1]
        self.pos += len(r)
        return r


class Writer(object):
    """what codecs.getwriter("utf-8") gives for the bytes under a text file"""
    def __init__(self, stream):
        self.stream = stream

    def write(self, s):
        if not isinstance(self.stream, Raw):
            raise TypeError("write() argument must be str, not bytes")
        self.stream.text.write(s)

    def flush(self):
        pass

    def close(self):
        self.stream.text.close()


class Encoded(object):
    """the UTF-8 bytes of a text, as that text"""
    def __init__(self, text):
        self.text = text

    def decode(self, encoding="utf-8", errors="strict"):
        return self.text

    def __len__(self):
        return len(self.text)


class EncodedIO(VFile):
    """io.BytesIO of the UTF-8 bytes of a text"""
    def __init__(self, data):
        VFile.__init__(self, {"data": data.text}, "data", "r", "", "utf-8")


class Raw(object):
    """the bytes under a text file, as the text they stand for"""
    def __init__(self, text):
        self.text = text

    def flush(self):
        pass


class Reader(object):
    """csv.reader for the excel and excel-tab dialects"""
    def __init__(self, f, delimiter, quotechar):
        self.f = iter(f)
        self.delimiter = delimiter
        self.quotechar = quotechar
        self.line_num = 0
        self.dialect = None

    def __iter__(self):
        return self

    def __next__(self):
        fields = []
        cur = ""
        state = 0           # 0 start of record, 1 start of field, 2 in field, 3 in quotes, 4 quote in quotes, 5 after eol
        while True:
            line = next(self.f)
            self.line_num += 1
            for c in line:
                if state == 5:
                    if c == "\n" or c == "\r":
                        continue
                    import csv
                    raise csv.Error("new-line character seen in unquoted field - do you need to open the file with "
                                    "newline=''?")
                if state == 3:
                    if c == self.quotechar:
                        state = 4
                    else:
                        cur += c
                    continue
                if state == 4 and c == self.quotechar:
                    cur += c
                    state = 3
                elif c == "\n" or c == "\r":
                    if state != 0:
                        fields.append(cur)
                        cur = ""
                    state = 5
                elif c == self.delimiter:
                    fields.append(cur)
                    cur = ""
                    state = 1
                elif state <= 1 and c == self.quotechar:
                    state = 3
                else:
                    cur += c
                    state = 2
            if state == 3:
                continue
            if state != 5 and state != 0:
                # end of a line without line end
                fields.append(cur)
            return fields


class DictReader(object):
    def __init__(self, f, fieldnames=None, delimiter=",", quotechar='"', restkey=None, restval=None):
        self.reader = Reader(f, delimiter, quotechar)
        self._fieldnames = fieldnames
        self.restkey = restkey
        self.restval = restval

    @property
    def fieldnames(self):
        if self._fieldnames is None:
            try:
                self._fieldnames = next(self.reader)
            except StopIteration:
                pass
        return self._fieldnames

    @property
    def line_num(self):
        return self.reader.line_num

    def __iter__(self):
        return self

    def __next__(self):
        self.fieldnames
        row = next(self.reader)
        while row == []:
            row = next(self.reader)
        d = {}
        for k, v in zip(self.fieldnames, row):
            d[k] = v
        lf = len(self.fieldnames)
        lr = len(row)
        if lf < lr:
            d[self.restkey] = row[lf:]
        elif lf > lr:
            for k in self.fieldnames[lr:]:
                d[k] = self.restval
        return d
