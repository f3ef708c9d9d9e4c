"""Harness interface.  The same harness source runs symbolically (instrumented) and concretely."""
import json
import os
import shutil
import tempfile
from fractions import Fraction


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class Concrete(object):
    """Replay: inputs come from a dict."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.scratch = None
        self.observed = []
        self.checked = 0

    def _v(self, name):
        return self.values[name]

    def char(self, name, dom=None, pick=None):
        return chr(self._v(name))

    def str(self, name, n, dom=None, pick=None):
        return "".join(chr(self._v("%s.%d" % (name, i))) for i in range(n))

    def int(self, name, lo=None, hi=None, pick=None):
        return self._v(name)

    def real(self, name):
        return float(Fraction(self._v(name)))

    def bool(self, name):
        return bool(self._v(name))

    def choice(self, name, options):
        options = list(options)
        return options[self._v(name)]

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label):
        self.checked += 1
        if not c:
            raise CheckFailed(label)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        """equality as one condition"""
        return a == b

    def and_(self, *a):
        return all(a)

    def or_(self, *a):
        return any(a)

    def not_(self, a):
        return not a

    def isin(self, ch, chars):
        """ch (one character) is one of the characters of IS/str chars"""
        return (ord(ch) if isinstance(ch, str) else ch) in chars if not isinstance(chars, str) else ch in chars

    def cover(self, label):
        pass

    def observe(self, name, v):
        self.observed.append((name, jsonable(v)))

    def is_sym(self, v):
        return False

    # files, in a scratch directory that replay.py removes
    def dir(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix='sxr_')
        return self.scratch

    def path(self, name):
        p = os.path.join(self.dir(), name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def file(self, name, text):
        p = self.path(name)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        return p

    def jsonfile(self, name, obj):
        return self.file(name, json.dumps(obj))

    def listfiles(self):
        """all files there are"""
        return sorted(os.path.join(d, f) for d, ds, fs in os.walk(self.dir()) for f in fs)

    def script(self, name, argv, stubs=None):
        """run a script of the repository with these arguments and other modules in the place of some that it imports;
        gives its exit status, what it printed and its variables"""
        import io
        import sys
        import types
        fname = os.path.join(os.environ.get('SX_REPO', '/repo'), 'scripts', name)
        with open(fname, encoding='utf-8') as f:
            code = compile(f.read(), fname, 'exec', dont_inherit=True)
        saved = {k: sys.modules.get(k) for k in (stubs or {})}
        for k, d in (stubs or {}).items():
            sys.modules[k] = types.ModuleType(k)
            sys.modules[k].__dict__.update(d)
        argv0, out0, cwd = sys.argv, sys.stdout, os.getcwd()
        sys.argv = [fname] + argv

        class Raw(io.BytesIO):
            kept = None

            def close(self):
                if not self.closed:
                    self.kept = self.getvalue()
                io.BytesIO.close(self)
        raw = Raw()
        out = sys.stdout = io.TextIOWrapper(raw, encoding='utf-8', newline='', write_through=True)
        ns = {'__name__': '__main__', '__file__': fname}
        status = 0
        os.chdir(self.dir())
        try:
            exec(code, ns)
        except SystemExit as e:
            status = 0 if e.code is None else e.code
        finally:
            sys.argv, sys.stdout = argv0, out0
            os.chdir(cwd)
            for k, m in saved.items():
                if m is None:
                    del sys.modules[k]
                else:
                    sys.modules[k] = m
        return status, (raw.kept if raw.closed else raw.getvalue()).decode('utf-8'), ns

    def encoded(self, text):
        """the UTF-8 bytes of a text"""
        return text.encode('utf-8')

    def readfile(self, path):
        with open(path, encoding='utf-8', newline='') as f:
            return f.read()

    def done(self):
        if self.scratch is not None:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None


def jsonable(v, depth=8):
    if depth < 0:
        return '...'
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return round(v, 9)
    if isinstance(v, Fraction):
        return round(float(v), 9)
    if isinstance(v, dict):
        return {'dict': sorted(([jsonable(k, depth - 1), jsonable(x, depth - 1)] for k, x in v.items()), key=repr)}
    if isinstance(v, (set, frozenset)):
        return {'set': sorted((jsonable(x, depth - 1) for x in v), key=repr)}
    if isinstance(v, (list, tuple)):
        return [jsonable(x, depth - 1) for x in v]
    return '<%s>' % type(v).__name__
