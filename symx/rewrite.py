"""AST instrumentation of the source under test and module loading."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import os
import sys
import types
from . import runtime

SX = '__sx__'


def _attr(name):
    return ast.Attribute(ast.Name(SX, ast.Load()), name, ast.Load())


def _call(name, args, keywords=()):
    return ast.Call(_attr(name), list(args), list(keywords))


NOCALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', '__import__', 'dir', 'breakpoint'}


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.classes = []

    def mangle(self, name):
        if self.classes and name.startswith('__') and not name.endswith('__'):
            c = self.classes[-1].lstrip('_')
            if c:
                return '_' + c + name
        return name

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            # evaluation order: left operand first, as in the source
            return ast.copy_location(
                _call('in_' if isinstance(n.ops[0], ast.In) else 'notin_', [n.left, n.comparators[0]]), n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) \
                and isinstance(n.comparators[0].value, bool):
            r = ast.copy_location(_call('isbool', [n.left, n.comparators[0]]), n)
            if isinstance(n.ops[0], ast.IsNot):
                r = ast.copy_location(_call('not_', [r]), n)
            return r
        if len(n.ops) > 1 and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops) \
                and all(isinstance(c, (ast.Name, ast.Constant, ast.Attribute)) for c in n.comparators[1:]):
            return ast.copy_location(_call('chain', [ast.Constant(tuple(type(o).__name__ for o in n.ops)), n.left] + n.comparators), n)
        return n

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in NOCALL:
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute):
            return ast.copy_location(_call('callm', [f.value, ast.Constant(self.mangle(f.attr))] + n.args, n.keywords), n)
        return ast.copy_location(_call('call', [f] + n.args, n.keywords), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            s = n.slice
            return ast.copy_location(_call('getitem', [n.value, _slice(s)]), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and \
                not isinstance(n.targets[0].slice, ast.Slice):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(_call('setitem_', [n.value, t.value, t.slice])), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call('mod', [n.left, n.right]), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(_call('fstr', parts), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append(ast.Tuple([ast.Constant('*'), v], ast.Load()))
            else:
                items.append(ast.Tuple([ast.Constant('k'), k, v], ast.Load()))
        if len(items) > 200:
            # too many positional arguments are fine in CPython, keep as one list
            return ast.copy_location(_call('mkdict_items', [ast.Starred(ast.List(items, ast.Load()), ast.Load())]), n)
        return ast.copy_location(_call('mkdict_items', items), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(_call('mkset', [ast.List(n.elts, ast.Load())]), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        return ast.copy_location(_call('mkdict', [g]), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(_call('mkset', [ast.GeneratorExp(n.elt, n.generators)]), n)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.copy_location(ast.Name('Exception', ast.Load()), n)
        elif isinstance(n.type, ast.Name) and n.type.id == 'BaseException':
            n.type.id = 'Exception'
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.copy_location(ast.Expr(_call('tick', [])), n))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.copy_location(ast.Expr(_call('tick', [])), n))
        return n

    def visit_ClassDef(self, n):
        self.classes.append(n.name)
        deco = n.decorator_list
        n.decorator_list = []
        self.generic_visit(n)
        n.decorator_list = deco
        self.classes.pop()
        n.bases = [b if isinstance(b, ast.Starred) else _call('base', [b]) for b in n.bases]
        return n

    # annotations and decorators are left alone
    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def _func(self, n):
        r = n.returns
        deco = n.decorator_list
        n.returns = None
        n.decorator_list = []
        self.generic_visit(n)
        n.returns = r
        n.decorator_list = deco
        return n

    def visit_FunctionDef(self, n):
        return self._func(n)


def _slice(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(_attr('slice'), [s.lower or none, s.upper or none, s.step or none], [])
    return s


CMP = {'In': lambda a, b: runtime.contains(b, a), 'NotIn': lambda a, b: runtime.notcontains(b, a), 'Eq': operator.eq, 'NotEq': operator.ne,
       'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge, 'Is': operator.is_, 'IsNot': operator.is_not}


class SX_NS(object):
    call = staticmethod(runtime.call)
    callm = staticmethod(runtime.callm)
    getitem = staticmethod(runtime.getitem)
    mod = staticmethod(runtime.mod)
    fstr = staticmethod(runtime.fstr)
    mkdict = staticmethod(runtime.mkdict)
    mkdict_items = staticmethod(runtime.mkdict_items)
    mkset = staticmethod(runtime.mkset)
    tick = staticmethod(runtime.tick)
    isbool = staticmethod(runtime.isbool)
    not_ = staticmethod(runtime.values.not_)
    base = staticmethod(runtime.base)
    slice = slice

    @staticmethod
    def chain(ops, *vals):
        r = True
        for o, a, b in zip(ops, vals, vals[1:]):
            r = CMP[o](a, b)
            if not r:
                return r
        return r

    @staticmethod
    def in_(x, c):
        return runtime.contains(c, x)

    @staticmethod
    def notin_(x, c):
        return runtime.notcontains(c, x)

    @staticmethod
    def setitem_(v, o, k):
        runtime.setitem(o, k, v)


def instrument(src, fname):
    tree = ast.parse(src, fname)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, 'exec', dont_inherit=True)


# ------------------------------------------------------------------ imports

STD = {}          # dotted name -> instrumented stand-in module


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level > 0 and globals is not None and PKG:
        pkg = globals.get('__package__') or ''
        base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
        full = base + ('.' + name if name else '')
        if full in STD or full in PKG:
            return sx_import(full, globals, locals, fromlist or ('_',), 0)
    if level == 0:
        if name in STD:
            m = STD[name]
            if fromlist or '.' not in name:
                return m
            top = name.split('.')[0]
            return STD.get(top) or builtins.__import__(top)
        if fromlist and name in PKG:
            # from xml.etree import ElementTree
            m = builtins.__import__(name, globals, locals, fromlist, level)
            if any(name + '.' + x in STD for x in fromlist):
                p = types.ModuleType(name)
                p.__dict__.update(m.__dict__)
                for x in fromlist:
                    if name + '.' + x in STD:
                        setattr(p, x, STD[name + '.' + x])
                return p
            return m
    return builtins.__import__(name, globals, locals, fromlist, level)


PKG = set()


def register_std(name, module):
    STD[name] = module
    if '.' in name:
        pkg, _, leaf = name.rpartition('.')
        PKG.add(pkg)
        # proxies for the parents so that "import a.b.c as x" resolves
        parts = name.split('.')
        for i in range(1, len(parts)):
            pn = ".".join(parts[:i])
            if pn not in STD or not getattr(STD[pn], '__sx_proxy__', False):
                real = importlib.import_module(pn)
                p = types.ModuleType(pn)
                p.__dict__.update(real.__dict__)
                p.__sx_proxy__ = True
                STD[pn] = p
        for i in range(1, len(parts)):
            pn = ".".join(parts[:i])
            cn = ".".join(parts[:i + 1])
            setattr(STD[pn], parts[i], STD[cn])


def builtins_dict():
    b = dict(builtins.__dict__)
    b['__import__'] = sx_import
    return b


def exec_module(mod, src, fname):
    code = instrument(src, fname)
    mod.__dict__['__builtins__'] = builtins_dict()
    mod.__dict__[SX] = SX_NS
    exec(code, mod.__dict__)
    return mod


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        exec_module(module, src, self.path)


class Finder(importlib.abc.MetaPathFinder):
    """instrumented import of selected packages from a source root"""
    def __init__(self, roots):
        self.roots = roots       # {top-level package name: directory that contains it}

    def find_spec(self, name, path=None, target=None):
        # whole packages, or single modules of packages
        root = self.roots.get(name.split('.')[0]) or self.roots.get(name)
        if root is None:
            return None
        p = os.path.join(root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            spec = importlib.util.spec_from_file_location(name, f, loader=Loader(f), submodule_search_locations=[p])
            return spec
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_file_location(name, p + '.py', loader=Loader(p + '.py'))
        return None


def load_std(name, alias=None, patch=None):
    """instrumented copy of a pure-Python standard library module"""
    real = importlib.import_module(name)
    fname = real.__file__
    with open(fname, encoding='utf-8') as f:
        src = f.read()
    if patch:
        src = patch(src)
    m = types.ModuleType(name)
    m.__file__ = fname
    m.__package__ = name.rpartition('.')[0] or None
    exec_module(m, src, fname)
    register_std(name, m)
    return m


def load_file(name, path, patch=None):
    """instrumented module from any source file (scripts without .py included)"""
    with open(path, encoding='utf-8') as f:
        src = f.read()
    if patch:
        src = patch(src)
    m = types.ModuleType(name)
    m.__file__ = path
    sys.modules[name] = m
    return exec_module(m, src, path)


SCRIPTS = {}      # compiled scripts


def run_script(name, argv, stubs):
    from . import runner, runtime
    fname = os.path.join(runner.REPO, 'scripts', name)
    if fname not in SCRIPTS:
        with open(fname, encoding='utf-8') as f:
            SCRIPTS[fname] = instrument(f.read(), fname)
    mods = {}
    for k, d in stubs.items():
        mods[k] = types.ModuleType(k)
        mods[k].__dict__.update(d)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name in mods and level == 0:
            return mods[name] if fromlist or '.' not in name else mods[name.split('.')[0]]
        return sx_import(name, globals, locals, fromlist, level)
    ns = {'__name__': '__main__', '__file__': fname, SX: SX_NS}
    ns['__builtins__'] = dict(builtins_dict(), __import__=imp)
    argv0, out0 = sys.argv, sys.stdout
    sys.argv = [fname] + argv
    files = {}
    runtime.CWD = '/vfs'
    sys.stdout = runtime.vfs().VFile(files, 'stdout', 'w')
    sys.stdout.buffer = runtime.vfs().Raw(sys.stdout)
    status = 0
    try:
        exec(SCRIPTS[fname], ns)
    except SystemExit as e:
        status = 0 if e.code is None else e.code
    finally:
        sys.argv, sys.stdout = argv0, out0
        runtime.CWD = None
    return status, files['stdout'], ns


def collections_std():
    """the collections module with an instrumented UserDict"""
    import collections
    import inspect
    m = types.ModuleType('collections')
    m.__dict__.update(collections.__dict__)
    src = "import _collections_abc\n" + inspect.getsource(collections.UserDict)
    exec_module(m, src, collections.__file__)
    register_std('collections', m)


def xml_std():
    """instrumented ElementTree (the pure Python one) over a model of expat"""
    from . import values
    import xml.parsers.expat
    here = os.path.dirname(os.path.abspath(__file__))
    m = types.ModuleType('symx_vexpat')

    def plain(d):
        return d.conc() if isinstance(d, values.SymStr) else d

    def unsupported(w):
        from . import engine
        raise engine.Unsupported(w)
    m.__sx_concrete__ = lambda d: not values.has_sym(d)
    m.__sx_plain__ = plain
    m.__sx_unsupported__ = unsupported
    fn = os.path.join(here, 'vexpat.py')
    with open(fn, encoding='utf-8') as f:
        exec_module(m, f.read(), fn)
    register_std('xml.parsers.expat', m)
    load_std('xml.etree.ElementPath')
    load_std('xml.etree.ElementTree', patch=lambda s: s.replace('from _elementtree import', 'from _elementtree_none import'))
