"""Loads echidna (Python 2 code written for numpy 1.9 / scipy 0.16) from its
working tree into this Python 3 process, keeping Python 2 semantics.

Nothing is written to the source tree: every module is read, its syntax is
modernised in memory (lib2to3, only when it does not parse as it is), and the
syntax tree is rewritten so that the operations whose meaning changed between
Python 2 and 3 keep the meaning the code was written for:

  a / b            floor division on two integers
  x[i]             float indices/slice bounds truncate on arrays (numpy < 1.12)
  str, %s, format  floats shown with %.12g
  <, >, <=, >=     mixed types order instead of raising
  eval, exec       strings go through the same rewriting
  range/zip/map/filter, dict.keys()... give lists; round() rounds half away
  __metaclass__, iteritems, has_key, unicode, xrange, reduce, raw_input ...

Packages that are not installed (h5py, ROOT, rat, matplotlib, colorlog) are
replaced by small in-memory stand-ins (see `stubs`).
"""
import ast
import builtins as _b
import decimal
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import io
import math
import operator
import os
import re
import sys
import types
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True

import numpy as np
import yaml as _yaml

np.set_printoptions(legacy="1.13")
np.seterr(all="ignore")

FIXERS = ["lib2to3.fixes.fix_" + x for x in
          "print except raise exec repr ne numliterals tuple_params throw"
          .split()]
_INT = (int, np.integer, bool, np.bool_)


# --------------------------------------------------------------------------
# run-time helpers the rewritten code calls
# --------------------------------------------------------------------------
def _isint(x):
    if isinstance(x, np.ndarray):
        return x.dtype.kind in "iub"
    return isinstance(x, _INT)


def _div(a, b):
    if _isint(a) and _isint(b):
        return operator.floordiv(a, b)
    if isinstance(a, list) or isinstance(b, list):
        # numpy coerces lists, plain python refuses either way
        pass
    return operator.truediv(a, b)


def _idiv(a, b):
    if isinstance(a, np.ndarray):
        if _isint(a) and _isint(b):
            return operator.ifloordiv(a, b)
        return operator.itruediv(a, b)
    return _div(a, b)


def _py2str(x=""):
    if type(x) is float or isinstance(x, np.floating):
        v = float(x)
        if math.isnan(v):
            return "nan"
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        s = "%.12g" % v
        if re.match(r"^-?\d+$", s):
            s += ".0"
        return s
    return str(x)


class _Str(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, str)

    def __call__(cls, *args):
        if len(args) == 1:
            return _py2str(args[0])
        return str(*args)

    def __getattr__(cls, name):
        return getattr(str, name)

    def __eq__(cls, other):
        return other is str or other is cls

    def __hash__(cls):
        return hash(str)


_SPEC = re.compile(
    r"%(\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(\.(\*|\d+))?[hlL]?([a-zA-Z%])")


def _mod(a, b):
    if not isinstance(a, str):
        return operator.mod(a, b)
    specs = [m for m in _SPEC.finditer(a) if m.group(7) != "%"]
    if isinstance(b, dict) or any(m.group(1) for m in specs):
        b2 = dict(b)
        for m in specs:
            if m.group(7) == "s" and m.group(2) in b2:
                b2[m.group(2)] = _py2str(b2[m.group(2)])
        return a % b2
    if any(m.group(4) == "*" or m.group(6) == "*" for m in specs):
        return a % b
    args = list(b) if isinstance(b, tuple) else [b]
    for i, m in enumerate(specs):
        if i < len(args):
            if m.group(7) == "s":
                args[i] = _py2str(args[i])
            elif m.group(7) in "di" and not isinstance(args[i], str):
                try:
                    args[i] = int(args[i])
                except (TypeError, ValueError):
                    pass
    return a % tuple(args)


def _imod(a, b):
    if isinstance(a, str):
        return _mod(a, b)
    return operator.imod(a, b)


def _rank(x):
    if x is None:
        return (0, "")
    if isinstance(x, (int, float, np.number, np.bool_)):
        return (1, "")
    name = type(x).__name__
    if callable(x) and name == "method":
        name = "instancemethod"
    return (2, name)


_CMPS = {"Lt": operator.lt, "Gt": operator.gt, "LtE": operator.le,
         "GtE": operator.ge}


def _cmp1(op, a, b):
    f = _CMPS[op]
    try:
        return f(a, b)
    except TypeError:
        ra, rb = _rank(a), _rank(b)
        if ra == rb:
            return f(id(a), id(b))
        return f(ra, rb)


def _fixidx(i):
    if isinstance(i, tuple):
        return tuple(_fixidx(x) for x in i)
    if isinstance(i, (float, np.floating)):
        return int(i)
    if isinstance(i, slice):
        return slice(_fixidx(i.start), _fixidx(i.stop), _fixidx(i.step))
    if isinstance(i, np.ndarray) and i.dtype.kind == "f":
        return i.astype(int)
    if isinstance(i, list) and i and all(
            isinstance(x, slice) for x in i):
        return tuple(_fixidx(x) for x in i)
    return i


class _ArrayProxy(object):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        return self.a[_fixidx(i)]

    def __setitem__(self, i, v):
        self.a[_fixidx(i)] = v

    def __delitem__(self, i):
        del self.a[_fixidx(i)]


def _W(x):
    return _ArrayProxy(x) if isinstance(x, np.ndarray) else x


def _dictlist(d, name):
    if isinstance(d, dict):
        return list(getattr(d, name)())
    return getattr(d, name)()


def _dictiter(d, name):
    if isinstance(d, dict):
        return iter(getattr(d, name)())
    return getattr(d, "iter" + name)()


def _has_key(d, *k):
    if hasattr(d, "has_key"):
        return d.has_key(*k)
    return k[0] in d


def _fmt(s, *args, **kwargs):
    if isinstance(s, str):
        args = [_FmtFloat(x) if type(x) is float or
                isinstance(x, np.floating) else x for x in args]
        kwargs = {k: (_FmtFloat(x) if type(x) is float or
                      isinstance(x, np.floating) else x)
                  for k, x in kwargs.items()}
    return s.format(*args, **kwargs)


class _FmtFloat(float):
    def __format__(self, spec):
        if not spec:
            return _py2str(float(self))
        return float.__format__(self, spec)

    def __str__(self):
        return _py2str(float(self))


def _nextm(it, *a):
    if hasattr(it, "next"):
        return it.next(*a)
    return next(it, *a)


_COMPILED = {}


def _py2compile(src, mode, *rest):
    if isinstance(src, str):
        code = _COMPILED.get((src, mode))
        if code is None:
            if len(_COMPILED) > 20000:
                _COMPILED.clear()
            code = compile_source(src, "<string>", mode)
            _COMPILED[(src, mode)] = code
        return code
    return src


def _py2round(x, n=0):
    try:
        x = float(x)
    except TypeError:
        return _b.round(x, n)
    if math.isinf(x) or math.isnan(x):
        return x
    d = decimal.Decimal(x)
    with decimal.localcontext() as c:
        c.prec = 800
        return math.copysign(float(d.quantize(
            decimal.Decimal(1).scaleb(-int(n)),
            rounding=decimal.ROUND_HALF_UP)), x)


def _py2range(*args):
    for a in args:
        if isinstance(a, (float, np.floating)):
            raise TypeError("range() integer end argument expected, got %s."
                            % type(a).__name__)
    return list(_b.range(*[operator.index(a) for a in args]))


def _py2zip(*a):
    return list(_b.zip(*a))


def _py2map(f, *a):
    if f is None:
        return list(_b.zip(*a)) if len(a) > 1 else list(a[0])
    return list(_b.map(f, *a))


def _py2filter(f, a):
    r = [x for x in a if (x if f is None else f(x))]
    if isinstance(a, str):
        return "".join(r)
    return tuple(r) if isinstance(a, tuple) else r


def _py2cmp(a, b):
    return (a > b) - (a < b)


def _py2sorted(it, cmp=None, key=None, reverse=False):
    if cmp is not None:
        k = functools.cmp_to_key(cmp)
        key = (lambda x, k=k, q=key: k(q(x))) if key else k
    return _b.sorted(it, key=key, reverse=reverse)


_HELPERS = dict(_py2h_div=_div, _py2h_idiv=_idiv, _py2h_mod=_mod,
                _py2h_imod=_imod, _py2h_cmp=_cmp1, _py2h_W=_W,
                _py2h_dl=_dictlist, _py2h_di=_dictiter, _py2h_hk=_has_key,
                _py2h_fmt=_fmt, _py2h_next=_nextm, _py2h_compile=_py2compile,
                _py2h_n=lambda x: _n(x))


# --------------------------------------------------------------------------
# the rewriting itself
# --------------------------------------------------------------------------
def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args),
                    keywords=[])


def _load(node):
    import copy
    n = copy.deepcopy(node)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


class _Rewrite(ast.NodeTransformer):
    def __init__(self, truediv=False):
        self.truediv = truediv

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.truediv:
            return ast.copy_location(
                _call("_py2h_div", node.left, node.right), node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                _call("_py2h_mod", node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        name = None
        if isinstance(node.op, ast.Div) and not self.truediv:
            name = "_py2h_idiv"
        elif isinstance(node.op, ast.Mod):
            name = "_py2h_imod"
        if name:
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=_call(name, _load(node.target), node.value)), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        node.value = ast.copy_location(_call("_py2h_W", node.value),
                                       node.value)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = [type(o).__name__ for o in node.ops]
        if not any(o in _CMPS for o in ops):
            return node
        if len(ops) == 1:
            return ast.copy_location(
                _call("_py2h_cmp", ast.Constant(ops[0]), node.left,
                      node.comparators[0]), node)
        # chained: a < b < c -> (lambda-free) and-ed pairs; the operands of
        # echidna's chains are pure expressions
        vals = [node.left] + node.comparators
        parts = []
        for i, o in enumerate(node.ops):
            left, right = _load(vals[i]), _load(vals[i + 1])
            if ops[i] in _CMPS:
                parts.append(_call("_py2h_cmp", ast.Constant(ops[i]), left,
                                   right))
            else:
                parts.append(ast.Compare(left=left, ops=[o],
                                         comparators=[right]))
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and not node.keywords:
            n = len(node.args)
            if f.attr in ("keys", "values", "items") and n == 0:
                return ast.copy_location(
                    _call("_py2h_dl", f.value, ast.Constant(f.attr)), node)
            if f.attr in ("iterkeys", "itervalues", "iteritems") and n == 0:
                return ast.copy_location(
                    _call("_py2h_di", f.value, ast.Constant(f.attr[4:])),
                    node)
            if f.attr == "has_key" and n == 1:
                return ast.copy_location(
                    _call("_py2h_hk", f.value, node.args[0]), node)
            if f.attr == "next" and n == 0:
                return ast.copy_location(_call("_py2h_next", f.value), node)
        if isinstance(f, ast.Attribute) and f.attr in (
                "reshape", "repeat", "resize") and not any(
                isinstance(a, ast.Starred) for a in node.args):
            node.args = [ast.copy_location(_call("_py2h_n", a), a)
                         for a in node.args]
            return node
        if isinstance(f, ast.Attribute) and f.attr == "format":
            new = _call("_py2h_fmt", f.value, *node.args)
            new.keywords = node.keywords
            return ast.copy_location(new, node)
        if isinstance(f, ast.Name) and f.id in ("eval", "exec") and node.args:
            node.args[0] = ast.copy_location(
                _call("_py2h_compile", node.args[0], ast.Constant(f.id)),
                node.args[0])
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        for stmt in node.body:
            if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and \
                    isinstance(stmt.targets[0], ast.Name) and \
                    stmt.targets[0].id == "__metaclass__" and \
                    not any(k.arg == "metaclass" for k in node.keywords):
                node.keywords.append(ast.keyword(arg="metaclass",
                                                 value=_load(stmt.value)))
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(x) for x in node.body]
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        return node


_tool = []


def _parse(text, filename):
    try:
        return ast.parse(text, filename)
    except SyntaxError:
        pass
    if not _tool:
        from lib2to3 import refactor
        _tool.append(refactor.RefactoringTool(FIXERS))
    return ast.parse(str(_tool[0].refactor_string(text + "\n", filename)),
                     filename)


def compile_source(text, filename, mode="exec"):
    if mode == "eval":
        tree = ast.parse(text.strip(), filename, "eval")
    else:
        tree = _parse(text, filename)
    truediv = any(isinstance(n, ast.ImportFrom) and n.module == "__future__"
                  and any(a.name == "division" for a in n.names)
                  for n in ast.walk(tree))
    tree = ast.fix_missing_locations(_Rewrite(truediv).visit(tree))
    return compile(tree, filename, mode, dont_inherit=True)


# --------------------------------------------------------------------------
# library shims
# --------------------------------------------------------------------------
def _n(x):
    """A count or shape: numpy < 1.12 truncated floats."""
    if isinstance(x, (float, np.floating)):
        return int(x)
    if isinstance(x, tuple):
        return tuple(_n(v) for v in x)
    if isinstance(x, list) and x and all(
            isinstance(v, (int, float, np.number)) for v in x):
        return [_n(v) for v in x]
    return x


def _make_numpy():
    m = types.ModuleType("numpy")
    m.__path__ = []

    def linspace(start, stop, num=50, endpoint=True, retstep=False, **kw):
        return np.linspace(start, stop, _n(num), endpoint=endpoint,
                           retstep=retstep, **kw)

    def logspace(start, stop, num=50, endpoint=True, base=10.0, **kw):
        return np.logspace(start, stop, _n(num), endpoint=endpoint,
                           base=base, **kw)

    def zeros(shape, *a, **kw):
        return np.zeros(_n(shape), *a, **kw)

    def ones(shape, *a, **kw):
        return np.ones(_n(shape), *a, **kw)

    def empty(shape, *a, **kw):
        # deterministic: stale memory would not be
        return np.full(_n(shape), np.nan, *a, **kw)

    def array(*a, **kw):
        return np.array(*a, **kw)

    m.linspace, m.logspace = linspace, logspace
    m.zeros, m.ones, m.empty = zeros, ones, empty
    old = {"float": float, "int": int, "bool": bool, "object": object,
           "str": str, "product": np.prod, "asscalar": lambda a: a.item(),
           "alltrue": np.all, "sometrue": np.any, "in1d": np.isin,
           "cumproduct": np.cumprod, "trapz": getattr(np, "trapezoid", None),
           "Inf": np.inf, "NaN": np.nan, "Infinity": np.inf,
           "float_": np.float64, "rank": np.ndim,
           "unicode": str, "long": int, "row_stack": np.vstack}
    for k, v in old.items():
        setattr(m, k, v)

    def __getattr__(name):
        return getattr(np, name)
    m.__getattr__ = __getattr__
    return m


def _make_yaml():
    m = types.ModuleType("yaml")

    def load(stream, Loader=None, **kw):
        return _yaml.load(stream, Loader or _yaml.Loader, **kw)

    def dump(data, stream=None, Dumper=None, **kw):
        kw.setdefault("default_flow_style", None)
        return _yaml.dump(data, stream, Dumper or _yaml.Dumper, **kw)
    m.load, m.dump = load, dump
    m.__getattr__ = lambda name: getattr(_yaml, name)
    m.__path__ = []
    return m


def _make_json():
    """On Python 2 the numpy integers are ints, which json writes as such."""
    import json
    import numpy
    m = types.ModuleType("json")

    class Encoder(json.JSONEncoder):
        def default(self, o):
            if isinstance(o, (numpy.int64, numpy.int32)):
                return int(o)
            return json.JSONEncoder.default(self, o)

    def dumps(obj, **kw):
        kw.setdefault("cls", Encoder)
        return json.dumps(obj, **kw)

    def dump(obj, stream, **kw):
        kw.setdefault("cls", Encoder)
        return json.dump(obj, stream, **kw)
    m.dumps, m.dump = dumps, dump
    m.__getattr__ = lambda name: getattr(json, name)
    return m


def _make_itertools():
    import itertools
    m = types.ModuleType("itertools")
    m.izip, m.imap, m.ifilter = zip, map, filter
    m.izip_longest = itertools.zip_longest
    m.__getattr__ = lambda name: getattr(itertools, name)
    return m


def _make_time():
    import time
    m = types.ModuleType("time")
    m.clock = time.process_time
    m.__getattr__ = lambda name: getattr(time, name)
    return m


def _make_string():
    import string
    m = types.ModuleType("string")
    m.letters = string.ascii_letters
    m.lowercase, m.uppercase = string.ascii_lowercase, string.ascii_uppercase
    m.join = lambda words, sep=" ": sep.join(words)
    m.__getattr__ = lambda name: getattr(string, name)
    return m


SHIMS = {}


def _shims():
    if not SHIMS:
        SHIMS.update(numpy=_make_numpy(), yaml=_make_yaml(),
                     json=_make_json(),
                     itertools=_make_itertools(), time=_make_time(),
                     string=_make_string())
    return SHIMS


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    top = name.split(".")[0]
    if level == 0 and top in _shims():
        if name == top:
            return SHIMS[top]
        mod = _b.__import__(name, globals, locals, fromlist, level)
        return mod if fromlist else SHIMS[top]
    return _b.__import__(name, globals, locals, fromlist, level)


def _builtins():
    d = dict(vars(_b))
    d.update(_HELPERS)
    d.update(range=_py2range, xrange=_b.range, zip=_py2zip, map=_py2map,
             filter=_py2filter, round=_py2round, reduce=functools.reduce,
             unicode=str, basestring=str, long=int, cmp=_py2cmp,
             sorted=_py2sorted, raw_input=lambda *a: "", unichr=chr,
             str=Str, type=Type, file=_b.open, __import__=_import,
             execfile=None, intern=sys.intern, apply=lambda f, a, k={}:
             f(*a, **k))
    return d


class Str(str, metaclass=_Str):
    pass


Str.__name__ = Str.__qualname__ = "str"


class _Type(type):
    def __call__(cls, *args, **kw):
        if len(args) != 1 or kw:
            return type(*args, **kw)
        t = type(args[0])
        return Str if t is str else t    # type(x) is str

    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, x):
        return issubclass(x, type)


class Type(type, metaclass=_Type):
    pass


_BUILTINS = None

QUIET = io.StringIO()


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        global _BUILTINS
        if _BUILTINS is None:
            _BUILTINS = _builtins()
        module.__file__ = self.path
        module.__dict__["__builtins__"] = _BUILTINS
        with open(self.path, encoding="utf-8") as f:
            text = f.read()
        exec(compile_source(text, self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "echidna" and not fullname.startswith("echidna."):
            return None
        base = os.path.join(self.repo, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(
                fullname, _Loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + ".py"):
            return importlib.machinery.ModuleSpec(
                fullname, _Loader(base + ".py"), origin=base + ".py")
        return None


def install(repo=None):
    """Make `import echidna...` load from `repo` (default: ECHIDNA_REPO or
    /repo) with Python 2 semantics."""
    repo = repo or os.environ.get("ECHIDNA_REPO") or "/repo"
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder(repo))
    import stubs
    stubs.install()
    import logging
    logging.disable(logging.CRITICAL)
    return repo


def run_script(path, argv, repo_globals=None):
    """Run a script of the repository as __main__ (with its own argv)."""
    global _BUILTINS
    if _BUILTINS is None:
        _BUILTINS = _builtins()
    with open(path, encoding="utf-8") as f:
        code = compile_source(f.read(), path)
    g = {"__name__": "__main__", "__file__": path,
         "__builtins__": _BUILTINS}
    if repo_globals:
        g.update(repo_globals)
    old = sys.argv
    sys.argv = [path] + list(argv)
    try:
        exec(code, g)
    finally:
        sys.argv = old
    return g
