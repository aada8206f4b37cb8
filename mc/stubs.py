"""In-memory stand-ins for the packages echidna imports and this sandbox lacks:
h5py (2.4 semantics), ROOT, rat, matplotlib, colorlog.

They record/serve only what the real packages would give the code: the h5py
stand-in stores copies (a round trip cannot succeed by aliasing), refuses
attribute values h5py refuses, and returns numpy scalars for numeric
attributes; ROOT.TChain and rat's DSReader serve event lists a check installs.
"""
import sys
import os
import types

import numpy as np


# ----------------------------------------------------------------- h5py
FILES = {}          # path -> root node


class Attrs(object):
    def __init__(self, d, ro):
        self._d, self._ro = d, ro

    def __setitem__(self, k, v):
        if self._ro:
            raise IOError("file is read-only")
        k = str(k)
        if isinstance(v, (str, bytes)):
            if len(v) > 64000:
                raise RuntimeError("unable to create attribute: too large")
            self._d[k] = v
        elif isinstance(v, (bool, np.bool_)):
            self._d[k] = np.bool_(v)
        elif isinstance(v, int):
            self._d[k] = np.int64(v)
        elif isinstance(v, float):
            self._d[k] = np.float64(v)
        elif isinstance(v, np.generic):
            self._d[k] = v
        elif isinstance(v, (list, tuple, np.ndarray)):
            a = np.array(v)
            if a.dtype.kind not in "iufbc":
                raise TypeError("Object dtype %r has no native HDF5 "
                                "equivalent" % (a.dtype,))
            self._d[k] = a
        else:
            raise TypeError("Object dtype dtype('O') has no native HDF5 "
                            "equivalent")

    def __getitem__(self, k):
        if k not in self._d:
            raise KeyError("Can't open attribute (Can't locate attribute: "
                           "'%s')" % k)
        v = self._d[k]
        return v.copy() if isinstance(v, np.ndarray) else v

    def get(self, k, default=None):
        return self[k] if k in self._d else default

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        # HDF5 iterates attributes by name
        return iter(sorted(self._d))

    def keys(self):
        return sorted(self._d)

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    iteritems = items

    def values(self):
        return [self[k] for k in self.keys()]

    iterkeys, itervalues = keys, values

    def create(self, k, data, shape=None, dtype=None):
        self[k] = data if dtype is None else np.array(data, dtype=dtype)

    modify = create

    def update(self, other=(), **kw):
        for k, v in dict(other, **kw).items():
            self[k] = v

    def __len__(self):
        return len(self._d)

    def __delitem__(self, k):
        if self._ro:
            raise IOError("file is read-only")
        del self._d[k]


class _Node(object):
    def __init__(self):
        self.attrs, self.kids = {}, {}


class _Data(object):
    def __init__(self, a):
        self.attrs, self.a = {}, a


class Dataset(object):
    def __init__(self, node, ro):
        self._node, self._ro = node, ro
        self.attrs = Attrs(node.attrs, ro)

    @property
    def value(self):
        a = self._node.a
        return a.copy() if a.shape else a[()]

    @property
    def shape(self):
        return self._node.a.shape

    @property
    def dtype(self):
        return self._node.a.dtype

    @property
    def size(self):
        return self._node.a.size

    @property
    def ndim(self):
        return self._node.a.ndim

    def __iter__(self):
        return iter(self._node.a.copy())

    def __setitem__(self, i, value):
        if self._ro:
            raise IOError("file is read-only")
        self._node.a[i] = value

    def __getitem__(self, i):
        r = self._node.a[i]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __array__(self, dtype=None, copy=None):
        return np.array(self._node.a, dtype=dtype)

    def __len__(self):
        return len(self._node.a)


class Group(object):
    def __init__(self, node, ro):
        self._node, self._ro = node, ro
        self.attrs = Attrs(node.attrs, ro)

    def _wrap(self, n):
        return Group(n, self._ro) if isinstance(n, _Node) else \
            Dataset(n, self._ro)

    def _w(self):
        if self._ro:
            raise ValueError("Unable to create group (No write intent on "
                             "file)")

    def create_group(self, name):
        self._w()
        node = self._node
        parts = [p for p in str(name).split("/") if p]
        for p in parts[:-1]:
            node = node.kids.setdefault(p, _Node())
        if parts[-1] in node.kids:
            raise ValueError("Unable to create group (Name already exists)")
        node.kids[parts[-1]] = _Node()
        return Group(node.kids[parts[-1]], self._ro)

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None,
                       compression=None, **kw):
        self._w()
        name = str(name)
        if name in self._node.kids:
            raise RuntimeError("Unable to create link (Name already exists)")
        a = np.array(data, dtype=dtype) if data is not None else \
            np.zeros(shape, dtype=dtype or float)
        if a.dtype.kind not in "iufbc":
            raise TypeError("Object dtype %r has no native HDF5 equivalent"
                            % (a.dtype,))
        if compression is not None and a.shape == ():
            raise TypeError("Scalar datasets don't support chunk/filter "
                            "options")
        self._node.kids[name] = _Data(a)
        return Dataset(self._node.kids[name], self._ro)

    def require_dataset(self, name, shape, dtype, exact=False, **kw):
        return self[name] if name in self else self.create_dataset(
            name, shape=shape, dtype=dtype, **kw)

    def _find(self, name):
        node = self._node
        for p in [p for p in str(name).split("/") if p]:
            if not isinstance(node, _Node) or p not in node.kids:
                raise KeyError("Unable to open object (Object '%s' doesn't "
                               "exist)" % name)
            node = node.kids[p]
        return node

    def __getitem__(self, name):
        return self._wrap(self._find(name))

    def __contains__(self, name):
        try:
            self._find(name)
            return True
        except KeyError:
            return False

    def __delitem__(self, name):
        self._w()
        self._find(name)
        del self._node.kids[name]

    def keys(self):
        return sorted(self._node.kids)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._node.kids)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    iterkeys, itervalues, iteritems = keys, values, items

    def get(self, name, default=None):
        return self[name] if name in self else default


def norm(path):
    """One name for every way of writing a path."""
    p = os.path.normpath(str(path))
    return "/" + p.lstrip("/") if p.startswith("//") else p


class File(Group):
    def __init__(self, name, mode="a", **kw):
        self.filename = str(name)
        key = norm(name)
        if mode == "w":
            FILES[key] = _Node()
        elif mode in ("w-", "x"):
            if key in FILES:
                raise IOError("Unable to create file (File exists)")
            FILES[key] = _Node()
        elif mode == "a":
            FILES.setdefault(key, _Node())
        elif mode in ("r", "r+"):
            if key not in FILES:
                raise IOError("Unable to open file (No such file or "
                              "directory: %s)" % name)
        else:
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, a")
        super(File, self).__init__(FILES[key], mode == "r")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        pass

    def flush(self):
        pass


# ------------------------------------------------------------ ROOT and rat
CHAINS = {}          # file name -> list of events (ntuple rows or DS events)
READERS = {}


class TChain(object):
    """Serves the rows of CHAINS[file]: attribute access gives the column."""

    def __init__(self, name=""):
        self._rows, self._i = [], None

    def Add(self, fname, *a):
        self._rows = self._rows + list(CHAINS.get(norm(fname), []))

    def GetEntries(self):
        return len(self._rows)

    GetEntriesFast = GetEntries

    def LoadTree(self, i):
        return i if 0 <= i < len(self._rows) else -2

    def GetEntry(self, i):
        if 0 <= i < len(self._rows):
            self._i = i
            return 1
        return 0

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if self._i is None:
            raise AttributeError(name)
        row = self._rows[self._i]
        if name not in row:
            raise AttributeError(name)
        return row[name]

    def __iter__(self):
        for i in range(len(self._rows)):
            self._i = i
            yield self


class TVector3(object):
    def __init__(self, x=0., y=0., z=0.):
        self.v = (float(x), float(y), float(z))

    def X(self):
        return self.v[0]

    def Y(self):
        return self.v[1]

    def Z(self):
        return self.v[2]

    x, y, z = X, Y, Z

    def __getitem__(self, i):
        return self.v[i]

    def Mag(self):
        return (self.v[0] ** 2 + self.v[1] ** 2 + self.v[2] ** 2) ** 0.5

    def Perp(self):
        return (self.v[0] ** 2 + self.v[1] ** 2) ** 0.5

    def __getattr__(self, name):
        raise AttributeError(name)


class DSReader(object):
    def __init__(self, fname, *a):
        self._events = list(READERS.get(norm(fname), []))

    def GetEntryCount(self):
        return len(self._events)

    def GetEntry(self, i):
        return self._events[i]


class _Anything(types.ModuleType):
    """A module any attribute of which is a recording no-op."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = Anything(self.__name__ + "." + name)
        setattr(self, name, v)
        return v


CALLS = []


class Anything(object):
    def __init__(self, name="", *a, **k):
        self._name = name

    def __call__(self, *a, **k):
        CALLS.append((self._name, a, k))
        return Anything(self._name + "()")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything(self._name + "." + name)

    def __iter__(self):
        return iter([Anything(self._name + "[0]"),
                     Anything(self._name + "[1]")])

    def __getitem__(self, i):
        return Anything("%s[%r]" % (self._name, i))


def install():
    def mod(name, **kw):
        if name in sys.modules and not kw.pop("force", True):
            return sys.modules[name]
        m = types.ModuleType(name)
        for k, v in kw.items():
            setattr(m, k, v)
        sys.modules[name] = m
        return m

    if "h5py" in sys.modules and hasattr(sys.modules["h5py"], "_mc_stub"):
        return
    mod("h5py", File=File, Group=Group, Dataset=Dataset, _mc_stub=True)

    du = types.SimpleNamespace(DSReader=DSReader)
    rat_ns = types.SimpleNamespace(DU=du)
    root = _Anything("ROOT")
    root.TChain = TChain
    root.TVector3 = TVector3
    root.RAT = rat_ns
    root.TObject = object
    sys.modules["ROOT"] = root
    ratm = mod("rat", RAT=rat_ns, ROOT=root)
    ratm.RAT = rat_ns

    import logging

    class ColoredFormatter(logging.Formatter):
        """The colours are empty strings."""

        def __init__(self, fmt=None, datefmt=None, log_colors=None, **kw):
            logging.Formatter.__init__(self, fmt, datefmt)

        def format(self, record):
            record.reset = record.log_color = ""
            return logging.Formatter.format(self, record)
    mod("colorlog", ColoredFormatter=ColoredFormatter)
    for name in ("matplotlib", "matplotlib.pyplot", "matplotlib.colors",
                 "matplotlib.ticker", "matplotlib.colorbar",
                 "mpl_toolkits", "mpl_toolkits.mplot3d"):
        m = _Anything(name)
        m.__path__ = []
        sys.modules[name] = m
        if "." in name:     # import a.b as c asks a for b
            setattr(sys.modules[name.rsplit(".", 1)[0]],
                    name.rsplit(".", 1)[1], m)
    import plots
    plots.install(root, sys.modules)
