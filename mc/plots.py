"""Recording stand-ins for what echidna draws with: ROOT histograms, graphs,
canvases and legends, and matplotlib figures.  They keep the numbers a plot
would show; how it looks is ignored."""
import numpy as np

SHOWN = []          # (kind, payload) of everything drawn, printed or saved


def reset():
    del SHOWN[:]
    FIGURES.clear()
    Plt.current = None


class Absorb(object):
    """Takes any call that only concerns looks."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def ignore(*a, **k):
            return Absorb()
        return ignore

    def __iter__(self):
        return iter([])

    def __add__(self, other):
        return []


class Axis(Absorb):
    def __init__(self):
        self.title = ""

    def SetTitle(self, t):
        self.title = t

    def GetTitle(self):
        return self.title


# ------------------------------------------------------------------- ROOT
def _int(n):
    if isinstance(n, bool) or not isinstance(n, (int, np.integer)):
        raise TypeError("Int_t expected, got %r" % (n,))
    if n < 1:
        raise ValueError("%r bins" % n)
    return int(n)


class TH1(Absorb):
    dim = 1

    def __init__(self, name, title, *binning):
        if not isinstance(name, str) or not isinstance(title, str):
            raise TypeError("const char* expected")
        if len(binning) != 3 * self.dim:
            raise TypeError("%d-dimensional histogram takes %d numbers" % (
                self.dim, 3 * self.dim))
        self.name, self.title = name, title
        self.bins = [(_int(binning[3 * i]), float(binning[3 * i + 1]),
                      float(binning[3 * i + 2])) for i in range(self.dim)]
        # bin 0 is the underflow, bin n + 1 the overflow
        self.cells = np.zeros([b[0] + 2 for b in self.bins])
        self.axes = [Axis(), Axis(), Axis()]

    def contents(self):
        return self.cells[tuple(slice(1, -1) for _ in self.bins)]

    def stray(self):
        """What went to the under- and overflow bins, never shown."""
        return float(np.abs(self.cells).sum() - np.abs(self.contents()).sum())

    def _at(self, index):
        for i, (n, _, _) in zip(index, self.bins):
            if int(i) != i or not 0 <= i <= n + 1:
                raise IndexError("bin %r of %d" % (i, n))
        return tuple(int(i) for i in index)

    def _find(self, values):
        out = []
        for v, (n, lo, hi) in zip(values, self.bins):
            out.append(0 if v < lo else n + 1 if v >= hi else
                       1 + min(n - 1, int((v - lo) * n / (hi - lo))))
        return tuple(out)

    def SetBinContent(self, *args):
        if len(args) != self.dim + 1:
            raise TypeError("SetBinContent of %d numbers" % len(args))
        self.cells[self._at(args[:-1])] = float(args[-1])

    def AddBinContent(self, *args):
        if len(args) == self.dim:
            args = args + (1.,)
        self.cells[self._at(args[:-1])] += float(args[-1])

    def GetBinContent(self, *args):
        return float(self.cells[self._at(args)])

    def Fill(self, *args):
        w = args[self.dim] if len(args) > self.dim else 1.
        self.cells[self._find(args[:self.dim])] += float(w)

    def Add(self, other, c=1.):
        if not isinstance(other, TH1) or other.bins != self.bins:
            raise TypeError("histograms of different binning")
        self.cells = self.cells + c * other.cells

    def Scale(self, c):
        self.cells = self.cells * c

    def GetNbinsX(self):
        return self.bins[0][0]

    def GetNbinsY(self):
        return self.bins[1][0] if self.dim > 1 else 1

    def GetXaxis(self):
        return self.axes[0]

    def GetYaxis(self):
        return self.axes[1]

    def GetZaxis(self):
        return self.axes[2]

    def GetName(self):
        return self.name

    def GetTitle(self):
        return self.title

    def SetTitle(self, t):
        self.title = t

    def Clone(self, name=None):
        import copy
        h = copy.copy(self)
        h.cells = self.cells.copy()
        return h

    def Draw(self, opt=""):
        SHOWN.append((opt, self))


class TH2(TH1):
    dim = 2


class TGraph(Absorb):
    def __init__(self, n=None, x=None, y=None):
        self.points = {}
        self.axes = [Axis(), Axis()]
        self.title = ""
        if n is not None:
            n = int(n)
            if x is None:
                x, y = np.zeros(n), np.zeros(n)
            for a in (x, y):
                a = np.asarray(a)
                if a.dtype != np.float64 or a.ndim != 1:
                    raise TypeError("array of doubles expected")
                if len(a) < n:
                    raise IndexError("%d points of an array of %d" % (
                        n, len(a)))
            for i in range(n):
                self.points[i] = (float(x[i]), float(y[i]))

    def SetPoint(self, i, x, y):
        self.points[int(i)] = (float(x), float(y))

    def GetN(self):
        return len(self.points)

    def xy(self):
        ks = sorted(self.points)
        if ks != list(range(len(ks))):
            raise IndexError("points %r" % ks)
        return (np.array([self.points[k][0] for k in ks]),
                np.array([self.points[k][1] for k in ks]))

    def GetXaxis(self):
        return self.axes[0]

    def GetYaxis(self):
        return self.axes[1]

    def SetTitle(self, t):
        self.title = t

    def Draw(self, opt=""):
        SHOWN.append((opt, self))


class TCanvas(Absorb):
    def __init__(self, *a):
        pass


class TLegend(Absorb):
    last = None

    def __init__(self, *a):
        self.entries = []
        TLegend.last = self

    def AddEntry(self, obj, label, opt=""):
        if not isinstance(obj, (TH1, TGraph)):
            raise TypeError("TObject expected, got %r" % (obj,))
        self.entries.append((label, obj))

    def Draw(self, opt=""):
        SHOWN.append((opt, self))


# ------------------------------------------------------------- matplotlib
class Line(Absorb):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class MplAxes(Absorb):
    def __init__(self):
        self.hists, self.bands, self.maps, self.lines = [], [], [], []
        self.xlabel = self.ylabel = ""

    def hist(self, x, bins=10, range=None, weights=None, label=None, **kw):
        x = np.asarray(x, dtype=float)
        if weights is not None and np.shape(weights) != x.shape:
            raise ValueError("weights should have the same shape as x")
        n, edges = np.histogram(x, bins, range=range, weights=weights)
        self.hists.append(Line(label=label, edges=edges, style=kw,
                               contents=n.astype(float)))
        return n, edges, []

    def bar(self, left, height, width=.8, label=None, align="center", **kw):
        left = np.asarray(left, dtype=float)
        if align == "center":
            left = left - np.asarray(width) / 2.
        edges = np.append(left, left[-1] + np.ravel([width])[-1])
        self.hists.append(Line(label=label, edges=edges, contents=np.asarray(
            height, dtype=float)))

    def fill_between(self, x, y1, y2=0, label=None, **kw):
        self.bands.append(Line(label=label, x=np.array(x, dtype=float),
                               low=np.array(y1, dtype=float),
                               high=np.array(y2, dtype=float)))

    def pcolormesh(self, *args, **kw):
        """Cells as matplotlib 1.x and 2.x draw them: X and Y are corners;
        with as many corners as values the last row and column are lost."""
        if len(args) == 1:
            c = np.asarray(args[0])
            x, y = np.meshgrid(np.arange(c.shape[1] + 1.),
                               np.arange(c.shape[0] + 1.))
        else:
            x, y, c = [np.asarray(a, dtype=float) for a in args[:3]]
        if x.ndim == 1:
            x, y = np.meshgrid(x, y)
        if x.shape != y.shape or c.shape not in (
                x.shape, (x.shape[0] - 1, x.shape[1] - 1)):
            raise TypeError("Dimensions of C %r are incompatible with X %r "
                            "and/or Y %r" % (c.shape, x.shape, y.shape))
        cells = [(x[i, j], x[i, j + 1], y[i, j], y[i + 1, j], float(c[i, j]))
                 for i in range(x.shape[0] - 1)
                 for j in range(x.shape[1] - 1)]
        self.maps.append(Line(cells=cells))
        return self.maps[-1]
    pcolor = pcolormesh

    def plot(self, x, y, fmt="", label=None, **kw):
        x, y = np.array(x, dtype=float), np.array(y, dtype=float)
        if x.shape != y.shape:
            raise ValueError("x and y must have same first dimension")
        self.lines.append(Line(label=label, x=x, y=y))
        return [self.lines[-1]]

    def set_xlabel(self, t, **kw):
        self.xlabel = t

    def set_ylabel(self, t, **kw):
        self.ylabel = t

    def get_xticklabels(self):
        return []
    get_yticklabels = get_zticklabels = get_xticklabels

    def get_position(self):
        return Line(x0=0., y0=0., width=1., height=1.)


class Figure(Absorb):
    def __init__(self):
        self.axes, self.at = [], None

    def add_subplot(self, *a, **k):
        self.at = MplAxes()
        self.axes.append(self.at)
        return self.at

    def gca(self):
        return self.at or self.add_subplot(1, 1, 1)

    def savefig(self, fname, **k):
        SHOWN.append((fname, self))


FIGURES = {}


class Plt(object):
    current = None

    @staticmethod
    def figure(num=None, **kw):
        Plt.current = FIGURES.setdefault(num, Figure())
        return Plt.current

    @staticmethod
    def fig():
        return Plt.current or Plt.figure(1)


def _on_axes(name):
    return lambda *a, **k: getattr(Plt.fig().gca(), name)(*a, **k)


def install(root, modules):
    root.TH1D = root.TH1F = TH1
    root.TH2D = root.TH2F = TH2
    root.TGraph, root.TCanvas, root.TLegend = TGraph, TCanvas, TLegend
    plt = modules["matplotlib.pyplot"]
    plt.figure = Plt.figure
    plt.gcf = Plt.fig
    plt.gca = lambda **k: Plt.fig().gca()
    plt.subplot = lambda *a, **k: Plt.fig().add_subplot(*a, **k)
    plt.savefig = lambda f, **k: Plt.fig().savefig(f, **k)
    for n in ("hist", "bar", "fill_between", "pcolormesh", "pcolor", "plot"):
        setattr(plt, n, _on_axes(n))
    plt.xlabel = _on_axes("set_xlabel")
    plt.ylabel = _on_axes("set_ylabel")
