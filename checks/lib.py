"""Shared helpers of the checks: building spectra, snapshots, comparisons."""
import itertools
from collections import OrderedDict
from fractions import Fraction

import numpy as np


def make_config(axes, name="config"):
    """axes: list of (name, low, high, bins)."""
    from echidna.core.config import SpectraConfig
    pars = OrderedDict()
    for n, low, high, bins in axes:
        pars[n] = {"low": low, "high": high, "bins": bins}
    return SpectraConfig.load({"parameters": pars}, name=name)


def pattern(shape, kind="squares"):
    """Position-identifying contents, exact in floating point."""
    n = int(np.prod(shape))
    if kind == "squares":
        flat = [float((i + 1) ** 2 % 1009 + 3 * i) for i in range(n)]
    elif kind == "fraction":
        return .375 * pattern(shape)
    elif kind == "linear":
        flat = [float(i + 1) for i in range(n)]
    elif kind == "ones":
        flat = [1.0] * n
    elif kind == "sparse":
        flat = [float((i * 7 + 3) % 11) if i % 3 else 0.0 for i in range(n)]
    elif kind == "zeros":
        flat = [0.0] * n
    elif kind.startswith("delta"):
        flat = [0.0] * n
        flat[int(kind[5:]) % n] = 1.0
    else:
        raise ValueError(kind)
    return np.array(flat).reshape(shape)


def make_spec(axes, kind="squares", num_decays=None, name="spec_mc",
              raw=None, data=None, **kw):
    from echidna.core.spectra import Spectra
    s = Spectra(name, 1.0 if num_decays is None else num_decays,
                make_config(axes), **kw)
    shape = tuple(int(a[3]) for a in axes)
    d = pattern(shape, kind) if data is None else np.array(data, dtype=float)
    s._data = d.copy()
    s._raw_events = int(d.sum()) if raw is None else raw
    if num_decays is None:
        s._num_decays = float(d.sum()) or 1.0
    return s


def axes_of(s):
    c = s.get_config()
    return [(n, c.get_par(n).get_low(), c.get_par(n).get_high(),
             c.get_par(n).get_bins()) for n in c.get_pars()]


def plain(style):
    return repr(sorted(style.items()) if hasattr(style, "items") else style)


def snap(s):
    """Everything observable of a spectrum."""
    return {"axes": axes_of(s), "data": np.array(s.get_data(), copy=True),
            "num_decays": float(s.get_num_decays()),
            "raw_events": int(s._raw_events), "name": s.get_name(),
            "bipo": s.get_bipo(), "style": plain(s.get_style()),
            "rois": {k: dict(v) for k, v in s._rois.items()},
            "background_name": s._background_name}


def same(a, b):
    """Exact equality of two snapshots; returns the first difference."""
    for k in a:
        if k == "data":
            if a[k].shape != b[k].shape or not np.array_equal(
                    a[k], b[k], equal_nan=True):
                return "data"
        elif a[k] != b[k]:
            return "%s: %r -> %r" % (k, a[k], b[k])
    return None


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol,
                                              equal_nan=True)


def near(a, b, scale=1.0, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * max(abs(scale), abs(float(b)),
                                                 1e-300)


def F(x):
    return Fraction(float(x))


def rejects(fn):
    """True if fn raises an ordinary exception."""
    try:
        fn()
    except Exception:
        return True
    return False


def ask(fn, *args):
    """The answer of a getter, arrays as lists, or "refused"."""
    try:
        r = fn(*args)
    except Exception:
        return "refused"
    if isinstance(r, np.ndarray):
        return r.tolist()
    if isinstance(r, np.generic):
        return r.item()
    return r


PAR = ("name", "prior", "sigma", "low", "high", "bins", "values",
       "current_value", "best_fit", "penalty_term")


def par_view(p, skip=()):
    """Everything observable of a fit parameter."""
    d = {"type": type(p).__name__}
    for k in PAR:
        if k not in skip and hasattr(p, "get_" + k):
            d[k] = ask(getattr(p, "get_" + k))
    return d


def sub(pairs):
    return list(itertools.product(*pairs))
