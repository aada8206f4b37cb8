"""P34: a scan that leaves its bounds or omits its prior is announced, by the
parameter and by the fits that are given it."""
import itertools
import warnings
from collections import OrderedDict

import numpy as np

import lib

PROPERTY = "P34"
BOUNDS = {
    "quick": "4 kinds of parameters x 3 scales x 15 ranges x 7 bin counts x "
             "priors on, between, at the ends of and beyond the values; every "
             "sequence of 2 of 11 settings, checked in between or not; fits "
             "of 1-3 floating backgrounds with every choice of good and bad "
             "rates, given at once or later, warned or cautious, twice",
    "thorough": "24 bin counts, sequences of 3, 4 backgrounds",
}
JOBS = {"quick": 8, "thorough": 8}
KINDS = ["rate", "resolution", "scale", "shift"]
SCALES = ["linear", "logscale", "logscale_deviation"]
RANGES = [(0., 10.), (1., 3.), (-1., 1.), (-.3, .3), (-2., 6.), (-5., -1.),
          (0., 1e-6), (-1e-6, 3e-6), (1e5, 1e6), (-1e-300, 0.), (.1, .7),
          (-4., 0.), (99.9, 100.1), (-1e4, 3e4), (0., 0.)]
OPS = [("bins", 4), ("bins", 5), ("low", -2.), ("low", 0.), ("low", 1.),
       ("high", 2.), ("high", 3.), ("prior", 0.), ("prior", 1.),
       ("prior", .5), ("logscale_deviation", True)]


def cases(tier):
    t = tier == "thorough"
    for rng in RANGES:
        for scale in SCALES:
            yield {"range": rng, "scale": scale, "bins":
                   list(range(1, 25)) if t else [1, 2, 3, 4, 5, 11, 12]}
    for first in OPS:
        yield {"first": first, "n": 3 if t else 2}
    for n in range(1, 5 if t else 4):
        for bad in itertools.product((False, True), repeat=n):
            for later in (False, True):
                yield {"bad": bad, "later": later}


def make(kind, prior, low, high, bins, scale="linear"):
    from echidna.core import parameter as p
    kw = {} if scale == "linear" else {scale: True}
    if kind == "rate":
        return p.RateParameter("par", prior, None, low, high, bins, **kw)
    cls = {"resolution": p.ResolutionParameter, "scale": p.ScaleParameter,
           "shift": p.ShiftParameter}[kind]
    return cls("par", prior, None, low, high, bins, "energy_mc", **kw)


def warned(fn):
    """Number of warnings to the user, and what fn returns."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = fn()
    return sum(issubclass(x.category, UserWarning) for x in w), out


def among(values, x):
    """None if too close to call."""
    values = np.asarray(values, dtype=float)
    far = np.abs(values - x).min()
    size = np.abs(values).max()
    if far <= 1e-14 * size:
        return True
    if far > 1e-6 * size:
        return False


def announce(ctx, p, kind, prior, what):
    values = np.array(p.get_values())
    there = among(values, prior)
    if there is None:
        return
    outside = kind == "rate" and bool((values < 0.).any())
    before = state(p)
    got = warned(p.check_values)[0]
    ctx.step()
    ctx.check(got == outside + (not there), "outside" if outside else
              "missing" if not there else "warned", "%s: %d warnings; prior "
              "%r is %samong %r" % (what, got, prior, "" if there else "not ",
                                    values.tolist()))
    with warnings.catch_warnings():
        warnings.simplefilter("error", UserWarning)
        ctx.check(lib.rejects(p.check_values) == (outside or not there),
                  "cautious", "%s: warnings are not raised" % what)
    ctx.check(state(p) == before, "changed", "%s: checking changes %r to %r" %
              (what, before, state(p)))


def state(p):
    d = p.to_dict()
    d["values"] = np.array(p.get_values()).tolist()
    return d


def run_case(ctx, c):
    if "bad" in c:
        return fits(ctx, c["bad"], c["later"])
    if "first" in c:
        return history(ctx, c)
    low, high = c["range"]
    if c["scale"] == "logscale" and low <= 0.:
        return
    if c["scale"] == "logscale_deviation" and high - low < 1e-3:
        return
    for kind, n in itertools.product(KINDS, c["bins"]):
        probe = make(kind, low, low, high, n, c["scale"])
        v = np.array(probe.get_values())
        step = v[1] - v[0] if n > 1 else 1.
        priors = sorted({low, high, 0., v[n // 2], v[-1], (low + high) / 2.,
                         v[0] + .5 * step, v[n // 2] + 1e-3 * step,
                         high + 1., -v[n // 2]})
        if c["scale"] == "logscale_deviation":
            priors = [x for x in priors if low <= x <= high]
        for prior in priors:
            p = make(kind, prior, low, high, n, c["scale"])
            ctx.state((kind, c["scale"], low, high, n, float(prior)))
            announce(ctx, p, kind, float(prior), "%s, %s scan of %d from %r "
                     "to %r" % (kind, c["scale"], n, low, high))


def history(ctx, c):
    for kind in ("rate", "shift"):
        for rest in itertools.product(OPS, repeat=c["n"] - 1):
            for between in (False, True):
                seq = (tuple(c["first"]),) + rest
                p, prior = make(kind, 1., 0., 2., 5), 1.
                for k, (name, v) in enumerate(seq):
                    if between:
                        announce(ctx, p, kind, prior, "%s after %r" % (
                            kind, seq[:k]))
                    p.set_par(**{name: v})
                    if name == "prior":
                        prior = v
                ctx.state((kind, seq, between))
                if not p.get_low() <= prior <= p.get_high() or \
                        p.get_low() > p.get_high():
                    continue
                announce(ctx, p, kind, prior, "%s after %r" % (kind, seq))


# -------------------------------------------------------------------- fits
def background(k, bad):
    from echidna.core.config import SpectraFitConfig
    name = "bg%d_mc" % k
    data = [4. + (3 * k + 5 * i) % 7 for i in range(4)]
    s = lib.make_spec([("energy_mc", 0., 4., 4)], data=data, name=name,
                      num_decays=sum(data))
    # zero is a good rate too
    prior, bins = ((0., 3), (10., 3), (0., 4), (5., 5))[k]
    s.set_fit_config(SpectraFitConfig.load({"spectral_fit_parameters": {
        "rate": {"prior": prior + (1.7 if bad else 0.), "sigma": None,
                 "low": 0., "high": 20., "bins": bins}}}, name))
    return s


def new_fit(floats):
    from echidna.core.config import GlobalFitConfig
    from echidna.fit import test_statistic
    from echidna.fit.fit import Fit
    data = lib.make_spec([("energy_mc", 0., 4., 4)], "linear", name="D_mc")
    fixed = lib.make_spec([("energy_mc", 0., 4., 4)], "ones", name="X_mc")
    kw = {"floating_backgrounds": floats} if floats else {}
    return Fit({"energy": (0., 4.)}, test_statistic.Pearson(), data=data,
               fit_config=GlobalFitConfig("g", OrderedDict()),
               fixed_backgrounds={fixed: 4.}, **kw)


def answer(f):
    r = f.fit()
    return float(r[0] if isinstance(r, tuple) else r)


def fits(ctx, bad, later):
    make_all = lambda: [background(k, b) for k, b in enumerate(bad)]  # noqa
    what = "rates %s, set %s" % (
        ["without its prior" if b else "good" for b in bad],
        "later" if later else "at once")
    ctx.state((bad, later))
    for turn in range(2):           # fits do not know each other
        ctx.step()
        if later:
            f = new_fit([])
            got = warned(lambda: f.set_floating_backgrounds(make_all()))[0]
        else:
            got, f = warned(lambda: new_fit(make_all()))
        ctx.check((got > 0) == any(bad), "fit", "%s: %d warnings" % (
            what, got))
        ctx.check(len(f.get_floating_backgrounds()) == len(bad), "fit",
                  "%s: %r" % (what, f.get_floating_backgrounds()))
        with warnings.catch_warnings():
            warnings.simplefilter("error", UserWarning)
            if not later:
                ctx.check(lib.rejects(lambda: new_fit(make_all())) ==
                          any(bad), "fit", "%s: not raised, or raised "
                          "without reason" % what)
                continue
            f = new_fit([])
            old = answer(f)
            refused = lib.rejects(lambda: f.set_floating_backgrounds(
                make_all()))
            ctx.check(refused == any(bad), "fit", "%s: %s" % (
                what, "raised" if refused else "not raised"))
            if refused:
                ctx.check(not f.get_floating_backgrounds() and
                          answer(f) == old, "refused", "%s: a refused list "
                          "is fitted" % what)
