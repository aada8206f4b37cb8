"""P19: a fit evaluates, at every point of its grid, the statistic of the data
against the sum of all components with the systematics applied. Every
combination of ingredients is enumerated; expectations are put together from
pristine spectra with the documented single-step operations."""
import itertools
import math
from collections import OrderedDict

import numpy as np

import c_stats
import lib

PROPERTY = "P19"
BOUNDS = {
    "quick": "5 axis layouts (reco data and MC backgrounds, 1-2 axes, ROI "
             "over all or some of them) x 0-2 fixed x 0-2 floating "
             "backgrounds (with and without a rate, data binning and finer) "
             "x signal or none x 13 sets of global systematics x 6 statistics "
             "x penalties on or off x whole, per-bin and counting fits: all "
             "grid points of every fit",
    "thorough": "all of it for all statistics, more grid points",
}
JOBS = {"quick": 8, "thorough": 8}
E4 = ("energy", 1., 3., 8)
R3 = ("radial", 0., 600., 3)
# data type, axes, roi, bins inside the roi
LAYOUTS = {
    "1d": ("mc", [E4], {"energy": (1., 3.)}),
    "1d-roi": ("reco", [E4], {"energy": (1.5, 2.5)}),
    "2d": ("mc", [E4, R3], {"energy": (1.5, 2.5), "radial": (0., 400.)}),
    "2d-energy": ("reco", [R3, E4], {"energy": [2.5, 1.5]}),
    "2d-radial": ("mc", [E4, R3], {"radial": (200., 600.)})}
GLOBALS = {
    "none": [],
    "shift": [("shift", [-.25, .1, .25])],
    "scale": [("scale", [.9, 1.05])],
    "ly": [("resolution_ly", [150., 200.])],
    "res": [("resolution", [.05, .2])],
    "shift-scale": [("shift", [.1, .5]), ("scale", [.95, 1.])],
    "close": [("shift", [.12345671, .12345679]),
              ("scale", [1.00001, 1.00002])],
    "scale-shift": [("scale", [1.1]), ("shift", [0., .25])],
    "ly-shift": [("resolution_ly", [120.]), ("shift", [-.1, .2])],
    "radial": [("radial_mc/shift", [200., 0., -200.])],
    "two-dims": [("scale", [.95, 1.05]), ("radial_mc/shift", [0., 200.])],
    "radial-first": [("radial_mc/shift", [-200., 200.]), ("shift", [.1, -.1]),
                     ("resolution", [.1])],
    "all": [("shift", [.15]), ("resolution_ly", [180.]),
            ("scale", [1.02, .97])]}
STATS = c_stats.NAMES


def split(n):
    """Dimension and kind of a global systematic."""
    return n.split("/") if "/" in n else ["energy_mc", n]


def fits_layout(g, lay):
    return lay.startswith("2d") or all(split(n)[0] == "energy_mc"
                                       for n, _ in GLOBALS[g])


def cases(tier):
    t = tier == "thorough"
    for lay in LAYOUTS:
        for nfix, nfl, sig in itertools.product((0, 1, 2), (0, 1, 2),
                                                (False, True)):
            if nfix + nfl == 0:
                continue
            for g in GLOBALS:
                if not nfl and g != "none" or not fits_layout(g, lay):
                    continue
                for fine in (1, 2) if nfl else (1,):
                    if fine == 2 and not t and (nfix == 1 or
                                                sig != (nfl == 1)):
                        continue
                    if not t and nfix == 2 and nfl == 2 and sig:
                        continue
                    yield {"layout": lay, "fixed": nfix, "floating": nfl,
                           "signal": sig, "globals": g, "fine": fine,
                           "tier": tier}
    yield {"refusals": 1}


def variants(c):
    t = c["tier"] == "thorough"
    two = c["globals"] in ("none", "all", "shift-scale")
    for k, mode in enumerate(("whole", "bins", "count")):
        if mode == "bins" and c["layout"] in ("2d-energy", "2d-radial"):
            continue      # not all axes in the ROI
        if not t and mode != "whole" and not two:
            continue
        for i, stat in enumerate(STATS):
            if mode == "bins" and stat == "BakerCousinsChiUp":
                continue      # refused by the statistic: see P15
            if not t and (i + k + c["fixed"] + len(c["globals"])) % 3:
                continue
            for sigma in (None, .5):
                yield dict(c, mode=mode, stat=stat, sigma=sigma)


def spec(name, typ, axes, fine, seed, total, gaps=False):
    ax = [("%s_%s" % (n, typ), lo, hi, b * (fine if n == "energy" else 1))
          for n, lo, hi, b in axes]
    shape = tuple(a[3] for a in ax)
    idx = np.indices(shape)
    d = 1. + sum(((seed + 2 * k) * (x + 1)) % (5 + k)
                 for k, x in enumerate(idx))
    e = [k for k, a in enumerate(axes) if a[0] == "energy"][0]
    x = (idx[e] + .5) / shape[e]
    d = d + 6. * np.exp(-((x - .25 - .2 * seed) / .3) ** 2)
    d *= total / d.sum()
    if gaps:                    # next to no entries in some of the bins
        d[idx[e] == 3] = .5
        d[idx[e] == 4] = 0.
    return lib.make_spec(ax, data=d, num_decays=total * 1.25, name=name)


def rate_config(name, rates, sigma):
    from echidna.core.config import SpectraFitConfig
    return SpectraFitConfig.load(
        {"spectral_fit_parameters": {"rate": {
            "prior": rates[0], "sigma": sigma, "low": min(rates),
            "high": max(rates), "bins": len(rates), "values":
            np.array(rates)}}}, name)


RATES = {"b0": [60., 0., 95.], "b1": [30., 45.]}


def narrow(s, roi):
    """Cut the outermost bins outside the ROI off a spectrum."""
    kw = {}
    for dim, (lo, hi) in roi.items():
        n = [p for p in s.get_config().get_pars() if p.startswith(dim + "_")][0]
        p = s.get_config().get_par(n)
        w = p.get_width()
        lo, hi = min(lo, hi), max(lo, hi)
        if p.get_low() + w < lo + 1e-9:
            kw[n + "_low"] = p.get_low() + w
        if p.get_high() - w > hi - 1e-9:
            kw[n + "_high"] = p.get_high() - w
    if kw:
        s.shrink(**kw)


def build(c):
    """Everything a user would hand over, brand new."""
    typ, axes, roi = LAYOUTS[c["layout"]]
    # fixed and signal: the data's binning; floating: possibly finer
    b = {"data": spec("data", typ, axes, 1, 1, 200.,
                      c["mode"] == "count")}
    b["fixed"] = [(spec("f%d" % i, "mc", axes, 1, 2 + i, 80.), (70., 25.)[i])
                  for i in range(c["fixed"])]
    for s, _ in b["fixed"][1:]:     # reaches less far around the ROI
        narrow(s, roi)
    b["floating"] = [spec("b%d" % i, "mc", axes, c["fine"], 3 - 2 * i, 55.)
                     for i in range(c["floating"])]
    # with globals the signal is treated as the floating backgrounds are
    b["signal"] = spec("sig", "mc", axes, c["fine"] if c["globals"] != "none"
                       and c["floating"] else 1, 2, 17.) \
        if c["signal"] else None
    b["roi"] = {k: type(v)(v) for k, v in roi.items()}
    return b


def has_rate(c, i):
    return i == 0 or c["fine"] == 1


def make_fit(c, b, **kw):
    from echidna.core.config import GlobalFitConfig
    from echidna.fit import test_statistic
    from echidna.fit.fit import Fit
    pars = OrderedDict()
    if c["globals"] == "none":
        pars["energy_mc"] = OrderedDict()
    for n, vals in GLOBALS[c["globals"]]:
        dim, n = split(n)
        pars.setdefault(dim, OrderedDict())[n] = {
            "prior": vals[0], "sigma": c["sigma"], "low": min(vals),
            "high": max(vals), "bins": len(vals),
            "values": np.array(vals)}
    g = GlobalFitConfig.load({"global_fit_parameters": pars}, name="g")
    for i, s in enumerate(b["floating"]):
        if has_rate(c, i):
            s.set_fit_config(rate_config(s.get_name(), RATES[s.get_name()],
                                         c["sigma"]))
    cls = getattr(test_statistic, c["stat"])
    return Fit(b["roi"], cls(per_bin=c["mode"] == "bins"), fit_config=g,
               data=b["data"],
               fixed_backgrounds=OrderedDict(b["fixed"]) or None,
               floating_backgrounds=b["floating"] or None,
               signal=b["signal"], per_bin=c["mode"] == "bins",
               single_bin=c["mode"] == "count", **kw)


def cut(s, roi):
    kw = {}
    for dim, (lo, hi) in roi.items():
        n = [p for p in s.get_config().get_pars()
             if p.startswith(dim + "_")][0]
        kw[n + "_low"], kw[n + "_high"] = min(lo, hi), max(lo, hi)
    s.shrink(**kw)
    return s


def systematic(s, name, v):
    from echidna.core import scale, shift, smear
    dim, name = split(name)
    if name == "shift":
        x = shift.Shift()
        x.set_shift(v)
        return x.shift(s, dim)
    if name == "scale":
        x = scale.Scale()
        x.set_scale_factor(v)
        return x.scale(s, dim)
    x = smear.EnergySmearLY() if v > 10. else smear.EnergySmearRes()
    x.set_resolution(v)
    return x.weighted_smear(s, dim)


CACHE = {}


def expected(c, gvals, rates):
    key = (c["mode"] == "count", tuple(gvals), tuple(sorted(rates.items())))
    if key not in CACHE:
        CACHE[key] = compute(c, gvals, rates)
    return CACHE[key]


def compute(c, gvals, rates):
    b = build(c)
    cut(b["data"], b["roi"])
    shape = b["data"].get_data().shape
    tot = np.zeros(shape)
    for s, counts in b["fixed"]:
        f = counts / s.get_num_decays()
        tot += cut(s, b["roi"]).get_data() * f
    parts = [(s, rates.get(s.get_name())) for s in b["floating"]]
    if b["signal"] is not None:
        parts.append((b["signal"], None))
    for s, r in parts:
        f = 1. if r is None else r / s.get_num_decays()
        if not c.get("cut_after"):      # a fit shrinks what it is given
            cut(s, b["roi"])
        if c["floating"]:
            for (n, _), v in zip(GLOBALS[c["globals"]], gvals):
                s = systematic(s, n, v)
        if c.get("cut_after"):
            cut(s, b["roi"])
        s.rebin(shape)
        tot += np.array(s.get_data()) * f
    return b, tot


def flatten(c, b, a):
    axes = LAYOUTS[c["layout"]][1]
    drop = tuple(i for i, x in enumerate(axes) if x[0] not in b["roi"])
    a = np.array(a).sum(axis=drop) if drop else np.array(a)
    return np.array([a.sum()]) if c["mode"] == "count" else a


def reference(c, gvals, rates, priors):
    b, e = expected(c, gvals, rates)
    o = flatten(c, b, b["data"].get_data())
    e = flatten(c, b, e)
    stat = np.array([c_stats.ref(c["stat"], float(x), float(y))
                     for x, y in zip(o.ravel(), e.ravel())])
    mag = sum(abs(x) * (1 + abs(math.log(max(x, 1e-34)))) + y
              for x, y in zip(o.ravel(), e.ravel()))
    pen = 0.
    if c["sigma"] is not None:
        for v, p in priors:
            pen += (v - p) ** 2 / c["sigma"] ** 2
    if c["stat"] == "BakerCousinsLL":
        pen *= .5       # a log likelihood rather than a chi squared
    return stat.reshape(o.shape) if c["mode"] == "bins" else stat.sum(), \
        pen, mag


def run_case(ctx, c):
    if "refusals" in c:
        return refusals(ctx)
    CACHE.clear()
    for v in variants(c):
        run_fit(ctx, v)


def run_fit(ctx, c):
    b = build(c)
    fit = make_fit(c, b)
    names = list(RATES)[:c["floating"]]
    rated = [n for i, n in enumerate(names) if has_rate(c, i)]
    grid = [vals for _, vals in GLOBALS[c["globals"]]] if c["floating"] \
        else []
    ng = len(grid)
    grid = grid + [RATES[n] for n in rated]
    if c["floating"] and not grid:
        return
    result = fit.fit()
    key = c["globals"] + ":" + c["mode"]
    if not c["floating"]:
        want, _, mag = reference(c, [], {}, [])
        ctx.step()
        ctx.state(repr(c))
        result, want = np.ravel(result), np.ravel(want)
        ctx.check(result.shape == want.shape and
                  np.allclose(result, want, rtol=1e-9, atol=1e-9 * mag),
                  "fixed:" + c["mode"], "statistic %r, expected %r" % (
                      result, want))
        return
    m = fit.get_minimiser()
    ctx.check([p for p in fit.get_fit_config().get_pars()] ==
              ["_".join(split(n)) for n, _ in GLOBALS[c["globals"]]] +
              [n + "_rate" for n in rated], "parameters",
              "fit parameters are %r" % (fit.get_fit_config().get_pars(),))
    best = None
    for idx in itertools.product(*[range(len(v)) for v in grid]):
        vals = [v[i] for v, i in zip(grid, idx)]
        # the priors are the first values
        want, pen, mag = reference(
            c, vals[:ng], dict(zip(rated, vals[ng:])),
            zip(vals, [v[0] for v in grid]))
        raw, gp = m.get_raw_stat(idx), m.get_penalty_term(idx)
        ctx.step()
        ctx.state((repr(c), idx))
        if not (np.shape(raw) == np.shape(want) and
                np.allclose(raw, want, rtol=1e-8, atol=1e-9 * mag)):
            ctx.fail("statistic:" + key, "at %r the statistic is %r, expected"
                     " %r" % (vals, np.array(raw).tolist(),
                              np.array(want).tolist()))
            return
        ctx.check(lib.near(gp, pen, 1.), "penalty", "at %r the penalty is %r,"
                  " expected %r" % (vals, gp, pen))
        t = float(np.sum(want)) + pen
        if best is None or t < best[0] - 1e-9 * mag:
            best = (t, idx, want, pen, mag)
    got = float(np.sum(result[0])) + float(result[1])
    ctx.check(abs(got - best[0]) <= 1e-8 * best[4] + 1e-8, "minimum",
              "fit returned %r, smallest total is %r" % (got, best[0]))


def refusals(ctx):
    from echidna.core.config import GlobalFitConfig
    from echidna.errors.custom_errors import CompatibilityError
    from echidna.fit import test_statistic
    from echidna.fit.fit import Fit
    stat = test_statistic.BakerCousinsChi
    c = {"layout": "2d", "fixed": 1, "floating": 2, "signal": True,
         "globals": "none", "mode": "whole", "stat": "Pearson",
         "sigma": None, "fine": 1}

    def raises(exc, fn, what):
        ctx.step()
        try:
            fn()
        except exc:
            return
        except Exception as e:
            ctx.fail("refusal:" + what, "%s: %r instead of %s" % (
                what, e, exc.__name__))
            return
        ctx.fail("refusal:" + what, "%s was accepted" % what)
    for roi, exc in (([("energy", (1., 2.))], TypeError),
                     ({"energy": 2.}, TypeError),
                     ({"energy": "ab"}, TypeError),
                     ({"energy": (1.,)}, CompatibilityError),
                     ({"energy": (1., 2., 3.)}, CompatibilityError),
                     ({"energy": (1., 2.), "radial": []},
                      CompatibilityError)):
        raises(exc, lambda: Fit(roi, stat()), "roi %r" % (roi,))
        f = Fit({"energy": (1., 3.)}, stat())
        raises(exc, lambda: f.set_roi(roi), "set_roi %r" % (roi,))
        ctx.check(f.get_roi() == {"energy": (1., 3.)}, "roi-kept",
                  "refused roi was kept")
    for drop in ("data", "backgrounds"):
        b = build(c)
        if drop == "data":
            f = Fit(b["roi"], stat(), fixed_backgrounds=dict(b["fixed"]))
        else:
            f = Fit(b["roi"], stat(), data=b["data"])
        raises(CompatibilityError, f.fit, "fit without " + drop)
    b = build(c)
    f = Fit(b["roi"], stat(), data=b["data"],
            floating_backgrounds=b["floating"])
    raises(IndexError, f.fit, "floating backgrounds without parameters")
    # spectra that do not cover the ROI
    for what in ("data", "fixed", "floating", "signal"):
        b = build(c)
        s = b[what][0] if what == "floating" else b[what][0][0] \
            if what == "fixed" else b[what]
        f = make_fit(c, build(c))
        f.set_roi({"energy": (1.5, 2.5), "radial": (0., 400.)})
        s.shrink(energy_mc_low=2.)
        call = {"data": lambda: f.set_data(s),
                "fixed": lambda: f.set_fixed_background(s),
                "floating": lambda: f.set_floating_backgrounds([s]),
                "signal": lambda: f.set_signal(s)}[what]
        raises(ValueError, call, what + " that does not cover the ROI")
        if what != "signal":
            s = build(c)
            s = s[what][0] if what == "floating" else s[what][0][0] \
                if what == "fixed" else s[what]
            call = {"data": lambda: f.set_data(s, shrink=False),
                    "fixed": lambda: f.set_fixed_background(s, shrink=False),
                    "floating": lambda: f.set_floating_backgrounds(
                        [s], shrink=False)}[what]
            raises(ValueError, call, what + " larger than the ROI, unshrunk")
    raises(TypeError, lambda: Fit({"energy": (1., 3.)}, stat(),
                                  fit_config=build(c)["data"].get_config()),
           "spectra config as fit config")
    g = GlobalFitConfig("g", OrderedDict())
    b = build(dict(c, floating=0))
    g.add_config(rate_config("b0", [1., 2.], None))
    f = Fit(b["roi"], stat(), fit_config=g, data=b["data"],
            fixed_backgrounds=dict(b["fixed"]))
    raises(ValueError, f.fit, "spectral parameters without floating "
           "backgrounds")
