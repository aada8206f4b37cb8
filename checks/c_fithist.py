"""P20: what a fit returns depends only on the ingredients it holds now, not
on the fits run and the ingredients held before; fitting changes none of
them. Every sequence of operations up to a depth is enumerated."""
import itertools
from collections import OrderedDict

import numpy as np

import c_fitstat as base
import lib

PROPERTY = "P20"
BOUNDS = {
    "quick": "4 sets of global systematics x 3 axis layouts x own or shared "
             "background names: every sequence of up to 3 (2 for the costly "
             "ones) of 23 operations (other data, signal, scaled signal, no "
             "signal, other or scaled backgrounds, systematics, fixed background, statistic, "
             "minimiser, filled spectra, narrower region, a second fit of the same spectra), a "
             "fit, whole or (2 of them) per bin, after each or (shared names) only at the end",
    "thorough": "sequences of up to 4",
}
JOBS = {"quick": 8, "thorough": 8}
OPS = ["fit", "D0", "D1", "S0", "S1", "S-", "S*", "S/", "B0", "B1", "X0",
       "X1", "X+", "T1", "M", "B*",
       "B+", "S+", "D+", "R1", "B2", "G1", "F2"]
# the systematics a fit changes to
OTHER = {"none": "shift", "shift": "shift-scale", "scale-shift": "shift",
         "ly": "none"}
# a narrower region, or one over another dimension too
ROIS = {"1d": {"energy": (1.5, 2.5)},
        "2d": {"energy": (1.5, 2.5), "radial": (0., 200.)},
        "2d-energy": {"energy": (1.5, 2.5), "radial": (0., 400.)}}
STAT = ["BakerCousinsLL", "Pearson"]


def cases(tier):
    t = tier == "thorough"
    for g, lay, shared in itertools.product(
            ("none", "shift", "scale-shift", "ly"), ("1d", "2d", "2d-energy"),
            (False, True)):
        if lay == "2d-energy" and (g == "scale-shift" or shared) and not t:
            continue
        small = lay == "1d" and shared and (g == "shift" or t)
        depth = (4 if t else 3) if small else (3 if t else 2)
        for n in range(1, depth + 1):
            for seq in itertools.product(range(len(OPS)), repeat=n):
                if n == 3 and not t and any(OPS[i] in (
                        "fit", "D0", "D1", "S/", "X1", "T1",
                        "D+", "G1", "F2") for i in seq):
                    continue
                for every in (True, False):
                    if not every and n == 1:
                        continue
                    if n == 3 and not t and not every:
                        continue
                    if not every and not shared and not t:
                        continue
                    yield {"globals": g, "layout": lay, "shared": shared,
                           "seq": seq, "every": every}
    for g, lay in (("shift", "1d"), ("none", "2d")):
        for n in (1, 2, 3) if t else (1, 2):
            for seq in itertools.product(range(len(OPS)), repeat=n):
                yield {"globals": g, "layout": lay, "shared": False,
                       "seq": seq, "every": True, "per_bin": True}


def make(c):
    typ, axes, roi = base.LAYOUTS[c["layout"]]
    p = {"D0": base.spec("data", typ, axes, 1, 1, 200.),
         "D1": base.spec("data2", typ, axes, 1, 4, 150.),
         "S0": base.spec("sig", "mc", axes, 1, 2, 17.),
         "S1": base.spec("sig", "mc", axes, 1, 3, 22.)}
    for k in (0, 1):
        p["B%d" % k] = [base.spec("b%d" % i, "mc", axes, 1, 3 - i + k, 55.)
                        for i in (0, 1)]
        p["X%d" % k] = base.spec("f%d" % k, "mc", axes, 1, 2 + k, 80.)
        for s in p["B%d" % k]:
            if s.get_name() == "b1" and fixed_rate(c):
                continue
            s.set_fit_config(base.rate_config(s.get_name(),
                                              RATES[s.get_name()], .5))
    # A single one of another name, with another number of rates
    p["B2"] = [base.spec("c0", "mc", axes, 1, 5, 35.)]
    p["B2"][0].set_fit_config(base.rate_config("c0", RATES["c0"], .5))
    if c["shared"]:
        for s in [p["S0"], p["S1"]] + p["B0"] + p["B1"] + p["B2"]:
            s.set_background_name("all")
    p["roi"] = dict(roi)
    return p


def fixed_rate(c):
    """One of the backgrounds follows the systematics, but has no rate."""
    return c["layout"] == "2d" or c["globals"] == "shift"


RATES = {"b0": [60., 0.], "b1": [30.], "c0": [20., 40., 90.]}


def systematics(which):
    from echidna.core.config import GlobalFitConfig
    pars = OrderedDict()
    for n, vals in base.GLOBALS[which]:
        pars[n] = {"prior": vals[0], "sigma": None, "low": min(vals),
                   "high": max(vals), "bins": len(vals),
                   "values": np.array(vals)}
    return GlobalFitConfig.load({"global_fit_parameters": OrderedDict(
        [("energy_mc", pars)])}, name="g")


def fitter(c, p, st):
    from echidna.fit import test_statistic
    from echidna.fit.fit import Fit
    g = systematics(OTHER[c["globals"]] if st["G"] else c["globals"])
    b = c.get("per_bin", False)
    f = Fit(p["roi"], getattr(test_statistic, STAT[st["T"]])(per_bin=b),
            fit_config=g, per_bin=b,
            data=p["D%d" % st["D"]],
            fixed_backgrounds={p["X%d" % st["X"]]: 70.},
            floating_backgrounds=p["B%d" % st["B"]],
            signal=None if st["S"] is None else p["S%d" % st["S"]])
    return f


def another(c, p, st, f):
    """A second fit of the same spectra to other data runs."""
    from echidna.fit import test_statistic
    from echidna.fit.fit import Fit
    b = c.get("per_bin", False)
    o = Fit(f.get_roi(), getattr(test_statistic, STAT[1 - st["T"]])(per_bin=b),
            fit_config=systematics(c["globals"] if st["G"] else
                                   OTHER[c["globals"]]),
            per_bin=b, data=p["D%d" % (1 - st["D"])],
            fixed_backgrounds={p["X%d" % (1 - st["X"])]: 45.},
            floating_backgrounds=p["B%d" % st["B"]],
            signal=None if st["S"] is None else p["S%d" % st["S"]])
    evaluate(o)


def scaled(s, f):
    s.scale(s.get_num_decays() * f)


def change(p, op, k, again):
    """What an operation does to the spectra it is applied to, having been
    applied some times before."""
    for s in p[k] if op[0] == "B" else [p[k]]:
        if op[1] == "+":
            more(s)
        else:
            scaled(s, {"S*": 2., "S/": .5, "B*": (.6, 2.5)[again % 2]}[op])


def more(s):
    """Further entries, inside every region of interest."""
    kw = {"energy": 1.9, "radial": 50.}
    s.fill(weight=4., **{n: kw[n.split("_")[0]]
                         for n in s.get_config().get_pars()})


REF = {}


def evaluate(f):
    r = f.fit()
    m = f.get_minimiser()
    fc = f.get_fit_config()
    return [float(np.sum(r[0])), float(r[1])] + \
        [float(fc.get_par(n).get_best_fit()) for n in fc.get_pars()] + \
        np.ravel(m.get_stats()).tolist() + np.ravel(r[0]).tolist()


def reference(c, st):
    key = (c["globals"], c["layout"], c.get("per_bin"), tuple(sorted(
        (k, v if v is not None else -1) for k, v in st.items())))
    if key not in REF:
        p = make(dict(c, shared=False))
        for i, (op, k) in enumerate(st["log"]):
            change(p, op, k, st["log"][:i].count((op, k)))
        if st["R"]:
            p["roi"] = dict(ROIS[c["layout"]])
        f = fitter(c, p, st)
        for _ in range(st["+"]):
            f.append_fixed_background({make(c)["X1"]: 11.})
        REF[key] = evaluate(f)
    return REF[key]


def run_case(ctx, c):
    from echidna.fit import test_statistic
    p = make(c)
    st = {"D": 0, "S": 0, "B": 0, "X": 0, "T": 0, "+": 0, "R": 0,
          "G": 0, "log": ()}
    f = fitter(c, p, st)
    extra = make(c)["X1"]
    for n, i in enumerate(c["seq"]):
        op = OPS[i]
        k = "%s%s" % (op[0], st.get(op[0]))
        if op in ("S*", "S/", "B*", "B+", "S+", "D+") and k in p:
            change(p, op, k, st["log"].count((op, k)))
            st["log"] += ((op, k),)
            if op == "B+":
                f.set_floating_backgrounds(p[k])
            elif op == "S+":
                f.set_signal(p[k])
        elif op in ("D0", "D1"):
            f.set_data(p[op])
        elif op in ("S0", "S1"):
            f.set_signal(p[op])
        elif op == "S-":
            f.remove_signal()
        elif op == "G1":
            f.set_fit_config(systematics(OTHER[c["globals"]]))
            f.set_floating_backgrounds(p["B%d" % st["B"]])
            f.set_minimiser()
        elif op in ("B0", "B1", "B2"):
            f.set_floating_backgrounds(p[op])
        elif op in ("X0", "X1"):
            f.make_fixed_background({p[op]: 70.})
            st["+"] = 0
        elif op == "X+":
            f.append_fixed_background({extra: 11.})
            st["+"] += 1
        elif op == "R1":
            f.set_roi(dict(ROIS[c["layout"]]))
            f.shrink_all()
        elif op == "T1":
            f.set_test_statistic(getattr(test_statistic, STAT[1])(
                per_bin=c.get("per_bin", False)))
        elif op == "F2":
            another(c, p, st, f)
        elif op == "M":
            f.set_minimiser()
        if op[1:] in ("0", "1", "2"):
            st[op[0]] = int(op[1])
        elif op == "S-":
            st["S"] = None
        ctx.step()
        ctx.state((c["globals"], c["layout"], repr(sorted(
            st.items(), key=str))))
        if not (c["every"] or n == len(c["seq"]) - 1):
            continue
        held = [f.get_data(), f.get_fixed_background()] + \
            list(f.get_floating_backgrounds())
        if f.get_signal() is not None:
            held.append(f.get_signal())
        before = [lib.snap(s) for s in held]
        got = evaluate(f)
        want = reference(c, st)
        if not lib.close(got, want, rtol=1e-8, atol=1e-8):
            ctx.fail("stale:%s" % op, "after %s (ingredients %r) the fit gives"
                     " %r, a new one %r" % (
                         [OPS[j] for j in c["seq"][:n + 1]], st, got[:6],
                         want[:6]))
            return
        for s, b in zip(held, before):
            d = lib.same(b, lib.snap(s))
            ctx.check(d is None, "changed:" + s.get_name().rstrip("0123"),
                      "fitting changed the %s: %s" % (s.get_name(), d))
