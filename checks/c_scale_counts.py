"""P07: scaling to a number of decays is linear and independent of the path."""
import itertools
from fractions import Fraction as Fr

import numpy as np

import lib

PROPERTY = "P07"
VALUES = [1., 2, 0.25, 1e3, 7, 1. / 3]
# tiny, huge and almost equal numbers of decays; zero (only as the last)
MORE = [1e-9, 4e-9, 1e-20, 1., 1. + 1e-7, 1e12, 1e12 + 1., 3., 3.00001, 0.]
BOUNDS = {
    "quick": "every sequence of up to 4 scalings over 6 targets (int and "
             "float), and of up to 3 over 10 tiny, huge and nearly equal "
             "targets, 4 starting spectra, with and without a preceding "
             "shrink, cut or add",
    "thorough": "sequences up to 6 and 4",
}
JOBS = {"quick": 4, "thorough": 8}
STARTS = [([("energy_mc", 0., 4., 4)], 10.), ([("energy_mc", 0., 4., 4)], 3),
          ([("energy_mc", 0., 2., 2), ("radial_mc", 0., 3., 3)], 0.5),
          ([("energy_mc", 0., 2., 2), ("radial_mc", 0., 3., 3),
            ("time_mc", 0., 1., 2)], 1e6)]


def cases(tier):
    n = 6 if tier == "thorough" else 4
    for r in range(1, n + 1):
        for seq in itertools.product(range(len(VALUES)), repeat=r):
            for k in range(len(STARTS)):
                if r >= 5 and k:
                    continue
                yield {"seq": seq, "start": k,
                       "prefix": ["", "shrink", "cut", "add"][
                           (sum(seq) + k + r) % 4] if r > 2 else None}
    for r in range(1, 5 if tier == "thorough" else 4):
        for seq in itertools.product(range(len(MORE)), repeat=r):
            if len(MORE) - 1 in seq[:-1]:
                continue
            for k in range(2 if r == 3 else len(STARTS)):
                yield {"seq": seq, "start": k, "more": True, "prefix": [
                    "", "shrink", "cut", "add"][(sum(seq) + k) % 4]}


def run_case(ctx, c):
    axes, dec = STARTS[c["start"]]
    prefixes = [c["prefix"]] if c["prefix"] is not None else \
        ["", "shrink", "cut", "add"]
    for prefix in prefixes:
        s = lib.make_spec(axes, "squares", num_decays=dec, raw=21)
        if prefix == "shrink":
            s.shrink(energy_mc_low=1.)
        elif prefix == "cut":
            s.cut(energy_mc_high=1.)
        elif prefix == "add":
            s.add(lib.make_spec(axes, "ones", num_decays=2 * dec))
        before = lib.snap(s)
        d0, n0 = before["data"], before["num_decays"]
        values = MORE if c.get("more") else VALUES
        held = s.get_data()
        for k in c["seq"]:
            v = values[k]
            s.scale(v)
            ctx.step()
            after = lib.snap(s)
            ctx.check(after["num_decays"] == float(v) and
                      isinstance(s.get_num_decays(), float), "num_decays",
                      "num_decays %r after scale(%r)" % (
                          s.get_num_decays(), v))
            want = np.array([float(Fr(float(x)) * Fr(float(v)) / Fr(n0))
                             for x in d0.ravel()]).reshape(d0.shape)
            ctx.check(lib.close(after["data"], want, rtol=1e-11, atol=0.), "contents",
                      "contents after %r differ from the original times "
                      "%r/%r" % (c["seq"], v, n0))
            ctx.check(lib.near(s.sum(), want.sum()), "sum", "sum differs")
            for key in ("axes", "raw_events", "name", "rois", "bipo"):
                ctx.check(after[key] == before[key], "meta",
                          "%s changed" % key)
            ctx.state((c["start"], prefix, v))
        ctx.check(held is s.get_data() or np.array_equal(held, d0), "held",
                  "an array read earlier was half-updated")
