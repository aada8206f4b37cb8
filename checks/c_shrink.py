"""P05: shrink, cut and shrink_to_roi keep exactly the bins that overlap the
requested range, and the axes say which; invalid requests leave no trace."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

import lib

PROPERTY = "P05"
BOUNDS = {
    "quick": "10 axes x every (low, high) pair over all edges x 9 offsets "
             "within a bin (edges written 3 ways), given alone and together; "
             "2- and 3-axis spectra x all combinations of 6 requests per "
             "axis; all pairs of successive requests; every invalid class",
    "thorough": "18 axes, longer pairs of successive requests",
}
JOBS = {"quick": 8, "thorough": 8}
AXES = [(0., 4., 4), (0., 1., 10), (0.35, 1.05, 7), (-1., 0.1, 11),
        (-0.3, 0.3, 6), (1000., 1001., 10), (0., 10., 3), (0.5, 3.5, 1),
        (2.45, 2.75, 5), (0., 0.14, 7)]
MORE = [(0.1, 0.9, 8), (-5., -4., 5), (1. / 3, 2., 5), (0., 6000., 12),
        (0.02, 0.2, 9), (-1., 1., 13), (0., 1., 1), (7., 8.4, 14)]
OFFS = [Fr(0), Fr(1, 4), Fr(3, 4), Fr(1, 50), Fr(49, 50), Fr(1, 2),
        Fr(1, 1000), Fr(999, 1000)]
SETS = [[("energy_mc", 0.35, 1.05, 7), ("radial_mc", 0., 4., 4)],
        [("radial_mc", -1., 0.1, 3), ("energy_mc", 0., 1., 10)],
        [("energy_mc", 0., .3, 3), ("radial_mc", 0., 2., 2),
         ("time_mc", 5., 6., 4)],
        [("energy_mc", 0., 4., 4), ("energy_reco", 0., 4., 4)]]


def points(axis):
    low, high, b = axis
    lo, w = Fr(float(low)), (Fr(float(high)) - Fr(float(low))) / b
    out = []
    for i in range(b + 1):
        seen = set()
        for f in OFFS:
            if i == b and f:
                continue
            x = float(lo + (i + f) * w)
            if x not in seen and low <= x <= high:
                seen.add(x)
                out.append(x)
        for x in (low + i * ((high - low) / b), round(float(lo + i * w), 9)):
            if x not in seen and abs(x - float(lo + i * w)) < 1e-9 * float(w):
                seen.add(x)
                out.append(x)
    return out


def bins_of(axis, x, side):
    low, high, b = axis
    lo, w = Fr(float(low)), (Fr(float(high)) - Fr(float(low))) / b
    q = (Fr(float(x)) - lo) / w
    if side == "low":
        k = math.floor(q)
        return k + 1 if q - k > Fr(992, 1000) else k
    k = math.ceil(q)
    return k - 1 if k - q > Fr(992, 1000) else k


def cases(tier):
    axes = AXES + (MORE if tier == "thorough" else [])
    for a in axes:
        pts = points(a)
        for op in ("shrink", "cut", "roi"):
            for i, x in enumerate(pts):
                yield {"axis": a, "op": op, "low": x}
        yield {"axis": a, "op": "invalid"}
        yield {"axis": a, "op": "pairs",
               "n": 12 if tier == "thorough" else 7}
    for s in SETS:
        for op in ("shrink", "cut"):
            reqs = []
            for n, low, high, b in s:
                w = (high - low) / b
                r = [None, (low, high), (low + w * .25, None)]
                if b > 1:
                    r += [(None, high - w), (low + w, high - w * .5)
                          if b > 2 else (low + w, None),
                          (low + w * (b - 1), high)]
                reqs.append(r)
            for combo in itertools.product(*reqs):
                yield {"axes": s, "op": op, "request": combo}
        yield {"axes": s, "op": "invalid-multi"}


def expect(axes, data, limits):
    """limits: list of (low bin, high bin)."""
    out = []
    for (n, low, high, b), (i, j) in zip(axes, limits):
        lo, w = Fr(float(low)), (Fr(float(high)) - Fr(float(low))) / b
        out.append((n, lo + i * w, lo + j * w, j - i, w))
    return out, data[tuple(slice(i, j) for i, j in limits)]


def compare(ctx, s, axes, data, limits, key):
    want, wdata = expect(axes, data, limits)
    got = lib.axes_of(s)
    ok = len(got) == len(want)
    for g, e in zip(got, want):
        sc = max(float(e[4]), abs(float(e[1])), abs(float(e[2])))
        ok = ok and g[0] == e[0] and g[3] == e[3] and \
            abs(g[1] - float(e[1])) < 1e-8 * float(e[4]) + 1e-12 * sc and \
            abs(g[2] - float(e[2])) < 1e-8 * float(e[4]) + 1e-12 * sc
    if not ok:
        ctx.fail(key + "-axes", "axes are %r, expected %r" % (got, [
            (e[0], float(e[1]), float(e[2]), e[3]) for e in want]))
        return False
    if not lib.close(s.get_data(), wdata):
        ctx.fail(key + "-data", "contents are not the kept bins: shape %r, "
                 "expected %r" % (s.get_data().shape, wdata.shape))
        return False
    return True


def run_case(ctx, c):
    if "axis" in c:
        axis = tuple(c["axis"])
        axes = [("energy_mc",) + axis]
        if c["op"] == "invalid":
            return invalid(ctx, axes)
        if c["op"] == "pairs":
            return pairs(ctx, axes, c["n"])
        return highs(ctx, axis, axes, c["op"], c["low"])
    axes = [tuple(a) for a in c["axes"]]
    if c["op"] == "invalid-multi":
        return invalid(ctx, axes)
    kw, limits = {}, []
    for a, r in zip(axes, c["request"]):
        i, j = 0, a[3]
        if r and r[0] is not None:
            kw[a[0] + "_low"] = r[0]
            i = bins_of(a[1:], r[0], "low")
        if r and r[1] is not None:
            kw[a[0] + "_high"] = r[1]
            j = bins_of(a[1:], r[1], "high")
        limits.append((i, j))
    s = lib.make_spec(axes, "squares", num_decays=50., raw=9)
    do(ctx, s, axes, c["op"], kw, limits)


def do(ctx, s, axes, op, kw, limits):
    before = lib.snap(s)
    if op == "shrink":
        s.shrink(**kw)
    else:
        s.cut(**kw)
    ctx.step()
    ctx.state((tuple(axes), op, tuple(limits)))
    if not compare(ctx, s, axes, before["data"], limits, op):
        return
    after = lib.snap(s)
    dec = before["num_decays"]
    if op == "cut":
        dec *= after["data"].sum() / before["data"].sum()
    ctx.check(lib.near(after["num_decays"], dec), op + "-num_decays",
              "num_decays %r, expected %r" % (after["num_decays"], dec))
    for k in ("raw_events", "name", "rois", "bipo", "style"):
        ctx.check(after[k] == before[k], op + "-meta", "%s changed" % k)
    # the axes and the contents still agree: filling lands where it should
    c = s.get_config()
    d0 = np.array(s.get_data())
    pos = {n: c.get_par(n).get_bin_centre(c.get_par(n).get_bins() - 1)
           for n in c.get_pars()}
    s.fill(1.5, **pos)
    d0[tuple(-1 for _ in axes)] += 1.5
    ctx.check(lib.close(s.get_data(), d0), op + "-fill",
              "filling the last bin after %s lands elsewhere" % op)


def highs(ctx, axis, axes, op, x):
    i = bins_of(axis, x, "low")
    n = axis[2]
    if op != "roi":
        s = lib.make_spec(axes, "squares", num_decays=50., raw=9)
        if i < n:
            do(ctx, s, axes, op, {"energy_mc_low": x}, [(i, n)])
        s = lib.make_spec(axes, "squares", num_decays=50., raw=9)
        j = bins_of(axis, x, "high")
        if j > 0:
            do(ctx, s, axes, op, {"energy_mc_high": x}, [(0, j)])
    for y in points(axis):
        j = bins_of(axis, y, "high")
        kw = {"energy_mc_low": x, "energy_mc_high": y}
        s = lib.make_spec(axes, "squares", num_decays=50., raw=9)
        if j <= i:
            # nothing left between the limits: refused, whole
            if y < x or j == i and i == bins_of(axis, x, "high"):
                before = lib.snap(s)
                ctx.step()
                if op == "roi":
                    r = lib.rejects(
                        lambda: s.shrink_to_roi(x, y, "energy_mc"))
                else:
                    r = lib.rejects(lambda: getattr(s, op)(**kw))
                ctx.check(r, "empty-range", "%s to the empty range %r was "
                          "accepted" % (op, kw))
                d = lib.same(before, lib.snap(s))
                ctx.check(d is None, "empty-range-trace", "refused %s to %r "
                          "changed %s" % (op, kw, d))
            continue
        if y < x:
            continue
        if op != "roi":
            do(ctx, s, axes, op, kw, [(i, j)])
            continue
        before = lib.snap(s)
        s.shrink_to_roi(x, y, "energy_mc")
        ctx.step()
        ctx.state((axis, op, i, j))
        if compare(ctx, s, axes, before["data"], [(i, j)], "roi"):
            roi = s.get_roi("energy_mc")
            a = lib.axes_of(s)[0]
            eff = s.get_data().sum() / before["data"].sum()
            ctx.check(roi["low"] == a[1] and roi["high"] == a[2] and
                      lib.near(roi["efficiency"], eff), "roi",
                      "ROI record %r, expected limits %r and efficiency %r" %
                      (roi, a[1:3], eff))
            ctx.check(s.get_num_decays() == before["num_decays"],
                      "roi-num_decays", "shrinking to a ROI changed the "
                      "number of decays of the full spectrum")


def pairs(ctx, axes, n):
    """Two successive requests select the intersection."""
    a = axes[0]
    low, high, b = a[1:]
    w = (high - low) / b
    reqs = [(p, q) for p in range(b) for q in range(p + 1, b + 1)]
    reqs = reqs[::max(1, len(reqs) // (n * 2))][:n * 2]
    for r1 in reqs:
        for r2 in reqs:
            lo, hi = max(r1[0], r2[0]), min(r1[1], r2[1])
            if lo >= hi or not (r1[0] <= r2[0] and r2[1] <= r1[1]):
                continue
            for off in (0., .3):
                s = lib.make_spec(axes, "squares", num_decays=50.)
                d = s.get_data().copy()
                for op, (p, q) in (("shrink", r1), ("cut", r2)):
                    getattr(s, op)(energy_mc_low=low + (p + off) * w,
                                   energy_mc_high=low + (q - off) * w)
                    ctx.step()
                ctx.state((a, r1, r2, off))
                compare(ctx, s, axes, d, [(lo, hi)], "successive")
            s = lib.make_spec(axes, "squares", num_decays=50.)
            for p, q in (r1, r2):
                full = float(s.sum())
                s.shrink_to_roi(low + p * w, low + q * w, a[0])
                ctx.step()
                roi = s.get_roi(a[0])
                ctx.check(lib.near(roi["efficiency"], s.sum() / full, 1.) and
                          lib.near(roi["low"], low + p * w, w, 1e-6) and
                          lib.near(roi["high"], low + q * w, w, 1e-6),
                          "roi-again", "region of interest %r after shrinking "
                          "%r to it" % (roi, full))


def invalid(ctx, axes):
    def bad(kw, what, roi=None):
        for op in ("shrink", "cut"):
            s = lib.make_spec(axes, "squares", num_decays=50.)
            before = lib.snap(s)
            r = lib.rejects(lambda: getattr(s, op)(**kw))
            ctx.step()
            ctx.check(r, "accepted:" + what, "%s(%r) accepted: %s" % (
                op, kw, what))
            d = lib.same(before, lib.snap(s))
            ctx.check(d is None, "trace:" + what, "refused %s(%r) changed %s"
                      % (op, kw, d))
    base = {}
    for n, low, high, b in axes:
        w = (high - low) / b
        if b > 1:
            base[n + "_high"] = high - w
    for n, low, high, b in axes:
        w = (high - low) / b
        # outside by more than the rounding of a stored limit
        d = min(.5 * w, max(.002 * w, 3e-5 * max(abs(low), abs(high))))
        for x in (low - d, low - .6 * w, low - w, low - 3 * w, low - 100 * w,
                  float("nan"), -float("inf")):
            bad(dict(base, **{n + "_low": x}), "low limit outside the axis")
        for x in (high + d, high + .6 * w, high + w, high + 3 * w, high + 100 * w,
                  float("nan"), float("inf")):
            bad(dict(base, **{n + "_high": x}), "high limit outside the axis")
        bad(dict(base, **{n + "_low": high + w}), "low limit above the axis")
        bad(dict(base, **{n + "_high": low - w}), "high limit below the axis")
        bad(dict(base, **{n + "_low": high}), "low limit at the upper end")
        bad(dict(base, **{n + "_high": low}), "high limit at the lower end")
        if b > 1:
            bad(dict(base, **{n + "_low": high - .3 * w,
                              n + "_high": low + .3 * w}), "inverted range")
        for k in (n, n + "_mid", n + "low", "other_mc_low", "_low", "high",
                  n.split("_")[0] + "_low"):
            bad(dict(base, **{k: low + w * .5}), "unknown limit name")
