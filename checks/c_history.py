"""P08: any history of spectrum operations keeps contents, axes, counts and
record of decays equal to a reference histogram. Explicit-state search over
the real Spectra in lock step with the reference."""
from fractions import Fraction as Fr

import numpy as np

import lib

PROPERTY = "P08"
BOUNDS = {
    "quick": "breadth-first to 4 operations from 2 starts (2-axis 4x6, 3-axis "
             "2x4x2), alphabet of ~22 operations incl. invalid ones, reached "
             "states de-duplicated; with and without reading everything "
             "before the last operation",
    "thorough": "to 5 operations",
}
STARTS = {
    "2d": [("energy_mc", 0.5, 2.5, 4), ("radial_mc", 0., 6., 6)],
    "3d": [("energy_mc", 0., 1., 2), ("radial_mc", -2., 2., 4),
           ("time_mc", 0., 3., 2)],
}


class Pair(object):
    """The real spectrum and the reference, advanced together."""

    def __init__(self, start):
        axes = STARTS[start]
        self.s = lib.make_spec(axes, "linear", num_decays=60., raw=24)
        self.axes = [(n, Fr(l), Fr(h), b) for n, l, h, b in axes]
        self.data = self.s.get_data().copy()
        self.dec, self.raw, self.rois = 60., 24, {}


def centre(a, i):
    return float(a[1] + (a[2] - a[1]) * (2 * i + 1) / (2 * a[3]))


def edge(a, i):
    return a[1] + (a[2] - a[1]) * i / a[3]


def alphabet(p, h):
    ops = [["fill", "first"], ["fill", "last"], ["fill", "out"],
           ["scale", 2], ["scale", 7.5], ["scale0"],
           ["add", "same"], ["add", "other"]]
    for i, a in enumerate(p.axes):
        ops += [["shrink", i, "low"], ["shrink", i, "high"],
                ["shrink", i, "inside"], ["shrink", i, "none"],
                ["cut", i, "low"], ["roi", i], ["rebin", i, 2],
                ["rebin", i, 3]]
    ops += [["shrink", "all"], ["rebin", "all", 1], ["rebin", "bad", 0],
            ["shrink", "bad", 0]]
    return ops


def canon(p):
    return (tuple((a[0], a[1], a[2], a[3]) for a in p.axes),
            tuple(np.round(p.data.ravel() /
                           max(p.data.max(), 1e-30), 10)),
            round(p.dec, 9), p.raw, tuple(sorted(p.rois)),
            round(float(p.data.sum()), 6))


def invalid(ctx, p, fn, what):
    before = lib.snap(p.s)
    ctx.check(lib.rejects(fn), "accepted:" + what, "invalid %s accepted" %
              what)
    d = lib.same(before, lib.snap(p.s))
    ctx.check(d is None, "trace:" + what, "refused %s changed %s" % (what, d))


def slice_axis(p, i, lo, hi):
    n, low, high, b = p.axes[i]
    p.axes[i] = (n, edge(p.axes[i], lo), edge((n, low, high, b), hi), hi - lo)
    p.data = np.take(p.data, range(lo, hi), axis=i)


def apply(ctx, p, op):
    s, k = p.s, op[0]
    ctx.step()
    if k == "fill":
        if op[1] == "out":
            vals = {a[0]: centre(a, 0) for a in p.axes}
            vals[p.axes[-1][0]] = float(p.axes[-1][2])
            return invalid(ctx, p, lambda: s.fill(**vals), "fill")
        i = 0 if op[1] == "first" else -1
        s.fill(2.0, **{a[0]: centre(a, i % a[3]) for a in p.axes})
        p.data = p.data.copy()
        p.data[tuple(i for _ in p.axes)] += 2.0
    elif k == "scale":
        s.scale(op[1])
        p.data = p.data * (op[1] / p.dec)
        p.dec = float(op[1])
    elif k == "scale0":
        s.scale(s.get_num_decays())
    elif k == "add":
        cur = [(n, float(l), float(h), b) for n, l, h, b in p.axes]
        if op[1] == "other":
            n, l, h, b = cur[0]
            o = lib.make_spec([(n, l, h + 1., b)] + cur[1:], "ones")
            return invalid(ctx, p, lambda: s.add(o), "add")
        o = lib.make_spec(cur, "ones", num_decays=4., raw=3)
        s.add(o)
        p.data = p.data + 1.
        p.dec, p.raw = p.dec + 4., p.raw + 3
    elif k in ("shrink", "cut") and op[1] == "all":
        s.shrink(**{n + e: float(v) for n, l, h, b in p.axes
                    for e, v in (("_low", l), ("_high", h))})
    elif k == "shrink" and op[1] == "bad":
        a, z = p.axes[0], p.axes[-1]
        kw = {z[0] + "_low": float(z[1] - (z[2] - z[1]))}
        if a[3] > 1:
            kw[a[0] + "_high"] = float(edge(a, 1))
        invalid(ctx, p, lambda: s.shrink(**kw), "shrink")
    elif k in ("shrink", "cut"):
        i = op[1]
        n, l, h, b = a = p.axes[i]
        w = (h - l) / b
        if op[2] == "none":
            kw, lim = {n + "_low": float(h - w / 4),
                       n + "_high": float(l + w / 4)}, None
            if b == 1:
                return
        elif op[2] == "low":
            kw, lim = {n + "_low": float(l + w)}, (1, b)
        elif op[2] == "high":
            kw, lim = {n + "_high": float(h - w)}, (0, b - 1)
        else:
            kw = {n + "_low": float(l + w * Fr(3, 10)),
                  n + "_high": float(h - w * Fr(12, 10))}
            lim = (0, b - 1)
        if lim is None or lim[0] >= lim[1]:
            return invalid(ctx, p, lambda: getattr(s, k)(**kw), k)
        total = p.data.sum()
        getattr(s, k)(**kw)
        slice_axis(p, i, *lim)
        if k == "cut":
            p.dec *= p.data.sum() / total
    elif k == "roi":
        i = op[1]
        n, l, h, b = p.axes[i]
        w = (h - l) / b
        lim = (1, b) if b > 1 else (0, b)
        total = p.data.sum()
        s.shrink_to_roi(float(l + w * lim[0] + w / 3), float(h - w / 3), n)
        slice_axis(p, i, *lim)
        p.rois[n] = (p.axes[i][1], p.axes[i][2], p.data.sum() / total)
    elif k == "rebin":
        if op[1] == "bad":
            new = [a[3] for a in p.axes]
            new[-1] = 2 * new[-1]
            if new[0] % 2 == 0:
                new[0] //= 2
            return invalid(ctx, p, lambda: s.rebin(tuple(new)), "rebin")
        if op[1] == "all":
            new = [1] * len(p.axes)
        else:
            new = [a[3] for a in p.axes]
            if new[op[1]] % op[2]:
                new[op[1]] = op[2]
                if p.axes[op[1]][3] % op[2] == 0:
                    return
                return invalid(ctx, p, lambda: s.rebin(tuple(new)), "rebin")
            new[op[1]] //= op[2]
        s.rebin(tuple(new))
        out = np.zeros(new)
        for idx in np.ndindex(*p.data.shape):
            out[tuple(i * m // o for i, m, o in
                      zip(idx, new, p.data.shape))] += p.data[idx]
        p.data = out
        p.axes = [(a[0], a[1], a[2], m) for a, m in zip(p.axes, new)]


def compare(ctx, p, op):
    s = p.s
    got = lib.axes_of(s)
    ok = len(got) == len(p.axes) and all(
        g[0] == a[0] and g[3] == a[3] and
        abs(g[1] - float(a[1])) < 1e-9 * float(a[2] - a[1]) + 1e-12 and
        abs(g[2] - float(a[2])) < 1e-9 * float(a[2] - a[1]) + 1e-12
        for g, a in zip(got, p.axes))
    ctx.check(ok, "axes", "axes %r, reference %r" % (got, [
        (a[0], float(a[1]), float(a[2]), a[3]) for a in p.axes]))
    ctx.check(lib.close(s.get_data(), p.data, atol=1e-9), "contents",
              "contents differ from the reference after %r" % (op,))
    ctx.check(tuple(s.get_config().get_shape()) == s.get_data().shape,
              "shape", "config says %r, contents have %r" % (
                  s.get_config().get_shape(), s.get_data().shape))
    ctx.check(lib.near(s.get_num_decays(), p.dec), "num_decays",
              "num_decays %r, reference %r" % (s.get_num_decays(), p.dec))
    ctx.check(s._raw_events == p.raw, "raw_events", "raw_events %r, "
              "reference %r" % (s._raw_events, p.raw))
    ctx.check(lib.near(s.sum(), p.data.sum(), 1.), "sum", "sum() differs")
    ctx.check(sorted(s._rois) == sorted(p.rois), "rois", "ROIs %r" % s._rois)
    for n, (l, h, e) in p.rois.items():
        r = s.get_roi(n)
        ctx.check(lib.near(r["low"], l, 1.) and lib.near(r["high"], h, 1.) and
                  lib.near(r["efficiency"], e), "roi", "ROI %r, reference %r"
                  % (r, (float(l), float(h), e)))
    for i, a in enumerate(p.axes):
        other = tuple(j for j in range(len(p.axes)) if j != i)
        ctx.check(lib.close(s.project(a[0]), p.data.sum(axis=other),
                            atol=1e-9), "project", "projection differs")


def build(ctx, history):
    p = Pair(history[0])
    for op in history[1:]:
        apply(ctx, p, op)
    compare(ctx, p, history[-1])
    if len(history) > 1:
        # the same with everything asked for before the last operation
        q = Pair(history[0])
        for op in history[1:-1]:
            apply(ctx, q, op)
        look(q.s)
        apply(ctx, q, history[-1])
        compare(ctx, q, history[-1])
    return p


def look(s):
    pars = s.get_config().get_pars()
    s.sum(), s.get_config().get_shape(), s.nd_project(pars)
    for i, n in enumerate(pars):
        s.project(n)
        s.surface(n, pars[i - 1])
        par = s.get_config().get_par(n)
        par.get_width(), par.get_bin_centres(), par.get_bin_boundaries()


def explore(ctx, tier):
    import core
    start = [[k] for k in sorted(STARTS)]
    core.bfs(ctx, start, alphabet, build, canon,
             5 if tier == "thorough" else 4)
