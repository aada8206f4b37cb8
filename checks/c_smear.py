"""P12: weighted smearing spreads each bin over its window with the weights of
the stated resolution, keeps every count and touches no other axis. The
response of every bin is enumerated (the operation is linear; linearity itself
is checked)."""
import itertools
import math

import numpy as np

import lib

PROPERTY = "P12"
BOUNDS = {
    "quick": "5 smearing methods x 6 axes x 6 resolutions (far below to far "
             "above the bin width) x 5 window widths x every single-bin input;"
             " mixed contents in 1-3 axes, axis in every position; by new "
             "smearers and one used with other settings and axes",
    "thorough": "11 axes x 12 resolutions x 7 windows",
}
JOBS = {"quick": 8, "thorough": 8}
EAX = [(0., 3., 6), (0.5, 2.5, 8), (0., 1., 10), (2.4, 2.8, 1), (1., 1.5, 2),
       (0.1, 8., 5)]
EMORE = [(0., 5., 25), (3., 4., 3), (0.013, 2.5, 7), (1.1, 9.3, 12),
         (0., 0.2, 4)]
RAX = [(0., 600., 6), (500., 700., 4), (0., 6000., 10), (0., 100., 1),
       (-300., 300., 5)]
LY = [203.7, 61.3, 1013.1, 17.9, 3.37, 15001.7]
RES = [0.071, 0.013, 0.19, 0.33, 0.0083, 0.61]
RAD = [100., 33., 7., 250., 1111., 0.3]


def cases(tier):
    t = tier == "thorough"
    for method in ("ly-poisson", "ly-gauss", "res-gauss", "res-poisson",
                   "radial"):
        radial = method == "radial"
        vals = RAD if radial else (LY if method.startswith("ly") else RES)
        if t:
            vals = vals + [v * 1.37 for v in vals]
        for axis in (RAX if radial else EAX + (EMORE if t else [])):
            for v in vals:
                if not radial and v < 1 and v > 0.99:
                    continue
                for ns in (5., 1000., 1., 0.5, 2.7) + ((3., 20.) if t else
                                                       ()):
                    yield {"method": method, "axis": axis, "v": v, "ns": ns}


def make(method, v, ns):
    from echidna.core import smear
    if method == "radial":
        x = smear.RadialSmear()
    elif method.startswith("ly"):
        x = smear.EnergySmearLY(poisson=method.endswith("poisson"))
    else:
        x = smear.EnergySmearRes(poisson=method.endswith("poisson"))
    x.set_resolution(v)
    if ns != 5.:
        x.set_num_sigma(ns)
    return x


def used(method, v, ns, axis, name):
    """A smearer that has smeared with other settings and on other axes."""
    low, high, n = axis
    x = make(method, v * .8, ns)
    for a in (axis, (low, low + 2. * (high - low), n),
              (low + .5 * (high - low) / n, high, n)):
        x.weighted_smear(lib.make_spec([(name,) + a], "squares",
                                       num_decays=3.), name)
    x.set_num_sigma(2.)
    x.set_resolution(v)
    x.weighted_smear(lib.make_spec([(name,) + axis], "squares",
                                   num_decays=3.), name)
    x.set_num_sigma(ns)
    x.weighted_smear(lib.make_spec([(name, low, low + 2. * (high - low), n)],
                                   "squares", num_decays=3.), name)
    return x


def sigma_of(method, v, e):
    if method == "radial":
        return v
    if method.startswith("ly"):
        return math.sqrt(e / v)
    return v * math.sqrt(e)


def weight(method, v, x, mean):
    """The documented probability at bin centre x."""
    s = sigma_of(method, v, mean)
    if not method.endswith("poisson"):
        return math.exp(-(x - mean) ** 2 / (2 * s * s))
    ly = v if method.startswith("ly") else 1. / v ** 2
    q = x * ly
    if abs(q - round(q)) < 1e-6:
        return None
    n = math.floor(q)
    lam = mean * ly
    return math.exp(n * math.log(lam) - math.lgamma(n + 1) - lam)


def run_case(ctx, c):
    method, axis, v, ns = c["method"], tuple(c["axis"]), c["v"], c["ns"]
    low, high, n = axis
    w = (high - low) / n
    name = "radial_mc" if method == "radial" else "energy_mc"
    cen = [low + (i + .5) * w for i in range(n)]
    axes = [(name,) + axis]
    shared = used(method, v, ns, axis, name)
    matrix = np.zeros((n, n))
    for i in range(n):
        s = lib.make_spec(axes, "delta%d" % i, num_decays=3., raw=7)
        s._data *= 10.
        before = lib.snap(s)
        out = make(method, v, ns).weighted_smear(s, name)
        again = shared.weighted_smear(s, name)
        ctx.step(2)
        meta(ctx, before, s, out, method)
        r = np.array(out.get_data()) / 10.
        ctx.check(lib.close(again.get_data(), out.get_data()),
                  method + ":reuse", "a smearer used before gives another "
                  "result")
        matrix[i] = r
        ctx.state((method, axis, v, ns, i))
        if not np.isfinite(r).all() or (r < 0).any():
            ctx.fail(method + ":negative", "smeared contents %s" % r.tolist())
            return
        if not lib.near(r.sum(), 1., 1., 1e-9):
            ctx.fail(method + ":total", "bin %d (of %d, %s resolution %r): "
                     "total %r, expected 1" % (i, n, method, v, r.sum()))
            return
        response(ctx, method, v, ns, i, r, cen, w)
    # linearity and the other axes
    data1 = lib.pattern((n,), "squares")
    other, third = ("time_mc", 0., 1., 2), ("charge_mc", 0., 9., 3)
    for ax, shape, pos in (([axes[0]], (n,), 0),
                           ([axes[0], other], (n, 2), 0),
                           ([other, axes[0]], (2, n), 1),
                           ([other, axes[0], third], (2, n, 3), 1)):
        if n > 10 and len(ax) > 1:
            continue
        for kind in ("squares", "sparse"):
            s = lib.make_spec(ax, kind, num_decays=3., raw=7)
            before = lib.snap(s)
            out = shared.weighted_smear(s, name)
            ctx.step()
            meta(ctx, before, s, out, method)
            want = np.moveaxis(np.tensordot(
                matrix, before["data"], axes=([0], [pos])), 0, pos)
            if not lib.close(out.get_data(), want, rtol=1e-8, atol=1e-8):
                ctx.fail(method + ":linear", "smearing %d-axis contents is "
                         "not the sum of the bins' responses" % len(ax))
    # small and large contents; a smearer with a history of other settings
    base = lib.make_spec(axes, "squares")
    ref = shared.weighted_smear(base, name).get_data().copy()
    for unit in (1e-4, 1e-10, 1e9, 1. / 3):
        s = lib.make_spec(axes, "squares")
        s._data *= unit
        ctx.step()
        ctx.check(lib.close(shared.weighted_smear(s, name).get_data() / unit,
                            ref, atol=0.), method + ":scale", "contents of "
                  "the order of %g smear differently" % unit)
    toured = make(method, v * .7, 2.)
    for settings in ((v * .7, 2.), (v * .93, ns), (v, ns)):
        toured.set_resolution(settings[0])
        toured.set_num_sigma(settings[1])
        got = toured.weighted_smear(base, name).get_data()
        ctx.step()
    ctx.check(lib.close(got, ref), method + ":reset", "after other settings "
              "the smearer gives another result")
    s = lib.make_spec(axes + [other], "ones")
    before = lib.snap(s)
    for bad in ("other_mc", name.replace("_mc", "_reco")):
        ctx.check(lib.rejects(lambda: shared.weighted_smear(s, bad)),
                  "unknown", "smearing along %r accepted" % bad)
    ctx.check(lib.same(before, lib.snap(s)) is None, "input", "changed")


def meta(ctx, before, s, out, method):
    d = lib.same(before, lib.snap(s))
    ctx.check(d is None, method + ":input", "input changed: %s" % d)
    got = lib.snap(out)
    for k in ("axes", "num_decays", "raw_events", "bipo", "rois"):
        ctx.check(got[k] == before[k], method + ":meta", "%s %r -> %r" % (
            k, before[k], got[k]))


def response(ctx, method, v, ns, i, r, cen, w):
    s = sigma_of(method, v, cen[i])
    n = len(cen)
    p = [weight(method, v, x, cen[i]) for x in cen]
    inside = []
    for j in range(n):
        dist = abs(cen[j] - cen[i])
        if dist > ns * s + 1.6 * w and r[j] != 0.:
            ctx.fail(method + ":window", "bin %d receives %r from bin %d, "
                     "%.3g sigma away (window %r)" % (j, r[j], i, dist / s,
                                                      ns))
            return
        if dist <= ns * s - .55 * w or j == i:
            inside.append(j)
            if p[j] is not None and p[j] > 1e-250 and \
                    p[j] > 1e-13 * max(q or 0. for q in p) and r[j] == 0.:
                ctx.fail(method + ":window", "bin %d receives nothing from "
                         "bin %d, %.3g sigma away (window %r)" % (
                             j, i, dist / s, ns))
                return
    if any(q is None for q in p):
        ctx.note("skipped: photon count on an integer")
        return
    got = [j for j in range(n) if r[j] > 0.]
    tot = sum(p[j] for j in got)
    for j in got:
        if abs(r[j] - p[j] / tot) > 1e-8 + 1e-6 * p[j] / tot:
            ctx.fail(method + ":weights", "bin %d receives %r of bin %d, the "
                     "resolution says %r" % (j, r[j], i, p[j] / tot))
            return
    if ns >= 1000.:
        tot = sum(p)
        for j in range(n):
            if abs(r[j] - p[j] / tot) > 1e-8:
                ctx.fail(method + ":weights", "bin %d receives %r of bin %d, "
                         "the resolution says %r" % (j, r[j], i, p[j] / tot))
                return
