"""P10: shifting by a whole number of bins is an exact translation."""
import itertools

import numpy as np

import lib

PROPERTY = "P10"
BOUNDS = {
    "quick": "14 axes x every shift by -(n+2)..n+2 bins written 3 ways, both "
             "entry points; each axis of 2- and 3-axis spectra; 5 contents; "
             "every non-multiple class refused; shifters new and used along "
             "other axes and by other bins",
    "thorough": "as quick with 30 axes",
}
JOBS = {"quick": 4, "thorough": 8}
AX = [(0., 4., 4), (0., 1., 10), (0., 0.5, 25), (1., 2., 3), (0.35, 1.05, 7),
      (-1., 0.1, 11), (0., 10., 1), (0., 600., 6), (2.4, 2.6, 10),
      (0., 1., 100), (1000., 1001., 10), (0., 0.06, 3), (0.1, 0.8, 7),
      (-0.3, 0.3, 6)]
NAMES = ["radial_mc", "time_mc"]


def axes_of(tier):
    a = list(AX)
    if tier == "thorough":
        a += [(0., w * b, b) for w in (0.02, 0.05, 0.1, 1. / 3, 0.7, 1.1, 2.5,
                                       0.01) for b in (8, 13)]
    return a


def cases(tier):
    for a in axes_of(tier):
        for kind in ("squares", "sparse"):
            yield {"axes": [("energy_mc",) + a], "kind": kind, "dim":
                   "energy_mc"}
    for a in axes_of(tier):
        if a[2] > 25:
            continue
        e = ("energy_mc",) + a
        r, t = ("radial_mc", 0., 3., 3), ("time_mc", -1., 1., 2)
        for axes in ([e, r], [r, e], [t, e, r], [e, e[:0] + ("energy_reco",) +
                                                a]):
            for kind in ("squares", "sparse", "ones"):
                yield {"axes": axes, "kind": kind, "dim": "energy_mc"}
    e = ("energy_mc", 0., 1., 5)
    for i in range(15):
        for dim in ("energy_mc", "radial_mc"):
            yield {"axes": [e, ("radial_mc", 0., 0.9, 3)],
                   "kind": "delta%d" % i, "dim": dim}


def translate(data, axis, k):
    out = np.zeros(data.shape)
    n = data.shape[axis]
    for i in range(n):
        if 0 <= i - k < n:
            dst = [slice(None)] * data.ndim
            src = list(dst)
            dst[axis], src[axis] = i, i - k
            out[tuple(dst)] = data[tuple(src)]
    return out


def run_case(ctx, c):
    from echidna.core.shift import Shift
    axes = [tuple(a) for a in c["axes"]]
    ax = [a[0] for a in axes].index(c["dim"])
    n, low, high, bins = axes[ax]
    w = (high - low) / bins
    ks = range(-bins - 2, bins + 3)
    if bins > 30:
        ks = sorted(set(list(range(-5, 6)) + list(range(-98, 102, 7))))
    used = Shift()          # has shifted other spectra along other axes
    for s in (lib.make_spec(axes, c["kind"], num_decays=41., raw=17),
              lib.make_spec([(a[0], a[1], a[2] + 1., a[3]) for a in axes],
                            "squares", num_decays=41., raw=17)):
        for a in s.get_config().get_pars():
            used.set_shift(s.get_config().get_par(a).get_width())
            used.shift(s, a)
            used.shift_by_bin(s, a)
    odd = lib.make_spec([(a[0], a[1], a[1] + 1.37 * (a[2] - a[1]), a[3])
                         for a in axes], "squares", num_decays=41., raw=17)
    for k in ks:
        vals = {k * w, float("%.10g" % (k * w)), low + k * w - low}
        acc = 0.
        for _ in range(abs(k)):
            acc += w if k > 0 else -w
        vals.add(acc)
        for v in sorted(vals):
            if abs(v - k * w) > 1e-9 * w:
                continue
            for entry in ("shift", "shift_by_bin"):
                s = lib.make_spec(axes, c["kind"], num_decays=41., raw=17)
                before = lib.snap(s)
                x = used if entry == "shift" or k % 2 else Shift()
                x.set_shift(v)
                if entry == "shift" and bins > 3:
                    x.shift(odd, c["dim"])      # the same by other bins
                out = getattr(x, entry)(s, c["dim"])
                ctx.step()
                ctx.state((tuple(axes), c["kind"], c["dim"], k, entry))
                want = translate(before["data"], ax, k)
                if not lib.close(out.get_data(), want):
                    ctx.fail("translation", "%s of %r by %r (%d bins) along "
                             "%s is not the translated histogram" % (
                                 entry, axes[ax], v, k, n))
                got = lib.snap(out)
                for key in ("axes", "num_decays", "raw_events", "bipo",
                            "rois"):
                    ctx.check(got[key] == before[key], "meta", "%s %r -> %r"
                              % (key, before[key], got[key]))
                d = lib.same(before, lib.snap(s))
                ctx.check(d is None, "input", "input changed: %s" % d)
                ctx.check(x.get_shift() == v, "shifter", "the shifter's own "
                          "shift changed")
    for unit in (1e-3, 1e-9, 1e12, 1. / 3):
        for k in (-1, 0, 1, 2):
            s = lib.make_spec(axes, c["kind"], num_decays=41., raw=17)
            s._data *= unit
            want = translate(s.get_data().copy(), ax, k)
            x = used
            x.set_shift(k * w)
            got = x.shift_by_bin(s, c["dim"]).get_data()
            ctx.step()
            ctx.check(lib.close(got, want, atol=0.), "translation-small",
                      "contents of the order of %g are not translated" % unit)
    for f in (0.02, 0.25, 0.5, 0.9, 1.5, -0.25, -2.5, bins + .5, 1.00003,
              -1.99996):
        s = lib.make_spec(axes, c["kind"], num_decays=41., raw=17)
        before = lib.snap(s)
        x = Shift()
        x.set_shift(f * w)
        ctx.step()
        ctx.check(lib.rejects(lambda: x.shift_by_bin(s, c["dim"])),
                  "non-multiple", "shift by %r bins accepted" % f)
        ctx.check(lib.same(before, lib.snap(s)) is None, "input",
                  "input changed")
    s = lib.make_spec(axes, c["kind"])
    x = Shift()
    x.set_shift(w)
    for bad in ("other_mc", "energy"):
        ctx.check(lib.rejects(lambda: x.shift_by_bin(s, bad)) and
                  lib.rejects(lambda: x.shift(s, bad)), "unknown",
                  "unknown dimension accepted")
