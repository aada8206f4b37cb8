"""P11: interpolated shifting and scaling of an axis conserve the total, give
the interpolated marginal, and mix only the two source bins involved."""
import numpy as np
from scipy import interpolate

import lib

PROPERTY = "P11"
BOUNDS = {
    "quick": "5 axes x 27 shifts and 14 scale factors x interpolation order "
             "1-3 x 7 contents, as 1-, 2- and 3-axis spectra with the axis in "
             "every position; one- and all-empty contents; shifters and scalers used "
             "on other spectra and by other amounts; spectra changed in 6 ways "
             "since they were last shifted",
    "thorough": "as quick with 12 axes, 60 shifts, 40 factors",
}
JOBS = {"quick": 8, "thorough": 8}
AX = [(0., 6., 6), (0.5, 2.5, 8), (1., 11., 10), (-1., 1., 5), (0., 1.4, 7)]
MORE = [(0., 30., 12), (2., 3., 4), (-5., -1., 8), (0., 10., 20),
        (0.3, 0.9, 6), (100., 700., 6), (5., 6.1, 11)]
FRACS = [0.1, -0.1, 0.25, -0.25, 0.5, -0.5, 0.75, -0.9, 1.3, -1.3, 2.5, -2.4,
         3.2, -3.2, 4.6, -4.6, 0.01, -0.01]
SFS = [1., 0.99, 1.01, 0.95, 1.05, 0.9, 1.1, 0.8, 1.25, 0.5, 2., 3., 0.3]
R = ("radial_mc", 0., 3., 3)
T = ("time_mc", 0., 1., 2)


def cases(tier):
    t = tier == "thorough"
    fr, sf = list(FRACS), list(SFS)
    if t:
        fr += [x + 0.37 for x in FRACS] + [x * 2.03 for x in FRACS]
        sf += [1 + x / 100. for x in (-30, -17, -7, -3, 2, 3, 4, 6, 7, 8, 9,
                                      12, 15, 22, 33, 50, 75, 140, 250)]
    for a in AX + (MORE if t else []):
        n = a[2]
        w = (a[1] - a[0]) / n
        ops = [("shift", f * w) for f in fr] + \
            [("shift", f * w) for f in (n - 0.6, 0.6 - n, n + 0.4, -n - .4,
                                        n * 3.3)] + \
            [("scale", x) for x in sf]
        for op, v in ops:
            for k in (1, 2, 3):
                if n > k:
                    yield {"axis": a, "op": op, "v": v, "k": k}


def contents(n):
    i = np.arange(n)
    return [("ramp", 1. + i), ("flat", np.full(n, 4.)),
            ("hump", 2. + 10 * np.exp(-(i - n / 2.) ** 2 / 4.)),
            ("fall", 100. / (1. + i)),
            ("zigzag", 3. + 2. * (i % 2)),
            ("peak", np.where(i == n // 2, 50., 0.)),
            ("gap", np.where((i > 1) & (i < n - 1), 0., 5.)),
            ("empty", np.zeros(n))]


USED = {}


def apply(s, dim, c, fresh=False, k=None):
    """Shift or scale s, unless fresh with the object used for all spectra of
    the case."""
    from echidna.core.shift import Shift
    from echidna.core.scale import Scale
    x = USED.get(c["op"])
    if fresh or x is None:
        x = Shift() if c["op"] == "shift" else Scale()
    if c["op"] == "shift":
        x.set_shift(c["v"])
        return x.shift(s, dim, k=k or c["k"])
    x.set_scale_factor(c["v"])
    return x.scale(s, dim, k=k or c["k"])


def warm(axis, c):
    """Objects that have shifted and scaled something else by something
    else."""
    from echidna.core.shift import Shift
    from echidna.core.scale import Scale
    low, high, n = axis
    s = lib.make_spec([("energy_mc",) + axis], data=3. + np.arange(n) % 3,
                      num_decays=12., raw=31)
    x, y = Shift(), Scale()
    x.set_shift(.3 * (high - low) / n)
    x.shift(s, "energy_mc")
    y.set_scale_factor(1.07)
    y.scale(s, "energy_mc")
    for wide in (abs(c["v"]) * n, 1.7 * (high - low)):
        if wide > 0:
            s = lib.make_spec([("energy_mc", low, low + wide, n)],
                              data=3. + np.arange(n) % 3, num_decays=12.)
            x.set_shift(c["v"])
            x.shift(s, "energy_mc")
            y.set_scale_factor(c["v"] if c["op"] == "scale" else 1.07)
            y.scale(s, "energy_mc")
    USED.update(shift=x, scale=y)


def again(ctx, c, axis):
    """A spectrum shifted or scaled before and changed since gives what a new
    one with the same contents does."""
    low, high, n = axis
    w = (high - low) / n
    m = 2. + np.arange(n) * .5
    axes = [("energy_mc",) + axis, R]
    data = np.multiply.outer(m, [.5, .25, .25])
    s = lib.make_spec(axes, data=data, num_decays=12., raw=31)
    more = lib.make_spec(axes, data=data[::-1], num_decays=0.)
    i = n // 2

    def move(j, k):
        """Contents from one bin to another, keeping the total."""
        s.fill(energy_mc=low + (j + .5) * w, radial_mc=.5, weight=.9)
        s.fill(energy_mc=low + (k + .5) * w, radial_mc=.5, weight=-.9)
    ks = [k for k in (c["k"], 1 if c["k"] > 1 else 2) if n > k]
    for what, change in [
            ("first", lambda: None), ("again", lambda: None),
            ("filled", lambda: s.fill(energy_mc=low + (i + .5) * w,
                                      radial_mc=.5, weight=6.)),
            ("moved", lambda: move(n - 1, 0)),
            ("scaled", lambda: s.scale(s._num_decays * 3.)),
            ("added", lambda: s.add(more)),
            ("rebinned", lambda: s.rebin((n, 1)))]:
        change()
        ks = ks[::-1]       # the last order first, then the other
        for k in ks:
            got = apply(s, "energy_mc", c, k=k)
            new = lib.make_spec([axes[0], R[:3] + (1,)] if what == "rebinned"
                                else axes, data=np.array(s.get_data()))
            want = apply(new, "energy_mc", c, True, k)
            ctx.step()
            ctx.check(lib.close(got.get_data(), want.get_data(), rtol=1e-7,
                                atol=1e-9), c["op"] + ":again",
                      "a spectrum shifted before and %s since gives %r, a new "
                      "one %r" % (what, np.array(got.get_data()).tolist(),
                                  np.array(want.get_data()).tolist()))


def sources(axis, c):
    """For every new bin the position in the old axis it comes from."""
    low, high, n = axis
    w = (high - low) / n
    for i in range(n):
        x = low + (i + 0.5) * w
        src = x - c["v"] if c["op"] == "shift" else x / c["v"]
        edge = min(abs(src - low), abs(src - high)) < 1e-9 * max(
            w, abs(src))
        if src < low or src >= high:
            yield i, None, edge
        else:
            yield i, min(max(src, low + .5 * w), high - .5 * w), edge


def run_case(ctx, c):
    axis = tuple(c["axis"])
    low, high, n = axis
    w = (high - low) / n
    e = ("energy_mc",) + axis
    whole = c["op"] == "shift" and abs(c["v"] / w - round(c["v"] / w)) < 1e-9
    ctx.state(repr(c))
    warm(axis, c)
    again(ctx, c, axis)
    for name, m in contents(n):
        x = [low + (i + .5) * w for i in range(n)]
        f = interpolate.InterpolatedUnivariateSpline(x, m, k=c["k"])
        want, amb = np.zeros(n), False
        for i, src, edge in sources(axis, c):
            amb = amb or edge
            if src is not None:
                want[i] = max(float(f(src)), 0.)
        if amb:
            ctx.note("skipped: a bin centre maps onto the axis end")
            continue
        # one axis
        for axes, shape in (([e], (n,)), ([e, R], (n, 3)), ([R, e], (3, n)),
                            ([R, e, T], (3, n, 2))):
            pos = [a[0] for a in axes].index("energy_mc")
            other = np.array([1., 2., 5.])
            if len(axes) == 1:
                data = m.copy()
            else:
                col = other / other.sum()
                data = np.multiply.outer(m, col)
                if len(axes) == 3:
                    data = np.multiply.outer(data, [.25, .75])
                data = np.moveaxis(data, 0, pos)
            check_one(ctx, c, axes, pos, data, want, name, m, f, whole)
        if not whole:
            s = lib.make_spec([e], data=m)
            ref = apply(s, "energy_mc", c).get_data().copy()
            for unit in (1e-10, 1e-4, 1e7):
                s = lib.make_spec([e], data=m * unit)
                got = apply(s, "energy_mc", c).get_data()
                ctx.step()
                ctx.check(lib.close(got / unit, ref, rtol=1e-6,
                                    atol=1e-9 * m.max()), c["op"] +
                          ":homogeneous", "contents of the order of %g give "
                          "another shape" % unit)
        if name in ("flat", "ramp", "hump"):
            mixture(ctx, c, axis, m, f, whole)


def check_one(ctx, c, axes, pos, data, want, name, m, f, whole):
    s = lib.make_spec(axes, data=data, num_decays=12., raw=31)
    before = lib.snap(s)
    out = apply(s, "energy_mc", c)
    ctx.step()
    got = lib.snap(out)
    key = "%s:%s" % (c["op"], name)
    d = lib.same(before, lib.snap(s))
    ctx.check(d is None, "input", "input changed: %s" % d)
    for k in ("axes", "num_decays", "raw_events", "bipo", "rois"):
        ctx.check(got[k] == before[k], "meta", "%s: %r -> %r" % (
            k, before[k], got[k]))
    g = got["data"]
    if not np.isfinite(g).all():
        ctx.fail(key + ":finite", "result of %r contains NaN or infinity" %
                 (c,))
        return
    ctx.check((g >= -1e-12).all(), key + ":negative", "negative contents")
    tot = before["data"].sum()
    other = tuple(i for i in range(g.ndim) if i != pos)
    gm = g.sum(axis=other) if other else g
    if whole:
        return
    if g.sum() == 0.:
        # allowed only if nothing is mapped into the axis
        live = [i for i, src, _ in sources(tuple(axes[pos][1:]), c)
                if src is not None and want[i] > 1e-9 * (1 + m.max()) and
                near_content(m, axes[pos], src)]
        ctx.check(not live, key + ":lost", "all contents lost although bins "
                  "%r map into the axis" % live)
        return
    if not lib.near(g.sum(), tot, 1., 1e-9):
        ctx.fail(key + ":total", "total %r -> %r" % (tot, g.sum()))
        return
    # no contents where both source bins are empty
    for i, src, _ in sources(tuple(axes[pos][1:]), c):
        if src is None:
            ctx.check(gm[i] == 0., key + ":outside", "bin %d is filled from "
                      "outside the axis" % i)
    if (m > 0).all():
        ref = want / want.sum() * tot
        if not np.allclose(gm, ref, rtol=1e-4, atol=1e-4 * ref.max()):
            ctx.fail(key + ":marginal", "marginal %s, interpolated %s" % (
                gm.tolist(), ref.tolist()))
    if other:
        # the other axes keep their distribution
        om = before["data"].sum(axis=pos) / tot
        live = gm > 1e-9 * gm.max()
        ref = np.moveaxis(np.multiply.outer(gm, om), 0, pos)
        if not np.allclose(g, ref, rtol=1e-6, atol=1e-9 * g.max()):
            ctx.fail(key + ":separable", "the distribution over the other "
                     "axes changed")


def near_content(m, axis, src):
    low, high, n = axis[1:]
    w = (high - low) / n
    p = (src - low) / w - 0.5
    i = int(np.floor(p + 1e-9))
    return any(0 <= j < n and m[j] > 0 for j in (i, i + 1))


def mixture(ctx, c, axis, m, f, whole):
    """Slices of the result are mixtures of the two nearest source slices."""
    low, high, n = axis
    w = (high - low) / n
    prof = np.array([[1 + (i * 3 + j * j) % 5 for j in range(4)]
                     for i in range(n)], dtype=float)
    prof /= prof.sum(axis=1)[:, None]
    data = prof * m[:, None]
    axes = [("energy_mc",) + axis, ("radial_mc", 0., 4., 4)]
    s = lib.make_spec(axes, data=data, num_decays=12.)
    o = apply(s, "energy_mc", c)
    st = lib.make_spec(axes[::-1], data=data.T, num_decays=12.)
    ot = apply(st, "energy_mc", c)
    ctx.step(2)
    g = np.array(o.get_data())
    ctx.check(lib.close(g.T, ot.get_data(), rtol=1e-7, atol=1e-9),
              c["op"] + ":transpose", "result depends on the order of axes")
    if whole:
        return
    flat = np.ptp(m) == 0
    for i, src, _ in sources(axis, c):
        t = g[i].sum()
        if src is None or t <= 0:
            continue
        p = (src - low) / w - 0.5
        a = min(max(int(np.floor(p + 1e-12)), 0), n - 1)
        b = min(a + 1, n - 1)
        frac = min(max(p - a, 0.), 1.)
        row = g[i] / t
        # row = (1-x) * prof[a] + x * prof[b]
        dp = prof[b] - prof[a]
        x = float(np.dot(row - prof[a], dp) / np.dot(dp, dp)) if dp.any() \
            else 0.
        res = np.abs(row - prof[a] - x * dp).max()
        if res > 1e-5 or not -1e-5 <= x <= 1 + 1e-5:
            ctx.fail(c["op"] + ":mixture", "bin %d is not a mixture of source "
                     "bins %d and %d (x=%r, residual %r)" % (i, a, b, x, res))
            return
        inside = src >= low + w and src <= high - w
        if flat and inside and dp.any() and abs(x - frac) > 1e-4:
            ctx.fail(c["op"] + ":overlap", "bin %d takes %r of source bin %d, "
                     "its overlap is %r" % (i, x, b, frac))
            return
        if dp.any() and not flat and (frac > .999 and x < .99 or
                                      frac < .001 and x > .01):
            ctx.fail(c["op"] + ":overlap", "bin %d takes its contents from "
                     "the wrong source bin" % i)
            return
