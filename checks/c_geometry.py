"""P01: the axis geometry (edges, centres, bin numbers, rounding) agrees with
one exact rational model of a uniform axis."""
import itertools
from collections import OrderedDict
import numpy as np
from fractions import Fraction as Fr

import lib
from echidna.core.parameter import SpectraParameter

PROPERTY = "P01"
BOUNDS = {
    "quick": "10 lows x 10 widths x 14 bin counts (1..12, 50, 100), every bin,"
             " 8 positions per bin, every invalid index and out-of-range class;"
             " also after set_par in every field order",
    "thorough": "as quick with 24 lows x 24 widths x 40 bin counts",
}

LOWS = [0., 0.5, 1., 0.1, 0.35, -1., -0.3, 2.45, 100., 5000.]
WIDTHS = [1., 0.5, 0.1, 0.02, 0.01, 1. / 3, 2.5, 10., 100. / 7, 0.037]
BINS = list(range(1, 13)) + [50, 100]
JOBS = {"quick": 4, "thorough": 8}


def cases(tier):
    lows, widths, bins = list(LOWS), list(WIDTHS), list(BINS)
    if tier == "thorough":
        lows += [0.7, -2.5, 3.3, 1e-3, -1e-3, 17., 250.5, -40., 0.6, 0.25,
                 1999.9, -7.77, 12.5, 6.02]
        widths += [0.2, 0.05, 0.3, 0.7, 1.1, 0.25, 3., 7., 100., 0.001, 0.125,
                   1. / 7, 2. / 3, 60.]
        bins += list(range(13, 31)) + [64, 99, 101, 200, 240, 333, 500, 1000]
    for b in bins:
        for w in widths:
            for low in lows:
                yield {"low": low, "high": low + w * b, "bins": b}
    # integer-typed arguments
    for low in (0, 1, -3):
        for width, b in ((1, 4), (3, 2), (5, 1)):
            yield {"low": low, "high": low + width * b, "bins": b}
        yield {"low": low, "high": low + 10, "bins": 4}
        yield {"low": low, "high": low + 7, "bins": 3}


def run_case(ctx, c):
    low, high, bins = c["low"], c["high"], c["bins"]
    par = SpectraParameter("energy_mc", low, high, bins)
    geometry(ctx, par, low, high, bins)
    # the same axis reached through set_par
    q = SpectraParameter("energy_mc", -17., 23., 9)
    q.set_par(bins=bins)
    q.set_par(high=high, low=low)
    geometry(ctx, q, low, high, bins)
    # one setting at a time, and all of it read after each
    if bins in (1, 3, 4, 10):
        for order in itertools.permutations((("low", low), ("high", high),
                                             ("bins", bins))):
            q = SpectraParameter("energy_mc", low - 2., high + 3., bins + 5)
            now = {"low": low - 2., "high": high + 3., "bins": bins + 5}
            for k, v in (("", 0),) + order:
                if k:
                    q.set_par(**{k: v})
                    now[k] = v
                geometry(ctx, q, now["low"], now["high"], now["bins"])
    if bins == 4:
        before = (q.get_low(), q.get_high(), q.get_bins())
        ctx.check(lib.rejects(lambda: q.set_par(width=3)), "set_par-unknown",
                  "set_par accepted an unknown field")
        ctx.check(before == (q.get_low(), q.get_high(), q.get_bins()),
                  "set_par-unknown", "rejected set_par changed the axis")
        for order in itertools.permutations(("low", "high", "bins", "bad")):
            kw = OrderedDict((k, {"low": -3., "high": 40., "bins": 7}.get(k))
                             for k in order)
            for name, value in (("width", 3.), ("low", "abc"),
                                ("high", "abc"), ("bins", "abc")):
                bad = OrderedDict((name if k == "bad" else k, v)
                                  for k, v in kw.items())
                bad[name] = value
                ctx.step()
                ctx.check(lib.rejects(lambda: q.set_par(**bad)),
                          "set_par-refused", "%r accepted" % dict(bad))
                ctx.check(before == (q.get_low(), q.get_high(), q.get_bins()),
                          "set_par-refused", "refused %r changed the axis" %
                          dict(bad))
    ctx.state((float(low), float(high), bins))


def geometry(ctx, par, low, high, bins):
    lo, w = Fr(float(low)), (Fr(float(high)) - Fr(float(low))) / bins
    fw = float(w)
    tol = 1e-9 * max(fw, abs(float(low)), abs(float(high)))

    def near(a, b):
        return abs(float(a) - float(b)) <= tol

    ctx.check(par.get_bins() == bins and type(par.get_low()) is float and
              type(par.get_high()) is float and par.get_low() == low and
              par.get_high() == high, "bounds", "bounds differ")
    ctx.check(near(par.get_width(), w), "width", "width %r, expected %r" % (
        par.get_width(), fw))
    edges = np.asarray(par.get_bin_boundaries())
    ctx.check(edges.shape == (bins + 1,) and all(
        near(e, lo + i * w) for i, e in enumerate(edges)), "boundaries",
        "bin boundaries differ from low + i*width", got=edges[:20])
    centres = np.asarray(par.get_bin_centres())
    ctx.check(centres.shape == (bins,) and all(
        near(x, lo + (i + Fr(1, 2)) * w) for i, x in enumerate(centres)),
        "centres", "bin centres differ from low + (i+1/2)*width",
        got=centres[:20])
    ctx.step(3)
    exact = float(w) == w and Fr(float(low)) == lo and \
        w.denominator <= 64 and lo.denominator <= 64
    which = range(bins) if bins <= 12 else \
        sorted(set([0, 1, 2, bins // 3, bins // 2, bins - 2, bins - 1]))
    for i in which:
        if not near(par.get_bin_centre(i), lo + (i + Fr(1, 2)) * w) or \
                not near(par.get_bin_centre(np.int64(i)), centres[i]):
            ctx.fail("centre", "centre of bin %d is %r" % (
                i, par.get_bin_centre(i)))
        for frac in (Fr(1, 100), Fr(1, 4), Fr(49, 100), Fr(1, 2),
                     Fr(51, 100), Fr(3, 4), Fr(99, 100)):
            x = float(lo + (i + frac) * w)
            if par.get_bin(x) != i:
                ctx.fail("get_bin", "get_bin(%r)=%r, expected %d" % (
                    x, par.get_bin(x), i))
            if frac != Fr(1, 2):
                e = lo + (i + (1 if frac > Fr(1, 2) else 0)) * w
                if not near(par.round(x), e):
                    ctx.fail("round", "round(%r)=%r, nearest edge is %r" % (
                        x, par.round(x), float(e)))
            ctx.step(2)
        # close to the edges, where floats still tell the difference
        for frac in (Fr(1, 10 ** 6), 1 - Fr(1, 10 ** 6)) \
                if max(abs(lo), abs(lo + bins * w)) < w * 10 ** 6 else ():
            x = float(lo + (i + frac) * w)
            ctx.check(par.get_bin(x) == i, "get_bin", "get_bin(%r)=%r, "
                      "expected %d" % (x, par.get_bin(x), i))
        e = float(lo + i * w)
        if exact or i == 0:
            if par.get_bin(e) != i:
                ctx.fail("get_bin-edge", "get_bin(%r)=%r, expected %d" % (
                    e, par.get_bin(e), i))
        elif e <= par.get_high() and par.get_bin(e) not in (i - 1, i):
            ctx.fail("get_bin-edge", "get_bin(%r)=%r" % (e, par.get_bin(e)))
        if not near(par.round(e), e):
            ctx.fail("round", "round(%r)=%r moves an edge" % (
                e, par.round(e)))
        ctx.step(2)
    for x in (float(low) - fw, float(low) - 0.01 * fw, float(high) + 0.01 * fw,
              float(high) + fw, float("inf"), float("-inf"), float("nan")):
        if not lib.rejects(lambda: par.get_bin(x)):
            ctx.fail("get_bin-range", "get_bin(%r) accepted a value outside "
                     "[%r, %r]" % (x, low, high))
    for i in (-1, bins, bins + 7, 0.0, 0.5, "0", None):
        if not lib.rejects(lambda: par.get_bin_centre(i)):
            ctx.fail("centre-range", "get_bin_centre(%r) accepted" % (i,))
    # what was returned is the caller's own
    if edges.flags.writeable and centres.flags.writeable:
        edges += 3.
        centres *= -2.
        ctx.check(near(par.get_bin_boundaries()[0], lo) and
                  near(par.get_bin_boundaries()[-1], lo + bins * w) and
                  near(par.get_bin_centres()[0], lo + w / 2) and
                  near(par.get_bin_centre(0), lo + w / 2) and
                  near(par.get_width(), w), "own", "writing to the edges or "
                  "centres returned changes the axis")
    ctx.step(15)
