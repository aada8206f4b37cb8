"""P02: filling puts the weight into exactly the bin that contains the values,
and every invalid fill is refused without a trace."""
import itertools

import numpy as np
from fractions import Fraction as Fr

import lib

PROPERTY = "P02"
BOUNDS = {
    "quick": "1-, 2- and 3-axis spectra over 9 axis shapes; every bin x 5 "
             "positions, 4 weights; all ordered pairs of fills on a small "
             "spectrum; every single invalid argument class",
    "thorough": "as quick with 16 axis shapes and all fill triples",
}
ONE = [("energy_mc", 0., 10., 10), ("energy_mc", 0., 1., 10),
       ("energy_mc", -1., 0.1, 11), ("energy_mc", -1., 0.1, 3),
       ("energy_mc", 0.35, 3.05, 9),
       ("energy_mc", 1., 2., 7), ("energy_mc", -3., -1., 5),
       ("energy_mc", 0., 10., 1), ("energy_mc", 1000., 1001., 50)]
MORE = [("energy_mc", -0.7, 0.3, 10), ("energy_mc", 0.1, 0.8, 7),
        ("energy_mc", 0., 0.3, 3), ("energy_mc", -1e-3, 2e-3, 13),
        ("energy_mc", 2.4, 2.6, 100), ("energy_mc", -50., 50., 33),
        ("energy_mc", 0, 7, 3)]
MULTI = [[("energy_mc", 0., 2., 2), ("radial_mc", 0., 3., 3)],
         [("radial_mc", -1., 1., 4), ("energy_mc", 0.5, 2., 3)],
         [("energy_mc", 0., 2., 2), ("radial_mc", 0., 3., 3),
          ("time_mc", -1., 1., 2)],
         [("energy_mc", 0., 2., 4), ("energy_reco", 0., 2., 2),
          ("radial_reco", 0., 1., 3)]]


def cases(tier):
    for a in ONE + (MORE if tier == "thorough" else []):
        yield {"axes": [a], "kind": "each"}
    for m in MULTI:
        yield {"axes": m, "kind": "each"}
        yield {"axes": m, "kind": "invalid"}
    for a in ONE:
        yield {"axes": [a], "kind": "invalid"}
    n = 3 if tier == "thorough" else 2
    for m in MULTI[:2] + [[ONE[0]]]:
        yield {"axes": m, "kind": "histories", "n": n}


def positions(low, high, bins):
    """(value, set of admissible bins), simplest first."""
    lo, w = Fr(float(low)), (Fr(float(high)) - Fr(float(low))) / bins
    exact = float(w) == w and w.denominator <= 64 and lo.denominator <= 64
    out = []
    for i in range(bins):
        # as close to the edges as floats can tell
        close = (Fr(1, 10 ** 6), 1 - Fr(1, 10 ** 6)) if max(
            abs(lo), abs(lo + bins * w)) < 10 ** 6 * w else ()
        for f in (Fr(1, 2), Fr(1, 50), Fr(1, 3), Fr(49, 50)) + close:
            out.append((float(lo + (i + f) * w), (i,)))
        e = float(lo + i * w)
        if low <= e < high:
            out.append((e, (i,) if exact or i == 0 else
                        tuple(j for j in (i - 1, i) if j >= 0)))
    out.append((float(low), (0,)))
    out.append((float(np.nextafter(float(high), float(low))), (bins - 1,)))
    return out


def run_case(ctx, c):
    axes = [tuple(a) for a in c["axes"]]
    names = [a[0] for a in axes]
    if c["kind"] == "each":
        s = lib.make_spec(axes, "zeros", num_decays=5.)
        model = np.zeros(s.get_data().shape)
        pos = [positions(*a[1:]) for a in axes]
        if len(axes) == 1:
            combos = [(p,) for p in pos[0]]
        else:
            combos = list(itertools.product(*[p[::2] + p[-2:] for p in pos]))
        weights = (1.0, 2.5, 0.0, -1.0, 3)
        for n, combo in enumerate(combos):
            w = weights[n % len(weights)] if len(combos) > 100 else None
            for weight in (weights if w is None else (w,)):
                apply(ctx, s, model, dict(zip(names, [p[0] for p in combo])),
                      list(itertools.product(*[p[1] for p in combo])), weight)
        check_meta(ctx, s, axes, 5.)
    elif c["kind"] == "invalid":
        invalid(ctx, axes, names)
    else:
        pos = [positions(*a[1:]) for a in axes]
        pts = [p for p in itertools.product(*[q[:3] + q[-2:] for q in pos])]
        pts = [p for p in pts if all(len(x[1]) == 1 for x in p)][:14]
        for hist in itertools.product(range(len(pts)), repeat=c["n"]):
            s = lib.make_spec(axes, "linear")
            model = s.get_data().copy()
            for j, k in enumerate(hist):
                apply(ctx, s, model, dict(zip(names, [x[0] for x in pts[k]])),
                      [tuple(x[1][0] for x in pts[k])], j + 0.5)
            ctx.state((c["axes"], hist))


def apply(ctx, s, model, values, where, weight):
    before = s.get_data().copy()
    if weight == 1.0:
        s.fill(**values)
    else:
        s.fill(weight, **values)
    ctx.step()
    diff = np.asarray(s.get_data()) - before
    for idx in where:
        want = np.zeros(model.shape)
        want[idx] = weight
        if lib.close(diff, want):
            model[idx] += weight
            break
    else:
        ctx.fail("bin", "fill(%r, %r) changed bins %s by %s, expected bin %s"
                 % (weight, values, np.argwhere(diff).tolist(),
                    diff[diff != 0].tolist(), where[-1]))
        model[...] = s.get_data()
    if not lib.close(s.get_data(), model):
        ctx.fail("accumulate", "contents are not the accumulated fills")
    ctx.state((model.shape, tuple(values.values()), weight))


def check_meta(ctx, s, axes, decays):
    ctx.check([(n, l, h, b) for n, l, h, b in lib.axes_of(s)] ==
              [(n, float(l), float(h), b) for n, l, h, b in axes],
              "axes", "filling changed the axes")
    ctx.check(s.get_num_decays() == decays, "num_decays",
              "filling changed the number of decays")
    ctx.check(getattr(s, "_raw_events", 0) == 0, "raw_events",
              "filling changed the number of raw events")


def invalid(ctx, axes, names):
    s = lib.make_spec(axes, "linear")
    good = {a[0]: a[1] + (a[2] - a[1]) * 0.4 for a in axes}
    before = lib.snap(s)

    def bad(values, what):
        r = lib.rejects(lambda: s.fill(**values))
        ctx.step()
        ctx.check(r, "accepted:" + what.split(" ")[0],
                  "fill(%r) accepted: %s" % (values, what))
        d = lib.same(before, lib.snap(s))
        ctx.check(d is None, "trace:" + what.split(" ")[0],
                  "refused fill(%r) left a change in %s" % (values, d))
    for a in axes:
        n, low, high, b = a
        w = (high - low) / float(b)
        v = dict(good)
        del v[n]
        bad(v, "missing value for " + n)
        for x in (high, high + 0.01 * w, high + w, high + 10 * (high - low),
                  float(np.nextafter(float(low), -np.inf)), low - 0.01 * w,
                  low - w, low - 0.5 * w, low - 10 * (high - low),
                  float("inf"), -float("inf"), float("nan")):
            bad(dict(good, **{n: x}), "out-of-range value for " + n)
    bad(dict(good, other_mc=1.), "unknown parameter")
    bad({}, "missing everything")
    for a in axes:
        v = dict(good)
        v[a[0].split("_")[0] + "_truth"] = v.pop(a[0])
        bad(v, "unknown and missing")
