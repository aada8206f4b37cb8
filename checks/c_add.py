"""P04: adding spectra is dimension-wise addition, or a refusal without trace."""
import itertools

import numpy as np

import lib

PROPERTY = "P04"
BOUNDS = {
    "quick": "18 base axis sets x every compatible and incompatible variation "
             "of one axis (bounds, bins, name, type, extra/missing axis) x "
             "every axis order; all addition histories of length 3 over 3 "
             "operands",
    "thorough": "histories of length 5",
}
BASES = []
for e in ((0., 4., 4), (1., 2., 3), (-1., 1., 2)):
    BASES.append([("energy_mc",) + e])
    BASES.append([("energy_mc",) + e, ("radial_mc", 0., 6., 3)])
    BASES.append([("radial_mc", 0., 6., 2), ("energy_mc",) + e])
    BASES.append([("energy_mc",) + e, ("radial_mc",) + e])
    BASES.append([("energy_mc",) + e, ("radial_mc", 0., 6., 2),
                  ("time_mc", 0., 5., 2)])
    BASES.append([("time_mc",) + e, ("energy_mc",) + e, ("radial_mc",) + e])


def variations(axes):
    """(axes of the operand, verdict): verdict True = same dimensions."""
    yield list(axes), True
    for perm in itertools.permutations(axes):
        if list(perm) != list(axes):
            yield list(perm), True
    # same dimensions, other type of quantity
    yield [(a[0].replace("_mc", "_reco"),) + tuple(a[1:]) for a in axes], True
    if len(axes) > 1:
        yield [(axes[0][0].replace("_mc", "_truth"),) + tuple(axes[0][1:])] + \
            list(axes[1:]), True
        yield [(a[0].replace("_mc", "_reco"),) + tuple(a[1:])
               for a in reversed(axes)], True
    for i, (n, low, high, b) in enumerate(axes):
        w = (high - low) / b
        # floating point noise in a bound is the same bound
        yield axes[:i] + [(n, low + w * 1e-12, high - w * 1e-12, b)] + \
            axes[i + 1:], True
        for other in ((n, low - w / 2, high, b), (n, low + w / 2, high, b),
                      (n, low, high + w, b), (n, low, high - w / 2, b),
                      (n, low + w, high + w, b), (n, low - w, high - w, b),
                      (n, low, high + w * 1e-3, b),
                      (n, low - w * 1e-3, high, b),
                      (n, low, high, b + 1), (n, low, high, b * 2),
                      (n, low, high + w, b + 1), (n, low - w, high, b + 1),
                      ("other_mc", low, high, b)):
            yield axes[:i] + [other] + axes[i + 1:], False
        if len(axes) > 1:
            yield axes[:i] + axes[i + 1:], False
    yield axes + [("extra_mc", 0., 1., 1)], False
    yield [("extra_mc", 0., 1., 1)] + axes, False


def cases(tier):
    for axes in BASES:
        for other, ok in variations(axes):
            yield {"axes": axes, "other": other, "compatible": ok}
    n = 5 if tier == "thorough" else 3
    for axes in BASES[:6]:
        for h in itertools.product(range(3), repeat=n):
            yield {"axes": axes, "history": h}


def dims(axes):
    return [a[0].rsplit("_", 1)[0] for a in axes]


def run_case(ctx, c):
    axes = [tuple(a) for a in c["axes"]]
    ctx.state(repr(c))
    if "history" in c:
        s = lib.make_spec(axes, "linear", num_decays=3.)
        model, dec, raw = s.get_data().copy(), 3., s._raw_events
        ops = [lib.make_spec(axes, k, num_decays=d, name=k)
               for k, d in (("squares", 10.), ("sparse", .5), ("ones", 0.))]
        snaps = [lib.snap(o) for o in ops]
        for i in c["history"]:
            s.add(ops[i])
            ctx.step()
            model = model + snaps[i]["data"]
            dec += snaps[i]["num_decays"]
            raw += snaps[i]["raw_events"]
            ctx.check(lib.close(s.get_data(), model), "sum",
                      "sum of contents differs")
            ctx.check(lib.near(s.get_num_decays(), dec), "num_decays",
                      "num_decays %r, expected %r" % (s.get_num_decays(), dec))
            ctx.check(s._raw_events == raw, "raw_events", "raw_events %r, "
                      "expected %r" % (s._raw_events, raw))
            for o, b in zip(ops, snaps):
                d = lib.same(b, lib.snap(o))
                ctx.check(d is None, "operand", "operand changed: %s" % d)
        # and to itself
        s.add(s)
        ctx.check(lib.close(s.get_data(), 2 * model) and
                  lib.near(s.get_num_decays(), 2 * dec) and
                  s._raw_events == 2 * raw, "self", "self-addition")
        return
    other = [tuple(a) for a in c["other"]]
    s = lib.make_spec(axes, "linear", num_decays=3., raw=11)
    o = lib.make_spec(other, "squares", num_decays=4.5, raw=5, name="other")
    b_s, b_o = lib.snap(s), lib.snap(o)
    refused = lib.rejects(lambda: s.add(o))
    ctx.step()
    d = lib.same(b_o, lib.snap(o))
    ctx.check(d is None, "operand", "operand changed: %s" % d)
    after = lib.snap(s)
    ds, do = dims(axes), dims(other)
    if refused:
        ctx.check(not (c["compatible"] and ds == do), "refused",
                  "compatible spectra refused: %r + %r" % (axes, other))
        d = lib.same(b_s, after)
        ctx.check(d is None, "trace", "refused addition changed %s" % d)
        return
    if not c["compatible"]:
        ctx.fail("accepted", "incompatible spectra added: %r + %r" % (
            axes, other))
        return
    order = [do.index(x) for x in ds]
    want = b_s["data"] + np.transpose(b_o["data"], order)
    ctx.check(lib.close(after["data"], want), "sum",
              "contents are not the sum over equal dimensions: %r + %r" % (
                  axes, other))
    ctx.check(after["num_decays"] == 7.5 and after["raw_events"] == 16,
              "decays", "num_decays/raw_events %r %r" % (
                  after["num_decays"], after["raw_events"]))
    for k in ("axes", "name", "bipo", "style", "rois"):
        ctx.check(after[k] == b_s[k], "meta", "%s changed" % k)
    # the two stay independent
    s.get_data()[...] = -1.
    o.fill(9., **{a[0]: a[1] for a in other})
    ctx.check((s.get_data() == -1.).all(), "alias", "operand and sum share "
              "their contents")
