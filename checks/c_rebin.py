"""P06: rebinning groups neighbouring bins; nothing is gained, lost or moved."""
import itertools

import numpy as np

import lib

PROPERTY = "P06"
NAMES = ["energy_mc", "radial_mc", "time_mc", "energy_reco"]
BOUNDS = {
    "quick": "all 1-, 2- and 3-axis shapes over {1,2,3,4,6} bins (3 axes: "
             "{1,2,4,6}), every tuple of divisors; every non-divisor, wrong "
             "length, zero, negative and fractional request; all two-step "
             "rebinnings on small shapes; integer and float typed requests",
    "thorough": "as quick with {1..9,12,16,30} per axis (1-2 axes) and 4 axes",
}
JOBS = {"quick": 4, "thorough": 8}


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def shapes(tier):
    a = (1, 2, 3, 4, 6) if tier == "quick" else \
        (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 30)
    for n in (1, 2):
        for s in itertools.product(a, repeat=n):
            yield s
    for s in itertools.product((1, 2, 4, 6), repeat=3):
        yield s
    yield (12, 10)
    yield (100, 10)
    if tier == "thorough":
        for s in itertools.product((1, 2, 4), repeat=4):
            yield s
    else:
        yield (2, 4, 2, 6)


def cases(tier):
    for s in shapes(tier):
        yield {"shape": s}
    for s in ((4,), (12,), (4, 6), (8, 2), (2, 4, 6)):
        yield {"shape": s, "twice": True}


def make(shape, kind="squares"):
    axes = [(NAMES[i], 0.5 - i, 0.5 - i + b * (0.1 + i), b)
            for i, b in enumerate(shape)]
    s = lib.make_spec(axes, kind, num_decays=77., raw=13)
    s.shrink_to_roi(axes[-1][1], axes[-1][2], axes[-1][0])  # All of it
    return axes, s


def coarse(data, new):
    out = np.zeros(new)
    for idx in np.ndindex(*data.shape):
        out[tuple(i * n // o for i, n, o in zip(idx, new, data.shape))] += \
            data[idx]
    return out


def check(ctx, s, before, axes, new, key):
    after = lib.snap(s)
    want = [(a[0], a[1], a[2], n) for a, n in zip(before["axes"], new)]
    ctx.check(after["axes"] == want, key + "-axes", "axes %r, expected %r" % (
        after["axes"], want))
    ctx.check(lib.close(after["data"], coarse(before["data"], new)),
              key + "-data", "rebinning %r to %r: coarse bins are not the sums"
              " of their fine bins" % (before["data"].shape, new))
    for k in before:
        if k not in ("axes", "data"):
            ctx.check(after[k] == before[k], key + "-meta", "%s changed" % k)
    ctx.check(tuple(s.get_config().get_shape()) == s.get_data().shape,
              key + "-shape", "config shape %r, data shape %r" % (
                  s.get_config().get_shape(), s.get_data().shape))


def run_case(ctx, c):
    shape = tuple(c["shape"])
    if c.get("twice"):
        for new in itertools.product(*[divisors(b) for b in shape]):
            for new2 in itertools.product(*[divisors(b) for b in new]):
                axes, s = make(shape)
                before = lib.snap(s)
                s.rebin(new)
                s.rebin(new2)
                ctx.step(2)
                check(ctx, s, before, axes, new2, "twice")
        return
    for new in itertools.product(*[divisors(b) for b in shape]):
        for typed in (tuple, lambda n: [float(x) for x in n],
                      lambda n: np.array(n)):
            if typed is not tuple and np.prod(shape) > 30:
                continue
            axes, s = make(shape)
            before = lib.snap(s)
            s.rebin(typed(new))
            ctx.step()
            check(ctx, s, before, axes, new, "rebin")
        ctx.state((shape, new))
    bad = [shape + (1,), ()] + ([shape[:-1]] if len(shape) > 1 else [])
    for i, b in enumerate(shape):
        good = tuple(max(d for d in divisors(x) if d < x or x == 1)
                     for x in shape)
        for x in [n for n in range(2, b + 3) if b % n] + \
                [2 * b, 0, -1, -b, 0.5, b / 4. if b % 4 else .25, 1.5 * b]:
            bad.append(good[:i] + (x,) + good[i + 1:])
    for new in bad:
        axes, s = make(shape)
        before = lib.snap(s)
        r = lib.rejects(lambda: s.rebin(new))
        ctx.step()
        ctx.check(r, "accepted", "rebin of shape %r to %r was accepted" % (
            shape, new))
        d = lib.same(before, lib.snap(s))
        ctx.check(d is None, "trace", "refused rebin of shape %r to %r "
                  "changed %s" % (shape, new, d))
