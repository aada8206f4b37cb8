"""P03: projections are the true marginals of the histogram."""
import copy
import itertools

import numpy as np

import lib

PROPERTY = "P03"
NAMES = ["energy_mc", "radial_mc", "time_mc", "energy_reco", "radial_reco"]
BOUNDS = {
    "quick": "all 1-5 axis shapes with 1-3 bins per axis (4 axes: 1-2 and "
             "mixed; 5 axes: 2 shapes), 3 contents each plus every unit "
             "impulse on small shapes; every subset of axes in every order; all "
             "histories of 3 out of 14 operations (fills, scaling, adding, "
             "shrinking, cutting, rebinning, copies, shifts, smearing), all "
             "projections of all spectra so far after each",
    "thorough": "histories of 4; 1-4 bins per axis up to 3 axes, 1-3 for 4, 1-2 for 5",
}
JOBS = {"quick": 4, "thorough": 8}


def shapes(tier):
    t = tier == "thorough"
    for n in (1, 2, 3):
        for s in itertools.product(range(1, 5 if t else 4), repeat=n):
            yield s
    for s in itertools.product(range(1, 4 if t else 3), repeat=4):
        yield s
    yield (2, 3, 4, 5)
    yield (4, 1, 3, 2)
    if t:
        for s in itertools.product((1, 2), repeat=5):
            yield s
    yield (2, 3, 2, 1, 2)
    yield (2, 3, 4, 5, 6)
    yield (12,)
    yield (30, 7)


def cases(tier):
    for s in shapes(tier):
        kinds = ["squares", "linear", "sparse"]
        n = int(np.prod(s))
        if n <= 8:
            kinds += ["delta%d" % i for i in range(n)]
        for k in kinds:
            yield {"shape": s, "kind": k}
    for first in range(len(OPS)):
        yield {"history": first, "depth": 4 if tier == "thorough" else 3}


OPS = ["fill", "fill-last", "scale", "add", "shrink", "cut", "rebin", "roi",
       "copy", "deepcopy", "shift", "interp", "smear", "back"]


def apply(op, s, others):
    """The spectrum after the operation; others: all spectra so far."""
    from echidna.core.shift import Shift
    from echidna.core.smear import EnergySmearRes
    cfg = s.get_config()
    axes = [(n, cfg.get_par(n).get_low(), cfg.get_par(n).get_high(),
             cfg.get_par(n).get_bins()) for n in cfg.get_pars()]
    n, low, high, b = axes[0]
    w = (high - low) / b
    if op in ("fill", "fill-last"):
        at = 0.5 if op == "fill" else -0.5
        s.fill(3., **{m: (l if at > 0 else h) + at * (h - l) / k
                      for m, l, h, k in axes})
    elif op == "scale":
        s.scale(2.5 * s.get_num_decays())
    elif op == "add":
        s.add(lib.make_spec(axes, "squares"))
    elif op in ("shrink", "cut") and b > 1:
        getattr(s, op)(**{n + "_low": low + w})
    elif op == "rebin" and b % 2 == 0:
        s.rebin([b // 2] + [a[3] for a in axes[1:]])
    elif op == "roi" and b > 1:
        s.shrink_to_roi(low, high - w, n)
    elif op == "copy":
        return copy.copy(s)
    elif op == "deepcopy":
        return copy.deepcopy(s)
    elif op == "shift":
        x = Shift()
        x.set_shift(w)
        return x.shift_by_bin(s, n)
    elif op == "interp" and b > 1:
        x = Shift()
        x.set_shift(.3 * w)
        return x.shift(s, n, k=1)
    elif op == "smear":
        x = EnergySmearRes(poisson=False)
        x.set_resolution(.3)
        return x.weighted_smear(s, n)
    elif op == "back":      # to the first one
        return others[0]
    return s


def run_history(ctx, c):
    """Projections taken again and again, of a spectrum that changes and of
    those derived from it, are those of the contents at that time."""
    for rest in itertools.product(range(len(OPS)), repeat=c["depth"] - 1):
        ops = [OPS[i] for i in (c["history"],) + rest]
        s = lib.make_spec([("energy_mc", 1., 5., 4), ("radial_mc", 0., 6., 3)],
                          "linear", num_decays=10.)
        spectra = [s]
        compare(ctx, spectra, ["start"])
        for i, op in enumerate(ops):
            s = apply(op, s, spectra)
            ctx.step()
            if s not in spectra:
                spectra.append(s)
            ctx.state((tuple(ops[:i + 1])))
            if not compare(ctx, spectra, ops[:i + 1]):
                break


def compare(ctx, spectra, ops):
    for s in spectra:
        d = s.get_data()
        names = list(s.get_config().get_pars())
        got = [s.project(names[0]), s.project(names[1]),
               s.nd_project(names[:1]), s.nd_project(names),
               s.surface(names[0], names[1]), s.sum()]
        want = [d.sum(1), d.sum(0), d.sum(1), d, d, d.sum()]
        for g, w in zip(got, want):
            if np.shape(g) != np.shape(w) or not lib.close(g, w):
                ctx.fail("after-%s" % ops[-1], "after %r a projection is %r, "
                         "the contents are %r" % (
                             ops, np.ravel(g).tolist(), d.tolist()))
                return False
    return True


def run_case(ctx, c):
    if "history" in c:
        return run_history(ctx, c)
    shape = tuple(c["shape"])
    axes = [(NAMES[i], 0.5 * i, 0.5 * i + b * (1. + i), b)
            for i, b in enumerate(shape)]
    s = lib.make_spec(axes, c["kind"])
    ref = s.get_data().copy()
    before = lib.snap(s)
    names = [a[0] for a in axes]
    ctx.state((shape, c["kind"]))

    def marginal(keep):
        out = np.zeros([shape[i] for i in keep])
        for idx in np.ndindex(*shape):
            out[tuple(idx[i] for i in keep)] += ref[idx]
        return out

    def observe(what, got, keep):
        ctx.step()
        got = np.asarray(got)
        want = marginal(keep)
        if got.shape != want.shape or not lib.close(got, want):
            ctx.fail(what, "%s of %r onto %s is %s %s, expected %s %s" % (
                what, shape, [names[i] for i in keep], got.shape,
                got.ravel()[:12].tolist(), want.shape,
                want.ravel()[:12].tolist()))
        # mutating the answer must not reach the spectrum
        if got.shape:
            got += 7.
        d = lib.same(before, lib.snap(s))
        if d is not None:
            ctx.fail(what + "-alias", "%s shares or changes the spectrum (%s)"
                     % (what, d))
            s._data = ref.copy()

    ctx.check(lib.near(s.sum(), ref.sum()), "sum", "sum() is %r, contents add "
              "up to %r" % (s.sum(), ref.sum()))
    for i, n in enumerate(names):
        observe("project", s.project(n), [i])
        observe("nd_project", s.nd_project([n]), [i])
    for i, j in itertools.permutations(range(len(names)), 2):
        observe("surface", s.surface(names[i], names[j]), sorted([i, j]))
    for r in range(2, len(names) + 1):
        for sub in itertools.permutations(range(len(names)), r):
            if len(names) == 5 and r > 3 and list(sub) != sorted(sub):
                continue
            observe("nd_project", s.nd_project([names[i] for i in sub]),
                    sorted(sub))
    for bad in ("nothing_mc", "energy", ""):
        for f in (lambda: s.project(bad), lambda: s.nd_project([bad]),
                  lambda: s.surface(names[0], bad),
                  lambda: s.surface(bad, names[0]),
                  lambda: s.nd_project([names[0], bad])):
            ctx.step()
            ctx.check(lib.rejects(f), "unknown", "projection onto an unknown "
                      "parameter %r was accepted" % bad)
    for i, n in enumerate(names):
        for k in (1, 2, 3):
            if shape[i] <= k:
                continue
            f = s.interpolate1d(n, k=k)
            low, high, b = axes[i][1:]
            w = (high - low) / b
            m = marginal([i])
            ctx.step()
            x = [low + (j + 0.5) * w for j in range(b)]
            if not np.allclose([float(f(v)) for v in x], m, rtol=1e-7,
                               atol=1e-7 * (1 + abs(m).max())):
                ctx.fail("interpolate1d", "interpolation of order %d does not "
                         "pass through the bin contents" % k)
            if k == 1:
                for j in range(b - 1):
                    if not lib.near(f(x[j] + 0.25 * w),
                                    m[j] + 0.25 * (m[j + 1] - m[j]), 1.):
                        ctx.fail("interpolate1d-linear", "order 1 is not "
                                 "linear between bin centres")
    ctx.check(lib.same(before, lib.snap(s)) is None, "changed",
              "a projection changed the spectrum")
