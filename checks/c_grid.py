"""P16: a grid search evaluates every combination of parameter values once and
reports the smallest total (statistic plus penalty), first in grid order. The
function minimised is the environment: all its answer tables are enumerated."""
import itertools
import math

import numpy as np

import lib

PROPERTY = "P16"
BOUNDS = {
    "quick": "grids (1)..(4), (2,2), (3,2), (2,1,2), both search methods: "
             "every assignment of 5 statistic values (incl. NaN, infinity), "
             "3 values on 2x2x2 and 2x3x2 sparse tables, all (statistic, "
             "penalty) pairs on up to 3 points, per-bin results over 1-D and "
             "2-D spectra, repeated searches, linear/log/repeated values",
    "thorough": "adds grids (5), (2,3), (3,3), all 4-valued 2x2x2 tables",
}
JOBS = {"quick": 8, "thorough": 8}
NAN, INF = float("nan"), float("inf")
V5 = [1., 0., 2., NAN, INF]
P3 = [(0., 0.), (1., 0.), (0., 1.), (2., -1.5), (NAN, 0.), (1., .25)]


def tables(tier):
    t = tier == "thorough"
    for shape in [(1,), (2,), (3,), (4,), (2, 2), (3, 2), (1, 2, 2)] + (
            [(5,), (2, 3)] if t else []):
        n = int(np.prod(shape))
        vals = V5 if n <= 4 else V5[:4] if n <= 5 or t else V5[:3]
        for tab in itertools.product(range(len(vals)), repeat=n):
            yield shape, [vals[i] for i in tab], None
    n = 3 if t else 2
    for tab in itertools.product(range(n + 1 if t else 2), repeat=8):
        yield (2, 2, 2), [V5[i] for i in tab], None
    for shape in [(2, 3, 2), (3, 3), (2, 2, 2, 2), (1, 4, 1)]:
        k = int(np.prod(shape))
        for i, j in itertools.combinations(range(k), 2):
            for a, b in ((-1., -1.), (-2., -1.), (NAN, -1.), (-1., NAN)):
                tab = [float(1 + (7 * x) % 5) for x in range(k)]
                tab[i], tab[j] = a, b
                yield shape, tab, None
    for shape in [(1,), (2,), (3,), (1, 2)] + ([(2, 2)] if t else []):
        k = int(np.prod(shape))
        for tab in itertools.product(P3, repeat=k):
            yield shape, [x[0] for x in tab], [x[1] for x in tab]


def cases(tier):
    batch = []
    for shape, tab, pen in tables(tier):
        batch.append([shape, tab, pen])
        if len(batch) == 40:
            yield {"tables": batch}
            batch = []
    yield {"tables": batch}
    for kind in ("linear", "log", "logdev", "same", "mixed"):
        for shape in ((3,), (2, 3), (4, 1), (2, 2, 2)):
            yield {"values": kind, "shape": shape}
    for shape in ((2,), (2, 2), (3, 1)):
        for spec in ((2,), (3,), (2, 2), (2, 1, 2)):
            yield {"perbin": spec, "shape": shape}


def config(shape, sigma=True, kind="linear"):
    from echidna.core.config import GlobalFitConfig
    g = GlobalFitConfig.load({"global_fit_parameters": {"x": {}}},
                             name="grid")
    from echidna.core.parameter import RateParameter
    for i, n in enumerate(shape):
        low, high, flags = 1. + i, 3. + i, {}
        k = kind
        if kind == "mixed":
            k = ("log", "linear", "same")[i % 3]
        if k == "same" and n > 1:
            high = low
        if k == "log":
            flags = {"logscale": True}
        if k == "logdev":
            flags = {"logscale_deviation": True}
        g.add_par(RateParameter("p%d" % i, low + .5 * (high - low),
                                0.5 if sigma and i != 1 else None, low, high,
                                n, **flags), "spectra")
    return g


def spectra_config(shape=(3,)):
    return lib.make_config([("d%d_mc" % i, 0., float(n), n)
                            for i, n in enumerate(shape)])


def search(shape, use_numpy, spec=(3,), per_bin=False, kind="linear",
           sigma=True):
    from echidna.fit.minimise import GridSearch
    return GridSearch(config(shape, sigma, kind), spectra_config(spec),
                      name="g", per_bin=per_bin, use_numpy=use_numpy)


class Fn(object):
    """The function under minimisation: answers from a table."""

    def __init__(self, grid, shape, stat, pen):
        self.calls = []
        self.seen = np.zeros(shape, int)
        self.grid, self.shape = grid, shape
        self.stat = np.array(stat, dtype=float)
        self.stat = self.stat.reshape(tuple(shape) + self.stat.shape[1:])
        self.pen = np.array(pen, dtype=float).reshape(shape)
        self.dup = {}

    def __call__(self, *values):
        at = []
        for v, g in zip(values, self.grid):
            hit = [i for i, x in enumerate(g) if x == v]
            if not hit:
                raise AssertionError("asked for %r, not a grid value" % v)
            at.append(hit)
        if len(values) != len(self.grid):
            raise AssertionError("%d values" % len(values))
        # repeated values: the least used of the equal points
        best = min(itertools.product(*at), key=lambda p: self.seen[p])
        self.seen[best] += 1
        s = self.stat[best]
        return (s.copy() if isinstance(s, np.ndarray) else float(s)), float(
            self.pen[best])


def run_case(ctx, c):
    if "tables" in c:
        for shape, stat, pen in c["tables"]:
            for un in (True, False):
                one(ctx, tuple(shape), stat, pen, un)
        return
    shape = tuple(c["shape"])
    n = int(np.prod(shape))
    if "values" in c:
        for un in (True, False):
            for k in range(n):
                stat = [float(1 + (5 * i) % 7) for i in range(n)]
                stat[k] = -3.
                one(ctx, shape, stat, [.125 * (i % 3) for i in range(n)], un,
                    kind=c["values"])
        return
    spec = tuple(c["perbin"])
    for un in (True, False):
        for k in range(n):
            stat = np.array([float((3 * i) % 5) for i in range(
                n * int(np.prod(spec)))]).reshape((n,) + spec)
            stat[k] -= 20.
            one(ctx, shape, stat, [.5 * (i % 3) for i in range(n)], un,
                spec=spec, per_bin=True)
        bad(ctx, shape, spec, un)


def bad(ctx, shape, spec, un):
    """Results of the wrong kind are refused, not spread over the grid."""
    from echidna.fit.test_statistic import BakerCousinsChi
    for res in (1.5, np.float64(2.), np.ones((1,) * len(spec)),
                np.ones(spec + (1,)), np.ones(int(np.prod(spec)) + 1),
                np.ones(spec[:-1] + (spec[-1] + 1,)), np.array(3.)):
        if isinstance(res, np.ndarray) and res.shape == spec:
            continue
        g = search(shape, un, spec, True)
        ctx.step()
        ctx.check(lib.rejects(lambda: g.minimise(
            lambda *a: (res, 0.), BakerCousinsChi(per_bin=True))), "shape",
            "per-bin result %r accepted for a spectrum of shape %r" % (
                res, spec))


def one(ctx, shape, stat, pen, un, kind="linear", spec=(3,), per_bin=False):
    from echidna.fit.test_statistic import BakerCousinsChi
    n = int(np.prod(shape))
    if pen is None:
        pen = [0.] * n
    g = search(shape, un, spec, per_bin, kind)
    cfg = g.get_fit_config()
    names = list(cfg.get_pars())
    grid = [[float(x) for x in cfg.get_par(p).get_values()] for p in names]
    tag = "numpy" if un else "collapse"
    if [len(x) for x in grid] != list(shape):
        ctx.fail(tag + ":grid", "grid sizes %r" % ([len(x) for x in grid],))
        return
    first = None
    for attempt in range(2):
        if attempt == 1:       # a second search overwrites the first
            if kind == "linear" and not per_bin and n > 4:
                break
            stat = np.array(stat)[::-1]
            pen = np.array(pen)[::-1]
            for p in names:    # with priors dropped and others imposed
                par = cfg.get_par(p)
                par.set_par(sigma=.25 if par.get_sigma() is None else None)
        fn = Fn(grid, shape, stat, pen)
        flat = np.array([np.sum(x) for x in np.array(
            fn.stat).reshape((n,) + fn.stat.shape[len(shape):])]) + \
            fn.pen.ravel()
        ts = BakerCousinsChi(per_bin=per_bin)
        ctx.step()
        ctx.state((shape, tag, kind, per_bin, np.array(stat).tolist(),
                   np.array(pen).tolist()))
        ok = ~np.isnan(flat)
        if not ok.any():
            continue            # no minimum exists
        low = np.min(flat[ok])
        k = [i for i in range(n) if flat[i] == low][0]
        pos = np.unravel_index(k, shape)
        if kind in ("same", "mixed"):
            # equal parameter values share their answers
            good = [p for p in itertools.product(*[range(m) for m in shape])
                    if flat[np.ravel_multi_index(p, shape)] == low]
        else:
            good = [pos]
        got = g.minimise(fn, ts)
        if not (fn.seen == 1).all():
            ctx.fail(tag + ":evaluated", "grid points evaluated %r times" %
                     fn.seen.tolist())
            return
        ctx.check(lib.close(np.asarray(got[0]), fn.stat[pos]) and
                  lib.near(got[1], fn.pen[pos]) or low == INF,
                  tag + ":minimum", "minimum reported as %r, expected %r at "
                  "%r of %r" % (got, (fn.stat[pos], fn.pen[pos]), pos,
                                flat.tolist()))
        summary = g.get_summary()
        for i, p in enumerate(names):
            want = {grid[i][q[i]] for q in good}
            b = summary[p]["best_fit"]
            if low < INF:
                ctx.check(b in want, tag + ":best-fit", "best fit of %s is "
                          "%r, expected %r for totals %r" % (
                              p, b, want, flat.tolist()))
            par = cfg.get_par(p)
            w = 0. if par.get_sigma() is None else (
                (b - par.get_prior()) / par.get_sigma()) ** 2
            ctx.check(par.get_best_fit() == b and
                      lib.near(summary[p]["penalty_term"], w) and
                      lib.near(par.get_penalty_term(), w), tag + ":penalty",
                      "penalty of %s at %r is %r, expected %r" % (
                          p, b, summary[p]["penalty_term"], w))
        ctx.check(lib.close(g.get_stats(), flat.reshape(shape)),
                  tag + ":filled", "totals %r, expected %r" % (
                      g.get_stats().tolist(), flat.tolist()))
        ctx.check(lib.close(g.get_raw_stats(), np.array(
            [np.sum(x) for x in fn.stat.reshape((n,) + fn.stat.shape[
                len(shape):])]).reshape(shape)), tag + ":raw", "raw stats")
