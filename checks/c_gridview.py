"""P17: every view of the search grid (slices, look-ups by value, projections)
agrees with the stored statistics and penalties, through any sequence of
writes and resets."""
import itertools

import numpy as np

import c_grid
import lib

PROPERTY = "P17"
BOUNDS = {
    "quick": "all sequences of 3 out of 9 grid operations on 6 grid/spectrum "
             "shapes, with and without per-bin statistics; after each, all "
             "indices, all value subsets, all projections, arrays "
             "returned written to",
    "thorough": "12 shapes, sequences of 4",
}
JOBS = {"quick": 8, "thorough": 8}
SHAPES = [((2,), (3,)), ((3, 2), (2,)), ((2, 3, 2), (2, 2)), ((1,), (1,)),
          ((2, 1), (1, 3)), ((1, 2), (3, 1))]
MORE = [((4,), (2, 3)), ((2, 2), (2, 2)), ((1, 1), (1, 1)), ((3, 1, 2), (2,)),
        ((2, 2, 2, 2), (1,)), ((5,), (4,))]
OPS = ["stat0", "stat-1", "pen0", "pen-1", "stats", "pens", "reset", "bad",
       "grow"]


def cases(tier):
    t = tier == "thorough"
    for name in ("g", "my_fit", "fit_1", "a_b_10", "", "_"):
        yield {"name": name}
    for fit, spec in SHAPES + (MORE if t else []):
        for per_bin in (False, True):
            for k in range(1, (4 if t else 3) + 1):
                for seq in itertools.product(OPS, repeat=k):
                    if seq.count("grow") > 1:
                        continue
                    yield {"fit": fit, "spec": spec, "per_bin": per_bin,
                           "ops": seq}


def run_names(ctx, name):
    """The name counts the resets, whatever it looks like."""
    from echidna.fit.minimise import GridSearch
    g = GridSearch(c_grid.config((2,), False, "linear"),
                   c_grid.spectra_config((3,)), name=name)
    for k in range(1, 120):
        g.reset_grids()
        ctx.step()
        ctx.state((name, k))
        ctx.check(g.get_name() == "%s_%d" % (name, k) and
                  g.get_resets() == k, "reset:name",
                  "%s is named %r after %d resets" % (name, g.get_name(), k))


def run_case(ctx, c):
    if "name" in c:
        return run_names(ctx, c["name"])
    spec, per_bin = tuple(c["spec"]), c["per_bin"]
    g = c_grid.search(tuple(c["fit"]), True, spec, per_bin, sigma=False)
    cfg = g.get_fit_config()
    shape = tuple(c["fit"])
    full = shape + (spec if per_bin else ())
    stats, pens = np.zeros(full), np.zeros(shape)
    resets, stale = 0, False
    for i, op in enumerate(c["ops"]):
        ctx.step()
        k = 1. + i
        at = tuple(0 for _ in shape) if op.endswith("0") else tuple(
            n - 1 for n in shape)
        if op.startswith("stat") and op != "stats" and not stale:
            v = (np.arange(float(np.prod(spec))).reshape(spec) + 7. * k) \
                if per_bin else np.array(3. * k)
            g.set_stat(v.copy(), at)
            stats[at] = v
        elif op.startswith("pen") and op != "pens" and not stale:
            g.set_penalty_term(.5 * k, at)
            pens[at] = .5 * k
        elif op == "stats":
            stats = lib.pattern(full) * k
            stats = stats.reshape(full)
            g.set_stats(stats.copy())
        elif op == "pens" and not stale:
            pens = lib.pattern(shape, "linear") / 16. * k
            g.set_penalty_terms(pens.copy())
        elif op == "reset":
            g.reset_grids()
            resets += 1
            shape = cfg.get_shape()
            full = tuple(shape) + (spec if per_bin else ())
            stats, pens = np.zeros(full), np.zeros(shape)
            stale = False
            ctx.check(g.get_name() == "g_%d" % resets and
                      g.get_resets() == resets, "reset:name", "name %r after "
                      "%d resets" % (g.get_name(), resets))
        elif op == "bad":
            others = [(f, np.zeros(z)) for f, old in (
                (g.set_stats, full), (g.set_penalty_terms, shape))
                for z in (old[::-1], (int(np.prod(old)),), (1,) + tuple(old))
                if z != tuple(old) and not (stale and f != g.set_stats)]
            for put, bad in others + list((
                    (g.set_stats, np.zeros(full + (2, 7))),
                    (g.set_stats, np.zeros(full[:-1] + (full[-1] + 1,))),
                    (g.set_stats, stats.tolist()),
                    (g.set_penalty_terms, pens.tolist()),
                    (g.set_penalty_terms, np.zeros(shape + (2, 7))))):
                ctx.check(lib.rejects(lambda: put(bad)), "refuse", "%s "
                          "accepts shape %r for %r" % (
                              put.__name__, np.shape(bad), full))
            if not stale:
                ctx.check(lib.rejects(lambda: g.set_stat(3., at)), "refuse",
                          "plain number accepted as statistic")
                over = tuple(n for n in shape)
                for call in (lambda: g.set_stat(np.array(1.), over),
                             lambda: g.set_penalty_term(1., over),
                             lambda: g.get_stat(over),
                             lambda: g.get_penalty_term(over)):
                    ctx.check(lib.rejects(call), "range", "index %r accepted "
                              "on grid %r" % (over, shape))
        elif op == "grow":
            from echidna.core.parameter import RateParameter
            cfg.add_par(RateParameter("extra", 1., None, 0.5, 2.5, 2),
                        "spectra")
            stale = True        # until the grid is reset
        if not stale:
            views(ctx, g, cfg, shape, spec, per_bin, stats, pens)


def views(ctx, g, cfg, shape, spec, per_bin, stats, pens):
    ctx.state((shape, spec, per_bin, stats.tolist(), pens.tolist()))
    names = list(cfg.get_pars())
    grid = [cfg.get_par(p).get_values() for p in names]
    raw = stats.reshape(shape + (-1,)).sum(-1)
    total = raw + pens
    ctx.check(lib.close(g.get_stats(), total), "total", "totals")
    ctx.check(lib.close(g.get_raw_stats(), raw), "raw", "raw statistics")
    for i, p in enumerate(names):
        ctx.check(lib.close(g.get_scales(p), grid[i]), "scales", "values")
    for at in np.ndindex(*shape):
        ctx.step()
        val = {p: grid[i][at[i]] for i, p in enumerate(names)}
        ctx.check(lib.near(g.get_stat(at), total[at]), "stat", "total at %r" %
                  (at,))
        ctx.check(lib.close(np.asarray(g.get_raw_stat(at)), stats[at]),
                  "raw-stat", "raw statistic at %r" % (at,))
        ctx.check(lib.near(g.get_penalty_term(at), pens[at]), "pen",
                  "penalty at %r" % (at,))
        ctx.check(lib.near(g.get_penalty_at(**val), pens[at]), "pen-at",
                  "penalty at %r" % val)
        ctx.check(lib.close(np.squeeze(g.get_raw_stats_at(**val)),
                            np.squeeze(stats[at])), "raw-at",
                  "raw statistics at %r: %r, expected %r" % (
                      val, g.get_raw_stats_at(**val), stats[at]))
        for r in range(1, len(names) + 1):
            for sub in itertools.combinations(range(len(names)), r):
                kw = {names[i]: grid[i][at[i]] for i in sub}
                ix = tuple(at[i] if i in sub else slice(None)
                           for i in range(len(names)))
                ctx.check(lib.close(g.get_raw_stats(**kw), raw[ix]),
                          "slice", "raw statistics for %r" % kw)
    snames = ["d%d_mc" % i for i in range(len(spec))]
    every = names + (snames if per_bin else [])
    for r in range(0, len(every) + 1):
        for sub in itertools.combinations(every, r):
            fitonly = all(p in names for p in sub)
            base, axes = (total, names) if fitonly else (stats, every)
            gone = tuple(i for i, p in enumerate(axes) if p not in sub)
            want = base.sum(axis=gone)
            for order in (sub, sub[::-1]):
                ctx.step()
                ctx.check(lib.close(g.nd_project_stats(*order), want),
                          "project", "projection on %r" % (order,))
            if per_bin and not fitonly:
                for at in (tuple(0 for _ in shape),
                           tuple(n - 1 for n in shape)):
                    if any(p in names for p in sub):
                        continue
                    one = stats[at]
                    w = one.sum(axis=tuple(i for i, p in enumerate(snames)
                                           if p not in sub))
                    ctx.check(lib.close(g.nd_project_stat(at, *sub), w),
                              "project-at", "projection on %r at %r" % (
                                  sub, at))
            if fitonly and not sub:
                at = tuple(n - 1 for n in shape)
                ctx.check(lib.near(g.nd_project_stat(at), total[at]),
                          "project-at", "total at %r" % (at,))
    # what was read is the reader's own
    at = tuple(0 for _ in shape)
    val = {p: grid[i][0] for i, p in enumerate(names)}
    for what, a in [("get_stats", g.get_stats()),
                    ("get_raw_stats", g.get_raw_stats()),
                    ("get_raw_stats", g.get_raw_stats(
                        **{names[-1]: grid[-1][0]})),
                    ("get_raw_stats_at", g.get_raw_stats_at(**val)),
                    ("nd_project_stats", g.nd_project_stats(*names)),
                    ("nd_project_stats", g.nd_project_stats(*every))] + [
                        ("nd_project_stat", g.nd_project_stat(at, *snames))
                        for _ in (1,) if per_bin]:
        if isinstance(a, np.ndarray):
            a[...] = -7.5
            ctx.step()
            ctx.check(lib.close(g.get_stats(), total) and lib.close(
                np.asarray(g.get_raw_stat(at)), stats[at]), "own",
                "writing to what %s returned changes the grid" % what)
    for bad in ("nothing", "d9_mc"):
        ctx.check(lib.rejects(lambda: g.nd_project_stats(bad)) and
                  lib.rejects(lambda: g.nd_project_stats(names[0], bad)),
                  "unknown", "projection on %r accepted" % bad)
