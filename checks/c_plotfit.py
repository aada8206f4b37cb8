"""P30: a plot of a fit or of a limit shows exactly the stored results, each
against its own parameter value, and leaves them as they were."""
import itertools
from collections import OrderedDict

import numpy as np

import c_grid
import lib

PROPERTY = "P30"
BOUNDS = {
    "quick": "limits of 1-4 scales with 0-3 fit parameters, with and without "
             "per-bin statistics: every sequence of 3 plots; search grids of "
             "1-3 parameters (1-4 points), linear and log, 4 spectrum shapes: "
             "every plot, every parameter pair in both orders, every value of "
             "the others; every sequence of 2",
    "thorough": "sequences of 4 and 3, grids up to 5 points",
}
JOBS = {"quick": 8, "thorough": 8}
GRIDS = [(1,), (2,), (4,), (2, 3), (3, 2), (1, 3), (2, 3, 2), (3, 1, 2)]
SPECS = [(3,), (2, 3), (3, 2)]


def cases(tier):
    t = tier == "thorough"
    for n in (1, 2, 3, 4):
        for pars in (0, 1, 2, 3):
            for per_bin in (False, True):
                yield {"what": "limit", "scales": n, "pars": pars,
                       "per_bin": per_bin, "n": 4 if t else 3}
    for g in GRIDS + ([(5,), (5, 4), (2, 2, 2, 2)] if t else []):
        for spec in SPECS:
            for kind in ("linear", "log"):
                for per_bin in (False, True):
                    yield {"what": "grid", "grid": g, "spec": spec,
                           "kind": kind, "per_bin": per_bin,
                           "n": 3 if t else 2}
    for n in (1, 2, 3, 5):
        yield {"what": "scan", "n": n}


def attempt(ctx, what, fn):
    ctx.step()
    try:
        return fn()
    except Exception as e:          # noqa
        ctx.check(False, "error:" + what, "%s raises %r" % (what, e))


def check_graph(ctx, g, x, y, what):
    gx, gy = g.xy()
    ctx.check(lib.close(gx, x) and lib.close(gy, y), "graph:" + what,
              "%s shows %r against %r, expected %r against %r" % (
                  what, gy.tolist(), gx.tolist(), np.ravel(y).tolist(),
                  np.ravel(x).tolist()))


def check_map(ctx, h, axes, want, what):
    ctx.check(h.bins == [(n, lo, hi) for n, lo, hi in axes], "axes:" + what,
              "%s: binning %r for %r" % (what, h.bins, axes))
    ctx.check(h.contents().shape == want.shape and
              lib.close(h.contents(), want) and h.stray() == 0.,
              "map:" + what, "%s shows %r, expected %r" % (
                  what, h.contents().tolist(), want.tolist()))


def run_case(ctx, c):
    {"limit": limit, "grid": grid, "scan": scan}[c["what"]](ctx, c)


# ------------------------------------------------------------------ limits
def limit(ctx, c):
    n = c["scales"]
    names = ["p%d" % i for i in range(c["pars"])]
    ops = [("stat",)] + [(k, p) for p in names
                         for k in ("best", "sigma", "penalty")]
    length = c["n"] if len(ops) <= 7 else c["n"] - 1
    for seq in itertools.product(ops, repeat=length):
        limit_plots(ctx, c, n, names, seq)


def limit_plots(ctx, c, n, names, seq):
    from echidna.core.config import GlobalFitConfig, SpectraFitConfig
    from echidna.core.parameter import RateParameter
    from echidna.fit.fit_results import LimitResults
    from echidna.output import plot_root
    cfg = GlobalFitConfig.load({"global_fit_parameters": {"x": {}}},
                               name="lim")
    prior = {}
    for i, p in enumerate(names):
        prior[p] = (1. + i, .5 + .25 * i)
        cfg.add_par(RateParameter(p, prior[p][0], prior[p][1], 0., 9., 4),
                    "spectra")
    rate = RateParameter("rate", 1., None, 0. if n > 1 else 4., 4., n)
    lim = LimitResults(cfg, lib.make_config([("energy_mc", 0., 3., 3)]),
                       SpectraFitConfig("c", OrderedDict([("rate", rate)]),
                                        "te130"))
    shape = (n, 3) if c["per_bin"] else (n,)
    if c["per_bin"]:
        lim._stats = np.zeros(shape)
    stats = lib.pattern(shape) / 8.
    best = {p: lib.pattern((n,), "linear") * (i + 1.5)
            for i, p in enumerate(names)}
    pens = {p: lib.pattern((n,), "linear") / (i + 4.)
            for i, p in enumerate(names)}
    if n > 1:       # zeros, and best fits that may be negative
        stats[n // 2] = 0.
        for p in names[:1]:
            best[p][0] = 0.
        for p in names[-1:]:
            best[p][n - 1], pens[p][n // 2] = -1.5, 0.
    for i in range(n):
        lim.set_limit_stat(i, stats[i])
        for p in names:
            lim.set_best_fit(i, best[p][i], p)
            lim.set_penalty_term(i, pens[p][i], p)
    x = np.linspace(0., 4., n) if n > 1 else np.array([4.])
    full = stats.reshape(n, -1).sum(1) + sum(
        (pens[p] for p in names), np.zeros(n))
    for op in seq:
        fn, args, y = {
            "stat": (plot_root.plot_stats_vs_scale, (), full),
            "best": (plot_root.plot_best_fit_vs_scale, op[1:], None),
            "sigma": (plot_root.plot_sigma_best_fit_vs_scale, op[1:], None),
            "penalty": (plot_root.plot_penalty_term_vs_scale, op[1:], None),
        }[op[0]]
        if op[0] == "best":
            y = best[op[1]]
        elif op[0] == "penalty":
            y = pens[op[1]]
        elif op[0] == "sigma":
            y = (best[op[1]] - prior[op[1]][0]) / prior[op[1]][1]
        g = attempt(ctx, op[0], lambda: fn(lim, *args, graphical=False))
        if g is None:
            return
        check_graph(ctx, g, x, y, op[0])
        ctx.state(("limit", n, c["per_bin"], len(names), op))
        ok = lib.close(lim.get_stats(), stats) and lib.close(
            lim.get_scales(), x) and all(
                lib.close(lim.get_best_fits(p), best[p]) and
                lib.close(lim.get_penalty_terms(p), pens[p]) for p in names)
        if not ctx.check(ok, "kept", "the plot of %r changed the results: "
                         "best fits %r, were %r" % (op, {
                             p: list(lim.get_best_fits(p)) for p in names},
                             best), plots=seq):
            return


# ------------------------------------------------------------------- grids
def grid(ctx, c):
    shape, spec = tuple(c["grid"]), tuple(c["spec"])
    kinds = ["graph", "map", "bins"]
    for seq in itertools.product(kinds, repeat=c["n"]):
        g = c_grid.search(shape, True, spec, c["per_bin"], kind=c["kind"],
                          sigma=False)
        full = shape + (spec if c["per_bin"] else ())
        stats = lib.pattern(full) / 8.
        pens = lib.pattern(shape, "linear") / 16.
        g.set_stats(stats.copy())
        g.set_penalty_terms(pens.copy())
        cfg = g.get_fit_config()
        names = list(cfg.get_pars())
        values = [np.array(cfg.get_par(p).get_values()) for p in names]
        for i, p in enumerate(names):
            cfg.get_par(p).set_best_fit(values[i][-1])
            cfg.get_par(p).set_penalty_term(.5)
        before = (stats.copy(), pens.copy(), [lib.par_view(cfg.get_par(p)) for p in names])
        for op in seq:
            ctx.state((shape, spec, c["kind"], c["per_bin"], op))
            {"graph": graphs, "map": maps, "bins": per_bin}[op](
                ctx, c, g, names, values, stats, pens, shape, spec)
            after = (g._stats, g._penalty_terms, [lib.par_view(cfg.get_par(p)) for p in names])
            ctx.check(lib.close(after[0], before[0]) and lib.close(
                after[1], before[1]) and after[2] == before[2], "kept",
                "plots of %s changed the results" % op, plots=seq)


def axis_of(par):
    return (par.get_bins(), par.get_low(), par.get_high())


def graphs(ctx, c, g, names, values, stats, pens, shape, spec):
    from echidna.output import plot_root
    raw = stats.reshape(shape + (-1,)).sum(-1)
    for i, p in enumerate(names):       # at every value of the others
        rest = [j for j in range(len(names)) if j != i]
        for at in itertools.product(*[range(shape[j]) for j in rest]):
            kw = {names[j]: values[j][k] for j, k in zip(rest, at)}
            ix = [slice(None)] * len(names)
            for j, k in zip(rest, at):
                ix[j] = k
            h = attempt(ctx, "raw graph", lambda:
                        plot_root.plot_raw_stats_vs_par_scale(
                            g, p, graphical=False, **kw))
            if h is not None:
                check_graph(ctx, h, values[i], raw[tuple(ix)], "raw graph")
    if len(names) == 1:
        for what, fn, y in (
                ("graph", plot_root.plot_stats_vs_par_scale, raw + pens),
                ("penalty", plot_root.plot_penalty_term_vs_par_scale, pens)):
            h = attempt(ctx, what, lambda: fn(g, names[0], graphical=False))
            if h is not None:
                check_graph(ctx, h, values[0], y, what)


def maps(ctx, c, g, names, values, stats, pens, shape, spec):
    from echidna.output import plot_root
    raw = stats.reshape(shape + (-1,)).sum(-1)
    cfg = g.get_fit_config()
    for i, j in itertools.permutations(range(len(names)), 2):
        rest = [k for k in range(len(names)) if k not in (i, j)]
        for at in itertools.product(*[range(shape[k]) for k in rest]):
            kw = {names[k]: values[k][v] for k, v in zip(rest, at)}
            ix = [slice(None)] * len(names)
            for k, v in zip(rest, at):
                ix[k] = v
            axes = [axis_of(cfg.get_par(names[i])),
                    axis_of(cfg.get_par(names[j]))]
            for what, fn, table in (
                    ("raw map", plot_root.plot_raw_stats_vs_pars, raw),
                    ("map", plot_root.plot_stats_vs_pars, raw + pens)):
                want = table[tuple(ix)]
                if i > j:
                    want = want.T
                h = attempt(ctx, what, lambda: fn(
                    g, names[i], names[j], graphical=False, **kw))
                if h is not None:
                    check_map(ctx, h, axes, want, what)


def per_bin(ctx, c, g, names, values, stats, pens, shape, spec):
    from echidna.output import plot_root
    if not c["per_bin"]:
        return
    sc = g.get_spectra_config()
    dims = list(sc.get_pars())
    orders = [(dims[0], None)] if len(spec) == 1 else list(
        itertools.permutations(dims, 2))
    points = [None] + list(np.ndindex(*shape))
    for x, y in orders:
        axes = [axis_of(sc.get_par(d)) for d in (x, y) if d]
        for at in points:
            if at is None:              # where the fit found its minimum
                want = stats[tuple(n - 1 for n in shape)]
                kw, best = {}, True
            else:
                want, best = stats[at], False
                kw = {p: values[i][at[i]] for i, p in enumerate(names)}
            if y is not None and dims.index(x) > dims.index(y):
                want = want.T
            h = attempt(ctx, "bins", lambda: plot_root.plot_per_bin(
                g, min_chisq=best, graphical=False, x_dim=x, y_dim=y, **kw))
            if h is not None:
                check_map(ctx, h, axes, want, "bins")


# ---------------------------------------------------- chi squared of scans
class Scan(object):
    """What a scan over signal counts leaves in its configuration."""

    def __init__(self, chi, counts):
        self._chi_squareds = [np.array(chi), np.zeros(len(chi)),
                              np.array(counts)]

    def get_chi_squareds(self):
        return self._chi_squareds


class Converter(object):
    def counts_to_half_life(self, counts, livetime=5.):
        return livetime * 64. / counts

    def counts_to_eff_mass(self, counts, livetime=5.):
        return counts ** .5 / livetime


class Analyser(object):
    _name = "systematic"

    def __init__(self, x, y):
        self._penalty_values = [x, y]


def scan(ctx, c):
    import plots
    from echidna.output import plot_chi_squared as mpl
    from echidna.output import plot_chi_squared_root as rt
    n = c["n"]
    counts = lib.pattern((n,), "linear") * .45      # Also less than one
    chi, other = lib.pattern((n,)) / 4., lib.pattern((n,), "sparse")
    s, conv = Scan(chi, counts), Converter()
    cases_ = [("signal", rt.chi_squared_vs_signal, (), {}, counts),
              ("half life", rt.chi_squared_vs_half_life, (conv,), {},
               counts / 320.),
              ("mass", rt.chi_squared_vs_mass, (conv,), {}, counts ** .5 / 5.)]
    for what, fn, args, kw, x in cases_:
        g = attempt(ctx, "ROOT " + what, lambda: fn(s, *args, **kw))
        ctx.state((n, what))
        if g is not None:
            check_graph(ctx, g, x, chi, "ROOT " + what)
    for penalty in (None, Scan(other, counts)):
        for kw, x in (({}, counts), ({"converter": conv}, counts),
                      ({"converter": conv, "half_life": True}, counts / 320.),
                      ({"converter": conv, "half_life": True, "livetime": 2.},
                       counts / 128.),
                      ({"converter": conv, "effective_mass": True},
                       counts ** .5 / 5.),
                      ({"converter": conv, "effective_mass": True,
                        "livetime": 2.}, counts ** .5 / 2.)):
            for save in (None, "name"):
                plots.reset()
                ctx.state((n, sorted(kw), penalty is not None, save))
                fig = attempt(ctx, "chi_squared_vs_signal %s" % sorted(kw),
                              lambda: mpl.chi_squared_vs_signal(
                                  s, penalty=penalty, save_as=save, **kw))
                if fig is None:
                    continue
                lines = [l for a in fig.axes for l in a.lines]
                want = [chi] + ([other] if penalty else [])
                ctx.check(len(lines) == len(want) and all(
                    lib.close(l.x, x) and lib.close(l.y, w)
                    for l, w in zip(lines, want)), "lines", "chi squared "
                    "shown as %r" % [(l.x, l.y) for l in lines])
                ctx.check([f for f, _ in plots.SHOWN] == (
                    ["name.png"] if save else []), "saved", "saved as %r" %
                    plots.SHOWN)
        for kw in ({"half_life": True}, {"effective_mass": True}):
            ctx.step()
            plots.reset()
            try:
                mpl.chi_squared_vs_signal(s, penalty=penalty, **kw)
                ctx.check(False, "refuse", "%r without a converter" % kw)
            except TypeError:
                pass
    for save in (None, "pen"):
        plots.reset()
        fig = attempt(ctx, "penalty_vs_systematic", lambda:
                      mpl.penalty_vs_systematic(Analyser(counts, chi),
                                                save_as=save))
        if fig is not None:
            lines = [l for a in fig.axes for l in a.lines]
            ctx.check(len(lines) == 1 and lib.close(lines[0].x, counts) and
                      lib.close(lines[0].y, chi), "lines", "penalty shown as "
                      "%r" % [(l.x, l.y) for l in lines])
            ctx.check([f for f, _ in plots.SHOWN] == (
                [save + ".png"] if save else []), "saved", "saved as %r" %
                plots.SHOWN)
