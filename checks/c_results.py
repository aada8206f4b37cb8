"""P22: fit and limit results hold one entry per grid point, scale and
parameter, and saving and loading them at any point of any history changes
neither what they answer nor what they do next."""
import itertools
from collections import OrderedDict

import numpy as np

import lib
import stubs

PROPERTY = "P22"
BOUNDS = {
    "quick": "8 sets of fit parameters (none, global, spectral, both, in any "
             "order) x whole and per-bin statistics; every sequence of 3 of 7 "
             "operations on fit results and of up to 3 of 8-14 operations on "
             "limit results (1-3 scales; 1 operation for 12 scales), the saved-and-loaded copy in lock "
             "step with the original and a dictionary model; objects of "
             "arrays with every pair of 11 attribute kinds (and a third)",
    "thorough": "sequences of 4 operations; every three attribute kinds",
}
JOBS = {"quick": 8, "thorough": 8}

# (kind, name, dimension or None, grid)
SETS = [
    [],
    [("shift", "energy_mc", (-1., 1., 3))],
    [("rate", "te_rate", (0., 4., 3))],
    [("shift", "energy_mc", (-1., 1., 2)), ("rate", "te_rate", (0., 4., 2))],
    [("rate", "te_rate", (0., 4., 2)), ("shift", "energy_mc", (-1., 1., 2))],
    [("scale", "radial_mc", (.5, 1.5, 2)), ("shift", "energy_mc",
                                            (-1., 1., 2)),
     ("shift", "radial_mc", (0., 3., 2))],
    [("resolution", "energy_mc", (100., 300., 2)), ("rate", "b_rate",
                                                    (1., 2., 3))],
    [("resolution_ly", "energy_mc", (100., 300., 3)),
     ("rate", "a_rate", (1., 2., 2)), ("rate", "b_rate", (1., 2., 2))],
]
AXES = [("energy_mc", 0., 2., 2), ("radial_mc", 0., 3., 1)]
FIT_OPS = ["stats", "penalties", "point", "minimise", "reset", "values",
           "nothing"]


def cases(tier):
    n = 4 if tier == "thorough" else 3
    k = len(KINDS)
    for i, j, l in itertools.product(range(k), repeat=3):
        if tier == "thorough" or l == (2 * i + j + 4) % k:
            yield {"attributes": [i, j, l]}
    for s in range(len(SETS)):
        for per_bin in (False, True):
            for first in FIT_OPS:
                if SETS[s]:
                    yield {"fit": s, "per_bin": per_bin, "first": first,
                           "n": n}
    for s in range(len(SETS)):
        for scales in (1, 2, 3):
            for per_bin in (False, True):
                yield {"limit": s, "scales": scales, "per_bin": per_bin,
                       "n": 3 if tier == "thorough" or scales < 3 else 2}
    for s in (1, 3):
        for per_bin in (False, True):
            yield {"limit": s, "scales": 12, "per_bin": per_bin, "n": 1}


def par_name(p):
    return p[1] if p[0] == "rate" else p[1] + "_" + p[0]


def make_fit_config(s, name="the_fit"):
    from echidna.core import parameter
    from echidna.core.config import GlobalFitConfig
    cls = {"rate": parameter.RateParameter, "shift": parameter.ShiftParameter,
           "scale": parameter.ScaleParameter,
           "resolution": parameter.ResolutionParameter,
           "resolution_ly": parameter.ResolutionParameter}
    cfg = GlobalFitConfig(name, OrderedDict())
    for i, p in enumerate(SETS[s]):
        lo, hi, n = p[2]
        kw = {} if p[0] == "rate" else {"dimension": p[1]}
        cfg.add_par(cls[p[0]](par_name(p), lo + (hi - lo) / (n - 1) if n > 2
                              else hi, None if i == 1 else 0.3 + i, lo, hi, n,
                              **kw),
                    "spectra" if p[0] == "rate" else "global")
    return cfg


def cfg_view(cfg):
    return (cfg.get_name(), cfg.get_shape(),
            [(p, lib.par_view(cfg.get_par(p)), cfg.get_index(p))
             for p in cfg.get_pars()],
            [p.get_name() for p in cfg.get_global_pars()] if hasattr(
                cfg, "get_global_pars") else None)


def fit_view(g):
    cfg, spec = g.get_fit_config(), g.get_spectra_config()
    names = cfg.get_pars()
    v = {"name": g.get_name(), "config": cfg_view(cfg),
         "spectra": (spec.get_name(), spec.get_pars(),
                     [lib.par_view(spec.get_par(p)) for p in
                      spec.get_pars()]),
         "resets": float(g.get_resets()),
         "stats": lib.ask(g.get_stats), "raw": lib.ask(g.get_raw_stats),
         "summary": lib.ask(lambda: [(k, sorted(d.items())) for k, d in
                                     g.get_summary().items()]),
         "scales": [lib.ask(g.get_scales, p) for p in names]}
    for idx in itertools.product(*[range(k) for k in cfg.get_shape()]):
        v[("stat",) + idx] = lib.ask(g.get_stat, idx)
        v[("raw",) + idx] = lib.ask(g.get_raw_stat, idx)
        v[("pen",) + idx] = lib.ask(g.get_penalty_term, idx)
    for k in range(1, len(names)):
        v["project-%d" % k] = lib.ask(g.nd_project_stats, *names[:k])
    return v


def numbers(shape, seed):
    n = int(np.prod(shape, dtype=int))
    return np.array([((i + 1) * (seed + 2) * 37 % 101) / 8. + i / 3.
                     for i in range(n)]).reshape(shape)


def new_grid(s, per_bin, name="the_fit"):
    from echidna.fit.minimise import GridSearch
    return GridSearch(make_fit_config(s), lib.make_config(AXES, name="spec"),
                      name=name, per_bin=per_bin)


def fit_op(op, k, g, per_bin, to=0):
    """Operation number k of a history on grid g."""
    from echidna.fit.test_statistic import BakerCousinsChi
    cfg = g.get_fit_config()
    shape = cfg.get_shape()
    bins = tuple(a[3] for a in AXES) if per_bin else ()
    if op == "stats":
        g.set_stats(numbers(shape + bins, k))
    elif op == "penalties":
        g.set_penalty_terms(numbers(shape, k + 5))
    elif op == "point":
        at = tuple(n - 1 for n in shape)
        g.set_stat(np.array(numbers(bins, k) * 2.), at)
        g.set_penalty_term(k + .5, at)
    elif op == "reset":
        g.reset_grids()
    elif op == "values":
        for i, p in enumerate(cfg.get_pars()):
            cfg.get_par(p).set_current_value(1.25 + i + k)
    elif op == "minimise":
        # smallest at the highest values (`to` places lower), different in
        # every direction
        best = [cfg.get_par(p).get_values()[-1 - to] for p in cfg.get_pars()]

        def funct(*values):
            d = sum((i + 1.) * (v - best[i]) ** 2
                    for i, (v, p) in enumerate(zip(values, cfg.get_pars())))
            st = numbers(bins, 1) * 0. + d + k
            return (st if bins else float(st)), .01 * sum(values)
        return repr(g.minimise(funct, BakerCousinsChi(per_bin=per_bin)))


def compare(ctx, key, a, b, history):
    for k in a:
        if repr(a[k]) != repr(b.get(k)):
            return ctx.check(False, "%s:%s" % (key, k if isinstance(k, str)
                                               else k[0]),
                             "%s is %r, after saving and loading %r (history "
                             "%r)" % (k, a[k], b.get(k), history))
    return True


def run_case(ctx, c):
    stubs.FILES.clear()
    if "fit" in c:
        for tail in itertools.product(FIT_OPS, repeat=c["n"] - 1):
            if not fit_history(ctx, c, [c["first"]] + list(tail)):
                return
    elif "limit" in c:
        limits(ctx, c)
    else:
        attributes(ctx, c["attributes"])


def through_file(g):
    from echidna.output import store
    store.dump_fit_results("r.hdf5", g)
    return store.load_fit_results("r.hdf5")


def fit_history(ctx, c, history):
    a, b = [new_grid(c["fit"], c["per_bin"], None if history[0] == "nothing"
                     else "te_fit_x") for _ in range(2)]
    if history[0] == "nothing":
        if not ctx.check(a.get_name() == "the_fit_results", "default-name",
                         "default name of the results is %r" % a.get_name()):
            return False
    for k, op in enumerate(history):
        x, y = fit_op(op, k, a, c["per_bin"]), fit_op(op, k, b, c["per_bin"])
        want = fit_view(b)
        b = through_file(b)
        ctx.step()
        ctx.state((c["fit"], c["per_bin"], history[:k + 1]))
        if not ctx.check(x == y, "fit:" + op, "%s gives %r, after loading %r"
                         % (op, x, y)):
            return False
        if not compare(ctx, "fit", want, fit_view(b), history[:k + 1]) or \
                not compare(ctx, "fit", fit_view(a), want, history[:k + 1]):
            return False
    return True


def limits(ctx, c):
    s, n = c["limit"], c["scales"]
    names = [par_name(p) for p in SETS[s]]
    ops = [("stat", i) for i in range(n)]
    if names:
        ops += [("fits", i) for i in range(n)]
        ops += [("best", n - 1, names[-1]), ("penalty", 0, names[0]),
                ("equal", n - 1, names[-1]), ("best", 0, names[0]),
                ("zero", 0, names[0])]
    k = c["n"] if names else min(c["n"], 2)
    for history in itertools.product(ops, repeat=k):
        if not limit_history(ctx, c, list(history), names):
            return


def limit_history(ctx, c, history, names):
    from echidna.core.config import SpectraFitConfig
    from echidna.core.parameter import RateParameter
    from echidna.fit.fit_results import LimitResults
    from echidna.output import store
    n = c["scales"]
    rate = RateParameter("rate", 1., None, 0. if n > 1 else 4., 4., n)
    lim = LimitResults(
        make_fit_config(c["limit"]), lib.make_config(AXES, name="spec"),
        SpectraFitConfig("lim_cfg", OrderedDict([("rate", rate)]), "te130"),
        "my_limit")
    if c["per_bin"]:
        lim._stats = np.zeros((n,) + tuple(a[3] for a in AXES))
    bins = tuple(a[3] for a in AXES) if c["per_bin"] else ()
    model = {"stat": [np.zeros(bins) for _ in range(n)],
             "best": {(i, p): 0. for i in range(n) for p in names},
             "pen": {(i, p): 0. for i in range(n) for p in names},
             "fits": {}}
    for k, op in enumerate(history):
        i = op[1]
        if op[0] == "stat":
            model["stat"][i] = numbers(bins, k + 3)
            lim.set_limit_stat(i, model["stat"][i])
        elif op[0] in ("best", "zero"):
            v = 0. if op[0] == "zero" else 2.5 + k
            lim.set_best_fit(i, v, op[2])
            model["best"][i, op[2]] = v
        elif op[0] == "penalty":
            lim.set_penalty_term(i, .75 + k, op[2])
            model["pen"][i, op[2]] = .75 + k
        elif op[0] == "equal":      # as far from the prior
            for p in names:
                lim.set_penalty_term(i, .75 + k, p)
                model["pen"][i, p] = .75 + k
        else:       # what Limit does with the fit of a scale
            g = new_grid(c["limit"], c["per_bin"])
            if i == 1:
                g.reset_grids()
            fit_op("minimise", k + i, g, c["per_bin"], to=i % 2)
            for p, d in g.get_summary().items():
                lim.set_best_fit(i, d["best_fit"], p)
                lim.set_penalty_term(i, d["penalty_term"], p)
                model["best"][i, p] = d["best_fit"]
                model["pen"][i, p] = d["penalty_term"]
                # the fit of the last scale leaves its results in the config
                q = lim.get_fit_config().get_par(p)
                q.set_best_fit(d["best_fit"])
                q.set_penalty_term(d["penalty_term"])
            lim.set_fit_result(i, g)
            model["fits"][i] = fit_view(g)
        if op[0] in ("best", "zero", "penalty", "equal"):
            model["fits"].pop(i, None)
        ctx.step()
        ctx.state((c["limit"], n, c["per_bin"], history[:k + 1]))
        if k + 1 == len(history) or op[0] == "fits":
            before = cfg_view(lim.get_fit_config())
            if not limit_check(ctx, lim, model, names, n, "limit", history):
                return False
            store.dump_limit_results("l.hdf5", lim)
            back = store.load_limit_results("l.hdf5")
            ok = limit_check(ctx, back, model, names, n, "loaded", history)
            if not ok:
                return False
            same = (back.get_name(), cfg_view(back.get_fit_config()),
                    cfg_view(back._limit_config)) == (
                        "my_limit", before, cfg_view(lim._limit_config))
            if not ctx.check(same, "loaded:config", "configuration %r loaded "
                             "as %r" % (before, cfg_view(
                                 back.get_fit_config())), history=history):
                return False
            lim = back
    return True


def limit_check(ctx, lim, model, names, n, key, history):
    full = [float(np.sum(s)) + sum(model["pen"][i, p] for p in names)
            for i, s in enumerate(model["stat"])]
    got = [("full stat", [lim.get_full_stat(i) for i in range(n)], full),
           ("full stats", lim.get_full_stats(), full),
           ("stat", [lim.get_limit_stat(i) for i in range(n)],
            model["stat"]),
           ("stats", lim.get_stats(), model["stat"]),
           ("scales", lim.get_scales(), np.linspace(0., 4., n) if n > 1 else
            [4.]),
           ("penalties at scale", [lim.get_penalty_terms_at_scale(i)
                                   for i in range(n)],
            [[model["pen"][i, p] for p in names] for i in range(n)])]
    for p in names:
        best = [model["best"][i, p] for i in range(n)]
        pen = [model["pen"][i, p] for i in range(n)]
        got += [("best fits of " + p, lim.get_best_fits(p), best),
                ("best fit of " + p, [lim.get_best_fit(i, p)
                                      for i in range(n)], best),
                ("penalties of " + p, lim.get_penalty_terms(p), pen),
                ("penalty of " + p, [lim.get_penalty_term(i, p)
                                     for i in range(n)], pen)]
    for what, a, b in got:
        if not ctx.check(lib.close(a, b), key + ":" + what.split(" of ")[0],
                         "%s is %r, expected %r" % (what, a, b),
                         history=history):
            return False
    for i, v in model["fits"].items():
        g = lim._fit_results[i]
        if not ctx.check(g is not None, key + ":fit", "fit of scale %d is "
                         "lost" % i, history=history):
            return False
        w = fit_view(g)
        if not compare(ctx, key + "-fit", v, w, history):
            return False
    return True


KINDS = [None, 3, 2.5, "text" * 3000, np.array([1., 2., np.nan]),
         np.arange(6).reshape(2, 3), np.array([]), [1, 2, 3], 0, False,
         ""]


class Holder(object):
    def __init__(self, values):
        self.first, self.second, self.third = values


def attributes(ctx, combo):
    from echidna.output import store
    values = [KINDS[i] for i in combo]
    store.dump_ndarray("a.hdf5", Holder(values))
    # read into an object as it was, and into one with nothing set yet
    for start in (values, [None] * 3, [np.zeros(1)] * 3):
        h = store.load_ndarray("a.hdf5", Holder(list(start)))
        ctx.step()
        ctx.state((combo, repr(start)))
        for name, v, s in zip(("first", "second", "third"), values, start):
            want = s if v is None else v
            got = getattr(h, name)
            ok = repr(np.asarray(got).tolist()) == repr(
                np.asarray(want).tolist())
            ctx.check(ok, "attribute", "attribute %.200r loaded as %.200r over"
                      " %.200r" % (v, got, s))
