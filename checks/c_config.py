"""P24: configurations are ordered maps of parameters, and survive a round
trip through their dictionary and through their YAML files, under the name
that is asked for; malformed dictionaries are refused."""
import copy
import itertools
import json
import os
import shutil
import tempfile
from collections import OrderedDict

import numpy as np

import lib

PROPERTY = "P24"
BOUNDS = {
    "quick": "every ordered choice of up to 3 of 5 axes, as made, shrunk, "
             "rebinned and set by hand; every ordered choice of up to 3 of 7 "
             "fit parameters in 8 states; all name and file name forms; "
             "dictionary, JSON and YAML; every sequence of 4 of 8 additions "
             "to a fit configuration; every 4 writes to 2 files of 3 kinds "
             "in 3 folders; every order of up to 3 of 11 names that contain "
             "each other; the example files; 20 malformed dictionaries",
    "thorough": "up to 4 axes and parameters, sequences of 5 additions",
}
JOBS = {"quick": 8, "thorough": 8}

AXES = [("energy_mc", 0., 10., 4), ("radial3_mc", 0.1, 0.7, 2),
        ("time_reco", -1. / 3., 1e-5, 1), ("alpha_x_truth", 1e6, 2e6, 8),
        ("zenith_mc", -2, 2, 2)]
AXIS_STATES = ["made", "shrunk", "rebinned", "set", "numpy"]
PARS = [("energy_mc", "shift"), ("energy_mc", "resolution"),
        ("radial_reco", "scale"), ("energy_mc", "scale"),
        (None, "te130_rate"), (None, "rate_x"), ("time_mc", "resolution_ly")]
STATES = ["plain", "nosigma", "current", "fitted", "numpy", "log", "logdev",
          "setlog"]
FNAMES = [None, "", "own", "own.yml"]
NAMES = [None, "", "asked"]


def perms(n, k):
    for m in range(1, k + 1):
        for p in itertools.permutations(range(n), m):
            yield list(p)


def cases(tier):
    k = 4 if tier == "thorough" else 3
    for which in perms(len(AXES), k):
        for state in AXIS_STATES:
            yield {"axes": which, "state": state}
    for which in perms(len(PARS), k):
        for i, state in enumerate(STATES):
            if tier == "quick" and len(which) == 3 and \
                    (sum(which) + which[0] + i) % 2:
                continue
            yield {"pars": which, "state": state}
    for first in ADD:
        yield {"add": [first], "more": k}
    yield {"malformed": True}
    yield {"files": True}
    yield {"lookups": True}
    yield {"examples": True}


def axis_view(cfg):
    pars = cfg.get_pars()
    v = {"pars": pars, "shape": cfg.get_shape(), "type": cfg.get_type(),
         "dims": lib.ask(cfg.get_dims), "index": [cfg.get_index(p)
                                                  for p in pars]}
    for i, p in enumerate(pars):
        par = cfg.get_par(p)
        v[p] = [lib.ask(getattr(par, "get_" + g)) for g in (
            "name", "low", "high", "bins", "width", "bin_boundaries",
            "bin_centres")]
        v["index-" + p] = cfg.get_par_by_index(i) is par
        d = lib.ask(cfg.get_dim, p)
        v["dim-" + p] = (d, lib.ask(cfg.get_dim_type, d))
    return v


def build_axes(case):
    from echidna.core.spectra import Spectra
    axes = [AXES[i] for i in case["axes"]]
    cfg = lib.make_config(axes, name="the_axes")
    st = case["state"]
    n, lo, hi, bins = axes[0]
    if st in ("shrunk", "rebinned"):
        s = Spectra("s_mc", 1., cfg)
        s._data += 1.
        if st == "shrunk":
            s.shrink(**{n + "_low": lo + (hi - lo) / 2. if bins > 1 else lo})
        else:
            s.rebin([max(1, a[3] // 2) for a in axes])
        cfg = s.get_config()
    elif st == "set":
        cfg.get_par(n).set_par(low=lo - 1., bins=bins + 1)
    elif st == "numpy":
        e = np.linspace(lo, hi, bins + 1)
        cfg.get_par(n).set_par(low=e[0], high=e[-1], bins=np.int64(bins))
    return cfg


def same(ctx, key, want, got, case):
    for k in want:
        if repr(want[k]) != repr(got.get(k)):
            return ctx.check(False, "%s:%s" % (key, k), "%s: %r came back as "
                             "%r" % (k, want[k], got.get(k)))
    return True


def run_case(ctx, case):
    if "add" in case:
        for tail in itertools.product(sorted(ADD), repeat=case["more"]):
            if not additions(ctx, case["add"] + list(tail)):
                return
        return
    for k, fn in (("malformed", malformed), ("lookups", lookups),
                  ("examples", examples)):
        if k in case:
            return fn(ctx)
    folder = tempfile.mkdtemp(prefix="mc_config_") + "/"
    try:
        if "files" in case:
            own_names(ctx, folder)
            return files(ctx, folder)
        (axes_case if "axes" in case else pars_case)(ctx, case, folder)
    finally:
        shutil.rmtree(folder)


def expected_name(asked, default, path):
    if asked is None:
        return default
    return asked or os.path.splitext(os.path.basename(path))[0]


def file_name(given, default, name, suffix):
    """Where a file is expected: one of these."""
    if given is None:
        return [default + ".yml"]
    if given == "":
        return [name + suffix + ".yml"]
    return ["own.yml"]


def axes_case(ctx, case, folder):
    from echidna.core.config import SpectraConfig
    cfg = build_axes(case)
    want = axis_view(cfg)
    names = [AXES[i][0] for i in case["axes"]]
    ctx.check(want["pars"] == names, "order", "axes %r, expected %r" % (
        want["pars"], names))
    ctx.check(want["type"] == "spectra", "type", "type %r" % want["type"])
    for i, p in enumerate(names):
        ctx.check(want["index"][i] == i and want["index-" + p], "index",
                  "axis %s" % p)
        d, t = p.rsplit("_", 1)
        ctx.check(want["dim-" + p] == (d, t), "dimension",
                  "%s has dimension %r" % (p, want["dim-" + p]))
    d = cfg.dump()
    for how, x in (("dict", d), ("json", json.loads(
            py2_dumps(d), object_pairs_hook=OrderedDict))):
        for name in ("x", None):
            new = SpectraConfig.load(x, name=name) if name else \
                SpectraConfig.load(x)
            ctx.step()
            ctx.state((repr(case), how, name))
            same(ctx, how, want, axis_view(new), case)
            ctx.check(not name or new.get_name() == name, how + ":name",
                      "name %r" % new.get_name())
    ctx.check(want["shape"] == tuple(cfg.get_par(p).get_bins()
                                     for p in names), "shape", "shape %r" %
              (want["shape"],))
    ctx.check(sorted(want["dims"]) == sorted(p.rsplit("_", 1)[0]
                                             for p in names), "dimensions",
              "dimensions %r" % (want["dims"],))
    default = SpectraConfig.load(d).get_name()
    for given in FNAMES:
        kw = {} if given is None else {"filename": given}
        for f in os.listdir(folder):
            os.remove(folder + f)
        cfg.dump_to_file(path=folder, **kw)
        path = file_name(given, "spectra_config", "the_axes", "")[0]
        if not ctx.check(os.listdir(folder) == [path], "file",
                         "file name %r gives %r" % (given,
                                                    os.listdir(folder))):
            return
        for asked in NAMES if len(names) < 3 else ["asked"]:
            kw = {} if asked is None else {"name": asked}
            new = SpectraConfig.load_from_file(folder + path, **kw)
            ctx.step()
            ctx.state((repr(case), given, asked))
            same(ctx, "yaml", want, axis_view(new), case)
            w = expected_name(asked, default, path)
            ctx.check(new.get_name() == w, "yaml:name", "name %r gives %r, "
                      "expected %r" % (asked, new.get_name(), w))


def py2_dumps(d):
    import py2rt
    return py2rt._shims()["json"].dumps(d)


def make_par(i, state):
    from echidna.core import parameter
    dim, kind = PARS[i]
    cls = parameter.RateParameter if dim is None else {
        "shift": parameter.ShiftParameter, "scale": parameter.ScaleParameter,
        "resolution": parameter.ResolutionParameter,
        "resolution_ly": parameter.ResolutionParameter}[kind]
    kw = {} if dim is None else {"dimension": dim}
    if state == "log":
        kw.update(logscale=True, base=10)
    elif state == "logdev":
        kw.update(logscale_deviation=True)
    p = cls(kind if dim is None else dim + "_" + kind, 2. + i / 3.,
            None if state == "nosigma" and i % 2 else 0.1 * (i + 1), 1.,
            5. + i, 3 + i, **kw)
    if state in ("current", "fitted"):
        p.set_current_value(2.5 * ((i + 1) % 2))
    if state == "fitted":
        p.set_best_fit(3.25 * (i % 2))
        p.set_penalty_term(.5 * (i // 2 % 2))
    if state == "numpy":
        v = p.get_values()
        p.set_current_value(v[1])
        p.set_best_fit(v[0])
        p.set_penalty_term(v[-1])
        p.set_par(bins=np.int64(4), sigma=v[2])
    if state == "setlog":
        p.set_par(logscale=True)
    return p


def fit_view(cfg, basic=False):
    skip = ("current_value", "best_fit", "penalty_term") if basic else ()
    pars = cfg.get_pars()
    v = {"pars": pars, "shape": cfg.get_shape(), "type": cfg.get_type(),
         "index": [cfg.get_index(p) for p in pars],
         "by index": [cfg.get_par_by_index(i) is cfg.get_par(p)
                      for i, p in enumerate(pars)]}
    for p in pars:
        par = cfg.get_par(p)
        v[p] = lib.par_view(par, skip)
        if hasattr(par, "get_dimension"):
            v[p]["dimension"] = lib.ask(par.get_dimension)
    if hasattr(cfg, "get_global_pars"):
        v["global"] = [p.get_name() for p in cfg.get_global_pars()]
        v["spectra"] = [p.get_name() for p in cfg.get_spectra_pars()]
    return v


def grouped(which):
    """Order in which the two dictionaries list the parameters."""
    dims, order = OrderedDict(), []
    for i in which:
        if PARS[i][0] is not None:
            dims.setdefault(PARS[i][0], []).append(i)
    for d in dims.values():
        order += d
    return order + [i for i in which if PARS[i][0] is None]


def pars_case(ctx, case, folder):
    from echidna.core.config import GlobalFitConfig, SpectraFitConfig
    which, state = case["pars"], case["state"]
    kinds = {PARS[i][0] is None for i in which}
    if kinds == {True}:
        spectra_case(ctx, case, folder)
        # as parameters of a fit: there is always one dictionary of each
    cfg = GlobalFitConfig("the_fit", OrderedDict())
    for i in which:
        cfg.add_par(make_par(i, state),
                    "spectra" if PARS[i][0] is None else "global")
    names = [make_par(i, state).get_name() for i in which]
    first = fit_view(cfg)
    ctx.check(first["pars"] == names and first["index"] ==
              list(range(len(names))) and all(first["by index"]), "order",
              "parameters %r, expected %r" % (first["pars"], names))
    ctx.check(first["type"] == "global_fit", "type", first["type"])
    exact = grouped(which) == which
    for basic in (False, True):
        want = fit_view(cfg, basic)
        if not exact:
            for k in ("pars", "shape", "index", "global"):
                want.pop(k)
        g, s = cfg.dump(basic)
        for how in ("dict", "json"):
            if how == "json":
                g, s = json.loads(py2_dumps([g, s]),
                                  object_pairs_hook=OrderedDict)
            new = GlobalFitConfig.load(
                g, spectral_config=s if True in kinds else None, name="n")
            ctx.step()
            ctx.state((repr(case), basic, how))
            same(ctx, how, want, fit_view(new, basic), case)
            ctx.check(new.get_name() == "n", how + ":name", "name %r" %
                      new.get_name())
            if basic:
                unset(ctx, new)
        default = "global_fit_config"
        # names do not depend on what the config holds
        full = len(which) == 1 or state == "plain" and len(which) == 2
        for gf, sf in itertools.product(FNAMES, repeat=2) if full else [
                (None, "own.yml")]:
            if gf and sf:
                sf = sf.replace("own", "own2")
            for f in os.listdir(folder):
                os.remove(folder + f)
            kw = {}
            if gf is not None:
                kw["global_fname"] = gf
            if sf is not None:
                kw["spectral_fname"] = sf
            cfg.dump_to_file(path=folder, basic=basic, **kw)
            gp = file_name(gf, "global_fit_config", "the_fit", "_global")[0]
            sp = file_name(sf, "spectral_fit_config", "the_fit",
                           "_spectral")[0]
            if gf and sf:
                sp = sp.replace("own", "own2")
            if not ctx.check(sorted(os.listdir(folder)) == sorted([gp, sp]),
                             "file", "file names %r give %r, expected %r" % (
                                 (gf, sf), os.listdir(folder), (gp, sp))):
                return
            for asked in NAMES if full else ["asked"]:
                kw = {} if asked is None else {"name": asked}
                if True in kinds:
                    kw["sf_filename"] = folder + sp
                new = GlobalFitConfig.load_from_file(folder + gp, **kw)
                ctx.step()
                same(ctx, "yaml", want, fit_view(new, basic), case)
                w = expected_name(asked, default, gp)
                ctx.check(new.get_name() == w, "yaml:name", "name %r gives "
                          "%r, expected %r" % (asked, new.get_name(), w))


def unset(ctx, cfg):
    for p in cfg.get_pars():
        v = lib.par_view(cfg.get_par(p))
        ctx.check(v["best_fit"] == v["penalty_term"] == "refused" and
                  v["current_value"] in (None, "refused"), "basic",
                  "basic properties of %s bring back %r" % (p, v))


def spectra_case(ctx, case, folder):
    from echidna.core.config import SpectraFitConfig
    which, state = case["pars"], case["state"]
    cfg = SpectraFitConfig("the_fit", OrderedDict(), "te130")
    for i in which:
        cfg.add_par(make_par(i, state))
    for basic in (False, True):
        want = fit_view(cfg, basic)
        d = cfg.dump(basic)
        for how in ("dict", "json"):
            if how == "json":
                d = json.loads(py2_dumps(d), object_pairs_hook=OrderedDict)
            new = SpectraFitConfig.load(d, "te130", name="n")
            ctx.step()
            ctx.state((repr(case), "spectra", basic, how))
            same(ctx, "spectral-" + how, want, fit_view(new, basic), case)
            ctx.check((new.get_name(), new._spectra_name) == ("n", "te130"),
                      how + ":name", "name %r" % new.get_name())
            if basic:
                unset(ctx, new)
        for sf in FNAMES:
            for f in os.listdir(folder):
                os.remove(folder + f)
            kw = {} if sf is None else {"spectral_fname": sf}
            cfg.dump_to_file(path=folder, basic=basic, **kw)
            sp = file_name(sf, "spectral_fit_config", "the_fit",
                           "_spectral")[0]
            if not ctx.check(os.listdir(folder) == [sp], "spectral-file",
                             "file name %r gives %r, expected %r" % (
                                 sf, os.listdir(folder), sp)):
                return
            for asked in NAMES:
                kw = {} if asked is None else {"name": asked}
                new = SpectraFitConfig.load_from_file(folder + sp, "te130",
                                                      **kw)
                ctx.step()
                same(ctx, "spectral-yaml", want, fit_view(new, basic), case)
                w = expected_name(asked, "spectral_fit_config", sp)
                ctx.check(new.get_name() == w, "spectral-yaml:name",
                          "name %r gives %r, expected %r" % (
                              asked, new.get_name(), w))


ADD = ["shift", "scale", "rate", "shift-again", "config-a", "config-b",
       "fit", "bad-type"]


def piece(kind):
    from echidna.core.config import GlobalFitConfig, SpectraFitConfig
    if kind in ("config-a", "config-b"):
        c = SpectraFitConfig("c", OrderedDict(), kind[-1])
        c.add_par(make_par(5, "plain"))
        return c
    c = GlobalFitConfig("g", OrderedDict())
    c.add_par(make_par(2, "plain"), "global")
    c.add_par(make_par(4, "plain"), "spectra")
    c.add_par(make_par(6, "plain"), "global")
    return c


def additions(ctx, history):
    """A fit configuration as an ordered map name -> (kind, parameter)."""
    from echidna.core.config import GlobalFitConfig
    cfg = GlobalFitConfig("the_fit", OrderedDict())
    model = OrderedDict()
    for i, op in enumerate(history):
        if i and not view(ctx, cfg, model, history[:i]):
            return False
        if op in ("shift", "scale", "shift-again", "rate"):
            p = make_par({"shift": 0, "shift-again": 0, "scale": 3,
                          "rate": 4}[op], "plain")
            kind = "spectra" if op == "rate" else "global"
            cfg.add_par(p, kind)
            model[p.get_name()] = (kind, p)
        elif op == "bad-type":
            p = make_par(1, "plain")
            if not ctx.check(lib.rejects(lambda: cfg.add_par(p, "other")),
                             "bad-type", "a parameter of unknown type is "
                             "added"):
                return False
        else:
            c = piece(op)
            want = [(n, c.get_par(n)) for n in c.get_pars()]
            cfg.add_config(c)
            if op == "fit":
                glob = [p.get_name() for p in c.get_global_pars()]
                want.sort(key=lambda x: x[0] not in glob)
                for n, p in want:
                    model[n] = ("global" if n in glob else "spectra", p)
            else:
                for n, p in want:
                    model[op[-1] + "_" + n] = ("spectra", p)
        ctx.step()
    ctx.state(history)
    return view(ctx, cfg, model, history)


def view(ctx, cfg, model, history):
    names = list(model)
    ok = cfg.get_pars() == names and \
        all(cfg.get_par(n) is model[n][1] for n in names) and \
        all(cfg.get_par(n).get_name() == n for n in names) and \
        [cfg.get_index(n) for n in names] == list(range(len(names))) and \
        [p.get_name() for p in cfg.get_global_pars()] == [
            n for n in names if model[n][0] == "global"] and \
        [p.get_name() for p in cfg.get_spectra_pars()] == [
            n for n in names if model[n][0] == "spectra"] and \
        cfg.get_shape() == tuple(model[n][1].get_bins() for n in names)
    return ctx.check(ok, "additions", "after %r the parameters are %r, "
                     "expected %r" % (history, [
                         (n, cfg.get_par(n).get_name())
                         for n in cfg.get_pars()], names))


def kinds(n, name=None):
    """A small and a large configuration of each kind."""
    from echidna.core.config import (GlobalFitConfig, SpectraConfig,
                                     SpectraFitConfig)
    axes = lib.make_config(AXES[:n], name=name or "the_axes")
    fit = GlobalFitConfig(name or "the_fit", OrderedDict())
    rates = SpectraFitConfig(name or "the_rates", OrderedDict(), "te130")
    for i in (0, 1, 3, 4, 5)[:2 * n - 1]:
        fit.add_par(make_par(i, "fitted"),
                    "global" if PARS[i][0] else "spectra")
    for i in (4, 5)[:n]:
        rates.add_par(make_par(i, "fitted"))
    if n > 2:
        fit.add_par(make_par(4, "fitted"), "spectra")
    return OrderedDict([
        ("axes", (axes, axis_view, lambda c, f: c.dump_to_file(
            path=f[0], filename=f[1]), lambda f, kw:
            SpectraConfig.load_from_file(f[0] + f[1] + ".yml", **kw))),
        ("fit", (fit, fit_view, lambda c, f: c.dump_to_file(
            path=f[0], global_fname=f[1], spectral_fname=f[1] + "_rates"),
            lambda f, kw: GlobalFitConfig.load_from_file(
                f[0] + f[1] + ".yml", sf_filename=None if not
                fit.get_spectra_pars() else f[0] + f[1] + "_rates.yml",
                **kw))),
        ("rates", (rates, fit_view, lambda c, f: c.dump_to_file(
            path=f[0], spectral_fname=f[1]), lambda f, kw:
            SpectraFitConfig.load_from_file(f[0] + f[1] + ".yml", "te130",
                                            **kw)))])


def files(ctx, folder):
    """Files written again, side by side, below dotted names."""
    for sub, kind in itertools.product(("", "v1.2/", "a.yml.d/"),
                                       ("axes", "fit", "rates")):
        if sub and not os.path.isdir(folder + sub):
            os.mkdir(folder + sub)
        for order in itertools.product((3, 1, 2), repeat=2):
            written = {}
            for i, n in enumerate(order + order[::-1]):
                f = (folder + sub, ("%s.2" % kind, "two_%s" % kind)[i % 2])
                cfg, look, dump, load = kinds(n)[kind]
                dump(cfg, f)
                written[f] = n
                for g, m in written.items():
                    for asked in ("", "asked", None):
                        kw = {} if asked is None else {"name": asked}
                        try:
                            new = kinds(m)[kind][3](g, kw)
                        except Exception as e:
                            ctx.check(False, "files", "%s of %d written as "
                                      "%r after %r cannot be read: %s" % (
                                          kind, m, g[1], order, e))
                            return
                        ctx.step()
                        ctx.state((sub, kind, order, i, g[1], asked))
                        same(ctx, "files", look(kinds(m)[kind][0]),
                             look(new), kind)
                        ctx.check(asked is None or new.get_name() ==
                                  (asked or g[1]), "files:name", "%r read "
                                  "as %r is named %r" % (g[1], asked,
                                                         new.get_name()))


def own_names(ctx, folder):
    """Files named after their configuration."""
    for name, kind in itertools.product(
            ("plain", "v1.2", "a b", "MC_v2.", "x.y.z"),
            ("axes", "fit", "rates")):
        cfg, _, dump, _ = kinds(2, name)[kind]
        for f in os.listdir(folder):
            if os.path.isfile(folder + f):
                os.remove(folder + f)
        if kind == "fit":
            cfg.dump_to_file(path=folder, global_fname="", spectral_fname="")
        else:
            dump(cfg, (folder, ""))
        want = {"axes": [name + ".yml"], "rates": [name + "_spectral.yml"],
                "fit": [name + "_global.yml", name + "_spectral.yml"]}[kind]
        got = sorted(f for f in os.listdir(folder)
                     if os.path.isfile(folder + f))
        ctx.step()
        ctx.state(("own name", name, kind))
        ctx.check(got == want, "files:own", "%s named %r is written to %r, "
                  "expected %r" % (kind, name, got, want))


def lookups(ctx):
    """Names that contain each other, and many of them."""
    from echidna.core.config import SpectraConfig, SpectraFitConfig
    names = ["time_mc", "drive_time_reco", "time_mc_reco", "x_mc", "y_mc"]
    many = ["a%d_mc" % i for i in range(12)]
    rates = ["rate", "b_rate", "rate_b", "b_rate_b", "rate10", "rate9"]
    for which, cls in [(p, SpectraConfig) for k in (1, 2, 3, 5) for p in
                       itertools.permutations(names, k)] + [
            (many, SpectraConfig), (many[::-1], SpectraConfig)] + [
            (p, SpectraFitConfig) for k in (1, 2, 3, 6)
            for p in itertools.permutations(rates, k)]:
        axis = cls is SpectraConfig
        d = OrderedDict((n, {"low": float(i), "high": i + 1., "bins": i + 1})
                        for i, n in enumerate(which))
        if not axis:
            for n in d:
                d[n].update(prior=d[n]["low"], sigma=.1)
        cfg = cls.load({"parameters": d}) if axis else cls.load(
            {"spectral_fit_parameters": d}, "s")
        ctx.step()
        ctx.state(tuple(which))
        ok = cfg.get_pars() == list(which) and \
            cfg.get_shape() == tuple(range(1, len(which) + 1))
        for i, n in enumerate(which):
            ok = ok and cfg.get_index(n) == i and \
                cfg.get_par(n).get_name() == n and \
                cfg.get_par(n).get_bins() == i + 1 and \
                cfg.get_par_by_index(i) is cfg.get_par(n)
        if axis:
            for n in which:
                dim = n.rsplit("_", 1)[0]
                ok = ok and cfg.get_dim(n) == dim and \
                    cfg.get_dim_type(dim) == n.rsplit("_", 1)[1]
        ctx.check(ok, "lookups", "%r are found as %r" % (
            which, [(n, lib.ask(cfg.get_index, n)) for n in which]))
        for n in set(names + rates + ["time", "mc", "rat", "", "b_", "_mc",
                                      "TIME_MC"]) - set(which):
            ctx.check(lib.rejects(lambda: cfg.get_index(n)) and
                      lib.rejects(lambda: cfg.get_par(n)), "unknown",
                      "%r has no parameter %r" % (which, n))


def examples(ctx):
    """The files that come with the code."""
    from echidna.core.config import (GlobalFitConfig, SpectraConfig,
                                     SpectraFitConfig)
    import yaml
    root = os.path.join(os.environ.get("ECHIDNA_REPO", "/repo"), "echidna",
                        "config")
    for f in sorted(x for x in os.listdir(root) if x.endswith(".yml")):
        path = os.path.join(root, f)
        with open(path) as s:
            d = yaml.safe_load(s)
        (key, d), = d.items()
        if key == "parameters":
            cfg = SpectraConfig.load_from_file(path)
        elif key == "global_fit_parameters":
            cfg = GlobalFitConfig.load_from_file(path)
            d = OrderedDict((dim + "_" + n, v) for dim in d
                            for n, v in d[dim].items())
        else:
            cfg = SpectraFitConfig.load_from_file(path, "s")
        ctx.step()
        ctx.state(f)
        ctx.check(cfg.get_pars() == list(d), "examples", "%s gives the "
                  "parameters %r" % (f, cfg.get_pars()))
        for n in d:
            par = cfg.get_par(n)
            got = {k: lib.ask(getattr(par, "get_" + k)) for k in d[n]}
            ctx.check(got == d[n], "examples", "%s gives %s as %r" % (
                f, n, got))


def malformed(ctx):
    from echidna.core.config import (GlobalFitConfig, SpectraConfig,
                                     SpectraFitConfig)
    par = {"prior": 1., "sigma": .1, "low": 0., "high": 2., "bins": 3}
    axis = {"low": 0., "high": 2., "bins": 3}

    def spectral(name="rate", key="spectral_fit_parameters", **kw):
        return {key: {name: dict(par, **kw)}}

    def glob(name="shift", key="global_fit_parameters", **kw):
        return {key: {"energy_mc": {name: dict(par, **kw)}}}
    short = {k: par[k] for k in ("prior", "sigma", "low")}
    bad = [
        lambda: SpectraConfig.load({}),
        lambda: SpectraConfig.load({"pars": {"energy_mc": axis}}),
        lambda: SpectraConfig.load({"parameters": {"energy_mc": {"low": 0.}}}),
        lambda: SpectraConfig.load({"parameters": {"energy_mc": dict(
            axis, width=1.)}}),
        lambda: SpectraFitConfig.load({}, "s"),
        lambda: SpectraFitConfig.load(glob(), "s"),
        lambda: SpectraFitConfig.load(spectral("shift"), "s"),
        lambda: SpectraFitConfig.load(spectral(width=2.), "s"),
        lambda: SpectraFitConfig.load({"spectral_fit_parameters": {
            "rate": short}}, "s"),
        lambda: GlobalFitConfig.load({}),
        lambda: GlobalFitConfig.load(spectral()),
        lambda: GlobalFitConfig.load(glob("rate")),
        lambda: GlobalFitConfig.load(glob("smear")),
        lambda: GlobalFitConfig.load(glob(width=1.)),
        lambda: GlobalFitConfig.load({"global_fit_parameters": {
            "energy_mc": {"shift": short}}}),
        lambda: GlobalFitConfig.load(glob(), spectral_config={}),
        lambda: GlobalFitConfig.load(glob(), spectral_config=glob()),
        lambda: GlobalFitConfig.load(glob(),
                                     spectral_config=spectral("shift")),
        lambda: GlobalFitConfig.load(glob(),
                                     spectral_config=spectral(width=1.)),
        lambda: SpectraConfig.load({"parameters": {"energy_mc": axis}})
        .get_index("radial_mc"),
        lambda: SpectraConfig.load({"parameters": {"energy_mc": axis}})
        .get_dim_type("radial"),
        lambda: GlobalFitConfig.load(glob()).get_index("shift"),
    ]
    for i, fn in enumerate(bad):
        ctx.step()
        ctx.state(("bad", i))
        ctx.check(lib.rejects(fn), "malformed-%d" % i, "malformed dictionary "
                  "%d is accepted" % i)
    good = [lambda: SpectraFitConfig.load(spectral(), "s"),
            lambda: GlobalFitConfig.load(glob(), spectral_config=spectral()),
            lambda: GlobalFitConfig.load(glob())]
    for i, fn in enumerate(good):
        ctx.check(not lib.rejects(fn), "well-formed", "dictionary %d is "
                  "refused" % i)
