"""P23: a spectrum read back from its file is the spectrum that was saved, and
a file of several spectra behaves as a map from group names to spectra: every
sequence of saving, replacing, refused saving and loading up to the bound."""
import copy
import itertools

import numpy as np

import lib
import stubs

PROPERTY = "P23"
BOUNDS = {
    "quick": "6 axis layouts x 7 contents x 7 styles x 4 sets of regions of "
             "interest x 4 names, with bipo flags, raw events, decays and 6 "
             "fit configurations; every 2 of 11 operations on saved and "
             "loaded, saved and loaded again after each; every "
             "sequence of 3 saves (4 spectra, 2 groups, new/append/replace)",
    "thorough": "more combinations, sequences of 4 saves",
}
JOBS = {"quick": 8, "thorough": 8}

LAYOUTS = [
    [("energy_mc", 0., 3., 3)],
    [("energy_mc", 0.1, 0.7, 1)],
    [("radial_mc", 0., 6000., 3), ("energy_mc", 1., 2., 2)],
    [("energy_mc", -1.5, 2.5, 2), ("radial_mc", 0., 1. / 3., 3)],
    [("energy_reco", 0., 10., 2), ("radial3_reco", 0., 1., 2),
     ("time_reco", 2., 3.3, 2)],
    [("zeta_mc", 0., 1., 2), ("alpha_mc", 0., 1e-7, 3)],
]
CONTENTS = ["zeros", "squares", "sparse", "delta1", "third", "negative",
            "special"]
STYLES = [None, {"color": "red"}, {"color": "red", "ls": "--"}, "b-", "", {},
          {"lw": 2.5, "zorder": 3, "fill": True, "ms": 1. / 3., "label": None,
           "dashes": [1, 2.5]}]
ROIS = [{}, {0: (0.25, 0.75, 0.5)}, {0: (0., 1., 1.), 1: (0.1, 0.9, 1. / 3.)},
        {1: (-1e9, 1e9, 0.)}]
NAMES = [("te_mc", None), ("tl208_mc_smeared", None), ("data", "u238"),
         ("a_reco", "")]
NUMBERS = [(0., 0, 0), (1.5, 7, 1), (1e21, 10 ** 12, 0), (1. / 3., 1, 1)]
FITS = [None, "plain", "nosigma", "fitted", "log", "logdev", "two"]


def cases(tier):
    full = itertools.product(range(6), CONTENTS, range(7), range(4), range(4),
                             range(4), FITS)
    for n, (lay, kind, sty, roi, nam, num, fit) in enumerate(full):
        if tier == "quick":
            # every pair of values of any two of these, and more
            i = CONTENTS.index(kind)
            j = FITS.index(fit)
            if (i + 2 * sty + roi + 3 * nam + 5 * num + j + lay) % 5:
                continue
            if (i * 2 + sty + 3 * roi + nam + num + 4 * j + 2 * lay) % 6:
                continue
        yield {"layout": lay, "content": kind, "style": sty, "roi": roi,
               "name": nam, "numbers": num, "fit": fit}
    for lay, op in itertools.product(range(6), OPS):
        for kind in ("squares", "sparse"):
            yield {"layout": lay, "content": kind, "op": op, "fit": "two"}
    for first in SAVES:
        for second in SAVES:
            yield {"saves": [first, second], "more": 2 if tier == "thorough"
                   else 1}
    yield {"old": True}


def fit_config(kind, name):
    from collections import OrderedDict
    from echidna.core.config import SpectraFitConfig
    from echidna.core.parameter import RateParameter
    if kind is None:
        return None
    if kind == "log":
        p = RateParameter("rate", 10., 2., 1., 100., 3, logscale=True, base=10)
    elif kind == "logdev":
        p = RateParameter("rate", 10., 2., 1., 19., 5,
                          logscale_deviation=True)
    else:
        p = RateParameter("rate", 1. / 3., None if kind == "nosigma" else .1,
                          0., 1., 4)
    if kind == "fitted":
        p.set_current_value(0.2)
        p.set_best_fit(0.7)
        p.set_penalty_term(1.75)
    pars = OrderedDict([("rate", p)])
    if kind == "two":
        for n, lo in (("z_rate", -2.), ("a_rate", 0.)):
            pars[n] = RateParameter(n, lo + .5, .1, lo, 1., 2)
    return SpectraFitConfig("fit_" + name, pars, name)


def build(case):
    from echidna.core.spectra import Spectra
    lay = LAYOUTS[case["layout"]]
    name, bkg = NAMES[case.get("name", 0)]
    s = Spectra(name, NUMBERS[case.get("numbers", 1)][0],
                lib.make_config(lay, name="config_" + name),
                fit_config=fit_config(case.get("fit"), name),
                background_name=bkg)
    shape = tuple(a[3] for a in lay)
    kind = case["content"]
    if kind == "third":
        d = lib.pattern(shape) / 3.
    elif kind == "negative":
        d = -lib.pattern(shape) * 1e-12
    elif kind == "special":
        d = lib.pattern(shape)
        d.flat[0] = np.inf
        d.flat[-1] = np.nan
        d.flat[d.size // 2] = 1e300
    else:
        d = lib.pattern(shape, kind)
    s._data = d.copy()
    _, s._raw_events, s._bipo = NUMBERS[case.get("numbers", 1)]
    style = STYLES[case.get("style", 0)]
    if style is not None:
        s.set_style(copy.copy(style))
    for i, (lo, hi, eff) in ROIS[case.get("roi", 0)].items():
        if i < len(lay):
            s._rois[lay[i][0]] = {"low": lo, "high": hi, "efficiency": eff}
    return s


def view(s):
    v = lib.snap(s)
    v["background_name"] = lib.ask(s.get_background_name)
    v["config_name"] = s.get_config().get_name()
    v["getters"] = {p: {k: lib.ask(getattr(s.get_config().get_par(p),
                                           "get_" + k))
                        for k in ("name", "low", "high", "bins", "width",
                                  "bin_boundaries", "unit")}
                    for p in s.get_config().get_pars()}
    f = s.get_fit_config()
    v["fit"] = None if f is None else (
        f.get_name(), f._spectra_name,
        [(p, lib.par_view(f.get_par(p))) for p in f.get_pars()])
    return v


def attempt(op, s):
    try:
        return op(s)
    except Exception as e:
        return "refused: %s" % type(e).__name__


def op_fill(s):
    c = s.get_config()
    s.fill(weight=2.5, **{p: c.get_par(p).get_bin_centre(
        c.get_par(p).get_bins() - 1) for p in c.get_pars()})


def op_shrink(s):
    p = s.get_config().get_pars()[0]
    par = s.get_config().get_par(p)
    s.shrink(**{p + "_high": par.get_high() - (
        par.get_width() if par.get_bins() > 1 else 0.)})


def op_roi(s):
    p = s.get_config().get_pars()[-1]
    par = s.get_config().get_par(p)
    s.shrink_to_roi(par.get_low() + (par.get_width() if par.get_bins() > 1
                                     else 0.), par.get_high(), p)


def op_rebin(s):
    s.rebin([1] * len(s.get_config().get_pars()))


def op_add(s):
    s.add(copy.copy(s))


def op_copy(s):
    return copy.copy(s)


def op_deepcopy(s):
    return copy.deepcopy(s)


def op_project(s):
    return [s.project(p).tolist() for p in s.get_config().get_pars()]


OPS = {"fill": op_fill, "shrink": op_shrink, "roi": op_roi, "rebin": op_rebin,
       "add": op_add, "scale": lambda s: s.scale(17.),
       "cut": lambda s: s.cut(**{s.get_config().get_pars()[0] + "_low":
                                 s.get_config().get_par(
           s.get_config().get_pars()[0]).get_low()}),
       "copy": op_copy, "deepcopy": op_deepcopy, "project": op_project,
       "sum": lambda s: s.sum()}

# (spectrum, group, mode): spectrum 2 has no background name
GROUPS = ("spectrum", "spectrum_b")
SAVES = list(itertools.product(range(4), GROUPS,
                               ("new", "append", "replace", "new-replace")))


def run_case(ctx, case):
    from echidna.output import store
    stubs.FILES.clear()
    if "saves" in case:
        for tail in itertools.product(SAVES, repeat=case["more"]):
            saves(ctx, [tuple(x) for x in case["saves"]] + list(tail))
        return
    if "old" in case:
        return old(ctx)
    s = build(case)
    before = view(s)
    ctx.step()
    ctx.state(sorted(case.items()))
    store.dump("f.hdf5", s)
    d = lib.same(before, view(s))
    ctx.check(d is None, "saving", "saving changes the spectrum: %s" % d)
    for again in range(2):
        t = store.load("f.hdf5")
        got = view(t)
        for k in before:
            d = lib.same({k: before[k]}, {k: got[k]})
            ctx.check(d is None, "round-trip:%s" % k, "%r read back as %r: %s"
                      % (before[k], got[k], d))
        if "op" in case:
            break
        # what was read is saved and read again
        store.dump("f.hdf5", t)
    ctx.check(not np.shares_memory(t._data, s._data), "round-trip:shared",
              "the loaded spectrum shares its contents")
    if "op" in case:
        for second in OPS:
            then(ctx, case, second)
        op = OPS[case["op"]]
        a, b = attempt(op, s), attempt(op, t)
        ctx.step()
        d = lib.same(view(s), view(t))
        ctx.check(d is None, "then:" + case["op"], "%s differs after loading: "
                  "%s" % (case["op"], d))
        if hasattr(a, "get_data"):
            d = lib.same(view(a), view(b))
            ctx.check(d is None, "then:" + case["op"], "%s differs: %s" % (
                case["op"], d))
        else:
            ctx.check(repr(a) == repr(b), "then:" + case["op"], "%r and %r" % (a, b))


def then(ctx, case, second):
    """A spectrum that is changed and saved after each change."""
    from echidna.output import store
    s = build(case)
    store.dump("g.hdf5", s)
    old, t = store.load("g.hdf5"), store.load("g.hdf5")
    first = view(old)
    for i, name in enumerate((case["op"], second)):
        for x in (s, t):
            attempt(OPS[name], x)
        store.dump("g.hdf5", t if i else s)
        kept = store.load("g.hdf5")
        ctx.step()
        ctx.state((sorted(case.items()), second, i))
        d = lib.same(view(s), view(kept))
        if not ctx.check(d is None, "saved after:" + name, "%s then %s, then "
                         "saved: %s" % (case["op"], second, d)):
            return
        t = kept if i else t
    d = lib.same(first, view(old))
    ctx.check(d is None, "loaded twice", "a spectrum changed with another "
              "that was loaded from the same file: %s" % d)


_SPECS = []


def specs():
    if not _SPECS:
        for i, c in enumerate([
                {"layout": 0, "content": "squares", "fit": "fitted",
                 "style": 1, "roi": 1},
                {"layout": 2, "content": "sparse", "name": 2, "style": 3,
                 "numbers": 3},
                {"layout": 0, "content": "third"},
                {"layout": 1, "content": "delta1", "name": 1, "roi": 2,
                 "style": 5}]):
            s = build(c)
            if i == 2:
                s._name = "nameless"
            _SPECS.append((s, view(s)))
    return _SPECS


def saves(ctx, history):
    from echidna.output import store
    stubs.FILES.clear()
    model = None
    for i, group, mode in history:
        s = specs()[i][0]
        kw = {"append": mode in ("append", "replace"),
              "overwrite": mode in ("replace", "new-replace"),
              "group_name": group}
        ok = i != 2 and not (mode == "append" and group in (model or {}))
        ctx.step()
        refused = lib.rejects(lambda: store.dump("m.hdf5", s, **kw))
        if not ctx.check(refused != ok, "refusal", "saving %r is %s" % (
                (i, group, mode), "refused" if refused else "accepted"),
                history=history):
            return
        if ok:
            model = dict(model or {}) if kw["append"] else {}
            model[group] = i
        ctx.state((i, group, mode, sorted((model or {}).items())))
        for g in GROUPS:
            box = []
            refused = lib.rejects(lambda: box.append(store.load(
                "m.hdf5", group_name=g)))
            want = g in (model or {})
            if not ctx.check(refused != want, "group", "group %r is %s after "
                             "%r" % (g, "lost" if want else "present",
                                     history), history=history):
                return
            if want:
                d = lib.same(specs()[model[g]][1], view(box[0]))
                if not ctx.check(d is None, "group-contents", "group %r "
                                 "differs after %r: %s" % (g, history, d)):
                    return


def old(ctx):
    """Files of the first format, one spectrum per file."""
    import h5py
    from echidna.output import store
    for lay, style, roi, bipo in itertools.product(range(6), (
            None, {"color": "red"}, {"color": "red", "ls": "--"},
            {"lw": 2.5, "zorder": 3, "ls": ":"[:0]}), range(2),
            (None, 1)):
        case = {"layout": lay, "content": "third", "roi": 0, "numbers": 3}
        s = build(case)
        s._background_name = None
        s._bipo = bipo or 0
        if style:
            s.set_style(style)
        with h5py.File("old.hdf5", "w") as f:
            for p in s.get_config().get_pars():
                par = s.get_config().get_par(p)
                for k in ("low", "high", "bins"):
                    f.attrs["pars:%s:%s" % (p, k)] = getattr(
                        par, "get_" + k)()
            f.attrs["name"] = s.get_name()
            f.attrs["num_decays"] = s.get_num_decays()
            f.attrs["raw_events"] = s._raw_events
            if bipo is not None:
                f.attrs["bipo"] = bipo
            f.attrs["style"] = "" if not style else store.dict_to_string(
                style)
            f.attrs["rois"] = ""
            f.create_dataset("data", data=s._data)
        ctx.step()
        ctx.state((lay, repr(style), bipo))
        t = store.load("old.hdf5")
        a, b = view(s), view(t)
        for v in (a, b):
            v.pop("config_name")
        # the old format keeps no order of axes: they come back by name
        if a["axes"] != sorted(a["axes"]):
            continue
        d = lib.same(a, b)
        ctx.check(d is None, "old", "old file read back differently: %s" % d)
