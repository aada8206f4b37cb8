"""P35: a spectrum reports the names, style, fit configuration and regions of
interest it was last given, and nothing that is done to its contents, to a
copy or to another spectrum changes them."""
import copy
import itertools
from collections import OrderedDict

import numpy as np

import lib
import stubs

PROPERTY = "P35"
BOUNDS = {
    "quick": "every sequence of 3 of 18 operations (background names, styles, "
             "fit configurations, regions of interest, scaling, filling, "
             "copying, saving and loading) on one of two spectra, for 3 "
             "names, and of 2 for 9 more; every operation with the other "
             "spectrum in between",
    "thorough": "sequences of 4, of 3 for the rest",
}
JOBS = {"quick": 8, "thorough": 8}
# name -> background name it stands for, if any
NAMES = OrderedDict([
    ("te130_mc", "te130"), ("data", None), ("b8_solar_reco", "b8_solar"),
    ("te130_mc_smeared", "te130"), ("u238_mix", "u238"),
    ("tl208_reco_cut", "tl208"), ("two_words_mc", "two_words"),
    ("a_mix_v2", "a"), ("th-232_mc", "th-232"), ("k40.2_reco", "k40.2"),
    ("0n2b_mc_fv", "0n2b"), ("", None)])
AXES = [("energy_mc", 0., 4., 4), ("radial_mc", 0., 3., 3)]
OPS = ["bkg-x", "bkg-empty", "bkg-unset", "bkg-ask", "style-str", "style-dict",
       "style-inplace", "style-empty", "fit-a", "fit-b", "fit-wrong",
       "roi-energy", "roi-radial", "scale", "fill", "copy", "deepcopy",
       "file"]


def cases(tier):
    n = 4 if tier == "thorough" else 3
    for i, name in enumerate(NAMES):
        for first in OPS:
            yield {"name": name, "ops": [first],
                   "more": n - 1 if i < 3 else n - 2}


class Model(object):
    """What a spectrum is expected to report."""
    def __init__(self, name):
        self.name, self.bkg = name, None
        self.style, self.fit, self.rois = {"color": "blue"}, None, {}
        self.decays = 2.
        self.data = lib.pattern((4, 3)) + 1.
        self.ends = {"energy_mc": [0., 4.], "radial_mc": [0., 3.]}
        self.raw = 0
        self.shared = False  # the style may be that of another spectrum

    def background(self):
        return self.bkg or NAMES[self.name] or "refused"


def fit_of(which):
    from echidna.core.config import SpectraFitConfig
    from echidna.core.parameter import RateParameter
    p = RateParameter("rate", 1. + (which == "b"), .1, 0., 2., 3)
    return SpectraFitConfig("fit_" + which, OrderedDict([("rate", p)]),
                            "spec")


def fit_view(f):
    return None if f is None else (f.get_name(), [
        (p, lib.par_view(f.get_par(p))) for p in f.get_pars()])


def look(s):
    out = OrderedDict([
        ("name", s.get_name()), ("style", lib.plain(s.get_style())),
        ("fit", fit_view(s.get_fit_config())), ("bipo", s.get_bipo()),
        ("decays", float(s.get_num_decays())),
        ("config", s.get_config().get_name()),
        ("sum", float(s.sum())), ("data", np.array(s.get_data()).tolist())])
    for p, _, _, _ in AXES:
        r = lib.ask(s.get_roi, p)
        out["roi " + p] = r if r == "refused" else "%.9g to %.9g, %.9g" % (
            r["low"], r["high"], r["efficiency"])
        par = s.get_config().get_par(p)
        out["axis " + p] = (par.get_low(), par.get_high(), par.get_bins())
    return out


def expected(m):
    out = OrderedDict([
        ("name", m.name), ("style", lib.plain(m.style)),
        ("fit", fit_view(m.fit)), ("bipo", 0), ("decays", m.decays),
        ("config", "the_axes"), ("sum", float(m.data.sum())),
        ("data", m.data.tolist())])
    for i, (p, _, _, _) in enumerate(AXES):
        r = m.rois.get(p, "refused")
        out["roi " + p] = r if r == "refused" else "%.9g to %.9g, %.9g" % (
            r["low"], r["high"], r["efficiency"])
        out["axis " + p] = (m.ends[p][0], m.ends[p][1], m.data.shape[i])
    return out


def start(name):
    from echidna.core.spectra import Spectra
    m = Model(name)
    s = Spectra(name, m.decays, lib.make_config(AXES, name="the_axes"))
    s._data = m.data.copy()
    return s, m


def roi(s, m, p):
    """One bin less at the lower end (energy) or the upper end (radius)."""
    i = [a[0] for a in AXES].index(p)
    lo, hi = m.ends[p]
    if hi - lo < 1.5:
        return
    before = m.data.sum()
    if i == 0:
        m.data, m.ends[p] = m.data[1:], [lo + 1., hi]
    else:
        m.data, m.ends[p] = m.data[:, :-1], [lo, hi - 1.]
    s.shrink_to_roi(m.ends[p][0], m.ends[p][1], p)
    m.rois[p] = {"low": m.ends[p][0], "high": m.ends[p][1],
                 "efficiency": m.data.sum() / before}


def apply(op, s, m):
    """Does op; returns the spectrum to go on with, and a complaint."""
    if op in ("bkg-x", "bkg-empty"):
        m.bkg = "background_x" if op == "bkg-x" else ""
        s.set_background_name(m.bkg)
    elif op == "bkg-unset":
        m.bkg = None
        s.set_background_name(None)
    elif op == "bkg-ask":
        got = lib.ask(s.get_background_name)
        if got != m.background():
            return s, "background name %r, expected %r" % (got,
                                                           m.background())
    elif op.startswith("style"):
        if op == "style-inplace":
            if isinstance(m.style, dict) and not m.shared:
                s.get_style()["lw"] = 2.5
                m.style = dict(m.style, lw=2.5)
        else:
            m.style = {"str": "b-", "dict": {"color": "red", "ls": "--"},
                       "empty": ""}[op[6:]]
            s.set_style(copy.copy(m.style))
            m.shared = False
    elif op in ("fit-a", "fit-b"):
        m.fit = fit_of(op[-1])
        s.set_fit_config(m.fit)
    elif op == "fit-wrong":
        from echidna.core.config import GlobalFitConfig
        for bad in (GlobalFitConfig("g", OrderedDict()), s.get_config(),
                    "fit_a", None, {}):
            if not lib.rejects(lambda: s.set_fit_config(bad)):
                return s, "%r is accepted as fit configuration" % (bad,)
    elif op.startswith("roi"):
        roi(s, m, op[4:] + "_mc")
    elif op == "scale":
        s.scale(m.decays * 2.)
        m.data, m.decays = m.data * 2., m.decays * 2.
    elif op == "fill":
        m.data = m.data.copy()
        m.data[-1, 0] += 1.
        m.raw += 1
        s.fill(energy_mc=m.ends["energy_mc"][1] - .5,
               radial_mc=m.ends["radial_mc"][0] + .5)
    elif op in ("copy", "deepcopy"):
        m.shared = op == "copy" or m.shared
        return getattr(copy, op)(s), None
    elif op == "file":
        from echidna.output import store
        refused = lib.rejects(lambda: store.dump("l.hdf5", s))
        if refused != (m.background() == "refused"):
            return s, "saving is %s" % ("refused" if refused else "accepted")
        if not refused:
            m.bkg, m.shared = m.background(), False
            return store.load("l.hdf5"), None
    return s, None


def run_case(ctx, case):
    for tail in itertools.product(OPS, repeat=case["more"]):
        if not history(ctx, case["name"], case["ops"] + list(tail)):
            return


def history(ctx, name, ops):
    stubs.FILES.clear()
    s, m = start(name)
    other, n = start("u238_mix" if name != "u238_mix" else "te130_mc")
    left = []
    for i, op in enumerate(ops):
        if i:  # the same on the other one in between
            other, bad = apply(ops[i - 1], other, n)
            if bad:
                return ctx.check(False, op, "%s: %s" % (ops, bad))
        was = s
        kept = copy.deepcopy(m)
        s, bad = apply(op, s, m)
        if bad:
            return ctx.check(False, op, "%r of %r: %s" % (ops[:i + 1], name,
                                                          bad))
        if s is not was:
            left.append((was, kept))
        ctx.step()
        for x, y in [(s, m), (other, n)] + left:
            got, want = look(x), expected(y)
            for k in want:
                if repr(got[k]) != repr(want[k]) and not (
                        k == "sum" and lib.near(got[k], want[k])):
                    return ctx.check(False, "%s:%s" % (op, k), "%s is %r, "
                                     "expected %r, after %r of %r" % (
                                         k, got[k], want[k], ops[:i + 1],
                                         name))
    ctx.state((name, ops))
    for x, y in [(s, m), (other, n)] + left:
        for _ in range(2):
            got = lib.ask(x.get_background_name)
            if not ctx.check(got == y.background(), "background", "%r of %r: "
                             "background name %r, expected %r" % (
                                 ops, name, got, y.background())):
                return False
    return True
