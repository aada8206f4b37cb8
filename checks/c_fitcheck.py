"""P33: a fit is only run with parts that belong together; a part or a region
that is refused leaves the fit as it was. Every short sequence of accepted and
refused parts, against the statistic of the parts accepted so far."""
import itertools
from collections import OrderedDict

import numpy as np

import lib

PROPERTY = "P33"
BOUNDS = {
    "quick": "3 starting points (nothing set, no floating background, all "
             "parts set) x every sequence of 2 of 66 operations (every role x "
             "spectra covering, matching, missing or lacking the region, cut "
             "to it or not; regions well and ill formed; no signal) and of 3 "
             "of a smaller set, a fit after each or at the end; every combination of "
             "per-bin flags of fit, statistic and minimiser, set at once or "
             "after a fit",
    "thorough": "sequences of 3 of all operations",
}
JOBS = {"quick": 8, "thorough": 8}

# kind of spectrum: axes
KINDS = {"wide": [("energy", 0., 8., 8)], "match": [("energy", 2., 6., 4)],
         "off": [("energy", 4., 8., 4)], "part": [("energy", 3., 6., 3)],
         "radial": [("radial", 2., 6., 4)],
         "below": [("energy", 0., 6., 6)], "above": [("energy", 2., 8., 6)]}
ROLES = {"data": ("D", "reco"), "signal": ("S", "mc"), "fixed": ("X", "mc"),
         "made": ("M", "mc"), "appended": ("A", "mc"), "float": ("F", "mc")}
ROIS = {"same": {"energy": (2., 6.)}, "reversed": {"energy": [6., 2.]},
        "upper": {"energy": (4., 8.)}, "number": {"energy": 3.},
        "three": {"energy": (2., 3., 6.)}, "list": [2., 6.]}
RATES = [20., 5.]


def operations():
    for role in sorted(ROLES):
        for kind in sorted(KINDS):
            for shrink in (True, False):
                if shrink and kind in ("below", "above"):
                    continue
                if role == "data" or not (kind == "part" and shrink):
                    yield (role, kind, shrink)
    for role in ("made", "appended", "float"):
        # the second of two is not fitting
        yield (role, "match+off", False)
    for name in sorted(ROIS):
        yield ("roi", name)
    yield ("no signal",)


OPS = list(operations())
FEW = [op for op in OPS if op in (
    ("data", "wide", True), ("data", "off", False), ("signal", "match", False),
    ("signal", "off", False), ("fixed", "wide", True),
    ("appended", "match+off", False), ("made", "off", False),
    ("made", "match", False), ("float", "match+off", False),
    ("float", "wide", True), ("roi", "upper"), ("roi", "reversed"),
    ("roi", "three"), ("no signal",), ("data", "radial", True))]
STARTS = ["nothing", "no floating", "all"]


def cases(tier):
    for start in STARTS:
        for i in range(len(OPS)):
            yield {"start": start, "seq": [i], "then": len(OPS)}
        for i, j in itertools.product(range(len(FEW)), repeat=2):
            yield {"start": start, "few": [i, j], "then": len(FEW)}
        if tier == "thorough":
            for i, j in itertools.product(range(len(OPS)), repeat=2):
                yield {"start": start, "seq": [i, j], "then": len(OPS)}
    for k in itertools.product((False, True), (False, True),
                               (None, False, True), (False, True)):
        yield {"per_bin": k}


class Counter(object):
    n = 0


def spectrum(role, kind):
    Counter.n += 1
    axes = [("%s_%s" % (n, ROLES[role][1]), lo, hi, b)
            for n, lo, hi, b in KINDS[kind]]
    n = axes[0][3]
    seed = 1 + Counter.n % 5
    data = [3. + (seed * (i + 2)) % 7 for i in range(n)]
    s = lib.make_spec(axes, data=data, num_decays=sum(data) * 1.25,
                      name="%s%d" % (role, Counter.n % 3))
    if role == "float":
        s.set_fit_config(rate_config(s.get_name()))
    return s


def rate_config(name):
    from echidna.core.config import SpectraFitConfig
    return SpectraFitConfig.load(
        {"spectral_fit_parameters": {"rate": {
            "prior": RATES[0], "sigma": None, "low": min(RATES),
            "high": max(RATES), "bins": len(RATES),
            "values": np.array(RATES)}}}, name)


class Model(object):
    """The parts accepted so far; each part is (low, high, contents)."""

    def __init__(self):
        self.roi = (2., 6.)
        self.data = self.signal = self.fixed = None
        self.floats = None

    def verdict(self, kind, shrink):
        """Whether a spectrum is to be accepted."""
        name, low, high, _ = KINDS[kind][0]
        if name != "energy":
            return False
        if shrink:
            return low <= self.roi[0] and self.roi[1] <= high
        return (low, high) == self.roi

    def inside(self, part):
        """Contents in the region, None if it is not covered."""
        low, high, d = part
        if low > self.roi[0] or high < self.roi[1]:
            return None
        i = int(round(self.roi[0] - low))
        return d[i:i + int(round(self.roi[1] - self.roi[0]))]

    def answer(self):
        """(must be refused, must be accepted, the statistic)."""
        parts = [self.data]
        if self.fixed:
            parts.append(self.fixed)
        if self.signal:
            parts.append(self.signal)
        parts += [(a, b, d) for a, b, d, _ in self.floats or []]
        if self.data is None or not (self.fixed or self.floats):
            return True, False, None
        cut = [self.inside(p) for p in parts]
        if any(c is None for c in cut):
            return True, False, None
        match = all((p[0], p[1]) == self.roi for p in parts)
        obs = cut[0]
        best = None
        for rates in itertools.product(RATES, repeat=len(self.floats or [])):
            exp = np.zeros(len(obs))
            for p in (self.fixed, self.signal):
                if p:
                    exp = exp + self.inside(p)
            for (a, b, d, n), r in zip(self.floats or [], rates):
                exp = exp + self.inside((a, b, d)) * r / n
            stat = float(((obs - exp) ** 2 / exp).sum())
            best = stat if best is None else min(best, stat)
        return False, match, best


def part(s):
    par = s.get_config().get_par(s.get_config().get_pars()[0])
    return par.get_low(), par.get_high(), np.array(s.get_data())


def make(start):
    from echidna.core.config import GlobalFitConfig
    from echidna.fit import test_statistic
    from echidna.fit.fit import Fit
    m = Model()
    kw, parts = {}, {}
    if start != "nothing":
        parts = {"data": spectrum("data", "wide"),
                 "signal": spectrum("signal", "match"),
                 "fixed": spectrum("made", "wide")}
        kw = {"data": parts["data"], "signal": parts["signal"],
              "fixed_backgrounds": {parts["fixed"]: 30.}}
        m.fixed = made(m, [parts["fixed"]], [30.])
        if start == "all":
            parts["floats"] = [spectrum("float", "wide"),
                               spectrum("float", "match")]
            kw["floating_backgrounds"] = list(parts["floats"])
    f = Fit(dict(ROIS["same"]), test_statistic.Pearson(), fit_config=
            GlobalFitConfig("g", OrderedDict()), **kw)
    if start != "nothing":
        m.data, m.signal = part(parts["data"]), part(parts["signal"])
        if start == "all":
            m.floats = [part(s) + (s.get_num_decays(),)
                        for s in parts["floats"]]
    return f, m


def made(m, spectra, counts):
    """The sum of spectra, cut to the region and scaled to the counts."""
    out = 0.
    for s, n in zip(spectra, counts):
        out = out + m.inside(part(s)) * n / s.get_num_decays()
    return m.roi + (out,)


def apply(f, m, op):
    """Apply an operation; (accepted, to be accepted)."""
    role = op[0]
    if role == "no signal":
        f.remove_signal()
        m.signal = None
        return True, True
    if role == "roi":
        roi = ROIS[op[1]]
        want = op[1] in ("same", "reversed", "upper")
        got = not lib.rejects(lambda: f.set_roi(
            dict(roi) if isinstance(roi, dict) else roi))
        if want and got:
            m.roi = tuple(sorted(roi["energy"]))
        return got, want
    kinds = op[1].split("+")
    spectra = [spectrum(role, k) for k in kinds]
    shrink = op[2]
    want = all(m.verdict(k, shrink) for k in kinds)
    s = spectra[0]
    counts = [12., 25.][:len(spectra)]
    fn = {"data": lambda: f.set_data(s, shrink=shrink),
          "signal": lambda: f.set_signal(s, shrink=shrink),
          "fixed": lambda: f.set_fixed_background(s, shrink=shrink),
          "made": lambda: f.make_fixed_background(
              OrderedDict(zip(spectra, counts)), shrink=shrink),
          "appended": lambda: f.append_fixed_background(
              OrderedDict(zip(spectra, counts)), shrink=shrink),
          "float": lambda: f.set_floating_backgrounds(spectra, shrink=shrink)}
    if role == "appended":      # it must go with what is there
        if shrink:
            want = want and m.fixed is not None and m.fixed[:2] == m.roi
        else:
            want = m.fixed is not None and all(
                part(x)[:2] == m.fixed[:2] and "radial" not in k
                for x, k in zip(spectra, kinds))
    got = not lib.rejects(fn[role])
    if got and want:
        if role == "float":
            m.floats = [part(x) + (x.get_num_decays(),) for x in spectra]
        elif role == "made":
            m.fixed = made(m, spectra, counts)
        elif role == "appended":
            roi = m.roi
            m.roi = m.fixed[:2]
            m.fixed = m.roi + (m.fixed[2] + made(m, spectra, counts)[2],)
            m.roi = roi
        else:
            setattr(m, role, part(s))
    return got, want


def evaluate(f, anew):
    if anew or f.get_minimiser() is None:
        f.set_minimiser()
    r = f.fit()
    return float(r[0] if isinstance(r, tuple) else r)


def look(ctx, f, m, op, what, anew):
    refuse, accept, value = m.answer()
    try:
        got, error = evaluate(f, anew), None
    except Exception as e:
        got, error = None, e
    ctx.step()
    if refuse:
        return ctx.check(got is None, "ran", "%s: a fit gives %r although "
                         "parts are missing or do not cover the region"
                         % (what, got))
    if got is None:
        return ctx.check(not accept, "refused:" + op[0], "%s: the fit is "
                         "refused (%s: %s)" % (what, type(error).__name__,
                                               error))
    return ctx.check(lib.near(got, value, max(1., abs(value))), "value",
                     "%s: the fit gives %r, its parts %r" % (
                         what, got, value))


def run_case(ctx, c):
    if "per_bin" in c:
        return per_bin(ctx, *c["per_bin"])
    ops = [FEW[i] for i in c["few"]] if "few" in c else \
        [OPS[i] for i in c["seq"]]
    last = FEW if "few" in c else OPS
    for op in last:
        for anew in (True, False):
            Counter.n = 0
            f, m = make(c["start"])
            seq = ops + [op]
            if not anew and not look(ctx, f, m, ("start",), "start: " +
                                     c["start"], True):
                return
            for k, o in enumerate(seq):
                what = "%s, %s%s" % (c["start"], seq[:k + 1],
                                     ", one fit" if anew else "")
                ctx.state((c["start"], tuple(seq[:k + 1]), anew))
                got, want = apply(f, m, o)
                if got != want:
                    ctx.fail("%s:%s" % ("accepted" if got else "rejected",
                                        o[0]), "%s: the last is %s" % (
                        what, "accepted" if got else "refused"))
                    return
                if anew and k < len(seq) - 1:
                    continue    # a fit at the end only
                # other parameters need another grid
                if not look(ctx, f, m, o, what, anew or (
                        got and o[0] in ("float", "data"))):
                    return


def per_bin(ctx, fit, stat, mini, later):
    """Flags that do not go together are refused, whenever they are set."""
    from echidna.core.config import GlobalFitConfig
    from echidna.fit import test_statistic
    from echidna.fit.fit import Fit
    from echidna.fit.minimise import GridSearch
    if not fit:
        return
    Counter.n = 0
    data, fl = spectrum("data", "match"), spectrum("float", "match")
    f = Fit(dict(ROIS["same"]), test_statistic.Pearson(
        per_bin=True if later else stat), fit_config=GlobalFitConfig(
            "g", OrderedDict()), data=data, floating_backgrounds=[fl],
        per_bin=fit)
    if later:
        f.fit()
        if not stat:
            f.set_test_statistic(test_statistic.Pearson(per_bin=False))
    if mini is not None:
        f.set_minimiser(GridSearch(
            fit_config=f.get_fit_config(), spectra_config=data.get_config(),
            name="m", per_bin=mini))
    ctx.step()
    ctx.state((fit, stat, mini, later))
    good = stat and mini is not False
    refused = lib.rejects(f.fit)
    ctx.check(refused == (not good), "per_bin", "per-bin fit with the "
              "statistic %s per bin, the minimiser %s%s is %s" % (
                  "also" if stat else "not",
                  "its own" if mini is None else "also" if mini else "not",
                  ", set after a fit" if later else "",
                  "refused" if refused else "run"))
