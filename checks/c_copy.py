"""P09: spectra derived from a spectrum are independent of it, in both
directions and for every sequence of operations."""
import copy
import itertools

import numpy as np

import lib

PROPERTY = "P09"
BOUNDS = {
    "quick": "15 ways to derive a spectrum x 2 sources x every sequence of up "
             "to 2 of 15 mutating operations applied to either side",
    "thorough": "sequences of up to 3, and derivations of derivations",
}
JOBS = {"quick": 8, "thorough": 8}
AXES = {"2d": [("energy_mc", 0.5, 2.5, 8), ("radial_mc", 0., 600., 6)],
        "3d": [("radial_mc", 0., 400., 4), ("energy_mc", 1., 5., 8),
               ("time_mc", 0., 2., 2)]}


def producers():
    from echidna.core import scale, shift, smear
    from echidna.core.parameter import (ResolutionParameter, ScaleParameter,
                                        ShiftParameter)

    def sh(v, dim="energy_mc", by_bin=False):
        def f(s):
            x = shift.Shift()
            x.set_shift(v)
            return x.shift_by_bin(s, dim) if by_bin else \
                x.shift(s, dim, k=1)
        return f

    def sc(v, dim="energy_mc"):
        def f(s):
            x = scale.Scale()
            x.set_scale_factor(v)
            return x.scale(s, dim, k=1)
        return f

    def sm(cls, method, res, *a):
        def f(s):
            np.random.seed(3)
            x = cls(*a)
            np.random.seed(3)
            x.set_resolution(res)
            return getattr(x, method)(s)
        return f

    def par(cls, value):
        def f(s):
            p = cls("energy_mc_p", 1., 0.1, 0.5, 1.5, 3, "energy_mc")
            p.set_current_value(value)
            return p.apply_to(s)
        return f
    return [("copy", copy.copy),
            ("deepcopy", copy.deepcopy),
            ("shift_by_bin", sh(0.5, by_bin=True)),
            ("shift-zero", sh(0.)),
            ("shift", sh(0.2)),
            ("shift-radial", sh(130., "radial_mc")),
            ("scale", sc(1.1)),
            ("scale-one", sc(1.)),
            ("smear_ly", sm(smear.EnergySmearLY, "weighted_smear", 150.)),
            ("smear_ly_gauss", sm(smear.EnergySmearLY, "weighted_smear", 150.,
                                  False)),
            ("smear_ly_random", sm(smear.EnergySmearLY, "random_smear",
                                   150.)),
            ("smear_res", sm(smear.EnergySmearRes, "weighted_smear", 0.1,
                             False)),
            ("smear_res_random", sm(smear.EnergySmearRes, "random_smear", 0.1,
                                    False)),
            ("smear_radius", sm(smear.RadialSmear, "weighted_smear", 90.)),
            ("res-parameter", par(ResolutionParameter, 180.)),
            ("shift-parameter", par(ShiftParameter, 0.5)),
            ("scale-parameter", par(ScaleParameter, 1.05))]


def centre(s, i):
    c = s.get_config()
    return {n: c.get_par(n).get_bin_centre(i % c.get_par(n).get_bins())
            for n in c.get_pars()}


def m_shrink(s, which):
    p = s.get_config().get_par("energy_mc")
    w = p.get_width()
    if p.get_bins() < 2:
        return
    if which == "low":
        s.shrink(energy_mc_low=p.get_low() + w)
    else:
        s.shrink(energy_mc_high=p.get_high() - w)


def m_cut(s):
    p = s.get_config().get_par("radial_mc")
    if p.get_bins() > 1 and s.sum() > 0:
        s.cut(radial_mc_high=p.get_high() - p.get_width())


def m_roi(s):
    p = s.get_config().get_par("energy_mc")
    w = p.get_width()
    if p.get_bins() > 1 and s.sum() > 0:
        s.shrink_to_roi(p.get_low() + w, p.get_high(), "energy_mc")


def m_rebin(s):
    new = list(s.get_config().get_shape())
    i = s.get_config().get_index("radial_mc")
    if new[i] % 2 == 0:
        new[i] //= 2
        s.rebin(tuple(new))


def m_add(s):
    s.add(lib.make_spec(lib.axes_of(s), "ones", num_decays=5., raw=2))


def m_inplace(s):
    s.get_data()[...] *= 3.
    s.get_data()[...] += 1.


def m_par(s):
    s.get_config().get_par("energy_mc").set_par(high=99.)


def m_misc(s):
    s.set_style({"color": "red"})
    s.set_background_name("other")
    s._name = "renamed"
    s._raw_events += 5
    s._num_decays *= 2
    s._bipo = 1


def m_rois(s):
    s._rois["radial_mc"] = {"low": 0.}
    for r in s._rois.values():
        r["low"] = -7.


MUT = [("fill-first", lambda s: s.fill(2.5, **centre(s, 0))),
       ("fill-last", lambda s: s.fill(1., **centre(s, -1))),
       ("shrink-low", lambda s: m_shrink(s, "low")),
       ("shrink-high", lambda s: m_shrink(s, "high")),
       ("cut", m_cut), ("roi", m_roi), ("rebin", m_rebin),
       ("scale", lambda s: s.scale(7.)), ("add", m_add),
       ("add-self", lambda s: s.add(s)), ("data", m_inplace),
       ("misc", m_misc), ("rois", m_rois), ("set_par", m_par)]


def cases(tier):
    n = len(MUT)
    names = [p[0] for p in producers()]
    for p in names:
        for src in sorted(AXES):
            for roi in (False, True):
                for r in range(1, 3 if tier == "quick" else 4):
                    for seq in itertools.product(range(n), repeat=r):
                        if r > 1 and (roi or src == "3d") and tier == "quick":
                            continue
                        if r == 3 and (roi or src == "3d"):
                            continue
                        yield {"from": p, "source": src, "roi": roi,
                               "ops": seq}
    if tier == "thorough":
        for p in names:
            for q in names:
                for i in range(n):
                    yield {"from": p, "then": q, "source": "2d", "roi": True,
                           "ops": [i]}


_CACHE = {}


def run_case(ctx, c):
    prod = dict(producers())
    for side in ("derived", "source"):
        key = (c["from"], c.get("then"), c["source"], c["roi"])
        s = lib.make_spec(AXES[c["source"]], "linear", num_decays=100.)
        s._num_decays = 100.
        if c["roi"]:
            s.shrink_to_roi(1., 2.5 if c["source"] == "2d" else 4.,
                            "energy_mc")
            s.set_style({"color": "green"})
        before = lib.snap(s)
        d = prod[c["from"]](s)
        family = [s, d]
        if c.get("then"):
            family.append(prod[c["then"]](d))
        if len(set(map(id, family))) < len(family):
            ctx.fail(c["from"] + "-same", "deriving by %s returned the "
                     "spectrum itself" % (c.get("then") or c["from"]))
            return
        if key not in _CACHE:
            _CACHE[key] = True
            diff = lib.same(before, lib.snap(s))
            ctx.check(diff is None, c["from"] + "-input", "deriving by %s "
                      "changed its input: %s" % (c["from"], diff))
            for k in ("raw_events", "bipo", "style", "background_name",
                      "num_decays"):
                ctx.check(lib.snap(d)[k] == before[k], c["from"] + "-meta",
                          "derived spectrum lost %s" % k)
            ctx.check(lib.snap(d)["rois"] == before["rois"],
                      c["from"] + "-meta", "derived spectrum lost its ROIs")
            ctx.check(lib.axes_of(d) == lib.axes_of(s), c["from"] + "-axes",
                      "derived spectrum has other axes")
        if c.get("then"):
            # change the middle one, both neighbours stay
            target = family[1]
        else:
            target = family[1 if side == "derived" else 0]
        rest = [(x, lib.snap(x)) for x in family if x is not target]
        for i in c["ops"]:
            MUT[i][1](target)
            ctx.step()
            for x, b in rest:
                diff = lib.same(b, lib.snap(x))
                if diff is not None:
                    ctx.fail("%s:%s" % (c["from"], MUT[i][0]),
                             "%s on the %s spectrum (derived by %s) changed "
                             "the other one: %s" % (MUT[i][0], side,
                                                    c["from"], diff))
                    return
        ctx.state((key, side, tuple(c["ops"])))
