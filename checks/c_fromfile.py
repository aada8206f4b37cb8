"""P26: filling a spectrum from an ntuple or a ROOT file counts exactly the
events that pass, each once and in the bin of its extracted values: every event
of a bounded alphabet, and every short sequence of events, files and cuts."""
import itertools

import numpy as np

import core
import lib
import stubs

PROPERTY = "P26"
BOUNDS = {
    "quick": "each of the 9 extractors with every combination of "
             "its options; 16 configurations (9 kinds of parameter, alone and mixed) x 13 "
             "combinations of fiducial radius, outer radius, external, position "
             "of the cut and bipo: "
             "every one of 972 ntuple rows and 1620 ROOT entries of up to 3 "
             "events; every bipo history of 4 rows over 8 kinds of row; every "
             "sequence of 3 entries over 7, split into files in every way",
    "thorough": "bipo histories of 6 rows, sequences of 4 entries",
}
JOBS = {"quick": 8, "thorough": 8}

AXES = {
    "energy_mc": (0., 4., 4), "energy_truth": (0.5, 4.5, 4),
    "energy_reco": (-1., 3., 4), "radial_mc": (0., 8., 5),
    "radial_reco": (1., 8., 7), "radial3_mc": (0., 1., 5),
    "radial3_reco": (0., 2., 9), "zradial3_mc": (-1., 1., 4),
    "zradial3_reco": (-1.5, 1., 5)}
CONFIGS = [[n] for n in sorted(AXES)] + [
    ["energy_mc", "radial_mc"], ["radial3_reco", "energy_reco"],
    ["energy_truth", "zradial3_reco"], ["energy_reco", "radial_mc"],
    ["zradial3_mc", "energy_mc"], ["energy_reco", "energy_mc",
                                   "radial3_reco"],
    ["radial_reco", "energy_truth", "zradial3_mc"]]
OPTIONS = [{}, {"fv_radius": 4.}, {"outer_radius": 6.}, {"external": True},
           {"external": False}, {"external": True, "fv_radius": 4.},
           {"fv_radius": 5.5, "outer_radius": 3.5}, {"bipo": True},
           {"bipo": True, "fv_radius": 4., "external": False},
           {"bipo": True, "external": True, "fv_radius": 5.5},
           {"mc_pos": True, "fv_radius": 4.},
           {"reco_pos": True, "fv_radius": 5.5},
           {"reco_pos": True, "mc_pos": False, "external": True}]
# inside both fiducial radii, just outside the smaller, just outside the larger
POSITIONS = [(1.2, 0.5, 2.), (2.4, -2.3, -2.3), (3.2, 3.2, -3.2)]
QUENCHED, TRUTH, RECO = [0.5, 2.7, -1.], [1.3, 4.2, 9.], [0.6, 2.9, -0.5]


class Skip(Exception):
    """The statement leaves this open."""


class Refuse(Exception):
    pass


# ---------------------------------------------------------------- ntuples
def row(fit, mc, i, j, k, p, q, ev=0):
    m, r = POSITIONS[p], POSITIONS[q]
    return {"scintFit": fit, "mc": mc, "mcEdepQuenched": QUENCHED[i],
            "mcEdep": TRUTH[j], "energy": RECO[k], "evIndex": ev,
            "mcPosx": m[0], "mcPosy": m[1], "mcPosz": m[2],
            "posx": r[0], "posy": r[1], "posz": r[2]}


def rows():
    for fit, mc in itertools.product((1, 0), (1, 0)):
        for e in itertools.product(range(3), repeat=3):
            for p, q in itertools.product(range(3), repeat=2):
                yield row(fit, mc, *(e + (p, q)))


def mag(p):
    return (p[0] ** 2 + p[1] ** 2 + p[2] ** 2) ** 0.5


def radius_value(kind, pos, opt):
    if kind == "radial":
        return mag(pos)
    v = (mag(pos) / (opt.get("outer_radius") or OUTER())) ** 3
    return -v if kind == "zradial3" and pos[2] < 0 else v


def OUTER():
    from echidna.calc import constants
    return constants._av_radius


def other(name, opt):
    """Whether cuts are to use the position of the other kind."""
    return opt.get("mc_pos" if name.endswith("_reco") else "reco_pos")


def ntuple_value(name, x, opt):
    """None if the row is not to be counted, else the value."""
    kind, source = name.split("_")
    fv, ext = opt.get("fv_radius"), opt.get("external")
    mcpos = (x["mcPosx"], x["mcPosy"], x["mcPosz"])
    pos = (x["posx"], x["posy"], x["posz"])
    reco = source == "reco"
    if reco:
        if x["scintFit"] != 1 or (kind == "energy" and not x["energy"] > 0):
            return None
    else:
        if x["mc"] != 1 or (ext and x["scintFit"] != 1):
            return None
    if fv:
        cross = other(name, opt)
        if cross and reco and x["mc"] != 1:
            raise Skip
        if cross and not reco and x["scintFit"] != 1:
            return None
        if not mag(pos if reco != bool(cross) or ext else mcpos) < fv:
            return None
    if kind == "energy":
        return x[{"mc": "mcEdepQuenched", "truth": "mcEdep",
                  "reco": "energy"}[source]]
    return radius_value(kind, pos if reco else mcpos, opt)


# ------------------------------------------------------------- ROOT files
class Vertex(object):
    def __init__(self, fit, energy, pos):
        self.fit, self.energy, self.pos = fit, energy, pos

    def ContainsEnergy(self):
        return self.fit not in ("empty", "position")

    def ValidEnergy(self):
        if not self.ContainsEnergy():
            raise RuntimeError("no energy in this fit")
        return self.fit != "invalid"

    def ContainsPosition(self):
        return self.fit not in ("empty", "energy")

    def ValidPosition(self):
        if not self.ContainsPosition():
            raise RuntimeError("no position in this fit")
        return self.fit != "invalid"

    def GetEnergy(self):
        self.ValidEnergy()
        return self.energy

    def GetPosition(self):
        self.ValidPosition()
        return stubs.TVector3(*self.pos)


class EV(object):
    def __init__(self, fit, k, q):
        self.x = (fit, RECO[k], POSITIONS[q])

    def DefaultFitVertexExists(self):
        return self.x[0] != "none"

    def GetDefaultFitVertex(self):
        if self.x[0] == "none":
            raise RuntimeError("no default fit vertex")
        return Vertex(*self.x)


class Particle(object):
    def __init__(self, pos):
        self.pos = pos

    def GetPosition(self):
        return stubs.TVector3(*self.pos)


class MC(object):
    def __init__(self, i, j, p):
        self.e, self.p = (QUENCHED[i], TRUTH[j]), p

    def GetMCParticleCount(self):
        return 0 if self.p is None else 1

    def GetMCParticle(self, n):
        if self.p is None or n != 0:
            raise IndexError("no such particle")
        return Particle(POSITIONS[self.p])

    def GetScintQuenchedEnergyDeposit(self):
        return self.e[0]

    def GetScintEnergyDeposit(self):
        return self.e[1]


class DS(object):
    def __init__(self, spec):
        (i, j, p), evs = spec
        self.mc, self.evs = MC(i, j, p), [EV(*e) for e in evs]

    def GetMC(self):
        return self.mc

    def GetEVCount(self):
        return len(self.evs)

    def GetEV(self, n):
        if not 0 <= n < len(self.evs):
            raise IndexError("no such event")
        return self.evs[n]


FITS = ["ok", "none", "empty", "invalid", "energy", "position"]


def entries():
    """Specifications of ROOT entries."""
    evs = [("ok", k, q) for k in range(3) for q in range(3)] + \
        [(f, 0, 0) for f in FITS[1:]] + [("invalid", 1, 2), ("energy", 1, 1)]
    few = [("ok", 0, 0), ("ok", 1, 1), ("ok", 0, 2), ("none", 0, 0),
           ("invalid", 1, 1)]
    mcs = [(i, j, p) for i in range(3) for j in range(3)
           for p in (0, 1, 2, None)]
    for m in mcs:
        yield m, ()
        for e in evs:
            yield m, (e,)
        for pair in itertools.product(few, repeat=2):
            yield m, pair
    for m in mcs[:4]:
        for trio in itertools.product(few[:3], repeat=3):
            yield m, trio


def root_reco(name, ev, opt, mc=None):
    kind = name.split("_")[0]
    fit, energy, pos = ev[0], RECO[ev[1]], POSITIONS[ev[2]]
    has = fit in ("ok", "energy" if kind == "energy" else "position")
    if not has:
        return None
    if opt.get("fv_radius"):
        if other(name, opt):
            if mc is None:
                raise Skip
            if not mag(POSITIONS[mc]) < opt["fv_radius"]:
                return None
            return energy if kind == "energy" else radius_value(kind, pos, opt)
        if fit == "energy":
            raise Skip
        if not mag(pos) < opt["fv_radius"]:
            return None
    return energy if kind == "energy" else radius_value(kind, pos, opt)


def root_mc(name, spec, opt):
    kind, source = name.split("_")
    (i, j, p), evs = spec
    if opt.get("external") and not evs:
        return None
    if p is None:
        return None
    pos = POSITIONS[p]
    if opt.get("fv_radius"):
        if opt.get("external") or other(name, opt):
            if not evs:
                return None
            if len(evs) != 1:
                raise Refuse
            if evs[0][0] not in ("ok", "position"):
                return None
            pos = POSITIONS[evs[0][2]]
        if not mag(pos) < opt["fv_radius"]:
            return None
    elif opt.get("external") and any(e[0] != "ok" for e in evs):
        raise Skip
    if kind == "energy":
        return QUENCHED[i] if source == "mc" else TRUTH[j]
    return radius_value(kind, POSITIONS[p], opt)


def root_fills(names, spec, opt):
    """The value tuples this entry contributes."""
    evs = spec[1]
    if opt.get("bipo") and len(evs) != 1:
        return []
    reco = [n for n in names if n.endswith("_reco")]
    if not reco:
        v = [root_mc(n, spec, opt) for n in names]
        return [] if None in v else [v]
    out = []
    for ev in evs:
        v, refuse = [], False
        for n in names:
            try:
                v.append(root_reco(n, ev, opt) if n in reco else
                         root_mc(n, spec, opt))
            except Refuse:
                refuse = True
        if None in v and refuse:
            raise Skip      # depends on which is looked at first
        if refuse:
            raise Refuse
        if None not in v:
            out.append(v)
    return out


# ------------------------------------------------------------------ common
def bin_of(names, v):
    idx = []
    for n, x in zip(names, v):
        low, high, bins = AXES[n]
        if not low <= x < high:
            return None
        idx.append(int((x - low) / (high - low) * bins))
    return tuple(idx)


class Model(object):
    def __init__(self, names):
        self.names = names
        self.data = np.zeros([AXES[n][2] for n in names])
        self.raw = 0

    def add(self, fills):
        for v in fills:
            b = bin_of(self.names, v)
            if b is not None:
                self.data[b] += 1
                self.raw += 1


def config(names):
    return lib.make_config([(n,) + AXES[n] for n in names])


def allowed(names, opt):
    """External events have no Monte Carlo position."""
    return not (opt.get("external") and
                any("radial" in n and not n.endswith("reco") for n in names))


def cases(tier):
    for c, o in itertools.product(range(len(CONFIGS)), range(len(OPTIONS))):
        yield {"config": c, "options": o, "each": "ntuple"}
        yield {"config": c, "options": o, "each": "root"}
    n = 6 if tier == "thorough" else 4
    for c, first in itertools.product((0, 9, 2, 11), range(len(KINDS))):
        for m in range(1, n + 1):
            yield {"config": c, "bipo": m, "first": first}
    for c in (0, 2, 9, 10, 13, 15):
        for fmt in ("ntuple", "root"):
            for o in (0, 1, 8):
                yield {"config": c, "sequence": fmt, "options": o,
                       "length": 4 if tier == "thorough" else 3}
    yield {"refusals": True}
    yield {"configfile": True}
    for name in sorted(AXES):
        yield {"extractor": name}


def fill(fmt, fname, **kw):
    from echidna.core import fill_spectrum
    f = {"ntuple": fill_spectrum.fill_from_ntuple,
         "root": fill_spectrum.fill_from_root}[fmt]
    with core.quiet():
        return f(fname, **kw)


def put(fmt, fname, items):
    if fmt == "ntuple":
        stubs.CHAINS[fname] = list(items)
    else:
        stubs.READERS[fname] = [DS(x) for x in items]


def model_fills(fmt, names, items, opt):
    """The fills of a file; raises Skip or Refuse."""
    out = []
    if fmt == "root":
        for x in items:
            out += root_fills(names, x, opt)
        return out
    for n, x in enumerate(items):
        if opt.get("bipo"):
            if x["evIndex"] != 0:
                continue
            if n + 1 < len(items) and items[n + 1]["evIndex"] >= 1:
                continue
        v = [ntuple_value(k, x, opt) for k in names]
        if None not in v:
            out.append(v)
    return out


def show(fmt, x):
    if fmt == "root":
        return "entry (mc %r, events %r)" % x
    return "row %s" % ", ".join("%s=%r" % i for i in sorted(x.items()))


def attempt(fn):
    try:
        return True, fn()
    except Exception as e:
        return False, "%s: %s" % (type(e).__name__, e)


def verdict(ctx, s, model, entries_, bipo, what, label):
    if not lib.close(s.get_data(), model.data):
        d = np.asarray(s.get_data()) - model.data
        ctx.fail(label + ":bins", "%s: bins %s differ from the events that "
                 "pass by %s" % (what, np.argwhere(d).tolist()[:4],
                                 d[d != 0].tolist()[:4]))
    elif s._raw_events != model.raw:
        ctx.fail(label + ":raw", "%s: %r raw events, %d were filled"
                 % (what, s._raw_events, model.raw))
    elif s.get_num_decays() != entries_:
        ctx.fail(label + ":decays", "%s: %r decays, %d entries were read"
                 % (what, s.get_num_decays(), entries_))
    elif bool(s._bipo) != bool(bipo):
        ctx.fail(label + ":flag", "%s: bipo flag is %r" % (what, s._bipo))
    else:
        return True
    return False


def run_case(ctx, c):
    stubs.CHAINS.clear()
    stubs.READERS.clear()
    if "refusals" in c:
        return refusals(ctx)
    if "extractor" in c:
        return extractor(ctx, c["extractor"])
    if "configfile" in c:
        return configfile(ctx)
    names = CONFIGS[c["config"]]
    if "bipo" in c:
        return bipo(ctx, names, c)
    opt = OPTIONS[c["options"]]
    if "sequence" in c:
        return sequences(ctx, names, c["sequence"], opt, c["length"])
    fmt = c["each"]
    if not allowed(names, opt):
        put(fmt, "f", [])
        ctx.check(lib.rejects(lambda: fill(fmt, "f", spectrum_name="a_mc",
                                           config=config(names), **opt)),
                  fmt + ":external", "%s from %s with %r was accepted"
                  % (names, fmt, opt))
        return
    each(ctx, names, fmt, opt)


def each(ctx, names, fmt, opt):
    """Every single event, one after the other into the same spectrum and all
    of them from one file."""
    put(fmt, "none", [])
    s = fill(fmt, "none", spectrum_name="all_mc", config=config(names), **opt)
    model, n, good = Model(names), 0, []
    ctx.check(s.get_name() == "all_mc", fmt + ":name", "the spectrum is called "
              "%r" % s.get_name())
    for x in (rows() if fmt == "ntuple" else entries()):
        put(fmt, "one", [x])
        what = "%s of a %s with %r, %s" % (names, fmt, opt, show(fmt, x))
        try:
            fills = model_fills(fmt, names, [x], opt)
        except Skip:
            continue
        except Refuse:
            ctx.check(lib.rejects(lambda: fill(
                fmt, "one", spectrum_name="x_mc", config=config(names),
                **opt)), fmt + ":ambiguous", what + " was accepted")
            ctx.step()
            continue
        good.append(x)
        model.add(fills)
        n += 1
        ok, r = attempt(lambda: fill(fmt, "one", spectrum=s, **opt))
        ctx.step()
        if not ok:
            return ctx.fail(fmt + ":raised", "%s raised %s" % (what, r))
        if r is not s:
            return ctx.fail(fmt + ":append", "appending returned another "
                            "spectrum")
        if not verdict(ctx, s, model, n, opt.get("bipo"), what, fmt):
            return
        ctx.state((tuple(names), fmt, str(opt), n))
    put(fmt, "all", good)
    whole = Model(names)
    whole.add(model_fills(fmt, names, good, opt))
    ok, s = attempt(lambda: fill(fmt, "all", spectrum_name="all_mc",
                                 config=config(names), **opt))
    what = "%s of a %s with %r, file of all" % (names, fmt, opt)
    if not ok:
        return ctx.fail(fmt + ":raised", "%s raised %s" % (what, s))
    verdict(ctx, s, whole, len(good), opt.get("bipo"), what, fmt)
    ctx.step()


KINDS = [(0, "a"), (1, "a"), (0, "bad"), (-1, "a"), (0, "b"), (2, "b"),
         (1, "bad"), (0, "far")]


def bipo_row(kind):
    ev, sort = KINDS[kind]
    return {"a": row(1, 1, 0, 0, 0, 0, 0, ev), "b": row(1, 1, 1, 1, 1, 1, 1, ev),
            "bad": row(0, 0, 0, 0, 0, 0, 0, ev),
            "far": row(1, 1, 2, 2, 2, 2, 2, ev)}[sort]


def bipo(ctx, names, c):
    opt = {"bipo": True}
    for rest in itertools.product(range(len(KINDS)), repeat=c["bipo"] - 1):
        hist = (c["first"],) + rest
        items = [bipo_row(k) for k in hist]
        put("ntuple", "f", items)
        model = Model(names)
        model.add(model_fills("ntuple", names, items, opt))
        what = "%s of an ntuple with bipo cut, rows %r" % (
            names, [KINDS[k] for k in hist])
        ok, s = attempt(lambda: fill("ntuple", "f", spectrum_name="b_mc",
                                     config=config(names), **opt))
        ctx.step()
        if not ok:
            return ctx.fail("bipo:raised", "%s raised %s" % (what, s))
        if not verdict(ctx, s, model, len(hist), True, what, "bipo"):
            return
        ctx.state((tuple(names), hist))


NT = [row(1, 1, 0, 0, 0, 0, 0), row(1, 1, 1, 1, 1, 1, 1),
      row(0, 1, 0, 1, 0, 0, 1), row(1, 0, 1, 0, 1, 1, 0),
      row(1, 1, 2, 2, 0, 0, 0), row(1, 1, 0, 0, 2, 2, 2)]
RT = [((0, 0, 0), (("ok", 0, 0),)), ((1, 1, 1), (("ok", 1, 1),)),
      ((0, 1, 0), ()), ((1, 0, 1), (("ok", 0, 0), ("ok", 1, 0))),
      ((0, 0, None), (("ok", 0, 1),)), ((1, 1, 0), (("none", 0, 0),
                                                   ("ok", 1, 1))),
      ((2, 2, 2), (("ok", 2, 2),))]


def sequences(ctx, names, fmt, opt, length):
    """Every sequence of entries, in every way of splitting it into files,
    with a spectrum of other contents next to it."""
    alphabet = NT if fmt == "ntuple" else RT
    for hist in itertools.product(range(len(alphabet)), repeat=length):
        items = [alphabet[k] for k in hist]
        model = Model(names)
        model.add(model_fills(fmt, names, items, opt))
        for cut in itertools.product((0, 1), repeat=length - 1):
            files, cur = [], [items[0]]
            for brk, x in zip(cut, items[1:]):
                if brk:
                    files.append(cur)
                    cur = []
                cur.append(x)
            files.append(cur)
            s = None
            what = "%s of %ss with %r, files %r of %r" % (
                names, fmt, opt, [len(f) for f in files], hist)
            for f in files:
                put(fmt, "f", f)
                if s is None:
                    cfg = config(names)
                    ok, s = attempt(lambda: fill(fmt, "f", spectrum_name="s_mc",
                                                 config=cfg, **opt))
                else:
                    ok, r = attempt(lambda: fill(fmt, "f", spectrum=s, **opt))
                ctx.step()
                if not ok:
                    return ctx.fail(fmt + ":raised", "%s raised" % what)
            if not verdict(ctx, s, model, length, opt.get("bipo"), what,
                           fmt + ":files"):
                return
        ctx.state((tuple(names), fmt, str(opt), hist))


def refusals(ctx):
    for fmt in ("ntuple", "root"):
        put(fmt, "f", [NT[0]] if fmt == "ntuple" else [RT[0]])
        cfg = config(["energy_mc"])
        bad = [("name", {"config": cfg}), ("config", {"spectrum_name": "a_mc"}),
               ("both", {}),
               ("kind", {"spectrum_name": "a_mc", "config": lib.make_config(
                   [("energy_seen", 0., 1., 1)])}),
               ("unknown", {"spectrum_name": "a_mc", "config": lib.make_config(
                   [("charge_mc", 0., 1., 1)])}),
               ("second", {"spectrum_name": "a_mc", "config": lib.make_config(
                   [("energy_mc", 0., 1., 1), ("charge_reco", 0., 1., 1)])})]
        for k, kw in bad:
            ctx.check(lib.rejects(lambda: fill(fmt, "f", **kw)),
                      "%s:%s" % (fmt, k), "filling from a %s with %r was "
                      "accepted" % (fmt, sorted(kw)))
            ctx.step()


def configfile(ctx):
    import os
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix="fromfile")
    try:
        path = os.path.join(d, "two.yml")
        with open(path, "w") as f:
            f.write("parameters:\n    energy_mc:\n        low: 0.0\n"
                    "        high: 4.0\n        bins: 4\n    radial_mc:\n"
                    "        low: 0.0\n        high: 8.0\n        bins: 5\n")
        names = ["energy_mc", "radial_mc"]
        for fmt, items in (("ntuple", NT), ("root", RT)):
            put(fmt, "f", items)
            model = Model(names)
            model.add(model_fills(fmt, names, items, {}))
            ok, s = attempt(lambda: fill(fmt, "f", spectrum_name="c_mc",
                                         config=path))
            ctx.step()
            if not ok:
                ctx.fail(fmt + ":path", "filling with the path of a config "
                         "raised %s" % s)
                continue
            ctx.check(s.get_config().get_pars() == names, fmt + ":path",
                      "the config file gives %s" % s.get_config().get_pars())
            verdict(ctx, s, model, len(items), False, "config from a file",
                    fmt + ":path")
    finally:
        shutil.rmtree(d)


CLASSES = {"energy_mc": "EnergyExtractMC", "energy_reco": "EnergyExtractReco",
           "energy_truth": "EnergyExtractTruth", "radial_mc":
           "RadialExtractMC", "radial_reco": "RadialExtractReco",
           "radial3_mc": "Radial3ExtractMC", "radial3_reco":
           "Radial3ExtractReco", "zradial3_mc": "ZRadial3ExtractMC",
           "zradial3_reco": "ZRadial3ExtractReco"}


def extractor(ctx, name):
    """The extractor itself, which can also be asked to cut on the position of
    the other kind; every event with every combination of its options."""
    from echidna.core import dsextract
    kind, source = name.split("_")
    reco = source == "reco"
    radii = (None,) if kind in ("energy", "radial") else (None, 6.)
    for fv, ext, cross, outer in itertools.product(
            (None, 4., 5.5), (False, True), (False, True), radii):
        opt = {"fv_radius": fv, "external": ext,
               "mc_pos" if reco else "reco_pos": cross}
        kw = {"fv_radius": fv, "external": ext,
              "mc_pos" if reco else "reco_pos": cross}
        if outer:
            opt["outer_radius"] = kw["outer_radius"] = outer
        ok, e = attempt(lambda: getattr(dsextract, CLASSES[name])(**kw))
        ctx.step()
        if ext and (cross if reco else kind != "energy"):
            ctx.check(not ok, "extractor:external", "%s accepts %r"
                      % (name, kw))
            continue
        if not ok:
            ctx.fail("extractor:raised", "%s with %r: %s" % (name, kw, e))
            continue
        for fmt, x in itertools.chain(
                (("ntuple", x) for x in rows()),
                (("root", x) for x in entries())):
            for want, got in extract(fmt, name, reco, e, x, opt):
                ctx.step()
                if got[0] != want[0] or got[0] == "value" and not lib.near(
                        got[1], want[1]):
                    return ctx.fail("extractor:" + fmt, "%s with %r: %s of "
                                    "%s, expected %s" % (
                                        name, kw, got, show(fmt, x), want))
        ctx.state((name, str(kw)))


def extract(fmt, name, reco, e, x, opt):
    """(what is expected, what it answers) of each event."""
    if fmt == "ntuple":
        chain = Row(x)
        calls = [(lambda: ntuple_value(name, x, opt),
                  lambda: e.get_valid_ntuple(chain),
                  lambda: e.get_value_ntuple(chain))]
    else:
        ds = DS(x)
        if reco:
            calls = [(lambda ev=ev: root_reco(name, ev, opt, x[0][2]),
                      lambda ev=ev: e.get_valid_root(EV(*ev), ds),
                      lambda ev=ev: e.get_value_root(EV(*ev)))
                     for ev in x[1]]
        else:
            calls = [(lambda: root_mc(name, x, opt),
                      lambda: e.get_valid_root(ds.GetMC(), ds),
                      lambda: e.get_value_root(ds.GetMC()))]
    for model, valid, value in calls:
        try:
            want = model()
            want = ("cut",) if want is None else ("value", want)
        except Skip:
            continue
        except Refuse:
            want = ("refused",)
        ok, r = attempt(valid)
        if not ok:
            got = ("refused", r)
        elif not r:
            got = ("cut",)
        else:
            ok, r = attempt(value)
            got = ("value", r) if ok else ("broken", r)
        yield want, got


class Row(object):
    def __init__(self, x):
        self.__dict__.update(x)
