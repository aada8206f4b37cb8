"""P25: the conversions between half-life, activity, counts and effective mass
of a double-beta isotope form one consistent graph: every walk through them,
from every quantity, stays on the same physical situation."""
import itertools
import math
from collections import OrderedDict

import numpy as np

import lib

PROPERTY = "P25"
BOUNDS = {
    "quick": "4 isotopes x 4 set-ups (loading, radius and density given or "
             "not) x numbers of atoms given or not x 5 live times (default, "
             "integer, fraction) x 5 half-lives x whole-number start: every "
             "walk of 4 conversions from each of 4 quantities; every numbers-"
             "of-atoms argument combination; every pair of 16 isotopes in use "
             "together; 40 refusals",
    "thorough": "walks of 6 conversions",
}
JOBS = {"quick": 8, "thorough": 8}

ISOTOPES = {
    "Te130": (129.9062244, 127.603, 0.3408, 3.69e-14, 4.03),
    "Xe136": (135.907219, 131.293, 0.9093, 3.79e-14, 3.33),
    "whole": (100, 100, 1, 1e-14, 4),
    "Majoron": (135.907219, 134.4, 0.9093, 1.06e-17, 2.5e-4),
}
EXTRAS = [{}, {"loading": 0.01}, {"outer_radius": 1540.,
                                  "scint_density": 7.5628e-7},
          {"loading": 1, "outer_radius": 6000, "scint_density": 1e-6}]
LIVETIMES = [None, 1, 2, 0.3, 1. / 365.25]
HALF_LIVES = [1e25, 3.75e26, 7. * 10 ** 24, 2.165e21, 1e35]
NODES = ["half_life", "activity", "counts", "eff_mass"]
EDGES = {("half_life", "activity"): "n", ("activity", "half_life"): "n",
         ("half_life", "eff_mass"): "", ("eff_mass", "half_life"): "",
         ("activity", "counts"): "t", ("counts", "activity"): "t",
         ("counts", "eff_mass"): "nt", ("eff_mass", "counts"): "nt",
         ("half_life", "counts"): "nt", ("counts", "half_life"): "nt"}
AMU, AVOGADRO, ME = 1.660538921e-27, 6.02214129e23, 0.510998910e6
DEFAULT = {"loading": 0.003, "outer_radius": 5997., "scint_density": 862.8e-9}


def cases(tier):
    for iso, ext, n, live, t12 in itertools.product(
            sorted(ISOTOPES), range(len(EXTRAS)), (None, 10 ** 27, 3.5e26, 1.5),
            LIVETIMES, HALF_LIVES):
        yield {"isotope": iso, "extra": ext, "atoms": n, "livetime": live,
               "half_life": t12, "length": 6 if tier == "thorough" else 4}
    for iso in sorted(ISOTOPES):
        for ext in range(len(EXTRAS)):
            yield {"isotope": iso, "extra": ext, "count_atoms": True}
    yield {"refusals": True}
    yield {"together": True}
    yield {"whole_counts": True}


def make(iso, extra):
    from echidna.calc.decay import DBIsotope
    return DBIsotope(iso, *ISOTOPES[iso], **extra)


def atoms(iso, extra, **kw):
    a_iso, a_nat, abundance, _, _ = ISOTOPES[iso]
    v = dict(DEFAULT, **extra)
    v.update({k: x for k, x in kw.items() if x is not None})
    mass = v.get("target_mass")
    if mass is None:
        m = v.get("scint_mass")
        if m is None:
            m = v["scint_density"] * 4. / 3. * math.pi * float(
                v["outer_radius"]) ** 3
        mass = abundance * float(a_iso) / a_nat * v["loading"] * m
    return mass * AVOGADRO / (a_iso * 1e-3)


def truth(iso, n, live, t12):
    _, _, _, g, m = ISOTOPES[iso]
    a = math.log(2.) * n / t12
    return {"half_life": float(t12), "activity": a, "counts": a * live,
            "eff_mass": ME / math.sqrt(float(g) * m ** 2 * t12)}


def run_case(ctx, c):
    if "refusals" in c:
        return refusals(ctx)
    if "together" in c:
        return together(ctx)
    if "whole_counts" in c:
        return whole_counts(ctx)
    extra = EXTRAS[c["extra"]]
    iso = make(c["isotope"], extra)
    if "count_atoms" in c:
        return count_atoms(ctx, c, iso, extra)
    n = atoms(c["isotope"], extra) if c["atoms"] is None else c["atoms"]
    live = 5. if c["livetime"] is None else c["livetime"]
    want = truth(c["isotope"], n, live, c["half_life"])
    for start in NODES:
        layer = {(start,): want[start]}
        for _ in range(c["length"]):
            nxt = {}
            for path, value in layer.items():
                for to in NODES:
                    if (path[-1], to) not in EDGES:
                        continue
                    kw = {}
                    if "n" in EDGES[path[-1], to] and c["atoms"] is not None:
                        kw["n_atoms"] = c["atoms"]
                    if "t" in EDGES[path[-1], to] and \
                            c["livetime"] is not None:
                        kw["livetime"] = c["livetime"]
                    got = getattr(iso, "%s_to_%s" % (path[-1], to))(value,
                                                                    **kw)
                    ctx.step()
                    p = path + (to,)
                    ctx.state((repr(c), p))
                    if not ctx.check(lib.near(got, want[to]), "%s_to_%s" % (
                            path[-1], to), "along %r: %r, expected %r" % (
                                p, got, want[to])):
                        return
                    nxt[p] = got
            layer = nxt


def together(ctx):
    """Isotopes that exist together, their arguments given by position."""
    from echidna.calc.decay import DBIsotope
    every = []
    for name in sorted(ISOTOPES):
        for extra in EXTRAS:
            v = dict(DEFAULT, **extra)
            every.append((name, extra, DBIsotope(
                name, *(ISOTOPES[name] + (v["loading"], v["outer_radius"],
                                          v["scint_density"])))))
    for i, j in itertools.product(range(len(every)), repeat=2):
        for name, extra, iso in (every[i], every[j], every[i]):
            want = truth(name, atoms(name, extra), 5., 1e25)
            ctx.step()
            ctx.state(("together", i, j, name))
            for got, w in ((iso.get_n_atoms(), atoms(name, extra)),
                           (iso.half_life_to_counts(1e25), want["counts"]),
                           (iso.half_life_to_eff_mass(1e25),
                            want["eff_mass"]),
                           (iso.counts_to_eff_mass(want["counts"]),
                            want["eff_mass"])):
                ctx.check(lib.near(got, w), "together", "%s %r after %s %r: "
                          "%r, expected %r" % (name, extra, every[j][0],
                                               every[j][1], got, w))


def whole_counts(ctx):
    """Whole numbers of counts, years and so on are real numbers too."""
    for iso in sorted(ISOTOPES):
        d = make(iso, {})
        for counts, live, n in itertools.product((1, 5, 7, 100), (1, 2, 3, 8),
                                                 (None, 10 ** 26)):
            kw = {} if n is None else {"n_atoms": n}
            m = atoms(iso, {}) if n is None else n
            a = counts / float(live)
            t12 = math.log(2.) * m / a
            want = truth(iso, m, live, t12)
            ctx.step()
            ctx.state((iso, counts, live, n))
            for name, got, w in [
                    ("counts_to_activity", d.counts_to_activity(
                        counts, livetime=live), a),
                    ("counts_to_half_life", d.counts_to_half_life(
                        counts, livetime=live, **kw), t12),
                    ("counts_to_eff_mass", d.counts_to_eff_mass(
                        counts, livetime=live, **kw), want["eff_mass"]),
                    ("activity_to_half_life", d.activity_to_half_life(
                        counts, **kw), math.log(2.) * m / counts),
                    ("activity_to_counts", d.activity_to_counts(
                        counts, livetime=live), counts * live),
                    ("half_life_to_activity", d.half_life_to_activity(
                        counts, **kw), math.log(2.) * m / counts),
                    ("eff_mass_to_half_life", d.eff_mass_to_half_life(counts),
                     truth(iso, 1, 1, 1.)["eff_mass"] ** 2 / counts ** 2)]:
                ctx.check(lib.near(got, w), "whole:" + name, "%s(%r) over %r "
                          "years is %r, expected %r" % (name, counts, live,
                                                        got, w))


def count_atoms(ctx, c, iso, extra):
    for kw in itertools.product((None, 0., 0.05, 1), (None, 1e-6, 0.),
                                (None, 125., 0), (None, 7e5, 0.),
                                (None, 1540, 10.)):
        kw = {k: v for k, v in zip(("loading", "scint_density", "target_mass",
                                    "scint_mass", "outer_radius"), kw)
              if v is not None}
        got = iso.get_n_atoms(**kw)
        ctx.step()
        ctx.state((repr(c), sorted(kw.items())))
        ctx.check(lib.near(got, atoms(c["isotope"], extra, **kw)), "atoms",
                  "%r gives %r atoms, expected %r" % (
                      kw, got, atoms(c["isotope"], extra, **kw)))
    ctx.check(lib.near(iso.get_n_atoms(), atoms(c["isotope"], extra)),
              "atoms:default", "the defaults changed")
    for name, v in (("half_life_to_activity", 1e25),
                    ("half_life_to_counts", 1e25), ("eff_mass_to_counts", .1)):
        got = getattr(iso, name)(v, n_atoms=0)
        ctx.check(got == 0., "no-atoms", "%s without atoms is %r" % (name,
                                                                     got))
    for name in ("activity_to_half_life", "counts_to_half_life"):
        got = getattr(iso, name)(100., n_atoms=0)
        ctx.check(got == 0., "no-atoms", "%s without atoms is %r" % (name,
                                                                     got))
    for got in (iso.counts_to_activity(0), iso.counts_to_activity(0., 2.),
                iso.activity_to_counts(0.), iso.activity_to_counts(0, 3)):
        ctx.check(got == 0., "none", "no counts, no activity: %r" % got)
    # every ordered pair of questions that differ in one or two arguments
    args = OrderedDict([("loading", 0.02), ("scint_density", 2e-6),
                        ("target_mass", 77.), ("scint_mass", 3e5),
                        ("outer_radius", 900.)])
    asked = [{}] + [{k: f * args[k] for k in ks} for r in (1, 2) for ks in
                    itertools.combinations(args, r) for f in (1., .5)]
    for one, two in itertools.product(asked, repeat=2):
        if len(set(one) | set(two)) > 2:
            continue
        iso = make(c["isotope"], extra)
        for kw in (one, two, one):
            got, n = iso.get_n_atoms(**kw), atoms(c["isotope"], extra, **kw)
            ctx.check(lib.near(got, n), "atoms:again", "%r then %r: %r "
                      "atoms, expected %r" % (one, two, got, n))
        ctx.step()
        ctx.state((repr(c), "pair", sorted(one.items()), sorted(two.items())))
        want = truth(c["isotope"], atoms(c["isotope"], extra), 5., 1e25)
        ctx.check(lib.near(iso.half_life_to_activity(1e25),
                           want["activity"]), "atoms:again",
                  "conversions depend on atoms asked for with %r" % (two,))


def refusals(ctx):
    from echidna.calc.decay import DBIsotope
    te = ISOTOPES["Te130"]
    d = make("Te130", {})
    bad = [("abundance", lambda x=x: DBIsotope("x", te[0], te[1], x, *te[3:]))
           for x in (-0.01, 1.01, -1, 34.)]
    bad += [("loading", lambda x=x: make("Te130", {"loading": x}))
            for x in (-0.003, 1.5, -1, 3)]
    bad += [("outer_radius", lambda x=x: make("Te130", {"outer_radius": x}))
            for x in (0., 0, -1., -5997)]
    bad += [("atoms:loading", lambda x=x: d.get_n_atoms(loading=x))
            for x in (-0.003, 1.5, 3)]
    bad += [("atoms:radius", lambda x=x: d.get_n_atoms(outer_radius=x))
            for x in (0., 0, -1.)]
    for f in ("activity_to_counts", "counts_to_activity", "half_life_to_counts",
              "counts_to_half_life", "counts_to_eff_mass",
              "eff_mass_to_counts"):
        bad += [(f, lambda f=f, x=x: getattr(d, f)(1e3, livetime=x))
                for x in (0., 0, -5)]
    bad += [(f, lambda f=f, x=x: getattr(d, f)(x))
            for f in ("eff_mass_to_half_life", "eff_mass_to_counts")
            for x in (0., 0, -0.1)]
    for i, (what, fn) in enumerate(bad):
        ctx.step()
        ctx.state(("bad", i))
        ctx.check(lib.rejects(fn), "accepted:" + what, "case %d of %s is not "
                  "refused" % (i, what))
    # the ends of the ranges are allowed
    for extra in ({"loading": 1.}, {"loading": 0.}, {"loading": 0},
                  {"scint_density": 0.}):
        iso = make("Te130", extra)
        ctx.step()
        ctx.check(lib.near(iso.get_n_atoms(), atoms("Te130", extra), 1e20),
                  "loading", "loading %r gives %r atoms" % (
                      extra, iso.get_n_atoms()))
    for x in (0., 1.):
        ctx.check(not lib.rejects(lambda: DBIsotope("x", te[0], te[1], x,
                                                    *te[3:])),
                  "abundance", "abundance %r is refused" % x)
