"""P27: every combination of systematic values has its own pre-made file, laid
out as documented, and a fit that loads pre-made spectra gives what one that
convolves gives. Names: every value, file and directory of an alphabet and
every sequence of systematics. Fits: every sequence of set-ups and fits."""
import copy
import itertools
import os
import shutil
import tempfile
from collections import OrderedDict

import numpy as np

import c_fitstat as base
import core
import lib
import stubs

PROPERTY = "P27"
BOUNDS = {
    "quick": "3 kinds of systematic x 26 values x 12 file names x 9 "
             "directories; every sequence of up to 3 of 6 systematics (3 kinds "
             "x 2 dimensions) x 2 sets of values x 8 locations, each among "
             "files for all other values; 11 sets of systematics x 2 layouts x "
             "location or directory: whole fits against fits that convolve, "
             "every sequence of 4 of 4 operations on the directories",
    "thorough": "sequences of 4 systematics and of 6 operations",
}
JOBS = {"quick": 8, "thorough": 8}
KINDS = {"smear": None, "scale": "sc", "shift": "sh"}
VALUES = [1, 2., 3, 10, 10., 20, 20.5, 30, 100, 150., 200, 200., 210, 1000,
          0.5, 0.05, 0.025, 0.25, 1.5, 1e-10, 3e-10, 1e-100, 10.5, 11,
          np.float64(120.), np.int64(30)]
SIGNED = [0, 0., -1, -10., -0.25, -100]
FILES = ["te.hdf5", "te_mc.hdf5", "flash_layers_misc.hdf5", "supply.hdf5",
         "mesh_200ly_mc.hdf5", "te_1.1sc.hdf5", "te_0.5sh_mc.hdf5",
         "a_0.05rs.hdf5", "b_200ly_1.1sc_0.5sh.hdf5", "c_0.5sh_x_20ly.hdf5",
         "te130-2.5.hdf5", "misc_sc.hdf5"]
DIRS = [("/d/energy_mc", False), ("/d/energy_mc/", False), ("/d/", True),
        ("/d", True), ("/smear/energy_mc/shift", False),
        ("x/energy_mc/scale/energy_mc/", False),
        ("x/energy_mc/smear/scale/shift/", False),
        ("/energy_mc/shift/energy_mc_old/energy_mc/smear/", False),
        ("/energy_mc/smear/scale/", True)]


def tag(kind, v):
    return KINDS[kind] or ("ly" if v > 10. else "rs")


def text(v):
    return "%.12g" % v


def is_tag(part, t):
    if not part.endswith(t):
        return False
    try:
        float(part[:-2])
    except ValueError:
        return False
    return True


def named(fname, kind, v, replace=True):
    """The documented name: the value takes the place of an earlier value of
    the same kind or is added. None where that is not unique."""
    t, parts = tag(kind, v), fname[:-5].split("_")
    hits = [i for i, p in enumerate(parts) if is_tag(p, t)] if replace else []
    if len(hits) > 1:
        return None
    if hits:
        parts[hits[0]] = text(v) + t
    else:
        parts.append(text(v) + t)
    return "_".join(parts) + ".hdf5"


def placed(directory, kind, dim, added):
    parts = [p for p in directory.split("/")]
    if parts[-1] == "":
        parts.pop()
    if not added:
        after = parts[len(parts) - parts[::-1].index(dim):]
        if kind in after:
            return "/".join(parts) + "/"
    return "/".join(parts + [kind]) + "/"


def make_par(kind, dim, name=None):
    from echidna.core import parameter
    cls = {"smear": parameter.ResolutionParameter,
           "scale": parameter.ScaleParameter,
           "shift": parameter.ShiftParameter}[kind]
    return cls(name or kind, 1., None, -1e3, 1e3, 3, dim)


def cases(tier):
    for k, d in itertools.product(sorted(KINDS), range(len(DIRS))):
        yield {"name": k, "dir": d}
    six = [(k, d) for k in sorted(KINDS) for d in ("energy_mc", "radial_mc")]
    for n in range(1, 5 if tier == "thorough" else 4):
        for seq in itertools.permutations(range(6), n):
            yield {"sequence": [six[i] for i in seq]}
    for g in [g for g in base.GLOBALS if g != "none"]:
        kinds = [base.split(n)[1] for n, _ in base.GLOBALS[g]]
        if len(set(kinds)) < len(kinds):
            continue    # two values for one place in the name, see "sequence"
        for lay in [x for x in ("1d", "2d") if base.fits_layout(g, x)]:
            for where in ("location", "directory"):
                yield {"globals": g, "layout": lay, "where": where}
    for n in range(1, 7 if tier == "thorough" else 5):
        for seq in itertools.product(range(4), repeat=n):
            yield {"changes": seq}


def run_case(ctx, c):
    REF.clear()
    stubs.FILES.clear()
    if "name" in c:
        names(ctx, c["name"], *DIRS[c["dir"]])
    elif "sequence" in c:
        sequence(ctx, [tuple(x) for x in c["sequence"]])
    elif "globals" in c:
        fits(ctx, c)
    else:
        changes(ctx, c["changes"])
    stubs.FILES.clear()


def names(ctx, kind, directory, added):
    par = make_par(kind, "energy_mc")
    ctx.check(lib.rejects(lambda: par.get_pre_convolved(directory, FILES[0],
                                                        added)),
              "unset", "a %s without a current value has a file" % kind)
    for v in VALUES + (SIGNED if kind != "smear" else []):
        for f in FILES:
            want = named(f, kind, v)
            if want is None:
                continue
            par.set_current_value(v)
            got = lib.ask(par.get_pre_convolved, directory, f, added)
            ctx.step()
            ctx.state((kind, directory, repr(v), f))
            if got == "refused":
                ctx.fail("name:refused", "%s %r of %s in %r was refused"
                         % (kind, v, f, directory))
                continue
            ctx.check(got[1] == want, "name:file", "%s %r of %s gives %r, not "
                      "%r" % (kind, v, f, got[1], want))
            where = placed(directory, kind, "energy_mc", added)
            ctx.check(got[0] == where, "name:directory", "%s in %r (%s "
                      "dimension) gives %r, not %r" % (
                          kind, directory, "new" if added else "same", got[0],
                          where))


VALS = {"smear": (200., 20., 0.05, 3), "scale": (1.1, 1, 10., 0.9),
        "shift": (0.5, -0.5, 10, 100.)}
PLACES = [(None, "/top/spec/"), (None, ""), (None, "/energy_mc_old/"),
          ("/base", "/top/"), ("/base/", "/top/"), ("rel", "/top/energy_mc/"),
          ("/radial_mc_pdfs", "/top/"), ("/a.b_c/d", "")]


def path_of(base_dir, loc, fname, seq, vals, collapse):
    d = loc if base_dir is None else base_dir
    if d and not d.endswith("/"):
        d += "/"
    last, seen = None, set()
    for p in d.split("/"):
        if p in [x[1] for x in seq]:
            last = p
    for (kind, dim), v in zip(seq, vals):
        added = last != dim
        if added:
            d, last = d + dim + "/", dim
        d = placed(d, kind, dim, False)
        fname = named(fname, kind, v, collapse or tag(kind, v) not in seen)
        seen.add(tag(kind, v))
    return d + fname


def shared(seq, vals):
    """Systematics of one kind in two dimensions, whose values would need the
    same place in the file name."""
    tags = [tag(k, v) for (k, _), v in zip(seq, vals)]
    return len(set(tags)) < len(tags)


def mark(n):
    from echidna.output import store
    s = lib.make_spec([("energy_mc", 0., 4., 4), ("radial_mc", 0., 4., 2)],
                      data=np.arange(8.).reshape(4, 2) + 1. + 10. * n,
                      num_decays=7. + n, name="other_mc")
    return s, store


def loaded(path, s):
    """The spectrum as it comes from its file."""
    from echidna.output import store
    with core.quiet():
        store.dump(path, s)
        return store.load(path)


def sequence(ctx, seq):
    from echidna.fit.fit import Fit
    from echidna.fit import test_statistic
    combos = list(itertools.product(*[VALS[k][:2] for k, _ in seq]))
    combos += list(itertools.product(*[VALS[k][2:] for k, _ in seq]))
    for base_dir, loc in PLACES:
        stubs.FILES.clear()
        paths, number = {}, {}
        # a file for every combination, and what the collapsed names hold
        for n, vals in enumerate(combos):
            p = path_of(base_dir, loc, "te.hdf5", seq, vals, False)
            if p in number:
                ctx.fail("model", "the model gives two combinations the file "
                         "%s" % p)
            paths[vals], number[p] = p, n
        extra = {}
        for vals in combos:
            if shared(seq, vals):
                q = path_of(base_dir, loc, "te.hdf5", seq, vals, True)
                if q not in number:
                    extra.setdefault(q, 100 + len(extra))
        for p, n in list(number.items()) + list(extra.items()):
            s, store = mark(n)
            with core.quiet():
                store.dump(p, s)
        spec = loaded(loc + "te.hdf5", mark(500)[0])
        spec.scale(14.)
        cfg = base.rate_config("te", [3., 1.], None)
        spec.set_fit_config(cfg)
        before = lib.snap(spec)
        fit = Fit({}, test_statistic.BakerCousinsLL(), use_pre_made=True,
                  pre_made_base_dir=base_dir)
        pars = [make_par(k, d, "%s_%s" % (k, d)) for k, d in seq]
        for vals in combos + combos[::-1]:
            for p, v in zip(pars, vals):
                p.set_current_value(v)
            what = "%s for %s from %s" % (
                list(zip(seq, vals)), loc + "te.hdf5", base_dir)
            try:
                with core.quiet():
                    got = fit.load_pre_made(spec, pars)
            except Exception as e:
                ctx.fail("load:missing", "%s: %s is not found (%s)"
                         % (what, paths[vals], e))
                return
            ctx.step()
            n = number[paths[vals]]
            ref, _ = mark(n)
            ref.scale(14.)
            if not lib.close(got.get_data(), ref.get_data()):
                key = "load:file"
                if shared(seq, vals):
                    q = path_of(base_dir, loc, "te.hdf5", seq, vals, True)
                    ref, _ = mark(extra.get(q, number.get(q, 0)))
                    ref.scale(14.)
                    if lib.close(got.get_data(), ref.get_data()):
                        tags = [tag(k, v) for (k, _), v in zip(seq, vals)]
                        key = "two-dimensions:" + min(
                            t for t in tags if tags.count(t) > 1)
                ctx.fail(key, "%s: %s was not loaded" % (what, paths[vals]))
            ctx.check(got.get_num_decays() == 14., "load:decays", "%s: %r "
                      "decays instead of 14" % (what, got.get_num_decays()))
            ctx.check(got.get_fit_config() is cfg, "load:config",
                      "%s: another fit configuration" % what)
            d = lib.same(before, lib.snap(spec))
            ctx.check(d is None, "load:source", "%s changed the %s of the "
                      "spectrum" % (what, d))
            ctx.state((seq, vals, base_dir, loc))


def premake(c, b, directory, factor=1., full=True):
    """Store every spectrum convolved with every combination of values."""
    from echidna.output import store
    g = base.GLOBALS[c["globals"]]
    seq = [({"shift": "shift", "scale": "scale"}.get(
        base.split(n)[1], "smear"), base.split(n)[0]) for n, _ in g]
    for s in b["floating"] + ([b["signal"]] if b["signal"] else []):
        for vals in itertools.product(*[v for _, v in g]):
            x = copy.copy(s)
            if not full:
                base.cut(x, b["roi"])
            for (n, _), v in zip(g, vals):
                x = base.systematic(x, n, v)
            # scaled otherwise, as a file may be
            x.scale(x.get_num_decays() * 3.)
            if factor != 1.:
                x._data = x._data * factor
            with core.quiet():
                store.dump(path_of(directory, "/loc/", s.get_name() + ".hdf5",
                                   seq, vals, False), x)


def setup(c):
    b = base.build(c)
    for s in b["floating"] + [x for x in [b["signal"]] if x]:
        s.set_background_name(s.get_name())
    b["floating"] = [loaded("/loc/%s.hdf5" % s.get_name(), s)
                     for s in b["floating"]]
    if b["signal"]:
        # a copy is as good
        b["signal"] = copy.copy(loaded("/loc/sig.hdf5", b["signal"]))
    return b


def result(f):
    with core.quiet():
        r = f.fit()
    fc = f.get_fit_config()
    return [float(r[0]), float(r[1])] + \
        [float(fc.get_par(n).get_best_fit()) for n in fc.get_pars()] + \
        np.ravel(f.get_minimiser().get_stats()).tolist()


def grid(k):
    """Statistics on the grid of a fit of fully convolved spectra which are
    shrunk afterwards, from the ingredients alone."""
    g, out = base.GLOBALS[k["globals"]], []
    rates = [[(s.get_name(), r) for r in base.RATES[s.get_name()]]
             for i, s in enumerate(base.build(k)["floating"])
             if base.has_rate(k, i)]
    base.CACHE.clear()
    for gv in itertools.product(*[v for _, v in g]):
        for rv in itertools.product(*rates):
            priors = [(v, vals[0]) for v, (_, vals) in zip(gv, g)] + \
                [(r, base.RATES[n][0]) for n, r in rv]
            out.append(sum(base.reference(dict(k, cut_after=True), gv,
                                          dict(rv), priors)[:2]))
    base.CACHE.clear()
    return np.array(out, dtype=float)


def fits(ctx, c):
    for nf, sig, fine, full in itertools.product((1, 2), (True, False), (1, 2),
                                                 (False, True)):
        k = {"globals": c["globals"], "layout": c["layout"], "fixed": 1,
             "floating": nf, "signal": sig, "fine": fine, "sigma": .5,
             "stat": "BakerCousinsLL", "mode": "shape"}
        b = setup(k)
        stubs.FILES.clear()
        d = "/made" if c["where"] == "directory" else None
        premake(k, b, d, full=full)
        try:
            f = base.make_fit(k, b, use_pre_made=True, pre_made_base_dir=d)
            got = result(f)
        except Exception as e:
            ctx.fail("fit:raised", "%r with pre-made spectra raised %s: %s"
                     % (k, type(e).__name__, e))
            continue
        ctx.step()
        ctx.state(str(sorted(k.items())) + c["where"] + str(full))
        if full:
            want = grid(k)
            got = np.ravel(f.get_minimiser().get_stats())
        else:
            want = result(base.make_fit(k, setup(k)))
        ctx.check(lib.close(got, want, rtol=1e-8, atol=1e-8), "fit:result",
                  "%r: a fit with pre-made spectra gives %s, convolving gives "
                  "%s" % (k, got[:4], want[:4]))


def changes(ctx, seq):
    """Directories of other contents, set in every order between fits."""
    k = {"globals": "shift", "layout": "1d", "fixed": 1, "floating": 1,
         "signal": True, "fine": 1, "sigma": .5, "stat": "BakerCousinsLL",
         "mode": "shape"}
    top = tempfile.mkdtemp(prefix="premade")
    try:
        dirs = [os.path.join(top, "one"), os.path.join(top, "two") + "/"]
        for d in dirs:
            os.mkdir(d)
        stubs.FILES.clear()
        b = setup(k)
        premake(k, b, dirs[0])
        premake(dict(k, globals="shift"), b, dirs[1], factor=1.5)
        f = base.make_fit(k, b, use_pre_made=True)
        now = None
        for n, i in enumerate(seq):
            if i < 2:
                f.set_pre_made_dir(dirs[i])
                now = i
            elif i == 2:
                ctx.check(lib.rejects(lambda: f.set_pre_made_dir(
                    os.path.join(top, "none"))), "dir:invalid",
                    "a directory that does not exist was accepted")
            elif now is not None:
                got = result(f)
                key = (now,)
                if key not in REF:
                    g = base.make_fit(k, setup(k), use_pre_made=True,
                                      pre_made_base_dir=dirs[now])
                    REF[key] = result(g)
                ctx.check(lib.close(got, REF[key], rtol=1e-8, atol=1e-8),
                          "dir:stale", "after %r the fit does not use the "
                          "spectra of the directory set last" % (seq[:n + 1],))
            ctx.step()
            ctx.state(seq[:n + 1])
    finally:
        shutil.rmtree(top)


REF = {}
