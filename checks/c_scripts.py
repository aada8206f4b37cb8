"""P28: every script that turns stored spectra or event files into stored
spectra writes one file, where its documentation says, holding what the library
makes of its inputs. Every combination of arguments of an alphabet, and every
short pipeline of scripts against the same operations in memory."""
import contextlib
import itertools
import logging
import os
import shutil
import sys
import tempfile
import types

import numpy as np

import c_fromfile as events
import core
import lib
import py2rt
import stubs

PROPERTY = "P28"
BOUNDS = {
    "quick": "10 scripts x every combination of their arguments (6 layouts, 6 "
             "forms of path, 3 to 12 values, destinations, options, missing "
             "and wrong arguments); every pipeline of 2 of 11 script calls; "
             "event scripts x 4 configurations x 7 cuts x 4 sets of files",
    "thorough": "pipelines of 4 script calls",
}
JOBS = {"quick": 8, "thorough": 8}

LAYOUTS = [[("energy_mc", 0.5, 4.5, 8)],
           [("energy_mc", 0., 4., 8), ("radial_mc", 0., 600., 4)],
           [("radial_mc", 0., 600., 4), ("energy_reco", 0.5, 4.5, 8)],
           [("zradial3_reco", -1., 1., 4)],
           [("energy_mc", 0., 4., 4), ("energy_reco", 1., 4., 3)],
           [("energy_truth", 0., 4., 4), ("radial_reco", 0., 600., 4),
            ("radial3_mc", 0., 1., 2)]]
PATHS = ["/d/te_mc.hdf5", "te_mc.hdf5", "rel/dir/te.x.hdf5", "./te.hdf5",
         "/v1.2/run.d/a_200ly.hdf5", "/top.hdf5"]


def repo():
    return os.environ.get("ECHIDNA_REPO") or "/repo"


@contextlib.contextmanager
def source():
    """Random numbers that are the same every time."""
    kick = itertools.cycle((0.3, -1.1, 0., 0.9, -0.4, 1.7, -2.2))
    old = np.random.normal, np.random.poisson
    np.random.normal = lambda m=0., s=1., size=None: m + s * next(kick)
    np.random.poisson = lambda m=1., size=None: \
        max(0, int(m + m ** .5 * next(kick) + .5))
    try:
        yield
    finally:
        np.random.normal, np.random.poisson = old


def run(script, argv):
    """True if the script came to its end."""
    from echidna import utilities
    log = logging.getLogger("scripts-under-check")
    log.addHandler(logging.NullHandler())
    log.propagate = False
    old = utilities.start_logging
    utilities.start_logging = lambda *a, **k: log
    try:
        with core.quiet(), source():
            py2rt.run_script(os.path.join(repo(), "echidna", "scripts",
                                          script + ".py"),
                             [str(a) for a in argv])
        return True
    except SystemExit as e:
        return e.code in (None, 0)
    except Exception:
        return False
    finally:
        utilities.start_logging = old


def put(path, layout, k=1, name="te_mc"):
    from echidna.output import store
    axes = LAYOUTS[layout]
    shape = [a[3] for a in axes]
    idx = np.indices(shape)
    d = 1. + sum(((k + 2 * i) * (x + 1)) % (5 + i) for i, x in enumerate(idx))
    s = lib.make_spec(axes, data=d, num_decays=100. + k, name=name)
    s._raw_events = 17 + k
    s._bipo = k % 2
    s.set_style({"color": "red", "lw": k})
    s.set_background_name("background_%d" % k)
    s._rois[axes[0][0]] = {"low": axes[0][1], "high": axes[0][2],
                           "efficiency": .5}
    with core.quiet():
        store.dump(path, s)


def get(path):
    from echidna.output import store
    with core.quiet():
        return store.load(path)


def stem(path):
    return path[:-len(".hdf5")]


def beside(path, suffix, dest=None):
    if dest is not None:
        return os.path.join(dest, os.path.basename(stem(path)) + suffix)
    return stem(path) + suffix


# ------------------------------------------------- what the scripts stand for
def op_scale(s, par, v):
    from echidna.core import scale
    x = scale.Scale()
    x.set_scale_factor(v)
    return x.scale(s, par)


def op_shift(s, par, v):
    from echidna.core import shift
    x = shift.Shift()
    x.set_shift(v)
    return x.shift(s, par)


def op_shrink(s, pars, low, up):
    kw = {}
    for i, p in enumerate(pars):
        if low is not None:
            kw[p + "_low"] = low[i]
        if up is not None:
            kw[p + "_high"] = up[i]
    s.shrink(**kw)
    return s


def op_rebin(s, bins):
    s.rebin(bins)
    return s


def op_smear(s, res, method, ly=None, poisson=None, radial=True):
    from echidna.core import smear
    kw = {} if poisson is None else {"poisson": poisson}
    if res is not None:
        e = smear.EnergySmearRes(**kw)
        e.set_resolution(res)
    else:
        e = smear.EnergySmearLY(**kw)
        if ly is not None:
            e.set_resolution(ly)
    r = smear.RadialSmear()
    with source():
        return smear_each(s, e, r, method, radial)


def smear_each(s, e, r, method, radial):
    for p in list(s.get_config().get_pars()):
        for dim, x in (("energy", e), ("radial", r)):
            if dim in p and (dim == "energy" or radial):
                s = (x.weighted_smear if method == "weight" else
                     x.random_smear)(s, par=p)
                break
    return s


def number(v):
    t = str(v)
    return t[:-2] if t.endswith(".0") else t


# ------------------------------------------------------------------- cases
def cases(tier):
    for lay, p in itertools.product(range(len(LAYOUTS)), range(len(PATHS))):
        for kind in ("scaled", "shifted", "shrink", "rebin", "smeared",
                     "smeared_energy", "combine"):
            yield {"script": kind, "layout": lay, "path": p}
    n = 4 if tier == "thorough" else 2
    for m in range(2, n + 1):
        for seq in itertools.product(range(len(STEPS)), repeat=m - 1):
            yield {"pipeline": seq}
    yield {"refused": True}
    for kind in ("ntuple", "root", "multi"):
        for cfg in range(len(CFGS)):
            yield {"events": kind, "config": cfg}


def run_case(ctx, c):
    for d in (stubs.FILES, stubs.CHAINS, stubs.READERS):
        d.clear()
    if "script" in c:
        SCRIPTS[c["script"]](ctx, c["layout"], PATHS[c["path"]])
    elif "pipeline" in c:
        pipeline(ctx, c["pipeline"])
    elif "refused" in c:
        refused(ctx)
    else:
        from_events(ctx, c["events"], CFGS[c["config"]])
    for d in (stubs.FILES, stubs.CHAINS, stubs.READERS):
        d.clear()


def expect(ctx, script, argv, ins, out, make):
    """Run the script: of the files in memory only `out` may be new or
    changed, holding what make() gives; if make() refuses, none is."""
    stubs.FILES.pop(stubs.norm(out), None)
    before = {p: lib.snap(get(p)) for p in ins}
    files = set(stubs.FILES)
    what = "%s.py %s" % (script, " ".join(str(a) for a in argv))
    stale = sum(map(ord, what)) % 3 == 0
    if stale:  # there is a file from an earlier run
        put(out, 0, 9, "stale")
    try:
        with core.quiet():
            want = make()
    except Exception as e:
        want, why = None, e
    done = run(script, argv)
    ctx.step()
    ctx.state(what)
    new = set(stubs.FILES) - files
    if stale and stubs.norm(out) in new and get(out).get_name() == "stale":
        new.remove(stubs.norm(out))
    if want is None:
        ctx.check(not new, script + ":refused", "%s wrote %s although %s"
                  % (what, sorted(new), why))
        return False
    if not ctx.check(new == {stubs.norm(out)}, script + ":path",
                     "%s (%s) wrote %s instead of %s" % (
                         what, "finished" if done else "failed", sorted(new),
                         stubs.norm(out))):
        return False
    for p in ins:
        d = lib.same(before[p], lib.snap(get(p)))
        ctx.check(d is None, script + ":input", "%s changed the %s of its "
                  "input" % (what, d))
    got = get(out)
    return compare(ctx, script, what, got, want)


def compare(ctx, script, what, got, want):
    ok = ctx.check(lib.axes_of(got) == lib.axes_of(want), script + ":axes",
                   "%s: axes %s instead of %s" % (what, lib.axes_of(got),
                                                  lib.axes_of(want)))
    ok = ok and ctx.check(
        lib.close(got.get_data(), want.get_data()), script + ":contents",
        "%s: the contents are not those of the operation" % what)
    ctx.check(got.get_num_decays() == want.get_num_decays(),
              script + ":decays", "%s: %r decays instead of %r" % (
                  what, got.get_num_decays(), want.get_num_decays()))
    ctx.check(got.get_name() == want.get_name(), script + ":name",
              "%s: the spectrum is called %r instead of %r" % (
                  what, got.get_name(), want.get_name()))
    a, b = lib.snap(want), lib.snap(got)
    for k in ("raw_events", "bipo", "style", "background_name", "rois"):
        ctx.check(repr(a[k]) == repr(b[k]), script + ":" + k, "%s: %s is %r "
                  "instead of %r" % (what, k, b[k], a[k]))
    return ok


def scaled(ctx, lay, path):
    put(path, lay)
    top = tempfile.mkdtemp(prefix="scripts")
    try:
        for par, v, dest in itertools.product(
                [a[0] for a in LAYOUTS[lay]] + ["other_mc"],
                (1.1, 0.9, 2., 1, 0.05, 10, -1., 0),
                (None, top, top + "/", top + "/none")):
            out = beside(path, "_%ssc.hdf5" % number(float(v)),
                         dest)

            def make():
                if v <= 0 or dest == top + "/none":
                    raise ValueError("that is not valid")
                return op_scale(get(path), par, float(v))
            argv = ["-p", par, "-f", path, "-s", v]
            expect(ctx, "dump_scaled", argv + (["-d", dest] if dest else []),
                   [path], out, make)
    finally:
        shutil.rmtree(top)


def shifted(ctx, lay, path):
    put(path, lay)
    for par, v in itertools.product(
            [a[0] for a in LAYOUTS[lay]] + ["other_mc"],
            (0.1, -0.5, 0.25, 0, 150., -300.)):
        expect(ctx, "dump_shifted", ["-d", par, "-f", path, "-s", v], [path],
               beside(path, "_shifted.hdf5"),
               lambda: op_shift(get(path), par, float(v)))


def shrink(ctx, lay, path):
    put(path, lay)
    axes = LAYOUTS[lay]

    def at(a, i):
        return a[1] + (a[2] - a[1]) / a[3] * i
    for n in range(1, len(axes) + 1):
        for sub in itertools.permutations(axes, n):
            pars = [a[0] for a in sub]
            low, up = [at(a, 1) for a in sub], [at(a, a[3] - 1) for a in sub]
            mid = [at(a, a[3] // 2) for a in sub]
            for lo, hi in ((low, up), (low, None), (None, up),
                           ([a[1] for a in sub], up), (low, low),
                           (mid, None), (None, mid), (low, mid),
                           (low[1:], up), (low, up + up), (up, low)):
                if hi == [] or lo == []:
                    continue
                for dest in (None, "/out/x.hdf5", "here.hdf5"):
                    argv = ["-i", path, "-p"] + pars
                    if dest:
                        argv += ["-o", dest]
                    if lo:
                        argv += ["-l"] + lo
                    if hi:
                        argv += ["-u"] + hi

                    def make():
                        if any(x is not None and len(x) != len(pars)
                               for x in (lo, hi)):
                            raise ValueError("the numbers of bounds differ")
                        return op_shrink(get(path), pars, lo, hi)
                    expect(ctx, "dump_shrink", argv, [path], dest or
                           beside(path, "_shrunk.hdf5"), make)


def rebin(ctx, lay, path):
    put(path, lay)
    axes = LAYOUTS[lay]
    sizes = [[b for b in range(1, a[3] + 1) if a[3] % b == 0] + [3]
             for a in axes]
    for bins in list(itertools.product(*sizes))[:40] + [(2,) * 4]:
        for dest in (None, "/out/x.hdf5", "here.hdf5"):
            argv = ["-i", path, "-b"] + list(bins)
            expect(ctx, "rebin", argv + (["-o", dest] if dest else []),
                   [path], dest or beside(path, "_rebin.hdf5"),
                   lambda: op_rebin(get(path), list(bins)))


def smeared(ctx, lay, path):
    put(path, lay)
    for m, r in itertools.product((None, "weight", "random", "", "best"),
                                  (None, 0.05, 0.2)):
        argv = ([] if m is None else ["-m", m] if m else ["-m"]) + \
            ([] if r is None else ["-r", r]) + \
            (["--", path] if m == "" else [path])

        def make():
            if m == "best":
                raise ValueError("there is no such method")
            return op_smear(get(path), r, m or "weight")
        if lay == 5 and m == "random":
            continue    # slow, and no other path through the script
        expect(ctx, "dump_smeared", argv, [path],
               beside(path, "_smeared.hdf5"), make)


def smeared_energy(ctx, lay, path):
    put(path, lay)
    top = tempfile.mkdtemp(prefix="scripts")
    try:
        for m, (r, ly), g, dest in itertools.product(
                (None, "random", "best"),
                ((None, None), (0.05, None), (0.25, 150.), (1, None),
                 (None, 150), (None, 187.5)), (False, True),
                (None, top, top + "/", top + "/none")):
            if m and (dest or (r or 0) > .5):
                continue
            argv = ([] if m is None else ["-m", m]) + \
                ([] if r is None else ["-r", r]) + \
                ([] if ly is None else ["-l", ly]) + \
                (["-g"] if g else []) + (["-d", dest] if dest else []) + [path]

            def make():
                if m == "best" or dest == top + "/none":
                    raise ValueError("that is not valid")
                return op_smear(get(path), r, m or "weight", ly or 200.,
                                not g, False)
            name = "_%srs.hdf5" % number(float(r)) if r else \
                "_%sly.hdf5" % number(float(ly or 200.))
            expect(ctx, "dump_smeared_energy", argv, [path],
                   beside(path, name, dest), make)
    finally:
        shutil.rmtree(top)


def combine(ctx, lay, path):
    names = [path, beside(path, "_b.hdf5"), "/other/c.hdf5"]
    for i, p in enumerate(names):
        put(p, lay, i + 1)
    put("/wrong/d.hdf5", (lay + 1) % len(LAYOUTS), 5)
    for n in range(1, 4):
        for files in itertools.product(names + ["/wrong/d.hdf5"], repeat=n):
            def make():
                if len(files) < 2:
                    raise ValueError("there is one file only")
                s = get(files[0])
                for f in files[1:]:
                    s.add(get(f))
                return s
            expect(ctx, "combine_hdf5", ["-f"] + list(files),
                   sorted(set(files)), "combined.hdf5", make)


SCRIPTS = {"scaled": scaled, "shifted": shifted, "shrink": shrink,
           "rebin": rebin, "smeared": smeared,
           "smeared_energy": smeared_energy, "combine": combine}

# ------------------------------------------------------------ pipelines
P = "energy_mc"
STEPS = [
    ("dump_scaled", lambda f: ["-p", P, "-f", f, "-s", 1.1], "_1.1sc.hdf5",
     lambda s: op_scale(s, P, 1.1)),
    ("dump_scaled", lambda f: ["-p", P, "-f", f, "-s", 0.8], "_0.8sc.hdf5",
     lambda s: op_scale(s, P, 0.8)),
    ("dump_shifted", lambda f: ["-d", P, "-f", f, "-s", 0.5],
     "_shifted.hdf5", lambda s: op_shift(s, P, 0.5)),
    ("dump_shifted", lambda f: ["-d", "radial_mc", "-f", f, "-s", -50.],
     "_shifted.hdf5", lambda s: op_shift(s, "radial_mc", -50.)),
    ("dump_shrink", lambda f: ["-i", f, "-p", P, "-l", 1., "-u", 3.],
     "_shrunk.hdf5", lambda s: op_shrink(s, [P], [1.], [3.])),
    ("dump_shrink", lambda f: ["-i", f, "-p", "radial_mc", P, "-u", 300., 3.],
     "_shrunk.hdf5", lambda s: op_shrink(s, ["radial_mc", P], None,
                                         [300., 3.])),
    ("rebin", lambda f: ["-i", f, "-b", 4, 2], "_rebin.hdf5",
     lambda s: op_rebin(s, [4, 2])),
    ("rebin", lambda f: ["-i", f, "-b", 2, 2], "_rebin.hdf5",
     lambda s: op_rebin(s, [2, 2])),
    ("dump_smeared", lambda f: ["-r", 0.1, f], "_smeared.hdf5",
     lambda s: op_smear(s, 0.1, "weight")),
    ("dump_smeared_energy", lambda f: ["-l", 150, "-g", f], "_150ly.hdf5",
     lambda s: op_smear(s, None, "weight", 150., False, False)),
    ("combine_hdf5", lambda f: ["-f", f, f], None,
     lambda s: add_self(s))]


def add_self(s):
    import copy
    s.add(copy.copy(s))
    return s


def pipeline(ctx, seq):
    for last in range(len(STEPS)):
        for d in (stubs.FILES,):
            d.clear()
        path = "/d/te.hdf5"
        put(path, 1)
        model = get(path)
        for i in tuple(seq) + (last,):
            script, argv, suffix, op = STEPS[i]
            if stubs.norm(path) not in stubs.FILES:
                break
            out = "combined.hdf5" if suffix is None else beside(path, suffix)
            if suffix is None and path == out:
                break           # writes its own input
            import copy
            start = copy.copy(model)
            ok = expect(ctx, script, argv(path), [path], out,
                        lambda: op(copy.copy(start)))
            if not ok:
                break
            model = op(start)
            path = out


def refused(ctx):
    """Without the arguments that are needed nothing is written."""
    path = "/d/te.hdf5"
    for script, args in [
            ("dump_scaled", [("-p", P), ("-s", 1.1), ("-f", path)]),
            ("dump_shifted", [("-d", P), ("-s", .5), ("-f", path)]),
            ("dump_shrink", [("-i", path), ("-p", P), ("-l", 1.)]),
            ("rebin", [("-i", path), ("-b", 4, 2)]),
            ("dump_smeared", [(path,)]), ("dump_smeared_energy", [(path,)]),
            ("combine_hdf5", [("-f", path, path)])]:
        for n in range(len(args)):
            for sub in itertools.combinations(args, n):
                for src in (path, "/d/none.hdf5"):
                    stubs.FILES.clear()
                    put(path, 1)
                    argv = [src if a == path else a for x in sub for a in x]
                    run(script, argv)
                    ctx.step()
                    ctx.check(set(stubs.FILES) == {path}, script + ":missing",
                              "%s.py %s wrote %s" % (script, argv, sorted(
                                  set(stubs.FILES) - {path})))
        full = ["/d/none.hdf5" if a == path else a for x in args for a in x]
        stubs.FILES.clear()
        run(script, full)
        ctx.check(not stubs.FILES, script + ":nofile", "%s.py %s wrote %s "
                  "without an input" % (script, full, sorted(stubs.FILES)))


# --------------------------------------------------------- event scripts
CFGS = [["energy_mc"], ["energy_reco", "radial3_reco"],
        ["radial_mc", "energy_truth"], ["radial3_mc"]]
CUTS = [{}, {"fv_radius": 4.7}, {"outer_radius": 6.}, {"bipo": True},
        {"fv_radius": 4.7, "outer_radius": 6.},
        {"fv_radius": 3., "outer_radius": 6.},
        {"bipo": True, "fv_radius": 4.7, "outer_radius": 4.}]
# among them rows of events that triggered again
ROWS = list(events.NT)
ROWS.insert(1, events.row(1, 1, 1, 1, 1, 0, 0, ev=1))
ROWS.insert(4, events.row(1, 1, 0, 0, 0, 1, 0, ev=-1))
ROWS.insert(6, events.row(1, 1, 0, 0, 0, 1, 1, ev=1))


def options(cut):
    argv = []
    if "fv_radius" in cut:
        argv += ["-v", cut["fv_radius"]]
    if "outer_radius" in cut:
        argv += ["-o", cut["outer_radius"]]
    return argv + (["--bipo"] if cut.get("bipo") else [])


def from_events(ctx, kind, names):
    top = tempfile.mkdtemp(prefix="scripts")
    here = os.getcwd()
    try:
        cfg = os.path.join(top, "cfg.yml")
        with open(cfg, "w") as f:
            f.write("parameters:\n" + "".join(
                "    %s:\n        low: %r\n        high: %r\n        bins: "
                "%d\n" % ((n,) + events.AXES[n]) for n in names))
        os.mkdir(os.path.join(top, "out"))
        os.chdir(top)
        rows = [ROWS[i:] + ROWS[:i] for i in range(4)]
        ents = [events.RT[i:] + events.RT[:2 * i] for i in range(4)]
        for cut in CUTS:
            if kind == "multi":
                multi(ctx, names, cfg, cut, top, rows)
            else:
                single(ctx, kind, names, cfg, cut, top,
                       ents if kind == "root" else rows)
    finally:
        os.chdir(here)
        shutil.rmtree(top)


def wrong(names, cut):
    return "outer_radius" in cut and not any(n.startswith("radial3_")
                                             for n in names)


def fills(kind, names, files, cut):
    m = events.Model(names)
    for f in files:
        m.add(events.model_fills(kind, names, f, cut))
    return m


def single(ctx, kind, names, cfg, cut, top, files):
    script = "dump_spectra_" + kind
    for save, listed, nl in itertools.product(
            (None, "out", "out/"), (0, 1, 2, 3), ("\n", "\n\n", "\n ")):
        if nl != "\n" and listed < 2:
            continue
        stubs.FILES.clear()
        paths = ["/data/a_mc.%s.root" % kind, "rel/b_mc.root", "c_reco.root"]
        for p, f in zip(paths, files):
            events.put(kind, stubs.norm(p), f)
        argv = ["-c", cfg] + options(cut)
        if save:
            argv += ["-s", save]
        if listed:
            txt = os.path.join(top, "list.txt")
            with open(txt, "w") as f:
                f.write(nl.strip(" ").join([p + "\tof\trun 2" * (i == 1) for i, p in
                                 enumerate(paths[:listed])]) +
                        "\n" * (" " not in nl))
            argv += ["-r", txt]
        else:
            argv += ["-f", paths[0]]
        run(script, argv)
        ctx.step()
        what = "%s.py %s (%d files)" % (script, " ".join(map(str, argv)),
                                        listed or 1)
        ctx.state((kind, tuple(names), str(cut), save, listed))
        used = [] if wrong(names, cut) else list(zip(paths, files))[
            :listed or 1]
        outs = [stubs.norm(os.path.join(save or ".", os.path.basename(p)) +
                           ".hdf5") for p, _ in used]
        if not ctx.check(set(stubs.FILES) == set(outs), script + ":path",
                         "%s wrote %s instead of %s" % (
                             what, sorted(stubs.FILES), sorted(outs))):
            continue
        for (p, f), out in zip(used, outs):
            name = os.path.basename(p)
            check_filled(ctx, script, "%s, %s" % (what, p), get(out),
                         name + "_mc" if kind == "ntuple" else name,
                         fills(kind, names, [f], cut), len(f), cut)


def check_filled(ctx, script, what, s, name, model, n, cut):
    ctx.check(s.get_name() == name, script + ":name", "%s: called %r instead "
              "of %r" % (what, s.get_name(), name))
    events.verdict(ctx, s, model, n, cut.get("bipo"), what, script)


def multi(ctx, names, cfg, cut, top, files):
    script = "multi_ntuple_spectrum"
    for count, name, save, slash in itertools.product(
            (1, 2, 4), (None, "te_mc"), (None, "out", "out/", "./"),
            ("", "/")):
        stubs.FILES.clear()
        stubs.CHAINS.clear()
        data = os.path.join(top, "bi214_mc")
        os.mkdir(data)
        try:
            for i in range(count):
                p = os.path.join(data, "n%d.root" % i)
                open(p, "w").close()
                events.put("ntuple", stubs.norm(p), files[i])
            argv = ["-c", cfg, "-p", data + slash] + options(cut)
            if name:
                argv += ["-n", name]
            if save:
                argv += ["-s", save]
            run(script, argv)
        finally:
            shutil.rmtree(data)
        ctx.step()
        ctx.state((script, tuple(names), str(cut), count, name, save, slash))
        what = "%s.py %s (%d files)" % (script, " ".join(map(str, argv)),
                                        count)
        want = set() if wrong(names, cut) else {stubs.norm(os.path.join(
            save or ".", (name or "bi214_mc") + ".hdf5"))}
        if ctx.check(set(stubs.FILES) == want, script + ":path",
                     "%s wrote %s instead of %s" % (
                         what, sorted(stubs.FILES), sorted(want))) and want:
            check_filled(ctx, script, what, get(want.pop()),
                         name or "bi214_mc",
                         fills("ntuple", names, files[:count], cut),
                         sum(len(f) for f in files[:count]), cut)
