"""P21: the limit is the first signal scale, from the best-fit one upwards,
whose statistic rose above the requested value; otherwise LimitError. Every
threshold between the values of the scan is tried on every kind of fit."""
import itertools
import os
import re

import numpy as np

import c_fitstat as base
import lib
import stubs

PROPERTY = "P21"
BOUNDS = {
    "quick": "fixed only, floating rate, rate and shift, two rates; no, one "
             "and all penalties; whole, per-bin and counting fits; 3 "
             "statistics; 7 signal scans (with and without zero, single "
             "points, tiny ones); data with and without signal; supplied, zero or "
             "computed minimum: every threshold between two scanned values, "
             "asked twice, stored and not; all arrays of up to 4 of 7 values "
             "for limits from arrays",
    "thorough": "6 statistics, arrays of up to 5 values",
}
JOBS = {"quick": 8, "thorough": 8}
SCANS = [[0., 10., 25., 60., 150.], [.5, 15., 45., 160.], [40.], [0., 90.],
         [1e-9, 30., 60.], [0., 2., 4., 8., 16., 32., 64.],
         [0., 1e-4, 4e-4, 3e-3, .5]]
SETUPS = [(1, 0, "none"), (1, 1, "none"), (0, 1, "shift"), (2, 2, "none"),
          (0, 2, "shift-scale")]
ALPHA = [0., -1., 2.7, 2.71, 2.72, 5., float("nan")]


def cases(tier):
    stats = base.STATS if tier == "thorough" else [
        "BakerCousinsChi", "BakerCousinsLL", "Pearson"]
    for (nfix, nfl, g), lay, sigma, mode, stat, scan, excess in \
            itertools.product(SETUPS, ("1d-roi", "2d"), (None, .5),
                              ("whole", "bins", "count"), stats,
                              range(len(SCANS)), (0., 40.)):
        if mode == "bins" and stat == "BakerCousinsChiUp":
            continue
        if tier == "quick" and (lay == "2d") != (stat == "Pearson"):
            continue
        if nfl == 0 and sigma is not None:
            continue
        if tier == "quick" and scan not in {
                "whole": (0, 1, 2, 3, 4, 5, 6), "bins": (0, 2, 3),
                "count": (0, 4)}[mode]:
            continue
        if tier == "quick" and scan in (5, 6) and (nfl or not excess):
            continue
        if tier == "quick" and nfl == 2 and scan not in (0, 2, 4):
            continue
        yield {"layout": lay, "fixed": nfix, "floating": nfl, "globals": g,
               "signal": True, "fine": 1, "mode": mode, "stat": stat,
               "sigma": sigma, "scan": scan, "excess": excess}
    n = 5 if tier == "thorough" else 4
    for k in range(1, n + 1):
        for first in range(len(ALPHA)):
            yield {"array": k, "first": first}


def ingredients(c):
    b = base.build(c)
    sig = b["signal"]
    if c["excess"]:
        sig2 = base.build(c)["signal"]
        f = c["excess"] / sig2.get_num_decays()
        b["data"]._data += np.array(sig2.get_data()) * f
    sig.set_fit_config(base.rate_config("sig", SCANS[c["scan"]], None))
    for s in [b["data"], sig] + b["floating"] + [x for x, _ in b["fixed"]]:
        s.set_background_name(s.get_name())
    return b


def scan(c):
    """Raw statistic, penalties and best fits at every scale, each from a
    fit of its own."""
    out = []
    for s in [None] + SCANS[c["scan"]]:
        b = ingredients(c)
        sig = b["signal"]
        b["signal"] = None
        f = base.make_fit(c, b)
        if s is not None and s > 1e-6:
            f.set_signal(sig)
            sig.scale(s)
        r = f.fit()
        raw, pen = r if isinstance(r, tuple) else (r, 0.)
        fc = f.get_fit_config()
        pars = []
        if c["floating"]:
            best = np.sort(np.ravel(f.get_minimiser().get_stats()))
            if len(best) == 1 or best[1] - best[0] > 1e-7:
                pars = [(n, fc.get_par(n).get_best_fit(),
                         fc.get_par(n).get_penalty_term())
                        for n in fc.get_pars()]
        grid = np.array(f.get_minimiser().get_raw_stats()) \
            if c["floating"] else None
        out.append((np.array(raw, dtype=float), float(pen), pars, grid))
    return out


def limiter(c):
    from echidna.limit.limit import Limit
    b = ingredients(c)
    sig = b["signal"]
    b["signal"] = None
    f = base.make_fit(c, b)
    return Limit(sig, f), b, f


def other_signal(c, fitter):
    """A limit for another signal is prepared with the same fitter."""
    from echidna.limit.limit import Limit
    sig = ingredients(c)["signal"]
    sig._name = "other_mc"
    sig._data = 1. + 3. * np.array(sig.get_data())[::-1]
    Limit(sig, fitter)


def run_case(ctx, c):
    if "array" in c:
        return arrays(ctx, c["array"], c["first"])
    from echidna.errors.custom_errors import LimitError
    from echidna import output
    from echidna.output import store
    table = scan(c)
    scales = SCANS[c["scan"]]
    zero = table[0][0]
    mins = [None, 0., 3.25]
    if c["mode"] == "bins":
        mins[1:] = [np.zeros(zero.shape), zero * .5]
    lim, b, fitter = limiter(c)
    for given in mins:
        base_stat = zero if given is None else given
        delta = [float(np.sum(t[0] - base_stat)) for t in table[1:]]
        full = [d + t[1] for d, t in zip(delta, table[1:])]
        ordered = sorted(set(full))
        cuts = [ordered[0] - 1., ordered[-1] + 1.] + [
            .5 * (x + y) for x, y in zip(ordered, ordered[1:])
            if y - x > 1e-6 * (1 + abs(x))]
        ambiguous = np.argmin(delta) != np.argmin(full) or \
            np.ptp(sorted(delta)[:2]) < 1e-7
        if ambiguous and len(delta) > 1:
            ctx.note("skipped: best-fit scale depends on the penalty")
            continue
        k = int(np.argmin(full))
        for n, cut in enumerate(sorted(cuts)):
            want = [s for s, v in zip(scales[k:], full[k:]) if v > cut]
            want = want[0] if want else None
            keep = n % 2 == 0
            name = "v1.5 limit_%d" % n
            # the file name with its ending, or left to the limit
            form = [name, name + ".hdf5", None][n // 2 % 3]
            default = stubs.norm(os.path.join(
                output.__default_save_path__,
                lim._limit_results.get_name() + "_"))
            for f in [f for f in stubs.FILES if f.startswith(default)]:
                del stubs.FILES[f]
            for again in range(2 if n < 2 or ctx.tier == "thorough" else 1):
                if again == 1:
                    other_signal(c, fitter)
                try:
                    got = lim.get_limit(
                        limit=cut, min_stat=given, store_limit=keep,
                        store_fits=again == 1 or n == 2, limit_fname=form,
                        store_spectra=again == 1 and n < 2)
                except LimitError as e:
                    got = None
                    m = re.search(r"Limit: ([-+.e0-9]+)$", str(e))
                    ctx.check(not m or lib.near(float(m.group(1)), cut, 1.,
                                                1e-6), "message",
                              "limit %r, but error says %s" % (cut, e))
                ctx.step()
                ctx.state((repr(c), repr(given), n))
                if (got is None) != (want is None) or (
                        got is not None and not lib.near(got, want)):
                    ctx.fail("limit:%s" % c["mode"], "limit at %r is %r, "
                             "expected %r from %r over %r" % (
                                 cut, got, want, full, scales))
                    return
                results(ctx, c, lim._limit_results, table, delta, full,
                        base_stat, again == 1 or n == 2)
                if again == 1 and n < 2:
                    spectra(ctx, b, got is not None, name)
            if keep:
                files = [f for f in stubs.FILES if (
                    f.startswith(default) and f.endswith(".hdf5")
                    if form is None else f == stubs.norm(name + ".hdf5"))]
                if not ctx.check(len(files) > 0, "stored", "the limit asked "
                                 "with limit_fname=%r is in no file" % form):
                    continue
                r = store.load_limit_results(sorted(files)[-1])
                ctx.check(lib.close(r.get_full_stats(), full, rtol=1e-7,
                                    atol=1e-8), "stored",
                          "stored statistics %r, expected %r" % (
                              r.get_full_stats(), full))
        if c["mode"] != "bins" and given == 0. and not exactly(
                ctx, c, lim, scales, k):
            return
    if c["floating"] and c["mode"] == "bins":
        return            # an array of (array, penalty) pairs
    got = lim.get_statistics()
    ctx.step()
    for i, t in enumerate(table[1:]):
        g = got[i]
        want = [float(t[0]), t[1]] if c["floating"] else np.ravel(t[0])
        ok = lib.close(np.ravel(g), want, rtol=1e-7, atol=1e-8)
        ctx.check(ok, "statistics", "get_statistics()[%d] is %r, expected %r"
                  % (i, g, t[:2]))


def exactly(ctx, c, lim, scales, k):
    """A limit just reached is not exceeded."""
    from echidna.errors.custom_errors import LimitError
    recorded = lim._limit_results.get_full_stats()
    for cut in sorted(set(float(x) for x in recorded[k:]))[-2:]:
        try:
            got = lim.get_limit(limit=cut, min_stat=0., store_limit=False)
        except LimitError:
            got = None
        now = lim._limit_results.get_full_stats()
        ctx.step()
        if cut not in now[k:] or np.argmin(now) != k:
            continue            # rounded differently
        want = [s for s, v in zip(scales[k:], now[k:]) if v > cut]
        if not ctx.check(got == (want[0] if want else None), "limit:reached",
                         "the limit at %r is %r, the statistics are %r over "
                         "%r" % (cut, got, now, scales)):
            return False
    return True


def spectra(ctx, b, found, name):
    from echidna import output
    from echidna.output import store
    path = output.__default_save_path__ + "/"
    for s, group, fname in [(b["data"], "data", "data_data")] + [
            (s, s.get_name(), s.get_name() + "_float")
            for s in b["floating"]]:
        got = store.load(path + fname + ".hdf5" if found else name + ".hdf5",
                         group_name=group)
        d = lib.same(lib.snap(s), lib.snap(got))
        ctx.check(d is None, "spectra", "spectrum %s saved with the limit "
                  "differs: %s" % (s.get_name(), d))


def results(ctx, c, r, table, delta, full, base_stat, fits):
    ok = lib.close([np.sum(x) for x in r.get_stats()], delta, rtol=1e-7,
                   atol=1e-8) and \
        lib.close(r.get_full_stats(), full, rtol=1e-7, atol=1e-8) and \
        lib.close(r.get_scales(), SCANS[c["scan"]])
    for i, t in enumerate(table[1:]):
        ok = ok and lib.close(r.get_limit_stat(i), t[0] - base_stat,
                              rtol=1e-7, atol=1e-8) and \
            abs(r.get_full_stat(i) - full[i]) < 1e-8 * (1 + abs(full[i]))
        for n, best, pen in t[2]:
            if not (lib.near(r.get_best_fit(i, n), best, 1.) and
                    lib.near(r.get_penalty_term(i, n), pen, 1.) and
                    lib.near(r.get_best_fits(n)[i], best, 1.) and
                    lib.near(r.get_penalty_terms(n)[i], pen, 1.)):
                ctx.fail("results:parameter", "recorded %r +- %r for %s at "
                         "scale %d, expected %r, %r" % (
                             r.get_best_fit(i, n), r.get_penalty_term(i, n),
                             n, i, best, pen))
                return
        if fits and t[3] is not None:
            stored = r._fit_results[i]
            ctx.check(stored is not None and lib.close(
                stored.get_raw_stats(), t[3], rtol=1e-7, atol=1e-8),
                "results:fit", "the fit stored for scale %d has statistics "
                "%r, a fit at that scale has %r" % (
                    i, None if stored is None else np.ravel(
                        stored.get_raw_stats()).tolist(),
                    np.ravel(t[3]).tolist()))
    ctx.check(ok, "results:stats", "recorded statistics %r, expected %r" % (
        r.get_full_stats(), full))


def arrays(ctx, n, first):
    from echidna.errors.custom_errors import (CompatibilityError, LimitError)
    c = {"layout": "1d", "fixed": 1, "floating": 0, "globals": "none",
         "signal": True, "fine": 1, "mode": "whole", "stat": "Pearson",
         "sigma": None, "scan": 0, "excess": 0.}
    scales = [3. * (i + 1) for i in range(n)]
    b = base.build(c)
    sig = b["signal"]
    sig.set_fit_config(base.rate_config("sig", scales, None))
    b["signal"] = None
    from echidna.limit.limit import Limit
    lim = Limit(sig, base.make_fit(c, b))
    for rest in itertools.product(ALPHA, repeat=n - 1):
        vals = (ALPHA[first],) + rest
        kinds = [np.array(vals)]
        if n < 4:
            kinds.append(np.array([[v, 0.] for v in vals]))
            kinds.append(np.array([[v - 1., .5, .5] for v in vals]))
            kinds.append(np.array([[[0., .5, .25], [v - 1., 0., .25]]
                                   for v in vals]))
        if all(v == int(v) for v in vals if v == v) and \
                all(v == v for v in vals):
            kinds.append(np.array(vals, dtype=int))
        for a in kinds:
            for cut in (None, 2.71, 0., -2., 4.):
                x = 2.71 if cut is None else cut
                want = None
                for s, e in zip(scales, a):
                    if np.sum(e) > x:
                        want = s
                        break
                keep = a.copy()
                ctx.step()
                ctx.state((a.tobytes(), a.shape, cut))
                try:
                    got = lim.get_array_limit(a) if cut is None else \
                        lim.get_array_limit(a, cut)
                except LimitError:
                    got = None
                if got != want:
                    ctx.fail("array", "limit at %r from %r is %r, expected %r"
                             % (x, a.tolist(), got, want))
                ctx.check(np.array_equal(a, keep, equal_nan=True),
                          "array-input", "input array changed")
        for bad in (vals[:-1], vals + (9.,)):
            try:
                if bad:
                    lim.get_array_limit(np.array(bad))
                    ctx.fail("array-length", "array of %d values for %d "
                             "scales accepted" % (len(bad), n))
            except CompatibilityError:
                pass
