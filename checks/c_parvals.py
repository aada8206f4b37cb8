"""P18: fit parameter grids: number, ends, spacing, prior; look-ups; and after
any sequence of settings the grid is that of a new parameter so set up."""
import itertools
import math

import numpy as np

import lib

PROPERTY = "P18"
BOUNDS = {
    "quick": "3 scales x 10 (low, high) ranges x 5 prior positions x 15 bin "
             "counts, every value of every grid looked up; all sequences of "
             "3 settings out of 13 (valid and invalid), grid read in between "
             "or not",
    "thorough": "45 bin counts up to 1001, sequences of 4",
}
JOBS = {"quick": 8, "thorough": 8}
RANGES = [(1., 3.), (0.5, 0.6), (1., 1001.), (2.4e-9, 7.9e-9), (1e5, 1e6),
          (0.9, 1.1), (-2., 3.), (0., 10.), (-5., -1.), (100., 100.001)]
BINS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 25, 50, 101]
OPS = [("bins", 4), ("bins", 7.), ("low", 0.5), ("low", 1.5), ("high", 4.),
       ("high", 3), ("prior", 2.5), ("prior", 2), ("sigma", None),
       ("sigma", 0.25), ("logscale", True), ("logscale_deviation", True),
       ("logscale", False), ("nonsense", 3.)]
BAD = [{"low": 9., "bins": "abc", "high": 12.}, {"bins": 9, "prior": "abc"},
       {"prior": 2.5, "sigma": 0.7, "low": "abc"},
       {"sigma": 0.9, "logscale": True, "base": "abc"}]


def cases(tier):
    more = [13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 27, 28, 29,
            30, 49, 51, 63, 64, 65, 99, 100, 127, 199, 200, 201, 501, 1001]
    for rng in RANGES:
        for k in range(5):
            for n in BINS + (more if tier == "thorough" else []):
                yield {"range": rng, "prior": k, "bins": n}
    n = 4 if tier == "thorough" else 3
    for r in range(1, n + 1):
        for seq in itertools.product(range(len(OPS)), repeat=r):
            yield {"ops": seq}
    yield {"getters": 1}


def make(low, high, prior, bins, sigma=None, **flags):
    from echidna.core.parameter import RateParameter
    return RateParameter("par", prior, sigma, low, high, bins, **flags)


def run_case(ctx, c):
    ctx.state(repr(c))
    if "ops" in c:
        return history(ctx, c["ops"])
    if "getters" in c:
        return getters(ctx)
    low, high = c["range"]
    f = [0.5, 0.25, 0.01, 0., 1.][c["prior"]]
    prior = low + f * (high - low)
    if f == 1.:
        prior = high
    for scale in ("linear", "logscale", "logscale_deviation"):
        if scale == "logscale" and low <= 0.:
            continue
        if scale == "logscale_deviation" and high - low < 1e-6:
            continue     # 1 + deviation is not representable
        p = make(low, high, prior, c["bins"], **(
            {scale: True} if scale != "linear" else {}))
        v = np.array(p.get_values())
        ctx.step()
        grid(ctx, scale, p, v, low, high, prior, c["bins"])
        # whatever the base of the logarithms
        for base in (2., 10) if scale == "logscale" else ():
            p = make(low, high, prior, c["bins"], logscale=True, base=base)
            ctx.step()
            grid(ctx, scale, p, np.array(p.get_values()), low, high, prior,
                 c["bins"])


def grid(ctx, scale, p, v, low, high, prior, n):
    span = max(abs(low), abs(high))
    eps = 1e-9 * span
    if v.shape != (n,) or p.get_bins() != n:
        ctx.fail(scale + ":count", "%d values for %d bins" % (v.size, n))
        return
    if n >= 2 and not (np.diff(v) > 0).all():
        ctx.fail(scale + ":order", "values %s" % v.tolist())
        return
    if scale == "logscale_deviation":
        hit = [i for i in range(n) if abs(v[i] - prior) <= eps]
        if not hit:
            ctx.fail(scale + ":prior", "prior %r not in %s" % (
                prior, v.tolist()))
            return
        i = hit[0]
        a, b = prior - low, high - prior
        if n >= 3 or not a:
            ctx.check(n < 2 or abs(v[-1] - high) <= eps, scale + ":ends",
                      "%s should end at %r" % (v.tolist(), high))
        if n >= 3 or not b:
            ctx.check(n < 2 or abs(v[0] - low) <= eps, scale + ":ends",
                      "%s should start at %r" % (v.tolist(), low))
        for side in (prior - v[:i + 1], v[i:] - prior):
            d = np.diff(np.log1p(np.abs(side)))
            if d.size > 1 and not np.allclose(d, d[0], rtol=1e-6, atol=1e-9 *
                                              span / max(1., span)):
                ctx.fail(scale + ":spacing", "deviations of %s" % v.tolist())
        want = a / (a + b) * (n + 1)
        if n >= 3 and 2 <= want <= n - 1:
            ctx.check(abs(i + 1 - want) <= 1., scale + ":sharing",
                      "%d of %d values below the prior" % (i + 1, n))
    else:
        t = np.log(v) if scale == "logscale" else v
        lo, hi = (math.log(low), math.log(high)) if scale == "logscale" \
            else (low, high)
        want = [lo + (hi - lo) * k / (n - 1.) for k in range(n)] if n > 1 \
            else [lo]
        ctx.check(np.allclose(t, want, rtol=1e-9, atol=1e-9 * max(
            abs(lo), abs(hi))), scale + ":spacing", "values %s" % v.tolist())
        if scale == "linear":    # the very limits, so that they are found
            ctx.check(v[0] == low and (n < 2 or v[-1] == high),
                      scale + ":limits", "from %r to %r, not %r to %r" % (
                          v[0], v[-1], low, high))
    for k in range(n) if n <= 101 else list(range(0, n, 7)) + [n - 1]:
        ctx.step()
        x = p.get_value_at(k)
        ctx.check(x == v[k], scale + ":at", "value %d" % k)
        ctx.check(p.get_value_index(x) == k, scale + ":index",
                  "index of value %d is %r" % (k, p.get_value_index(x)))
        b = p.get_bin(x)
        ctx.check(b == k, scale + ":bin", "value %d (%r of %d between %r and "
                  "%r) looked up as %r" % (k, x, n, low, high, b))
        y = x + (v[1] - v[0]) * .437 if n > 1 else x + 1.
        if not (v == y).any():
            try:
                r = p.get_value_index(y)
            except ValueError:
                r = None
            ctx.check(r is None, scale + ":absent", "%r found at %r" % (y, r))


def settings():
    return {"low": 1., "high": 3., "prior": 2., "sigma": 0.5, "bins": 5,
            "logscale": None, "logscale_deviation": None}


def history(ctx, seq):
    for read in range(1 << max(0, len(seq) - 1)):
        s = settings()
        p = make(s["low"], s["high"], s["prior"], s["bins"], s["sigma"])
        p.get_values()
        for i, j in enumerate(seq):
            k, v = OPS[j]
            ctx.step()
            if k == "nonsense":
                ctx.check(lib.rejects(lambda: p.set_par(**{k: v})) and
                          lib.rejects(lambda: p.set_par(
                              **{k: v, "low": 9., "aa": 1, "high": 12.})),
                          "set:unknown", "unknown setting accepted")
                for bad in BAD:
                    ctx.check(lib.rejects(lambda: p.set_par(**bad)),
                              "set:bad", "%r accepted" % (bad,))
            else:
                p.set_par(**{k: v})
                s[k] = v
            if read >> i & 1:
                p.get_values()
                p.get_bins()
        fresh = make(s["low"], s["high"], s["prior"], s["bins"], s["sigma"])
        for f in ("logscale", "logscale_deviation"):
            if s[f] is not None:
                fresh.set_par(**{f: s[f]})
        ops = [OPS[j] for j in seq]
        ctx.check(p.get_prior() == float(s["prior"]) and
                  p.get_sigma() == s["sigma"] and
                  p.get_low() == float(s["low"]) and
                  p.get_high() == float(s["high"]) and
                  p.get_bins() == int(s["bins"]), "set:value",
                  "settings after %r" % ops)
        v = np.array(p.get_values())
        ctx.check(v.shape == (int(s["bins"]),) and np.array_equal(
            v, np.array(fresh.get_values())), "set:grid", "grid %s after %r, "
            "expected %s" % (v.tolist(), ops,
                             np.array(fresh.get_values()).tolist()))
        kind = "logscale" if s["logscale"] else (
            "logscale_deviation" if s["logscale_deviation"] else "linear")
        if not s["prior"] <= s["high"] or not s["low"] <= s["prior"]:
            continue
        grid(ctx, "set:" + kind if False else kind, p, v, float(s["low"]),
             float(s["high"]), float(s["prior"]), int(s["bins"]))


def getters(ctx):
    p = make(1., 3., 2., 5)
    for get, put in (("get_best_fit", "set_best_fit"),
                     ("get_current_value", "set_current_value"),
                     ("get_penalty_term", "set_penalty_term")):
        ctx.step()
        try:
            getattr(p, get)()
            ctx.fail("unset", "%s before it is set" % get)
        except ValueError:
            pass
        for v in (0., 1.5, -2.):
            getattr(p, put)(v)
            ctx.check(getattr(p, get)() == v, "set", get)
    s = lib.make_spec([("energy_mc", 0., 1., 2)], "ones", num_decays=4.)
    p = make(1., 3., 2., 5)
    ctx.check(lib.rejects(lambda: p.apply_to(s)), "unset", "applied before a "
              "value was set")
