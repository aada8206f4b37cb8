"""P13: random smearing moves every entry to the bin its draw falls in. The
random source is the environment: every answer it can give is enumerated, for
every entry of the input."""
import itertools
import math

import numpy as np

import lib

PROPERTY = "P13"
BOUNDS = {
    "quick": "5 random smearing methods x 4 axes x 2 resolutions x 6 inputs of"
             " up to 4 entries, 1 and 2 axes in both orders: every sequence "
             "of answers from the random source out of 5-7 answers (inside "
             "each region, below, above, negative); for each method four "
             "smearings of 1200 entries, by one and by new smearers; smearers "
             "used before with another resolution and axis",
    "thorough": "inputs of up to 6 entries",
}
JOBS = {"quick": 8, "thorough": 8}
AX = {"e": [(0., 3., 3), (0.5, 2.5, 4), (1., 1.5, 1), (2., 4., 5)],
      "r": [(0., 600., 3), (500., 700., 4), (0., 100., 1)]}
METHODS = ["ly-gauss", "ly-poisson", "res-gauss", "res-poisson", "radial"]


def cases(tier):
    for m in METHODS:
        yield {"method": m, "fresh": True}
    most = 6 if tier == "thorough" else 4
    for m in METHODS:
        for ax in AX["r" if m == "radial" else "e"]:
            for v in {"ly": (20.37, 203.3), "re": (0.21, 0.071),
                      "ra": (100., 33.)}[m[:2]]:
                n = ax[2]
                for axes in (1, 2, 3):
                    for cont in range(6):
                        total = sum(int(x) for x in contents(n, cont))
                        if total > (most if axes == 1 else 3):
                            continue
                        yield {"method": m, "axis": ax, "v": v, "axes": axes,
                               "cont": cont}


def contents(n, kind):
    c = [0] * n
    if kind == 0:
        c[0] = 1
    elif kind == 1:
        c[-1] = 2
    elif kind == 2:
        c[n // 2] += 1
        c[0] += 2
    elif kind == 3:
        c[n - 1] += 3
        c[0] += 1
    elif kind == 5:     # fractions of an entry are not drawn
        c[0] += 1.75
        c[-1] += .5
    else:
        c[n // 2] = 6
    return c


class Source(object):
    """Answers from a script; every question is logged."""

    def __init__(self, script, low, high, n, unit):
        self.script, self.i, self.log = script, 0, []
        w = (high - low) / n
        self.values = [low + .37 * w, high - .29 * w, low - .6 * w,
                       high + .7 * w, -(low + .41 * w) - 1e-3]
        if n > 1:
            self.values.insert(1, low + 1.17 * w)
        if n > 2:
            self.values.insert(2, low + 2.63 * w)
        self.unit = unit

    def menu(self):
        return len(self.values)

    def _value(self, kind, mean, sigma):
        if self.i >= len(self.script):
            v = self.values[0]
        else:
            v = self.values[self.script[self.i]]
        self.i += 1
        if kind == "poisson":
            v = float(max(0, int(math.floor(v * self.unit))))
            if len(self.log) % 2:
                v += 1.
        self.log.append((kind, float(mean), sigma, v))
        return v

    def _many(self, kind, mean, sigma, size):
        if size is None and np.ndim(mean) == 0 and np.ndim(sigma) == 0:
            return self._value(kind, mean, sigma)
        shape = size if size is not None else np.broadcast(
            mean, sigma if sigma is not None else 0.).shape
        out = np.zeros(shape)
        ms = np.broadcast_to(mean, out.shape)
        ss = np.broadcast_to(0. if sigma is None else sigma, out.shape)
        for i in np.ndindex(*out.shape):
            out[i] = self._value(kind, ms[i], None if sigma is None else
                                 float(ss[i]))
        return out

    def normal(self, loc=0., scale=1., size=None):
        return self._many("normal", loc, scale, size)

    def poisson(self, lam=1., size=None):
        return self._many("poisson", lam, None, size)


def make(method, v):
    from echidna.core import smear
    x = smear.RadialSmear() if method == "radial" else (
        smear.EnergySmearLY if method.startswith("ly") else
        smear.EnergySmearRes)(poisson=method.endswith("poisson"))
    x.set_resolution(v)
    return x


def fresh(ctx, c):
    """Every smearing draws anew, also by a smearer built afresh."""
    par, top, v = ("radial_mc", 6000., 300.) if c["method"] == "radial" else (
        "energy_mc", 6., 20.37 if c["method"].startswith("ly") else .21)
    s = lib.make_spec([(par, 0., top, 60)], data=np.full(60, 20.))
    one = make(c["method"], v)
    seen = []
    for k in range(4):
        x = one if k < 2 else make(c["method"], v)
        seen.append(x.random_smear(s, par).get_data().tolist())
        ctx.step()
    for i, j in itertools.combinations(range(4), 2):
        ctx.check(seen[i] != seen[j], c["method"] + ":anew", "smearings %d and"
                  " %d of 1200 entries have the same outcome" % (i, j))


def run_case(ctx, c):
    if "fresh" in c:
        return fresh(ctx, c)
    low, high, n = c["axis"]
    method, v = c["method"], c["v"]
    par = "radial_mc" if method == "radial" else "energy_mc"
    cont = contents(n, c["cont"])
    k = sum(int(x) for x in cont)
    ly = v if method.startswith("ly") else (v ** -2. if "res" in method
                                            else 1.)
    m = Source([], low, high, n, ly).menu()
    for i, script in enumerate(itertools.product(range(m), repeat=k)):
        if i < 2:                   # a new one, then one used before
            smearer = used(c, par) if i else make(method, v)
        one(ctx, c, par, cont, Source(script, low, high, n, ly), smearer)


def used(c, par):
    """A smearer that has smeared with another resolution and another axis."""
    low, high, n = c["axis"]
    x = make(c["method"], c["v"] * .8)
    for a in ((low, high), (low, high + (high - low))):
        x.random_smear(lib.make_spec([(par,) + a + (n,)],
                                     data=np.full(n, 3.)), par)
    x.set_resolution(c["v"])
    x.random_smear(lib.make_spec([(par, low, high + 1., n)],
                                 data=np.full(n, 3.)), par)
    return x


def one(ctx, c, par, cont, src, smearer):
    low, high, n = c["axis"]
    method, v = c["method"], c["v"]
    other = [("time_mc", 0., 2., 2), ("charge_mc", 1., 4., 3)]
    main = (par, low, high, n)
    axes, pos, at = {1: ([main], 0, ()), 2: ([other[0], main], 1, (1,)),
                     3: ([main] + other, 0, (0, 2))}[c["axes"]]
    shape = [a[3] for a in axes]
    data = np.zeros(shape)
    ix = list(at)
    ix.insert(pos, slice(None))
    data[tuple(ix)] = cont
    s = lib.make_spec(axes, data=data, num_decays=11., raw=5)
    before = lib.snap(s)
    import numpy
    old = numpy.random.normal, numpy.random.poisson
    numpy.random.normal, numpy.random.poisson = src.normal, src.poisson
    try:
        out = smearer.random_smear(s, par)
    finally:
        numpy.random.normal, numpy.random.poisson = old
    ctx.step()
    w = (high - low) / n
    want = np.zeros(n)
    asked = [0] * n
    for kind, mean, sigma, ans in src.log:
        if kind == "poisson":
            unit = v if method.startswith("ly") else v ** -2.
            mean, ans = mean / unit, ans / unit
        b = int(math.floor((mean - low) / w))
        cen = low + (b + .5) * w
        if not (0 <= b < n and lib.near(mean, cen, w)):
            ctx.fail(method + ":mean", "asked for a value around %r" % mean)
            return
        if kind == "normal":
            good = {"ly": math.sqrt(abs(cen) / v),
                    "re": v * math.sqrt(abs(cen)),
                    "ra": v}[method[:2]]
            if not lib.near(sigma, good):
                ctx.fail(method + ":sigma", "asked with spread %r at %r, "
                         "expected %r" % (sigma, cen, good))
                return
        asked[b] += 1
        x = abs(ans)
        if low <= x < high:
            want[int(math.floor((x - low) / w))] += 1
    ctx.check((src.log[0][0] if src.log else "none") == (
        "poisson" if method.endswith("poisson") else "normal"),
        method + ":kind", "kind of distribution")
    ctx.check(asked == [int(x) for x in cont], method + ":count", "%r draws for contents %r" % (
        asked, cont))
    full = np.zeros(shape)
    full[tuple(ix)] = want
    ctx.state((method, c["axis"], v, c["axes"], want.tolist()))
    ctx.check(lib.close(out.get_data(), full), method + ":placed",
              "draws %r leave %r, expected %r" % (
                  src.log, out.get_data().tolist(), full.tolist()))
    d = lib.same(before, lib.snap(s))
    ctx.check(d is None, method + ":input", "input changed: %s" % d)
    got = lib.snap(out)
    for key in ("axes", "num_decays", "raw_events", "rois"):
        ctx.check(got[key] == before[key], method + ":meta", "%s %r" % (
            key, got[key]))
