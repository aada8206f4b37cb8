"""P14: resolutions compose: smearing by the computed extra resolution turns
the current one into the requested one; settings accept exactly the valid
values and keep the last valid one through any sequence of calls."""
import itertools
import math

import numpy as np

import lib

PROPERTY = "P14"
BOUNDS = {
    "quick": "all pairs of 24 light yields / resolutions (int and float), "
             "explicit and from the current setting; all sequences of 3 "
             "settings over valid and invalid values on 5 objects",
    "thorough": "all pairs of 60 values, sequences of 5",
}
LYS = [1, 2, 3, 7, 10, 50, 100, 190, 199, 200, 201, 250, 500, 1000, 0.5, 1.5,
       3.3, 99.9, 190.5, 200.0, 333.3, 12345.6, 5e4, 8000]
RESS = [0.001, 0.01, 0.02, 0.03, 0.05, 0.055, 0.07, 0.1, 0.15, 0.2, 0.3, 0.5,
        0.9, 0.99]
RADS = [1, 2, 10, 50, 75, 99, 100, 101, 150, 200, 500, 0.5, 33.3, 120.7]
KINDS = ["ly", "res", "rad"]


def cases(tier):
    k = 2.31 if tier == "thorough" else None
    for kind, vals in zip(KINDS, (LYS, RESS, RADS)):
        v = list(vals)
        if k:
            v += [x * k if kind != "res" else x * .83 for x in vals] + \
                [x * 3.7 if kind != "res" else x * .41 for x in vals]
        for cur, new in itertools.product(v, v):
            yield {"kind": kind, "cur": cur, "new": new}
    n = 5 if tier == "thorough" else 3
    for kind in KINDS + ["num_sigma", "scale", "shift"]:
        for r in range(1, n + 1):
            for seq in itertools.product(range(len(SETS[kind])), repeat=r):
                yield {"set": kind, "seq": seq}
    for kind in KINDS:
        yield {"pdf": kind}


NAN = float("nan")
SETS = {"ly": [(200, True), (0.5, True), (1e-3, True), (0, False),
               (-1., False), (NAN, False), (1e6, True)],
        "res": [(0.05, True), (0.99, True), (1e-4, True), (0, False),
                (1, False), (1.5, False), (-0.1, False), (NAN, False)],
        "rad": [(100, True), (0.5, True), (1e4, True), (0, False),
                (-3., False), (NAN, False)],
        "num_sigma": [(3, True), (0.1, True), (0., False), (-2, False),
                      (1000., True), (NAN, False)],
        "scale": [(1.1, True), (2, True), (0., False), (-1, False),
                  (1e-3, True), (0, False), (1.00000041, True)],
        "shift": [(1, True), (0., True), (-2.5, True), (1e4, True)]}


def make(kind):
    from echidna.core import scale, shift, smear
    return {"ly": smear.EnergySmearLY, "res": smear.EnergySmearRes,
            "rad": smear.RadialSmear, "num_sigma": smear.EnergySmearLY,
            "scale": scale.Scale, "shift": shift.Shift}[kind]()


def run_case(ctx, c):
    ctx.state(repr(c))
    if "set" in c:
        return settings(ctx, c["set"], c["seq"])
    if "pdf" in c:
        return pdf(ctx, c["pdf"])
    kind, cur, new = c["kind"], c["cur"], c["new"]
    for explicit in (True, False):
        x = make(kind)
        if explicit and kind != "res":
            call = (lambda: x.calc_smear_ly(new, cur_ly=cur)) \
                if kind == "ly" else \
                (lambda: x.calc_smear_resoluton(new, cur_res=cur))
        elif explicit:
            call = lambda: x.calc_smear_resoluton(new, cur_res=cur)
        else:
            x.set_resolution(cur)
            call = (lambda: x.calc_smear_ly(new)) if kind == "ly" else \
                (lambda: x.calc_smear_resoluton(new))
        ctx.step()
        better = new > cur if kind == "ly" else new < cur
        if better:
            ctx.check(lib.rejects(call), kind + ":refuse", "un-smearing from "
                      "%r to %r accepted" % (cur, new))
            continue
        if new == cur:
            if kind != "ly":
                ctx.check(abs(float(call())) < 1e-12, kind + ":same",
                          "no extra smearing expected")
            continue
        extra = float(call())
        if kind == "ly":
            ok = lib.near(1. / extra + 1. / cur, 1. / new, tol=1e-9)
        else:
            ok = lib.near(extra ** 2 + float(cur) ** 2, float(new) ** 2,
                          tol=1e-9)
        ctx.check(ok, kind + ":compose", "from %r to %r needs %r" % (
            cur, new, extra))
        # through the smearer's own sigma, at several energies
        if kind == "rad" or (kind == "res" and not 0 < extra < 1):
            continue
        for e in (1, 2, 0.3, 2.5, 10.):
            s = []
            for v in (cur, extra, new):
                y = make(kind)
                y.set_resolution(v)
                s.append(float(y.get_sigma(e)))
            if explicit and not lib.near(s[0] ** 2 + s[1] ** 2, s[2] ** 2,
                                         tol=1e-9):
                ctx.fail(kind + ":sigma", "sigmas %r do not add in quadrature"
                         " at energy %r" % (s, e))


def settings(ctx, kind, seq):
    x = make(kind)
    get, put = {"num_sigma": ("get_num_sigma", "set_num_sigma"),
                "scale": ("get_scale_factor", "set_scale_factor"),
                "shift": ("get_shift", "set_shift")}.get(
                    kind, ("get_resolution", "set_resolution"))
    last = None if kind == "res" else getattr(x, get)()
    for i in seq:
        v, ok = SETS[kind][i]
        ctx.step()
        r = lib.rejects(lambda: getattr(x, put)(v))
        ctx.check(r != ok, kind + ":setting", "%s(%r) %s" % (
            put, v, "refused" if r else "accepted"))
        if ok:
            last = v
        if last is not None:
            ctx.check(getattr(x, get)() == last, kind + ":value", "value %r "
                      "after %r, expected %r" % (
                          getattr(x, get)(),
                          [SETS[kind][j][0] for j in seq], last))
            for e in (1., 2.5, 0.3, 1.) if kind in ("ly", "res") else ():
                want = math.sqrt(e / last) if kind == "ly" else \
                    last * math.sqrt(e)
                ctx.check(lib.near(x.get_sigma(e), want), kind +
                          ":sigma-now", "sigma(%r)=%r after the settings %r" %
                          (e, x.get_sigma(e),
                           [SETS[kind][j][0] for j in seq]))
            if kind == "num_sigma":
                low, high = x.get_bounds(2., 0.5)
                ctx.check(lib.near(low, 2. - last * .5, 1.) and
                          lib.near(high, 2. + last * .5, 1.), "bounds",
                          "bounds %r" % ((low, high),))


def pdf(ctx, kind):
    x = make(kind)
    for mean, sig in itertools.product((0., 1., 2.5, 100.), (0.1, 1., 30.)):
        for d in (-3., -1., -.3, 0., .5, 2.):
            v = mean + d * sig
            want = math.exp(-d * d / 2) / (sig * math.sqrt(2 * math.pi))
            ctx.step()
            ctx.check(lib.near(x.calc_gaussian(v, mean, sig), want),
                      "gaussian", "gaussian(%r,%r,%r)" % (v, mean, sig))
    if kind == "rad":
        ctx.check(x.get_sigma() == x.get_resolution(), "rad:sigma", "sigma")
        return
    for v in (LYS if kind == "ly" else RESS):
        x = make(kind)
        x.set_resolution(v)
        for e in (1, 2, 3, 0.5, 2.5, 7.25):
            want = math.sqrt(float(e) / v) if kind == "ly" else \
                v * math.sqrt(e)
            ctx.step()
            ctx.check(lib.near(x.get_sigma(e), want), kind + ":sigma",
                      "sigma(%r) at %r is %r, expected %r" % (
                          e, v, x.get_sigma(e), want))
    if kind == "ly":
        x = make("ly")       # the default setting
        for e in (1, 2, 0.5, 3):
            ctx.check(lib.near(x.get_sigma(e),
                               math.sqrt(float(e) / x.get_resolution())),
                      "ly:default-sigma", "sigma(%r)=%r at the default light "
                      "yield" % (e, x.get_sigma(e)))
        for new in (7, 190, 3., 55):
            got = float(x.calc_smear_ly(new))
            ctx.check(lib.near(1. / got + 1. / x.get_resolution(), 1. / new),
                      "ly:default-compose", "extra light yield %r for %r" % (
                          got, new))
    # poisson probabilities sum to one over photon numbers
    for ly, e in ((13.7, 1.), (50.3, .8), (7.1, 2.2)):
        x = make(kind)
        x.set_resolution(ly if kind == "ly" else ly ** -.5)
        p = [float(x.calc_poisson_energy((n + .5) / ly, e))
             for n in range(0, 200)]
        ctx.step(200)
        ctx.check(abs(sum(p) - 1.) < 1e-6, kind + ":poisson", "probabilities "
                  "add up to %r" % sum(p))
        lam = e * ly
        for n in (0, 1, 5, 20, 60):
            want = math.exp(n * math.log(lam) - math.lgamma(n + 1) - lam)
            ctx.check(lib.near(p[n], want, 1e-12), kind + ":poisson",
                      "P(%d; %r)=%r" % (n, lam, p[n]))
