"""P15: test statistics equal their published definitions bin by bin, the total
is the sum over bins, and inputs are left alone. Every array over a value
alphabet is enumerated."""
import itertools
import math

import numpy as np

import lib

PROPERTY = "P15"
BOUNDS = {
    "quick": "6 statistics: all 1-bin pairs over 15 values, all 2-bin inputs "
             "over 8 values, all 3-bin inputs over 4 values, float and "
             "integer arrays, views; all wrong shapes; 11^3 penalties",
    "thorough": "all 2-bin inputs over 15 values, 3-bin inputs over 6, 4-bin "
                "inputs over 3",
}
JOBS = {"quick": 4, "thorough": 8}
NAMES = ["BakerCousinsChi", "BakerCousinsChiUp", "BakerCousinsLL", "Neyman",
         "Pearson", "ExtendedLL"]
VALS = [0., 1., 2., 0.5, 7.25, 100., 1e-3, 1e-12, 1e-33, 3e-35, 1e-60, 1e6,
        3., 0.1, 12345.678]
EPS = 1e-34


def cases(tier):
    t = tier == "thorough"
    for name in NAMES:
        for o in VALS:
            yield {"stat": name, "n": 1, "o": [o], "alpha": VALS}
        a = VALS if t else VALS[:8]
        for o in itertools.product(a, repeat=2):
            yield {"stat": name, "n": 2, "o": o, "alpha": a}
        a = VALS[:6] if t else VALS[:4]
        for o in itertools.product(a, repeat=3):
            yield {"stat": name, "n": 3, "o": o, "alpha": a}
        if t:
            a = VALS[:3]
            for o in itertools.product(a, repeat=4):
                yield {"stat": name, "n": 4, "o": o, "alpha": a}
        yield {"stat": name, "shapes": 1}
        yield {"stat": name, "penalty": 1}


def ref(name, o, e):
    """One bin, from Baker & Cousins and the class documentation."""
    if name == "BakerCousinsChiUp" and o > e:
        return 0.
    if name == "Neyman":
        o = max(o, EPS)
        return o if e < EPS else (e - o) ** 2 / o
    e = max(e, EPS)
    if name == "ExtendedLL":
        return e - o * math.log(e)
    if o < EPS:
        v = e
    elif name == "Pearson":
        return (o - e) ** 2 / e
    else:
        v = e - o + o * math.log(o / e)
    return v if name in ("BakerCousinsLL", "Pearson") else 2. * v


def mag(name, o, e):
    """Size of the terms that cancel in one bin."""
    big = abs(math.log(max(e, EPS))) + abs(math.log(max(o, EPS))) + 1.
    if name in ("Neyman", "Pearson"):
        return abs(ref(name, o, e)) + 1e-300
    # ExtendedLL: up to the 1e-34 events that stand for none
    return (o + e) * big * 2. + (1e-24 if name == "ExtendedLL" else 1e-33)


def run_case(ctx, c):
    from echidna.fit import test_statistic
    name = c["stat"]
    cls = getattr(test_statistic, name)
    if "shapes" in c:
        return shapes(ctx, name, cls)
    if "penalty" in c:
        return penalty(ctx, name, cls)
    total, bins = cls(), cls(per_bin=True)
    o = list(c["o"])
    for e in itertools.product(c["alpha"], repeat=c["n"]):
        e = list(e)
        ctx.state((name, o, e))
        ctx.step()
        want = [ref(name, x, y) for x, y in zip(o, e)]
        tol = [1e-9 * mag(name, x, y) for x, y in zip(o, e)]
        for kind in kinds(o, e):
            oa, ea = kind(o), kind(e)
            o0, e0 = oa.copy(), ea.copy()
            isint = oa.dtype.kind == "i"
            what = name + (":int" if isint else "")
            up = name == "BakerCousinsChiUp" and any(
                x > y for x, y in zip(o, e))
            old = truncating(name, o, e) if isint else None
            try:
                got = np.asarray(bins.compute_statistic(oa, ea))
            except Exception as err:
                ctx.fail(what + (":up:bins-refused" if up else
                                 ":bins-refused"), "per-bin statistic of %r "
                         "given %r raises %s" % (o, e, err))
                got = None
            if got is not None:
                ok = got.shape == (len(o),) and all(
                    abs(float(g) - w) <= t
                    for g, w, t in zip(got, want, tol))
                if not ok:
                    trunc = old is not None and lib.close(got, old)
                    counted = up and lib.close(got, [
                        ref("BakerCousinsChi", x, y) for x, y in zip(o, e)])
                    ctx.fail(what + (":truncated" if trunc else
                                     ":up:bins-counted" if counted else
                                     ":bins"),
                             "per-bin statistic of %r given %r is %s, "
                             "expected %s" % (o, e, got.tolist(), want))
            v = total.compute_statistic(oa, ea)
            ok = np.ndim(v) == 0 and abs(
                float(v) - math.fsum(want)) <= sum(tol) + 1e-9 * abs(
                    math.fsum(want))
            if not ok:
                trunc = old is not None and lib.close(v, sum(old))
                ctx.fail(what + (":truncated" if trunc else ":total"),
                         "statistic of %r given %r is %r, expected %r" % (
                             o, e, v, math.fsum(want)))
            for arr, orig in ((oa, o0), (ea, e0)):
                if not np.array_equal(arr, orig):
                    eps = (arr[arr != orig] == EPS).all() and (
                        orig[arr != orig] < EPS).all()
                    ctx.fail(name + (":inputs-zero" if eps else ":inputs"),
                             "inputs %r %r become %r %r" % (
                                 o, e, oa.tolist(), ea.tolist()))


def truncating(name, o, e):
    """What the statistic would be in integer arithmetic; None where the
    class converts to floating point."""
    if name not in ("BakerCousinsLL", "Neyman", "Pearson"):
        return None
    out = []
    for x, y in zip(o, e):
        x, y = np.int64(x), np.int64(y)
        if name == "Neyman":
            out.append(x if y == 0 else (y - x) ** 2 // x)
        elif x == 0:
            out.append(y)
        elif name == "Pearson":
            out.append((x - y) ** 2 // y)
        else:
            out.append(y - x + x * np.log(x // y))
    return np.array(out, dtype=float)


def kinds(o, e):
    out = [lambda x: np.array(x, dtype=float),
           lambda x: np.array([x, x], dtype=float).T[:, 1]]
    if all(float(x).is_integer() for x in o + e):
        out.append(lambda x: np.array([int(y) for y in x]))
    return out


def shapes(ctx, name, cls):
    mk = {"0d": np.array(3.), "1": np.ones(1), "2": np.ones(2),
          "3": np.ones(3), "22": np.ones((2, 2)), "12": np.ones((1, 2)),
          "21": np.ones((2, 1)), "111": np.ones((1, 1, 1))}
    for per_bin in (False, True):
        st = cls(per_bin=per_bin)
        for a, b in itertools.product(mk, mk):
            ok = a == b and len(a) == 1
            ctx.step()
            r = lib.rejects(lambda: st.compute_statistic(mk[a].copy(),
                                                         mk[b].copy()))
            ctx.check(r != ok, name + ":shape", "arrays of shapes %r and %r "
                      "%s" % (mk[a].shape, mk[b].shape,
                              "refused" if r else "accepted"))


def penalty(ctx, name, cls):
    vals = [0, 1, 2, 3, 7, 0.5, 2.5, -1, 100, 1e-3, -0.25]
    for v, p, s in itertools.product(vals, vals, vals):
        if s == 0:
            continue
        want = ((float(v) - p) / s) ** 2 * (
            0.5 if name == "BakerCousinsLL" else 1.)
        for st in (cls(), cls(per_bin=True)):
            got = st.get_penalty_term(v, p, s)
            ctx.step()
            if not lib.near(got, want):
                whole = all(isinstance(x, int) for x in (v, p, s))
                trunc = whole and lib.near(got, ((v - p) // s) ** 2 * (
                    0.5 if name == "BakerCousinsLL" else 1.))
                ctx.fail(name + (":penalty-truncated" if trunc else
                                 ":penalty"), "penalty of %r for prior %r +- "
                         "%r is %r, expected %r" % (v, p, s, got, want))
        ctx.state((name, v, p, s))
