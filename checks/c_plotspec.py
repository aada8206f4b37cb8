"""P29: a plot of spectra shows exactly their projected counts, each at its
own place on the axis."""
import itertools

import numpy as np

import lib

PROPERTY = "P29"
NAMES = ["energy_mc", "radial_reco", "time_mc"]
BOUNDS = {
    "quick": "all shapes of 1-3 axes with 1-3 bins (one axis: 1-12 bins over "
             "19 ranges); every dimension and ordered pair of dimensions; "
             "stacks of 1-3 spectra, every assignment of roles, with and "
             "without limit, log scale and chi-squared panel, each axis "
             "mismatch; both plot packages",
    "thorough": "1-4 bins, one axis 1-40 bins over 70 ranges, stacks of 1-4",
}
JOBS = {"quick": 8, "thorough": 8}
RANGES = [(0., 1.), (0., .7), (.1, .4), (-1., 2.), (0., 10.), (2., 3.3),
          (.5, 5.6), (1., 1.7), (-.3, .3), (0., 3.5), (.1, 1.7), (2.2, 2.9),
          (0., 5999.), (.35, 1.05), (1.8, 3.2), (0., 2.1), (.1, 1.2),
          (-1., 3.3), (0., 3.1)]
LABELS = {"signal": "signal", "background": "background"}


def cases(tier):
    t = tier == "thorough"
    ranges = RANGES + ([(a / 10., b / 10.) for a in range(0, 15, 2)
                        for b in range(16, 50, 5)] if t else [])
    for lo, hi in ranges:
        yield {"what": "axis", "range": (lo, hi), "bins": list(
            range(1, 41 if t else 13))}
    for n in (1, 2, 3):
        for s in itertools.product(range(1, 5 if t else 4), repeat=n):
            yield {"what": "one", "shape": s}
    for n in range(1, 5 if t else 4):
        for roles in itertools.product(("signal", "background", "other", "")
                                       [:4 if n < 3 else 3], repeat=n):
            for ndim in (1, 2):
                yield {"what": "stack", "roles": roles, "ndim": ndim}


def axes_for(shape):
    return [(NAMES[i], .5 * i, .5 * i + b * (1. + i), b)
            for i, b in enumerate(shape)]


def marginal(data, keep):
    """Sum over all axes but keep, by hand, in the order of keep."""
    out = np.zeros([data.shape[i] for i in keep])
    for idx in np.ndindex(*data.shape):
        out[tuple(idx[i] for i in keep)] += data[idx]
    return out


def edges_of(axis):
    n, lo, hi, b = axis
    return np.array([lo + (hi - lo) * i / b for i in range(b + 1)])


def run_case(ctx, c):
    {"axis": axis_case, "one": one, "stack": stack}[c["what"]](ctx, c)


def axis_case(ctx, c):
    lo, hi = c["range"]
    for b in c["bins"]:
        axes = [("energy_mc", lo, hi, b)]
        projections(ctx, lib.make_spec(axes, "squares"), axes)
        signal = lib.make_spec(axes, "linear", name="sig_mc")
        mpl_stack(ctx, {"sig_mc": {"spectra": signal, "type": "signal"}},
                  axes, "energy_mc")


def one(ctx, c):
    axes = axes_for(c["shape"])
    for kind in ("squares", "sparse", "fraction"):
        projections(ctx, lib.make_spec(axes, kind), axes)
        surfaces(ctx, lib.make_spec(axes, kind), axes)


def check_hist(ctx, h, axis, want, what):
    ctx.check(len(h.edges) == len(want) + 1 and
              lib.close(h.edges, edges_of(axis)), "edges",
              "%s: bins %r for axis %r" % (what, list(h.edges), axis))
    ctx.check(lib.close(h.contents, want), "contents", "%s shows %r for %r" %
              (what, h.contents.tolist(), want.tolist()))


def check_style(ctx, h, style, what):
    """The colour and the label asked for tell whose curve it is."""
    if h.__dict__.get("style") is None:     # drawn in another way
        return
    got = {"label": h.label, "color": h.style.get("color")}
    for k in style:
        ctx.check(got[k] == style[k], "style", "%s has the %s %r instead of "
                  "%r" % (what, k, got[k], style[k]))


def check_root(ctx, h, axes, want, what):
    ctx.check(len(h.bins) == len(axes) and all(
        b[0] == a[3] and lib.near(b[1], a[1], 1.) and lib.near(b[2], a[2], 1.)
        for b, a in zip(h.bins, axes)), "edges", "%s: binning %r for %r" % (
            what, h.bins, axes))
    ctx.check(lib.close(h.contents(), want) and h.stray() == 0., "contents",
              "%s shows %r for %r" % (what, h.contents().tolist(),
                                      want.tolist()))


def attempt(ctx, what, fn):
    """What fn returns; an error is a violation."""
    ctx.step()
    try:
        return fn()
    except Exception as e:          # noqa
        ctx.check(False, "error", "%s raises %r" % (what, e))


def projections(ctx, s, axes):
    if axes[0][3] % 2:          # some with a style of their own
        s.set_style({"color": "red", "label": "of " + axes[0][0]})
    style = dict(s.get_style())
    import plots
    from echidna.output import plot, plot_root
    data, before = s.get_data().copy(), lib.snap(s)
    for i, a in enumerate(axes):
        want = marginal(data, [i])
        ctx.state(("1d", tuple(axes), i, data.tolist()))
        plots.reset()
        fig = attempt(ctx, "plot.plot_projection %r" % (a,), lambda:
                      plot.plot_projection(s, a[0], show_plot=False))
        if fig is not None:
            hists = [h for x in fig.axes for h in x.hists]
            ctx.check(len(hists) == 1, "drawn", "%d histograms" % len(hists))
            check_hist(ctx, hists[0], a, want, "plot_projection " + a[0])
            check_style(ctx, hists[0], style, "plot_projection " + a[0])
        h = attempt(ctx, "plot_root.plot_projection", lambda:
                    plot_root.plot_projection(s, a[0], graphical=False))
        if h is not None:
            check_root(ctx, h, [a], want, "ROOT plot_projection " + a[0])
    diff = lib.same(before, lib.snap(s))
    ctx.check(diff is None, "input", "plotting changed %s" % diff)


def surfaces(ctx, s, axes):
    import plots
    from echidna.output import plot, plot_root
    data, before = s.get_data().copy(), lib.snap(s)
    for i, j in itertools.permutations(range(len(axes)), 2):
        a, b = axes[i], axes[j]
        want = marginal(data, [i, j])
        ctx.state(("2d", tuple(axes), i, j, data.tolist()))
        plots.reset()
        fig = attempt(ctx, "plot.plot_surface", lambda: plot.plot_surface(
            s, a[0], b[0], show_plot=False))
        if fig is not None:
            surface(ctx, fig, a, b, want)
        h = attempt(ctx, "plot_root.plot_surface", lambda:
                    plot_root.plot_surface(s, a[0], b[0], graphical=False))
        if h is not None:
            check_root(ctx, h, [a, b], want, "ROOT plot_surface %s, %s" % (
                a[0], b[0]))
    diff = lib.same(before, lib.snap(s))
    ctx.check(diff is None, "input", "plotting changed %s" % diff)


def surface(ctx, fig, a, b, want):
    """Which way round the two dimensions are shown is open, as long as the
    labels and the counts agree."""
    maps = [(x, m) for x in fig.axes for m in x.maps]
    ctx.check(len(maps) == 1, "drawn", "%d maps" % len(maps))
    ax, m = maps[0]
    if ax.xlabel.startswith(a[0]) and ax.ylabel.startswith(b[0]):
        x, y, cell = a, b, lambda i, j: want[i, j]
    elif ax.xlabel.startswith(b[0]) and ax.ylabel.startswith(a[0]):
        x, y, cell = b, a, lambda i, j: want[j, i]
    else:
        ctx.check(False, "labels", "axes labelled %r and %r" % (
            ax.xlabel, ax.ylabel))
        return
    ex, ey = edges_of(x), edges_of(y)
    left = {(i, j) for i in range(x[3]) for j in range(y[3])}
    for x0, x1, y0, y1, v in m.cells:
        i = int(round((x0 - x[1]) * x[3] / (x[2] - x[1])))
        j = int(round((y0 - y[1]) * y[3] / (y[2] - y[1])))
        ok = (i, j) in left and lib.near(x0, ex[i], 1.) and lib.near(
            x1, ex[i + 1], 1.) and lib.near(y0, ey[j], 1.) and lib.near(
                y1, ey[j + 1], 1.)
        ctx.check(ok, "edges", "a cell over %s [%r, %r], %s [%r, %r] is no "
                  "bin" % (x[0], x0, x1, y[0], y0, y1))
        if not ok:
            return
        left.discard((i, j))
        ctx.check(v == cell(i, j), "contents", "bin %r of %s, %s shows %r "
                  "for %r" % ((i, j), x[0], y[0], v, cell(i, j)))
    ctx.check(not left, "drawn", "bins %r are not shown" % sorted(left))


# ------------------------------------------------------------------ stacks
class Calculator(object):
    def __init__(self, values):
        self.values = np.array(values)

    def get_chi_squared_per_bin(self):
        return self.values.copy()


def text(s):
    """An equal string that is another object, as read from a file."""
    return "".join(list(s))


def build(c, axes):
    out = {}
    for k, role in enumerate(c["roles"]):
        s = lib.make_spec(axes, ("fraction", "linear", "sparse", "ones")[k],
                          name="s%d_mc" % k)
        out[s.get_name()] = {"spectra": s, "type": text(role),
                             "label": "label %d" % k,
                             "style": {"color": k + 2}}
        if not role:                    # no role given
            del out[s.get_name()]["type"]
    return out


def relabel(d, by, limit):
    """Labels and colours where else they may be given."""
    for k in d:
        if by != "both":
            del d[k]["label"]
        else:
            d[k]["color"] = "color " + k
        d[k]["spectra"].set_style({} if by == "name" else {
            "label": "styled " + k, "color": "light " + k})
    if limit is not None:
        limit.set_style({} if by == "name" else {
            "label": "what is left", "color": "pink"})
    return d


def styles(d, limit):
    """label -> colour of every curve of a stack."""
    out = {}
    for k, v in d.items():
        s = v["spectra"].get_style()
        out[v.get("label") or s.get("label") or k] = \
            k, v.get("color") or s.get("color")
    if limit is not None:
        s = limit.get_style()
        out[s.get("label") or "limit"] = None, s.get("color")
    return out


def chi_per_bin(ctx, axis):
    from echidna.output import plot_root
    calc = Calculator((3. + np.arange(axis[3])) ** 2)
    for title in (None, "te (MeV)"):
        h = attempt(ctx, "plot_root.plot_chi_squared_per_bin", lambda:
                    plot_root.plot_chi_squared_per_bin(
                        calc, axis[3], axis[1], axis[2], x_title=title))
        if h is not None:
            check_root(ctx, h, [axis], calc.values, "chi squared per bin")


def stack(ctx, c):
    axes = axes_for((3, 2)[:c["ndim"]] if c["ndim"] > 1 else (4,))
    chi_per_bin(ctx, axes[0])
    for dim in range(len(axes)):
        name = axes[dim][0]
        for lim in (False, True):
            for log in (False, True):
                for chi in (False, True):
                    d = build(c, axes)
                    limit = lib.make_spec(axes, "linear", name="lim_mc") \
                        if lim else None
                    mpl_stack(ctx, d, axes, name, limit=limit, log_y=log,
                              chi=chi)
                for by in ("style", "name", "both"):
                    limit = lib.make_spec(axes, "linear", name="lim_mc") \
                        if lim else None
                    mpl_stack(ctx, relabel(build(c, axes), by, limit), axes,
                              name, limit=limit, log_y=log)
                d = build(c, axes)
                root_stack(ctx, d, axes, dim, lim, log)
    # spectra that cannot share an axis
    if len(c["roles"]) < 2:
        return
    n, lo, hi, b = axes[0]
    for bad in ((n, lo - 1., hi, b), (n, lo, hi + 1., b), (n, lo, hi, b + 1),
                (n, lo + .5, hi, b), (n, lo, hi - .5, b), (n, lo, hi, b - 1)):
        for which in range(len(c["roles"])):
            d = build(c, axes)
            d["s%d_mc" % which]["spectra"] = lib.make_spec(
                [bad] + axes[1:], "squares", name="s%d_mc" % which)
            from echidna.output import plot, plot_root
            ctx.step()
            ctx.check(lib.rejects(lambda: plot.spectral_plot(
                d, n, show_plot=False)), "refuse", "%r plotted with %r" % (
                    bad, axes[0]))
            ctx.check(lib.rejects(lambda: plot_root.spectral_plot(
                d, n.rsplit("_", 1)[0])), "refuse", "%r plotted with %r by "
                      "ROOT" % (bad, axes[0]))


def totals(d, i):
    one = {k: marginal(v["spectra"].get_data(), [i]) for k, v in d.items()}
    back = sum((one[k] for k in d if d[k].get("type") == "background"),
               0. * list(one.values())[0])
    return one, back, sum(one.values())


def mpl_stack(ctx, d, axes, name, limit=None, log_y=False, chi=False):
    import plots
    from echidna.output import plot
    plots.reset()
    i = [a[0] for a in axes].index(name)
    one, back, total = totals(d, i)
    before = {k: lib.snap(v["spectra"]) for k, v in d.items()}
    calc = Calculator(3. + np.arange(axes[i][3]) ** 2) if chi else None
    ctx.state(("stack", name, sorted((k, v.get("type")) for k, v in d.items()),
               limit is not None, log_y, chi, tuple(axes)))
    fig = attempt(ctx, "plot.spectral_plot over %r" % (axes[i],), lambda:
                  plot.spectral_plot(d, name, show_plot=False, log_y=log_y,
                                     limit=limit, calculator=calc))
    if fig is None:
        return
    want = {}
    colours = styles(d, limit)
    for label, (k, _) in colours.items():
        want[label] = marginal(limit.get_data(), [i]) if k is None else one[k]
    want["Summed background"], want["Sum"] = back, total
    main = fig.axes[0]
    got = {h.label: h for h in main.hists}
    ctx.check(len(got) == len(main.hists) and set(got) == set(want), "drawn",
              "histograms %r, expected %r" % (
                  [h.label for h in main.hists], sorted(want)))
    for label in sorted(set(got) & set(want)):
        check_hist(ctx, got[label], axes[i], want[label], label)
        if label in colours and colours[label][1]:
            check_style(ctx, got[label], {"color": colours[label][1]}, label)
    for band in main.bands:
        e = edges_of(axes[i])
        ctx.check(lib.close(band.x, (e[1:] + e[:-1]) / 2.) and lib.close(
            band.low, back - np.sqrt(back)) and lib.close(
                band.high, back + np.sqrt(back)), "band", "error band %r to "
                  "%r of background %r" % (band.low, band.high, back))
    ctx.check(len(main.bands) == 1, "drawn", "%d bands" % len(main.bands))
    rest = [h for x in fig.axes[1:] for h in x.hists]
    ctx.check(len(rest) == chi, "drawn", "%d more histograms" % len(rest))
    if chi and rest:
        check_hist(ctx, rest[0], axes[i], calc.values, "chi squared")
    for k, v in d.items():
        diff = lib.same(before[k], lib.snap(v["spectra"]))
        ctx.check(diff is None, "input", "plotting changed %s" % diff)


def root_stack(ctx, d, axes, i, lim, log):
    import plots
    from echidna.output import plot_root
    plots.reset()
    one, back, total = totals(d, i)
    limit = lib.make_spec(axes, "linear", name="lim_mc") if lim else None
    before = {k: lib.snap(v["spectra"]) for k, v in d.items()}
    can = attempt(ctx, "plot_root.spectral_plot", lambda:
                  plot_root.spectral_plot(d, axes[i][0].rsplit("_", 1)[0],
                                          log_y=log, limit=limit))
    if can is None:
        return
    want = {v["label"]: one[k] for k, v in d.items()}
    want["Background"], want["Background + Signal"] = back, total
    if limit is not None:
        want["Kamland-Zen Limit"] = marginal(limit.get_data(), [i])
    shown = [h for _, h in plots.SHOWN if isinstance(h, plots.TH1)]
    legends = [h for _, h in plots.SHOWN if isinstance(h, plots.TLegend)]
    ctx.check(len(legends) == 1, "drawn", "%d legends" % len(legends))
    ctx.check(len(shown) == len(want), "drawn", "%d histograms drawn, "
              "expected %r" % (len(shown), sorted(want)))
    ctx.check(all("same" in o for o, h in plots.SHOWN if h in shown[1:]),
              "drawn", "one histogram erases another")
    for leg in legends[:1]:
        got = dict(leg.entries)
        ctx.check(len(leg.entries) == len(got) and set(got) == set(want),
                  "drawn", "legend %r, expected %r" % (sorted(got),
                                                       sorted(want)))
        for label in sorted(set(got) & set(want)):
            ctx.check(any(h is got[label] for h in shown), "drawn",
                      "%s is in the legend but not drawn" % label)
            check_root(ctx, got[label], [axes[i]], want[label], label)
    for k, v in d.items():
        diff = lib.same(before[k], lib.snap(v["spectra"]))
        ctx.check(diff is None, "input", "plotting changed %s" % diff)
