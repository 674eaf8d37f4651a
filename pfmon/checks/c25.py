"""C25: what the plots contain."""
import contextlib
import math
import re

from matplotlib.backend_bases import FigureCanvasBase
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
import numpy as np
import pandas as pd
import plotly.graph_objs as go

import py_fatigue as pf
from py_fatigue.cycle_count.histogram import xy_hist2d
from py_fatigue.cycle_count.utils import aggregate_cc, plot_aggregated_residuals
from py_fatigue.geometry import HollowCylinder
import py_fatigue.mean_stress.corrections as msc

from pfmon import crack, gen, make, ref
from pfmon.core import Skip, Workload

RULE = (
    "A case is one plotted object; the artists of the figure are read back and "
    "compared with the object. Non-trivial: every case; distinct by object and "
    "plot options."
)
REQUIRED_EVENTS = ["sn_points", "sn_knees", "endurance_points", "paris_points", "paris_knees",
                   "paris_ends", "data_sets", "min-max", "mean-range", "counts-range",
                   "counts-range-cumsum", "counts-range-2D", "coloured_points", "outliers",
                   "residual_plots", "crack_plots", "damage_plots", "aggregated_plots",
                   "given_axes", "figures_without_window", "not_the_current_figure", "plotly", "marked_points",
                   "labelled_points", "notebook_images", "described_limits", "correction_plots", "narrow_cracks"]
WORKERS = 6


def look(ax):
    """What can be seen in the axes."""
    return (len(ax.get_children()), [g.get_visible() for g in ax.get_xgridlines() + ax.get_ygridlines()],
            ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale(), ax.get_xlim(),
            ax.get_ylim())


def axes_for(cx, rng):
    """Keyword arguments asking for given axes, and a test of the answer."""
    kind = int(rng.integers(0, 4))
    if kind == 0:
        return {}, lambda fig, ax: ax in fig.axes
    where = int(rng.integers(0, 3))
    if where == 0:
        fig = Figure()
        axs = fig.subplots(1, 2)
        cx.event("figures_without_window")
    else:
        fig, axs = plt.subplots(1, 2)
    others = [axs[1]] if kind < 3 else [axs[0]]
    if where == 1:
        others.append(plt.subplots()[1])
        cx.event("not_the_current_figure")
    before, open_ = [look(a) for a in others], plt.get_fignums()

    def rest():
        after = [look(a) for a in others]
        cx.check(after == before, "other-axes", "the plot changed axes that were not given",
                 before=before, after=after)
        cx.check(plt.get_fignums() == open_, "other-figures", f"{open_} -> {plt.get_fignums()}")
        return True

    if kind == 1:
        cx.event("given_axes")
        return dict(fig=fig, ax=axs[0]), lambda f, a: f is fig and a is axs[0] and rest()
    if kind == 2:
        cx.event("given_axes")
        return dict(ax=axs[0]), lambda f, a: f is fig and a is axs[0] and rest()
    return dict(fig=fig), lambda f, a: f is fig and a in fig.axes and rest()


def curve_line(cx, ax, name):
    lines = [ln for ln in ax.lines if ln.get_label() == name]
    cx.check(len(lines) == 1, "curve-line", f"{len(lines)} lines called {name}")
    return np.asarray(lines[0].get_xdata(), float), np.asarray(lines[0].get_ydata(), float)


def near(points, val, rtol=1e-8):
    return bool(np.any(np.abs(points - val) <= rtol * abs(val)))


def data_set(rng):
    n = int(rng.integers(1, 20))
    return 10 ** rng.uniform(3, 8, n), 10 ** rng.uniform(1, 3, n)


def judge_data(cx, x, y, want):
    cx.same(np.asarray(x, float), np.asarray(want[0], float), "data-set", "abscissae")
    cx.same(np.asarray(y, float), np.asarray(want[1], float), "data-set", "ordinates")
    cx.event("data_sets")


def sn(cx):
    rng = cx.rng
    curve, (slope, inter, end) = make.sn_curve(rng, unit=str(rng.choice(gen.UNITS)))
    data = data_set(rng) if rng.random() < 0.6 else None
    as_list = rng.random() < 0.5
    args = {}
    if data is not None:
        args = dict(cycles=data[0].tolist() if as_list else data[0],
                    stress_range=data[1].tolist() if as_list else data[1], dataset_name="measured")
    cx.note(slope=slope, intercept=inter, endurance=end, data=data)
    cx.key(slope, inter, end, repr(data))

    def judge(x, y):
        cx.check(len(x) == len(y) >= 2, "curve-line", f"{len(x)} points")
        for n, s in zip(x, y):
            want = ref.sn_stress(float(n), slope, inter, end)
            cx.check(abs(s - want) <= 1e-8 * want, "point-off-curve",
                     f"({n}, {s}) drawn, the curve has {want}")
        cx.event("sn_points", len(x))
        cx.check(bool(np.all(np.diff(x) >= 0)), "point-order", "the line goes back")
        for _, n in ref.sn_knees(slope, inter):
            cx.check(near(x, n, 1e-7), "knee-missing", f"no point at {n} cycles")
            cx.event("sn_knees")
        if end < np.inf:
            cx.check(near(x, end), "endurance-missing", f"no point at the endurance {end}")
            cx.check(float(np.max(x)) > end, "endurance-missing", "nothing beyond the endurance")
            cx.event("endurance_points")

    kw, right = axes_for(cx, rng)
    fig, ax = curve.plot(**args, **kw)
    cx.check(right(fig, ax), "given-axes", f"drawn elsewhere with {sorted(kw)}")
    judge(*curve_line(cx, ax, curve.name))
    if data is not None:
        judge_data(cx, *curve_line(cx, ax, "measured"), data)
    else:
        cx.check(len(ax.lines) == 1, "extra-lines", f"{len(ax.lines)} lines")
    cx.check(curve.unit in ax.get_ylabel(), "axis-label", ax.get_ylabel())
    cx.check(ax.get_xscale() == ax.get_yscale() == "log", "axis-scale", "not logarithmic")
    plt.close("all")
    traces, layout = curve.plotly(**args)
    figure = go.Figure(data=traces, layout=layout)
    cx.check(len(figure.data) == (1 if data is None else 2), "curve-line", f"{len(figure.data)} traces")
    judge(np.asarray(figure.data[0].x, float), np.asarray(figure.data[0].y, float))
    if data is not None:
        judge_data(cx, figure.data[1].x, figure.data[1].y, data)
    cx.same([t.name for t in figure.data], [curve.name, "measured"][:len(figure.data)], "labels",
            "plotly")
    cx.check(figure.layout.xaxis.type == figure.layout.yaxis.type == "log", "axis-scale", "plotly")
    cx.check(curve.unit in figure.layout.yaxis.title.text, "axis-label", "plotly")
    cx.event("plotly")
    cx.raises(ValueError, lambda: curve.plot(cycles=[1e4, 1e5], stress_range=[1.0]), "data-lengths")
    plt.close("all")
    cx.sample(slope=slope, intercept=inter, endurance=end, data=data)


def paris(cx):
    rng = cx.rng
    curve, par = make.paris_curve(rng, unit=str(rng.choice(["MPa √mm", "MPa √m", "ksi √in", "SIF"])))
    slope, inter, thr, crit = par
    data = data_set(rng) if rng.random() < 0.5 else None
    args = {} if data is None else dict(sif=data[0], growth_rate=data[1], dataset_name="measured")
    cx.note(curve=par, data=data)
    cx.key(repr(par), repr(data))
    kw, right = axes_for(cx, rng)
    fig, ax = curve.plot(**args, **kw)
    cx.check(right(fig, ax), "given-axes", f"drawn elsewhere with {sorted(kw)}")
    x, y = curve_line(cx, ax, curve.name)
    low = ref.paris_rate(thr, slope, inter, 0, np.inf) if thr > 0 else 0
    high = ref.paris_rate(crit, slope, inter, 0, np.inf) if crit < np.inf else np.inf
    cx.check(len(x) == len(y) >= 2 and bool(np.all(np.diff(x) >= -1e-9 * x[1:])), "point-order",
             "the line goes back")
    ends = [False, False]
    for k, r in zip(x, y):
        want = ref.paris_rate(float(k), slope, inter, 0, np.inf)
        at_thr = thr > 0 and abs(k - thr) <= 1e-9 * thr
        at_crit = crit < np.inf and abs(k - crit) <= 1e-9 * crit
        ok = abs(r - want) <= 1e-7 * want and k >= thr * (1 - 1e-9) and k <= crit * (1 + 1e-9)
        ends[0] |= bool(ok and at_thr)
        ends[1] |= bool(ok and at_crit)
        ok = ok or (at_thr and 0 < r <= low * (1 + 1e-6)) or (at_crit and r >= high * (1 - 1e-6))
        cx.check(ok, "point-off-curve", f"({k}, {r}) drawn, the law gives {want}")
    cx.event("paris_points", len(x))
    cx.check(ends[0] or thr == 0, "end-missing", f"no point at the threshold {thr}")
    cx.check(ends[1] or crit == np.inf, "end-missing", f"no point at the critical value {crit}")
    cx.event("paris_ends", (thr > 0) + (crit < np.inf))
    for k in ref.paris_knees(slope, inter):
        cx.check(near(x, k), "knee-missing", f"no point at {k}")
        cx.event("paris_knees")
    if data is not None:
        judge_data(cx, *curve_line(cx, ax, "measured"), data)
    cx.check(curve.unit in ax.get_xlabel(), "axis-label", ax.get_xlabel())
    if "√" in curve.unit:
        cx.check(curve.unit.split("√")[1] in re.findall(r"\w+", ax.get_ylabel()), "axis-label",
                 f"{ax.get_ylabel()} of {curve.unit}")
    plt.close("all")


# --- notebook images ------------------------------------------------------------------
@contextlib.contextmanager
def printed():
    """The figures as they are when they are printed."""
    seen, orig = [], FigureCanvasBase.print_figure

    def spy(self, *args, **kwargs):
        out = orig(self, *args, **kwargs)
        axes = [a for a in self.figure.axes]
        seen.append(dict(
            lines=[(ln.get_linestyle(), ln.get_marker(), np.atleast_1d(ln.get_xdata()).astype(float),
                    np.atleast_1d(ln.get_ydata()).astype(float), ln.get_label()) for a in axes for ln in a.lines],
            dots=[np.asarray(c.get_offsets(), float) for a in axes for c in a.collections],
            texts=[t.get_text() for a in axes for t in a.texts]))
        return out

    FigureCanvasBase.print_figure = spy
    try:
        yield seen
    finally:
        FigureCanvasBase.print_figure = orig


def notebook(cx):
    """The picture of a curve in a notebook: its marked points and their labels."""
    rng = cx.rng
    if cx.index % 2:
        curve, (slope, inter, end) = make.sn_curve(rng)
        marks = [("Knee", n, s) for s, n in ref.sn_knees(slope, inter)]
        if end < np.inf:
            marks.append(("Endurance", end, ref.sn_stress(end, slope, inter, np.inf)))
        cx.note(slope=slope, intercept=inter, endurance=end)
    else:
        curve, par = make.paris_curve(rng, unit=str(rng.choice(["MPa √mm", "MPa √m", "ksi √in", "SIF"])))
        slope, inter, thr, crit = par
        rate = lambda k: ref.paris_rate(k, slope, inter, 0, np.inf)  # noqa: E731
        marks = [("Knee", k, rate(k)) for k in ref.paris_knees(slope, inter)]
        if thr > 0:
            marks.append(("Threshold", thr, rate(thr)))
        if crit < np.inf:
            marks.append(("Critical", crit, rate(crit)))
        cx.note(curve=par)
    cx.key(type(curve).__name__, repr((slope, inter)))
    open_ = plt.get_fignums()
    with printed() as seen:
        text = curve._repr_svg_()
    cx.check(plt.get_fignums() == open_, "figure-left", f"{open_} -> {plt.get_fignums()}")
    plt.close("all")
    cx.check("<svg" in text and "</svg>" in text, "notebook", "not an image")
    if not seen:
        raise Skip  # printed in another way
    fig = seen[-1]
    drawn = [(x, y) for style, _, xs, ys, _ in fig["lines"] if style in ("None", "", " ") for x, y in zip(xs, ys)]
    drawn += [tuple(p) for pts in fig["dots"] for p in pts]
    cx.check(len(drawn) == len(marks), "marked-points", f"{len(drawn)} points marked, not {len(marks)}",
             drawn=drawn, marks=marks)
    for what, x, y in marks:
        hit = [p for p in drawn if abs(p[0] - x) <= 1e-6 * x and abs(p[1] - y) <= 1e-6 * y]
        cx.check(len(hit) >= 1, "marked-points", f"{what} ({x}, {y}) is not marked", drawn=drawn)
        cx.event("marked_points")
    labels = []
    for line in fig["texts"]:
        got = re.fullmatch(r"(Knee|Endurance|Threshold|Critical)( \d+)?: \(([^,]+), ([^)]+)\)", line.strip())
        if got:
            labels.append((got[1], int(got[2] or 0), float(got[3]), float(got[4])))
    num = 0
    for what, x, y in marks:
        num += what == "Knee"
        mine = [lb for lb in labels if lb[0] == what and (what != "Knee" or lb[1] == num)]
        cx.check(len(mine) == 1, "point-label", f"{len(mine)} labels of the {what} {num}", texts=fig["texts"])
        ok = all(abs(a - b) <= 0.0055 * max(1.0, abs(b)) or (abs(b) < 1 and abs(a - b) <= 0.0055 * abs(b) + 0.0055)
                 for a, b in zip(mine[0][2:], (x, y)))
        cx.check(ok, "point-label", f"{what} {num} at ({x}, {y}) labelled {mine[0][2:]}")
        if y < 1e-3:  # a rate: three digits are given
            cx.check(abs(mine[0][3] - y) <= 0.0055 * y, "point-label", f"{what} rate {y} labelled {mine[0][3]}")
        cx.event("labelled_points")
    legend = [t for t in fig["texts"] if "Slope" in t]
    cx.check(len(legend) == 1, "curve-legend", f"{len(legend)} descriptions", texts=fig["texts"])
    nums = [float(v) for v in re.findall(r"[-+]?\d*\.?\d+(?:[eE][-+]?\d+)?", legend[0].split("Slope")[1])]
    for val in list(slope) + list(inter):
        cx.check(any(abs(v - val) <= 1e-6 * abs(val) for v in nums), "curve-legend", f"{val} not in {legend[0]!r}")
    for what, val, unit in re.findall(r"(Threshold|Critical): ([-+.\w]+), ([^,\n]*)", legend[0]):
        want = {"Threshold": curve.threshold, "Critical": curve.critical}[what]
        cx.check(unit.strip() == curve.unit and (float(val) == want or abs(float(val) - want) <= 0.0055),
                 "curve-legend", f"{what} {want} {curve.unit} described as {val} {unit}")
        cx.event("described_limits")
    cx.event("notebook_images")
    cx.sample(kind=type(curve).__name__, marks=marks, labels=labels)


def thresholds(cx):
    """Many thresholds, some of which are not restored by 10 ** log10."""
    rng = cx.rng
    thr = 10 ** rng.uniform(-1, 3, 300000)
    risky = np.r_[thr[10.0 ** np.log10(thr) < thr][:3], thr[:1]]
    cx.note(thresholds=risky)
    for val in (float(t) for t in risky):
        cx.key(val)
        curve = pf.ParisCurve(3.0, 1e-11, threshold=val, critical=val * 50)
        _, ax = curve.plot()
        x, y = curve_line(cx, ax, curve.name)
        plt.close("all")
        cx.check(bool(np.all(y > 0)), "point-off-curve", f"zero rate drawn at the threshold {val}")
        cx.event("risky_thresholds")


# --- cycle counts -------------------------------------------------------------------
def scatter(cx, ax):
    cx.check(len(ax.collections) == 1, "scatter", f"{len(ax.collections)} collections")
    col = ax.collections[0]
    pts = np.asarray(col.get_offsets(), float)
    val = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(col.get_array(), float)), np.nan)
    cx.check(len(val) == len(pts), "scatter", f"{len(val)} colours of {len(pts)} points")
    return pts, np.asarray(val, float)


def same_points(cx, got, want, mechanism, what):
    tol = 1e-9 * max(1e-12, float(np.max(np.abs(want))) if len(want) else 1)
    cx.check(len(got) == len(want), mechanism, f"{what}: {len(got)} points for {len(want)} cycles",
             got=got, want=want)
    cx.check(ref.same_multiset(got, want, tol), mechanism, f"{what}: points differ", got=got, want=want)


def edges_of(vals, num, span=None):
    lo, hi = (float(np.min(vals)), float(np.max(vals))) if span is None else span
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    return np.linspace(lo, hi, num + 1)


def cells(vals, edges):
    """Cell of each value, None outside; borderline cases are not judged."""
    wid = np.diff(edges)
    tol = 1e-9 * float(np.min(wid))
    inner = edges[1:-1]
    if len(inner) and np.any(np.abs(vals[:, None] - inner[None, :]) < tol):
        raise Skip
    out = np.searchsorted(edges, vals, side="right") - 1
    out[vals == edges[-1]] = len(edges) - 2
    out[(vals < edges[0]) | (vals > edges[-1])] = -1
    return out


def judge_colours(cx, pts, col, e_x, e_y, weights=None, density=False, func=None):
    i, j = cells(pts[:, 0], e_x), cells(pts[:, 1], e_y)
    inside = (i >= 0) & (j >= 0)
    wgt = np.ones(len(pts)) if weights is None else weights
    total = float(np.sum(wgt[inside]))
    for k in range(len(pts)):
        if not inside[k]:
            cx.check(np.isnan(col[k]), "colour", f"point {pts[k]} outside of the bins: {col[k]}")
            cx.event("outliers")
            continue
        want = float(np.sum(wgt[inside & (i == i[k]) & (j == j[k])]))
        if density:
            want /= total * (e_x[i[k] + 1] - e_x[i[k]]) * (e_y[j[k] + 1] - e_y[j[k]])
        if func is not None:
            want = float(func(want))
        cx.check(abs(col[k] - want) <= 1e-8 * max(abs(want), 1e-12), "colour",
                 f"point {pts[k]} drawn with {col[k]}, its cell has {want}")
        cx.event("coloured_points")


def judge_order(cx, col, mode):
    fin = col[np.isfinite(col)]
    step = np.diff(fin)
    if mode == "mountain":
        cx.check(bool(np.all(step >= 0)), "drawing-order", mode)
    elif mode == "valley":
        cx.check(bool(np.all(step <= 0)), "drawing-order", mode)


def cycles_of(cc):
    """(mean, range) of each full and half cycle."""
    out = []
    for rng_, mean, cnt in make.rows(cc):
        out += [(mean, rng_)] * int(cnt)
        if cnt % 1:
            out.append((mean, rng_))
    return np.array(out, float).reshape(-1, 2)


def histograms(cx):
    rng = cx.rng
    unit = str(rng.choice(gen.UNITS))
    if rng.random() < 0.5:
        cc = make.from_signal(rng, unit=unit)
    else:
        cc = make.direct(rng, unit=unit, res=None)
    kind = ["min-max", "mean-range", "counts-range", "counts-range-cumsum", "counts-range-2D"][cx.index % 5]
    mode = [None, "mountain", "valley"][int(rng.integers(0, 3))]
    cx.note(type=kind, mode=mode, rows=make.rows(cc))
    cx.key(kind, mode, make.rows(cc))
    kw, right = axes_for(cx, rng)
    opt = dict(plot_type=kind, mode=mode)
    cyc = cycles_of(cc)
    xy = cyc if kind == "mean-range" else np.column_stack(
        [cyc[:, 0] - cyc[:, 1] / 2, cyc[:, 0] + cyc[:, 1] / 2])
    span, density, func = None, False, None
    if np.any(np.ptp(cyc, axis=0) < 1e-9 * np.max(np.abs(cyc))):
        raise Skip  # all cycles in one place up to rounding
    if kind in ("min-max", "mean-range"):
        n_x, n_y = (int(v) for v in rng.integers(1, 60, 2))
        bins = n_x if rng.random() < 0.5 else [n_x, n_y]
        if np.ndim(bins) == 0:
            n_y = n_x
        if rng.random() < 0.7:
            opt["bins"] = bins
        else:
            n_x = n_y = 50
        if rng.random() < 0.3:
            span = [[float(np.quantile(v, 0.2)) - 0.01, float(np.quantile(v, 0.9)) + 0.02] for v in xy.T]
            opt["bin_range"] = span
        if rng.random() < 0.2:
            density = opt["normed"] = True
        if rng.random() < 0.2:
            func = opt["dens_func"] = np.sqrt
    fig, ax = cc.plot_histogram(**opt, **kw)
    cx.check(right(fig, ax), "given-axes", f"drawn elsewhere with {sorted(kw)}")
    pts, col = scatter(cx, ax)
    plt.close("all")
    cx.event(kind)
    labels = ax.get_xlabel() + ax.get_ylabel()
    cx.check(cc.unit in labels, "axis-label", labels)
    if kind in ("min-max", "mean-range"):
        same_points(cx, pts, xy, "points", kind)
        judge_order(cx, col, mode)
        if mode is None and np.all(np.isin(cc.count_cycle, (0.5, 1))):
            half = np.asarray(cc.count_cycle) == 0.5
            # full cycles and then half cycles
            want = np.r_[make.rows(cc)[~half], make.rows(cc)[half]][:, [1, 0]]
            if kind == "min-max":
                want = np.column_stack([want[:, 0] - want[:, 1] / 2, want[:, 0] + want[:, 1] / 2])
            same_points(cx, pts[:int(np.sum(~half))], want[:int(np.sum(~half))], "points", "full cycles")
        e_x = edges_of(pts[:, 0], n_x, span and span[0])
        e_y = edges_of(pts[:, 1], n_y, span and span[1])
        judge_colours(cx, pts, col, e_x, e_y, density=density, func=func)
        return
    rows = make.rows(cc)
    if kind == "counts-range-cumsum":
        order = np.argsort(pts[:, 0], kind="stable")
        drawn = pts[order]
        cx.check(bool(np.all(np.diff(drawn[:, 1]) <= 0)), "points", "ranges not in decreasing order")
        steps = np.diff(np.r_[0.0, drawn[:, 0]])
        same_points(cx, np.column_stack([steps, drawn[:, 1]]), rows[:, [2, 0]], "points", kind)
        cx.close(col[order], steps, "colour", kind, rtol=1e-6, atol=1e-9)
    else:
        same_points(cx, pts, rows[:, [2, 0]], "points", kind)
        cx.close(col, pts[:, 0], "colour", kind, rtol=1e-12)
    cx.event("coloured_points", len(pts))


def xy(cx):
    """The scatter of any two arrays, with weights and explicit edges."""
    rng = cx.rng
    n = int(rng.integers(1, 80))
    x, y = rng.normal(0, 30, n), rng.normal(10, 5, n)
    if rng.random() < 0.3:
        x = np.round(x)
    before = x.copy(), y.copy()
    mode = [None, "mountain", "valley"][cx.index % 3]
    opt = {}
    weights = None
    if rng.random() < 0.5:
        weights = opt["weights"] = np.round(rng.uniform(0.1, 4, n), 3)
    if rng.random() < 0.5:
        e_x, e_y = np.sort(rng.uniform(-50, 50, 7)), np.sort(rng.uniform(0, 20, 5))
        opt["bins"] = [e_x, e_y]
    else:
        e_x, e_y = edges_of(x, 8), edges_of(y, 8)
        opt["bins"] = 8
    density = False
    if rng.random() < 0.3:
        density = opt["normed"] = True
    cx.note(x=x, y=y, mode=mode, options=opt)
    cx.key(x, y, mode, repr(opt))
    if density and not np.any((cells(x, e_x) >= 0) & (cells(y, e_y) >= 0)):
        raise Skip
    kw, right = axes_for(cx, rng)
    fig, ax, _ = xy_hist2d(x, y, mode=mode, **opt, **kw)
    cx.check(right(fig, ax), "given-axes", f"drawn elsewhere with {sorted(kw)}")
    pts, col = scatter(cx, ax)
    plt.close("all")
    same_points(cx, pts, np.column_stack([x, y]), "points", "xy_hist2d")
    judge_order(cx, col, mode)
    if mode is None:
        cx.same(pts, np.column_stack([x, y]), "drawing-order", "None")
    if weights is not None:  # weights of the points in drawing order
        where = {(a, b): w for a, b, w in zip(x, y, weights)}
        weights = np.array([where[(a, b)] for a, b in pts])
    judge_colours(cx, pts, col, e_x, e_y, weights, density)
    cx.same((x, y)[0], before[0], "operand")
    cx.same(y, before[1], "operand")
    cx.raises(ValueError, lambda: xy_hist2d(x, y, mode="hill"), "unknown-mode")
    plt.close("all")


def residuals(cx):
    rng = cx.rng
    cc = make.from_signal(rng)
    for k in range(int(rng.integers(0, 4))):
        cc = cc + make.from_signal(rng, k + 1)
    seq = np.asarray(cc.residuals_sequence, float)
    cx.note(residuals=seq)
    cx.key(seq)
    kw, right = axes_for(cx, rng)
    name = "plot_residuals_sequence" if rng.random() < 0.7 else "plot_half_cycles_sequence"
    fig, ax = getattr(cc, name)(**kw)
    cx.check(right(fig, ax), "given-axes", f"drawn elsewhere with {sorted(kw)}")
    cx.check(len(ax.lines) == 2, "residual-plot", f"{len(ax.lines)} lines")
    pairs = [(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) for ln in ax.lines]
    plt.close("all")
    whole = [p for p in pairs if len(p[0]) == len(seq) and np.array_equal(p[1], seq)
             and np.array_equal(p[0], np.arange(len(seq)))]
    cx.check(len(whole) >= 1, "residual-plot", "the residuals sequence is not drawn")
    _, want, (val, start, end) = ref.count(seq)
    x, y = pairs[1] if whole[0] is pairs[0] else pairs[0]
    run = np.repeat(np.arange(len(start)), end - start + 1)
    cx.check(run[x.astype(int)].tolist() == list(want), "residual-plot", "not the residual of the residual",
             got=x, want=want)
    cx.same(y, seq[x.astype(int)], "residual-plot", "values")
    cx.event("residual_plots")


def aggregated(cx):
    rng = cx.rng
    days = int(rng.integers(2, 5))
    index = pd.date_range("2020-01-01", periods=2 * days, freq="12h", tz="UTC")
    ccs = [make.from_signal(rng, 72 * k, max_size=40) for k in range(2 * days)]
    frame = pd.DataFrame({"CC_a": pd.Series(ccs, index=index, dtype=object)})
    cx.key(repr([make.rows(c)[:2] for c in ccs]))
    res = {by: aggregate_cc(frame, by, save_residuals=True)[1] for by in ("h", "D", "M", "all")}
    fig, ax = plot_aggregated_residuals(res, "CC_a", minor_grid=bool(rng.integers(0, 2)))
    cx.check(len(ax.lines) == len(res), "aggregated-plot", f"{len(ax.lines)} lines")
    for line in ax.lines:
        got = res[line.get_label()]["CC_a"]
        cx.same(np.asarray(line.get_xdata(), float), np.asarray(got["idx"], float), "aggregated-plot")
        cx.same(np.asarray(line.get_ydata(), float), np.asarray(got["res"], float), "aggregated-plot")
    plt.close("all")
    cx.event("aggregated_plots")


def damage(cx):
    rng = cx.rng
    unit = str(rng.choice(gen.UNITS))
    cc, _ = make.anyhow(rng, unit=unit)
    curve, _ = make.sn_curve(rng, unit=unit)
    table = cc.to_df()
    table.miner.damage(curve)
    func = np.sqrt if rng.random() < 0.4 else None
    cx.note(rows=make.rows(cc), function=str(func))
    cx.key(make.rows(cc), str(func))
    kw, right = axes_for(cx, rng)
    fig, ax = table.miner.plot_histogram(dens_func=func, **kw)
    cx.check(right(fig, ax), "given-axes", f"drawn elsewhere with {sorted(kw)}")
    pts, col = scatter(cx, ax)
    plt.close("all")
    dmg = table["pm_damage"].to_numpy(float)
    want = np.column_stack([table["count_cycle"], table["stress_range"],
                            dmg if func is None else func(dmg)]).astype(float)
    cx.check(ref.same_multiset(np.column_stack([pts, col]), want, 0.0), "points", "damage plot")
    cx.check(unit in ax.get_ylabel() and (unit == "MPa" or "MPa" not in ax.get_ylabel()),
             "axis-label", f"{ax.get_ylabel()!r} of ranges in {unit}")
    cx.event("damage_plots")


def corrections(cx):
    """The figures of the mean stress corrections."""
    rng = cx.rng
    n = int(rng.integers(1, 40))
    amp = rng.uniform(0.5, 60, n)
    if rng.random() < 0.5:
        amp = np.ceil(amp / 10) * 10  # equal ranges
    kind = ["dnv", "walker", "swt"][cx.index % 3]
    mean = rng.normal(0, 40, n) if kind == "dnv" else rng.uniform(-0.9, 3, n) * amp
    if np.any(np.abs(mean + amp) < 1e-6):
        raise Skip
    opt = {"dnv": dict(detail_factor=float(rng.choice([0.6, 0.8]))),
           "walker": dict(gamma=float(rng.uniform(0.2, 0.9))), "swt": {}}[kind]
    cx.note(mean=mean, amplitude=amp, correction=kind, **opt)
    cx.key(mean, amp, kind, repr(opt))
    direct = rng.random() < 0.5
    func = {"dnv": msc.dnvgl_mean_stress_correction, "walker": msc.walker_mean_stress_correction,
            "swt": msc.swt_mean_stress_correction}[kind]
    if direct:
        quiet, got = func(mean, amp, **opt), func(mean, amp, plot=True, **opt)
        full = True
    else:
        cc = pf.CycleCount(count_cycle=np.ones(n), stress_range=2 * amp, mean_stress=mean,
                           timestamp=gen.stamp(rng), name="x")
        name = {"dnv": "dnvgl-rp-c203", "walker": "walker", "swt": "smith-watson-topper"}[kind]
        args = dict(correction_type=name, enforce_pulsating_load=False, **opt)
        quiet = np.asarray(cc.mean_stress_correction(**args).stress_range)
        got = np.asarray(cc.mean_stress_correction(plot=True, **args).stress_range)
        full = len(got) == n
    cx.same(got, quiet, "plot-changes-result", kind)
    nums = plt.get_fignums()
    cx.check(len(nums) == 1, "correction-plot", f"{len(nums)} figures")
    ax = plt.figure(nums[0]).axes[0]
    cx.check(len(ax.lines) == 1, "correction-plot", f"{len(ax.lines)} lines")
    pts = np.column_stack([ax.lines[0].get_xdata(), ax.lines[0].get_ydata()]).astype(float)
    plt.close("all")
    corr = func(mean, amp, **opt)
    want = np.column_stack([(mean - amp) / (mean + amp), corr / (2 * amp)] if kind == "dnv" else [2 * amp, corr])
    cx.check(full and len(pts) == n, "correction-plot", f"{len(pts)} points of {n} cycles")
    srt = lambda v: v[np.lexsort((v[:, 1], v[:, 0]))]  # noqa: E731
    cx.close(srt(pts), srt(want), "correction-plot", kind, rtol=1e-9, atol=1e-9)
    cx.event("correction_plots")


# --- geometry -------------------------------------------------------------------------
def geometry(cx):
    rng = cx.rng
    geo = crack.cylinder(rng)
    r_o, depth = geo.outer_diameter / 2, geo.initial_depth
    if not ref.section_judged(depth, geo.outer_diameter, geo.width_to_depth_ratio):
        raise Skip
    alpha, c_v, a_h, r_e = ref.crack_section(depth, r_o, geo.width_to_depth_ratio)
    cx.note(geometry=crack.describe(geo))
    cx.key(repr(crack.describe(geo)))
    kw, right = axes_for(cx, rng)
    fig, ax = geo.plot(**kw)
    cx.check(right(fig, ax), "given-axes", f"drawn elsewhere with {sorted(kw)}")
    cx.check(len(ax.lines) == 3, "geometry-plot", f"{len(ax.lines)} lines")
    lines = [np.column_stack([ln.get_xdata(), ln.get_ydata()]).astype(float) for ln in ax.lines]
    plt.close("all")
    tol = 1e-7 * r_o
    walls = {"outer": r_o, "inner": r_o - geo.thickness}
    rest = []
    for pts in lines:
        rad = np.hypot(pts[:, 0], pts[:, 1])
        hit = [w for w, r in walls.items() if np.all(np.abs(rad - r) <= tol)]
        ang = np.sort(np.mod(np.arctan2(pts[:, 1], pts[:, 0]), 2 * math.pi))
        gap = float(np.max(np.diff(np.r_[ang, ang[0] + 2 * math.pi])))
        if hit and gap < 0.3:
            walls.pop(hit[0])
        else:
            rest.append(pts)
    cx.check(not walls and len(rest) == 1, "wall-off-circle", f"{sorted(walls)} wall not drawn")
    pts = rest[0]
    on_outer = np.abs(np.hypot(pts[:, 0], pts[:, 1]) - r_o) <= tol
    centre = -(r_o + r_e - depth)
    on_front = np.abs(np.hypot(pts[:, 0] - centre, pts[:, 1]) - abs(r_e)) <= tol + 1e-9 * abs(r_e)
    cx.check(bool(np.all(on_outer | on_front)), "crack-off-circle", "crack contour on neither circle",
             points=pts[~(on_outer | on_front)])
    wide = c_v if a_h <= c_v else r_e
    cx.check(bool(np.all(np.abs(pts[:, 1]) <= wide + tol)), "crack-too-wide", f"{np.max(pts[:, 1])} > {wide}")
    beta = math.acos(max(-1.0, min(1.0, (-r_o * math.cos(alpha) - centre) / r_e)))
    sgn = math.copysign(1, r_e)
    phi = np.sort(np.arctan2(pts[:, 1], sgn * (pts[:, 0] - centre))[on_front & ~on_outer])
    cx.check(bool(np.all(np.abs(phi) <= beta * (1 + 1e-6))), "crack-front-end", "front beyond the surface")
    gap = float(np.max(np.diff(np.r_[-beta, phi, beta])))
    cx.check(gap <= 0.25 * beta, "crack-front-gap", f"gap of {gap} in a front of {2 * beta} rad")
    cx.event("narrow_cracks", int(a_h > c_v))
    corner = np.array([-r_o * math.cos(alpha), c_v])
    for sgn in (1, -1):
        dist = np.hypot(pts[:, 0] - corner[0], pts[:, 1] - sgn * corner[1])
        cx.check(float(np.min(dist)) <= 1e-6 * r_o, "crack-corner", f"no point at the corner {corner}")
    step = 0.04 * c_v
    for name, tip in (("deepest point", depth - r_o), ("mouth", -r_o)):
        dist = np.hypot(pts[:, 0] - tip, pts[:, 1])
        room = step if name == "mouth" else max(step, 0.08 * abs(r_e) * beta)
        cx.check(float(np.min(dist)) <= room, "crack-" + name.split()[0], f"no point near the {name}")
    cx.event("crack_plots")
    inner = HollowCylinder(initial_depth=depth, outer_diameter=geo.outer_diameter, height=geo.height,
                           thickness=geo.thickness, crack_position="internal",
                           width_to_depth_ratio=geo.width_to_depth_ratio)
    cx.raises(NotImplementedError, inner.plot, "internal-crack")


WORKLOADS = [
    Workload("sn", sn, 80, 800),
    Workload("paris", paris, 80, 800),
    Workload("notebook", notebook, 40, 400),
    Workload("thresholds", thresholds, 6, 60),
    Workload("histograms", histograms, 150, 1500),
    Workload("xy", xy, 90, 900),
    Workload("residuals", residuals, 50, 500),
    Workload("aggregated", aggregated, 12, 120),
    Workload("damage", damage, 40, 400),
    Workload("corrections", corrections, 45, 450),
    Workload("geometry", geometry, 60, 600),
]
