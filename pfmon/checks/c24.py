"""C24: stress bins and histograms."""
import numpy as np

import py_fatigue as pf
from py_fatigue.cycle_count import histogram as ht
from py_fatigue.mean_stress import MeanStress
from py_fatigue.stress_range import StressRange

from pfmon import gen, make, ref
from pfmon.core import Skip, Workload

RULE = (
    "A case is a set of values with a bin definition, a cycle count, or a 2D "
    "point set with edges. Non-trivial: at least one value; distinct by values "
    "and bins."
)
REQUIRED_EVENTS = ["values_binned", "edges", "histograms", "looked_up", "outside",
                   "on_an_edge", "explicit_upper_bound", "all_below_lower_bound", "large_numbers"]
TOL = ref.EDGE_TOL


def judge_edges(cx, edges, lower, width, top, what):
    edges = np.asarray(edges, float)
    cx.check(edges.ndim == 1 and len(edges) >= 2, "edges-number", f"{what}: {edges}")
    tol = TOL + 1e-9 * np.max(np.abs(edges))
    cx.check(abs(edges[0] - lower) <= tol, "edges-start", f"{what}: {edges[0]} not {lower}")
    cx.check(bool(np.all(np.abs(np.diff(edges) - width) <= tol)), "edges-width",
             f"{what}: widths {np.unique(np.diff(edges))[:5]} not {width}")
    cx.check(edges[-1] >= top - tol, "edges-cover", f"{what}: {edges[-1]} below {top}")
    cx.event("edges", len(edges))


def stress(cx):
    rng = cx.rng
    counts, ranges, means = gen.spectrum(rng)
    which = StressRange if rng.random() < 0.5 else MeanStress
    width = float(rng.choice([0.05, 0.1, 0.25, 1.0, 3.0, 10.0]))
    values = ranges if which is StressRange else means
    if rng.random() < 0.15:  # large numbers
        factor = float(10 ** rng.uniform(1, 3.5))
        values, width = values * factor, width * factor
        cx.event("large_numbers")
    elif rng.random() < 0.4:  # values on edges
        values = np.round(values / width) * width
        cx.event("on_an_edge")
    if np.ptp(values) / width > 2e5:
        raise Skip
    lower = None
    if which is StressRange or rng.random() < 0.5:
        lower = float(rng.choice([0.0, 0.1, 0.2, 1.0])) if which is StressRange \
            else float(values.min() - rng.uniform(0, 2) * width)
        if rng.random() < 0.2 and width not in (0.05, 0.1, 0.25, 1.0, 3.0, 10.0):
            lower = float(rng.uniform(0, 2) * width)
    cx.note(values=values, counts=counts, width=width, lower=lower, cls=which.__name__)
    cx.key(values, counts, width, lower)
    upper = None
    if rng.random() < 0.3:  # explicit, above all values
        upper = float(max(values.max(), lower or 0) + rng.uniform(0.01, 4) * width)
        cx.event("explicit_upper_bound")
    obj = which(_counts=counts, _values=values, bin_width=width, _bin_lb=lower, _bin_ub=upper)
    whole = np.floor(counts).astype(int)
    full = np.repeat(values, whole)
    low = obj.bin_lb
    if lower is not None:
        cx.check(low == lower, "lower-bound", f"{low} not {lower}")
    else:
        cx.check(low <= values.min() + 1e-9 and low > values.min() - 1.5 * width - 1e-9,
                 "lower-bound", f"{low} for minimum {values.min()}")
    edges = obj.bin_edges
    top = full.max() if len(full) else low
    judge_edges(cx, edges, low, width, max(top, low, low if upper is None else upper),
                which.__name__)
    cx.close(obj.bin_centers, edges[:-1] + width / 2, "bin-centres", atol=TOL)
    idx = np.asarray(obj.bins_idx)
    got = np.asarray(obj.full)
    cx.check(len(idx) == len(full) == len(got), "bins-number", f"{len(idx)} for {len(full)}")
    cx.check(bool(np.array_equal(np.sort(got), np.sort(full))), "full-values", "")
    for val, i, b_val in zip(got, idx, obj.binned_values):
        if val < low - 1e-9:
            continue
        cand = ref.bin_candidates(val, low, width)
        cx.check(int(i) in cand, "bin-of-value", f"{val} in bin {i}, not {cand}")
        cx.check(abs(b_val - (low + (int(i) + 0.5) * width)) <= TOL + 1e-9 * abs(b_val),
                 "centre-of-value", f"{val}: {b_val}")
    cx.event("values_binned", len(full))
    cx.sample(values=values[:6], width=width, lower=lower)


def counts_bins(cx):
    cc, route = make.anyhow(cx.rng, 3)
    if cx.rng.random() < 0.1:  # every cycle below the lower bound
        cc.range_bin_lower_bound = float(np.max(cc.stress_range) * cx.rng.uniform(1, 3) + 1)
    cx.note(route=route, rows=make.rows(cc))
    cx.key(make.rows(cc), "cc")
    cnt = np.floor(np.asarray(cc.count_cycle)) > 0
    w_r, w_m = cc.range_bin_width, cc.mean_bin_width
    if min(w_r, w_m) < 1e-3 or np.max(cc.stress_range) / w_r > 2e5 or \
            np.ptp(cc.mean_stress) / w_m > 2e5 or np.max(np.abs(cc.mean_stress)) > 1e6:
        raise Skip
    ran, mea = np.asarray(cc.stress_range), np.asarray(cc.mean_stress)
    top_r = ran[cnt].max() if cnt.any() else ran.max()
    top_m = mea[cnt].max() if cnt.any() else mea.max()
    if min(top_r - cc.range_bin_lower_bound, top_m - cc.mean_bin_lower_bound) <= TOL:
        # nothing to bin: the edges still start at the lower bound
        for edges, low, width in zip(cc.bin_edges, (cc.mean_bin_lower_bound, cc.range_bin_lower_bound),
                                     (w_m, w_r)):
            cx.close(edges[0], low, "edges-start", "below the lower bound", atol=TOL)
            cx.close(np.diff(edges), np.full(len(edges) - 1, width), "edges-width",
                     "below the lower bound", atol=2 * TOL)
        cx.check(list(map(len, cc.bin_centers)) == [len(e) - 1 for e in cc.bin_edges], "bin-centres",
                 "below the lower bound")
        cx.event("all_below_lower_bound")
        return
    e_m, e_r = cc.bin_edges
    judge_edges(cx, e_r, cc.range_bin_lower_bound, w_r, top_r, "range")
    judge_edges(cx, e_m, cc.mean_bin_lower_bound, w_m, top_m, "mean")
    c_m, c_r = cc.bin_centers
    cx.close(c_r, np.asarray(e_r)[:-1] + w_r / 2, "bin-centres", atol=TOL)
    cx.close(c_m, np.asarray(e_m)[:-1] + w_m / 2, "bin-centres", atol=TOL)


def cell(val, edges):
    """Bin of a value: closed on the left, the last one on both sides."""
    if val < edges[0] or val > edges[-1]:
        return None
    if val == edges[-1]:
        return len(edges) - 2
    return int(np.searchsorted(edges, val, side="right")) - 1


def histograms(cx):
    rng = cx.rng
    n = int(rng.integers(1, 200)) if cx.index % 50 != 3 else int(rng.integers(1000, 6000))
    grid = rng.random() < 0.4
    x = rng.integers(-8, 9, n).astype(float) if grid else rng.normal(0, 10, n)
    y = rng.integers(0, 20, n).astype(float) if grid else 10 ** rng.uniform(-1, 2, n)
    mode = int(rng.integers(0, 4))
    bin_range = None
    if mode == 0:
        bins = int(rng.integers(1, 40))
    elif mode == 1:
        bins = [int(rng.integers(1, 30)), int(rng.integers(1, 30))]
    else:
        e_x = np.unique(np.round(np.sort(rng.uniform(-9, 9, int(rng.integers(2, 12))))))
        e_y = np.unique(np.round(np.sort(rng.uniform(0, 25, int(rng.integers(2, 12))))))
        if len(e_x) < 2 or len(e_y) < 2:
            e_x, e_y = np.array([-5.0, 0.0, 5.0]), np.array([0.0, 4.0, 10.0])
        bins = [e_x, e_y]
    if mode < 2 and rng.random() < 0.5:
        bin_range = np.array([[-6.5, 4.25], [1.25, 12.5]])
    weights = rng.uniform(0.1, 3, n) if rng.random() < 0.5 else None
    cx.note(x=x, y=y, bins=bins, bin_range=bin_range, weights=weights)
    cx.key(x, y, repr(bins))
    hist, edges = ht.make_histogram(x, y, bins=bins, bin_range=bin_range, weights=weights)
    e_x, e_y = (np.asarray(e, float) for e in edges)
    hist = np.asarray(hist)
    cx.check(hist.shape == (len(e_x) - 1, len(e_y) - 1), "histogram-shape", str(hist.shape))
    if mode >= 2:
        cx.same(e_x, bins[0], "histogram-edges")
        cx.same(e_y, bins[1], "histogram-edges")
    else:
        n_x, n_y = (bins, bins) if mode == 0 else bins
        cx.check(len(e_x) == n_x + 1 and len(e_y) == n_y + 1, "histogram-edges", "number")
        if bin_range is not None:
            cx.close([e_x[0], e_x[-1], e_y[0], e_y[-1]], bin_range.ravel(), "histogram-edges")
    want = np.zeros(hist.shape)
    wts = np.ones(n) if weights is None else weights
    places = []
    for a, b, w in zip(x, y, wts):
        i, j = cell(a, e_x), cell(b, e_y)
        places.append(None if i is None or j is None else (i, j))
        if places[-1] is not None:
            want[i, j] += w
    cx.close(hist, want, "histogram-cells", rtol=1e-9, atol=1e-12)
    cx.event("histograms")
    # look-up, also of points outside
    off = float(rng.choice([1.0, 1e-4, 1e-9]))
    p_x = np.r_[x, e_x[0] - off, e_x[-1] + off, x[0], x[0], e_x[0], e_x[-1], e_x[-1]]
    p_y = np.r_[y, y[0], y[0], e_y[0] - off, e_y[-1] + off, e_y[0], e_y[-1], e_y[0]]
    vals = np.asarray(ht.map_hist(p_x, p_y, hist, edges))
    cx.check(vals.shape == p_x.shape, "lookup-shape", str(vals.shape))
    for a, b, v in zip(p_x, p_y, vals):
        i, j = cell(a, e_x), cell(b, e_y)
        if i is None or j is None:
            cx.check(bool(np.isnan(v)), "lookup-outside", f"({a}, {b}) outside got {v}")
            cx.event("outside")
        else:
            cx.check(v == hist[i, j], "lookup", f"({a}, {b}) got {v} not {hist[i, j]}")
            cx.event("looked_up")
    if mode != 0 or n > 1:
        area = np.outer(np.diff(e_x), np.diff(e_y))
        for w_i in (None, weights):
            tally = hist if w_i is weights else np.asarray(
                ht.make_histogram(x, y, bins=bins, bin_range=bin_range)[0])
            if tally.sum() <= 0:
                continue
            dens, _ = ht.make_histogram(x, y, bins=bins, bin_range=bin_range, normed=True,
                                        weights=w_i)
            cx.close(dens * area, tally / tally.sum(), "histogram-density", rtol=1e-9, atol=1e-15)
            cx.event("densities")
    if n > 1:
        cx.raises(ValueError, lambda: ht.make_histogram(x, y[:-1]), "histogram-lengths")


WORKLOADS = [
    Workload("stress", stress, 900, 12000),
    Workload("counts", counts_bins, 300, 3000),
    Workload("histograms", histograms, 600, 8000),
]
