"""Objects of the code under test, built from generated inputs."""
from __future__ import annotations

import copy

import numpy as np

import py_fatigue as pf

from pfmon import gen

FIELDS = (
    "count_cycle", "stress_range", "mean_stress", "timestamp", "unit",
    "range_bin_lower_bound", "range_bin_width", "mean_bin_lower_bound",
    "mean_bin_width", "nr_small_cycles", "residuals_sequence",
    "min_max_sequence", "lffd_solved", "mean_stress_corrected",
    "stress_concentration_factor", "name", "time_sequence",
)


def fields(cc):
    """Public data of a cycle count (copied)."""
    return {f: copy.deepcopy(getattr(cc, f)) for f in FIELDS}


def same_value(a, b, rtol=0.0):
    """Equality of two public data values."""
    if a is None or b is None:
        return a is b
    if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "fiub" and y.dtype.kind in "fiub":
            if rtol:
                return bool(np.allclose(x, y, rtol=rtol, atol=0, equal_nan=True))
            return bool(np.array_equal(x, y, equal_nan=x.dtype.kind == "f" and y.dtype.kind == "f"))
        return bool(np.all(x == y))
    if rtol and isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return bool(np.isclose(a, b, rtol=rtol, atol=0, equal_nan=True))
    return bool(a == b)


def same_fields(a, b, skip=(), rtol=0.0):
    """Names of the fields that differ between two field dictionaries."""
    return [f for f in a if f not in skip and not same_value(a[f], b[f], rtol)]


def rows(cc):
    return np.column_stack([
        np.asarray(cc.stress_range, float), np.asarray(cc.mean_stress, float),
        np.asarray(cc.count_cycle, float)])


def sort_rows(arr):
    return arr[np.lexsort(arr.T[::-1])]


def same_rows(a, b):
    """Exact multiset equality of row arrays."""
    return a.shape == b.shape and bool(np.array_equal(sort_rows(a), sort_rows(b)))


def from_signal(rng, k=0, x=None, name="a", unit="MPa", bins=None, max_size=80, tz=True):
    if x is None:
        x, _ = gen.signal(rng, max_size=max_size)
    kw = dict(bins if bins is not None else gen.bins(rng))
    if bins is None:
        kw["mean_bin_lower_bound"] = gen.mean_bound(rng, float(np.min(x)), kw["mean_bin_width"])
    return pf.CycleCount.from_timeseries(
        x, timestamp=gen.stamp(rng, k, tz), name=name, unit=unit, **kw)


def stored(rng, counts, ranges, means):
    """The same rows as whole numbers or in other memory layouts, now and then."""
    draw = rng.random()
    if draw < 0.12:
        kind = np.int64 if draw < 0.08 else np.int32
        ranges, means = np.ceil(ranges).astype(kind), np.round(means).astype(kind)
        if draw < 0.06:
            counts = np.ceil(counts).astype(kind)
    elif draw < 0.24:
        counts, ranges, means = (gen.layout(rng, v) for v in (counts, ranges, means))
    return counts, ranges, means


def direct(rng, k=0, name="a", unit="MPa", bins=None, max_rows=60, big=False, tz=True, res=...):
    """A cycle count built from its data, with clustered counts."""
    counts, ranges, means = gen.spectrum(rng, max_rows, big)
    counts, ranges, means = stored(rng, counts, ranges, means)
    kw = dict(bins if bins is not None else gen.bins(rng))
    if res is ...:
        res = gen.signal(rng, max_size=30)[0] if rng.random() < 0.8 else None
        if res is None and rng.random() < 0.5:
            res = np.empty(0)
    cc = pf.CycleCount(
        count_cycle=counts, stress_range=ranges, mean_stress=means,
        timestamp=gen.stamp(rng, k, tz), unit=unit, name=name,
        nr_small_cycles=int(rng.integers(0, 50)), residuals_sequence=res,
        **{f: kw[f] for f in ("range_bin_lower_bound", "range_bin_width", "mean_bin_width")})
    low = gen.mean_bound(rng, float(np.min(means)), kw["mean_bin_width"])
    if low is not None:
        cc.mean_bin_lower_bound = low
    return cc


def anyhow(rng, k=0, **kw):
    """A cycle count by one of the routes users take."""
    route = str(rng.choice(["signal", "direct", "sum", "scaled", "solved", "import"]))
    if route in ("signal", "scaled") and "max_size" not in kw and rng.random() < 0.08:
        kw["x"] = gen.signal(rng, kind=str(rng.choice(["gauss", "walk", "levels", "plateaus", "sines",
                                                       "saw", "block"])),
                             size=int(rng.integers(500, 5000)))[0]
    if route == "signal":
        cc = from_signal(rng, k, **kw)
    elif route == "direct":
        cc = direct(rng, k, **kw)
    elif route == "sum":
        cc = from_signal(rng, k, **kw)
        for i in range(int(rng.integers(1, 5))):
            cc = cc + from_signal(rng, k + 1 + i, **kw)
    elif route == "scaled":
        cc = from_signal(rng, k, **kw) * float(rng.uniform(0.2, 4))
    elif route == "solved":
        cc = from_signal(rng, k, **kw) + from_signal(rng, k + 1, **kw)
        cc = cc.solve_lffd()
    else:
        x = np.round(np.cumsum(rng.normal(0, 4, 80)), 2)
        src = from_signal(rng, k, x=x, bins=dict(
            range_bin_lower_bound=0.5, range_bin_width=0.5, mean_bin_width=5.0))
        kw.pop("bins", None)
        kw.pop("tz", None)
        cc = pf.CycleCount.from_rainflow(
            src.as_dict(), timestamp=gen.stamp(rng, k), **{"name": "a", **kw})
    return cc, route


# --- material -------------------------------------------------------------------
def named(rng):
    """Names shared by many curves, or none."""
    if rng.random() < 0.5:
        return {}
    return dict(norm="DNV", environment="Air", curve=str(rng.choice(["B1", "D"])))


def sn_curve(rng, branches=None, endurance=None, unit="MPa", **kw):
    """An S-N curve and its parameters."""
    slope, intercept, end = gen.sn_params(rng, branches, endurance)
    one = len(slope) == 1
    kw = kw or named(rng)
    form = int(rng.integers(0, 3))
    if one and form == 0:
        s_arg, i_arg = slope[0], intercept[0]
    elif form == 1:
        s_arg, i_arg = np.array(slope), np.array(intercept)
    else:
        s_arg, i_arg = list(slope), list(intercept)
    curve = pf.SNCurve(s_arg, i_arg, endurance=end, unit_string=unit, **kw)
    return curve, (slope, intercept, end)


def paris_curve(rng, segments=None, unit="MPa √mm", **kw):
    """A Paris curve and its parameters."""
    par = gen.paris_params(rng, segments)
    kw = kw or named(rng)
    form = int(rng.integers(0, 3))
    if len(par[0]) == 1 and form == 0:
        s_arg, i_arg = par[0][0], par[1][0]
    elif form == 1:
        s_arg, i_arg = np.array(par[0]), np.array(par[1])
    else:
        s_arg, i_arg = list(par[0]), list(par[1])
    curve = pf.ParisCurve(s_arg, i_arg, threshold=par[2], critical=par[3], unit_string=unit, **kw)
    return curve, par
