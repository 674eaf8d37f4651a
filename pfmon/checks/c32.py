"""C32: requests without an answer are refused."""
import copy

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

import py_fatigue as pf
from py_fatigue.cycle_count import calc_rainflow
from py_fatigue.cycle_count import histogram as ht
from py_fatigue.cycle_count import rainflow as rf
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage
from py_fatigue.damage import crack_growth, stress_life as sl
from py_fatigue.mean_stress import MeanStress
from py_fatigue.stress_range import StressRange
from py_fatigue.utils import make_axes

from pfmon import crack, gen, make
from pfmon.checks.c16 import prepare  # noqa: F401  (no pauses in the sums)
from pfmon.core import Workload
from pfmon.observe import snap

RULE = (
    "A case is one kind of request with a wrong part, its operands, and the right request "
    "next to it. Non-trivial: every case; distinct by kind and operands."
)
REQUIRED_EVENTS = ["refused", "answered"]
NAMES = ("DNVGL-RP-C203", "Walker", "SWT", "Smith-Watson-Topper")
MODES = ("min-max", "min/max", "min max", "residuals")
PLOTS = ("min-max", "mean-range", "counts-range", "counts-range-cumsum", "counts-range-2D")
RULES = ("pavlou", "manson", "manson and halford", "manson halford", "leve", "si jian",
         "si jian et al")


def other_name(rng, names, fold=True):
    """A name near the valid ones, or far from all of them."""
    valid = {n.lower() for n in names} if fold else set(names)
    for _ in range(100):
        base = str(rng.choice(names))
        k = int(rng.integers(0, len(base)))
        new = [base + "2", base[:-1], base[1:], " " + base, base + " ", base.replace("-", "_"),
               base + "," + base, "", "x", "none", base[:k] + base[k + 1:],
               base.replace(" ", "  "), base[::-1]][int(rng.integers(0, 13))]
        if (new.lower() if fold else new) not in valid:
            return new
    return "x"


def other_length(rng, n):
    """A length that is not n."""
    m = int(rng.choice([n - 1, n + 1, 1, 2 * n, n + 7, max(1, n // 2)]))
    return m if m != n and m > 0 else n + 1


def as_given(rng, arr):
    return arr.tolist() if rng.random() < 0.3 else arr


def refuse(cx, fn, what, operands=(), errors=Exception):
    """fn raises and its operands stay as they were."""
    before = [snap(o) for o in operands]
    try:
        res = fn()
    except errors as exc:
        cx.event("refused")
        cx.event("refused_" + type(exc).__name__)
        cx.check(True, "accepted")
    else:
        cx.check(False, "accepted", f"{what} was answered", got=repr(res)[:300])
    finally:
        plt.close("all")
    for old, obj in zip(before, operands):
        cx.check(snap(obj) == old, "changed", f"{what}: the refused request changed its operand")


def answer(cx, fn, what):
    try:
        res = fn()
        cx.check(True, "refused")
        cx.event("answered")
        return res
    except Exception as exc:  # pylint: disable=broad-except
        cx.check(False, "refused", f"{what} was refused: {type(exc).__name__}: {exc}")
    finally:
        plt.close("all")


def signals(cx):
    rng = cx.rng
    x = np.round(rng.normal(0, 20, int(rng.integers(3, 60))), 2)
    x[0] = x[1] + 5
    cx.note(signal=x)
    cx.key("signal", x)
    bads = {"text": "1 2 3", "nothing": None, "number": float(x[0]), "tuple": tuple(x),
            "dictionary": dict(enumerate(x)), "series": pd.Series(x), "bytes": b"abc",
            "set": set(x.tolist()), "generator": (v for v in x), "range": range(5),
            "table": pd.DataFrame({"x": x}), "words": ["a", "b", "c"],
            "zero-dimensional": np.array(x[0])}
    for how, bad in bads.items():
        refuse(cx, lambda b=bad: rf.rainflow(b), f"rainflow of a {how}")
        refuse(cx, lambda b=bad: calc_rainflow(data=b), f"calc_rainflow of a {how}")
        refuse(cx, lambda b=bad: pf.CycleCount.from_timeseries(b), f"count of a {how}")
    gap = x.copy()
    gap[int(rng.integers(0, len(gap)))] = np.nan
    for fn in (rf.rainflow, rf.findtp, pf.CycleCount.from_timeseries):
        refuse(cx, lambda f=fn: f(gap), "missing value", [gap])
    for good in (x, x.tolist()):
        answer(cx, lambda g=good: rf.rainflow(g), "signal")
        answer(cx, lambda g=good: pf.CycleCount.from_timeseries(g), "signal")
    # time vectors
    n = len(x)
    t = np.cumsum(rng.uniform(0.1, 1, n))
    longer = np.cumsum(rng.uniform(0.1, 1, other_length(rng, n)))
    wrong = [as_given(rng, longer), "t" * n, tuple(t), pd.Series(t), 0.1, {i: v for i, v in enumerate(t)}]
    for bad in wrong:
        for fn in (lambda b: rf.rainflow(x, time=b), lambda b: calc_rainflow(data=x, time=b),
                   lambda b: pf.CycleCount.from_timeseries(x, b)):
            refuse(cx, lambda f=fn, b=bad: f(b), f"time vector {type(bad).__name__} of "
                   f"{np.size(bad)} for {n} samples", [x])
    answer(cx, lambda: rf.rainflow(x, time=as_given(rng, t)), "time")
    level = float(np.mean(x))
    bad = other_name(rng, ("d", "u", "du", "all"), fold=False)
    refuse(cx, lambda: rf.findcross(x, level, kind=bad), f"crossings of kind {bad!r}", [x], ValueError)
    for good in (None, "d", "u", "du", "all"):
        answer(cx, lambda g=good: rf.findcross(x, level, kind=g), f"crossings of kind {good}")


def imports(cx):
    rng = cx.rng
    src = make.from_signal(rng, x=np.round(np.cumsum(rng.normal(0, 6, int(rng.integers(20, 90)))), 2),
                           bins=dict(range_bin_lower_bound=0.5, range_bin_width=0.5, mean_bin_width=5.0))
    legacy = bool(rng.integers(0, 2))
    dct = src.as_dict(legacy_export=legacy)
    cx.note(dictionary=dct)
    cx.key("import", repr(dct))

    def load(**kw):
        new = {**copy.deepcopy(dct), **kw}
        return lambda: pf.CycleCount.from_rainflow({k: v for k, v in new.items() if v is not ...})

    answer(cx, load(), "export")
    key = str(rng.choice(["residuals", "Hist", "hist ", "name", "unit", "range_bin", "lg", "RES", "",
                          "timestamp", "mean_bin", "histogram", "small_cycles"]))
    refuse(cx, load(**{key: 1}), f"key {key!r}", errors=KeyError)
    refuse(cx, load(bin_lb=0.5), "both names of the lower bound", errors=KeyError)
    refuse(cx, load(bin_lb=0.5, bin_width=0.5), "both names of the bins", errors=KeyError)
    refuse(cx, load(hist=[], res=[], lg_c=[]), "no cycles", errors=ValueError)
    refuse(cx, load(hist=..., res=[], lg_c=[]), "no cycles and no histogram", errors=ValueError)
    for key in ("res", "lg_c", "range_bin_lower_bound", "range_bin_width", "nr_small_cycles"):
        refuse(cx, load(**{key: ...}), f"without {key}", errors=KeyError)
    refuse(cx, lambda: pf.CycleCount.from_rainflow({}), "nothing")
    good = copy.deepcopy(dct)
    good["bin_lb"] = good.pop("range_bin_lower_bound")
    good["bin_width"] = good.pop("range_bin_width")
    answer(cx, lambda: pf.CycleCount.from_rainflow(good), "legacy names")
    answer(cx, load(res_sig=...), "without a residual sequence")
    answer(cx, load(as_dur=600.0), "with a duration")


def names(cx):
    """Corrections, resolution modes, plots and damage rules."""
    rng = cx.rng
    cc, route = make.anyhow(rng, int(rng.integers(0, 1000)))
    if cc.mean_stress_corrected != "No" or not np.any(cc.mean_stress) or len(cc.stress_range) > 300:
        cc = make.from_signal(rng, x=np.round(rng.normal(5, 20, 40), 2))
    cx.note(rows=make.rows(cc))
    cx.key("names", make.rows(cc))
    bad = other_name(rng, NAMES)
    refuse(cx, lambda: cc.mean_stress_correction(bad), f"correction {bad!r}", [cc], ValueError)
    p = float(rng.choice([0.7, 0.0, 1.0, 0.61, 0.8 + 1e-9, 0.59, -0.6, 6.0]))
    refuse(cx, lambda: cc.mean_stress_correction(NAMES[0], detail_factor=p), f"p = {p}", [cc], ValueError)
    good = str(rng.choice(NAMES))
    good = [good, good.lower(), good.upper()][int(rng.integers(0, 3))]
    if np.all(cc.solve_lffd().mean_stress == 0):
        good = None
    if good:
        answer(cx, lambda: cc.mean_stress_correction(good), f"correction {good!r}")
    bad = other_name(rng, MODES)
    refuse(cx, lambda: cc.solve_lffd(bad), f"mode {bad!r}", [cc], ValueError)
    good = str(rng.choice(MODES))
    answer(cx, lambda: cc.solve_lffd([good, good.upper()][int(rng.integers(0, 2))]), f"mode {good!r}")
    bad = other_name(rng, PLOTS, fold=False)
    refuse(cx, lambda: cc.plot_histogram(plot_type=bad), f"plot type {bad!r}", [cc], ValueError)
    bad = other_name(rng, ("mountain", "valley"), fold=False)
    refuse(cx, lambda: cc.plot_histogram(plot_type="mean-range", mode=bad), f"plot mode {bad!r}", [cc],
           ValueError)
    curve, _ = make.sn_curve(rng, unit=cc.unit)
    bad = other_name(rng, RULES)
    refuse(cx, lambda: sl.get_nonlinear_damage(bad, cc, curve), f"rule {bad!r}", [cc, curve], ValueError)
    refuse(cx, lambda: sl.calc_nonlinear_damage(bad, cc.stress_range, cc.count_cycle, curve),
           f"rule {bad!r}", [cc, curve], ValueError)
    good = str(rng.choice(RULES))
    answer(cx, lambda: sl.get_nonlinear_damage(good, cc, curve), f"rule {good!r}")
    refuse(cx, lambda: make_axes(fig=3), "a number as figure", errors=TypeError)
    refuse(cx, lambda: make_axes(fig="fig"), "a text as figure", errors=TypeError)


def lengths(cx):
    rng = cx.rng
    n = int(rng.integers(2, 40))
    m = other_length(rng, n)
    one, two, same = rng.uniform(1, 50, n), rng.uniform(1, 50, m), rng.uniform(1, 50, n)
    cx.note(lengths=(n, m))
    cx.key("lengths", one, two)
    curve, _ = make.sn_curve(rng)
    line, _ = make.sn_curve(rng, branches=1)
    pairs = {
        "calc_pm": lambda a, b: sl.calc_pm(a, b, curve),
        "calc_des": lambda a, b: sl.calc_des(a, b, 4.0),
        "calc_dem": lambda a, b: sl.calc_dem(2.0, 1.5, a, b, 4.0),
        "nonlinear": lambda a, b: sl.calc_nonlinear_damage("leve", a, b, curve, base_exponent=2.0),
        "si jian": lambda a, b: sl.calc_nonlinear_damage("si jian", a, b, curve),
    }
    for what, fn in pairs.items():
        for a, b in ((one, two), (two, one)):
            refuse(cx, lambda f=fn, a=a, b=b: f(as_given(rng, a), as_given(rng, b)),
                   f"{what} of {len(a)} ranges and {len(b)} counts", [a, b])
        answer(cx, lambda f=fn: f(one, same), what)
    arrays = {
        "histogram": lambda a, b: ht.make_histogram(a, b, bins=4),
        "plotted histogram": lambda a, b: ht.xy_hist2d(a, b, bins=4),
        "ranges": lambda a, b: StressRange(_counts=a, _values=b, bin_width=5.0),
        "means": lambda a, b: MeanStress(_counts=a, _values=b, bin_width=5.0),
    }
    for what, fn in arrays.items():
        for a, b in ((one, two), (two, one)):
            refuse(cx, lambda f=fn, a=a, b=b: f(a, b), f"{what} of {len(a)} and {len(b)} values",
                   [a, b], ValueError)
        answer(cx, lambda f=fn: f(one, same), what)
    refuse(cx, lambda: ht.make_histogram(one, same, bins=4, weights=two), "weights", [one, same, two])
    refuse(cx, lambda: StressRange(_counts=np.empty(0), _values=np.empty(0), bin_width=1.0), "no data",
           errors=ValueError)
    # curves
    k = int(rng.integers(2, 5))
    slopes, intercepts = (np.arange(3.0, 3.0 + k), np.arange(12.0, 12.0 + 4 * k, 4.0))
    for cut in (1, k - 1):
        if cut == k:
            continue
        refuse(cx, lambda c=cut: pf.SNCurve(slopes[:c], intercepts), f"{cut} slopes, {k} intercepts",
               [slopes, intercepts], ValueError)
        refuse(cx, lambda c=cut: pf.SNCurve(slopes, intercepts[:c].tolist()),
               f"{k} slopes, {cut} intercepts", [slopes, intercepts], ValueError)
        refuse(cx, lambda c=cut: pf.ParisCurve(slopes[:c], 10.0 ** -intercepts),
               f"{cut} slopes, {k} intercepts", [slopes, intercepts], ValueError)
        refuse(cx, lambda c=cut: pf.ParisCurve(slopes.tolist(), 10.0 ** -intercepts[:c]),
               f"{k} slopes, {cut} intercepts", [slopes, intercepts], ValueError)
    neg = one.copy()
    neg[int(rng.integers(0, n))] *= -1
    for what, fn in {"cycles": lambda: curve.get_cycles(neg), "stress": lambda: curve.get_stress(neg),
                     "damage": lambda: sl.calc_pm(neg, same, curve)}.items():
        refuse(cx, fn, f"{what} of a negative value", [neg, curve])


def tables(cx):
    rng = cx.rng
    cc = make.from_signal(rng, x=np.round(rng.normal(5, 20, int(rng.integers(10, 60))), 2))
    df = cc.to_df()
    curve, _ = make.sn_curve(rng)
    line, _ = make.sn_curve(rng, branches=1, endurance=False)
    paris, _ = make.paris_curve(rng)
    geo = crack.geometry(rng)
    cx.note(rows=make.rows(cc))
    cx.key("tables", make.rows(cc))
    uses = {
        "miner": lambda t: t.miner.damage(curve),
        "gassner": lambda t: t.gassner.g(line),
        "cg": lambda t: t.cg.calc_growth(paris, geo, express_mode=True),
    }
    col = str(rng.choice(["count_cycle", "mean_stress", "stress_range"]))
    for how, change in {
        "dropped": lambda t: t.drop(columns=[col]),
        "renamed": lambda t: t.rename(columns={col: col.upper()}),
        "in the index": lambda t: t.set_index(col),
    }.items():
        for what, use in uses.items():
            bad = change(cc.to_df())
            bad._metadata = dict(df._metadata)
            refuse(cx, lambda u=use, b=bad: u(b), f"{what} with {col} {how}", [bad], AttributeError)
    for what, use in uses.items():
        answer(cx, lambda u=use: u(cc.to_df()), what)
    # time-indexed tables
    n = int(rng.integers(1, 6))
    counts = [make.from_signal(rng, k, x=np.round(rng.normal(0, 20, 12), 2)) for k in range(n)]
    index = pd.date_range("2020-03-01", periods=n, freq="h")
    good = pd.DataFrame({"CC_a": pd.Series(counts, index=index, dtype=object), "x": 1.0}, index=index)
    answer(cx, lambda: aggregate_cc(good, "D"), "table")
    wrong = {
        "list": counts, "series": good["CC_a"], "dictionary": dict(good), "nothing": None,
        "numbered": good.reset_index(drop=True), "text index": good.set_axis(index.astype(str)),
    }
    if n > 1:
        wrong["descending"] = good.iloc[::-1]
        wrong["repeated"] = good.set_axis(index[[0] * n])
    for how, bad in wrong.items():
        refuse(cx, lambda b=bad: aggregate_cc(b, "D"), f"aggregation of a table: {how}",
               [bad] if isinstance(bad, pd.DataFrame) else [])
    win = str(rng.choice(["fortnight", "x", "fort night", "century"]))
    refuse(cx, lambda: aggregate_cc(good, win), f"window {win!r}", [good])
    agg = aggregate_cc(good, "D")
    agg = agg[0] if isinstance(agg, tuple) else agg
    for bad in (3, None, "DNV", [curve, 3], {"a": "b"}, np.ones(2)):
        refuse(cx, lambda b=bad: calc_aggregated_damage(agg, b), f"damage for {bad!r}", [curve])
    answer(cx, lambda: calc_aggregated_damage(agg, curve), "damage")
    for bad in (None, "HollowCylinder", 3.0):
        refuse(cx, lambda b=bad: crack_growth.get_crack_growth(cc, paris, b), f"geometry {bad!r}",
               [cc, paris])


WORKLOADS = [
    Workload("signals", signals, 60, 900),
    Workload("imports", imports, 80, 1000),
    Workload("names", names, 100, 1200),
    Workload("lengths", lengths, 80, 1000),
    Workload("tables", tables, 60, 800),
]
