"""C09: the damage tolerance of binning."""
import io
from contextlib import redirect_stdout

import numpy as np

import py_fatigue as pf
from py_fatigue.cycle_count.histogram import binned_rainflow, rainflow_binner
from py_fatigue.mean_stress import MeanStress
from py_fatigue.stress_range import StressRange

from pfmon import binned, gen, make, ref
from pfmon.checks.c08 import split_rows
from pfmon.core import Skip, Workload

RULE = (
    "A case is a spectrum (or a signal) binned with random bins, tolerance, "
    "exponent and gap limit. Non-trivial: at least one full cycle above the "
    "lower bound; distinct by rows and options."
)
REQUIRED_EVENTS = ["must_be_listed", "may_be_binned", "listed_for_gap", "gaps",
                   "histogram_cycles", "from_signal", "from_signal_with_time",
                   "explicit_upper_bounds"]


def options(rng):
    return dict(
        tol=float(rng.choice([0.0, 1e-6, 2e-5, 0.0003, 0.001, 0.003, 0.01, 0.05, 0.2, 0.7])),
        exponent=float(rng.choice([1.0, 2.5, 3.0, 5.0, 5.0, 10.0])),
        zeros=int(rng.choice([0, 1, 2, 5, 12, 32, 10 ** 7])),
    )


def spectrum(rng):
    """Means and ranges of full and half cycles over a few dozen bins."""
    bins = gen.bins(rng)
    n = int(rng.integers(1, 50))
    lower, width = bins["range_bin_lower_bound"], bins["range_bin_width"]
    top = int(rng.choice([3, 20, 120]))
    idx = rng.integers(0, top, n)
    frac = rng.uniform(0.03, 0.97, n)
    near_centre = rng.random(n) < 0.5
    frac[near_centre] = 0.5 + rng.normal(0, 0.01, n)[near_centre]
    exact = rng.random(n) < 0.15
    frac[exact] = 0.5
    ranges = lower + (idx + frac) * width
    ranges[rng.random(n) < 0.1] = lower / 2 + 1e-3
    mw = bins["mean_bin_width"]
    means = (rng.integers(0, 4, n) + rng.uniform(0.05, 0.95, n)) * mw
    if rng.random() < 0.5:
        means = means - 2 * mw
    counts = rng.choice([0.5, 1.0, 1.0, 1.0, 2.0, 1.5, 9.0], n)
    return counts, ranges, means, bins


def judge(cx, full, dct, opts, decimals):
    uniq, mult = binned.unique(full)
    left = binned.judge_listed(cx, uniq, mult, dct, decimals)
    binned.judge_cells(cx, uniq, left, dct)
    binned.judge_tolerance(cx, uniq, mult, left, dct, opts["tol"], opts["exponent"],
                           opts["zeros"])


def spectra(cx):
    rng = cx.rng
    counts, ranges, means, bins = spectrum(rng)
    opts = options(rng)
    legacy = bool(rng.random() < 0.25)
    cx.note(rows=np.column_stack([ranges, means, counts]), bins=bins, options=opts,
            legacy=legacy)
    cc = pf.CycleCount(count_cycle=counts, stress_range=ranges, mean_stress=means,
                       timestamp=gen.stamp(rng), **bins)
    full, half, small = split_rows(cc, legacy)
    if len(full):
        cx.key(make.rows(cc), sorted(opts.items()), sorted(bins.items()), legacy)
    dct = cc.as_dict(damage_tolerance_for_binning=opts["tol"], round_decimals=9,
                     damage_exponent=opts["exponent"],
                     max_consecutive_zeros=opts["zeros"], legacy_export=legacy)
    judge(cx, full, dct, opts, 9)
    cx.check(dct["nr_small_cycles"] == small, "small-cycles")
    cx.sample(options=opts, listed=len(dct["lg_c"]), full=len(full))


def binner(cx):
    """The binning function on stress objects, with or without means."""
    rng = cx.rng
    counts, ranges, means, bins = spectrum(rng)
    opts = options(rng)
    use_means = bool(rng.random() < 0.6)
    cx.note(rows=np.column_stack([ranges, means, counts]), bins=bins, options=opts,
            use_means=use_means)
    s_r = StressRange(_counts=counts, _values=ranges, bin_width=bins["range_bin_width"],
                      _bin_lb=bins["range_bin_lower_bound"])
    s_m = MeanStress(_counts=counts, _values=means, bin_width=bins["mean_bin_width"],
                     _bin_lb=gen.mean_bound(rng, float(means.min()), bins["mean_bin_width"]))
    with redirect_stdout(io.StringIO()):
        dct = rainflow_binner(
            s_r, s_m if use_means else None, damage_tolerance_for_binning=opts["tol"],
            damage_exponent=opts["exponent"], max_consecutive_zeros=opts["zeros"],
            round_decimals=9, debug_mode=bool(rng.random() < 0.2))
    big = ranges >= bins["range_bin_lower_bound"]
    whole = np.floor(counts[big]).astype(int)
    full = np.column_stack([np.repeat(means[big] if use_means else 0 * means[big], whole),
                            np.repeat(ranges[big], whole)])
    if len(full):
        cx.key(ranges, means, counts, sorted(opts.items()), use_means)
    judge(cx, full, dct, opts, 9)


def from_signal(cx):
    rng = cx.rng
    x, kind = gen.signal(rng, kind=str(rng.choice(
        ["gauss", "walk", "sines", "beats", "drift", "spike", "levels"])), max_size=9000 if cx.index % 67 == 7 else 300)
    x = x * float(rng.uniform(0.3, 1))
    if np.max(np.abs(x)) > 300:
        x = x / np.max(np.abs(x)) * 100
    opts = options(rng)
    bins = gen.bins(rng)
    with_time = bool(rng.random() < 0.5)
    time = 10 + np.cumsum(rng.uniform(0.1, 1, len(x))) if with_time else None
    data, tvec = (x.tolist(), None if time is None else time.tolist()) \
        if rng.random() < 0.3 else (x, time)
    low = gen.mean_bound(rng, float(x.min()), bins["mean_bin_width"])
    if low is not None:
        bins["mean_bin_lower_bound"] = low
    if rng.random() < 0.3:  # explicit upper bounds, above all cycles
        bins["mean_bin_upper_bound"] = float(x.max() + rng.uniform(0, 3) * bins["mean_bin_width"])
        bins["range_bin_upper_bound"] = float(
            np.ptp(x) + bins["range_bin_lower_bound"] + rng.uniform(0, 9) * bins["range_bin_width"])
        cx.event("explicit_upper_bounds")
    cx.note(x=x, kind=kind, bins=bins, options=opts, with_time=with_time)
    dct = binned_rainflow(
        data, tvec, damage_tolerance_for_binning=opts["tol"],
        max_consetutive_zeros=opts["zeros"], damage_exponent=opts["exponent"],
        round_decimals=9, **bins)
    want, res_runs, (val, _, _) = ref.count(x)
    arr = ref.rmw(want)
    lower = bins["range_bin_lower_bound"]
    # a range equal to the lower bound up to rounding may go either way
    if np.any(np.abs(arr[:, 0] - lower) < 1e-9):
        raise Skip
    big = arr[:, 0] >= lower
    full = arr[big & (arr[:, 2] == 1)][:, [1, 0]]
    half = arr[big & (arr[:, 2] == 0.5)][:, [1, 0]]
    if len(full):
        cx.key(x, sorted(opts.items()), sorted(bins.items()))
    if low is not None:
        cx.check(dct["mean_bin_lower_bound"] == low, "bin-definition", "mean lower bound")
    judge(cx, full, dct, opts, 9)
    cx.check(ref.same_multiset(np.asarray(dct["res"], float).reshape(-1, 2), half, 1e-8),
             "half-cycles", "half cycles lost or changed")
    cx.check(dct["nr_small_cycles"] == int(np.sum(~big)), "small-cycles")
    cx.same(np.asarray(dct["res_sig"], float), val[res_runs], "residual-sequence")
    if with_time:
        cx.close(dct["as_dur"], time[-1] - time[0], "duration")
        cx.event("from_signal_with_time")
    cx.event("from_signal")


def dense(cx):
    """Thousands of cycles."""
    rng = cx.rng
    opts = options(rng)
    if cx.index % 4 == 0:  # very many in one cell
        cc = pf.CycleCount(
            count_cycle=np.array([70000.0, 33000.0, 300.0, 1.0]),
            stress_range=np.r_[rng.uniform(3, 6, 3), 9.0], mean_stress=rng.uniform(-9, 9, 4),
            timestamp=gen.stamp(rng), range_bin_lower_bound=0.2, range_bin_width=10.0,
            mean_bin_width=5.0)
        opts["tol"] = float(rng.choice([0.7, 0.9]))
        cx.note(rows=make.rows(cc), options=opts)
        cx.key(make.rows(cc), sorted(opts.items()))
        full, _, _ = split_rows(cc)
        dct = cc.as_dict(damage_tolerance_for_binning=opts["tol"], round_decimals=9,
                         damage_exponent=opts["exponent"], max_consecutive_zeros=opts["zeros"])
        judge(cx, full, dct, opts, 9)
        return
    x = rng.normal(0, 20, 8000)
    cc = make.from_signal(rng, x=x, bins=dict(
        range_bin_lower_bound=0.2, range_bin_width=float(rng.choice([0.25, 1.0, 4.0])),
        mean_bin_width=5.0))
    cx.note(options=opts)
    cx.key(x, sorted(opts.items()))
    full, _, _ = split_rows(cc)
    dct = cc.as_dict(damage_tolerance_for_binning=opts["tol"], round_decimals=9,
                     damage_exponent=opts["exponent"], max_consecutive_zeros=opts["zeros"])
    judge(cx, full, dct, opts, 9)


WORKLOADS = [
    Workload("spectra", spectra, 900, 12000),
    Workload("binner", binner, 500, 6000),
    Workload("signals", from_signal, 400, 5000),
    Workload("dense", dense, 4, 30),
]
