"""C19: clustered counts, express mode and table accessor of crack growth."""
import math

import numpy as np
import pandas as pd

from py_fatigue.damage.crack_growth import get_crack_growth

from pfmon import crack, make
from pfmon.core import Workload

RULE = (
    "A case is a history with clustered counts in normal and express mode, "
    "compared with the history of single cycles and with the table accessor. "
    "Non-trivial: at least one count above one; distinct by history and curve."
)
REQUIRED_EVENTS = ["steps", "growing_steps", "without_failure", "fractions", "express_blocks",
                   "rows_reported", "rows_missing", "express_not_deeper", "unclustered_tables",
                   "rows_partly_applied", "other_row_labels"]
WORKERS = 3


def clustered(rng, size):
    counts = rng.choice([0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 7.5, 9.0, 10.0, 11.0, 12.5, 19.0], size)
    if rng.random() < 0.4:
        counts[rng.integers(0, size)] = float(rng.choice([99, 100, 101.5, 250, 999.5, 1000, 1234.5]))
    if rng.random() < 0.2:
        counts[rng.integers(0, size)] = 0.0
    if rng.random() < 0.3:
        counts = np.floor(counts)
    if rng.random() < 0.2:
        counts[0] += float(rng.choice([0.25, 0.1, 1 / 3, 2.0 ** -12, 1e-3, 0.999]))
    if rng.random() < 0.1:  # hardly clustered
        counts = rng.choice([0.5, 1.0, 1.0, 1.5, 1.25], size)
        counts[rng.integers(0, size)] = 1.5
    if np.max(counts) <= 1:
        counts[0] = 4.0
    return counts


def singly(stress, counts):
    """The same history, one cycle (and the remaining fraction) per row."""
    out_s, out_n, last = [], [], []
    for s, n in zip(stress, counts):
        whole = int(n)
        rest = n - whole
        steps = [1.0] * whole + ([rest] if rest > 0 else [])
        steps = steps or [0.0]
        out_s += [s] * len(steps)
        out_n += steps
        last.append(len(out_n) - 1)
    return np.array(out_s), np.array(out_n), last


def judge_blocks(cx, cg, stress, counts, what):
    """The steps applied split the rows, in order, without rest."""
    steps_s, steps_n = np.array(cg.stress_range, float), np.array(cg.count_cycle, float)
    cx.check(len(steps_s) == len(steps_n), "block-lengths", what)
    pos, last = 0, []
    for s, n in zip(stress, counts):
        acc = 0.0
        start = pos
        while pos < len(steps_n) and (acc < n * (1 - 1e-12) or pos == start):
            cx.check(abs(steps_s[pos] - s) <= 1e-12 * abs(s), "block-range",
                     f"{what}: range {steps_s[pos]} in a row of {s}")
            acc += steps_n[pos]
            pos += 1
        # zero-count steps of the same row
        cx.check(abs(acc - n) <= 1e-9 * max(n, 1), "block-cycles",
                 f"{what}: {acc} cycles applied for a row of {n}")
        last.append(pos - 1)
    cx.check(pos == len(steps_n), "block-number", f"{what}: {len(steps_n) - pos} steps left over")
    return last


def modes(cx):
    rng = cx.rng
    size = int(rng.integers(1, 25)) if cx.index % 60 != 3 else int(rng.integers(150, 500))
    geo, curve, par, stress = crack.problem(rng, size)
    counts = clustered(rng, size)
    cx.note(geometry=crack.describe(geo), curve=par, stress=stress, counts=counts)
    cx.key(repr(par), stress, counts, repr(crack.describe(geo)))
    cx.event("fractions", int(np.sum(counts % 1 > 0)))
    cc = crack.count(stress, counts)
    normal = get_crack_growth(cc, curve, geo)
    one_s, one_n, last = singly(stress, counts)
    crack.judge_steps(cx, normal, one_s, one_n, geo, par, "normal")
    single = get_crack_growth(crack.count(one_s, one_n), curve, geo)
    cx.close(np.array(normal.crack_depth), np.array(single.crack_depth), "single-cycles",
             "clustered and single histories differ", rtol=1e-12)
    cx.check(bool(normal.failure) == bool(single.failure), "single-cycles", "failure")
    cx.close(normal.final_cycles, single.final_cycles, "single-cycles", "cycles", rtol=1e-12)
    express = get_crack_growth(cc, curve, geo, express_mode=True)
    e_last = judge_blocks(cx, express, stress, counts, "express")
    crack.judge_steps(cx, express, np.array(express.stress_range), np.array(express.count_cycle),
                      geo, par, "express")
    cx.event("express_blocks", int(np.sum(np.array(express.count_cycle) > 1)))
    judge_blocks(cx, normal, stress, counts, "normal")
    if not normal.failure and not express.failure:
        cx.close(express.final_cycles, normal.final_cycles, "express-cycles", rtol=1e-9)
        cx.close(normal.final_cycles, math.fsum(counts), "express-cycles", rtol=1e-9)
    judge_not_deeper(cx, normal, express)
    table(cx, cc, curve, geo, normal, last, False)
    table(cx, cc, curve, geo, express, e_last, True)
    cx.sample(geometry=crack.describe(geo), rows=size, cycles=float(np.sum(counts)),
              failure=bool(normal.failure), express_steps=len(express.crack_depth))


def judge_not_deeper(cx, normal, express):
    """Depths after the same number of cycles."""
    n_after = np.r_[0.0, np.cumsum(np.array(normal.count_cycle))]
    e_after = np.r_[0.0, np.cumsum(np.array(express.count_cycle))]
    n_depth, e_depth = np.array(normal.crack_depth), np.array(express.crack_depth)
    for i, depth in enumerate(e_depth):
        j = int(np.searchsorted(n_after, e_after[i] * (1 - 1e-12) - 1e-12))
        if j >= len(n_depth) or abs(n_after[j] - e_after[i]) > 1e-6:
            continue
        cx.check(depth <= n_depth[j] * (1 + 1e-9), "express-deeper",
                 f"{depth} in express, {n_depth[j]} in normal mode after {e_after[i]} cycles")
        cx.event("express_not_deeper")
        if np.all(n_depth == n_depth[0]):
            # less than the last digit per cycle may add up in express mode
            cx.check(n_depth[0] <= depth <= n_depth[0] * (1 + 3e-16 * (e_after[i] + 1)),
                     "express-without-growth", "grown in express mode only")


def table(cx, cc, curve, geo, cg, last, express):
    frame = cc.to_df()
    if cx.rng.random() < 0.4:  # other row labels
        rows = len(frame)
        frame.index = [cx.rng.permutation(rows), np.zeros(rows, int), np.arange(rows)[::-1] * 0.5,
                       pd.date_range("2022-01-01", periods=rows, freq="10min")][int(cx.rng.integers(0, 4))]
        cx.event("other_row_labels")
    before = frame.copy()
    res = frame.cg.calc_growth(curve, geo, express_mode=express)
    n = len(cg.crack_depth)
    cumul = np.cumsum(np.array(cg.count_cycle))
    want = {"crack_depth": np.array(cg.crack_depth), "sif": np.array(cg.sif),
            "geometry_factor": np.array(cg.geometry_factor), "cumul_cycle": cumul}
    what = "express table" if express else "table"
    for col, val in want.items():
        expect = [val[k] if k < n else np.nan for k in last]
        cx.close(res[col].values.astype(float), expect, "table-" + col.replace("_", "-"), what,
                 rtol=1e-9)
    cx.event("rows_reported", sum(k < n for k in last))
    cx.event("rows_missing", sum(k >= n for k in last))
    first = [0] + [k + 1 for k in last[:-1]]
    cx.event("rows_partly_applied", sum(f < n <= k for f, k in zip(first, last)))
    cx.close(res.cg.final_cycles, cg.final_cycles, "table-final-cycles", what, rtol=1e-9)
    for col in before:
        cx.check(bool(np.array_equal(before[col].values, res[col].values)), "table-rows", col)


def unclustered(cx):
    """Tables of half and full cycles; express mode is the same there."""
    rng = cx.rng
    size = int(rng.integers(1, 60)) if cx.index % 20 != 3 else int(rng.integers(300, 3000))
    geo, curve, par, stress = crack.problem(rng, size)
    counts = rng.choice([0.5, 1.0, 0.25], size)
    cx.note(geometry=crack.describe(geo), curve=par, stress=stress, counts=counts)
    cx.key(repr(par), stress, counts, "unclustered")
    cc = crack.count(stress, counts)
    cg = get_crack_growth(cc, curve, geo)
    crack.judge_steps(cx, cg, stress, counts, geo, par, "unclustered")
    other = get_crack_growth(cc, curve, geo, express_mode=True)
    cx.same(np.array(other.crack_depth), np.array(cg.crack_depth), "express-unclustered")
    for express in (False, True):
        table(cx, cc, curve, geo, cg, list(range(size)), express)
    cx.event("unclustered_tables")


def sums(cx):
    """Cycle counts added, scaled and re-imported before the calculation."""
    rng = cx.rng
    geo, curve, par, stress = crack.problem(rng, 3)
    bins = dict(range_bin_lower_bound=0.5, range_bin_width=0.5, mean_bin_width=5.0)
    x = [np.round(rng.normal(0, 1, 40) * float(np.max(stress)) / 4 + 1, 2) for _ in range(3)]
    for arr in x:
        arr[0] += 1.0
    cc = sum(make.from_signal(rng, k, x=arr, bins=bins) for k, arr in enumerate(x))
    if rng.random() < 0.5:
        cc = cc * float(rng.uniform(0.5, 2))
    s, n = np.array(cc.stress_range), np.array(cc.count_cycle)
    cx.note(geometry=crack.describe(geo), curve=par, stress=s, counts=n)
    cx.key(repr(par), s, n)
    one_s, one_n, last = singly(s, n)
    cg = get_crack_growth(cc, curve, geo)
    crack.judge_steps(cx, cg, one_s, one_n, geo, par, "sum")
    table(cx, cc, curve, geo, cg, last, False)


WORKLOADS = [
    Workload("modes", modes, 240, 3500),
    Workload("unclustered", unclustered, 80, 1000),
    Workload("sums", sums, 40, 600),
]
