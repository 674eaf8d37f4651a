"""Oracle of exported (binned) cycle counts, shared by C08 and C09.

Full cycles are handled as unique (mean, range) pairs with multiplicities.
"""
from __future__ import annotations

import numpy as np

from pfmon import ref


def unique(full):
    """Unique (mean, range) rows and how often they occur."""
    full = np.asarray(full, float).reshape(-1, 2)
    if not len(full):
        return full, np.empty(0, int)
    return np.unique(full, axis=0, return_counts=True)


def candidates(mea, ran, dct):
    """Cells a full cycle may be in: mean bins and range bins."""
    mcand = [0] if "mean_bin_width" not in dct else ref.bin_candidates(
        mea, dct["mean_bin_lower_bound"], dct["mean_bin_width"])
    return mcand, ref.bin_candidates(
        ran, dct["range_bin_lower_bound"], dct["range_bin_width"])


def hist_cells(dct):
    """{(mean bin, range bin): count} of a dictionary."""
    hist = dct["hist"]
    cells = {}
    if "mean_bin_width" not in dct:
        hist = [hist]
    for i, row in enumerate(hist):
        for j, num in enumerate(row):
            if num:
                cells[(i, j)] = cells.get((i, j), 0) + num
    return cells


def judge_cells(cx, uniq, left, dct):
    """The cycles that are not listed fill the histogram."""
    cells = hist_cells(dct)
    sure, maybe = {}, {}
    for (mea, ran), num in zip(uniq, left):
        if not num:
            continue
        mcand, rcand = candidates(mea, ran, dct)
        cand = [(i, j) for i in mcand for j in rcand]
        for cell in cand:
            book = sure if len(cand) == 1 else maybe
            book[cell] = book.get(cell, 0) + int(num)
    total = sum(cells.values())
    cx.check(total == int(np.sum(left)), "histogram-total",
             f"histogram holds {total} cycles instead of {int(np.sum(left))}")
    for cell in set(cells) | set(sure):
        low = sure.get(cell, 0)
        num = cells.get(cell, 0)
        cx.check(low <= num <= low + maybe.get(cell, 0), "histogram-cell",
                 f"cell {cell} holds {num} cycles, {low} lie in it "
                 f"({maybe.get(cell, 0)} on its edges)")
    cx.event("histogram_cycles", int(total))


def judge_listed(cx, uniq, mult, dct, decimals):
    """Match the individually listed cycles; returns how many are left."""
    legacy = "mean_bin_width" not in dct
    listed = np.asarray(dct["lg_c"], float)
    listed = np.column_stack([np.zeros(len(listed)), listed]) if legacy else listed.reshape(-1, 2)
    cx.event("listed_cycles", len(listed))
    tol = 0.5000001 * 10.0 ** -decimals + 1e-12 * np.max(np.abs(uniq), initial=0)
    left = mult.copy()
    order = np.argsort(uniq[:, 1], kind="stable")
    key = uniq[order, 1]
    for (mea, ran), num in zip(*unique(listed)):
        lo = np.searchsorted(key, ran - tol)
        hi = np.searchsorted(key, ran + tol, side="right")
        cand = [k for k in order[lo:hi] if legacy or abs(uniq[k, 0] - mea) <= tol]
        cand.sort(key=lambda k: abs(uniq[k, 1] - ran) + abs(uniq[k, 0] - mea) * (not legacy))
        for k in cand:
            take = min(int(num), int(left[k]))
            left[k] -= take
            num -= take
        cx.check(num == 0, "listed-cycle",
                 f"listed cycle (mean {mea}, range {ran}) is no full cycle of the count")
    return left


def judge_tolerance(cx, uniq, mult, left, dct, tol, exponent, max_zeros):
    """Which full cycles may be in the histogram and which not."""
    lower, width = dct["range_bin_lower_bound"], dct["range_bin_width"]
    if not len(uniq):
        return
    largest = uniq[:, 1].max()
    # edges are rounded to five decimals
    exact = abs(lower - round(lower, 5)) + abs(width - round(width, 5)) < 1e-12
    slack = 1e-9 if exact else ref.EDGE_TOL
    filled = {}
    for i, j in hist_cells(dct):
        filled.setdefault(i, []).append(j)
    for (mea, ran), num, rest in zip(uniq, mult, left):
        mcand, rcand = candidates(mea, ran, dct)
        rel = (ran / largest) ** exponent
        errs = [abs(1 - ((lower + (j + 0.5) * width) / ran) ** exponent) for j in rcand]
        if abs(rel - tol) <= 1e-7 * tol or any(
                abs(e - tol) <= 1e-6 * tol + 1e-9 + exponent * (1 + e) * slack / ran for e in errs):
            cx.event("borderline_cycles")
            continue
        must = rel > tol and all(e > tol for e in errs)
        may = rel > tol and any(e > tol for e in errs)
        if must:
            cx.event("must_be_listed", int(num))
            cx.check(rest == 0, "hidden-damaging-cycle",
                     f"full cycle (mean {mea}, range {ran}) misstated by "
                     f"{min(errs)} is not listed individually")
        elif not may and rest < num:
            cx.event("listed_for_gap", int(num - rest))
            ok = any(not any(j - max_zeros <= f <= j for f in filled.get(i, []))
                     for i in mcand for j in rcand) and max_zeros < 1e6
            cx.check(ok, "listed-without-reason",
                     f"full cycle (mean {mea}, range {ran}) listed without need")
        else:
            cx.event("may_be_binned", int(rest))
    for i, js in filled.items():
        gaps = np.diff(sorted(js)) - 1
        cx.check(bool(np.all(gaps < max_zeros)) if max_zeros else not len(gaps), "gap-limit",
                 f"mean bin {i}: {gaps.max() if len(gaps) else 0} empty bins, "
                 f"limit {max_zeros}")
        cx.event("gaps", len(gaps))
