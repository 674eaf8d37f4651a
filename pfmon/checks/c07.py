"""C07: resolution of the low-frequency dynamics of summed counts."""
import numpy as np

import py_fatigue as pf

from pfmon import gen, make, ref
from pfmon.core import Workload

RULE = (
    "A case is an ordered list of signals counted separately, summed and "
    "resolved (at once or in two levels), compared with the reference count of "
    "the concatenation. Non-trivial: at least two signals; distinct by samples."
)
REQUIRED_EVENTS = ["resolved", "two_level", "min_max", "unchanged", "hidden_cycles",
                   "three_points", "clustered"]

META = ("unit", "time_sequence", "timestamp", "nr_small_cycles", "name",
        "range_bin_lower_bound", "range_bin_width", "mean_bin_lower_bound",
        "mean_bin_width", "stress_concentration_factor", "mean_stress_corrected")


def signals(rng, num, max_size=60):
    """Pieces of a history with slow drift between them."""
    mode = int(rng.integers(0, 4))
    if mode == 0:
        return [gen.signal(rng, max_size=max_size)[0] for _ in range(num)]
    out, level = [], 0.0
    for _ in range(num):
        n = int(rng.integers(2, max_size))
        if mode == 1:
            level += float(rng.normal(0, 30))
            x = level + rng.normal(0, 5, n)
        elif mode == 2:  # integers: many ties, plateaus across the joints
            level += float(rng.integers(-2, 3))
            x = level + rng.integers(-2, 3, n)
        else:
            x = np.cumsum(rng.normal(0, 2, n)) + level
            level = float(x[-1])
        x = np.asarray(x, float)
        if np.all(x == x[0]):
            x[-1] += 1.0
        out.append(x)
    return out


def judge_concatenation(cx, solved, sigs):
    whole = np.concatenate(sigs)
    want, res_runs, (val, _, _) = ref.count(whole)
    scale = float(np.max(np.abs(whole)))
    got = make.rows(solved)
    cx.check(ref.same_multiset(got, ref.rmw(want), 1e-13 * scale + 1e-300),
             "lffd-rows", f"{len(got)} rows, the whole history has {len(want)}",
             got=got, want=ref.rmw(want))
    cx.same(np.asarray(solved.residuals_sequence, float), val[res_runs],
            "lffd-residuals", "not the residual of the whole history")
    cx.check(solved.lffd_solved is True or solved.lffd_solved == True,  # noqa: E712
             "lffd-status", "not marked as resolved")
    return want


def build(rng, sigs, unit, k, step=1):
    bins = gen.bins(rng)
    return [make.from_signal(rng, k + step * i, x=x, unit=unit, bins=bins)
            for i, x in enumerate(sigs)]


def at_once(cx):
    rng = cx.rng
    sigs = signals(rng, int(rng.integers(2, 12)))
    cx.note(signals=sigs)
    cx.key(*sigs)
    unit = str(rng.choice(gen.UNITS))
    parts = build(rng, sigs, unit, int(rng.integers(0, 900)))
    parts[0].nr_small_cycles = int(rng.integers(0, 20))
    total = sum(parts)
    before = make.fields(total)
    solved = total.solve_lffd() if rng.random() < 0.7 else total.resolve_residuals()
    want = judge_concatenation(cx, solved, sigs)
    for name in META:
        cx.check(make.same_value(getattr(solved, name), before[name]), "lffd-" + name,
                 f"{getattr(solved, name)!r} instead of {before[name]!r}")
    bad = make.same_fields(make.fields(total), before)
    cx.check(not bad, "lffd-changed-operand", str(bad))
    cx.event("resolved")
    hidden = sum(r[2] == 1 for r in want) - sum(
        int(np.sum(p.count_cycle == 1)) for p in parts)
    if hidden > 0:
        cx.event("hidden_cycles", hidden)
    # once resolved it stays the same
    again = solved.solve_lffd()
    bad = make.same_fields(make.fields(again), make.fields(solved))
    cx.check(not bad, "lffd-idempotent", str(bad))
    cx.sample(signals=len(sigs), hidden=int(hidden), rows=len(want))


def two_levels(cx):
    """Resolved groups summed and resolved again (hours, days, months)."""
    rng = cx.rng
    groups = [signals(rng, int(rng.integers(1, 6)), 30) for _ in range(int(rng.integers(2, 6)))]
    sigs = [x for g in groups for x in g]
    cx.note(signals=sigs)
    cx.key(*sigs)
    k, total = 0, []
    bins = gen.bins(rng)
    for grp in groups:
        parts = [make.from_signal(rng, k + i, x=x, bins=bins) for i, x in enumerate(grp)]
        k += len(grp)
        summed = sum(parts)
        total.append(summed.solve_lffd() if rng.random() < 0.8 else summed)
    solved = sum(total).solve_lffd()
    judge_concatenation(cx, solved, sigs)
    cx.event("two_level")


def min_max(cx):
    rng = cx.rng
    sigs = signals(rng, int(rng.integers(2, 15)))
    cx.note(signals=sigs)
    cx.key(*sigs, "min-max")
    parts = build(rng, sigs, "MPa", 0)
    total = sum(parts)
    seq = np.array([v for x in sigs for v in (x.min(), x.max())])
    cx.same(np.asarray(total.min_max_sequence, float), seq, "min-max-sequence",
            "not the extremes of the signals")
    solved = total.solve_lffd(solve_mode=str(rng.choice(["min-max", "min/max", "Min-Max", "min max"])))
    want = ref.rmw(ref.count(seq)[0])
    allr = np.vstack([make.rows(p) for p in parts])
    want = np.vstack([want, allr[allr[:, 2] == 1]])
    scale = float(np.max(np.abs(seq)))
    cx.check(ref.same_multiset(make.rows(solved), want, 1e-13 * scale + 1e-300),
             "min-max-rows", "not the full cycles and the min-max count",
             got=make.rows(solved), want=want)
    cx.check(bool(solved.lffd_solved), "lffd-status", "not marked as resolved")
    res = np.asarray(solved.residuals_sequence, float)
    cx.same(np.asarray(solved.min_max_sequence, float), np.array([res.min(), res.max()]),
            "min-max-sequence", "resolved")
    cx.event("min_max")


def unchanged(cx):
    rng = cx.rng
    mode = cx.index % 4
    cx.note(mode=mode)
    if mode == 0:  # no residuals at all
        cc = make.direct(rng)
        cc.residuals_sequence = None
    elif mode == 1:  # fewer than three points
        cc = make.direct(rng)
        cc.residuals_sequence = np.array([3.0, -1.0])[: int(rng.integers(0, 3))]
    elif mode == 2:
        x = np.array([float(rng.normal()), float(rng.normal())])
        cc = make.from_signal(rng, x=x)
    else:
        cc = sum(build(rng, signals(rng, 3), "MPa", 0)).solve_lffd()
    cx.key(make.rows(cc), mode)
    before = make.fields(cc)
    out = cc.solve_lffd(str(rng.choice(["Residuals", "residuals"])))
    bad = make.same_fields(make.fields(out), before)
    cx.check(not bad, "lffd-not-possible", f"changed {bad}")
    bad = make.same_fields(make.fields(cc), before)
    cx.check(not bad, "lffd-changed-operand", str(bad))
    cx.event("unchanged")
    cx.raises(ValueError, lambda: cc.solve_lffd("other"), "lffd-mode", "unknown mode")


def single(cx):
    """One signal: nothing to find, but marked as resolved from three points on."""
    rng = cx.rng
    x = gen.signal(rng, max_size=40)[0]
    if cx.index % 2:
        x = np.array([0.0, float(rng.uniform(0.5, 50)), float(rng.uniform(-50, 0.4))])
        x = x * float(rng.choice([-1, 1])) + float(rng.normal() * 20)
    cx.note(x=x)
    cc = make.from_signal(rng, x=x)
    cx.key(x)
    if len(cc.residuals_sequence) < 3:
        bad = make.same_fields(make.fields(cc.solve_lffd()), make.fields(cc))
        cx.check(not bad, "lffd-not-possible", f"changed {bad}")
        return
    if len(cc.residuals_sequence) == 3:
        cx.event("three_points")
    judge_concatenation(cx, cc.solve_lffd(), [x])


def clustered(cx):
    """Rows that stand for several cycles keep their count."""
    rng = cx.rng
    cc = make.direct(rng, res=gen.signal(rng, max_size=30)[0], big=rng.random() < 0.3)
    cc.count_cycle = np.where(cc.count_cycle % 1 == 0, cc.count_cycle, 0.5)
    seq, mode = np.asarray(cc.residuals_sequence, float), "residuals"
    if cx.index % 3 == 0:
        cc = cc + make.direct(rng, k=3, res=gen.signal(rng, max_size=30)[0])
        cc.count_cycle = np.where(cc.count_cycle % 1 == 0, cc.count_cycle, 0.5)
        seq, mode = np.asarray(cc.min_max_sequence, float), "min-max"
    cx.note(rows=make.rows(cc), sequence=seq, mode=mode)
    cx.key(make.rows(cc), seq)
    before = make.rows(cc)
    solved = cc.solve_lffd(solve_mode=mode)
    if len(seq) < 3:
        cx.check(make.same_rows(make.rows(solved), before), "lffd-not-possible", "rows changed")
        return
    want = np.vstack([ref.rmw(ref.count(seq)[0]), before[before[:, 2] >= 1]])
    scale = float(np.max(np.abs(want)))
    cx.check(ref.same_multiset(make.rows(solved), want, 1e-13 * scale + 1e-300),
             "clustered-rows", "not the full cycles and the count of the sequence",
             got=make.rows(solved), want=want)
    cx.check(bool(solved.lffd_solved), "lffd-status", "not marked as resolved")
    cx.event("clustered")


def long_history(cx):
    rng = cx.rng
    sigs = signals(rng, 150, 80)
    cx.note(pieces=150)
    cx.key(*sigs[:5])
    total = sum(build(rng, sigs, "MPa", 0))
    judge_concatenation(cx, total.solve_lffd(), sigs)


WORKLOADS = [
    Workload("at-once", at_once, 700, 9000),
    Workload("two-levels", two_levels, 300, 4000),
    Workload("min-max", min_max, 200, 3000),
    Workload("unchanged", unchanged, 120, 1200),
    Workload("single", single, 200, 2000),
    Workload("clustered", clustered, 200, 3000),
    Workload("long", long_history, 4, 30),
]
