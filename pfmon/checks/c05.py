"""C05: addition of cycle counts."""
import copy
import datetime as dt
import io
from contextlib import redirect_stdout

import numpy as np

import py_fatigue as pf
from py_fatigue.cycle_count.cycle_count import pbar_sum

from pfmon import gen, make, ref
from pfmon.core import Workload

RULE = (
    "A case is a pair of cycle counts, a list of them with a grouping, or an "
    "addition that must be refused. Non-trivial: every operand has rows; "
    "distinct by rows of the operands."
)
REQUIRED_EVENTS = ["sums", "grouped_sums", "chunked_sums", "refused", "missing_skipped"]


def as_seq(val):
    return np.empty(0) if val is None else np.asarray(val, float)


def expected(parts):
    """What the sum of cycle counts must contain."""
    flds = [make.fields(p) for p in parts]
    return {
        "rows": np.vstack([make.rows(p) for p in parts]),
        "residuals_sequence": np.hstack([as_seq(f["residuals_sequence"]) for f in flds]),
        "min_max_sequence": np.hstack([as_seq(f["min_max_sequence"]) for f in flds]),
        "nr_small_cycles": sum(f["nr_small_cycles"] for f in flds),
        "time_sequence": sorted({t for f in flds for t in f["time_sequence"]}),
        "timestamp": min(f["timestamp"] for f in flds),
        "unit": flds[0]["unit"],
        "range_bin_lower_bound": min(f["range_bin_lower_bound"] for f in flds),
        "mean_bin_lower_bound": min(f["mean_bin_lower_bound"] for f in flds),
        "range_bin_width": max(f["range_bin_width"] for f in flds),
        "mean_bin_width": max(f["mean_bin_width"] for f in flds),
    }


def judge(cx, total, want, what):
    cx.check(make.same_rows(make.rows(total), want["rows"]), "sum-rows",
             f"{what}: rows lost, repeated or changed",
             got=len(total.count_cycle), want=len(want["rows"]))
    cx.same(np.asarray(total.residuals_sequence, float), want["residuals_sequence"],
            "sum-residuals", what)
    cx.same(np.asarray(total.min_max_sequence, float), want["min_max_sequence"],
            "sum-min-max", what)
    cx.same(list(total.time_sequence), want["time_sequence"], "sum-timestamps", what)
    for key in ("nr_small_cycles", "timestamp", "unit", "range_bin_lower_bound",
                "mean_bin_lower_bound", "range_bin_width", "mean_bin_width"):
        cx.check(getattr(total, key) == want[key], "sum-" + key.replace("_", "-"),
                 f"{what}: {getattr(total, key)!r} instead of {want[key]!r}")


def elsewhere(rng, stamp):
    """The same time on the clock of another place."""
    return stamp.astimezone(dt.timezone(dt.timedelta(hours=float(rng.choice([-11, -1, 0, 5.5, 14])))))


def pairs(cx):
    rng = cx.rng
    tz = rng.random() < 0.5
    unit = str(rng.choice(gen.UNITS))
    k = int(rng.integers(0, 2000))
    routes = ["direct", "signal"]
    parts = []
    for i in range(2):
        fn = make.direct if rng.choice(routes) == "direct" else make.from_signal
        parts.append(fn(rng, k, unit=unit, tz=tz))
        k += int(rng.choice([0, 1, 1, 3, 200, 60000]))  # same time is allowed
    if rng.random() < 0.3:  # the number of small cycles need not be whole
        parts[int(rng.integers(0, 2))].nr_small_cycles = float(rng.integers(0, 200)) / 4
    if rng.random() < 0.4:  # an operand that is itself a sum
        extra = make.from_signal(rng, k, unit=unit, tz=tz)
        parts[1] = parts[1] + extra
    cx.note(rows=[make.rows(p) for p in parts], unit=unit)
    cx.key(*[make.rows(p) for p in parts])
    before = [make.fields(p) for p in parts]
    want = expected(parts)
    res = [p.residuals_sequence for p in parts]
    if res[1] is None and res[0] is None:
        want["residuals_sequence"] = want["min_max_sequence"] = np.empty(0)
    else:
        # the min-max sequence of an operand without residuals does not count
        mms = [as_seq(p.min_max_sequence) if p.residuals_sequence is not None
               else np.empty(0) for p in parts]
        want["min_max_sequence"] = np.hstack(mms)
    total = parts[0] + parts[1]
    # a sum whose sequence ends up empty or short reports its own extremes
    if len(want["min_max_sequence"]) == 0 and len(want["residuals_sequence"]) >= 2:
        want["min_max_sequence"] = np.array([
            want["residuals_sequence"].min(), want["residuals_sequence"].max()])
    judge(cx, total, want, "pair")
    for prt, bef in zip(parts, before):
        cx.check(not make.same_fields(make.fields(prt), bef), "sum-changed-operand",
                 str(make.same_fields(make.fields(prt), bef)))
    cx.event("sums")
    cx.sample(unit=unit, rows=[len(p.count_cycle) for p in parts])


def lists(cx):
    """Every list length, with missing entries and random grouping."""
    rng = cx.rng
    n = 1 + cx.index % 60
    if cx.index >= 180:
        n = int(rng.integers(60, 300))
    bins = gen.bins(rng) if rng.random() < 0.6 else None
    k = int(rng.integers(0, 500))
    parts = []
    for _ in range(n):
        parts.append(make.from_signal(rng, k, bins=bins, max_size=12))
        k += int(rng.choice([0, 1, 1, 1, 2]))
    if rng.random() < 0.3:
        for prt in parts:
            prt.timestamp = elsewhere(rng, prt.timestamp)
        cx.event("other_clocks")
    cx.note(n=n)
    cx.key(*[make.rows(p) for p in parts])
    want = expected(parts)
    before = [make.fields(p) for p in parts]
    # one by one
    total = parts[0]
    for prt in parts[1:]:
        total = total + prt
    judge(cx, total, want, "one by one")
    judge(cx, sum(parts), want, "sum()")
    # any grouping
    judge(cx, grouped(rng, parts), want, "grouped")
    cx.event("grouped_sums")
    # chunked, with missing entries
    holes = []
    for prt in parts:
        while rng.random() < 0.15:
            holes.append(None)
        holes.append(prt)
    if rng.random() < 0.2:
        holes.append(None)
    if len(holes) > n:
        cx.event("missing_skipped", len(holes) - n)
    snap = list(holes)
    with redirect_stdout(io.StringIO()):
        judge(cx, pbar_sum(parts), want, "chunked")
        judge(cx, pbar_sum(holes), want, "chunked with missing entries")
    cx.check(len(snap) == len(holes) and all(a is b for a, b in zip(snap, holes)),
             "sum-changed-list", "the list was changed")
    cx.event("chunked_sums")
    for prt, bef in zip(parts, before):
        bad = make.same_fields(make.fields(prt), bef)
        cx.check(not bad, "sum-changed-operand", str(bad))


def grouped(rng, parts):
    if len(parts) == 1:
        return parts[0]
    cut = int(rng.integers(1, len(parts)))
    return grouped(rng, parts[:cut]) + grouped(rng, parts[cut:])


def neutral(cx):
    rng = cx.rng
    cc, route = make.anyhow(rng, int(rng.integers(0, 500)))
    before = make.fields(cc)
    cx.note(route=route)
    cx.key(make.rows(cc), "neutral")
    for other in (None, 0, 0.0, np.nan, float("nan")):
        for side in ("left", "right"):
            total = cc + other if side == "left" else other + cc
            cx.check(isinstance(total, pf.CycleCount)
                     and not make.same_fields(make.fields(total), before),
                     "neutral-element", f"{other!r} {side}")
    with redirect_stdout(io.StringIO()):
        for lst in ([cc], [cc, None], [None, cc], [None, None, cc, None]):
            total = pbar_sum(lst)
            cx.check(isinstance(total, pf.CycleCount)
                     and not make.same_fields(make.fields(total), before),
                     "neutral-element", "chunked sum with one count")
        cx.check(pbar_sum([None, None, None]) is None, "neutral-element",
                 "sum of missing entries")
    bad = make.same_fields(make.fields(cc), before)
    cx.check(not bad, "sum-changed-operand", str(bad))


def refusals(cx):
    rng = cx.rng
    k = int(rng.integers(10, 500))
    mode = ["order", "order-inside", "overlap", "unit", "type"][cx.index % 5]
    unit = str(rng.choice(gen.UNITS))
    one = make.direct(rng, k, unit=unit) if rng.random() < 0.5 else make.from_signal(rng, k, unit=unit)
    cx.note(mode=mode, unit=unit)
    cx.key(make.rows(one), mode)
    if mode == "order":
        other = make.from_signal(rng, k - int(rng.choice([1, 2, 10])), unit=unit)
        if rng.random() < 0.4:  # by the smallest step, anywhere in a second
            one.timestamp = one.timestamp + dt.timedelta(
                microseconds=int(rng.choice([0, 1, 999999, 500000])))
            other.timestamp = one.timestamp - dt.timedelta(microseconds=1)
        other.timestamp = elsewhere(rng, other.timestamp)
    elif mode == "order-inside":
        one = one + make.from_signal(rng, k + 4, unit=unit)
        other = make.from_signal(rng, k + int(rng.integers(0, 4)), unit=unit)
    elif mode == "overlap":
        one = one + make.from_signal(rng, k + 4, unit=unit)
        other = make.from_signal(rng, k + int(rng.integers(0, 4)), unit=unit) \
            + make.from_signal(rng, k + int(rng.integers(4, 9)), unit=unit)
    elif mode == "unit":
        other = make.from_signal(rng, k + 1, unit=str(rng.choice([u for u in gen.UNITS if u != unit])))
    else:
        other = [1, 2.5, "a", [1.0], {"a": 1}, (1, 2), object(), 3 + 1j,
                 make.rows(one), one.count_cycle, [1.0, 2.0], one.to_df(),
                 [], (), {}, set(), "", b"", True, np.float64(2), np.int64(-1), 1e-9][
                     int(rng.integers(0, 22))]
    before = make.fields(one)
    before_o = make.fields(other) if isinstance(other, pf.CycleCount) else copy.deepcopy(other)
    cx.raises(TypeError, lambda: one + other, "refusal-" + mode, f"{mode} {type(other).__name__}")
    if mode == "type" and not hasattr(other, "__array__") and not hasattr(other, "columns"):
        cx.raises(TypeError, lambda: other + one, "refusal-" + mode, f"{other!r} + count")
        cx.event("left_operands_refused")
    if mode == "unit":
        later = make.from_signal(rng, k + 2, unit=other.unit)
        cx.raises(TypeError, lambda: sum([one, later]), "refusal-unit", "in sum()")
    bad = make.same_fields(make.fields(one), before)
    cx.check(not bad, "sum-changed-operand", str(bad))
    if isinstance(other, pf.CycleCount):
        bad = make.same_fields(make.fields(other), before_o)
        cx.check(not bad, "sum-changed-operand", str(bad))


def concatenation_total(cx):
    """Large lists: nothing is lost over hundreds of sums."""
    rng = cx.rng
    n = 400 if cx.index % 2 == 0 else int(rng.integers(1100, 2200))
    parts = [make.from_signal(rng, k, max_size=8) for k in range(n)]
    cx.note(n=n)
    cx.key(*[make.rows(p) for p in parts[:5]])
    want = expected(parts)
    with redirect_stdout(io.StringIO()):
        judge(cx, pbar_sum(parts), want, "chunked")
    judge(cx, sum(parts), want, "sum()")
    cx.check(abs(sum(parts).count_cycle.sum() - ref.math.fsum(
        p.count_cycle.sum() for p in parts)) < 1e-6, "sum-total", "total count")


WORKLOADS = [
    Workload("pairs", pairs, 500, 6000),
    Workload("lists", lists, 190, 1200),
    Workload("neutral", neutral, 80, 800),
    Workload("refusals", refusals, 240, 2400),
    Workload("hundreds", concatenation_total, 2, 12),
]
