"""C16: aggregation of tables of cycle counts over calendar windows."""
import collections
import datetime as dt
import math
import sys
import time

import numpy as np
import pandas as pd

import py_fatigue as pf
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage

from pfmon import gen, make, ref
from pfmon.core import Skip, Workload

RULE = (
    "A case is a time-indexed table of cycle counts (gaps, missing cells, "
    "numeric columns) aggregated over one window length. Non-trivial: at least "
    "two windows or two rows; distinct by signals and time stamps."
)
REQUIRED_EVENTS = ["windows", "missing_cells", "windows_with_one", "windows_resolved",
                   "empty_windows", "numeric_cells", "damage_cells", "residual_sequences",
                   "two_levels", "refused"]
ASSUMPTIONS = ["windows are single calendar periods (hour, day, week, month, quarter, year) "
               "or the whole table"]

MISSING = object()
STEPS = {"h": ["7min", "20min", "1h", "90min"], "D": ["5h", "11h", "1D", "37h"],
         "W": ["1D", "50h", "4D"], "M": ["3D", "9D", "20D"], "Q": ["13D", "1D", "40D"],
         "Y": ["45D", "150D"], "all": ["10min", "1h", "3D"]}


def prepare():
    """The progress bar's pauses are not needed here."""
    for name, mod in list(sys.modules.items()):
        if name.startswith("py_fatigue") and getattr(mod, "sleep", None) is time.sleep:
            mod.sleep = lambda *_: None


def window_of(stamp, by):
    """Calendar window of a time stamp (wall clock)."""
    if by == "all":
        return 0
    if by == "h":
        return (stamp.year, stamp.month, stamp.day, stamp.hour)
    if by == "D":
        return (stamp.year, stamp.month, stamp.day)
    if by == "W":
        monday = stamp.date() - dt.timedelta(days=stamp.weekday())
        return (monday.year, monday.month, monday.day)
    if by == "M":
        return (stamp.year, stamp.month)
    if by == "Q":
        return (stamp.year, (stamp.month - 1) // 3)
    return (stamp.year,)


def alias(rng, by):
    """The names pandas has for a window."""
    return str(rng.choice({"h": ["h", "h", "H"], "W": ["W", "W-SUN"], "Q": ["Q", "Q-DEC"],
                           "Y": ["Y", "Y", "A", "Y-DEC"], "D": ["D", "d"],
                           "all": ["all", "ALL", "All"]}.get(by, [by])))


def index(rng, by, rows):
    """Increasing time stamps with gaps."""
    step = pd.Timedelta(str(rng.choice(STEPS[by])))
    start = pd.Timestamp("2018-12-28 21:10") + pd.Timedelta(minutes=int(rng.integers(0, 9000)))
    jumps = rng.choice([1, 1, 1, 2, 7], rows - 1) if rows > 1 else []
    idx = [start]
    for j in jumps:
        idx.append(idx[-1] + int(j) * step)
    if rng.random() < 0.3:  # exactly on the boundaries
        idx = [t.floor("D") + k * pd.Timedelta("1h") if by in ("h", "all") else t.floor("D")
               for k, t in enumerate(idx)]
        idx = sorted(set(idx))
    out = pd.DatetimeIndex(idx)
    zone = [None, None, "UTC", "Europe/Brussels"][int(rng.integers(0, 4))]
    if zone:
        out = out.tz_localize("UTC").tz_convert(zone)
    return out


def table(rng, by, rows, unit="MPa"):
    """Table, its signals per column and numeric columns."""
    idx = index(rng, by, rows)
    cols, sigs = {}, {}
    bins = gen.bins(rng)
    for name in ["CC_a", "CC_b_2", "CC_"][: int(rng.integers(1, 4))]:
        col, sig = [], []
        miss = float(rng.choice([0, 0.2, 0.6]))
        for k, stamp in enumerate(idx):
            if rng.random() < miss:
                col.append(None if rng.random() < 0.6 else np.nan)
                sig.append(None)
                continue
            x, _ = gen.signal(rng, max_size=25)
            when = stamp.to_pydatetime() if stamp.tzinfo else stamp.to_pydatetime().replace(tzinfo=gen.UTC)
            col.append(pf.CycleCount.from_timeseries(x, timestamp=when, name=name, unit=unit, **bins))
            sig.append(x)
        ser = pd.Series(col, index=idx, dtype=object)
        cols[name], sigs[name] = ser, sig
    nums = {}
    for name in ["speed", 3, "n", "of_CC_a", "cc_x"][: int(rng.integers(0, 6))]:
        val = rng.normal(0, 10, len(idx))
        if name == "n":
            val = rng.integers(0, 9, len(idx))
        else:
            val[rng.random(len(idx)) < 0.3] = np.nan
        nums[name] = val
        cols[name] = pd.Series(val, index=idx)
    names = list(cols)
    order = [names[i] for i in rng.permutation(len(names))]
    frame = pd.DataFrame({n: cols[n] for n in order}, index=idx)
    return frame, sigs, nums


def groups(idx, by):
    """[positions] per window, in order."""
    out = collections.OrderedDict()
    for k, stamp in enumerate(idx):
        out.setdefault(window_of(stamp.to_pydatetime(), by), []).append(k)
    return list(out.values())


def snapshot(frame):
    return {col: [(id(v), make.fields(v)) if isinstance(v, pf.CycleCount) else repr(v)
                  for v in frame[col]] for col in frame}, frame.index.copy(), list(frame.columns)


def judge_unchanged(cx, frame, snap):
    cols, idx, names = snap
    cx.check(list(frame.columns) == names and frame.index.equals(idx), "table-changed", "labels")
    for col in names:
        for val, old in zip(frame[col], cols[col]):
            if isinstance(val, pf.CycleCount):
                cx.check(id(val) == old[0] and not make.same_fields(make.fields(val), old[1]),
                         "table-changed", f"cell of {col}")
            else:
                cx.check(repr(val) == old, "table-changed", f"cell of {col}")


def judge_cell(cx, cell, frame, sigs, col, rows):
    have = [k for k in rows if sigs[col][k] is not None]
    cx.event("missing_cells", len(rows) - len(have))
    if not have:
        cx.check(not isinstance(cell, pf.CycleCount), "empty-window", "a count out of nothing")
        cx.event("empty_windows")
        return None
    cx.check(isinstance(cell, pf.CycleCount), "window-lost", f"{cell!r} for {len(have)} counts")
    parts = [frame[col].iloc[k] for k in have]
    if len(have) == 1:
        bad = make.same_fields(make.fields(cell), make.fields(parts[0]))
        cx.check(not bad, "window-single", f"{bad} differ")
        cx.event("windows_with_one")
        res = np.asarray(cell.residuals_sequence, float)
    else:
        whole = np.concatenate([sigs[col][k] for k in have])
        want, runs, (val, _, _) = ref.count(whole)
        tol = 1e-13 * float(np.max(np.abs(whole))) + 1e-300
        cx.check(ref.same_multiset(make.rows(cell), ref.rmw(want), tol), "window-rows",
                 f"not the resolved sum of its {len(have)} counts",
                 got=make.rows(cell), want=ref.rmw(want))
        cx.same(np.asarray(cell.residuals_sequence, float), val[runs], "window-residuals")
        cx.check(bool(cell.lffd_solved), "window-lffd", "not resolved")
        times = [t for p in parts for t in p.time_sequence]
        cx.check(list(cell.time_sequence) == times, "window-times",
                 f"{len(cell.time_sequence)} times for {len(times)}")
        cx.event("windows_resolved")
        res = val[runs]
    return res


def aggregate(cx):
    rng = cx.rng
    by = list(STEPS)[cx.index % len(STEPS)]
    frame, sigs, nums = table(rng, by, int(rng.integers(1, 14)) if cx.index % 70 != 3
                              else int(rng.integers(150, 420)))
    wins = groups(frame.index, by)
    cx.note(by=by, index=[str(t) for t in frame.index], windows=wins,
            signals={c: s for c, s in sigs.items()})
    cx.key(by, repr(list(frame.index)), *[x for s in sigs.values() for x in s if x is not None])
    snap = snapshot(frame)
    save = rng.random() < 0.5
    out = aggregate_cc(frame, alias(rng, by), save_residuals=save)
    out, saved = out if save else (out, None)
    judge_unchanged(cx, frame, snap)
    cx.check(len(out) == len(wins), "windows", f"{len(out)} windows instead of {len(wins)}")
    cx.check(set(out.columns) == set(frame.columns), "columns", f"{list(out.columns)}")
    cx.event("windows", len(wins))
    if by != "all":
        starts = [p.start_time for p in out.index]
        for k, rows in enumerate(wins):
            first = frame.index[rows[0]].tz_localize(None) if frame.index.tz else frame.index[rows[0]]
            cx.check(starts[k] <= first <= out.index[k].end_time, "window-label",
                     f"{out.index[k]} for {first}")
    for col in sigs:
        want = []
        for k, rows in enumerate(wins):
            res = judge_cell(cx, out[col].iloc[k], frame, sigs, col, rows)
            if res is not None:
                want.append(res)
        if save and want:
            got = saved[col]
            cx.close(np.asarray(got["res"], float), np.concatenate(want), "saved-residuals",
                     "not the residuals of the windows one after the other", rtol=1e-12)
            cx.check(len(got["idx"]) == len(got["res"]), "saved-residuals", "positions")
            cx.check(bool(np.all(np.diff(got["idx"]) >= 0)), "saved-residuals",
                     "positions decrease")
            cx.event("residual_sequences")
    for col, val in nums.items():
        for k, rows in enumerate(wins):
            part = val[rows].astype(float)
            part = part[~np.isnan(part)]
            want = math.fsum(part) / len(part) if len(part) else math.nan
            cx.close(float(out[col].iloc[k]), want, "numeric-mean", str(col), rtol=1e-9, atol=1e-12)
            cx.event("numeric_cells")
    judge_damage(cx, out, sigs)
    cx.sample(by=by, rows=len(frame), windows=len(wins), columns=[str(c) for c in frame])


def judge_damage(cx, out, sigs):
    rng = cx.rng
    curves = [make.sn_curve(rng, curve=str(i)) for i in range(int(rng.integers(1, 4)))]
    if rng.random() < 0.3:  # same name, same slope
        curves.append(make.sn_curve(rng, curve="0"))
    objs = [c[0] for c in curves]
    how = int(rng.integers(0, 4))
    if how == 0:
        curves, objs = curves[:1], objs[:1]
        arg = objs[0]
    elif how == 1:
        arg = list(objs)
    elif how == 2:
        arg = {f"k{i}": c for i, c in enumerate(objs)}
    else:
        arg = collections.defaultdict(list, {i: c for i, c in enumerate(objs)})
    dmg = calc_aggregated_damage(out, arg)
    size = len(out)
    cx.check(len(dmg) == size * len(curves), "damage-rows",
             f"{len(dmg)} rows for {size} windows and {len(curves)} curves")
    cx.check(set(dmg.columns) == set(sigs), "damage-columns", f"{list(dmg.columns)}")
    for i, (curve, par) in enumerate(curves):
        block = dmg.iloc[i * size:(i + 1) * size]
        cx.check(list(block.index.get_level_values(1)) == list(out.index), "damage-windows", "")
        cx.check(len(set(block.index.get_level_values(0))) == 1, "damage-labels", "")
        for col in sigs:
            for k in range(size):
                cell = out[col].iloc[k]
                want = 0.0
                if isinstance(cell, pf.CycleCount):
                    for s in cell.stress_range:
                        life = ref.sn_cycles(float(s), par[0], par[1], np.inf)
                        if par[2] < np.inf and abs(life - par[2]) <= 1e-9 * par[2]:
                            raise Skip
                    want = math.fsum(ref.pm_damage(cell.stress_range, cell.count_cycle, *par))
                cx.close(float(block[col].iloc[k]), want, "aggregated-damage", f"{col}, window {k}",
                         rtol=1e-8, atol=1e-300)
                cx.event("damage_cells")


def two_levels(cx):
    """Days aggregated again into months: as the whole history."""
    rng = cx.rng
    low, high = [("h", "D"), ("D", "M"), ("D", "W"), ("M", "Y"), ("h", "all")][cx.index % 5]
    frame, sigs, _ = table(rng, low, int(rng.integers(4, 16)))
    frame = frame[[c for c in sigs]]
    cx.note(low=low, high=high, index=[str(t) for t in frame.index], signals=sigs)
    cx.key(low, high, repr(list(frame.index)))
    first = aggregate_cc(frame, low)
    first.index = first.index.to_timestamp()
    out = aggregate_cc(first, high)
    wins = groups(frame.index, high)
    cx.check(len(out) == len(wins), "windows", f"{len(out)} windows instead of {len(wins)}")
    for col in sigs:
        for k, rows in enumerate(wins):
            have = [r for r in rows if sigs[col][r] is not None]
            if not have:
                continue
            want, _, _ = ref.count(np.concatenate([sigs[col][r] for r in have]))
            scale = max(float(np.max(np.abs(sigs[col][r]))) for r in have)
            cell = out[col].iloc[k]
            cx.check(ref.same_multiset(make.rows(cell), ref.rmw(want), 1e-13 * scale + 1e-300),
                     "two-levels", "not the resolved sum of all its counts",
                     got=make.rows(cell), want=ref.rmw(want))
            cx.event("two_levels")


def big_window(cx):
    """Many counts in one window (chunked sums)."""
    rng = cx.rng
    n = int(rng.integers(30, 150))
    idx = pd.date_range("2020-02-28", periods=n, freq="10min", tz="UTC")
    sig = [rng.normal(0, 5, int(rng.integers(3, 12))) for _ in range(n)]
    gone = set(rng.choice(n, int(rng.integers(0, n // 3)), replace=False).tolist())
    bins = gen.bins(rng)
    col = [None if k in gone else pf.CycleCount.from_timeseries(
        x, timestamp=idx[k].to_pydatetime(), name="a", **bins) for k, x in enumerate(sig)]
    frame = pd.DataFrame({"CC_a": col}, index=idx)
    cx.note(n=n, missing=sorted(gone))
    cx.key(n, *sig[:5])
    out = aggregate_cc(frame, "all")
    want, _, _ = ref.count(np.concatenate([x for k, x in enumerate(sig) if k not in gone]))
    cx.check(ref.same_multiset(make.rows(out["CC_a"].iloc[0]), ref.rmw(want), 1e-11),
             "window-rows", f"not the resolved sum of its {n - len(gone)} counts")
    cx.event("windows_resolved")


def direct_counts(cx):
    """Counts of any origin: the sum and its resolution."""
    rng = cx.rng
    n = int(rng.integers(1, 9))
    idx = pd.date_range("2020-03-01", periods=n, freq="15min", tz="UTC")
    bins = gen.bins(rng)
    parts = [make.direct(rng, k, bins=bins) if rng.random() < 0.7 else
             make.from_signal(rng, k, bins=bins) for k in range(n)]
    frame = pd.DataFrame({"CC_x": pd.Series(parts, index=idx, dtype=object)})
    cx.note(n=n)
    cx.key(*[make.rows(p) for p in parts])
    out, saved = aggregate_cc(frame, "h", save_residuals=True)
    for k, rows in enumerate(groups(idx, "h")):
        want = sum(parts[r] for r in rows)
        if len(rows) > 1:
            want = want.solve_lffd()
        bad = make.same_fields(make.fields(out["CC_x"].iloc[k]), make.fields(want), rtol=1e-12)
        cx.check(not bad, "window-direct", f"{bad} differ in window {k}")
    judge_damage(cx, out, {"CC_x": None})


def refusals(cx):
    rng = cx.rng
    frame, _, _ = table(rng, "h", int(rng.integers(3, 8)))
    cx.note(rows=len(frame))
    cx.key(repr(list(frame.index)), "refused")
    if len(frame) < 2:
        raise Skip
    cx.raises(TypeError, lambda: aggregate_cc(frame["CC_a"], "h"), "refuse", "a series")
    cx.raises(TypeError, lambda: aggregate_cc(frame.to_dict(), "h"), "refuse", "a dict")
    cx.raises(TypeError, lambda: aggregate_cc(frame.reset_index(drop=True), "h"), "refuse",
              "no time index")
    cx.raises(ValueError, lambda: aggregate_cc(frame.iloc[::-1], "h"), "refuse", "reversed")
    swap = list(range(len(frame)))
    k = int(rng.integers(0, len(frame) - 1))
    swap[k], swap[k + 1] = swap[k + 1], swap[k]
    cx.raises(ValueError, lambda: aggregate_cc(frame.iloc[swap], "h"), "refuse", "unsorted")
    dup = sorted(swap + [k])
    cx.raises(ValueError, lambda: aggregate_cc(frame.iloc[dup], "h"), "refuse", "duplicates")
    out = aggregate_cc(frame, "h")
    cx.raises(TypeError, lambda: calc_aggregated_damage(out, [make.sn_curve(rng)[0], 3]),
              "refuse", "not a curve")
    other = make.sn_curve(rng, unit="other")[0]
    if any(isinstance(v, pf.CycleCount) for c in out if str(c).startswith("CC_") for v in out[c]):
        cx.raises(ValueError, lambda: calc_aggregated_damage(out, other), "refuse", "units")


WORKLOADS = [
    Workload("aggregate", aggregate, 210, 2800),
    Workload("two-levels", two_levels, 40, 500),
    Workload("big-window", big_window, 6, 60),
    Workload("direct", direct_counts, 40, 500),
    Workload("refusals", refusals, 24, 200),
]
