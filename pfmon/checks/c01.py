"""C01: rainflow counting against the list form of ASTM E1049."""
import numpy as np

import py_fatigue as pf
from py_fatigue.cycle_count import calc_rainflow
from py_fatigue.cycle_count import rainflow as rf

from pfmon import gen, ref
from pfmon.core import Workload

RULE = (
    "A case is one signal. Exhaustive cases enumerate all signals over a small "
    "alphabet; the others are drawn from 20 signal families, 11 dtypes, strided "
    "and read-only layouts and lists. Non-trivial: at least two different "
    "values, so that at least one cycle must be counted; distinct by samples."
)
REQUIRED_EVENTS = ["full_cycles", "half_cycles", "ties", "plateaus"]


def judge(cx, x, rows, res, pos, times=None, tvec=None):
    """Rows and residual of a signal against the reference count."""
    want, res_runs, (val, start, end) = ref.count(x)
    xf = np.asarray(x).astype(float)
    rows = np.asarray(rows)
    cx.check(rows.ndim == 2 and rows.shape[1] == 5, "rainflow-row-shape",
             f"row array of shape {rows.shape}")
    cx.check(bool(np.all(rows[:, 2] > 0)), "rainflow-empty-row",
             "rows that are no cycles", rows=rows)
    cx.check(len(rows) == len(want), "rainflow-row-number",
             f"{len(rows)} rows, the standard gives {len(want)}", rows=rows,
             want=want[:30])
    begin = rows[:, 3]
    stop = rows[:, 3] + rows[:, 4] / 2
    ok = (np.all(begin == np.round(begin)) and np.all(stop == np.round(stop))
          and np.all(begin >= 0) and np.all(stop <= len(xf) - 1))
    cx.check(bool(ok), "rainflow-position", "cycle outside of the signal", rows=rows)
    b_i, e_i = begin.astype(int), stop.astype(int)
    run = np.repeat(np.arange(len(start)), end - start + 1)
    got = sorted(zip(run[b_i].tolist(), run[e_i].tolist(), rows[:, 2].tolist()))
    exp = sorted((r[3], r[4], r[2]) for r in want)
    cx.check(got == exp, "rainflow-cycles", "not the cycles of the standard",
             got=got[:20], want=exp[:20], rows=rows)
    tol = 8 * np.finfo(float).eps * np.maximum(np.abs(xf[b_i]), np.abs(xf[e_i]))
    tol = tol + 1e-300
    cx.check(bool(np.all(np.abs(rows[:, 0] - np.abs(xf[b_i] - xf[e_i]) / 2) <= tol)),
             "rainflow-amplitude", "wrong amplitude", rows=rows)
    cx.check(bool(np.all(np.abs(rows[:, 1] - (xf[b_i] + xf[e_i]) / 2) <= tol)),
             "rainflow-mean", "wrong mean", rows=rows)
    # residual
    pos = np.asarray(pos)
    cx.check(pos.dtype.kind in "iu" and len(pos) == len(res_runs)
             and bool(np.all((pos >= 0) & (pos < len(xf)))),
             "residual-positions", "wrong number of residual positions", pos=pos)
    cx.check(run[pos].tolist() == list(res_runs), "residual-positions",
             "residual not at the half cycles", got=pos, want=res_runs)
    cx.check(int(pos[-1]) == len(xf) - 1, "residual-end",
             "residual does not end with the last sample", pos=pos)
    cx.same(np.asarray(res).astype(float), xf[pos], "residual-values",
            "residual values differ from the signal")
    if tvec is not None:
        cx.same(np.asarray(times, float), np.asarray(tvec, float)[pos],
                "residual-times", "residual times differ from the time vector")
    cx.event("full_cycles", int(np.sum(rows[:, 2] == 1)))
    cx.event("half_cycles", int(np.sum(rows[:, 2] == 0.5)))
    if len(set(val.tolist())) < len(val):
        cx.event("ties")
    if len(val) < len(xf):
        cx.event("plateaus")
    return want


def exhaustive(cx):
    """Every signal over {0, 1, 2} (then {0..3}) up to a length."""
    i = cx.index
    base, length = 3, 2
    while i >= base ** length:
        i -= base ** length
        length += 1
    x = [(i // base ** k) % base for k in range(length)]
    if len(set(x)) < 2:
        rows = calc_rainflow(np.array(x, float), extended_output=False)
        cx.check(len(rows) == 0, "constant-signal", "cycles in a constant signal", x=x)
        return
    cx.note(x=x)
    x = np.array(x, float)
    cx.key(x)
    judge(cx, x, *calc_rainflow(x))


def four_levels(cx):
    """Signals over four levels drawn at length 6..11, with no sampling of plateaus."""
    n = int(cx.rng.integers(6, 12))
    x = cx.rng.integers(0, 4, n).astype(float)
    if len(set(x.tolist())) < 2:
        x[0] += 1
    cx.note(x=x)
    cx.key(x)
    judge(cx, x, *calc_rainflow(x))


def families(cx):
    x, kind = gen.signal(cx.rng, max_size=6000 if cx.index % 101 == 7 else 200)
    cx.note(x=x, kind=kind)
    cx.key(x)
    cx.event("family_" + kind)
    if cx.rng.random() < 0.5:
        tvec = np.cumsum(cx.rng.uniform(0.01, 2, len(x))) + cx.rng.normal() * 100
        if cx.rng.random() < 0.3:  # repeated, or not in order (times of day)
            tvec = np.floor(tvec) % 7
        if cx.rng.random() < 0.3:
            rows, res, pos, times = calc_rainflow(list(x), list(tvec))
        else:
            rows, res, pos, times = calc_rainflow(data=x, time=tvec)
        want = judge(cx, x, rows, res, pos, times, tvec)
        only = calc_rainflow(x, tvec, extended_output=False)
    else:
        rows, res, pos = calc_rainflow(x)
        want = judge(cx, x, rows, res, pos)
        only = calc_rainflow(x, extended_output=False)
    cx.check(isinstance(only, np.ndarray), "rows-only", "rows only not returned")
    judge(cx, x, only, res, pos)
    # positions-free variant on the turning points
    r3 = rf.findrfc_astm(x[rf.findtp(x)])
    scale = np.max(np.abs(x))
    got = np.column_stack([2 * r3[:, 0], r3[:, 1], r3[:, 2]])
    cx.check(ref.same_multiset(got, ref.rmw(want), 1e-14 * scale + 1e-300),
             "rainflow-without-time", "3-column count differs", got=got)
    cx.sample(kind=kind, samples=x[:12], rows=len(rows))


def dtypes(cx):
    x = gen.integer_signal(cx.rng)
    dtype = gen.DTYPES[cx.index % len(gen.DTYPES)]
    y = gen.as_dtype(cx.rng, x, dtype)
    if dtype in (np.float32, np.float16) and cx.rng.random() < 0.6:  # all digits used
        y = cx.rng.normal(cx.rng.choice([0, 0, 50]), 10, len(x)).astype(dtype)
        if np.ptp(y) == 0:
            y[-1] += 1
    if cx.rng.random() < 0.4:
        y = gen.layout(cx.rng, y)
    cx.note(x=y, dtype=str(y.dtype))
    cx.key(y)
    cx.event("dtype_" + y.dtype.name)
    judge(cx, y, *calc_rainflow(y))
    if cx.rng.random() < 0.5:
        judge(cx, y, *calc_rainflow(y.tolist()))
        # the same values as a list of integers and floats, and of numpy numbers
        mixed = [int(v) if cx.rng.random() < 0.5 else float(v) for v in y]
        if len(set(mixed)) > 1:
            judge(cx, np.asarray(mixed, float), *calc_rainflow(mixed))
        half = [v + 0.5 if cx.rng.random() < 0.5 else v for v in mixed]
        half[0] = int(np.floor(half[0]))
        if len(set(half)) > 1:
            judge(cx, np.asarray(half, float), *calc_rainflow(half))
        judge(cx, y, *calc_rainflow(list(y)))
        cx.event("mixed_lists")


def long_signals(cx):
    sizes = [3000, 20000, 7777, 65537, 4096, 120001]
    n = sizes[cx.index % len(sizes)]
    kind = ["gauss", "walk", "levels", "sines", "plateaus", "beats", "diverge", "drift"][
        int(cx.rng.integers(0, 8))]
    x, kind = gen.signal(cx.rng, kind=kind, size=n)
    cx.note(size=n, kind=kind)
    cx.key(x)
    cx.event("samples_in_long_signals", n)
    judge(cx, x, *calc_rainflow(x))


def cycle_counts(cx):
    x, kind = gen.signal(cx.rng, max_size=6000 if cx.index % 53 == 7 else 400)
    if cx.rng.random() < 0.2:
        x = gen.integer_signal(cx.rng).astype(gen.DTYPES[int(cx.rng.integers(0, 9))])
    cx.note(x=x, kind=kind)
    cx.key(x)
    want, res_runs, (val, _, _) = ref.count(x)
    tvec = np.arange(len(x)) * 0.1 if cx.rng.random() < 0.5 else None
    cc = pf.CycleCount.from_timeseries(x, tvec, name="a")
    scale = float(np.max(np.abs(x.astype(float))))
    got = np.column_stack([cc.stress_range, cc.mean_stress, cc.count_cycle])
    cx.check(ref.same_multiset(got, ref.rmw(want), 1e-14 * scale + 1e-300),
             "count-from-signal", "count differs from the standard", got=got)
    cx.same(np.asarray(cc.residuals_sequence, float), val[res_runs],
            "count-residual-sequence", "residual sequence differs")
    cx.event("cycle_counts_built")


WORKLOADS = [
    Workload("exhaustive", exhaustive, 9 + 27 + 81 + 243 + 729 + 2187,
             9 + 27 + 81 + 243 + 729 + 2187 + 6561, exhaustive=True),
    Workload("four-levels", four_levels, 1200, 20000),
    Workload("families", families, 1400, 16000),
    Workload("dtypes", dtypes, 660, 6600),
    Workload("cycle-counts", cycle_counts, 400, 6000),
    Workload("long", long_signals, 6, 60),
]
