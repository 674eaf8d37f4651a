"""C02: level crossings and turning points."""
import numpy as np

import py_fatigue as pf
from py_fatigue.cycle_count import calc_rainflow
from py_fatigue.cycle_count import rainflow as rf

from pfmon import gen, ref
from pfmon.core import Workload

RULE = (
    "A case is one signal with one level (or one signal, for turning points). "
    "Exhaustive cases enumerate every sign pattern around the level. "
    "Non-trivial: the signal takes at least two values; distinct by samples, "
    "level and dtype."
)
REQUIRED_EVENTS = ["crossings", "touches", "turning_points", "refused"]


def judge_crossings(cx, x, level):
    xf = np.asarray(x).astype(float)
    want = ref.crossings(xf.tolist(), level)
    for kind in (None, "all", "du", "u", "d"):
        exp = [p for p, s in want
               if kind in (None, "all", "du") or s == (1 if kind == "u" else -1)]
        got = rf.findcross(x, level, kind)
        cx.same(np.asarray(got, dtype=float), np.asarray(exp, dtype=float),
                "crossings", f"kind={kind}", x=x, level=level)
    cx.event("crossings", len(want))
    on = np.flatnonzero(xf == level)
    if len(on) and not {p for p, _ in want} & set(on.tolist()):
        cx.event("touches")


def judge_turning_points(cx, x):
    val, start, end, rev = ref.reversals(x)
    n = len(x)
    tp = np.asarray(rf.findtp(x))
    if not rev:
        cx.check(len(tp) == 0, "constant-turning-points",
                 "turning points in a constant signal", tp=tp)
        return
    cx.check(len(tp) >= 2 and tp[0] == 0 and tp[-1] == n - 1,
             "turning-point-ends", "does not span the signal", tp=tp, x=x)
    cx.check(bool(np.all(np.diff(tp) > 0)), "turning-point-order",
             "positions not increasing", tp=tp, x=x)
    run = np.repeat(np.arange(len(start)), end - start + 1)
    ids = run[tp]
    ids = ids[np.r_[True, ids[1:] != ids[:-1]]]
    cx.check(ids.tolist() == rev, "turning-points", "not the reversals",
             tp=tp, x=x, want=rev)
    dup = run[tp][1:][run[tp][1:] == run[tp][:-1]]
    cx.check(set(dup.tolist()) <= {0, len(val) - 1}, "turning-point-repeats",
             "repeated inner turning point", tp=tp, x=x)
    ext = np.asarray(rf.findextrema(x))
    inner = run[ext] if len(ext) else np.empty(0, int)
    cx.check(inner[np.isin(inner, rev[1:-1])].tolist() == rev[1:-1],
             "extrema", "an inner extreme is missing or repeated", ext=ext, x=x)
    cx.check(set(inner.tolist()) <= set(rev), "extrema", "not an extreme",
             ext=ext, x=x)
    cx.event("turning_points", len(tp))


def patterns(cx):
    """Every pattern of {below, on, above}; also read as a signal."""
    i = cx.index
    length = 1
    while i >= 3 ** length:
        i -= 3 ** length
        length += 1
    signs = np.array([(i // 3 ** k) % 3 - 1 for k in range(length)], float)
    level = [0.0, 2.5, -7.0][cx.index % 3]
    x = signs * 1.5 + level
    cx.note(x=x, level=level)
    if len(set(x.tolist())) > 1:
        cx.key(x, level)
    judge_crossings(cx, x, level)
    judge_turning_points(cx, x)


def families(cx):
    x, kind = gen.signal(cx.rng, max_size=150)
    pick = cx.rng.random()
    if pick < 0.5:
        level = float(x[cx.rng.integers(0, len(x))])
    elif pick < 0.6:
        level = float(x[0])
    elif pick < 0.7:
        level = float(x[-1])
    elif pick < 0.8:
        level = 0.0
    else:
        level = float(cx.rng.uniform(x.min() - 1e-3, x.max() + 1e-3))
    cx.note(x=x, kind=kind, level=level)
    cx.key(x, level)
    judge_crossings(cx, x if cx.rng.random() < 0.7 else x.tolist(), level)
    judge_turning_points(cx, x)
    cx.sample(kind=kind, level=level, samples=x[:10])


def dtypes(cx):
    x = gen.integer_signal(cx.rng)
    dtype = gen.DTYPES[cx.index % (len(gen.DTYPES) - 1)]
    y = x.astype(dtype)
    if cx.rng.random() < 0.4:
        y = gen.layout(cx.rng, y)
    level = cx.rng.choice(x)
    level = int(level) if cx.rng.random() < 0.5 else float(level) + float(cx.rng.choice([0, 0.5, -0.5]))
    cx.note(x=y, dtype=y.dtype.name, level=level)
    cx.key(y, level)
    judge_crossings(cx, y, level)
    judge_turning_points(cx, y)
    cx.event("dtype_" + y.dtype.name)


def long_signals(cx):
    n = [5000, 50000, 200003][cx.index % 3]
    x, kind = gen.signal(cx.rng, kind=["gauss", "levels", "plateaus", "sines"][
        int(cx.rng.integers(0, 4))], size=n)
    level = float(x[int(cx.rng.integers(0, n))])
    cx.note(size=n, kind=kind)
    cx.key(x, level)
    judge_crossings(cx, x, level)
    judge_turning_points(cx, x)


def nan_refused(cx):
    x, _ = gen.signal(cx.rng, max_size=60)
    if cx.index % 5 == 0:
        x, _ = gen.signal(cx.rng, size=int(10 ** cx.rng.uniform(2, 5.3)))
        cx.event("nan_in_long_signals")
    k = int(cx.rng.integers(0, len(x)))
    k = [0, len(x) - 1, k, k][int(cx.rng.integers(0, 4))]
    x[k] = np.nan
    cx.note(x=x)
    cx.key(x)
    for name, fn in (
        ("rainflow", lambda: calc_rainflow(x)),
        ("rainflow-list", lambda: calc_rainflow(x.tolist())),
        ("findtp", lambda: rf.findtp(x)),
        ("findextrema", lambda: rf.findextrema(x)),
        ("findcross", lambda: rf.findcross(x, 0.1)),
        ("cycle count", lambda: pf.CycleCount.from_timeseries(x)),
    ):
        cx.raises(Exception, fn, "nan-accepted", name)


WORKLOADS = [
    Workload("sign-patterns", patterns, 3 + 9 + 27 + 81 + 243 + 729 + 2187,
             3 + 9 + 27 + 81 + 243 + 729 + 2187 + 6561 + 19683, exhaustive=True),
    Workload("families", families, 1500, 20000),
    Workload("dtypes", dtypes, 400, 5000),
    Workload("long", long_signals, 6, 45),
    Workload("nan", nan_refused, 90, 900),
]
