"""C03: conservation of the load path and invariance of the count."""
import numpy as np

import py_fatigue as pf
from py_fatigue.cycle_count import calc_rainflow

from pfmon import gen, ref
from pfmon.core import Workload

RULE = (
    "A case is a signal and one transformation of it (exact in floating point: "
    "grid signals, dyadic factors), counted separately. Non-trivial: at least "
    "two different values; distinct by samples and transformation."
)
REQUIRED_EVENTS = ["conservation", "tr_scale", "tr_offset", "tr_mirror", "tr_repeat",
                   "tr_insert", "tr_time", "tr_reverse", "tr_container"]


def rows3(x, *args):
    rows = np.asarray(calc_rainflow(x, *args, extended_output=False))
    return np.column_stack([2 * rows[:, 0], rows[:, 1], rows[:, 2]])


def grid_signal(rng, max_size=150):
    """Signal on a dyadic grid: sums, products with k/8 are exact."""
    x, kind = gen.signal(rng, max_size=max_size)
    span = np.max(np.abs(x)) or 1.0
    if kind == "ulp":  # keep its tie structure
        x = np.round((x - x[0]) / np.spacing(x[0]))
        span = np.max(np.abs(x)) or 1.0
        x = x * 4
    else:
        x = np.round(x / span * 512)
        if rng.random() < 0.3:
            x = np.round(x / 64) * 64
    if np.all(x == x[0]):
        x[-1] += 64
    return x / 64, kind


def conservation(cx):
    x, kind = gen.signal(cx.rng, max_size=400)
    cx.note(x=x, kind=kind)
    cx.key(x)
    judge_conservation(cx, x, rows3(x))
    cc = pf.CycleCount.from_timeseries(x)
    judge_conservation(cx, x, np.column_stack(
        [cc.stress_range, cc.mean_stress, cc.count_cycle]))
    cx.sample(kind=kind, samples=x[:10])


def judge_conservation(cx, x, rows):
    eps = 1e-9
    variation = ref.total_variation(x.tolist())
    scale = float(np.max(np.abs(x)))
    got = float(np.sum(2 * rows[:, 2] * rows[:, 0]))
    cx.check(abs(got - variation) <= eps * variation + 1e-15 * scale * len(x),
             "total-variation", f"cycles cover {got}, signal travels {variation}")
    span = float(x.max() - x.min())
    tol = 1e-14 * scale
    cx.check(abs(rows[:, 0].max() - span) <= tol, "largest-range",
             f"largest range {rows[:, 0].max()}, signal spans {span}")
    cx.check(bool(np.all(rows[:, 1] - rows[:, 0] / 2 >= x.min() - tol)
                  and np.all(rows[:, 1] + rows[:, 0] / 2 <= x.max() + tol)),
             "enclosure", "a cycle exceeds the signal")
    cx.check(set(rows[:, 2].tolist()) <= {0.5, 1.0}, "weights", "weight not 1 or 0.5")
    cx.event("conservation")


def expect(cx, got, want, scale, what):
    cx.check(ref.same_multiset(got, want, 1e-13 * scale + 1e-300), what,
             "the count changed", got=got, want=want)
    cx.event("tr_" + what)


def transforms(cx):
    rng = cx.rng
    x, kind = grid_signal(rng)
    which = ["scale", "offset", "mirror", "repeat", "insert", "time", "reverse",
             "container"][cx.index % 8]
    cx.note(x=x, kind=kind, transform=which)
    cx.key(x, which)
    base = rows3(x)
    scale = float(np.max(np.abs(x))) + 1.0
    if which == "scale":
        fac = float(rng.choice([0.125, 0.5, 2, 3, 5, 7.5, 1024, 2.0 ** -30, 2.0 ** 40]))
        expect(cx, rows3(x * fac), base * [fac, fac, 1], scale * fac, which)
    elif which == "offset":
        off = float(rng.choice([1, -3, 0.25, 1000, -4096, 0.015625]))
        expect(cx, rows3(x + off), base + [0, off, 0], scale + abs(off), which)
    elif which == "mirror":
        expect(cx, rows3(-x), base * [1, -1, 1], scale, which)
    elif which == "repeat":
        expect(cx, rows3(np.repeat(x, rng.integers(1, 5, len(x)))), base, scale, which)
    elif which == "insert":
        y = []
        for a, b in zip(x, x[1:]):
            y.append(a)
            frac = np.sort(rng.integers(0, 9, int(rng.integers(0, 4)))) / 8
            y.extend((a + (b - a) * frac).tolist())
        y.append(x[-1])
        expect(cx, rows3(np.array(y)), base, scale, which)
    elif which == "time":
        tv = np.cumsum(rng.uniform(0.001, 5, len(x)))
        if rng.random() < 0.3:
            tv = tv[::-1].copy()
        expect(cx, rows3(x, tv), base, scale, which)
    elif which == "reverse":
        # equal ranges are closed in the order they come: no ties here
        x, kind = gen.signal(rng, kind=str(rng.choice(
            ["gauss", "walk", "sines", "drift", "tiny", "huge", "spike", "offset"])))
        cx.note(x=x, kind=kind)
        base, scale = rows3(x), float(np.max(np.abs(x)))
        expect(cx, rows3(x[::-1].copy()), base, scale, which)
        expect(cx, rows3(x[::-1]), base, scale, which)
    else:
        expect(cx, rows3(x.tolist()), base, scale, which)
        expect(cx, rows3(gen.layout(rng, x)), base, scale, which)
        expect(cx, rows3(x.astype(np.float32)), base, scale, which)
        y = np.round(x * 64).astype(np.int64)
        ints = rows3(y)
        expect(cx, ints / [64, 64, 1], base, scale, which)
        z = y - y.min()
        for dtype in (np.int32, np.uint16, np.uint32):
            if z.max() < 60000:
                expect(cx, rows3(z.astype(dtype)) / [64, 64, 1],
                       base - [0, y.min() / 64, 0], scale, which)


def long_signals(cx):
    n = [10007, 70001, 150000][cx.index % 3]
    x, kind = gen.signal(cx.rng, kind=["gauss", "walk", "sines", "beats"][
        int(cx.rng.integers(0, 4))], size=n)
    cx.note(size=n, kind=kind)
    cx.key(x)
    rows = rows3(x)
    judge_conservation(cx, x, rows)
    expect(cx, rows3(x[::-1]), rows, float(np.max(np.abs(x))), "reverse")


WORKLOADS = [
    Workload("conservation", conservation, 1500, 20000),
    Workload("transforms", transforms, 2400, 32000),
    Workload("long", long_signals, 4, 30),
]
