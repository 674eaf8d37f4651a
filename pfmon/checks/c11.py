"""C11: evaluation of S-N curves."""
import numpy as np
import pandas as pd

from pfmon import gen, make, ref
from pfmon.core import Workload

RULE = (
    "A case is one S-N curve (1 to 5 branches, with or without endurance) "
    "evaluated on an array of stresses and of cycles in several containers. "
    "Non-trivial: at least one finite value; distinct by parameters and inputs."
)
REQUIRED_EVENTS = ["cycles_evaluated", "stress_evaluated", "infinite", "inverted",
                   "refused", "long_arrays", "at_endurance"]
REFUSED = (AssertionError, ValueError)


def stresses(rng, par):
    n = int(rng.integers(1, 60))
    knees = ref.sn_knees(par[0], par[1])
    mid = [k[0] for k in knees] or [10 ** ((par[1][0] - 6) / par[0][0])]
    s = np.asarray(rng.choice(mid, n)) * 10 ** rng.uniform(-1, 1, n)
    extra = [0.0] if rng.random() < 0.4 else []
    if rng.random() < 0.3:
        extra += [1e-12, 1e9, 1e-30]
    if rng.random() < 0.4:
        extra += mid
    if par[2] < np.inf and rng.random() < 0.6:
        low = ref.sn_stress(par[2], *par)
        extra += [low * 1.0001, low * 0.9999, low * 2, low / 2]
    s = np.r_[s, extra]
    return s[rng.permutation(len(s))]


def numbers(rng, par):
    n = int(rng.integers(1, 60))
    c = 10 ** rng.uniform(0, 14, n)
    extra = [k[1] for k in ref.sn_knees(par[0], par[1])] if rng.random() < 0.5 else []
    if par[2] < np.inf:
        extra += [par[2], par[2] * 1.0001, par[2] * 0.9999, par[2] * 1e4]
    if rng.random() < 0.3:
        extra += [1e-3, 1.0, 1e30]
    c = np.r_[c, extra]
    return c[rng.permutation(len(c))]


def judge_cycles(cx, got, s, par, what="array"):
    got = np.asarray(got, float)
    cx.check(got.shape == np.shape(s), "cycles-shape", f"{what}: {got.shape}")
    for g, v in zip(got.ravel(), np.ravel(s)):
        w = ref.sn_cycles(float(v), *par)
        raw = ref.sn_cycles(float(v), par[0], par[1], np.inf)
        if par[2] < np.inf and abs(raw - par[2]) <= 1e-9 * par[2]:
            cx.event("at_endurance")
            continue
        if 1e300 < raw < np.inf:
            continue
        if w == np.inf:
            cx.event("infinite")
        cx.check(g == w if w == np.inf else abs(g - w) <= 1e-9 * w, "cycles",
                 f"{what}: {g} cycles at {v}, the law gives {w}")
    cx.event("cycles_evaluated", got.size)


def judge_stress(cx, got, c, par, what="array"):
    got = np.asarray(got, float)
    cx.check(got.shape == np.shape(c), "stress-shape", f"{what}: {got.shape}")
    for g, v in zip(got.ravel(), np.ravel(c)):
        w = ref.sn_stress(float(v), *par)
        cx.check(abs(g - w) <= 1e-9 * w, "stress", f"{what}: {g} at {v} cycles, the law gives {w}")
        if par[2] < np.inf and v >= par[2]:
            cx.event("at_endurance")
    cx.event("stress_evaluated", got.size)


def note(cx, par, **kw):
    cx.note(slope=par[0], intercept=par[1], endurance=par[2], **kw)


def curves(cx):
    rng = cx.rng
    curve, par = make.sn_curve(rng)
    s, c = stresses(rng, par), numbers(rng, par)
    note(cx, par, stress=s, cycles=c)
    cx.key(repr(par), s, c)
    s_0, c_0 = s.copy(), c.copy()
    n_s, s_c = curve.get_cycles(s), curve.get_stress(c)
    judge_cycles(cx, n_s, s, par)
    judge_stress(cx, s_c, c, par)
    # inverse on the finite part
    fin = np.isfinite(n_s) & (s > 0) & (n_s > 1e-200) & (n_s < 1e200)
    if par[2] < np.inf:
        fin &= n_s < par[2] * (1 - 1e-9)
    if fin.any():
        cx.close(curve.get_stress(n_s[fin]), s[fin], "inverse", "stress of cycles", rtol=1e-9)
        cx.event("inverted", int(fin.sum()))
    fin = c < par[2] * (1 - 1e-9)
    if fin.any():
        cx.close(curve.get_cycles(s_c[fin]), c[fin], "inverse", "cycles of stress", rtol=1e-8)
    # monotone
    n_sorted = curve.get_cycles(np.sort(s))
    cx.check(bool(np.all((n_sorted[1:] <= n_sorted[:-1] * (1 + 1e-12)) | np.isinf(n_sorted[:-1]))),
             "monotone", "cycles increase with stress")
    s_sorted = curve.get_stress(np.sort(c))
    cx.check(bool(np.all(s_sorted[1:] <= s_sorted[:-1] * (1 + 1e-12))), "monotone",
             "stress increases with cycles")
    # other containers, one at a time, and again
    k = int(rng.integers(0, len(s)))
    one = curve.get_cycles(float(s[k]))
    cx.check(np.ndim(one) == 0, "scalar", "scalar input gives no scalar")
    same(cx, one, n_s[k], "scalar")
    same(cx, curve.get_cycles(s.tolist()), n_s, "list")
    same(cx, curve.get_cycles(tuple(s.tolist())), n_s, "tuple")
    same(cx, curve.get_cycles(gen.layout(rng, s)), n_s, "layout")
    same(cx, curve.get_cycles(pd.Series(s, index=np.arange(len(s))[::-1])), n_s, "series")
    perm = rng.permutation(len(s))
    same(cx, curve.get_cycles(s[perm]), n_s[perm], "order")
    cut = int(rng.integers(1, len(s) + 1))
    same(cx, curve.get_cycles(s[:cut]), n_s[:cut], "length")
    same(cx, curve.get_cycles(s), n_s, "repetition")
    same(cx, curve.n(s), n_s, "alias")
    k = int(rng.integers(0, len(c)))
    same(cx, curve.get_stress(float(c[k])), s_c[k], "scalar")
    same(cx, curve.get_stress(c.tolist()), s_c, "list")
    perm = rng.permutation(len(c))
    same(cx, curve.get_stress(c[perm]), s_c[perm], "order")
    same(cx, curve.get_stress(gen.layout(rng, c)), s_c, "layout")
    same(cx, curve.sigma(c), s_c, "alias")
    # one array refilled between the calls, and a part of it
    box = np.zeros(len(s) + 2)
    part = box if rng.random() < 0.5 else box[1:-1]
    part[:] = 1.0
    for order in (slice(None), slice(None, None, -1), np.argsort(s)):
        part[:len(s)] = s[order]
        same(cx, curve.get_cycles(part)[:len(s)], n_s[order], "refilling")
    box = np.ones(len(c) + 2)
    part = box if rng.random() < 0.5 else box[1:-1]
    for order in (slice(None), slice(None, None, -1), np.argsort(c)):
        part[:len(c)] = c[order]
        same(cx, curve.get_stress(part)[:len(c)], s_c[order], "refilling")
    cx.same(s, s_0, "evaluation-changed-operand")
    cx.same(c, c_0, "evaluation-changed-operand")
    cx.sample(slope=par[0], intercept=par[1], endurance=par[2], stress=s[:3], cycles=n_s[:3])


def same(cx, got, want, what):
    cx.close(got, want, "depends-on-" + what, what, rtol=1e-12)


def dtypes(cx):
    """Whole numbers in every dtype."""
    rng = cx.rng
    curve, par = make.sn_curve(rng)
    s = rng.integers(1, 120, int(rng.integers(1, 30)))
    c = rng.integers(1, 30000, int(rng.integers(1, 30)))
    dtype = [np.int64, np.int32, np.int16, np.uint8, np.uint16, np.uint64, np.float32,
             np.float16][cx.index % 8]
    note(cx, par, stress=s, cycles=c, dtype=np.dtype(dtype).name)
    cx.key(repr(par), s, c, np.dtype(dtype).name)
    judge_cycles(cx, curve.get_cycles(s.astype(dtype)), s, par, np.dtype(dtype).name)
    if dtype not in (np.uint8, np.float16):
        judge_stress(cx, curve.get_stress(c.astype(dtype)), c, par, np.dtype(dtype).name)
    judge_cycles(cx, curve.get_cycles(int(s[0])), s[0], par, "int")
    judge_cycles(cx, curve.get_cycles(dtype(s[0])), s[0], par, "scalar " + np.dtype(dtype).name)


def long_arrays(cx):
    rng = cx.rng
    curve, par = make.sn_curve(rng)
    n = [1000, 30011, 200000][cx.index % 3]
    s = 10 ** rng.uniform(-1, 3, n)
    c = 10 ** rng.uniform(2, 12, n)
    note(cx, par, n=n)
    cx.key(repr(par), n)
    log_s = np.log10(s)
    best = np.max([a - m * log_s for m, a in zip(par[0], par[1])], axis=0)
    want = 10.0 ** best
    got = curve.get_cycles(s)
    if par[2] < np.inf:
        near = np.abs(want - par[2]) <= 1e-9 * par[2]
        want = np.where(want > par[2], np.inf, want)
        got, want = got[~near], want[~near]
    cx.close(got, want, "cycles", "long array", rtol=1e-9)
    best = np.max([(a - np.log10(c)) / m for m, a in zip(par[0], par[1])], axis=0)
    want = 10.0 ** best
    if par[2] < np.inf:
        want = np.maximum(want, ref.sn_stress(par[2], *par))
    cx.close(curve.get_stress(c), want, "stress", "long array", rtol=1e-9)
    cx.event("long_arrays")


def refusals(cx):
    rng = cx.rng
    curve, par = make.sn_curve(rng)
    s = 10 ** rng.uniform(0, 3, int(rng.integers(1, 20)))
    k = int(rng.integers(0, len(s)))
    note(cx, par, position=k)
    cx.key(repr(par), s, "refused")
    bad = s.copy()
    bad[k] = -bad[k]
    cx.raises(REFUSED, lambda: curve.get_cycles(bad), "negative-stress", "array")
    cx.raises(REFUSED, lambda: curve.get_cycles(float(bad[k])), "negative-stress", "scalar")
    for val in (0.0, -1.0):
        bad = s.copy()
        bad[k] = val
        cx.raises(REFUSED, lambda: curve.get_stress(bad), "non-positive-cycles", "array")
        cx.raises(REFUSED, lambda: curve.get_stress(val), "non-positive-cycles", "scalar")
    cx.check(curve.get_cycles(0) == np.inf, "zero-stress", "finite life at zero stress")
    cx.check(curve.get_cycles([0.0, 1.0])[0] == np.inf, "zero-stress", "finite life at zero stress")


WORKLOADS = [
    Workload("curves", curves, 500, 7000),
    Workload("dtypes", dtypes, 320, 3200),
    Workload("long", long_arrays, 9, 90),
    Workload("refusals", refusals, 80, 800),
]
