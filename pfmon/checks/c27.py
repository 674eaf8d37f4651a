"""C27: synthetic signals."""
import random
from fractions import Fraction

import numpy as np

from py_fatigue.testing import get_random_data, get_sampled_time

from pfmon.core import Skip, Workload

RULE = (
    "A case is one request of a time vector or of random data. Non-trivial: a "
    "vector of at least two samples or a refusal; distinct by request. The same "
    "requests are repeated in processes of different history and compared."
)
REQUIRED_EVENTS = ["samples", "whole_periods", "broken_periods", "refused", "random_vectors",
                   "global_state_kept", "distributions_compared", "compared_between_processes"]
WORKERS = 3

TYPES = {
    "normal": {}, "uniform": {}, "exponential": {}, "gumbel": {}, "logistic": {}, "laplace": {},
    "rayleigh": {}, "weibull": dict(a=2.0), "standard_t": dict(df=4), "gamma": dict(shape=2.0),
    "beta": dict(a=2.0, b=5.0), "triangular": dict(left=0, mode=1, right=4), "poisson": dict(lam=50),
}


def number(duration, fs):
    """Samples before the end; the product is borderline when near an integer."""
    prod = Fraction(duration) * Fraction(fs)
    near = round(prod)
    off = abs(float(prod - near))
    if off < 2e-7:
        return near, True
    if off < 5e-6:
        raise Skip
    return -((-prod.numerator) // prod.denominator), False


def times(cx):
    rng = cx.rng
    kind = cx.index % 5
    if kind == 0:
        fs, duration = float(rng.integers(1, 200)), float(rng.integers(1, 300))
    elif kind == 1:
        fs, duration = float(rng.choice([0.1, 0.25, 0.3, 0.7, 1.1, 33.3])), float(rng.integers(20, 600))
    elif kind == 2:
        fs, duration = float(10 ** rng.uniform(-1, 2.5)), float(10 ** rng.uniform(1, 2.5))
    elif kind == 3:  # a little more or less than a whole number of periods
        fs = float(rng.choice([1.0, 4.0, 10.0, 32.0]))
        duration = (float(rng.integers(2, 500)) + float(rng.choice([-1, 1])) * 10 ** rng.uniform(-5, -0.4)) / fs
    else:  # whole numbers of periods that are no whole numbers of seconds
        fs = float(rng.choice([3.0, 7.0, 10.0, 20.0, 60.0, 100.0, 128.0]))
        duration = float(rng.integers(2, 2000)) / fs
    start = float(rng.choice([0.0, 0.0, 1.0, 12.5, 1e4])) if rng.random() < 0.7 else float(rng.uniform(0, 1e5))
    if duration * fs > 200000 or duration * fs < 1:
        raise Skip
    n, whole = number(duration, fs)
    cx.note(fs=fs, duration=duration, start=start)
    cx.key(fs, duration, start)
    args = (fs, duration, start) if start or rng.random() < 0.5 else (fs, duration)
    t = get_sampled_time(*args)
    cx.check(isinstance(t, np.ndarray) and t.ndim == 1, "time-vector", repr(type(t)))
    cx.check(len(t) == n, "sample-number", f"{len(t)} samples, {n} expected")
    cx.check(t[0] == start, "start", f"starts at {t[0]}")
    want = start + np.arange(n) / fs
    tol = 1e-9 / fs + 4e-15 * (start + duration)
    cx.check(bool(np.all(np.abs(t - want) <= tol)), "sampling-period", "not equally spaced")
    cx.check(bool(np.all(np.diff(t) > 0)) if 1 / fs > 1e-9 * start else True, "sampling-period", "not increasing")
    slack = 1e-6 / fs + 4e-15 * (start + duration)
    cx.check(bool(t[-1] < start + duration - slack) or not whole, "past-the-end",
             f"last sample {t[-1]} of a signal ending at {start + duration}")
    cx.check(bool(t[-1] < start + duration), "past-the-end", f"{t[-1]} >= {start + duration}")
    cx.check(bool(t[-1] + 1 / fs >= start + duration - slack), "too-short", f"last sample {t[-1]}")
    cx.event("samples", n)
    cx.event("whole_periods" if whole else "broken_periods")
    cx.same(get_sampled_time(*args), t, "repetition")
    cx.sample(fs=fs, duration=duration, start=start, samples=n)


def refusals(cx):
    rng = cx.rng
    fs, duration = float(rng.uniform(0.5, 100)), float(rng.uniform(5, 100))
    neg = -float(10 ** rng.uniform(-6, 3))
    cx.note(fs=fs, duration=duration, negative=neg)
    cx.key(fs, duration, neg)
    for args, what in (((fs, duration, neg), "negative start"), ((fs, neg), "negative duration"),
                       ((neg, duration), "negative frequency"), ((0, duration), "no frequency"),
                       ((fs, 0.0), "no duration"), ((fs, 0.9 / fs), "shorter than a period"),
                       ((0.5 / duration, duration), "shorter than a period")):
        cx.raises(ValueError, lambda a=args: get_sampled_time(*a), "impossible", f"{what} {args}")
    cx.raises((AttributeError, ValueError, TypeError), lambda: get_random_data(
        np.arange(5.0), random_type="no_such_distribution"), "impossible", "distribution")


def request(rng, n=None):
    kind = str(rng.choice(sorted(TYPES)))
    n = n or int(rng.integers(2, 400))
    seed = int(rng.integers(0, 2 ** 31)) if rng.random() < 0.8 else int(rng.choice([0, 1, 2 ** 40]))
    kw = dict(seed=seed, random_type=kind, min_=float(rng.uniform(-1e3, 1e3)),
              range_=float(10 ** rng.uniform(-2, 4)), **TYPES[kind])
    if kind in ("normal", "exponential", "gumbel", "laplace") and rng.random() < 0.4:
        kw["scale"] = float(10 ** rng.uniform(-8, 5))
    return n, kw


def disturb(rng):
    """A history: other users of the random generators."""
    np.random.seed(int(rng.integers(0, 1000)))
    np.random.normal(size=int(rng.integers(1, 50)))
    random.seed(int(rng.integers(0, 1000)))
    get_random_data(np.arange(9.0), seed=int(rng.integers(0, 9)))


def judge(cx, y, n, kw):
    cx.check(np.shape(y) == (n,), "length", f"{np.shape(y)} for {n} samples")
    lo, hi = kw["min_"], kw["min_"] + kw["range_"]
    tol = 1e-9 * max(abs(lo), abs(hi), kw["range_"])
    cx.check(abs(float(np.min(y)) - lo) <= tol, "minimum", f"{np.min(y)} instead of {lo}")
    cx.check(abs(float(np.max(y)) - hi) <= tol, "range", f"{np.max(y)} instead of {hi}")
    cx.event("random_vectors")


def data(cx):
    rng = cx.rng
    n, kw = request(rng)
    t = np.arange(n) / 10.0
    cx.note(n=n, **kw)
    cx.key(n, repr(kw))
    disturb(rng)
    state, pystate = np.random.get_state(), random.getstate()
    y = get_random_data(t, **kw)
    after = np.random.get_state()
    cx.check(state[0] == after[0] and np.array_equal(state[1], after[1]) and state[2:] == after[2:]
             and random.getstate() == pystate, "global-state", "the global random state has changed")
    cx.event("global_state_kept")
    if not np.all(np.isfinite(y)):
        raise Skip  # all samples drawn equal (discrete distributions)
    judge(cx, y, n, kw)
    disturb(rng)
    cx.same(get_random_data(t, **kw), y, "repetition", "another history, other data")
    cx.same(get_random_data(t * 3 + 50, **kw), y, "time-matters", "other times, other data")
    z = get_random_data(t, **{**kw, "min_": 0.0, "range_": 1.0})
    tol = 1e-9 * max(1, abs(kw["min_"]), kw["range_"])
    cx.close(z * kw["range_"] + kw["min_"], y, "shape", "other bounds, other shape", rtol=1e-9, atol=tol)
    if n >= 10:
        for seed in (kw["seed"] + 1, kw["seed"] ^ (1 << int(rng.integers(0, 40)))):
            other = get_random_data(t, **{**kw, "seed": seed})
            cx.check(not np.array_equal(other, y), "seed-ignored", f"{kw['seed']} and {seed}")
        kind = "uniform" if kw["random_type"] != "uniform" else "normal"
        other = get_random_data(t, seed=kw["seed"], random_type=kind, min_=kw["min_"], range_=kw["range_"])
        cx.check(not np.array_equal(other, y), "distribution-ignored", f"{kw['random_type']} and {kind}")


def shapes(cx):
    """The data have the distribution asked for: quantiles of long vectors."""
    rng = cx.rng
    n = 6000
    _, kw = request(rng, n)
    cx.note(**kw)
    cx.key(repr(kw))
    y = get_random_data(np.arange(n), **kw)
    judge(cx, y, n, kw)
    par = TYPES[kw["random_type"]]
    ref = getattr(np.random.default_rng(int(rng.integers(0, 2 ** 31))), kw["random_type"])(**par, size=n)
    one, two = (shape(np.sort(v)) for v in (y, ref))
    cx.check(abs(one - two) < 0.12, "distribution", f"quantile shape {one} instead of {two}")
    cx.event("distributions_compared")


def shape(v):
    """Asymmetry and tail weight of a sample, free of location and scale."""
    q = np.quantile(v, [0.05, 0.25, 0.5, 0.75, 0.95])
    return (q[4] - 2 * q[2] + q[0]) / (q[4] - q[0]) + (q[4] - q[0]) / (q[3] - q[1]) / 10


def defaults(cx):
    n = 2 + cx.index
    t = get_sampled_time(10, n / 10)
    cx.note(n=n)
    cx.key(n)
    y = get_random_data(t)
    judge(cx, y, len(t), dict(min_=-10.0, range_=50.0))
    cx.same(get_random_data(t, seed=2, random_type="normal", min_=-10.0, range_=50.0), y, "defaults")


WORKLOADS = [
    Workload("times", times, 800, 12000),
    Workload("refusals", refusals, 60, 600),
    Workload("data", data, 400, 6000),
    Workload("shapes", shapes, 60, 600),
    Workload("defaults", defaults, 40, 200),
]


def export():
    """The same requests in every process, after its own history."""
    rng = np.random.default_rng(5)
    out = []
    for _ in range(60):
        n, kw = request(rng, 12)
        out.append([float(v).hex() for v in get_random_data(np.arange(n), **kw)])
    return out


def finalize(reports):
    vectors = [rep["export"] for rep in reports]
    bad = []
    for other in vectors[1:]:
        for k, (a, b) in enumerate(zip(vectors[0], other)):
            if a != b:
                bad.append({"workload": "data", "index": k, "mechanism": "process-difference",
                            "message": "two processes give different data for the same seed",
                            "data": {"one": a, "other": b}})
                break
    num = sum(len(v) for v in vectors[1:])
    return {"violations": bad, "oracle_evaluations": num, "events": {"compared_between_processes": num}}
