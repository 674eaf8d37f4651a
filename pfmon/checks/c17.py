"""C17: evaluation of Paris curves."""
import numpy as np
import pandas as pd

import py_fatigue as pf

from pfmon import gen, make, ref
from pfmon.core import Skip, Workload

RULE = (
    "A case is one Paris curve (1 to 4 segments, with or without threshold and "
    "critical value) evaluated on arrays of stress intensities and growth rates "
    "in several containers. Non-trivial: at least one value between threshold "
    "and critical; distinct by parameters and inputs."
)
REQUIRED_EVENTS = ["rates", "below_threshold", "above_critical", "inside", "inverted",
                   "rates_outside", "knees", "refused", "long_arrays", "at_threshold", "close_slopes"]
REFUSED = (AssertionError, ValueError)


def note(cx, par, **kw):
    cx.note(slope=par[0], intercept=par[1], threshold=par[2], critical=par[3], **kw)


def intensities(rng, par):
    n = int(rng.integers(1, 60))
    marks = ref.paris_knees(par[0], par[1]) + [v for v in par[2:] if 0 < v < np.inf] or [60.0]
    lo = par[2] if par[2] > 0 else min(marks) / 60
    hi = par[3] if par[3] < np.inf else max(marks) * 50
    k = 10 ** rng.uniform(np.log10(lo) - 0.3, np.log10(hi) + 0.3, n)
    extra = list(rng.uniform(lo, hi, 3))
    if rng.random() < 0.5:
        extra += ref.paris_knees(par[0], par[1])
    if par[2] > 0:
        extra += [par[2], par[2] * 0.9999, np.nextafter(par[2], 0), par[2] * 1.0001, par[2] / 100]
    if par[3] < np.inf:
        extra += [par[3], par[3] * 0.9999, np.nextafter(par[3], np.inf), par[3] * 1.0001, par[3] * 10]
    if rng.random() < 0.4:
        extra += [0.0, 1e-6, 1e12, np.inf]
    k = np.r_[k, extra]
    return k[rng.permutation(len(k))]


def judge_rates(cx, got, sif, par, what="array"):
    got = np.asarray(got, float)
    cx.check(got.shape == np.shape(sif), "rate-shape", f"{what}: {got.shape}")
    for g, k in zip(got.ravel(), np.ravel(sif)):
        w = ref.paris_rate(float(k), *par)
        cx.event("below_threshold" if k < par[2] else "above_critical" if k > par[3] else "inside")
        if k == par[2] > 0:
            cx.event("at_threshold")
        cx.check(g == w if w in (0.0, np.inf) else abs(g - w) <= 1e-8 * w, "rate",
                 f"{what}: rate {g} at {k}, the law gives {w}")
    cx.event("rates", got.size)


def curves(cx):
    rng = cx.rng
    curve, par = make.paris_curve(rng)
    sif = intensities(rng, par)
    note(cx, par, sif=sif)
    cx.key(repr(par), sif)
    before = sif.copy()
    rate = curve.get_growth_rate(sif)
    judge_rates(cx, rate, sif, par)
    rates = curve.get_growth_rate(np.sort(sif))
    cx.check(bool(np.all((rates[1:] >= rates[:-1] * (1 - 1e-9)))), "monotone",
             "growth rate decreases with the stress intensity")
    # inverse
    inside = (sif > par[2]) & (sif < par[3]) & (sif > 0) & (rate > 1e-290) & np.isfinite(rate)
    if inside.any():
        back = curve.get_sif(rate[inside])
        cx.close(back, sif[inside], "inverse", "stress intensity of the growth rate", rtol=1e-7)
        cx.event("inverted", int(inside.sum()))
        cx.close(curve.get_growth_rate(back * (1 - 1e-12)), rate[inside], "inverse",
                 "growth rate of the stress intensity", rtol=1e-6)
        k = int(rng.integers(0, int(inside.sum())))
        same(cx, curve.get_sif(float(rate[inside][k])), back[k], "scalar")
        same(cx, curve.get_sif(rate[inside].tolist()), back, "list")
        same(cx, curve.get_sif(gen.layout(rng, rate[inside])), back, "layout")
        perm = rng.permutation(len(back))
        same(cx, curve.get_sif(rate[inside][perm]), back[perm], "order")
    if par[2] > 0:
        low = ref.paris_rate(par[2], *par)
        cx.close(curve.threshold_growth_rate, low, "threshold-rate", rtol=1e-8)
        got = curve.get_sif([low * 0.99, low / 100, 0.0])
        cx.close(got, [par[2]] * 3, "below-threshold-rate", rtol=1e-9)
        cx.event("rates_outside")
    if par[3] < np.inf:
        high = ref.paris_rate(par[3], *par)
        cx.close(curve.critical_growth_rate, high, "critical-rate", rtol=1e-8)
        got = curve.get_sif([high * 1.01, high * 100, np.inf])
        cx.close(got, [par[3]] * 3, "above-critical-rate", rtol=1e-9)
        cx.event("rates_outside")
    knees = ref.paris_knees(par[0], par[1])
    k_s, k_r = curve.get_knee_sif(), curve.get_knee_growth_rate()
    cx.check(len(k_s) == len(k_r) == len(knees), "knee-number", f"{len(k_s)}, {len(k_r)}")
    for j, (k, r) in enumerate(zip(k_s, k_r)):
        cx.close(k, knees[j], "knee-sif", rtol=1e-8)
        for b in (j, j + 1):
            cx.close(r, par[1][b] * k ** par[0][b], "knee-on-segment", f"knee {j}, segment {b}",
                     rtol=1e-6)
        cx.close(curve.get_growth_rate(float(k)), r, "knee-on-curve", rtol=1e-6)
        cx.event("knees")
    # containers
    k = int(rng.integers(0, len(sif)))
    one = curve.get_growth_rate(float(sif[k]))
    cx.check(np.ndim(one) == 0, "scalar", "scalar input gives no scalar")
    same(cx, one, rate[k], "scalar")
    same(cx, curve.get_growth_rate(sif.tolist()), rate, "list")
    same(cx, curve.get_growth_rate(tuple(sif.tolist())), rate, "tuple")
    same(cx, curve.get_growth_rate(gen.layout(rng, sif)), rate, "layout")
    same(cx, curve.get_growth_rate(pd.Series(sif)), rate, "series")
    perm = rng.permutation(len(sif))
    same(cx, curve.get_growth_rate(sif[perm]), rate[perm], "order")
    cut = int(rng.integers(1, len(sif) + 1))
    same(cx, curve.get_growth_rate(sif[:cut]), rate[:cut], "length")
    same(cx, curve.get_growth_rate(sif), rate, "repetition")
    # one array refilled between the calls, and a part of it
    box = np.ones(len(sif) + 2)
    part = box if rng.random() < 0.5 else box[1:-1]
    for order in (slice(None), slice(None, None, -1), np.argsort(sif)):
        part[:len(sif)] = sif[order]
        same(cx, curve.get_growth_rate(part)[:len(sif)], rate[order], "refilling")
    whole = np.unique(np.round(sif[np.isfinite(sif) & (sif < 1e6)])).astype(int)
    if len(whole):
        judge_rates(cx, curve.get_growth_rate(whole), whole, par, "integers")
        judge_rates(cx, curve.get_growth_rate(int(whole[-1])), whole[-1], par, "integer")
    cx.same(sif, before, "operand")
    cx.sample(slope=par[0], intercept=par[1], threshold=par[2], critical=par[3], sif=sif[:3],
              rate=rate[:3])


def same(cx, got, want, what):
    cx.close(got, want, "depends-on-" + what, what, rtol=1e-12)


def long_arrays(cx):
    rng = cx.rng
    curve, par = make.paris_curve(rng)
    n = [1000, 30011, 150000][cx.index % 3]
    sif = 10 ** rng.uniform(0.5, 3.5, n)
    note(cx, par, n=n)
    cx.key(repr(par), n)
    seg = np.searchsorted(ref.paris_knees(par[0], par[1]), sif, side="right")
    want = np.array(par[1])[seg] * sif ** np.array(par[0])[seg]
    want = np.where(sif < par[2], 0.0, np.where(sif > par[3], np.inf, want))
    cx.close(curve.get_growth_rate(sif), want, "rate", "long array", rtol=1e-8)
    inside = (sif > par[2]) & (sif < par[3])
    if inside.any():
        cx.close(curve.get_sif(want[inside]), sif[inside], "inverse", "long array", rtol=1e-7)
    cx.event("long_arrays")


def refusals(cx):
    rng = cx.rng
    slope, inter, thr, crit = gen.paris_params(rng, int(rng.integers(2, 5)))
    curve = pf.ParisCurve(slope, inter, threshold=thr, critical=crit)
    knees = ref.paris_knees(slope, inter)
    note(cx, (slope, inter, thr, crit), knees=knees)
    cx.key(slope, inter, thr, crit)
    good = np.array([10.0, 20.0, 300.0])
    for k in range(3):
        bad = good.copy()
        bad[k] = -bad[k]
        cx.raises(REFUSED, lambda: curve.get_growth_rate(bad), "negative", "sif")
        cx.raises(REFUSED, lambda: curve.get_sif(bad), "negative", "rate")

    def evaluate(**kw):
        def call():
            crv = pf.ParisCurve(slope, inter, **kw)
            return crv.get_growth_rate(good)
        return call

    def invert(**kw):
        def call():
            crv = pf.ParisCurve(slope, inter, **kw)
            return crv.get_sif(good)
        return call

    for kw in (dict(threshold=knees[0] * 1.01, critical=np.inf),
               dict(threshold=0.0, critical=knees[-1] * 0.99),
               dict(threshold=200.0, critical=100.0),
               dict(threshold=100.0, critical=100.0)):
        cx.raises(REFUSED, evaluate(**kw), "interval", f"rate with {kw}")
        cx.raises(REFUSED, invert(**kw), "interval", f"sif with {kw}")
    for bad in (slope[:-1], slope + [3.0]):
        cx.raises(REFUSED, lambda: pf.ParisCurve(bad, inter).get_growth_rate(good),
                  "parameter-lengths")
    if len(slope) > 1:
        cx.raises(ValueError, lambda: curve.get_knee_sif(check_knee=knees + [1.0]), "knee-check")
        cx.raises(ValueError, lambda: curve.get_knee_growth_rate(knees + [1.0]), "knee-check")
        cx.raises(ValueError, lambda: curve.get_knee_sif(knees[:-1]), "knee-check")
        for j in range(len(knees)):
            for fac in (1.05, 0.95):
                wrong = [k * (fac if i == j else 1) for i, k in enumerate(knees)]
                cx.raises(AssertionError, lambda: curve.get_knee_sif(wrong, 3), "knee-check", f"wrong knee {j}")
                cx.raises(AssertionError, lambda: curve.get_knee_growth_rate(wrong, 3), "knee-check",
                          f"wrong knee {j}")
        cx.close(curve.get_knee_sif(knees, 3), knees, "knee-check", "true knees", rtol=1e-8)
        cx.close(curve.get_knee_growth_rate(knees, 3), curve.get_knee_growth_rate(), "knee-check")
    for name in ("slope", "intercept", "threshold", "critical", "unit", "linear"):
        def assign(attr=name):
            setattr(curve, attr, 1.0)
        cx.raises(AttributeError, assign, "reassigned", name)


def close_slopes(cx):
    """Segments of nearly the same slope, whose knees are hard to calculate."""
    rng = cx.rng
    one = float(np.round(rng.uniform(2, 9), 2))
    two = one + float(rng.choice([-1, 1])) * float(np.round(rng.uniform(0.1, 0.6), 2))
    knee = float(10 ** rng.uniform(1.3, 2.8))
    inter = [float(10 ** rng.uniform(-30, -8))]
    inter.append(inter[0] * knee ** (one - two))
    par = ([one, two], inter, 0.0 if rng.random() < 0.5 else knee / 5, knee * 8)
    curve = pf.ParisCurve(par[0], par[1], threshold=par[2], critical=par[3])
    sif = knee * 10 ** rng.uniform(-0.6, 0.8, 20)
    note(cx, par, sif=sif)
    cx.key(repr(par), sif)
    rate = curve.get_growth_rate(sif)
    judge_rates(cx, rate, sif, par, "close slopes")
    cx.close(curve.get_sif(rate), sif, "inverse", "close slopes", rtol=1e-7)
    cx.close(curve.get_knee_growth_rate(), [ref.paris_rate(knee, *par)], "knee-on-curve",
             "close slopes", rtol=1e-6)
    cx.event("close_slopes")


def defaults(cx):
    """Threshold and critical value left out or given as integers."""
    rng = cx.rng
    slope, inter, _, _ = gen.paris_params(rng)
    knees = ref.paris_knees(slope, inter)
    crit = int((knees[-1] if knees else 500) * 2)
    thr = max(int((knees[0] if knees else 40) / 2), 1)
    if knees and not thr < knees[0] <= knees[-1] < crit:
        raise Skip  # no whole numbers around the knees
    for kw, par in (({}, (slope, inter, 0, np.inf)),
                    (dict(threshold=thr, critical=crit), (slope, inter, thr, crit))):
        curve = pf.ParisCurve(slope, inter, **kw)
        sif = intensities(rng, par)
        note(cx, par, sif=sif)
        cx.key(repr(par), sif)
        judge_rates(cx, curve.get_growth_rate(sif), sif, par, "defaults")


WORKERS = 3
WORKLOADS = [
    Workload("curves", curves, 500, 6000),
    Workload("long", long_arrays, 6, 60),
    Workload("refusals", refusals, 60, 900),
    Workload("defaults", defaults, 30, 300),
    Workload("close_slopes", close_slopes, 80, 900),
]
