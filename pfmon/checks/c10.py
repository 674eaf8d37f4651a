"""C10: mean stress corrections."""
import numpy as np

import matplotlib.pyplot as plt

import py_fatigue as pf
from py_fatigue.mean_stress import corrections as msc

from pfmon import gen, make, ref
from pfmon.core import Skip, Workload

RULE = (
    "A case is an array of (mean, amplitude) pairs covering all load ratios, or "
    "a cycle count with a correction. Non-trivial: at least one pair; distinct "
    "by values and parameter."
)
REQUIRED_EVENTS = ["tension", "compression", "mixed", "counts_corrected", "refused",
                   "pulsating", "second_correction", "cancelling_means"]
ASSUMPTIONS = ["Walker exponents strictly between 0 and 1",
               "pairs whose maximum is zero up to rounding are not judged for p = 0.6 "
               "(the formula jumps there)"]


def pairs(rng):
    """Means and amplitudes over all load ratios."""
    n = int(rng.integers(1, 80)) if rng.random() < 0.97 else int(rng.integers(1000, 20000))
    amp = 10 ** rng.uniform(-2, 2.5, n)
    if rng.random() < 0.3:
        amp = np.round(amp) + 1
    ratio = rng.choice(["wide", "edge", "tension", "compression"])
    if ratio == "wide":
        mean = rng.normal(0, 2, n) * amp
    elif ratio == "edge":  # R near 0, -1, 1 and infinity
        mean = amp * rng.choice([0.0, 0.5, -0.5, 0.999, 1.001, -0.999, -1.001, 1.0, 20, -20], n)
    elif ratio == "tension":
        mean = amp * rng.uniform(1, 5, n)
    else:
        mean = -amp * rng.uniform(1, 5, n)
    how = rng.random()
    if how < 0.1:  # whole numbers
        mean, amp = np.round(mean).astype(int), np.ceil(amp).astype(int)
    elif how < 0.2:
        mean, amp = gen.layout(rng, mean), gen.layout(rng, amp)
    return mean, amp


def events(cx, mean, amp):
    cx.event("tension", int(np.sum(mean - amp > 0)))
    cx.event("compression", int(np.sum(mean + amp < 0)))
    cx.event("mixed", int(np.sum((mean - amp <= 0) & (mean + amp >= 0))))


def judge_dnvgl(cx, got, mean, amp, p, mechanism="dnvgl"):
    want = np.array([ref.dnvgl(m, a, p) for m, a in zip(mean, amp)])
    jump = np.abs(mean + amp) <= 1e-9 * amp
    if p == 0.6:
        got, want = np.asarray(got)[~jump], want[~jump]
        amp = amp[~jump]
    cx.close(got, want, mechanism, f"p={p}", rtol=1e-9, atol=1e-12 * np.max(amp, initial=0))
    f_m = np.asarray(got) / (2 * amp)
    cx.check(bool(np.all(f_m <= 1 + 1e-12)), mechanism, "factor above one")
    if p == 0.8:
        cx.check(bool(np.all(f_m >= 0.8 - 1e-12)), mechanism, "factor below p")


def arrays(cx):
    rng = cx.rng
    mean, amp = pairs(rng)
    p = float(rng.choice([0.6, 0.8]))
    gamma = float(rng.choice([0.5, 0.25, 0.75, float(rng.uniform(0.05, 0.95))]))
    cx.note(mean=mean, amplitude=amp, p=p, gamma=gamma)
    cx.key(mean, amp, p, gamma)
    events(cx, mean, amp)
    m_0, a_0 = mean.copy(), amp.copy()
    plot = bool(cx.index % 97 == 0)
    judge_dnvgl(cx, msc.dnvgl_mean_stress_correction(mean, amp, p, plot), mean, amp, p)
    if p == 0.8:
        judge_dnvgl(cx, msc.dnvgl_mean_stress_correction(mean, amp), mean, amp, p)
    want = [ref.walker(m, a, gamma) for m, a in zip(mean, amp)]
    ok = np.abs(mean + amp) > 1e-12 * amp
    got = msc.walker_mean_stress_correction(mean, amp, gamma, plot)
    cx.close(np.asarray(got)[ok], np.asarray(want)[ok], "walker", rtol=1e-9)
    want = [ref.walker(m, a, 0.5) for m, a in zip(mean, amp)]
    got = msc.swt_mean_stress_correction(mean, amp, plot)
    cx.close(np.asarray(got)[ok], np.asarray(want)[ok], "swt", rtol=1e-9)
    cx.close(np.asarray(got)[ok],
             np.asarray(msc.walker_mean_stress_correction(mean, amp))[ok], "swt-is-walker")
    cx.same(mean, m_0, "correction-changed-operand")
    cx.same(amp, a_0, "correction-changed-operand")
    plt.close("all")
    bad = float(rng.choice([0.5, 0.7, 1.0, 0.0, 0.79999, 8]))
    cx.raises(ValueError, lambda: msc.dnvgl_mean_stress_correction(mean, amp, bad),
              "dnvgl-detail-factor", f"p={bad}")
    cx.sample(p=p, gamma=gamma, mean=mean[:5], amplitude=amp[:5])


def counts(cx):
    rng = cx.rng
    cc, route = make.anyhow(rng, int(rng.integers(0, 900)), unit=str(rng.choice(gen.UNITS)))
    if rng.random() < 0.3:
        cc.mean_stress = cc.mean_stress - 30
    elif rng.random() < 0.3 and len(cc.stress_range):  # means that cancel out
        half = rng.integers(1, 40, (len(cc.stress_range) + 1) // 2).astype(float)
        cc = pf.CycleCount(
            count_cycle=np.ones(2 * len(half)),
            stress_range=2.0 * rng.integers(1, 60, 2 * len(half)) + 0.5,
            mean_stress=np.r_[half, -half], timestamp=gen.stamp(rng), unit=cc.unit,
            residuals_sequence=np.empty(0))
        route = "cancelling"
        cx.event("cancelling_means")
    if rng.random() < 0.3:  # some means of zero
        mean = np.array(cc.mean_stress, float)
        mean[rng.random(len(mean)) < 0.4] = 0.0
        cc.mean_stress = mean
    which = ["dnvgl-0.6", "dnvgl-0.8", "dnvgl-default", "walker", "walker-default",
             "swt"][cx.index % 6]
    gamma = float(rng.uniform(0.1, 0.9))
    kind, kw = {
        "dnvgl-0.6": ("DNVGL-RP-C203", {"detail_factor": 0.6}),
        "dnvgl-0.8": ("dnvgl-rp-c203", {"detail_factor": 0.8}),
        "dnvgl-default": ("DNVGL-RP-C203", {}),
        "walker": ("Walker", {"gamma": gamma}),
        "walker-default": ("walker", {}),
        "swt": (str(rng.choice(["SWT", "smith-watson-topper", "Smith-Watson-Topper"])), {}),
    }[which]
    cx.note(route=route, rows=make.rows(cc), which=which, kw=kw)
    cx.key(make.rows(cc), which)
    if np.all(cc.mean_stress == 0):
        raise Skip
    before = make.fields(cc)
    base = cc if cc.lffd_solved else cc.solve_lffd()
    mean, amp = np.asarray(base.mean_stress), np.asarray(base.stress_range) / 2
    if np.all(mean == 0):
        raise Skip
    out = cc.mean_stress_correction(kind, **kw)
    bad = make.same_fields(make.fields(cc), before)
    cx.check(not bad, "correction-changed-operand", str(bad))
    p = kw.get("detail_factor", 0.8)
    gam = kw.get("gamma", 0.5)
    if which.startswith("dnvgl"):
        if p == 0.6 and np.any(np.abs(mean + amp) <= 1e-9 * amp):
            raise Skip
        want = np.array([ref.dnvgl(m, a, p) for m, a in zip(mean, amp)])
        new_mean = want / 2
    else:
        if np.any(np.abs(mean + amp) <= 1e-12 * amp):
            raise Skip
        want = np.array([ref.walker(m, a, gam) for m, a in zip(mean, amp)])
        new_mean = np.zeros(len(want))
    exp = np.column_stack([want, new_mean, base.count_cycle])
    cx.check(ref.same_multiset(make.rows(out), exp, 1e-9 * np.max(amp) + 1e-300),
             "corrected-rows", which, got=make.rows(out), want=exp)
    after = make.fields(out)
    ref_f = make.fields(base)
    keep = ("unit", "timestamp", "time_sequence", "residuals_sequence", "name",
            "nr_small_cycles", "lffd_solved", "stress_concentration_factor",
            "range_bin_lower_bound", "range_bin_width", "mean_bin_width")
    bad = [f for f in keep if not make.same_value(after[f], ref_f[f])]
    cx.check(not bad, "corrected-metadata", str(bad))
    label = out.mean_stress_corrected
    cx.check(label != "No" and label.upper().startswith(kind.upper()), "corrected-label",
             f"{label!r}")
    # a parameter left out is the preset one
    if which != "swt" and not kw:
        preset = {"detail_factor": 0.8} if which.startswith("dnvgl") else {"gamma": 0.5}
        bad = make.same_fields(make.fields(cc.mean_stress_correction(kind, **preset)), after)
        cx.check(not bad, "preset-parameter", str(bad))
    # other means than zeros are not replaced
    bad = make.same_fields(
        make.fields(cc.mean_stress_correction(kind, enforce_pulsating_load=True, **kw)), after)
    cx.check(not bad, "pulsating-mixed", str(bad))
    # a second correction changes nothing
    again = out.mean_stress_correction(str(rng.choice(["SWT", "DNVGL-RP-C203", "walker"])))
    bad = make.same_fields(make.fields(again), after)
    cx.check(not bad, "second-correction", str(bad))
    cx.event("second_correction")
    cx.event("counts_corrected")
    events(cx, mean, amp)
    cx.raises(ValueError, lambda: cc.mean_stress_correction("goodman"), "unknown-correction")
    cx.raises(ValueError, lambda: cc.mean_stress_correction(detail_factor=0.7),
              "dnvgl-detail-factor")
    bad = make.same_fields(make.fields(cc), before)
    cx.check(not bad, "correction-changed-operand", "refused call: " + str(bad))


def pulsating(cx):
    rng = cx.rng
    counts_, ranges, _ = gen.spectrum(rng)
    cc = pf.CycleCount(count_cycle=counts_, stress_range=ranges,
                       mean_stress=np.zeros(len(ranges)), timestamp=gen.stamp(rng),
                       residuals_sequence=None if rng.random() < 0.5 else np.empty(0))
    cx.note(rows=make.rows(cc))
    cx.key(make.rows(cc), "pulsating")
    before = make.fields(cc)
    for kind, kw in (("DNVGL-RP-C203", {"detail_factor": 0.6}),
                     ("DNVGL-RP-C203", {"detail_factor": 0.8}),
                     ("Walker", {"gamma": 0.3}), ("SWT", {})):
        cx.raises(ValueError, lambda: cc.mean_stress_correction(kind, **kw), "zero-means", kind)
        out = cc.mean_stress_correction(kind, enforce_pulsating_load=True, **kw)
        amp = ranges / 2
        if kind.startswith("DNV"):
            want = ranges
        else:
            want = np.array([ref.walker(a, a, kw.get("gamma", 0.5)) for a in amp])
        got = make.rows(out)
        cx.check(ref.same_multiset(got[:, [0, 2]], np.column_stack([want, counts_]),
                                   1e-9 * ranges.max()), "pulsating", kind,
                 got=got)
        bad = make.same_fields(make.fields(cc), before)
        cx.check(not bad, "correction-changed-operand", str(bad))
        cx.event("pulsating")


WORKLOADS = [
    Workload("arrays", arrays, 900, 12000),
    Workload("counts", counts, 480, 6000),
    Workload("pulsating", pulsating, 100, 1000),
]
