"""C12: knees and endurance of S-N curves."""
import numpy as np

import py_fatigue as pf

from pfmon import gen, make, ref
from pfmon.core import Workload

RULE = (
    "A case is one S-N curve with its knees, endurance and knee checks. "
    "Non-trivial: every case; distinct by parameters."
)
REQUIRED_EVENTS = ["knees", "single_branch", "endurance_finite", "endurance_infinite",
                   "knees_accepted", "refused"]


def round_sig(x, digits):
    return float(f"{x:.{digits - 1}e}")


def curves(cx):
    rng = cx.rng
    curve, par = make.sn_curve(rng)
    slope, inter, end = par
    cx.note(slope=slope, intercept=inter, endurance=end)
    cx.key(repr(par))
    knees = ref.sn_knees(slope, inter)
    k_s, k_n = np.asarray(curve.get_knee_stress()), np.asarray(curve.get_knee_cycles())
    cx.check(k_s.shape == k_n.shape == (len(knees),), "knee-number",
             f"{len(k_s)} knee stresses and {len(k_n)} knee cycles for {len(slope)} branches")
    cx.check(bool(curve.linear) == (len(slope) == 1), "linear", "")
    cx.close(curve.slope, slope, "parameters", rtol=1e-15)
    cx.close(curve.intercept, inter, "parameters", rtol=1e-15)
    cx.check(curve.endurance == end, "parameters", "endurance")
    if knees:
        cx.close(k_s, [k[0] for k in knees], "knee-stress", rtol=1e-8)
        cx.close(k_n, [k[1] for k in knees], "knee-cycles", rtol=1e-7)
        for j, (s, n) in enumerate(zip(k_s, k_n)):
            for b in (j, j + 1):
                cx.close(10.0 ** (inter[b] - slope[b] * np.log10(s)), n, "knee-on-branch",
                         f"knee {j}, branch {b}", rtol=1e-6)
            cx.close(curve.get_stress(float(n)), s, "knee-on-curve", rtol=1e-6)
            if n < end * (1 - 1e-6):
                cx.close(curve.get_cycles(float(s)), n, "knee-on-curve", rtol=1e-6)
        cx.event("knees", len(knees))
        judge_checks(cx, curve, k_n, slope)
    else:
        cx.event("single_branch")
        cx.raises(ValueError, lambda: curve.get_knee_stress(check_knee=[1e6]), "no-knee-check")
        cx.raises(ValueError, lambda: curve.get_knee_cycles(check_knee=1e6), "no-knee-check")
    low = curve.endurance_stress
    if end < np.inf:
        cx.event("endurance_finite")
        cx.close(low, ref.sn_stress(end, *par), "endurance-stress", rtol=1e-9)
        probe = np.r_[end, end * 10 ** rng.uniform(0, 10, 5), 10 ** rng.uniform(0, np.log10(end), 10)]
        got = curve.get_stress(probe)
        cx.check(bool(np.all(got >= low * (1 - 1e-12))), "endurance-lowest",
                 f"{got.min()} below the endurance stress {low}")
        cx.close(got[0], low, "endurance-lowest", rtol=1e-9)
        cx.close(got[1:6], np.full(5, low), "endurance-lowest", "beyond endurance", rtol=1e-9)
        life = curve.get_cycles([low * (1 + 1e-6), low * (1 - 1e-6)])
        cx.check(np.isfinite(life[0]) and np.isinf(life[1]), "endurance-life",
                 f"{life} around the endurance stress")
    else:
        cx.event("endurance_infinite")
        cx.check(low == 0, "endurance-stress", f"{low} without endurance")
    for name in ("slope", "intercept", "endurance", "unit", "linear", "endurance_stress"):
        def assign(attr=name):
            setattr(curve, attr, 1.0)
        cx.raises(AttributeError, assign, "reassigned", name)
    cx.close(curve.slope, slope, "parameters", "after reassignment", rtol=1e-15)
    cx.sample(slope=slope, intercept=inter, endurance=end, knees=knees)


def judge_checks(cx, curve, k_n, slope):
    rng = cx.rng
    digits = int(rng.integers(2, 8))
    true = [round_sig(n, digits) for n in k_n]
    # a stress with a large first digit shows the rounding of the cycles
    finer = [round_sig(n, digits + 1) for n in k_n]
    for fn, name, vals in ((curve.get_knee_cycles, "cycles", true),
                           (curve.get_knee_stress, "stress", finer)):
        arg = vals[0] if len(vals) == 1 and rng.random() < 0.5 else (
            np.array(vals) if rng.random() < 0.5 else vals)
        cx.close(fn(check_knee=arg, significant_digits=digits), fn(), "knee-check",
                 f"true knees refused ({name})", rtol=0)
        cx.event("knees_accepted")
    j = int(rng.integers(0, len(true)))
    wrong = list(true)
    wrong[j] = true[j] * (1 + 5 * 10.0 ** (1 - digits))
    cx.raises(AssertionError, lambda: curve.get_knee_cycles(wrong, digits), "knee-check",
              f"wrong knee accepted at {digits} digits", wrong=wrong)
    # four units of the last digit asked for
    unit = 10.0 ** (np.floor(np.log10(true[j])) + 1 - digits)
    wrong[j] = true[j] + (-4 if true[j] > 50 * unit * 10.0 ** (digits - 2) else 4) * unit
    cx.raises(AssertionError, lambda: curve.get_knee_cycles(wrong, digits), "knee-check",
              f"wrong knee accepted at {digits} digits", wrong=wrong)
    # stresses are compared: the change must show in the stress (fewer cycles:
    # beyond the endurance the stress stays the same)
    wrong[j] = true[j] / (1 + 6 * 10.0 ** (1 - digits)) ** max(slope)
    cx.raises(AssertionError, lambda: curve.get_knee_stress(wrong, digits), "knee-check",
              f"wrong knee accepted at {digits} digits", wrong=wrong)
    wrong[j] = true[j] * (1 + 6 * 10.0 ** (1 - digits)) ** max(slope)
    if wrong[j] < curve.endurance:
        cx.raises(AssertionError, lambda: curve.get_knee_stress(wrong, digits), "knee-check",
                  f"wrong knee accepted at {digits} digits", wrong=wrong)
    wrong[j] = true[j] / 10
    cx.raises(AssertionError, lambda: curve.get_knee_stress(wrong, max(digits, 3)),
              "knee-check", "wrong knee accepted", wrong=wrong)
    if len(true) > 1:
        cx.raises(AssertionError, lambda: curve.get_knee_cycles(true[::-1], max(digits, 3)),
                  "knee-check", "knees in the wrong order accepted")
        cx.raises(AssertionError, lambda: curve.get_knee_stress(true[::-1], max(digits, 3)),
                  "knee-check", "knees in the wrong order accepted")
    for fn in (curve.get_knee_cycles, curve.get_knee_stress):
        cx.raises(ValueError, lambda: fn(check_knee=true + [1e9]), "knee-check", "one too many")
        if len(true) > 1:
            cx.raises(ValueError, lambda: fn(check_knee=true[:-1]), "knee-check", "one too few")


def early_endurance(cx):
    rng = cx.rng
    slope, inter, _ = gen.sn_params(rng, branches=int(rng.integers(2, 6)))
    knees = ref.sn_knees(slope, inter)
    last = knees[-1][1]
    cx.note(slope=slope, intercept=inter)
    cx.key(slope, inter)
    for end in (last * 0.99, last / 10, last / 1e3):
        cx.raises(ValueError, lambda: pf.SNCurve(slope, inter, endurance=float(end)),
                  "early-endurance", f"endurance {end}, last knee {last}")
    curve = pf.SNCurve(slope, inter, endurance=float(last * 1.01))
    cx.check(curve.endurance == last * 1.01, "late-endurance", "")
    for bad in (slope[:-1], slope + [20.0]):
        cx.raises(ValueError, lambda: pf.SNCurve(bad, inter), "parameter-lengths")


WORKLOADS = [
    Workload("curves", curves, 500, 6000),
    Workload("early-endurance", early_endurance, 120, 1500),
]
