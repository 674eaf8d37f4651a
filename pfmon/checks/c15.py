"""C15: nonlinear damage accumulation."""
import math
import warnings

import numpy as np

import py_fatigue as pf
from py_fatigue.damage import stress_life as sl

from pfmon import gen, make, ref
from pfmon.core import Skip, Workload

RULE = (
    "A case is a block sequence with curve, rule and parameters. Non-trivial: "
    "two or more blocks; distinct by sequence and parameters."
)
REQUIRED_EVENTS = ["pavlou", "manson", "leve", "si jian", "defaults_warned", "linear_limit",
                   "order_matters", "refused", "cycle_counts", "small_numbers", "idle_blocks"]
RULES = ("pavlou", "manson", "manson and halford", "manson halford", "leve", "si jian",
         "si jian et al")
DEFAULTS = {"pavlou": dict(base_exponent=-0.75, ultimate_stress=900.0),
            "manson": dict(base_exponent=0.4), "leve": dict(base_exponent=2.0), "si jian": {}}


def family(rule):
    return next(f for f in ("pavlou", "manson", "leve", "si jian") if f in rule)


def blocks(rng, par, size=None):
    """Block sequence with block damages between 1e-3 and 0.3."""
    n = int(size or rng.integers(1, 9))
    if not size and rng.random() < 0.1:
        n = int(rng.integers(9, 400))
    base = ref.sn_stress(float(10 ** rng.uniform(4, 6.5)), par[0], par[1], np.inf)
    if par[2] < np.inf:
        base = max(base, 3 * ref.sn_stress(par[2], *par))
    stress = base * rng.uniform(0.7, 2.0, n)
    if rng.random() < 0.25:  # very different blocks
        stress = base * 10 ** rng.uniform(-1.6, 0.6, n)
    if rng.random() < 0.3:
        stress = np.sort(stress)[:: int(rng.choice([1, -1]))].copy()
    if rng.random() < 0.2 and n > 1:
        stress[1] = stress[0]
    lives = [ref.sn_cycles(float(s), *par) for s in stress]
    counts = np.array([f * life for f, life in zip(10 ** rng.uniform(-3, -0.5, n), lives)])
    if rng.random() < 0.3:
        counts = np.maximum(np.round(counts), 1.0)
    return stress, counts, lives


def rescaled(par, shift):
    """The curve with stresses counted in a unit 10**-shift times as large."""
    slope = np.atleast_1d(par[0]).astype(float)
    intercept = np.atleast_1d(par[1]).astype(float) + shift * slope
    return (pf.SNCurve(slope=slope, intercept=intercept, endurance=par[2]),
            (slope, intercept, par[2]))


def parameters(rng, fam):
    if fam == "pavlou":
        return dict(base_exponent=float(rng.choice([0.0, rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5), rng.uniform(-6, 6)])),
                    ultimate_stress=float(10 ** rng.uniform(2, 3.3)))
    if fam == "manson":
        return dict(base_exponent=float(rng.choice([0.0, 1.0, rng.uniform(0.1, 0.6),
                                                    rng.uniform(0.1, 0.6)])))
    if fam == "leve":
        return dict(base_exponent=float(rng.choice([0.0, 0.5, 1.3, 2, 3, 12])))
    return {}


def expected(rule, stress, counts, par, kw):
    return ref.nonlinear(family(rule), stress, counts, *par,
                         base_exponent=kw.get("base_exponent"),
                         ultimate=kw.get("ultimate_stress"))


def judge(cx, got, want, mechanism, what=""):
    if not (1e-250 < want < 1e250):
        return
    cx.close(got, want, mechanism, what, rtol=1e-6)


def sequences(cx):
    rng = cx.rng
    rule = RULES[cx.index % len(RULES)]
    fam = family(rule)
    curve, par = make.sn_curve(rng)
    if rng.random() < 0.15:  # in another unit
        curve, par = rescaled(par, float(rng.uniform(-9, 4)))
    stress, counts, lives = blocks(rng, par)
    if max(lives) == math.inf:
        raise Skip
    if len(stress) > 2 and rng.random() < 0.15:  # blocks that do no damage
        idle = rng.integers(0, len(stress), int(rng.integers(1, 3)))
        if par[2] < math.inf and fam != "manson" and rng.random() < 0.5:
            stress[idle] = float(rng.uniform(0.3, 0.9)) * ref.sn_stress(par[2], *par)
        else:
            counts[idle] = 0.0
        cx.event("idle_blocks")
    if min(stress) < 1e-3:
        cx.event("small_numbers")
    kw = parameters(rng, fam)
    cx.note(rule=rule, stress=stress, counts=counts, slope=par[0], intercept=par[1],
            endurance=par[2], parameters=kw)
    if len(stress) > 1:
        cx.key(rule, stress, counts, repr(par), repr(kw))
    s_0, n_0 = stress.copy(), counts.copy()
    got = sl.calc_nonlinear_damage(rule, stress, counts, curve, **kw)
    want = expected(rule, stress, counts, par, kw)
    judge(cx, got, want, "recurrence", rule)
    cx.event(fam)
    # another order of the same blocks
    perm = rng.permutation(len(stress))
    other = expected(rule, stress[perm], counts[perm], par, kw)
    judge(cx, sl.calc_nonlinear_damage(rule, stress[perm], counts[perm], curve, **kw), other,
          "recurrence", "permuted")
    if abs(other - want) > 1e-3 * abs(want):
        cx.event("order_matters")
    judge(cx, sl.calc_nonlinear_damage(rule, gen.layout(rng, stress), gen.layout(rng, counts),
                                       curve, **kw), want, "recurrence", "layout")
    # omitted parameters
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        got = sl.calc_nonlinear_damage(rule, stress, counts, curve)
    judge(cx, got, expected(rule, stress, counts, par, DEFAULTS[fam]), "defaults", rule)
    told = [w for w in caught if issubclass(w.category, UserWarning)]
    if DEFAULTS[fam]:
        cx.check(len(told) >= len(DEFAULTS[fam]), "defaults-warning",
                 f"{len(told)} warnings for {len(DEFAULTS[fam])} omitted parameters")
        cx.event("defaults_warned", len(told))
    if fam == "pavlou":  # one of the two given
        name = str(rng.choice(list(kw)))
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            got = sl.calc_nonlinear_damage(rule, stress, counts, curve, **{name: kw[name]})
        judge(cx, got, expected(rule, stress, counts, par, {**DEFAULTS[fam], name: kw[name]}),
              "defaults", f"only {name} given")
        cx.check(any(issubclass(w.category, UserWarning) for w in caught), "defaults-warning",
                 f"only {name} given")
    cx.same(stress, s_0, "operand")
    cx.same(counts, n_0, "operand")
    cx.sample(rule=rule, blocks=len(stress), damage=got, parameters=kw)


def linear_limit(cx):
    """Equal ranges, one block or Leve with exponent 1."""
    rng = cx.rng
    rule = RULES[cx.index % len(RULES)]
    fam = family(rule)
    curve, par = make.sn_curve(rng)
    stress, counts, lives = blocks(rng, par, size=int(rng.integers(1, 8)))
    if max(lives) == math.inf:
        raise Skip
    kw = parameters(rng, fam)
    cx.note(rule=rule, stress=stress, counts=counts, slope=par[0], intercept=par[1],
            endurance=par[2], parameters=kw)
    cx.key("linear", rule, stress, counts, repr(par))
    if fam == "leve":
        kw = dict(base_exponent=1)
    elif rng.random() < 0.7:
        stress = np.full(len(stress), stress[0])
    else:
        stress, counts = stress[:1], counts[:1]
    want = math.fsum(ref.pm_damage(stress, counts, *par))
    cx.close(sl.calc_nonlinear_damage(rule, stress, counts, curve, **kw), want, "linear-limit",
             rule, rtol=1e-9)
    cx.event("linear_limit")


def cycle_counts(cx):
    rng = cx.rng
    rule = RULES[cx.index % len(RULES)]
    fam = family(rule)
    unit = str(rng.choice(gen.UNITS))
    curve, par = make.sn_curve(rng, unit=unit)
    stress, counts, lives = blocks(rng, par)
    if max(lives) == math.inf:
        raise Skip
    counts = np.maximum(np.round(counts * 2) / 2, 0.5)
    cc = pf.CycleCount(count_cycle=counts, stress_range=stress, mean_stress=np.zeros(len(stress)),
                       timestamp=gen.stamp(rng), unit=unit, name="a")
    kw = parameters(rng, fam)
    cx.note(rule=rule, stress=stress, counts=counts, slope=par[0], parameters=kw)
    if len(stress) > 1:
        cx.key("cc", rule, stress, counts, repr(par))
    judge(cx, sl.get_nonlinear_damage(rule, cc, curve, **kw),
          expected(rule, stress, counts, par, kw), "recurrence", "cycle count")
    cx.event("cycle_counts")
    wrong, _ = make.sn_curve(rng, unit="other")
    cx.raises(ValueError, lambda: sl.get_nonlinear_damage(rule, cc, wrong, **kw), "unit")
    for bad in ("unknown", "", "miner", "pavlou2"):
        cx.raises(ValueError, lambda: sl.calc_nonlinear_damage(bad, stress, counts, curve, **kw),
                  "unknown-rule", bad)
    cx.raises(ValueError, lambda: sl.get_nonlinear_damage("none", cc, curve, **kw),
              "unknown-rule", "cycle count")


WORKLOADS = [
    Workload("sequences", sequences, 420, 7000),
    Workload("linear-limit", linear_limit, 140, 2100),
    Workload("cycle-counts", cycle_counts, 140, 2100),
]
