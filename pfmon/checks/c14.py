"""C14: damage equivalent stress range and moment, Gassner shift."""
import math

import numpy as np
import pandas as pd

import py_fatigue as pf
from py_fatigue.damage import stress_life as sl

from pfmon import gen, make, ref
from pfmon.core import Workload

RULE = (
    "A case is a spectrum with slope and equivalent cycles (arrays or cycle "
    "count with table), a section, or a single-slope curve for the Gassner "
    "shift. Non-trivial: every case; distinct by spectrum and parameters."
)
REQUIRED_EVENTS = ["equivalent_stress", "equivalent_moment", "shift_factors", "refused",
                   "default_cycles"]


def judge_des(cx, des, stress, counts, slope, eq, what):
    """Damage of the equivalent range equals that of the spectrum."""
    top = float(np.max(stress))
    ratio = math.fsum(float(n) * (float(s) / top) ** slope for s, n in zip(stress, counts))
    got = eq * (float(des) / top) ** slope
    cx.close(got, ratio, "equivalent-stress", what, rtol=1e-8, slope=slope, cycles=eq)
    cx.event("equivalent_stress")


def judge_dem(cx, dem, des, r_o, r_i, what):
    want = math.pi / 4 * (r_o ** 4 - r_i ** 4) / r_o * des * 1e6
    cx.close(dem, want, "equivalent-moment", what, rtol=1e-9, outer=r_o, inner=r_i)
    cx.event("equivalent_moment")


def parameters(rng):
    slope = float(np.round(rng.uniform(1, 12), 2)) if rng.random() < 0.6 else int(rng.integers(1, 13))
    if rng.random() < 0.1:
        slope = float(np.round(rng.uniform(12, 30), 2))
    eq = float(10 ** rng.uniform(0, 10)) if rng.random() < 0.7 else int(10 ** rng.integers(0, 9))
    r_o = float(10 ** rng.uniform(-2, 4)) if rng.random() < 0.8 else int(rng.integers(1, 5000))
    r_i = r_o * float(rng.uniform(0, 0.99)) if rng.random() < 0.9 else 0
    if rng.random() < 0.25:  # thin walls
        r_i = r_o * (1 - float(10 ** rng.uniform(-4, -1.5)))
    return slope, eq, r_o, r_i


def spectra(cx):
    rng = cx.rng
    slope, eq, r_o, r_i = parameters(rng)
    counts, stress, _ = gen.spectrum(rng, big=rng.random() < 0.5)
    if rng.random() < 0.3:
        stress[int(rng.integers(0, len(stress)))] = 0.0
    if np.max(stress) == 0:
        stress[0] = 1.0
    cx.note(stress=stress, counts=counts, slope=slope, cycles=eq)
    cx.key(stress, counts, slope, eq)
    des = sl.calc_des(stress, counts, slope, eq)
    judge_des(cx, des, stress, counts, slope, eq, "array function")
    judge_des(cx, sl.calc_des(stress.tolist(), counts.tolist(), slope, equivalent_cycles=eq),
              stress, counts, slope, eq, "lists")
    judge_des(cx, sl.calc_des(pd.Series(stress), pd.Series(counts), slope, eq),
              stress, counts, slope, eq, "series")
    whole = np.maximum(np.round(stress), 1).astype(int)
    judge_des(cx, sl.calc_des(whole, counts, slope, eq), whole, counts, slope, eq, "integers")
    judge_des(cx, sl.calc_des(stress, counts, slope), stress, counts, slope, 1e7, "default")
    cx.event("default_cycles")
    perm = rng.permutation(len(stress))
    cx.close(sl.calc_des(stress[perm], counts[perm], slope, eq), des, "equivalent-stress", "order")
    k = int(np.argmax(stress))
    judge_des(cx, sl.calc_des(float(stress[k]), float(counts[k]), slope, eq),
              stress[k:k + 1], counts[k:k + 1], slope, eq, "numbers")
    # the equivalent range applied for those cycles, on a single-slope curve
    curve = pf.SNCurve(float(slope), float(rng.uniform(10, 16)))
    cx.close(np.sum(sl.calc_pm(float(des), float(eq), curve)),
             np.sum(sl.calc_pm(stress, counts, curve)), "equivalent-damage", rtol=1e-8)
    dem = sl.calc_dem(r_o, r_i, stress, counts, slope, eq)
    judge_dem(cx, dem, des, r_o, r_i, "array function")
    judge_dem(cx, sl.calc_dem(r_o, r_i, stress, counts, slope),
              sl.calc_des(stress, counts, slope), r_o, r_i, "default")
    for bad in (r_o, r_o * 1.5):
        cx.raises(ValueError, lambda: sl.calc_dem(r_o, bad, stress, counts, slope, eq),
                  "radii", "array function")
    cx.sample(slope=slope, equivalent_cycles=eq, rows=len(stress), des=des)


def cycle_counts(cx):
    rng = cx.rng
    slope, eq, r_o, r_i = parameters(rng)
    cc, route = make.anyhow(rng)
    stress, counts = np.array(cc.stress_range), np.array(cc.count_cycle)
    cx.note(stress=stress, counts=counts, slope=slope, cycles=eq, route=route)
    cx.key(stress, counts, slope, eq)
    des = sl.get_des(cc, slope, eq)
    judge_des(cx, des, stress, counts, slope, eq, "cycle count function")
    judge_des(cx, sl.get_des(cc, slope), stress, counts, slope, 1e7, "cycle count default")
    table = cc.to_df()
    judge_des(cx, table.miner.des(slope, eq), stress, counts, slope, eq, "table accessor")
    judge_des(cx, cc.to_df().miner.des(slope), stress, counts, slope, 1e7, "table default")
    cx.event("default_cycles", 2)
    judge_dem(cx, sl.get_dem(r_o, r_i, cc, slope, eq), des, r_o, r_i, "cycle count function")
    judge_dem(cx, table.miner.dem(r_o, r_i, slope, eq), des, r_o, r_i, "table accessor")
    bad = r_o * float(rng.choice([1.0, 2.0]))
    cx.raises(ValueError, lambda: sl.get_dem(r_o, bad, cc, slope, eq), "radii", "cycle count")
    cx.raises(ValueError, lambda: cc.to_df().miner.dem(r_o, bad, slope, eq), "radii", "table")
    # after the damage was calculated on the same table
    curve, par = make.sn_curve(rng, branches=1, endurance=False)
    table.miner.damage(curve)
    judge_des(cx, table.miner.des(slope, eq), stress, counts, slope, eq, "after damage")
    table = cc.to_df()
    if rng.random() < 0.4:  # other row labels
        table.index = rng.permutation(len(table)) if rng.random() < 0.7 else np.zeros(len(table), int)
        cx.event("other_row_labels")
    res = table.gassner.g(curve)
    m = par[0][0]
    top = float(np.max(stress))
    n_tot = math.fsum(counts)
    want = [float(n) / n_tot * (float(s) / top) ** m for s, n in zip(stress, counts)]
    cx.close(res["shift_factor"].values, want, "shift-factor", rtol=1e-9, atol=1e-300)
    damage = math.fsum(ref.pm_damage(stress, counts, *par))
    life = ref.sn_cycles(top, *par)
    if 0 < life < 1e300 and damage > 0:
        cx.close(math.fsum(res["shift_factor"].values) * n_tot / life, damage, "shift-damage",
                 rtol=1e-8)
    cx.same(res["stress_range"].values, cc.to_df()["stress_range"].values, "table-rows")
    cx.event("shift_factors", len(want))
    broken, _ = make.sn_curve(rng, branches=2)
    cx.raises(AssertionError, lambda: cc.to_df().gassner.g(broken), "shift-slope",
              "two slopes accepted")


WORKLOADS = [
    Workload("spectra", spectra, 400, 6000),
    Workload("counts", cycle_counts, 160, 2000),
]
