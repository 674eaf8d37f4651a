"""C13: Palmgren-Miner damage."""
import math

import numpy as np
import pandas as pd

from py_fatigue.damage import stress_life as sl

from pfmon import gen, make, ref
from pfmon.core import Skip, Workload

RULE = (
    "A case is a spectrum or cycle count with an S-N curve, its damage taken by "
    "the array function, the cycle count function and the table accessor. "
    "Non-trivial: some damage; distinct by spectrum and curve."
)
REQUIRED_EVENTS = ["rows", "rows_without_damage", "routes_compared", "sums", "splits",
                   "grown", "refused", "relabelled"]


def want_damage(cx, stress, counts, par):
    """Reference damage per row; borderline rows (at the endurance) are refused."""
    if par[2] < np.inf:
        for s in stress:
            life = ref.sn_cycles(float(s), par[0], par[1], np.inf)
            if abs(life - par[2]) <= 1e-9 * par[2]:
                raise Skip
    want = ref.pm_damage(stress, counts, *par)
    cx.event("rows", len(want))
    cx.event("rows_without_damage", sum(w == 0 for w in want))
    return want


def spectra(cx):
    rng = cx.rng
    curve, par = make.sn_curve(rng)
    counts, stress, _ = gen.spectrum(rng, big=rng.random() < 0.5)
    if rng.random() < 0.3:
        stress[int(rng.integers(0, len(stress)))] = 0.0
    if rng.random() < 0.3:
        counts[int(rng.integers(0, len(counts)))] = 0.0
    cx.note(slope=par[0], intercept=par[1], endurance=par[2], stress=stress, counts=counts)
    cx.key(repr(par), stress, counts)
    want = want_damage(cx, stress, counts, par)
    s_0, n_0 = stress.copy(), counts.copy()
    got = sl.calc_pm(stress, counts, curve)
    cx.close(got, want, "damage", "array function")
    cx.close(sl.calc_pm(stress.tolist(), counts.tolist(), curve), want, "damage", "lists")
    cx.close(sl.calc_pm(pd.Series(stress), pd.Series(counts), curve), want, "damage", "series")
    cx.close(sl.calc_pm(gen.layout(rng, stress), gen.layout(rng, counts), curve), want,
             "damage", "layout")
    k = int(rng.integers(0, len(stress)))
    cx.close(np.ravel(sl.calc_pm(float(stress[k]), float(counts[k]), curve)), [want[k]],
             "damage", "numbers")
    total = math.fsum(want)
    perm = rng.permutation(len(stress))
    cx.close(np.sum(sl.calc_pm(stress[perm], counts[perm], curve)), total, "order")
    fac = float(rng.uniform(0.1, 100))
    cx.close(np.sum(sl.calc_pm(stress, counts * fac, curve)), total * fac, "proportional")
    cut = int(rng.integers(0, len(stress) + 1))
    parts = [np.sum(sl.calc_pm(stress[sel], counts[sel], curve))
             for sel in (slice(0, cut), slice(cut, None)) if len(stress[sel])]
    cx.close(sum(parts), total, "split")
    cx.event("splits")
    more = stress.copy()
    more[k] *= 1 + float(rng.uniform(0, 0.5))
    cx.check(np.sum(sl.calc_pm(more, counts, curve)) >= np.sum(got) * (1 - 1e-12), "monotone",
             "less damage with a larger range")
    more = counts.copy()
    more[k] += 1
    cx.check(np.sum(sl.calc_pm(stress, more, curve)) >= np.sum(got) * (1 - 1e-12), "monotone",
             "less damage with a larger count")
    cx.event("grown")
    cx.same(stress, s_0, "operand")
    cx.same(counts, n_0, "operand")
    cx.sample(slope=par[0], rows=len(stress), damage=total)


def counts_by_route(cx):
    """Cycle count function and accessor."""
    rng = cx.rng
    unit = str(rng.choice(gen.UNITS))
    curve, par = make.sn_curve(rng, unit=unit)
    cc, route = make.anyhow(rng, unit=unit)
    stress, counts = np.array(cc.stress_range), np.array(cc.count_cycle)
    cx.note(slope=par[0], intercept=par[1], endurance=par[2], route=route, stress=stress,
            counts=counts)
    cx.key(repr(par), stress, counts)
    want = want_damage(cx, stress, counts, par)
    cx.close(sl.get_pm(cc, curve), want, "damage", "cycle count function")
    cx.close(sl.calc_pm(stress, counts, curve), want, "damage", "array function")
    table = cc.to_df()
    t_s, t_n = table.stress_range.values.copy(), table.count_cycle.values.copy()
    res = table.miner.damage(curve)
    t_want = ref.pm_damage(t_s, t_n, *par)
    cx.close(res["pm_damage"].values, t_want, "damage", "table accessor")
    cx.close(res["cycles_to_failure"].values, [ref.sn_cycles(float(s), *par) for s in t_s],
             "life", "table accessor", rtol=1e-9)
    cx.same(res["stress_range"].values, t_s, "table-rows")
    cx.same(res["count_cycle"].values, t_n, "table-rows")
    cx.close(res["pm_damage"].sum(), math.fsum(want), "damage", "table total")
    cx.event("routes_compared")
    tables(cx, cc, table, unit, curve, par)
    for other in ("other", unit + " ", unit.swapcase(), unit[:-1], "k" + unit, unit + "√mm"):
        wrong, _ = make.sn_curve(rng, branches=1, unit=other)
        cx.raises(ValueError, lambda: sl.get_pm(cc, wrong), "unit",
                  f"cycle count function, {unit!r} with {other!r}")
        cx.raises(ValueError, lambda: cc.to_df().miner.damage(wrong), "unit",
                  f"table accessor, {unit!r} with {other!r}")


def tables(cx, cc, table, unit, curve, par):
    """A second curve on an assessed table, changed rows, and other row labels."""
    rng = cx.rng
    again, a_par = make.sn_curve(rng, unit=unit)
    for what in ("second curve", "changed rows"):
        if what == "changed rows":
            table["stress_range"] = table["stress_range"] * float(rng.uniform(0.5, 2.0))
        t_s, t_n = table.stress_range.values.copy(), table.count_cycle.values.copy()
        try:
            want = want_damage(cx, t_s, t_n, a_par)
        except Skip:
            break
        try:
            res = table.miner.damage(again)
        except AttributeError:
            cx.event("second_refused")
            continue
        cx.close(res["pm_damage"].values, want, "damage", what)
        cx.close(res["cycles_to_failure"].values, [ref.sn_cycles(float(s), *a_par) for s in t_s],
                 "life", what, rtol=1e-9)
        cx.event("second_assessments")
    table = cc.to_df()
    n = len(table)
    kind = int(rng.integers(0, 4))
    table.index = [rng.permutation(n), np.zeros(n, int), np.arange(n)[::-1] * 0.5,
                   pd.date_range("2022-01-01", periods=n, freq="10min")][kind]
    if kind != 1 and rng.random() < 0.5:
        table.sort_values(str(rng.choice(["stress_range", "mean_stress"])), inplace=True)
    t_s, t_n = table.stress_range.values.copy(), table.count_cycle.values.copy()
    res = table.miner.damage(curve)
    cx.close(res["pm_damage"].values, ref.pm_damage(t_s, t_n, *par), "damage",
             "table with other row labels")
    cx.event("relabelled")


def sums(cx):
    """Damage adds up over sums of cycle counts."""
    rng = cx.rng
    curve, par = make.sn_curve(rng)
    bins = gen.bins(rng)
    n = int(rng.integers(2, 7))
    parts = [make.from_signal(rng, k, bins=bins) if rng.random() < 0.6
             else make.direct(rng, k, bins=bins) for k in range(n)]
    cx.note(slope=par[0], intercept=par[1], endurance=par[2],
            parts=[p.stress_range for p in parts])
    want = math.fsum(sum(want_damage(cx, p.stress_range, p.count_cycle, par)) for p in parts)
    cx.key(repr(par), *[np.asarray(p.stress_range) for p in parts])
    cx.close(np.sum(sl.get_pm(sum(parts), curve)), want, "sum", "sum()")
    tree = parts[0] + (sum(parts[1:]))
    cx.close(np.sum(sl.get_pm(tree, curve)), want, "sum", "nested")
    cx.close(sum(np.sum(sl.get_pm(p, curve)) for p in parts), want, "sum", "parts")
    cx.close(np.sum(tree.to_df().miner.damage(curve).pm_damage), want, "sum", "table")
    cx.event("sums")


WORKLOADS = [
    Workload("spectra", spectra, 500, 7000),
    Workload("counts", counts_by_route, 160, 2400),
    Workload("sums", sums, 80, 1000),
]
