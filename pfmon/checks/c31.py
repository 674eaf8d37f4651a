"""C31: results do not depend on the units of stress and length."""
import numpy as np
import py_fatigue as pf
from py_fatigue.damage import crack_growth
from py_fatigue.damage import stress_life as sl
from py_fatigue.geometry import HollowCylinder, InfiniteSurface

from pfmon import crack, gen, make
from pfmon.core import Skip, Workload

RULE = (
    "A case is a workflow (signals, counts, curve, crack problem) run twice, in one unit "
    "and with every stress and length multiplied by a power of two. Non-trivial: every "
    "case; distinct by data and factor."
)
REQUIRED_EVENTS = ["counted", "resolved", "corrected", "damage", "equivalents", "nonlinear",
                   "curve_values", "exports", "growth", "failures", "tiny_units", "huge_units"]
WORKERS = 2


def power(rng, low=-36, high=36):
    k = int(rng.integers(low, high + 1))
    return float(2.0 ** (k or 5))


def parts(rng):
    n = int(rng.integers(1, 6))
    out = []
    for _ in range(n):
        x, _name = gen.signal(rng, max_size=80)
        if len(x) < 3 or not 1e-6 < np.max(np.abs(x)) < 1e6 or np.ptp(x) == 0:
            x = rng.normal(0, 10, 12)
        out.append(np.asarray(x, float))
    return out


def counted(rng, signals, fac, unit):
    out = []
    for k, x in enumerate(signals):
        out.append(pf.CycleCount.from_timeseries(
            x * fac, timestamp=gen.stamp(None, k), range_bin_lower_bound=0.25 * fac,
            range_bin_width=0.5 * fac, mean_bin_width=4.0 * fac, name="a", unit=unit))
    return out


def like(cx, one, two, fac, mechanism, rtol=0.0):
    """Rows of two are rows of one times the factor."""
    a, b = make.rows(one), make.rows(two)
    cx.check(a.shape == b.shape, mechanism, f"{len(a)} rows, {len(b)} in the other unit")
    a = a.copy()
    a[:, :2] *= fac
    scale = float(np.max(np.abs(a[:, :2]))) if len(a) else 1.0
    cx.close(b[:, 0], a[:, 0], mechanism, "ranges", rtol=rtol, atol=rtol * scale)
    cx.close(b[:, 1], a[:, 1], mechanism, "means", rtol=rtol, atol=rtol * scale)
    cx.same(b[:, 2], a[:, 2], mechanism, "counts")
    if one.residuals_sequence is not None:
        cx.close(two.residuals_sequence, np.asarray(one.residuals_sequence) * fac, mechanism,
                 "residual sequence", rtol=rtol, atol=rtol * scale)


def curve_pair(rng, fac, level):
    """An S-N curve whose life at the level is moderate, in both units."""
    slope, inter, end = gen.sn_params(rng)
    slope, inter = np.atleast_1d(np.asarray(slope, float)), np.atleast_1d(np.asarray(inter, float))
    shift = np.log10(level / 60.0)
    one = inter + slope * shift
    two = inter + slope * (shift + np.log10(fac))
    return (pf.SNCurve(slope, one, endurance=end, unit_string="MPa"),
            pf.SNCurve(slope, two, endurance=end, unit_string="u"))


def workflow(cx):
    rng = cx.rng
    signals, fac = parts(rng), power(rng)
    cx.note(signals=signals, factor=fac)
    cx.key(signals, fac)
    cx.event("tiny_units" if fac < 1e-6 else "huge_units" if fac > 1e6 else "near_units")
    ones, twos = counted(rng, signals, 1.0, "MPa"), counted(rng, signals, fac, "u")
    for a, b in zip(ones, twos):
        like(cx, a, b, fac, "count")
        cx.event("counted")
        cx.close(b.statistical_moments[0], a.statistical_moments[0] * fac, "moments", rtol=1e-12)
        cx.close(b.statistical_moments[1], a.statistical_moments[1], "moments", rtol=1e-9, atol=1e-12)
    one, two = sum(ones), sum(twos)
    like(cx, one, two, fac, "sum")
    if len(one.residuals_sequence) > 2:
        one, two = one.solve_lffd(), two.solve_lffd()
        like(cx, one, two, fac, "resolution")
        cx.event("resolved")
        if np.any(one.mean_stress != 0):
            name, kw = [("DNVGL-RP-C203", dict(detail_factor=0.8)),
                        ("DNVGL-RP-C203", dict(detail_factor=0.6)),
                        ("Walker", dict(gamma=float(rng.uniform(0.2, 0.9)))), ("SWT", {})][cx.index % 4]
            a, b = one.mean_stress_correction(name, **kw), two.mean_stress_correction(name, **kw)
            edge = np.abs(one.min_stress) < 1e-9 * np.max(np.abs(one.max_stress))
            if np.all(np.isfinite(a.stress_range)) and not np.any(edge):
                like(cx, a, b, fac, "correction", rtol=1e-9)
                cx.event("corrected")
                if np.max(a.stress_range) > 0 and rng.random() < 0.5:
                    one, two = a, b
    level = float(np.max(one.stress_range))
    if not level > 0:
        raise Skip("no ranges")
    sn_1, sn_2 = curve_pair(rng, fac, level)
    keep = one.stress_range > 1e-9 * level  # rounded to zero in one unit, not in the other
    damage_1, damage_2 = sl.get_pm(one, sn_1), sl.get_pm(two, sn_2)
    if sn_1.endurance < np.inf:
        limit = sn_1.endurance_stress
        keep &= np.abs(one.stress_range - limit) > 1e-8 * limit
    # values near the smallest number lose digits
    keep &= (damage_1 > 1e-250) | (damage_1 == 0)
    cx.close(damage_2[keep], damage_1[keep], "damage", "damage of the rows", rtol=1e-8)
    cx.event("damage", int(np.sum(keep)))
    slope = float(rng.uniform(2, 8))
    cx.close(sl.get_des(two, slope, 1e6), fac * sl.get_des(one, slope, 1e6), "equivalent", rtol=1e-9)
    size = float(rng.uniform(0.5, 5))
    cx.close(sl.get_dem(size, size * 0.9, two, slope), fac * sl.get_dem(size, size * 0.9, one, slope),
             "equivalent", "moment", rtol=1e-9)
    linear = [pf.SNCurve(sn.slope[:1], sn.intercept[:1], unit_string=sn.unit) for sn in (sn_1, sn_2)]
    cx.close(two.to_df().gassner.g(linear[1])["shift_factor"].values,
             one.to_df().gassner.g(linear[0])["shift_factor"].values, "gassner", rtol=1e-9)
    cx.event("equivalents")
    rule = ["pavlou", "manson", "leve", "si jian"][cx.index % 4]
    kw = {"pavlou": dict(base_exponent=-0.75), "manson": dict(base_exponent=0.4),
          "leve": dict(base_exponent=1.5), "si jian": {}}[rule]
    rows = np.flatnonzero(one.stress_range > 1e-3 * level)[:12]
    few = [pf.CycleCount(c.count_cycle[rows], c.stress_range[rows], c.mean_stress[rows],
                         timestamp=gen.stamp(None), unit=c.unit) for c in (one, two)]
    extra = [dict(kw, ultimate_stress=900.0 * f) if rule == "pavlou" else kw for f in (1.0, fac)]
    got = [sl.get_nonlinear_damage(rule, c, sn, **e) for c, sn, e in zip(few, linear, extra)]
    if np.isfinite(got[0]) and 1e-200 < got[0] < 1e200:
        cx.close(np.log(got[1]), np.log(got[0]), "nonlinear", rule, rtol=1e-7, atol=1e-7)
        cx.event("nonlinear")
    # curves
    cyc = 10.0 ** rng.uniform(1, 12, 20)
    cx.close(sn_2.get_stress(cyc), fac * sn_1.get_stress(cyc), "curve", "stress", rtol=1e-9)
    cx.close(sn_2.get_knee_stress(), fac * sn_1.get_knee_stress(), "curve", "knees", rtol=1e-7)
    cx.close(sn_2.get_knee_cycles(), sn_1.get_knee_cycles(), "curve", "knees", rtol=1e-6)
    cx.event("curve_values", 20)
    cx.sample(factor=fac, rows=len(one.count_cycle), damage=float(np.sum(damage_1)))


def binning(cx):
    """Exports of data on a binary grid."""
    rng = cx.rng
    fac = power(rng, 1, 12)
    n = int(rng.integers(6, 120))
    x = rng.integers(-200, 200, n) / 16.0
    if np.ptp(x) < 1:
        raise Skip("flat")
    par = dict(range_bin_lower_bound=float(rng.choice([0.0, 0.25, 0.5])),
               range_bin_width=float(rng.choice([0.125, 0.25, 0.5, 1.0])),
               mean_bin_width=float(rng.choice([0.5, 1.0, 2.0, 4.0])))
    opt = dict(damage_tolerance_for_binning=float(10 ** rng.uniform(-3, 0)),
               damage_exponent=float(rng.choice([3.0, 4.0, 5.0])),
               max_consecutive_zeros=int(rng.choice([4, 8, 32])), round_decimals=10,
               legacy_export=bool(rng.random() < 0.3))
    cx.note(signal=x, factor=fac, bins=par, options=opt)
    cx.key(x, fac, par, opt)
    out = []
    for f in (1.0, fac):
        cc = pf.CycleCount.from_timeseries(x * f, timestamp=gen.stamp(None),
                                           **{k: v * f for k, v in par.items()})
        out.append(cc.as_dict(**opt))
    one, two = out
    if one["nr_small_cycles"] != two["nr_small_cycles"]:
        cx.check(False, "export", "small cycles")
    cx.check(one["hist"] == two["hist"], "export", "histogram in the other unit")
    for key in ("lg_c", "res", "res_sig"):
        a, b = np.asarray(one[key], float), np.asarray(two[key], float)
        cx.check(a.shape == b.shape, "export", f"{key}: {a.shape} {b.shape}")
        if a.ndim == 2:
            a, b = a[np.lexsort(a.T)], b[np.lexsort(b.T)]
        cx.close(b, a * fac, "export", key, rtol=1e-12)
    cx.event("exports")


def scaled_geometry(geo, by):
    if isinstance(geo, InfiniteSurface):
        return InfiniteSurface(initial_depth=geo.initial_depth * by)
    return HollowCylinder(
        initial_depth=geo.initial_depth * by, outer_diameter=geo.outer_diameter * by,
        thickness=geo.thickness * by, height=geo.height * by, crack_position="external",
        width_to_depth_ratio=geo.width_to_depth_ratio)


def cracks(cx):
    rng = cx.rng
    size = int(rng.integers(3, 60))
    geo, curve, (slope, inter, thr, crit), stress = crack.problem(rng, size, kind=cx.index % 2)
    fac, length = power(rng, -14, 14), float(4.0 ** int(rng.integers(-6, 7)))
    counts = np.ones(size) if rng.random() < 0.6 else rng.choice([0.5, 1.0, 2.0, 5.0, 2.5], size)
    sif = fac * np.sqrt(length)
    cx.note(geometry=crack.describe(geo), curve=(slope, inter, thr, crit), stress=stress,
            counts=counts, factor=fac, length=length)
    cx.key(crack.describe(geo), inter, stress, fac, length)
    slope, inter = np.atleast_1d(np.asarray(slope, float)), np.atleast_1d(np.asarray(inter, float))
    other = pf.ParisCurve(slope, inter * length / sif ** slope, threshold=thr * sif, critical=crit * sif,
                          unit_string="MPa √mm")
    cx.close(other.get_growth_rate(np.geomspace(max(thr, 1e-3) * 1.001, min(crit, 1e5) * 0.999, 9) * sif),
             length * curve.get_growth_rate(np.geomspace(max(thr, 1e-3) * 1.001, min(crit, 1e5) * 0.999, 9)),
             "growth-rate", rtol=1e-9)
    express = bool(rng.random() < 0.3)
    one = crack_growth.get_crack_growth(crack.count(stress, counts), curve, geo, express)
    two = crack_growth.get_crack_growth(crack.count(stress * fac, counts), other,
                                        scaled_geometry(geo, length), express)
    a, b = np.asarray(one.crack_depth), np.asarray(two.crack_depth)
    cx.check(len(a) == len(b) and bool(one.failure) == bool(two.failure), "life",
             f"{len(a)} steps, failure {bool(one.failure)}; in the other unit {len(b)}, {bool(two.failure)}")
    cx.close(b, a * length, "depth", "crack depth", rtol=1e-7)
    cx.close(two.sif, np.asarray(one.sif) * sif, "sif", "stress intensity", rtol=1e-7)
    cx.close(two.geometry_factor, one.geometry_factor, "factor", "geometry factor", rtol=1e-7)
    cx.close(two.final_cycles, one.final_cycles, "life", rtol=1e-12)
    cx.event("growth")
    if one.failure:
        cx.event("failures")


WORKLOADS = [
    Workload("workflow", workflow, 250, 3000),
    Workload("binning", binning, 150, 1500),
    Workload("cracks", cracks, 120, 1500),
]
