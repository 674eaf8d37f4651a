"""C22: units along chains of operations."""
import copy

import numpy as np
import pandas as pd

import py_fatigue as pf
from py_fatigue.cycle_count import pbar_sum
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage
from py_fatigue.damage import stress_life as sl
from py_fatigue.damage.crack_growth import get_crack_growth
from py_fatigue.geometry import InfiniteSurface

from pfmon import gen, make
from pfmon.core import Workload

RULE = (
    "A case is a cycle count with a unit taken through a chain of operations, "
    "the unit observed after each one, then combined with quantities of the "
    "same and of another unit. Non-trivial: every case; distinct by chain and "
    "units."
)
REQUIRED_EVENTS = ["chain_steps", "accepted", "refused", "imported", "aggregated", "tables",
                   "growth_accepted"]
WORKERS = 3
REFUSED = (TypeError, ValueError)
BINS = dict(range_bin_lower_bound=0.5, range_bin_width=0.5, mean_bin_width=5.0)
OTHER = ("MPa", "kPa", "Pa", "ksi", "µε", "N/mm²", "mPa", "MPa²", "M", "N", "MPa ", " MPa", "mpa",
         "MN", "kN/m²", "X", "psi")

UNITS = gen.UNITS + (" MPa ", "MPa\u00a0", "mpa", "%", "", "(kN)", "N/mm^2", "10 MPa")


def step(rng, cc, k, unit, log):
    """One operation that keeps the stress unit."""
    kind = str(rng.choice(["scale", "rscale", "add", "radd", "lffd", "minmax", "dnv", "walker",
                           "swt", "export", "legacy", "bar", "aggregate", "none", "deepcopy"]))
    if kind == "scale":
        return kind, cc * float(rng.uniform(0.5, 2))
    if kind == "rscale":
        return kind, float(rng.uniform(0.5, 2)) * cc
    if kind in ("add", "radd", "bar"):
        other = make.from_signal(rng, k, x=signal(rng), unit=unit, bins=BINS)
        if kind == "add":
            return kind, cc + other
        if kind == "radd":
            return kind, sum([cc, other])
        return kind, pbar_sum([cc, None, other])
    if kind == "lffd":
        return kind, cc.solve_lffd()
    if kind == "minmax":
        return kind, cc.solve_lffd("min-max")
    if kind in ("dnv", "walker", "swt"):
        # a sum forgets that it was corrected; binned means may all be zero
        if {"dnv", "walker", "swt"} & set(log) or np.allclose(cc.solve_lffd().mean_stress, 0):
            return "none", cc + None
        arg = {"dnv": ("DNVGL-RP-C203", dict(detail_factor=0.8)), "walker": ("Walker", dict(gamma=0.6)),
               "swt": ("SWT", {})}[kind]
        return kind, cc.mean_stress_correction(arg[0], **arg[1])
    if kind in ("export", "legacy"):
        dct = cc.as_dict(legacy_export=kind == "legacy")
        if not (len(dct.get("hist", [])) or len(dct["lg_c"]) or len(dct["res"])):
            return kind, cc
        return kind, pf.CycleCount.from_rainflow(dct, timestamp=cc.timestamp, name=cc.name, unit=unit)
    if kind == "aggregate":
        when = pd.Timestamp("2020-01-01")
        frame = pd.DataFrame({"CC_a": pd.Series([cc], index=[when], dtype=object)})
        return kind, aggregate_cc(frame, "D")["CC_a"].iloc[0]
    if kind == "none":
        return kind, cc + None
    return kind, copy.deepcopy(cc)


def signal(rng):
    x = np.round(np.cumsum(rng.normal(0, 6, int(rng.integers(8, 50)))) + 20, 2)
    x[0] += 1.0
    return x


def chains(cx):
    rng = cx.rng
    unit = str(rng.choice(UNITS))
    cc = make.from_signal(rng, 0, x=signal(rng), unit=unit, bins=BINS)
    log = []
    cx.note(unit=unit, chain=log)
    cx.check(cc.unit == unit, "unit-lost", f"from_timeseries: {cc.unit!r}")
    for k in range(int(rng.integers(0, 7))):
        name, cc = step(rng, cc, k + 1, unit, log)
        log.append(name)
        cx.check(isinstance(cc, pf.CycleCount) and cc.unit == unit, "unit-lost",
                 f"{name}: {getattr(cc, 'unit', cc)!r} instead of {unit!r}")
        cx.event("chain_steps")
        if name in ("export", "legacy"):
            cx.event("imported")
        if name == "aggregate":
            cx.event("aggregated")
    table = cc.to_df()
    meta = table._metadata
    cx.check(meta["unit"] == unit, "unit-lost", f"to_df: {meta.get('unit')!r}")
    cx.event("tables")
    cx.key(unit, repr(log), make.rows(cc)[:3])
    combine(cx, cc, unit, same=True)
    wrong = str(rng.choice([u for u in OTHER if u != unit]))
    cx.note(other=wrong)
    combine(cx, cc, unit, same=False, wrong=wrong)
    cx.sample(unit=unit, chain=log, other=wrong)


def combine(cx, cc, unit, same, wrong=None):
    rng = cx.rng
    u = unit if same else wrong
    sn, _ = make.sn_curve(rng, unit=u)
    other = make.from_signal(rng, 99, x=signal(rng), unit=u, bins=BINS)
    index = pd.date_range("2020-01-01", periods=2, freq="D")
    frame = pd.DataFrame({"CC_a": pd.Series([cc, None], index=index, dtype=object)})
    uses = {
        "add": lambda: cc + other,
        "sum": lambda: sum([cc, other]),
        "pbar_sum": lambda: pbar_sum([cc, other]),
        "get_pm": lambda: sl.get_pm(cc, sn),
        "nonlinear": lambda: sl.get_nonlinear_damage("leve", cc, sn, base_exponent=1.5),
        "aggregated damage": lambda: calc_aggregated_damage(frame, sn),
        "aggregated damages": lambda: calc_aggregated_damage(frame, [make.sn_curve(rng, unit=unit)[0], sn]),
        "table damage": lambda: cc.to_df().miner.damage(sn),
    }
    for name, fn in uses.items():
        if same:
            cx.check(fn() is not None, "equal-units", name)
            cx.event("accepted")
        else:
            cx.raises(REFUSED, fn, "unit-mismatch", f"{name}: {unit!r} with {u!r}")
    geo = InfiniteSurface(initial_depth=1.0)
    for sep in (" √", "√"):
        curve = pf.ParisCurve(3.0, 1e-20, threshold=1e9, critical=1e12, unit_string=f"{u}{sep}mm")
        if not same and (u.strip() == unit.strip() or not unit):
            continue  # "MPa" with "MPa  √mm" is the same unit
        grow = {"crack growth": lambda: get_crack_growth(cc, curve, geo, express_mode=True),
                "table growth": lambda: cc.to_df().cg.calc_growth(curve, geo, express_mode=True)}
        for name, fn in grow.items():
            if same:
                cx.check(fn() is not None, "equal-units", f"{name} with {curve.unit}")
                cx.event("growth_accepted")
            else:
                cx.raises(REFUSED, fn, "unit-mismatch", f"{name}: {unit!r} with {curve.unit!r}")


def single(cx):
    """Counts of one row, and tables of one row."""
    rng = cx.rng
    unit = str(rng.choice(UNITS))
    number = float(rng.choice([0.5, 1.0, 3.0]))
    cc = pf.CycleCount(
        count_cycle=np.array([number]), stress_range=rng.uniform(1, 50, 1),
        mean_stress=rng.uniform(-5, 5, 1), timestamp=gen.stamp(rng), name="a", unit=unit,
        residuals_sequence=None if rng.random() < 0.5 else np.round(rng.normal(0, 9, 4), 3), **BINS)
    wrong = str(rng.choice([u for u in OTHER if u != unit]))
    cx.note(unit=unit, other=wrong, rows=make.rows(cc))
    cx.key(unit, wrong, make.rows(cc))
    cx.check(cc.unit == unit and cc.to_df()._metadata["unit"] == unit, "unit-lost", "one row")
    combine(cx, cc, unit, same=True)
    combine(cx, cc, unit, same=False, wrong=wrong)


def defaults(cx):
    """Objects without an explicit unit are in MPa and combine."""
    rng = cx.rng
    x = signal(rng)
    cx.note(signal=x)
    cx.key(x)
    cc = pf.CycleCount.from_timeseries(x, timestamp=gen.stamp(rng), name="a")
    sn = pf.SNCurve([3.0, 5.0], [12.0, 16.0])
    cx.check(cc.unit == sn.unit == "MPa", "default-unit", f"{cc.unit!r}, {sn.unit!r}")
    cx.check(np.all(sl.get_pm(cc, sn) >= 0), "equal-units", "defaults")
    paris = pf.ParisCurve(3.0, 1e-20, threshold=1e9, critical=1e12)
    get_crack_growth(cc, paris, InfiniteSurface(initial_depth=1.0))
    cx.raises(REFUSED, lambda: cc + pf.CycleCount.from_timeseries(
        x, timestamp=gen.stamp(rng, 2), name="a", unit="kPa"), "unit-mismatch", "default with kPa")


WORKLOADS = [
    Workload("chains", chains, 200, 3000),
    Workload("single", single, 60, 900),
    Workload("defaults", defaults, 30, 200),
]
