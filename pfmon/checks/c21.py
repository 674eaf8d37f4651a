"""C21: operations leave their operands alone and repeat themselves."""
import copy
import json

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

import py_fatigue as pf
from py_fatigue.cycle_count import histogram as ht
from py_fatigue.cycle_count import pbar_sum
from py_fatigue.cycle_count import rainflow as rf
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage
from py_fatigue.damage import crack_growth, stress_life as sl
from py_fatigue.mean_stress import MeanStress
from py_fatigue.mean_stress import corrections as msc
from py_fatigue.stress_range import StressRange
from py_fatigue.testing import get_random_data, get_sampled_time

from pfmon import crack, gen, make
from pfmon.checks.c16 import prepare  # noqa: F401  (no pauses in the sums)
from pfmon.core import Workload
from pfmon.observe import Pool, snap

RULE = (
    "A case is a history of public operations over a pool of shared operands, "
    "all operands and earlier results compared before and after each operation "
    "and operations repeated. Non-trivial: every case; distinct by the history "
    "and its first signal."
)
REQUIRED_EVENTS = ["operations", "operands_compared", "repeated", "repeated_on_copies",
                   "columns_added", "imports", "buffers_reused", "data_replaced",
                   "kinds_of_operation"]
WORKERS = 4
DAMAGE_COLS = ("cycles_to_failure", "pm_damage")
GROWTH_COLS = ("crack_depth", "sif", "cumul_cycle", "geometry_factor")
BINS = dict(range_bin_lower_bound=0.2, range_bin_width=0.5, mean_bin_width=5.0)
USED = set()


def export():
    return sorted(USED)


def finalize(reports):
    used = set().union(*[set(r.get("export") or []) for r in reports])
    return {"events": {"kinds_of_operation": len(used)}}


def draw(rng, pool):
    """(name, operands, function of operands, kind of the result, table columns)."""
    p = pool.pick
    sig, cnt, sn, paris = p("signal"), p("count"), p("sn"), p("paris")
    k = float(np.round(rng.uniform(0.2, 4), 3))
    slope, eq = float(np.round(rng.uniform(2, 8), 2)), float(10 ** rng.uniform(3, 8))
    corr = str(rng.choice(["DNVGL-RP-C203", "Walker", "SWT"]))
    kw = dict(detail_factor=0.8) if corr.startswith("D") else dict(gamma=0.6) if corr == "Walker" else {}
    rule = str(rng.choice(["pavlou", "manson", "leve", "si jian"]))
    legacy = bool(rng.integers(0, 2))
    stamp_k = len(pool.objs)
    plot = str(rng.choice(["min-max", "mean-range", "counts-range", "counts-range-cumsum",
                           "counts-range-2D"]))
    plot_mode = [None, "mountain", "valley", "clip"][int(rng.integers(0, 4))]
    seed = int(rng.integers(0, 99))

    def ts(x):
        return pf.CycleCount.from_timeseries(x, timestamp=gen.stamp(None, stamp_k), name="a",
                                             unit="MPa", **BINS)

    def counts_of(names):
        return sum(names)

    def table_of(c):
        return pd.DataFrame({"CC_a": pd.Series([c, None, c * 2], dtype=object),
                             "x": [1.0, 2.0, 3.0]},
                            index=pd.date_range("2020-01-01", periods=3, freq="h"))

    def width(values):
        return max(2.0, float(np.ptp(values)) / 40)

    def closing(fn):
        def call(*args):
            try:
                fn(*args)
            finally:
                plt.close("all")
        return call

    ops = [
        ("findtp", (sig,), rf.findtp, None),
        ("findextrema", (sig,), rf.findextrema, None),
        ("findcross", (sig,), lambda x: rf.findcross(x, float(np.mean(x))), None),
        ("rainflow", (sig,), lambda x: rf.rainflow(x, extended_output=True), None),
        ("rainflow with time", (sig,), lambda x: rf.rainflow(
            x, time=np.arange(len(x)) * 0.5, extended_output=True), None),
        ("binned_rainflow", (sig,), lambda x: ht.binned_rainflow(x), None),
        ("from_timeseries", (sig,), ts, "count"),
        ("from_timeseries with time", (sig, p("time")), lambda x, t: pf.CycleCount.from_timeseries(
            x, time=t[: len(x)] if len(t) >= len(x) else None,
            timestamp=gen.stamp(None, stamp_k), name="a", unit="MPa", **BINS), "count"),
        ("add", (cnt, p("count")), lambda a, b: a + b, "count"),
        ("sum", (cnt, p("count"), p("count")), lambda *a: counts_of(
            sorted(a, key=lambda c: min(c.time_sequence))), "count"),
        ("pbar_sum", (cnt, p("count")), lambda *a: pbar_sum(
            sorted(a, key=lambda c: min(c.time_sequence))), "count"),
        ("scale", (cnt,), lambda a: a * k, "count"),
        ("rscale", (cnt,), lambda a: k * a, "count"),
        ("scale by one", (cnt,), lambda a: a * 1, "count"),
        ("solve_lffd", (cnt,), lambda a: a.solve_lffd(), "count"),
        ("solve_lffd min-max", (cnt,), lambda a: a.solve_lffd("min-max"), "count"),
        ("correction", (cnt,), lambda a: a.mean_stress_correction(corr, **kw), "count"),
        ("correction pulsating", (cnt,), lambda a: a.mean_stress_correction(
            corr, enforce_pulsating_load=True, **kw), "count"),
        ("as_dict", (cnt,), lambda a: a.as_dict(legacy_export=legacy), "dict"),
        ("as_dict coarse", (cnt,), lambda a: a.as_dict(
            damage_tolerance_for_binning=0.5, max_consecutive_zeros=4, round_decimals=2), "dict"),
        ("to_df", (cnt,), lambda a: a.to_df(), "table"),
        ("str", (cnt,), str, None),
        ("html", (cnt,), lambda a: a._repr_html_(), None),
        ("views", (cnt,), lambda a: [a.residuals, a.full_cycles, a.half_cycles, a.bin_edges,
                                     a.bin_centers, a.statistical_moments, a.min_stress,
                                     a.max_stress, a.stress_amplitude, a.range_bin_upper_bound,
                                     a.mean_bin_upper_bound, a.min_max_sequence], None),
        ("equality", (cnt, p("count")), lambda a, b: [a == b, a != b, b == a], None),
        ("get_cycles", (sn, p("array")), lambda c, a: c.get_cycles(np.abs(a)), None),
        ("get_cycles direct", (sn, p("positive")), lambda c, a: c.get_cycles(a), None),
        ("get_stress", (sn, p("positive")), lambda c, a: c.get_stress(a), None),
        ("sn knees", (sn,), lambda c: [c.get_knee_stress(), c.get_knee_cycles(),
                                       c.endurance_stress, str(c)], None),
        ("sn plot", (sn, p("positive")), closing(lambda c, a: c.plot(a, a[::-1])), None),
        ("sn plotly", (sn, p("positive")), closing(lambda c, a: c.plotly(a, a[::-1])), None),
        ("growth rate", (paris, p("positive")), lambda c, a: c.get_growth_rate(a), None),
        ("sif", (paris, p("positive")), lambda c, a: c.get_sif(a * 1e-9), None),
        ("paris knees", (paris,), lambda c: [c.get_knee_sif(), c.get_knee_growth_rate(),
                                             c.threshold_growth_rate, c.critical_growth_rate], None),
        ("paris plot", (paris,), closing(lambda c: c.plot()), None),
        ("get_pm", (cnt, sn), sl.get_pm, None),
        ("calc_pm", (p("positive"), p("ones"), sn), sl.calc_pm, None),
        ("get_des", (cnt,), lambda a: sl.get_des(a, slope, eq), None),
        ("calc_des", (p("positive"), p("ones")), lambda s, n: sl.calc_des(s, n, slope, eq), None),
        ("get_dem", (cnt,), lambda a: sl.get_dem(2.0, 1.5, a, slope, eq), None),
        ("calc_dem", (p("positive"), p("ones")), lambda s, n: sl.calc_dem(2.0, 1.5, s, n, slope, eq),
         None),
        ("nonlinear", (cnt, sn), lambda a, c: sl.get_nonlinear_damage(rule, a, c), None),
        ("calc_nonlinear", (p("positive"), p("ones"), sn),
         lambda s, n, c: sl.calc_nonlinear_damage(rule, s, n, c), None),
        ("crack growth", (cnt, paris, p("geometry")), lambda a, c, g:
         crack_growth.get_crack_growth(a, c, g, express_mode=True), "growth"),
        ("dnvgl", (p("array"), p("positive")), lambda m, a: msc.dnvgl_mean_stress_correction(
            m, a, detail_factor=0.6 if legacy else 0.8), None),
        ("walker", (p("array"), p("positive")), lambda m, a: msc.walker_mean_stress_correction(
            m, a, gamma=0.4), None),
        ("swt", (p("array"), p("positive")), msc.swt_mean_stress_correction, None),
        ("dnvgl plotted", (p("array"), p("positive")), closing(
            lambda m, a: msc.dnvgl_mean_stress_correction(m, a, plot=True)), None),
        ("histogram", (p("array"), p("positive"), p("ones")), lambda m, r, w: ht.make_histogram(
            m, r, bins=5, weights=w), None),
        ("map_hist", (p("array"), p("positive")), lambda m, r: (lambda h: ht.map_hist(
            m, r, h[0], h[1]))(np.histogram2d(m, r, bins=4) and ht.make_histogram(m, r, bins=4)[:2]),
         None),
        ("xy_hist2d", (p("array"), p("positive")), closing(
            lambda m, r: ht.xy_hist2d(m, r, mode=plot_mode, bins=4)), None),
        ("stress range", (p("positive"), p("ones")), lambda v, n: (lambda s: [
            s.bin_edges, s.bin_centers, s.full, s.half, s.bins_idx, s.binned_values])(
            StressRange(_counts=n, _values=v, bin_width=width(v))), None),
        ("binner", (p("array"), p("positive"), p("ones")), lambda m, v, n: ht.rainflow_binner(
            StressRange(_counts=n, _values=v, bin_width=width(v)),
            MeanStress(_counts=n, _values=m, bin_width=width(m)), debug_mode=False), None),
        ("binner objects", (p("ranges"), p("means")), lambda r, m: ht.rainflow_binner(
            r, m if legacy else None, damage_tolerance=0.1 if legacy else 1e-3), None),
        ("threshold", (p("ranges"), p("means")), ht.rainflow_threshold, None),
        ("stress views", (p("ranges"), p("means")), lambda *a: [
            (s.bin_edges, s.bin_centers, s.full, s.half, s.bins_idx, s.binned_values)
            for s in a], None),
        ("plot", (cnt,), closing(lambda a: a.plot_histogram(plot, mode=plot_mode or "mountain",
                                                            bins=5)), None),
        ("plot residuals", (cnt,), closing(lambda a: a.plot_residuals_sequence()), None),
        ("plot half cycles", (cnt,), closing(lambda a: a.plot_half_cycles_sequence()), None),
        ("aggregate", (cnt,), lambda a: aggregate_cc(table_of(a), "D")["x"].values, None),
        ("aggregated damage", (cnt, sn), lambda a, c: calc_aggregated_damage(
            table_of(a), [c, c]).values, None),
        ("random data", (p("time"),), lambda t: get_random_data(t, seed=seed), None),
        ("sampled time", (), lambda: get_sampled_time(10.0, 3.0), None),
        ("accessor damage", (p("table"), sn), lambda t, c: t.miner.damage(c).shape and None, None),
        ("accessor des", (p("table"),), lambda t: t.miner.des(slope, eq), None),
        ("accessor dem", (p("table"),), lambda t: t.miner.dem(2.0, 1.0, slope, eq), None),
        ("accessor gassner", (p("table"), p("line")), lambda t, c: t.gassner.g(c).shape and None, None),
        ("accessor growth", (p("table"), paris, p("geometry")),
         lambda t, c, g: t.cg.calc_growth(c, g, express_mode=True).shape and None, None),
    ]
    name, args, fn, kind = ops[int(rng.integers(0, len(ops)))]
    cols = {"accessor damage": DAMAGE_COLS, "accessor gassner": ("shift_factor",),
            "accessor growth": GROWTH_COLS}.get(name, ())
    return name, args, fn, kind, cols


def fill(rng, pool):
    for _ in range(2):
        x, _ = gen.signal(rng, max_size=40)
        pool.add("signal", np.ascontiguousarray(np.clip(x, -500, 500)
                                                if np.ptp(np.clip(x, -500, 500)) > 0 else np.arange(9.0)))
    pool.add("signal", gen.integer_signal(rng, 30))
    pool.add("signal", gen.layout(rng, np.round(rng.normal(0, 20, 40), 1)))
    pool.add("signal", np.round(rng.normal(0, 20, 30), 1).tolist())
    pool.add("time", np.arange(200) * 0.1)
    pool.add("count", make.from_signal(rng, 0, x=np.round(rng.normal(5, 20, 60), 2), bins=BINS))
    pool.add("count", make.direct(rng, 1, bins=BINS, max_rows=20,
                                  res=rng.normal(0, 30, int(rng.integers(2, 20)))))
    pool.add("count", make.from_signal(rng, 2, x=np.round(np.cumsum(rng.normal(0, 5, 40)), 2),
                                       bins=BINS))
    n = int(rng.integers(3, 20))
    pool.add("array", rng.normal(0, 30, n) * float(rng.choice([1, 1, 1e4, 1e-6])))
    pool.add("positive", 10 ** rng.uniform(0, 2, n) * float(rng.choice([1, 1, 1e4, 1e-6])))
    pool.add("ones", rng.choice([0.5, 1.0, 3.0], n))
    vals, cnts = rng.uniform(0, 40, n), rng.choice([0.5, 1.0, 2.0], n)
    pool.add("ranges", StressRange(_counts=cnts, _values=vals, _bin_lb=float(rng.choice([0.0, 5.0])),
                                   bin_width=2.0))
    pool.add("means", MeanStress(_counts=cnts.copy(), _values=rng.normal(0, 20, n), bin_width=5.0))
    pool.add("sn", make.sn_curve(rng)[0])
    pool.add("sn", make.sn_curve(rng, branches=2)[0])
    pool.add("line", make.sn_curve(rng, branches=1, endurance=False)[0])
    pool.add("paris", make.paris_curve(rng)[0])
    pool.add("geometry", crack.geometry(rng))
    pool.add("geometry", crack.cylinder(rng))
    pool.add("table", pool.objs[pool.pick("count")].to_df())


def histories(cx):
    rng = cx.rng
    pool = Pool(cx)
    fill(rng, pool)
    log, again = [], []
    cx.note(history=log)
    for step in range(int(rng.integers(12, 30))):
        name, args, fn, kind, cols = draw(rng, pool)
        if any(a is None for a in args):
            continue
        objs = [pool.objs[a] for a in args]
        log.append(f"{name}({', '.join(args)})")
        USED.add(name)
        allow = {args[0]: cols} if cols else {}
        res, err = pool.watch(name, lambda: fn(*objs), allow)
        if not cols and not (args and pool.kinds[args[0]] == "table"):
            again.append((name, args, fn, snap(res), err))
        if kind and err is None and res is not None and not any(res is o for o in pool.objs.values()):
            size = len(res) if kind == "table" else 0
            if len(pool.objs) < 26 and size < 500:
                pool.add(kind, res)
        if again and rng.random() < 0.35:
            name, args, fn, want, werr = again[int(rng.integers(0, len(again)))]
            objs = [pool.objs[a] for a in args]
            if rng.random() < 0.4:
                objs = [copy.deepcopy(o) for o in objs]
                cx.event("repeated_on_copies")
            log.append(f"again {name}({', '.join(args)})")
            res, err = pool.watch(name, lambda: fn(*objs))
            if name not in ("plot", "html"):
                cx.check(err == werr and snap(res) == want, "not-repeatable",
                         f"{name} gave another result", first=repr(want)[:500],
                         second=repr(snap(res))[:500])
            cx.event("repeated")
    cx.key(repr(log), np.asarray(pool.objs["signal0"]))
    cx.sample(history=log)


LEGACY = {"bin_lb": "range_bin_lower_bound", "bin_width": "range_bin_width",
          "no_sm_c": "nr_small_cycles"}
ADDED = ("hist", "res_sig", "mean_bin_lower_bound")


def same_content(val, old):
    """The same numbers, list or array."""
    if old is None or val is None:
        return old is val
    if isinstance(old, (list, np.ndarray)):
        if len(val) != len(old):
            return False
        return all(same_content(v, o) for v, o in zip(val, old))
    return val == old


def imports(cx):
    """Dictionaries handed to the import keep their content."""
    rng = cx.rng
    src = make.from_signal(rng, x=np.round(np.cumsum(rng.normal(0, 6, int(rng.integers(20, 120)))), 2),
                           bins=dict(range_bin_lower_bound=0.5, range_bin_width=0.5,
                                     mean_bin_width=5.0))
    legacy = bool(cx.index % 2)
    dct = src.as_dict(legacy_export=legacy)
    if cx.index % 3 == 0:
        dct = json.loads(json.dumps(dct))
    if not (dct.get("hist") or len(dct.get("lg_c", [])) or len(dct.get("res", []))):
        return
    before = copy.deepcopy(dct)
    cx.note(dictionary=before)
    cx.key(repr(before))
    first = pf.CycleCount.from_rainflow(dct, timestamp=gen.stamp(rng), name="a", unit="MPa")
    cx.event("imports")
    for key, old in before.items():
        key = key if key in dct else LEGACY.get(key, key)
        cx.check(key in dct and same_content(dct[key], old), "operand-changed",
                 f"from_rainflow changed {key}", after=dct.get(key))
    for key in dct:
        cx.check(key in before or key in LEGACY.values() or key in ADDED, "operand-changed",
                 f"from_rainflow added {key}")
        if key not in before and key in ADDED:
            cx.check(dct[key] is None or len(dct[key]) == 0, "operand-changed",
                     f"from_rainflow invented {key}")
    # importing again, from the same and from an untouched dictionary
    second = pf.CycleCount.from_rainflow(copy.deepcopy(before), timestamp=gen.stamp(rng), name="a",
                                         unit="MPa")
    bad = make.same_fields(make.fields(second), make.fields(first))
    cx.check(not bad, "not-repeatable", f"second import differs in {bad}")
    snap_1 = snap(first)
    third = pf.CycleCount.from_rainflow(dct, timestamp=gen.stamp(rng), name="a", unit="MPa")
    bad = make.same_fields(make.fields(third), make.fields(first))
    cx.check(not bad, "not-repeatable", f"third import differs in {bad}")
    third.solve_lffd()
    cx.check(snap(first) == snap_1, "operand-changed", "first import changed by later operations")
    cx.check(snap(dct) == snap(before), "import-rewrites-caller-dict",
             "from_rainflow rewrote the dictionary it was given")


def read_only(cx):
    """Operands that cannot be written to are accepted."""
    rng = cx.rng
    x = np.round(rng.normal(0, 20, int(rng.integers(5, 60))), 1)
    x[0] += 1
    x.flags.writeable = False
    cx.note(signal=x)
    cx.key(x)
    cc = make.from_signal(rng, x=x, bins=BINS)
    ranges, counts = np.array(cc.stress_range), np.array(cc.count_cycle)
    ranges.flags.writeable = counts.flags.writeable = False
    curve, _ = make.sn_curve(rng)
    sl.calc_pm(ranges, counts, curve)
    sl.calc_des(ranges, counts, 4.0)
    other = pf.CycleCount(count_cycle=counts, stress_range=ranges, mean_stress=ranges * 0,
                          timestamp=gen.stamp(rng), name="a", unit="MPa", **{
                              k: v for k, v in BINS.items()})
    other * 2
    other.as_dict()
    other.to_df()
    msc.dnvgl_mean_stress_correction(ranges * 0, ranges / 2, 0.8)
    rf.rainflow(x)
    ht.binned_rainflow(x)
    cx.check(True, "read-only")
    cx.event("operations", 9)


def buffers(cx):
    """Arrays filled anew between calls, and views of them."""
    rng = cx.rng
    n = int(rng.integers(4, 60))
    view = bool(rng.integers(0, 2))
    size = n + 7 if view else n
    part = slice(3, 3 + n) if view else slice(None)
    buf, num, mean, when = np.zeros(size), np.zeros(size), np.zeros(size), np.zeros(size)
    sn, _ = make.sn_curve(rng)
    paris, _ = make.paris_curve(rng)
    cx.key("buffers", n, view, cx.index)

    def count(s, c, m):
        return pf.CycleCount(count_cycle=c, stress_range=s, mean_stress=m,
                             timestamp=gen.stamp(None, 1), name="a", unit="MPa", **BINS)

    ops = {
        "get_cycles": lambda s, c, m, t: sn.get_cycles(s),
        "get_stress": lambda s, c, m, t: sn.get_stress(s * 1.0e3),
        "get_stress direct": lambda s, c, m, t: sn.get_stress(s),
        "growth rate": lambda s, c, m, t: paris.get_growth_rate(s),
        "sif": lambda s, c, m, t: paris.get_sif(s),
        "calc_pm": lambda s, c, m, t: sl.calc_pm(s, c, sn),
        "calc_des": lambda s, c, m, t: sl.calc_des(s, c, 3.5),
        "nonlinear": lambda s, c, m, t: sl.calc_nonlinear_damage("si jian", s, c, sn),
        "rainflow": lambda s, c, m, t: rf.rainflow(m, extended_output=True),
        "rainflow with time": lambda s, c, m, t: rf.rainflow(m, time=t, extended_output=True),
        "findtp": lambda s, c, m, t: rf.findtp(m),
        "findcross": lambda s, c, m, t: rf.findcross(m, 0.5),
        "from_timeseries": lambda s, c, m, t: pf.CycleCount.from_timeseries(
            m, timestamp=gen.stamp(None, 1), name="a", **BINS),
        "binned": lambda s, c, m, t: ht.binned_rainflow(m),
        "dnvgl": lambda s, c, m, t: msc.dnvgl_mean_stress_correction(m, s, 0.8),
        "walker": lambda s, c, m, t: msc.walker_mean_stress_correction(m, s, 0.4),
        "histogram": lambda s, c, m, t: ht.make_histogram(m, s, bins=4, weights=c),
        "views": lambda s, c, m, t: [(v.full_cycles, v.half_cycles, v.statistical_moments,
                                      v.min_stress, v.max_stress, v.to_df())
                                     for v in [count(s, c, m)]],
        "export": lambda s, c, m, t: count(s, c, m).as_dict(),
        "scaled": lambda s, c, m, t: count(s, c, m) * 2,
    }
    args = [v[part] for v in (buf, num, mean, when)]
    for name, fn in ops.items():
        buf[:] = 10 ** rng.uniform(0, 2, size)
        num[:] = rng.choice([0.5, 1.0, 2.0, 3.0], size)
        mean[:] = np.round(rng.normal(0, 20, size), 1)
        when[:] = np.cumsum(rng.uniform(0.1, 1, size))
        fn(*args)
        for step in range(3):
            if step == 0:  # the same sum and extremes in another order
                for v in args[:3]:
                    v[:] = v[::-1].copy()
            elif step == 1:  # the same ends
                for v in args[:3]:
                    v[1:-1] = v[1:-1] * 1.5
            else:
                buf[:] = 10 ** rng.uniform(0, 2, size)
                mean[:] = np.round(rng.normal(0, 20, size), 1)
            cx.note(step=step, what=name, args=[a.copy() for a in args])
            got = snap(fn(*args))
            want = snap(fn(*[a.copy() for a in args]))
            cx.check(got == want, "buffer", f"{name} of a reused array gave another result",
                     got=repr(got)[:400], want=repr(want)[:400])
            cx.event("buffers_reused")
    # objects whose data are replaced or refilled
    cc = count(*(v[part].copy() for v in (buf, num, mean)))
    for how in ("replaced", "refilled", "one value"):
        _ = (cc.full_cycles, cc.half_cycles, cc.statistical_moments, cc.to_df(), str(cc),
             cc.bin_edges, cc.as_dict(), cc.min_stress, sl.get_pm(cc, sn))
        new = 10 ** rng.uniform(0, 2, n)
        if how == "replaced":
            cc.stress_range = new
        elif how == "refilled":
            cc.stress_range[:] = new
        else:
            cc.stress_range[int(rng.integers(0, n))] *= 1.25
        fresh = count(cc.stress_range.copy(), cc.count_cycle.copy(), cc.mean_stress.copy())
        for one, two in ((cc.full_cycles, fresh.full_cycles), (cc.half_cycles, fresh.half_cycles),
                         (cc.statistical_moments, fresh.statistical_moments),
                         (cc.to_df(), fresh.to_df()), (cc.bin_edges, fresh.bin_edges),
                         (cc.as_dict(), fresh.as_dict()), (cc.max_stress, fresh.max_stress),
                         (sl.get_pm(cc, sn), sl.get_pm(fresh, sn)),
                         (make.rows(cc * 2), make.rows(fresh * 2))):
            cx.check(snap(one) == snap(two), "stale", f"a view of data {how} is out of date",
                     got=repr(one)[:400], want=repr(two)[:400])
        cx.event("data_replaced")


WORKLOADS = [
    Workload("histories", histories, 240, 4000),
    Workload("imports", imports, 60, 600),
    Workload("read-only", read_only, 40, 400),
    Workload("buffers", buffers, 60, 800),
]
