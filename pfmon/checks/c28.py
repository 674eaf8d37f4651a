"""C28: concurrent callers get the results of calls made one after the other."""
import copy
import sys
import threading

import numpy as np
import pandas as pd

import py_fatigue as pf
from py_fatigue.cycle_count import histogram as ht
from py_fatigue.cycle_count import pbar_sum
from py_fatigue.cycle_count import rainflow as rf
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage
from py_fatigue.damage import crack_growth, stress_life as sl
from py_fatigue.mean_stress import corrections as msc
from py_fatigue.stress_range import StressRange
from py_fatigue.testing import get_random_data, get_sampled_time

from pfmon import crack, gen, make
from pfmon.checks.c16 import prepare  # noqa: F401  (no pauses in the sums)
from pfmon.core import Skip, Violation, Workload
from pfmon.observe import snap

RULE = (
    "A case is a set of shared operands and a list of calls on them, made by several "
    "threads at once, in a different order each, and one after the other. "
    "Non-trivial: at least two threads were inside calls at the same time; distinct "
    "by the operands and the calls."
)
REQUIRED_EVENTS = ["threads", "calls_at_once", "calls_while_another_runs", "calls_alone",
                   "concurrent_first", "kinds_of_call", "refusals_at_once"]
ASSUMPTIONS = ["numba's threading layer accepts calls from several threads (tbb or omp)"]
WORKERS = 2
LIMIT = 120.0
USED = set()


def export():
    return sorted(USED)


def finalize(reports):
    used = set().union(*[set(r.get("export") or []) for r in reports])
    return {"events": {"kinds_of_call": len(used)}}


def plain(obj):
    """Results as nested tuples of arrays and values."""
    if isinstance(obj, pf.CycleCount):
        return tuple((k, plain(v)) for k, v in make.fields(obj).items())
    if isinstance(obj, pd.DataFrame):
        return (tuple(map(str, obj.columns)), tuple(map(str, obj.index)),
                tuple(plain(obj[c].values) for c in obj))
    if isinstance(obj, (pd.Series, pd.Index)):
        return plain(np.asarray(obj))
    if isinstance(obj, dict):
        return tuple((k, plain(v)) for k, v in sorted(obj.items(), key=lambda kv: str(kv[0])))
    if isinstance(obj, np.ndarray) and obj.dtype == object:
        return tuple(plain(v) for v in obj.ravel())
    if isinstance(obj, np.ndarray):
        return np.array(obj)
    if isinstance(obj, (list, tuple)):
        return tuple(plain(v) for v in obj)
    return obj


def agree(a, b):
    """The same values; floats up to the order of sums inside a kernel."""
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(map(agree, a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return False
        if x.dtype.kind == "f":
            return bool(np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True))
        return bool(np.array_equal(x, y))
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-12, atol=0, equal_nan=True))
    return type(a) is type(b) and a == b


def operands(rng):
    """Objects shared by the threads."""
    bins = dict(range_bin_lower_bound=0.2, range_bin_width=0.5, mean_bin_width=5.0)
    obj = {"bins": bins}
    obj["signals"] = [np.round(np.cumsum(rng.normal(0, 6, int(rng.integers(20, 400)))), 2)
                      for _ in range(4)]
    for sig in obj["signals"]:
        sig[0] += 0.5
    obj["counts"] = [make.from_signal(rng, k, x=sig, bins=bins) for k, sig in enumerate(obj["signals"])]
    obj["counts"].append(make.direct(rng, 9, bins=bins, max_rows=30))
    obj["sn"] = [make.sn_curve(rng)[0], make.sn_curve(rng, branches=2, endurance=True)[0]]
    obj["line"] = make.sn_curve(rng, branches=1, endurance=False)[0]
    obj["paris"] = [make.paris_curve(rng)[0], make.paris_curve(rng, segments=2)[0]]
    geo, curve, _, stress = crack.problem(rng, int(rng.integers(5, 60)))
    obj["growth"] = [(crack.count(stress, np.ones(len(stress))), curve, geo)]
    for _ in range(2):  # other curves and cylinders
        _, curve, _, stress = crack.problem(rng, int(rng.integers(5, 60)))
        obj["growth"].append((crack.count(stress, np.ones(len(stress))), curve, crack.cylinder(rng)))
    obj["arrays"] = [10 ** rng.uniform(0, 2.5, int(n)) for n in (1, 7, 60, 60, 3000)]
    obj["cycles"] = [10 ** rng.uniform(2, 10, int(n)) for n in (7, 60, 3000)]
    obj["means"] = rng.normal(0, 40, 60)
    obj["dict"] = obj["counts"][0].as_dict()
    return obj


def calls(rng, obj):
    """(name, function) of calls without arguments."""
    out = []

    def add(name, fn):
        out.append((name, fn))

    counts, bins = obj["counts"], obj["bins"]
    for i, sig in enumerate(obj["signals"]):
        add("rainflow", lambda s=sig: rf.rainflow(s, extended_output=True))
        add("from_timeseries", lambda s=sig, k=i: pf.CycleCount.from_timeseries(
            s, timestamp=gen.stamp(None, k), name="a", unit="MPa", **bins))
    add("findtp", lambda: rf.findtp(obj["signals"][0]))
    add("findcross", lambda: rf.findcross(obj["signals"][1], 0.5))
    add("binned_rainflow", lambda: ht.binned_rainflow(obj["signals"][2]))
    add("add", lambda: counts[0] + counts[1])
    add("sum", lambda: sum(counts))
    add("pbar_sum", lambda: pbar_sum(list(counts)))
    factor = float(rng.uniform(0.3, 3))
    add("scale", lambda: counts[2] * factor)
    add("solve_lffd", lambda: (counts[0] + counts[1] + counts[2]).solve_lffd())
    add("solve_lffd min-max", lambda: (counts[0] + counts[3]).solve_lffd("min-max"))
    add("dnvgl count", lambda: counts[1].mean_stress_correction(detail_factor=0.8))
    add("walker count", lambda: counts[2].mean_stress_correction("walker", gamma=0.4))
    add("as_dict", lambda: counts[3].as_dict())
    add("legacy as_dict", lambda: counts[0].as_dict(legacy_export=True))
    add("from_rainflow", lambda: pf.CycleCount.from_rainflow(
        copy.deepcopy(obj["dict"]), timestamp=gen.stamp(None, 1), name="a"))
    for cnt in counts[:3]:
        add("views", lambda c=cnt: (c.full_cycles, c.residuals, c.statistical_moments, c.bin_edges,
                                    c.min_max_sequence, c.max_stress, str(c)))
        add("accessor damage", lambda c=cnt: c.to_df().miner.damage(obj["sn"][1]))
        add("accessor gassner", lambda c=cnt: c.to_df().gassner.g(obj["line"]))
        add("get_pm", lambda c=cnt: sl.get_pm(c, obj["sn"][0]))
        add("get_des", lambda c=cnt: sl.get_des(c, 4.5))
    for sn in obj["sn"]:
        for arr in obj["arrays"]:
            add("get_cycles", lambda s=sn, a=arr: s.get_cycles(a))
            add("get_cycles scalar", lambda s=sn, a=float(arr[0]): s.get_cycles(a))
        for arr in obj["cycles"]:
            add("get_stress", lambda s=sn, a=arr: s.get_stress(a))
        add("sn knees", lambda s=sn: (s.get_knee_stress(), s.get_knee_cycles(), s.endurance_stress))
        add("nonlinear", lambda s=sn: sl.calc_nonlinear_damage(
            "si jian", np.sort(obj["arrays"][1]) + 50.0, np.ones(7), s))
        add("refused stress", lambda s=sn: s.get_cycles(np.array([3.0, -1.0])))
    for pc in obj["paris"]:
        for arr in obj["arrays"]:
            add("growth rate", lambda c=pc, a=arr: c.get_growth_rate(a))
        for scale in (1e-12, 1e-9):
            add("sif", lambda c=pc, s=scale: c.get_sif(obj["arrays"][2] * s))
        add("paris knees", lambda c=pc: (c.get_knee_sif(), c.get_knee_growth_rate()))

    def grow(c, curve, geo, express=False):
        res = crack_growth.get_crack_growth(c, curve, geo, express_mode=express)
        return (np.array(res.crack_depth), np.array(res.sif), np.array(res.geometry_factor),
                float(res.final_cycles), bool(res.failure))

    for cnt, curve, geo in obj["growth"]:
        half = crack.count(np.array(cnt.stress_range)[::-1] * 0.5, np.ones(len(cnt.stress_range)))
        add("crack growth", lambda c=cnt, p=curve, g=geo: grow(c, p, g))
        add("crack growth", lambda c=half, p=curve, g=geo: grow(c, p, g))
        add("accessor growth", lambda c=cnt, p=curve, g=geo: c.to_df().cg.calc_growth(p, g))
    add("dnvgl", lambda: msc.dnvgl_mean_stress_correction(obj["means"], obj["arrays"][2], 0.6))
    add("dnvgl", lambda: msc.dnvgl_mean_stress_correction(-obj["means"], obj["arrays"][3], 0.8))
    add("walker", lambda: msc.walker_mean_stress_correction(obj["means"], obj["arrays"][3], 0.7))
    add("histogram", lambda: ht.make_histogram(obj["means"], obj["arrays"][2], bins=6))
    add("stress range", lambda: (lambda s: (s.bin_edges, s.full, s.half, s.bins_idx, s.binned_values))(
        StressRange(_counts=np.ones(60), _values=obj["arrays"][2], bin_width=7.0)))
    table = pd.DataFrame({"CC_a": pd.Series([c * 1.0 for c in counts[:4]], dtype=object),
                          "x": np.arange(4.0)})
    table.index = pd.date_range("2020-01-01", periods=4, freq="9h")
    add("aggregate", lambda: aggregate_cc(table, "D")["x"].values)
    add("aggregated damage", lambda: calc_aggregated_damage(table, list(obj["sn"])).values)
    for seed in (3, 4):
        add("random data", lambda s=seed: get_random_data(get_sampled_time(20.0, 5.0), seed=s))
    add("refused unit", lambda: sl.get_pm(pf.CycleCount(
        np.ones(1), np.ones(1), np.ones(1), unit="kPa"), obj["sn"][0]))
    return out


def outcome(fn):
    try:
        return plain(fn())
    except (TypeError, ValueError, AssertionError) as err:
        return ("refused", type(err).__name__)


class Counter:
    """How many threads are inside calls."""

    def __init__(self):
        self.inside, self.shared, self.total, self.most = 0, 0, 0, 0
        self.lock = threading.Lock()

    def __enter__(self):
        with self.lock:
            self.inside += 1
            self.total += 1
            self.shared += self.inside > 1
            self.most = max(self.most, self.inside)

    def __exit__(self, *_):
        with self.lock:
            self.inside -= 1


def at_once(todo, orders):
    """Results of every thread: {thread: [(call, result), ...]}."""
    start = threading.Barrier(len(orders))
    got = {i: [] for i in range(len(orders))}
    broken = []
    count = Counter()

    def run(i):
        try:
            start.wait(LIMIT)
            for k in orders[i]:
                with count:
                    res = outcome(todo[k][1])
                got[i].append((k, res))
        except Exception as err:  # pylint: disable=broad-except
            broken.append((i, todo[k][0], f"{type(err).__name__}: {err}"))

    threads = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(orders))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(LIMIT)
    finally:
        sys.setswitchinterval(old)
    stuck = [i for i, t in enumerate(threads) if t.is_alive()]
    return got, broken, stuck, count


def judge(cx, todo, orders, first):
    def alone():
        return [outcome(fn) for _, fn in todo]

    want = alone() if not first else None
    got, broken, stuck, count = at_once(todo, orders)
    if stuck:
        raise Violation("stuck", f"{len(stuck)} threads did not finish", cx.notes)
    for i, name, err in broken:
        cx.check(False, "concurrent-error", f"{name} in thread {i}: {err}")
    if want is None:
        want = alone()
        cx.event("concurrent_first")
    for i, results in got.items():
        for k, res in results:
            cx.check(agree(res, want[k]), "concurrent-result",
                     f"{todo[k][0]} in thread {i} gave another result", got=res, want=want[k])
            if isinstance(res, tuple) and res[:1] == ("refused",):
                cx.event("refusals_at_once")
    cx.event("threads", len(orders))
    cx.event("calls_at_once", count.total)
    cx.event("calls_while_another_runs", count.shared)
    cx.event("calls_alone", len(todo))
    if count.shared == 0:
        raise Skip
    return count


def mixed(cx):
    """All kinds of calls on shared operands."""
    rng = cx.rng
    obj = operands(rng)
    todo = calls(rng, obj)
    todo = [todo[k] for k in rng.permutation(len(todo))[: int(rng.integers(20, len(todo) + 1))]]
    names = [name for name, _ in todo]
    USED.update(names)
    cx.note(calls=names)
    threads = int(rng.integers(2, 9))
    orders = [list(rng.permutation(len(todo))) for _ in range(threads)]
    before = snap({k: v for k, v in obj.items() if k != "growth"})
    count = judge(cx, todo, orders, first=bool(cx.index % 2))
    cx.check(snap({k: v for k, v in obj.items() if k != "growth"}) == before, "operand-changed",
             "the shared operands changed")
    cx.key(repr(names), *obj["signals"])
    cx.sample(calls=names[:10], threads=threads, at_the_same_time=count.most)


def hammer(cx):
    """One kind of call, on one object, with different arguments per thread."""
    rng = cx.rng
    obj = operands(rng)
    every = calls(rng, obj)
    names = sorted({name for name, _ in every})
    name = names[cx.index % len(names)]
    todo = [c for c in every if c[0] == name]
    if name in ("aggregate", "aggregated damage"):
        todo = todo[:1]
    USED.add(name)
    repeat = max(2, 40 // len(todo))
    if name in ("aggregate", "aggregated damage", "crack growth", "accessor growth"):
        repeat = 4
    cx.note(call=name, repeated=repeat)
    orders = [list(np.tile(rng.permutation(len(todo)), repeat)) for _ in range(6)]
    judge(cx, todo, orders, first=bool((cx.index // len(names)) % 2))
    cx.key(name, *obj["signals"])


WORKLOADS = [
    Workload("mixed", mixed, 24, 400),
    Workload("hammer", hammer, 80, 1200),
]
