"""C33: operations leave no trace in the process."""
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings
import weakref

import matplotlib
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
import numba
import numpy as np
import pandas as pd
import plotly.io as pio

import py_fatigue as pf
from py_fatigue.cycle_count import pbar_sum
from py_fatigue.cycle_count import histogram as ht
from py_fatigue.cycle_count import rainflow as rf
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage
from py_fatigue.damage import crack_growth, stress_life as sl
from py_fatigue.geometry import HollowCylinder, InfiniteSurface
from py_fatigue.mean_stress import corrections as msc

from pfmon import gen, make
from pfmon.checks import c21
from pfmon.checks.c16 import prepare  # noqa: F401  (no pauses in the sums)
from pfmon.core import Workload
from pfmon.observe import Pool, snap

RULE = (
    "A case is a history of public operations with the settings of the process, its files, "
    "threads and figures compared around each, or one operation repeated on new data while its "
    "memory and its earlier results are watched. Non-trivial: every case; distinct by the "
    "history or operation and its data."
)
REQUIRED_EVENTS = ["operations", "settings_compared", "kinds_of_operation", "repeated_calls",
                   "results_released", "bytes_processed"]
WORKERS = 4
USED = set()
DRAWN = ("plot", "sn plot", "sn plotly", "paris plot", "dnvgl plotted", "xy_hist2d",
         "plot residuals", "plot half cycles")


def export():
    return sorted(USED)


def finalize(reports):
    used = set().union(*[set(r.get("export") or []) for r in reports])
    return {"events": {"kinds_of_operation": len(used)}}


def pandas_options():
    out = {}
    for name in pd._config.config._registered_options:  # pylint: disable=protected-access
        with contextlib.suppress(Exception):
            out[name] = repr(pd.get_option(name))
    return out


def settings(drawn=False):
    """Everything an operation could leave behind outside its result."""
    out = {
        "numpy errors": repr(sorted(np.geterr().items())) + repr(np.geterrcall()),
        "numpy printing": repr(sorted(np.get_printoptions().items(), key=lambda kv: kv[0])),
        "numpy random": repr(np.random.get_state()[1:]),
        "random": random.getstate(),
        "pandas": pandas_options(),
        "warning filters": [repr(f) for f in warnings.filters],
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "files": sorted(os.listdir(".")),
        "search path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": time.tzname,
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled,
                    logging.root.manager.disable),
        "threads": sorted(t.name for t in threading.enumerate()),
        "numba threads": numba.get_num_threads(),
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM,
                                                                signal.SIGALRM, signal.SIGUSR1)],
        "decimal": repr(decimal.getcontext()),
        "switch interval": sys.getswitchinterval(),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "trace": (sys.gettrace(), sys.getprofile()),
        "plotly template": pio.templates.default,
        "defaults": defaults(),
    }
    if not drawn:
        out["matplotlib settings"] = {k: repr(v) for k, v in matplotlib.rcParams.items()}
        out["figures"] = plt.get_fignums()
    return out


def defaults():
    """What a count made of rows only carries."""
    cc = pf.CycleCount(count_cycle=np.ones(1), stress_range=np.ones(1), mean_stress=np.ones(1),
                       timestamp=gen.stamp(None, 1))
    return snap(cc)


def compare(cx, before, after, what):
    for key, old in before.items():
        new = after.get(key, old)
        if new != old:
            cx.check(False, "trace", f"{what} changed the {key}", before=repr(old)[:300],
                     after=repr(new)[:300])
    cx.check(True, "trace")
    cx.event("settings_compared", len(before))


OPTIONS = ("display.precision", "display.max_rows", "display.max_columns", "display.width",
           "display.max_colwidth")


def disturb(rng):
    """Settings a caller may have made, so that writing the usual ones shows."""
    for kind in ("divide", "over", "under", "invalid"):
        np.seterr(**{kind: str(rng.choice(["ignore", "warn"]))})
    np.set_printoptions(precision=int(rng.integers(3, 17)), threshold=int(rng.integers(10, 2000)),
                        suppress=bool(rng.integers(0, 2)), linewidth=int(rng.integers(60, 200)))
    for name in OPTIONS:
        pd.set_option(name, int(rng.integers(3, 200)))
    random.seed(int(rng.integers(0, 2**31)))
    np.random.seed(int(rng.integers(0, 2**31)))
    decimal.getcontext().prec = int(rng.integers(20, 60))
    sys.setrecursionlimit(int(rng.integers(3000, 5000)))
    logging.root.setLevel(int(rng.integers(20, 50)))


@contextlib.contextmanager
def own_directory():
    """An empty working directory, and settings that are put back."""
    here, new = os.getcwd(), tempfile.mkdtemp()
    limit, prec, level = sys.getrecursionlimit(), decimal.getcontext().prec, logging.root.level
    os.chdir(new)
    try:
        with np.errstate(), np.printoptions(), \
                pd.option_context(*[v for n in OPTIONS for v in (n, pd.get_option(n))]):
            yield new
    finally:
        sys.setrecursionlimit(limit)
        decimal.getcontext().prec = prec
        logging.root.setLevel(level)
        os.chdir(here)
        shutil.rmtree(new, ignore_errors=True)


def histories(cx):
    rng = cx.rng
    pool = Pool(cx)
    c21.fill(rng, pool)
    log = []
    cx.note(history=log)
    with own_directory(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(25):
            name, args, fn, kind, cols = c21.draw(rng, pool)
            if any(a is None for a in args):
                continue
            objs = [pool.objs[a] for a in args]
            log.append(f"{name}({', '.join(args)})")
            USED.add(name)
            drawn = name in DRAWN
            disturb(rng)
            before = settings(drawn)
            try:
                res = fn(*objs)
            except (TypeError, ValueError, AssertionError, AttributeError, KeyError, IndexError):
                res = None
                cx.event("failed_operations")
            compare(cx, before, settings(drawn), name)
            cx.event("operations")
            if kind == "count" and res is not None and len(pool.objs) < 26 and \
                    len(res.stress_range) < 500:
                pool.add(kind, res)
        plt.close("all")
    cx.key(repr(log), np.asarray(pool.objs["signal0"]))
    cx.sample(history=log[:8])


def refusals(cx):
    """Failing operations leave no trace either."""
    rng = cx.rng
    cc = make.from_signal(rng, x=np.round(rng.normal(0, 20, 40), 2))
    curve, _ = make.sn_curve(rng)
    other, _ = make.sn_curve(rng, unit="other")
    paris, _ = make.paris_curve(rng)
    index = pd.date_range("2020-01-01", periods=2, freq="h")
    cx.key("refusals", make.rows(cc))
    bad = {
        "NaN": lambda: rf.rainflow(np.array([1.0, np.nan, 2.0])),
        "text": lambda: pf.CycleCount.from_timeseries("abc"),
        "kind": lambda: rf.findcross(np.arange(5.0), 2.5, kind="x"),
        "correction": lambda: cc.mean_stress_correction("x"),
        "mode": lambda: cc.solve_lffd("x"),
        "sum": lambda: cc + 3,
        "product": lambda: cc * "a",
        "import": lambda: pf.CycleCount.from_rainflow({"x": 1}),
        "plot type": lambda: cc.plot_histogram(plot_type="x"),
        "negative": lambda: curve.get_cycles(-1.0),
        "unit": lambda: sl.get_pm(cc, other),
        "rule": lambda: sl.get_nonlinear_damage("x", cc, curve),
        "radii": lambda: sl.get_dem(1.0, 2.0, cc, 3.0),
        "geometry": lambda: HollowCylinder(initial_depth=1.0, outer_diameter=-1.0, thickness=2.0,
                                           height=3.0, crack_position="external"),
        "growth": lambda: crack_growth.get_crack_growth(cc, paris, None),
        "table": lambda: aggregate_cc(pd.DataFrame({"CC_a": [cc, cc]}), "D"),
        "aggregate": lambda: aggregate_cc(pd.DataFrame({"CC_a": [cc, 3]}, index=index), "x"),
        "curves": lambda: calc_aggregated_damage(pd.DataFrame({"CC_a": [cc, cc]}, index=index), [3]),
        "curve": lambda: pf.SNCurve([3.0, 5.0], [12.0]),
        "partial sum": lambda: pbar_sum([cc, cc * 2, 3]),
    }
    with own_directory(), warnings.catch_warnings():
        warnings.simplefilter("error" if cx.index % 2 else "ignore")
        for name, fn in bad.items():
            disturb(rng)
            before = settings(name == "plot type")
            with contextlib.suppress(Exception):
                fn()
            compare(cx, before, settings(name == "plot type"), "a refused " + name)
            cx.event("operations")
        plt.close("all")


def rss():
    with open("/proc/self/statm") as fh:
        return int(fh.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


def workers(rng, size):
    """name -> (data, data -> result); the data are new in every call."""
    curve, _ = make.sn_curve(rng)
    paris, _ = make.paris_curve(rng)
    geo = InfiniteSurface(initial_depth=1.0)
    bins = dict(range_bin_lower_bound=0.2, range_bin_width=0.5, mean_bin_width=5.0)

    def signal_():
        return np.round(rng.normal(0, 20, size), 3)

    def rows():
        return pf.CycleCount(count_cycle=rng.choice([0.5, 1.0], size), mean_stress=rng.normal(0, 20, size),
                             stress_range=rng.uniform(1, 90, size), timestamp=gen.stamp(None, 1), name="a",
                             residuals_sequence=rng.normal(0, 30, size), **bins)

    def pair():
        one, two = rows(), rows()
        two.timestamp = gen.stamp(None, 3)
        return one, two

    def table(c):
        return pd.DataFrame({"CC_a": pd.Series([c, c * 2], dtype=object), "x": [1.0, 2.0]},
                            index=pd.date_range("2020-01-01", periods=2, freq="h"))

    def positive():
        return rng.uniform(1, 90, size)

    return {
        "rainflow": (signal_, lambda x: rf.rainflow(x, extended_output=True)),
        "turning points": (signal_, rf.findtp),
        "crossings": (signal_, lambda x: rf.findcross(x, 0.0)),
        "count": (signal_, lambda x: pf.CycleCount.from_timeseries(x, timestamp=gen.stamp(None, 1), **bins)),
        "binned": (signal_, ht.binned_rainflow),
        "views": (rows, lambda c: (c.full_cycles, c.half_cycles, c.statistical_moments, c.min_stress,
                                   c.max_stress, c.bin_edges)),
        "table": (rows, lambda c: c.to_df()),
        "export": (rows, lambda c: c.as_dict()),
        "import": (lambda: rows().as_dict(), pf.CycleCount.from_rainflow),
        "sum": (pair, lambda p: p[0] + p[1]),
        "scaled": (rows, lambda c: c * 2.0),
        "resolved": (rows, lambda c: c.solve_lffd()),
        "corrected": (rows, lambda c: c.mean_stress_correction("Walker", gamma=0.5)),
        "equality": (pair, lambda p: p[0] == p[1]),
        "walker": (positive, lambda a: msc.walker_mean_stress_correction(a, a, 0.5)),
        "cycles": (positive, curve.get_cycles),
        "stress": (positive, curve.get_stress),
        "growth rate": (positive, paris.get_growth_rate),
        "sif": (positive, lambda a: paris.get_sif(a * 1e-9)),
        "damage": (rows, lambda c: sl.get_pm(c, curve)),
        "accessor damage": (lambda: rows().to_df(), lambda t: t.miner.damage(curve)),
        "nonlinear": (rows, lambda c: sl.get_nonlinear_damage("leve", c, curve, base_exponent=1.0)),
        "equivalent": (rows, lambda c: (sl.get_des(c, 4.0), sl.get_dem(2.0, 1.0, c, 4.0))),
        "growth": (rows, lambda c: crack_growth.get_crack_growth(c * 0.01, paris, geo).crack_depth),
        "aggregated": (lambda: table(rows()), lambda t: aggregate_cc(t, "D")),
        "histogram": (positive, lambda a: ht.make_histogram(a, a[::-1], bins=5, weights=a)),
        "new S-N curve": (lambda: 3.0, lambda m: pf.SNCurve([m, m + 2], [12.0, 15.0])),
        "new Paris curve": (lambda: 3.0, lambda m: pf.ParisCurve(m, 1e-13, threshold=2.0, critical=900.0)),
        "new geometry": (lambda: 1.0, lambda a: HollowCylinder(
            initial_depth=a, outer_diameter=100.0, thickness=9.0, height=5.0, crack_position="external")),
        "plot": (rows, lambda c: c.plot_histogram("mean-range", bins=4, fig=Figure())[0].clear()),
        "residual plot": (rows, lambda c: c.plot_residuals_sequence(fig=Figure())[0].clear()),
        "curve": (positive, lambda a: pf.SNCurve(3.0, 12.0, color="#123456").get_cycles(a)),
    }


def repeated(cx):
    """One operation on new data, again and again."""
    rng = cx.rng
    size, calls = 4000, 40
    ops = workers(rng, size)
    name = list(ops)[cx.index % len(ops)]
    data, fn = ops[name]
    cx.note(operation=name, size=size, calls=calls)
    cx.key("repeated", name, cx.index)
    USED.add("repeated " + name)
    alive, held = [], []
    nbytes = 8 * size

    def call(watch):
        operand = data()
        res = fn(operand)
        if watch:
            for obj, where in ((operand, held), (res, alive)):
                for part in obj if isinstance(obj, (tuple, list)) else [obj]:
                    if isinstance(part, (np.ndarray, pf.CycleCount, pd.DataFrame, pf.SNCurve,
                                         pf.ParisCurve, HollowCylinder)):
                        where.append(weakref.ref(part))

    with own_directory(), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        for _ in range(3):
            call(False)
        disturb(rng)
        before = settings()
        gc.collect()
        fds = len(os.listdir("/proc/self/fd"))
        tracemalloc.start()
        try:
            call(False)
            gc.collect()
            first, rss_first = tracemalloc.get_traced_memory()[0], rss()
            for _ in range(calls):
                call(True)
            gc.collect()
            last, rss_last = tracemalloc.get_traced_memory()[0], rss()
        finally:
            tracemalloc.stop()
        fds_after = len(os.listdir("/proc/self/fd"))
        compare(cx, before, settings(), name)
    plt.close("all")
    cx.event("repeated_calls", calls)
    cx.event("bytes_processed", calls * nbytes)
    # a few results may be kept, a number that grows with the calls may not
    for refs, what in ((alive, "results"), (held, "operands")):
        left = sum(r() is not None for r in refs)
        cx.check(left <= max(3, len(refs) // 4), "kept", f"{name}: {left} of {len(refs)} {what} are "
                 "still alive")
        cx.event("results_released", len(refs) - left)
    cx.check(last - first < calls * nbytes / 4 + 100_000, "memory",
             f"{name}: {(last - first) / calls:.0f} bytes kept per call")
    cx.check(rss_last - rss_first < calls * nbytes / 2 + 64e6, "memory",
             f"{name}: the process grew by {(rss_last - rss_first) / 1e6:.1f} MB in {calls} calls")
    cx.check(fds_after <= fds + 2, "open-files", f"{name}: {fds_after - fds} more open files")
    cx.sample(operation=name, kept_per_call=(last - first) / calls)


def axes_given(cx):
    """Plots in given axes open no other figure."""
    rng = cx.rng
    cc = make.from_signal(rng, x=np.round(rng.normal(5, 20, 40), 2))
    curve, _ = make.sn_curve(rng)
    paris, _ = make.paris_curve(rng)
    cx.key("axes", make.rows(cc))
    plt.close("all")
    plots = {
        "histogram": lambda k: cc.plot_histogram("mean-range", bins=4, **k),
        "counts": lambda k: cc.plot_histogram("counts-range", **k),
        "residuals": lambda k: cc.plot_residuals_sequence(**k),
        "S-N": lambda k: curve.plot(**k),
        "Paris": lambda k: paris.plot(**k),
        "xy": lambda k: ht.xy_hist2d(cc.mean_stress, cc.stress_range, bins=4, **k),
    }
    with own_directory():
        for name, fn in plots.items():
            fig = Figure() if (cx.index + len(name)) % 4 == 1 else plt.figure()
            ax = fig.add_subplot()
            open_ = plt.get_fignums()
            disturb(rng)
            before = settings(True)
            given = {"fig": fig, "ax": ax}
            for part in ([], ["fig"], ["ax"])[(cx.index + len(name)) % 3]:
                del given[part]
            fn(given)
            cx.check(plt.get_fignums() == open_, "figures",
                     f"{name} plot in {sorted(given)}: figures {plt.get_fignums()} instead of {open_}")
            compare(cx, before, settings(True), name + " plot")
            plt.close("all")
            cx.event("operations")


WORKLOADS = [
    Workload("histories", histories, 40, 500),
    Workload("refusals", refusals, 8, 60),
    Workload("repeated", repeated, 64, 320),
    Workload("axes-given", axes_given, 12, 100),
]
