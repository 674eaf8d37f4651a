"""C26: equality of cycle counts and curves."""
import copy
import datetime as dt
import pickle

import numpy as np
import pandas as pd

import py_fatigue as pf

from pfmon import gen, make
from pfmon.core import Workload

RULE = (
    "A case is one object, compared with copies, with copies in which a single "
    "datum is changed, for each datum, and with foreign objects. Non-trivial: "
    "every case; distinct by the object's data."
)
REQUIRED_EVENTS = ["equal_pairs", "different_pairs", "foreign_objects", "without_residuals", "subclasses",
                   "last_bit", "pickled", "used_before", "exchanged", "sn_changes", "paris_changes"]
WORKERS = 3


def verdict(cx, a, b, want, what):
    for one, two, side in ((a, b, ""), (b, a, " reversed")):
        got, inv = one == two, one != two
        cx.check(isinstance(got, (bool, np.bool_)) and isinstance(inv, (bool, np.bool_)),
                 "no-truth-value", f"{what}{side}: {got!r}, {inv!r}")
        cx.check(bool(got) is want, "equality", f"{what}{side}: == gives {got}")
        cx.check(bool(inv) is (not want), "equality", f"{what}{side}: != gives {inv}")
    cx.event("equal_pairs" if want else "different_pairs")


def nudged(cx, rng, arr):
    """The array with one element changed, down to the last bit."""
    out = np.array(arr, float)
    k = int(rng.integers(0, len(out)))
    how = int(rng.integers(0, 4))
    if how == 0:
        out[k] = np.nextafter(out[k], np.inf)
        cx.event("last_bit")
    elif how == 1:
        out[k] = out[k] * (1 + 1e-6) + 1e-9
    elif how == 2:
        out[k] = out[k] + 1.0
    else:
        out[k] = -out[k] if out[k] else 5.0
    return out


def changes(cx, rng, cc):
    """(name, changed copy) for every public datum."""
    def with_(**kw):
        new = copy.deepcopy(cc)
        for key, val in kw.items():
            if key in ("min_max_sequence", "time_sequence"):  # arguments of the constructor only
                key = "_" + key
            setattr(new, key, val)
        return new

    for name in ("count_cycle", "stress_range", "mean_stress", "residuals_sequence",
                 "min_max_sequence"):
        old = getattr(cc, name)
        if name == "min_max_sequence" and not hasattr(cc, "_" + name):
            continue
        if old is not None and len(old):
            yield name, with_(**{name: nudged(cx, rng, old)})
            if len(old) > 1 and name in ("residuals_sequence", "min_max_sequence"):
                yield name + " cut", with_(**{name: np.array(old)[:-1]})
            pair = np.flatnonzero(np.asarray(old) != old[0])
            if len(pair):
                new = np.array(old)
                k = int(rng.choice(pair))
                new[[0, k]] = new[[k, 0]]
                yield name + " exchanged", with_(**{name: new})
                cx.event("exchanged")
    rows = make.rows(cc)
    if len(rows) > 1:
        yield "rows cut", with_(count_cycle=rows[:-1, 2], stress_range=rows[:-1, 0],
                                mean_stress=rows[:-1, 1])
    old = cc.residuals_sequence
    if old is not None and len(old):
        yield "residuals missing", with_(residuals_sequence=None)
        yield "residuals empty", with_(residuals_sequence=np.empty(0))
        cx.event("without_residuals")
    for name in ("range_bin_lower_bound", "range_bin_width", "mean_bin_width", "mean_bin_lower_bound",
                 "nr_small_cycles", "stress_concentration_factor"):
        old = getattr(cc, name)
        yield name, with_(**{name: 7.25 if old is None else float(old) + 0.125})
    yield "unit", with_(unit=cc.unit + "2")
    yield "name", with_(name=(cc.name or "") + "x")
    yield "name with space", with_(name=(cc.name or "") + " ")
    yield "name in other case", with_(name=(cc.name or "").swapcase() + ("x" if not (cc.name or "1").upper() != (cc.name or "1").lower() else ""))
    yield "unit with space", with_(unit=cc.unit + " ")
    yield "unit in other case", with_(unit=cc.unit.swapcase())
    yield "correction in other case", with_(mean_stress_corrected=cc.mean_stress_corrected.swapcase())
    yield "no name", with_(name=None if cc.name is not None else "y")
    yield "lffd_solved", with_(lffd_solved=not cc.lffd_solved)
    yield "mean_stress_corrected", with_(mean_stress_corrected=cc.mean_stress_corrected + ", yes")
    yield "timestamp", with_(timestamp=cc.timestamp + dt.timedelta(microseconds=int(rng.integers(1, 10 ** 9))))
    old = cc.time_sequence
    if old is not None and hasattr(cc, "_time_sequence"):
        arr = np.atleast_1d(np.array(old, dtype=object)).copy()
        arr[-1] = arr[-1] + dt.timedelta(seconds=1)
        yield "time_sequence", with_(time_sequence=arr if np.ndim(old) else np.asarray(arr[0]))


FOREIGN = [None, 0, 1.5, "a", b"a", np.nan, (), [], {}, {"unit": "MPa"}, np.arange(3.0),
           np.array(1.0), pd.DataFrame({"a": [1]}), pd.Series([1.0]), object(), pf.CycleCount, Ellipsis]


def of_subclass(cx, one):
    """An object of a subclass: the same answer from both sides."""
    sub = copy.deepcopy(one)
    sub.__class__ = type("Mine", (type(one),), {})
    there, back = one == sub, sub == one
    cx.check(isinstance(there, (bool, np.bool_)) and isinstance(back, (bool, np.bool_))
             and bool(there) == bool(back) == (not one != sub) == (not sub != one), "symmetry",
             f"with a subclass {there!r}, from the other side {back!r}")
    cx.event("subclasses")


def counts(cx):
    rng = cx.rng
    cc, route = make.anyhow(rng, unit=str(rng.choice(gen.UNITS)))
    if rng.random() < 0.1:
        cc = copy.deepcopy(cc)
        cc.residuals_sequence = None
        cx.event("without_residuals")
    cx.note(route=route, rows=make.rows(cc))
    cx.key(make.rows(cc), cc.unit, str(cc.timestamp))
    twin = copy.deepcopy(cc)
    verdict(cx, cc, cc, True, "itself")
    verdict(cx, cc, twin, True, "copy")
    verdict(cx, cc, copy.copy(cc), True, "shallow copy")
    verdict(cx, cc, pickle.loads(pickle.dumps(cc)), True, "pickled")
    cx.event("pickled")
    for what, new in changes(cx, rng, cc):
        if "mean_stress" == what and np.array_equal(new.mean_stress, cc.mean_stress):
            continue
        verdict(cx, cc, new, False, what)
    other, _ = make.anyhow(rng, 3)
    if not np.array_equal(make.rows(other), make.rows(cc)):
        verdict(cx, cc, other, False, "another count")
    for obj in FOREIGN + [cc.to_df(), [cc], {"a": cc}, cc.unit, cc.stress_range]:
        got = cc == obj
        cx.check(isinstance(got, (bool, np.bool_)) and not got, "foreign", f"{type(obj)}: {got!r}")
        inv = cc != obj
        cx.check(isinstance(inv, (bool, np.bool_)) and bool(inv), "foreign", f"{type(obj)}: {inv!r}")
        cx.event("foreign_objects")
    of_subclass(cx, cc)
    use(cc)
    verdict(cx, cc, twin, True, "after use")
    cx.event("used_before")
    cx.sample(route=route, rows=make.rows(cc)[:3])


def use(cc):
    str(cc)
    cc.to_df()
    _ = cc.full_cycles, cc.residuals, cc.statistical_moments
    if np.max(cc.stress_range) < 1e5 * cc.range_bin_width and np.ptp(cc.mean_stress) < 1e5:
        cc.as_dict()


def rebuilt(cx):
    """Two counts of the same data."""
    rng = cx.rng
    x, _ = gen.signal(rng)
    kw = dict(timestamp=gen.stamp(rng, 1), name="a", unit="MPa", **gen.bins(rng))
    cx.note(signal=x)
    cx.key(x)
    one = pf.CycleCount.from_timeseries(x, **kw)
    verdict(cx, one, pf.CycleCount.from_timeseries(np.array(x), **kw), True, "counted twice")
    rows = make.rows(one)
    if len(rows) > 1 and np.any(rows[0] != rows[-1]):
        y = np.array(x, float)
        y[int(np.argmax(y))] += 1.0 + np.ptp(y)
        verdict(cx, one, pf.CycleCount.from_timeseries(y, **kw), False, "another signal")


def curve_case(cx, make_one, par, event):
    rng = cx.rng
    base = dict(par, environment="Air", curve="B1", norm="DNV", color="#123456",
                unit_string=str(rng.choice(gen.UNITS)))
    cx.note(parameters=base)
    cx.key(repr(base))
    one = make_one(**base)

    def fresh(**kw):
        new = make_one(**{**base, **kw})
        new.id = one.id  # every new curve has an identification of its own
        return new

    verdict(cx, one, one, True, "itself")
    verdict(cx, one, fresh(), True, "same parameters and identification")
    verdict(cx, one, copy.deepcopy(one), True, "copy")
    verdict(cx, one, pickle.loads(pickle.dumps(one)), True, "pickled")
    cx.event("pickled")
    for key, val in base.items():
        if key == "color":
            continue
        if isinstance(val, list):
            new = val[:]
            k = int(rng.integers(0, len(new)))
            new[k] = float(np.nextafter(new[k], np.inf)) if rng.random() < 0.4 else new[k] * (1 + 1e-7)
        elif isinstance(val, str):
            new = val + "2"
        else:
            new = 1e12 if val in (0.0, np.inf) and key != "threshold" else 1e-6 if val == 0 else val * (1 + 1e-9)
        verdict(cx, one, fresh(**{key: new}), False, key)
        if isinstance(val, str):
            verdict(cx, one, fresh(**{key: val + " "}), False, key + " with space")
            if val.swapcase() != val:
                verdict(cx, one, fresh(**{key: val.swapcase()}), False, key + " in other case")
        cx.event(event)
    of_subclass(cx, one)
    if len(base["slope"]) > 1:
        for key in ("slope", "intercept"):
            if base[key][0] == base[key][-1]:
                continue
            new = [base[key][-1]] + base[key][1:-1] + [base[key][0]]
            try:
                changed = fresh(**{key: new})
            except ValueError:  # no such curve
                continue
            verdict(cx, one, changed, False, key + " exchanged")
            cx.event("curve_values_exchanged")
        try:
            changed = fresh(slope=base["slope"][:-1], intercept=base["intercept"][:-1])
        except ValueError:
            pass
        else:
            verdict(cx, one, changed, False, "one branch less")
    other = pf.SNCurve(3.0, 12.0) if event == "paris_changes" else pf.ParisCurve(3.0, 1e-11)
    for obj in FOREIGN + [other, [one], one.name, one.slope]:
        got, inv = one == obj, one != obj
        cx.check(isinstance(got, (bool, np.bool_)) and not got, "foreign", f"{type(obj)}: {got!r}")
        cx.check(isinstance(inv, (bool, np.bool_)) and bool(inv), "foreign", f"{type(obj)}: {inv!r}")
        cx.event("foreign_objects")
    return one


def sn_curves(cx):
    slope, inter, end = gen.sn_params(cx.rng)
    one = curve_case(cx, lambda **kw: pf.SNCurve(**kw), dict(slope=slope, intercept=inter, endurance=end),
                     "sn_changes")
    twin = copy.deepcopy(one)
    one.get_cycles([10.0, 100.0])
    one.get_knee_cycles()
    verdict(cx, one, twin, True, "after use")


def paris_curves(cx):
    slope, inter, thr, crit = gen.paris_params(cx.rng)
    one = curve_case(cx, lambda **kw: pf.ParisCurve(**kw),
                     dict(slope=slope, intercept=inter, threshold=thr, critical=crit), "paris_changes")
    twin = copy.deepcopy(one)
    one.get_growth_rate([10.0, 100.0])
    one.get_knee_sif()
    verdict(cx, one, twin, True, "after use")


WORKLOADS = [
    Workload("counts", counts, 200, 3000),
    Workload("rebuilt", rebuilt, 80, 900),
    Workload("sn", sn_curves, 80, 900),
    Workload("paris", paris_curves, 80, 900),
]
