"""C29: copies and pickles are faithful, independent and usable elsewhere."""
import copy
import multiprocessing
import os
import pickle
from concurrent.futures import ProcessPoolExecutor

import numpy as np

import py_fatigue as pf
from py_fatigue.damage import crack_growth, stress_life as sl
from py_fatigue.geometry import HollowCylinder

from pfmon import crack, gen, make
from pfmon.checks.c28 import agree, plain
from pfmon.core import Workload
from pfmon.observe import GEO_NAMES, PARIS_NAMES, SN_NAMES, snap

RULE = (
    "A case is one object (or a container of objects) and its shallow and deep copies, "
    "its pickles by every protocol, and for some its pickle evaluated in another "
    "process. Non-trivial: every case; distinct by the object's data."
)
REQUIRED_EVENTS = ["copies", "deep_copies", "pickles", "other_process", "overwritten_arrays",
                   "reassignments_refused", "shared_parts", "copies_of_copies", "tables"]
WORKERS = 2
POOL = {}


# --- evaluation, here and in another process -----------------------------------
def evaluate_count(cc):
    out = {"fields": make.fields(cc), "views": (cc.full_cycles, cc.residuals, cc.statistical_moments,
                                                cc.stress_amplitude, cc.max_stress),
           "scaled": make.fields(cc * 1.7), "solved": make.fields(cc.solve_lffd()),
           "table": cc.to_df(), "des": sl.get_des(cc, 4.0), "text": str(cc)}
    if np.max(cc.stress_range) < 1e4 * cc.range_bin_width and np.ptp(cc.mean_stress) < 1e4:
        out["export"], out["edges"] = cc.as_dict(), cc.bin_edges
    return out


def evaluate_sn(sn):
    arr = np.array([0.0, 1.0, 3.5, 40.0, 90.0, 500.0])
    return {"data": tuple(getattr(sn, n) for n in SN_NAMES), "cycles": sn.get_cycles(arr),
            "stress": sn.get_stress(10.0 ** np.arange(2, 12)), "knees": sn.get_knee_cycles(),
            "knee stress": sn.get_knee_stress(), "text": str(sn), "id": sn.id}


def evaluate_paris(pc):
    arr = 10.0 ** np.linspace(-1, 4, 30)
    rate = pc.get_growth_rate(arr)
    return {"data": tuple(getattr(pc, n) for n in PARIS_NAMES), "rate": rate,
            "sif": pc.get_sif(10.0 ** np.linspace(-14, -2, 20)), "knees": pc.get_knee_sif(),
            "text": str(pc), "id": pc.id}


def evaluate_geometry(geo):
    cnt = crack.count(np.array([10.0, 40.0, 25.0]), np.ones(3))
    res = crack_growth.get_crack_growth(cnt, pf.ParisCurve([3.0], [1e-13]), geo)
    return {"data": tuple(getattr(geo, n, None) for n in GEO_NAMES), "depth": np.array(res.crack_depth),
            "factor": np.array(res.geometry_factor), "text": str(geo)}


EVALUATE = {"count": evaluate_count, "sn": evaluate_sn, "paris": evaluate_paris,
            "geometry": evaluate_geometry}


def elsewhere(kind, data):
    """Runs in the other process."""
    import warnings
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        obj = pickle.loads(data)
        return os.getpid(), plain(EVALUATE[kind](obj)), pickle.dumps(obj)


def prepare():
    POOL["pool"] = ProcessPoolExecutor(1, mp_context=multiprocessing.get_context("spawn"))


def export():
    POOL["pool"].shutdown()


# --- the cases ----------------------------------------------------------------------
def copies(cx, obj):
    """(name, copy, independent)."""
    yield "copy", copy.copy(obj), False
    cx.event("copies")
    deep = copy.deepcopy(obj)
    second = pickle.loads(pickle.dumps(deep))
    yield "deep copy", deep, True
    cx.event("deep_copies")
    for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1):
        yield f"pickle {protocol}", pickle.loads(pickle.dumps(obj, protocol)), True
        cx.event("pickles")
    yield "pickled deep copy", second, True
    yield "copy of the pickle", copy.deepcopy(pickle.loads(pickle.dumps(obj))), True
    cx.event("copies_of_copies", 2)


def arrays_of(obj):
    names = make.FIELDS if isinstance(obj, pf.CycleCount) else ("slope", "intercept")
    out = []
    for name in names:
        arr = getattr(obj, name, None)
        if isinstance(arr, np.ndarray) and arr.dtype.kind == "f" and arr.size and arr.flags.writeable:
            out.append(arr)
    return out


def judge(cx, kind, obj):
    evaluate = EVALUATE[kind]
    want, before = plain(evaluate(obj)), snap(obj)
    for name, new, independent in copies(cx, obj):
        cx.check(type(new) is type(obj) and new is not obj, "copy-type", f"{name}: {type(new)}")
        cx.check(new == obj and obj == new, "copy-unequal", f"{name} does not equal the original")
        got = plain(evaluate(new))
        for (key, one), (_, two) in zip(sorted(dict(got).items()), sorted(dict(want).items())):
            cx.check(agree(one, two), "copy-differs", f"{name}: {key}", got=one, want=two)
        cx.check(len(got) == len(want), "copy-differs", f"{name}: {got}")
        if kind in ("sn", "paris"):
            for attr in ("slope", "intercept", "unit"):
                cx.raises(AttributeError, lambda a=attr, c=new: setattr(c, a, getattr(obj, a)),
                          "copy-reassigned", f"{name}: {attr}")
            cx.event("reassignments_refused", 3)
        if independent:
            # overwriting the copy's arrays does not reach the original
            for arr in arrays_of(new):
                arr[...] = arr * 0.5 + 1.25
                cx.event("overwritten_arrays")
            cx.check(snap(obj) == before, "copy-shares-data",
                     f"changing the {name} changed the original")
    again = plain(evaluate(obj))
    cx.check(agree(again, want), "original-changed", "the original evaluates differently after copying")


def in_other_process(cx, kind, obj):
    want = plain(EVALUATE[kind](obj))
    pid, got, back = POOL["pool"].submit(elsewhere, kind, pickle.dumps(obj)).result(200)
    cx.check(pid != os.getpid(), "same-process")
    for (key, one), (_, two) in zip(sorted(dict(got).items()), sorted(dict(want).items())):
        cx.check(agree(one, two), "other-process", f"{key} in another process", got=one, want=two)
    cx.check(pickle.loads(back) == obj, "other-process", "does not come back equal")
    cx.event("other_process")


def counts(cx):
    rng = cx.rng
    cc, route = make.anyhow(rng, unit=str(rng.choice(gen.UNITS)), tz=bool(rng.random() < 0.7))
    if rng.random() < 0.2:
        cc = (cc * 1.5) if cc.stress_concentration_factor == 1.0 else cc
    cx.note(route=route, rows=make.rows(cc), unit=cc.unit)
    cx.key(make.rows(cc), cc.unit, str(cc.timestamp))
    judge(cx, "count", cc)
    if cx.index % 5 == 0:
        in_other_process(cx, "count", cc)
    # tables by pickle keep rows and description
    table = cc.to_df()
    new = pickle.loads(pickle.dumps(table))
    cx.check(snap(new) == snap(table), "table-pickle", "table")
    cx.event("tables")
    cx.sample(route=route, rows=make.rows(cc)[:2])


def curves(cx):
    rng = cx.rng
    unit = str(rng.choice(gen.UNITS))
    names = dict(norm=str(rng.choice(["DNV", "EN"])), curve="B1", environment=None) \
        if rng.random() < 0.5 else {}
    if cx.index % 2:
        obj, par = make.sn_curve(rng, unit=unit, **names)
        kind = "sn"
    else:
        obj, par = make.paris_curve(rng, unit=unit + " √mm", **names)
        kind = "paris"
    cx.note(parameters=par, unit=unit)
    cx.key(kind, repr(par), unit)
    judge(cx, kind, obj)
    if cx.index % 5 == 0:
        in_other_process(cx, kind, obj)


def geometries(cx):
    rng = cx.rng
    geo = crack.geometry(rng, cx.index % 2)
    cx.note(geometry=crack.describe(geo))
    cx.key(repr(crack.describe(geo)))
    judge(cx, "geometry", geo)
    if isinstance(geo, HollowCylinder):
        cx.raises((ValueError, TypeError), lambda: HollowCylinder(
            **{**{n: getattr(geo, n) for n in GEO_NAMES[:6]}, "thickness": geo.outer_diameter}),
            "invalid-geometry", "wall of the diameter")
    if cx.index % 6 == 0:
        in_other_process(cx, "geometry", geo)


def containers(cx):
    """Objects copied together keep what they share."""
    rng = cx.rng
    one = make.from_signal(rng, 0)
    sn, _ = make.sn_curve(rng)
    box = {"first": one, "again": one, "sn": [sn, sn], "other": make.from_signal(rng, 1)}
    cx.note(rows=make.rows(one))
    cx.key(make.rows(one), make.rows(box["other"]))
    for name, new in (("deep copy", copy.deepcopy(box)), ("pickle", pickle.loads(pickle.dumps(box)))):
        cx.check(new["first"] is new["again"] and new["sn"][0] is new["sn"][1]
                 and new["first"] is not one, "copy-sharing", name)
        cx.event("shared_parts", 2)
        for key in ("first", "other"):
            bad = make.same_fields(make.fields(new[key]), make.fields(box[key]))
            cx.check(not bad, "copy-differs", f"{name}: {key} {bad}")
        if box["first"].unit == sn.unit:
            cx.close(sl.get_pm(new["first"], new["sn"][0]), sl.get_pm(one, sn), "copy-damage", name,
                     rtol=1e-12)
        total = new["first"] + new["other"]
        bad = make.same_fields(make.fields(total), make.fields(one + box["other"]))
        cx.check(not bad, "copy-differs", f"{name}: sum {bad}")


WORKLOADS = [
    Workload("counts", counts, 150, 2500),
    Workload("curves", curves, 120, 1500),
    Workload("geometries", geometries, 40, 400),
    Workload("containers", containers, 60, 800),
]
