"""Snapshots of operands and results, and the operand monitor."""
from __future__ import annotations

import random

import numpy as np
import pandas as pd

import py_fatigue as pf
from py_fatigue.damage import crack_growth
from py_fatigue.geometry import AbstractCrackGeometry
from py_fatigue.utils import FatigueStress

from pfmon import make

SN_NAMES = ("slope", "intercept", "endurance", "endurance_stress", "linear", "unit", "name",
            "norm", "environment", "curve", "color")
PARIS_NAMES = ("slope", "intercept", "threshold", "critical", "linear", "unit", "name", "norm",
               "environment", "curve", "color")
GEO_NAMES = ("initial_depth", "outer_diameter", "thickness", "height", "crack_position",
             "width_to_depth_ratio", "diameter")
CalcCrackGrowth = getattr(crack_growth, "CalcCrackGrowth", ())
GROWTH_NAMES = ("crack_depth", "sif", "geometry_factor", "final_cycles", "failure", "stress_range",
                "count_cycle", "slope", "intercept", "threshold", "critical")
STRESS_NAMES = ("counts", "values", "bin_lb", "bin_ub", "bin_width", "bin_edges", "bin_centers",
                "full", "half")


def snap(obj):
    """A comparable copy of the public content of an object."""
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ("objects", obj.shape, tuple(snap(v) for v in obj.ravel()))
        return ("array", obj.dtype.str, obj.shape, obj.flags.writeable,
                np.ascontiguousarray(obj).tobytes())
    if isinstance(obj, np.generic):
        return ("number", snap(np.asarray(obj)))
    if isinstance(obj, pd.DataFrame):
        meta = getattr(obj, "_metadata", None)
        return ("table", tuple(map(str, obj.columns)), snap(obj.index),
                tuple(snap(obj[c].values) for c in obj), snap(obj.attrs),
                snap(meta) if isinstance(meta, dict) else None)
    if isinstance(obj, (pd.Series, pd.Index)):
        return ("series", str(obj.dtype), str(obj.name), snap(np.asarray(obj)),
                snap(obj.index) if isinstance(obj, pd.Series) else None)
    if isinstance(obj, pf.CycleCount):
        return ("count", tuple((k, snap(v)) for k, v in make.fields(obj).items()))
    if isinstance(obj, pf.SNCurve):
        return ("sn", tuple(snap(getattr(obj, n)) for n in SN_NAMES))
    if isinstance(obj, pf.ParisCurve):
        return ("paris", tuple(snap(getattr(obj, n)) for n in PARIS_NAMES))
    if isinstance(obj, AbstractCrackGeometry):
        return ("geometry", tuple(snap(getattr(obj, n, None)) for n in GEO_NAMES))
    if isinstance(obj, CalcCrackGrowth):
        return ("growth", tuple(snap(getattr(obj, n)) for n in GROWTH_NAMES),
                snap({str(k): float(v) for k, v in sorted(obj.crack_geometry.items())}))
    if isinstance(obj, FatigueStress):
        return (type(obj).__name__, tuple(snap(getattr(obj, n, None)) for n in STRESS_NAMES))
    if isinstance(obj, dict):
        return ("dict", tuple((repr(k), snap(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(snap(v) for v in obj))
    if isinstance(obj, float):
        return ("float", repr(obj))
    return (type(obj).__name__, repr(obj))


def random_state():
    state = np.random.get_state()
    return (random.getstate(), state[0], state[1].tobytes(), state[2:])


def without(frame, cols):
    """The content of a table except some columns."""
    return (snap(frame[[c for c in frame.columns if c not in cols]]), snap(frame.attrs),
            snap(getattr(frame, "_metadata", None)))


class Pool:
    """Named objects alive during a history, with their last snapshots."""

    def __init__(self, cx):
        self.cx = cx
        self.objs, self.snaps, self.kinds = {}, {}, {}

    def add(self, kind, obj):
        name = f"{kind}{len(self.objs)}"
        self.objs[name], self.kinds[name] = obj, kind
        self.snaps[name] = snap(obj)
        return name

    def pick(self, kind):
        names = [n for n, k in self.kinds.items() if k == kind]
        return str(self.cx.rng.choice(names)) if names else None

    def watch(self, what, fn, allow=()):
        """Run fn; nothing in the pool may change (``allow``: tables and the
        columns that may be added to them)."""
        state = random_state()
        allow = dict(allow)
        rest = {name: without(self.objs[name], cols) for name, cols in allow.items()}
        try:
            res, err = fn(), None
        except (TypeError, ValueError, AssertionError, AttributeError, KeyError, IndexError) as exc:
            res, err = None, type(exc).__name__
        self.cx.check(random_state() == state, "random-state", f"{what} changed the random state")
        for name, obj in self.objs.items():
            new = snap(obj)
            if new == self.snaps[name]:
                continue
            if name in allow:
                self.cx.check(without(obj, allow[name]) == rest[name], "operand-changed",
                              f"{what} changed the rows of {name}")
                self.cx.event("columns_added")
                self.snaps[name] = new
                continue
            self.cx.check(False, "operand-changed", f"{what} changed {name}",
                          before=repr(self.snaps[name])[:600], after=repr(new)[:600])
        self.cx.event("operations")
        self.cx.event("operands_compared", len(self.objs))
        self.cx.check(True, "operand-changed")
        return res, err
