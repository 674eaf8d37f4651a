"""Crack growth cases and the step-by-step oracle, shared by C18, C19, C21 and C23."""
from __future__ import annotations

import math

import numpy as np

import py_fatigue as pf
from py_fatigue.geometry import HollowCylinder, InfiniteSurface

from pfmon import gen, ref

EPS = 1e-9


def cylinder(rng):
    """An externally cracked hollow cylinder, well defined up to the wall."""
    outer = float(10 ** rng.uniform(1.5, 4))
    wall = float(rng.uniform(0.02, 0.6))
    if rng.random() < 0.1:
        wall = float(1 - 10 ** rng.uniform(-1.8, -0.4))
    ratio = float(min(rng.uniform(1.0, 4.0), 1.4 / wall))
    if rng.random() < 0.25:  # deeper than half the width
        ratio = float(rng.uniform(0.2, 1.0))
    thickness = outer / 2 * wall
    return HollowCylinder(
        initial_depth=float(thickness * 10 ** rng.uniform(-2.3, -0.2)),
        outer_diameter=outer, thickness=thickness, height=float(outer * rng.uniform(0.5, 20)),
        crack_position="external", width_to_depth_ratio=ratio)


def geometry(rng, kind=None):
    kind = kind if kind is not None else int(rng.integers(0, 2))
    if kind == 0:
        return InfiniteSurface(initial_depth=float(10 ** rng.uniform(-2, 2)))
    return cylinder(rng)


def factor(geo, depth):
    """Reference geometry factor, None where it is not judged."""
    if isinstance(geo, InfiniteSurface):
        return 1.0
    if depth >= geo.thickness:
        return 0.0
    if not ref.section_judged(depth, geo.outer_diameter, geo.width_to_depth_ratio):
        return None
    return ref.net_section_factor(depth, geo.outer_diameter, geo.thickness,
                                  geo.width_to_depth_ratio)


def describe(geo):
    names = ("initial_depth", "outer_diameter", "thickness", "width_to_depth_ratio")
    return {n: getattr(geo, n) for n in names if hasattr(geo, n)}


def problem(rng, size, unit="MPa √mm", kind=None):
    """Geometry, curve and ranges chosen so that something happens.

    The ranges put the initial stress intensity around the middle of the
    curve; the intercepts are scaled for a visible growth per cycle.
    """
    geo = geometry(rng, kind)
    slope, inter, thr, crit = gen.paris_params(rng)
    knees = ref.paris_knees(slope, inter)
    some = (min(knees) if knees else crit if crit < np.inf else thr if thr > 0 else 100.0)
    lo = thr if thr > 0 else some / 20
    hi = crit if crit < np.inf else some * 20
    mid = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    y_0 = factor(geo, geo.initial_depth) or 1.0
    base = mid / (y_0 * math.sqrt(math.pi * geo.initial_depth))
    spread = float(rng.choice([0.0, 0.05, 0.3, 0.8]))
    stress = base * np.exp(rng.normal(0, 1, size) * spread)
    if rng.random() < 0.1:
        stress[rng.integers(0, size, max(1, size // 10))] = 0.0
    if rng.random() < 0.15:  # large and small ranges in turn
        stress[rng.random(size) < 0.5] *= float(10 ** rng.uniform(-4, -1))
    rate = ref.paris_rate(mid, slope, inter, 0.0, np.inf)
    pace = float(10 ** rng.uniform(-4, -0.7)) * geo.initial_depth
    if rng.random() < 0.1:
        pace = float(rng.uniform(5, 30)) * geo.initial_depth  # tenfold growth in one step
    fac = pace / rate
    inter = [c * fac for c in inter]
    curve = pf.ParisCurve(slope, inter, threshold=thr, critical=crit, unit_string=unit)
    return geo, curve, (slope, inter, thr, crit), stress


def count(stress, counts, unit="MPa", k=0, **kw):
    return pf.CycleCount(
        count_cycle=np.asarray(counts), stress_range=np.asarray(stress),
        mean_stress=np.zeros(len(stress)), timestamp=gen.stamp(None, k), unit=unit, name="a", **kw)


def judge_steps(cx, cg, stress, counts, geo, par, what=""):
    """Every reported step against Paris' law, and the end of the calculation."""
    slope, inter, thr, crit = par
    depth, sif, fac = (np.asarray(v, float) for v in (cg.crack_depth, cg.sif, cg.geometry_factor))
    size, n = len(stress), len(depth)
    cx.check(len(sif) == n and len(fac) == n and n <= size, "step-lengths",
             f"{what}: {n} depths, {len(sif)} stress intensities, {len(fac)} factors, {size} steps")
    cur = float(geo.initial_depth)
    for i in range(n):
        slack = 1e-8 * cur if i == 0 else 1e-8 * (cur - depth[i - 1]) + 4e-15 * cur
        cx.check(abs(depth[i] - cur) <= slack, "depth",
                 f"{what}: depth {depth[i]} at step {i}, Paris' law gives {cur}")
        cx.check(i == 0 or depth[i] >= depth[i - 1], "depth-decreases", f"{what}: step {i}")
        cur = depth[i]
        want = factor(geo, cur)
        if want is not None:
            near_wall = hasattr(geo, "thickness") and abs(cur - geo.thickness) < 1e-8 * geo.thickness
            cx.check(near_wall or abs(fac[i] - want) <= 1e-5 * abs(want), "factor",
                     f"{what}: factor {fac[i]} at depth {cur}, the net section has {want}")
        k = fac[i] * stress[i] * math.sqrt(math.pi * cur)
        cx.check(abs(sif[i] - k) <= 1e-9 * abs(k), "sif", f"{what}: {sif[i]} instead of {k} at step {i}")
        if want is not None:
            cx.check(want != 0 or near_wall, "wall-not-noticed", f"{what}: step {i}, depth {cur}")
        cx.check(k < crit * (1 + EPS), "critical-not-noticed", f"{what}: {k} at step {i}")
        nxt = advance(cur, k, counts[i], par, depth[i + 1] if i + 1 < n else None)
        cx.check(nxt <= 10 * cur * (1 + EPS), "tenfold-not-noticed",
                 f"{what}: {cur} grows to {nxt} at step {i}")
        if nxt > cur:
            cx.event("growing_steps")
        elif k < thr:
            cx.event("steps_below_threshold")
        cur = nxt
    cx.event("steps", n)
    total = math.fsum(counts[:n])
    cx.check(abs(cg.final_cycles - total) <= 1e-9 * max(total, 1), "final-cycles",
             f"{what}: {cg.final_cycles} cycles reported, {total} applied")
    cx.check(bool(cg.failure) == (n < size), "failure-flag",
             f"{what}: failure {cg.failure} after {n} of {size} steps")
    if n == size:
        cx.event("without_failure")
        return
    want = factor(geo, cur)
    reason = None
    if hasattr(geo, "thickness") and cur >= geo.thickness * (1 - EPS):
        reason = "wall"
    elif want is None:
        reason = "unjudged"
    else:
        k = want * stress[n] * math.sqrt(math.pi * cur)
        if k >= crit * (1 - 1e-5):
            reason = "critical"
        elif k >= thr * (1 - 1e-5):
            grown = cur + counts[n] * ref.paris_rate(max(k, thr), slope, inter, thr, np.inf)
            if grown > 10 * cur * (1 - 1e-4):
                reason = "tenfold"
    cx.check(reason is not None, "failure-without-reason",
             f"{what}: stopped at step {n} with depth {cur} of a range of {stress[n]}")
    cx.event("failed_" + reason)


def advance(cur, k, num, par, seen):
    """Next depth; at the threshold up to rounding, whichever was seen."""
    slope, inter, thr, crit = par
    grown = cur + num * ref.paris_rate(k, slope, inter, 0.0, np.inf)
    if thr > 0 and abs(k - thr) <= EPS * thr and seen is not None:
        return cur if abs(seen - cur) < abs(seen - grown) else grown
    return cur if k < thr else grown
