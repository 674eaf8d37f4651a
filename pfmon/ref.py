"""Independent reference models.

Nothing here imports or resembles the code under test: the reversals come from
runs of equal samples, the counting is the list form of the ASTM E1049 rules,
the damage sums are plain Python.
"""
from __future__ import annotations

import functools
import math

import numpy as np


# --- signals ----------------------------------------------------------------
def runs(x):
    """Collapse runs of equal samples: values, first and last positions."""
    x = np.asarray(x)
    if x.dtype == bool:
        x = x.astype(int)
    x = x.astype(float)
    start = np.flatnonzero(np.r_[True, x[1:] != x[:-1]])
    end = np.r_[start[1:] - 1, len(x) - 1]
    return x[start], start, end


def reversals(x):
    """Indices (into runs) of the reversals of a signal, end points included."""
    val, start, end = runs(x)
    if len(val) < 2:
        return val, start, end, []
    up = val[1:] > val[:-1]
    inner = np.flatnonzero(up[1:] != up[:-1]) + 1
    return val, start, end, [0, *inner.tolist(), len(val) - 1]


def astm(points):
    """ASTM E1049-85 5.4.4 on a list of reversal values.

    Returns [(i, j, weight)]: the pair of points (positions in the list) and
    1 for a full cycle, 0.5 for a half cycle.
    """
    out = []
    left = []  # positions of the points not discarded yet
    pos = 0
    while True:
        if len(left) < 3:
            if pos == len(points):
                break
            left.append(pos)
            pos += 1
            continue
        a, b, c = left[-3:]
        rng_y = abs(points[b] - points[a])
        rng_x = abs(points[c] - points[b])
        if rng_x < rng_y:
            if pos == len(points):
                break
            left.append(pos)
            pos += 1
        elif len(left) == 3:  # Y contains the starting point
            out.append((a, b, 0.5))
            left.pop(0)
        else:
            out.append((a, b, 1.0))
            del left[-3:-1]
    for a, b in zip(left, left[1:]):
        out.append((a, b, 0.5))
    return out


def count(x):
    """Rainflow count of a signal.

    Returns rows [(range, mean, weight, run of begin, run of end)] and the
    residual as a list of runs.
    """
    val, start, end, rev = reversals(x)
    pts = [val[i] for i in rev]
    rows = [
        (abs(pts[b] - pts[a]), (pts[a] + pts[b]) / 2, w, rev[a], rev[b])
        for a, b, w in astm(pts)
    ]
    res = sorted(r[3] for r in rows if r[2] == 0.5)
    if rev:
        res.append(rev[-1])
    return rows, res, (val, start, end)


def rmw(rows):
    """(range, mean, weight) array of reference rows."""
    return np.array([r[:3] for r in rows], dtype=float).reshape(-1, 3)


def total_variation(x):
    return math.fsum(abs(b - a) for a, b in zip(x, x[1:]))


def crossings(x, level):
    """[(position, +1|-1)] of level crossings."""
    out = []
    side = 0
    for i, val in enumerate(x):
        now = (val > level) - (val < level)
        if now == 0:
            continue
        if side == 0:
            if i > 0:  # started exactly on the level
                out.append((i - 1, now))
        elif now != side:
            out.append((i - 1, now))
        side = now
    return out


# --- comparisons --------------------------------------------------------------
def same_multiset(a, b, atol):
    """Match the rows of two arrays within atol, whatever their order."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    sa = a[np.lexsort(a.T[::-1])]
    sb = b[np.lexsort(b.T[::-1])]
    if np.all(np.abs(sa - sb) <= atol):
        return True
    # rows that are equal up to rounding may be sorted differently
    qa = np.round(a / (np.asarray(atol) * 1e3 + 1e-300))
    qb = np.round(b / (np.asarray(atol) * 1e3 + 1e-300))
    oa, ob = np.lexsort(qa.T[::-1]), np.lexsort(qb.T[::-1])
    if np.all(np.abs(a[oa] - b[ob]) <= atol):
        return True
    return _greedy(sa, sb, atol)


def _greedy(a, b, atol):
    atol = np.broadcast_to(np.asarray(atol, float), a.shape)
    used = np.zeros(len(b), bool)
    order = np.argsort(b[:, 0], kind="stable")
    key = b[order, 0]
    for row, tol in zip(a, atol):
        lo = np.searchsorted(key, row[0] - tol[0] * 1.01)
        hi = np.searchsorted(key, row[0] + tol[0] * 1.01, side="right")
        for k in order[lo:hi]:
            if not used[k] and np.all(np.abs(b[k] - row) <= tol):
                used[k] = True
                break
        else:
            return False
    return True


# --- material ---------------------------------------------------------------
def sn_cycles(stress, slope, intercept, endurance):
    """Largest of 10**a * S**-m, infinite beyond the endurance."""
    if stress == 0:
        return math.inf
    best = max(a - m * math.log10(stress) for m, a in zip(slope, intercept))
    if best > 308.2:
        return math.inf
    num = 10.0 ** best
    return math.inf if num > endurance else num


def sn_stress(cycles, slope, intercept, endurance):
    best = max((a - math.log10(cycles)) / m for m, a in zip(slope, intercept))
    val = 10.0 ** best
    if endurance < math.inf:
        low = 10.0 ** ((intercept[-1] - math.log10(endurance)) / slope[-1])
        val = max(val, low)
    return val


def sn_knees(slope, intercept):
    """[(stress, cycles)] where consecutive branches meet."""
    out = []
    for (m_0, a_0), (m_1, a_1) in zip(
            zip(slope, intercept), zip(slope[1:], intercept[1:])):
        log_s = (a_1 - a_0) / (m_1 - m_0)
        out.append((10.0 ** log_s, 10.0 ** (a_0 - m_0 * log_s)))
    return out


def paris_knees(slope, intercept):
    out = []
    for (m_0, c_0), (m_1, c_1) in zip(
            zip(slope, intercept), zip(slope[1:], intercept[1:])):
        log_k = (math.log10(c_0) - math.log10(c_1)) / (m_1 - m_0)
        out.append(10.0 ** log_k)
    return out


def paris_rate(sif, slope, intercept, threshold, critical):
    if sif < threshold:
        return 0.0
    if sif > critical:
        return math.inf
    if sif == 0:
        return 0.0
    seg = sum(sif >= k for k in paris_knees(slope, intercept))
    return intercept[seg] * sif ** slope[seg]


def pm_damage(stress, counts, slope, intercept, endurance):
    out = []
    for s, n in zip(stress, counts):
        life = sn_cycles(float(s), slope, intercept, endurance)
        out.append(0.0 if life == math.inf else float(n) / life)
    return out


def nonlinear(rule, stress, counts, slope, intercept, endurance,
              base_exponent=None, ultimate=None):
    """Block recurrence D <- (D + n/N)^e."""
    lives = [sn_cycles(float(s), slope, intercept, endurance) for s in stress]
    total = 0.0
    size = len(lives)
    for j in range(size):
        if rule == "leve":
            exp = base_exponent
        elif j == size - 1:
            exp = 1.0
        elif rule.startswith("manson"):
            exp = (lives[j] / lives[j + 1]) ** base_exponent
        elif rule == "pavlou":
            exp = ((stress[j + 1] / 2 / ultimate) ** base_exponent
                   / (stress[j] / 2 / ultimate) ** base_exponent)
        else:
            exp = stress[j + 1] / stress[j]
        try:
            total = (total + counts[j] / lives[j]) ** exp
        except OverflowError:
            total = math.inf
    return total


# --- mean stress -------------------------------------------------------------
def dnvgl(mean, amp, p):
    hi, lo = mean + amp, mean - amp
    if lo > 0:
        f_m = 1.0
    else:
        f_m = (hi + p * abs(lo)) / (hi + abs(lo))
        f_m = min(f_m, 1.0)
        if f_m < p:
            f_m = p if p == 0.8 else 0.0
    return 2 * amp * f_m


def walker(mean, amp, gamma):
    hi = mean + amp
    if hi <= 0:
        return 0.0
    return hi ** (1 - gamma) * amp ** gamma


# --- geometry ------------------------------------------------------------------
def crack_section(depth, r_o, ratio):
    """Circles bounding the crack: half-angle, chord, radius and centre."""
    alpha = depth * ratio / r_o
    c_v = r_o * math.sin(alpha)
    a_h = depth - r_o * (1 - math.cos(alpha))
    r_e = (c_v ** 2 + a_h ** 2) / (2 * a_h)
    return alpha, c_v, a_h, r_e


def section_judged(depth, outer_diameter, ratio):
    """Whether the lens is well defined and the closed formulas well conditioned."""
    r_o = outer_diameter / 2
    alpha, _, a_h, _ = crack_section(depth, r_o, ratio)
    return alpha < 1.5 and 1e-3 * r_o * min(1, alpha) < abs(a_h)


def _segment(centre, radius, start, nodes):
    """Area and first two moments, about x = 0, of the part of a circle between
    the chord x = start and the end centre + radius, by Gauss integration."""
    gauss, weight = _gauss(nodes)
    half = math.acos(max(-1.0, min(1.0, (start - centre) / radius)))
    phi = (gauss + 1) / 2 * half
    x = centre + radius * np.cos(phi)
    elem = weight * half / 2 * 2 * abs(radius) * radius * np.sin(phi) ** 2
    return np.array([np.sum(elem), np.sum(elem * x), np.sum(elem * x * x)])


def net_section_factor(depth, outer_diameter, thickness, ratio, nodes=200):
    """Bending net-section factor of a ring minus an external crack.

    Area, centroid and inertia come from Gauss integration of the crack's
    width, not from closed formulas.
    """
    r_o = outer_diameter / 2
    r_i = r_o - thickness
    if depth >= thickness:
        return 0.0
    alpha, _, _, r_e = crack_section(depth, r_o, ratio)
    # crack: around the point (-r_o, 0), bounded on the left by the outer circle
    # and on the right by the circle of radius r_e through the two surface points
    # and the deepest point x = -(r_o - depth); r_e is negative when that circle
    # bends the other way; the chord between the surface points parts the two
    chord = -r_o * math.cos(alpha)
    area_c, first_c, second_c = (_segment(-(r_o - depth) - r_e, r_e, chord, nodes)
                                 - _segment(0.0, -r_o, chord, nodes))
    area = math.pi * (r_o ** 2 - r_i ** 2) - area_c
    x_g = -first_c / area
    inertia = math.pi / 4 * (r_o ** 4 - r_i ** 4) - second_c - area * x_g ** 2
    surf = r_o * math.cos(alpha)
    # distance from the neutral axis to the crack surface points, shifted by
    # the 10 % the model allows for
    x_a = -(surf + x_g) + 0.1 * r_o * (1 + math.cos(alpha))
    return float(-math.pi * (r_o ** 4 - r_i ** 4) * x_a / (4 * r_o * inertia))


@functools.lru_cache
def _gauss(nodes):
    return np.polynomial.legendre.leggauss(nodes)


# --- binning ------------------------------------------------------------------
EDGE_TOL = 2.1e-5  # edges and values are rounded to five decimals


def bin_candidates(val, lower, width, tol=EDGE_TOL):
    """Bins that contain a value (two next to an edge)."""
    tol = tol + 1e-12 * abs(val)
    pos = (val - lower) / width
    lo = math.floor((val - tol - lower) / width)
    hi = math.floor((val + tol - lower) / width)
    if pos < 0:
        lo = hi = 0
    return list(range(max(lo, 0), max(hi, 0) + 1))
