"""Generators of inputs: signals, counts, curves, geometries, tables."""
from __future__ import annotations

import datetime as dt

import numpy as np

UTC = dt.timezone.utc

SIGNALS = (
    "gauss", "walk", "levels", "plateaus", "sines", "diverge", "converge",
    "saw", "monotone", "block", "ulp", "spike", "drift", "short", "ties",
    "offset", "tiny", "huge", "beats", "quantised",
)


def signal(rng, kind=None, size=None, max_size=200):
    """A finite signal with at least two different values (float64)."""
    kind = kind or str(rng.choice(SIGNALS))
    n = int(size) if size else int(rng.integers(3, max_size + 1))
    t = np.arange(n)
    if kind == "gauss":
        x = rng.normal(rng.normal() * 10, 10 ** rng.uniform(-1, 2), n)
    elif kind == "walk":
        x = np.cumsum(rng.normal(0, 1, n))
    elif kind == "levels":
        x = rng.integers(-3, 4, n).astype(float)
    elif kind == "plateaus":
        x = np.repeat(rng.integers(-5, 6, n), rng.integers(1, 6, n))[:n].astype(float)
    elif kind == "sines":
        x = sum(a * np.sin(2 * np.pi * f * t / n + p) for a, f, p in zip(
            rng.uniform(0.1, 20, 4), rng.uniform(0.5, n / 3 + 1, 4), rng.uniform(0, 6, 4)))
        x = x + rng.normal() * 5
    elif kind == "diverge":
        x = (-1.0) ** t * np.cumsum(rng.integers(0, 4, n))
    elif kind == "converge":
        x = ((-1.0) ** t * np.cumsum(rng.integers(0, 4, n)))[::-1].copy()
    elif kind == "saw":
        x = (t % int(rng.integers(2, 7))).astype(float) * rng.uniform(0.5, 3)
    elif kind == "monotone":
        x = np.sort(rng.integers(-20, 21, n)).astype(float)
        if rng.random() < 0.5:
            x = x[::-1].copy()
    elif kind == "block":
        lev = rng.normal(0, 20, max(2, n // 7 + 1))
        x = np.repeat(lev, 7)[:n] + rng.integers(-1, 2, n)
    elif kind == "ulp":
        base = float(rng.uniform(1, 100))
        step = np.spacing(base)
        x = base + step * rng.integers(-3, 4, n)
    elif kind == "spike":
        x = rng.normal(0, 1, n)
        x[rng.integers(0, n, max(1, n // 20))] += rng.choice([-1, 1]) * 50
    elif kind == "drift":
        x = 0.3 * t + rng.normal(0, 1, n)
    elif kind == "short":
        x = rng.integers(-4, 5, int(rng.integers(2, 7))).astype(float)
    elif kind == "ties":
        x = rng.choice([0.0, 1.0, 2.0, 1.0], n)
    elif kind == "offset":
        x = float(rng.choice([-1, 1])) * 10 ** rng.uniform(2, 5) + rng.normal(0, 1, n)
    elif kind == "tiny":
        x = rng.normal(0, 1, n) * 1e-9
    elif kind == "huge":
        x = rng.normal(0, 1, n) * 1e12
    elif kind == "beats":
        x = np.sin(0.9 * t) * np.sin(0.05 * t) * 30 + np.round(rng.normal(0, 1, n), 1)
    else:  # quantised
        x = np.round(rng.normal(0, 20, n) / 0.25) * 0.25
    if np.all(x == x[0]):
        x = x.copy()
        x[-1] += max(1.0, abs(x[0]))
    return np.asarray(x, dtype=float), kind


DTYPES = (np.float32, np.int64, np.int32, np.int16, np.int8, np.uint8,
          np.uint16, np.uint32, np.uint64, np.float16, bool)


def integer_signal(rng, max_size=120):
    """A signal of small integers, exactly representable in any dtype."""
    n = int(rng.integers(2, max_size + 1))
    x = rng.integers(0, int(rng.integers(2, 100)), n)
    if rng.random() < 0.3:
        x = np.repeat(x, rng.integers(1, 4, n))[:n]
    if np.all(x == x[0]):
        x[-1] = x[0] + 1
    return x


def as_dtype(rng, x, dtype):
    """The integer signal in a dtype (booleans: two levels)."""
    if dtype is bool:
        y = x > np.median(x)
        if np.all(y == y[0]):
            y[-1] = ~y[0]
        return y
    return x.astype(dtype)


def layout(rng, x):
    """The same array in another memory layout."""
    x = np.asarray(x)
    kind = int(rng.integers(0, 4))
    if kind == 0:
        buf = np.zeros((len(x), 3), x.dtype)
        buf[:, 1] = x
        return buf[:, 1]
    if kind == 1:
        buf = np.zeros(2 * len(x) + 1, x.dtype)
        buf[::2][: len(x)] = x
        return buf[::2][: len(x)]
    if kind == 2:
        return x[::-1].copy()[::-1]
    out = x.copy()
    out.flags.writeable = False
    return out


# --- timestamps -----------------------------------------------------------------
def stamp(rng, k=0, tz=True):
    base = dt.datetime(2018, 12, 30, 22, 10, tzinfo=UTC if tz else None)
    part = 0 if int(k) % 3 == 1 else (int(k) + 1) * 123457891 % 540000000
    return base + dt.timedelta(minutes=10 * int(k), microseconds=part)


# --- spectra -------------------------------------------------------------------
def spectrum(rng, max_rows=60, big=False):
    """(counts, ranges, means) with counts multiples of one half."""
    n = int(rng.integers(1, max_rows + 1))
    if max_rows >= 60 and rng.random() < 0.02:
        n = int(rng.integers(300, 3000))
    counts = rng.choice([0.5, 1.0, 1.0, 2.0, 3.0, 1.5, 2.5, 7.0, 12.0], n)
    if big:
        counts = counts * 2 ** rng.integers(0, 16, n)
    ranges = 10 ** rng.uniform(-1, 2.5, n)
    if rng.random() < 0.3:
        ranges = np.round(ranges * 2) / 2 + 0.5
    means = rng.normal(0, 30, n)
    if rng.random() < 0.2:
        means = np.abs(means)
    return counts, ranges, means


def bins(rng):
    """Bin definition: range lower bound, width, mean width."""
    if rng.random() < 0.1:  # all digits
        return dict(range_bin_lower_bound=float(rng.uniform(0, 2)),
                    range_bin_width=float(10 ** rng.uniform(-1, 0.7)),
                    mean_bin_width=float(10 ** rng.uniform(-0.3, 1)))
    return dict(
        range_bin_lower_bound=float(rng.choice([0.0, 0.1, 0.2, 0.5, 1.0, 2.5, 0.12345])),
        range_bin_width=float(rng.choice([0.05, 0.1, 0.25, 0.5, 1.0, 2.0, 5.0, 1 / 3, 0.71828])),
        mean_bin_width=float(rng.choice([0.5, 1.0, 2.0, 5.0, 10.0, 10 / 3, 3.14159])),
    )


def mean_bound(rng, lowest, width):
    """An explicit lower bound of the mean bins, or None for the default."""
    if rng.random() < 0.7:
        return None
    if lowest >= 0 and rng.random() < 0.7:
        return 0.0
    return float((np.floor(lowest / width) - int(rng.integers(0, 3))) * width)


# --- curves ------------------------------------------------------------------------
def sn_params(rng, branches=None, endurance=None):
    """Slopes, intercepts and endurance of an admissible S-N curve."""
    nb = int(branches or rng.choice([1, 1, 2, 2, 2, 3, 4, 5]))
    slope = np.round(np.sort(rng.uniform(1.5, 12, nb)), 2)
    for i in range(1, nb):
        if slope[i] - slope[i - 1] < 0.4:
            slope[i] = round(slope[i - 1] + 0.4, 2)
    wide = rng.random() < 0.12  # far from the usual steels
    log_n = np.sort(rng.uniform(5.5, 8.0, nb - 1)) if nb > 1 else np.empty(0)
    if wide:
        log_n = np.sort(rng.uniform(2.5, 11.0, nb - 1))
    for i in range(1, len(log_n)):
        if log_n[i] - log_n[i - 1] < 0.2:
            log_n[i] = log_n[i - 1] + 0.2
    intercept = [float(rng.uniform(-6.0, 24.0) if wide else rng.uniform(10.5, 16.5))]
    for i in range(1, nb):
        log_s = (intercept[-1] - log_n[i - 1]) / slope[i - 1]
        intercept.append(float(log_n[i - 1] + slope[i] * log_s))
    last = log_n[-1] if nb > 1 else 6.0
    if endurance is None:
        endurance = rng.random() < 0.5
    if endurance is True or (isinstance(endurance, (bool, np.bool_)) and endurance):
        end = float(10 ** (last + rng.uniform(0.3, 9.0 if wide else 3.0)))
        if rng.random() < 0.4:
            end = float(int(end))
    else:
        end = np.inf
    return [float(s) for s in slope], intercept, end


def paris_params(rng, segments=None):
    """Slopes, intercepts, threshold and critical value of a Paris curve."""
    ns = int(segments or rng.choice([1, 1, 2, 2, 3, 4]))
    slope = rng.uniform(1.5, 9.0, ns)
    for i in range(1, ns):
        if abs(slope[i] - slope[i - 1]) < 0.5:
            slope[i] = slope[i - 1] + rng.choice([-1.0, 1.0]) * 0.8 if slope[i - 1] > 3 else slope[i - 1] + 0.8
    slope = np.round(slope, 2)
    log_k = np.sort(rng.uniform(1.3, 2.8, ns - 1))
    for i in range(1, len(log_k)):
        if log_k[i] - log_k[i - 1] < 0.15:
            log_k[i] = log_k[i - 1] + 0.15
    log_c = [float(rng.uniform(-16, -9))]
    for i in range(1, ns):
        log_c.append(float(log_c[-1] + (slope[i - 1] - slope[i]) * log_k[i - 1]))
    if rng.random() < 0.12:  # other units
        far = float(rng.uniform(-3.5, 2.5))
        log_k = log_k + far
        log_c = [c - s * far for c, s in zip(log_c, slope)]
        base = 2.0 + far
    else:
        base = 2.0
    intercept = [float(10.0 ** c) for c in log_c]
    lo = log_k[0] if ns > 1 else base
    hi = log_k[-1] if ns > 1 else base
    threshold = 0.0 if rng.random() < 0.35 else float(10 ** (lo - rng.uniform(0.1, 1.2)))
    critical = np.inf if rng.random() < 0.35 else float(10 ** (hi + rng.uniform(0.1, 1.5)))
    return [float(s) for s in slope], intercept, threshold, critical


# --- geometry ------------------------------------------------------------------------
def cylinder_dims(rng):
    """Dimensions of a hollow cylinder with a shallow enough crack circle."""
    outer = float(10 ** rng.uniform(1.5, 4))
    thickness = float(outer / 2 * rng.uniform(0.02, 0.6))
    ratio = float(rng.uniform(1.0, 4.0))
    depth = float(thickness * rng.uniform(0.005, 0.6))
    return dict(initial_depth=depth, outer_diameter=outer, thickness=thickness,
                height=float(outer * rng.uniform(0.5, 20)),
                crack_position="external", width_to_depth_ratio=ratio)


UNITS = ("MPa", "kPa", "Pa", "N/mm²", "ksi", "GPa", "psi", "strain µε", "m")
