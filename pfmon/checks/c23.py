"""C23: compiled kernels under sanitizers, in interpreter mode and over thread counts."""
import zlib
from itertools import product

import numpy as np

import py_fatigue as pf
from py_fatigue.cycle_count import rainflow as rf
from py_fatigue.damage.crack_growth import get_crack_growth, get_geometry_factor, get_sif
from py_fatigue.utils import to_numba_dict

from pfmon import crack, gen, make, ref
from pfmon.core import Workload

RULE = (
    "A case is one input run in one mode (compiled with 1, 2, 3 and 8 threads, "
    "bounds-checked serial compilation, interpreter), repeated and in other "
    "layouts inside poisoned buffers; the results of the modes are compared "
    "afterwards. Non-trivial: every case; distinct by input and mode."
)
ASSUMPTIONS = [
    "numba does not check bounds in parallel code: the parallel kernels are bounds-checked in a "
    "serial compilation of the same source and in the interpreter",
    "results of two modes agree up to rounding (1e-9, crack growth and geometry factor 1e-6); values within 1e-9 of "
    "a jump of the curve are not compared",
]
REQUIRED_EVENTS = ["crossing_calls", "sn_calls", "paris_calls", "growth_calls", "factor_calls",
                   "compared_results", "compared_modes", "guarded_calls", "chunked_calls",
                   "bounds_checked_cases", "interpreted_cases"]
WORKERS = 1

MODES = {
    "threads2": {},
    "threads1": {"NUMBA_NUM_THREADS": "1"},
    "threads3": {"NUMBA_NUM_THREADS": "3", "MALLOC_PERTURB_": "85"},
    "threads8": {"NUMBA_NUM_THREADS": "8"},
    "bounds": {"NUMBA_BOUNDSCHECK": "1", "PFMON_SERIAL": "1", "MALLOC_PERTURB_": "170"},
    "interpreter": {"NUMBA_DISABLE_JIT": "1", "MALLOC_PERTURB_": "85"},
}
RTOL = {"growth": 1e-6, "factor": 1e-6}
RESULTS = {}


def keep(cx, kind, mode, values):
    RESULTS[f"{kind}:{cx.index}"] = [float(v) for v in np.atleast_1d(np.asarray(values, float))]
    if mode == "bounds":
        cx.event("bounds_checked_cases")
    elif mode == "interpreter":
        cx.event("interpreted_cases")


def guarded(rng, x, poison=np.nan):
    """The array inside a buffer whose other elements are poisoned."""
    x = np.asarray(x)
    pad = int(rng.integers(1, 40))
    buf = np.full(len(x) + 2 * pad, poison, x.dtype)
    buf[pad:pad + len(x)] = x
    return buf[pad:pad + len(x)], buf, pad


def unharmed(cx, buf, pad, x, what):
    rest = np.r_[buf[:pad], buf[len(buf) - pad:]]
    poison = rest[0]
    ok = np.all(np.isnan(rest)) if poison != poison else np.all(rest == poison)
    cx.check(bool(ok), "write-out-of-bounds", what)
    cx.check(np.array_equal(buf[pad:len(buf) - pad], x), "input-overwritten", what)


def vector(cx, rng, fn, x, what, big):
    """A curve evaluation: repeated, guarded, in other layouts and in pieces."""
    out = np.array(fn(x), float)
    cx.check(out.shape == x.shape, "result-shape", f"{what}: {out.shape} for {x.shape}")
    cx.close(fn(x), out, "repetition", what, rtol=1e-12)
    arr, buf, pad = guarded(rng, x)
    cx.close(fn(arr), out, "depends-on-neighbours", what, rtol=1e-12)
    unharmed(cx, buf, pad, x, what)
    cx.event("guarded_calls")
    cx.close(fn(gen.layout(rng, x)), out, "layout", what, rtol=1e-12)
    cut = int(rng.integers(0, len(x)))
    step = int(rng.integers(1, 2 + len(x) // (4 if big else 2)))
    part = x[cut:cut + step]
    cx.close(fn(part), out[cut:cut + step], "depends-on-other-elements", what, rtol=1e-12)
    one = int(rng.integers(0, len(x)))
    cx.close(np.atleast_1d(fn(x[one:one + 1])), out[one:one + 1], "depends-on-other-elements", what,
             rtol=1e-12)
    cx.event("chunked_calls", 2)
    return out


def size_of(rng, big):
    return int(rng.integers(20000, 60000)) if big else int(rng.choice(
        [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 33, 60]))


def sn(cx, mode, rng, big=False):
    curve, (slope, inter, end) = make.sn_curve(rng)
    n = size_of(rng, big)
    stress = 10 ** rng.uniform(-1, 3.5, n)
    cycles = 10 ** rng.uniform(2, 12, n)
    if rng.random() < 0.3:
        stress[rng.integers(0, n)] = 0.0
    cx.note(mode=mode, curve=(slope, inter, end), stress=stress[:60], cycles=cycles[:60])
    cx.key(mode, repr((slope, inter, end)), stress)
    got = vector(cx, rng, curve.get_cycles, stress, "get_cycles", big)
    back = vector(cx, rng, curve.get_stress, cycles, "get_stress", big)
    cx.event("sn_calls", 12)
    pick = np.linspace(0, n - 1, min(n, 40)).astype(int)
    raw = np.array([ref.sn_cycles(s, slope, inter, np.inf) for s in stress[pick]])
    clear = np.abs(raw / end - 1) > 1e-9 if end < np.inf else np.ones(len(pick), bool)
    keep(cx, "sn_big" if big else "sn", mode, np.r_[np.where(clear, got[pick], 0), back[pick]])
    cx.sample(mode=mode, curve=(slope, inter, end), size=n)


def paris(cx, mode, rng, big=False):
    curve, (slope, inter, thr, crit) = make.paris_curve(rng)
    n = size_of(rng, big)
    sif = 10 ** rng.uniform(0, 4, n)
    for val in (0.0, np.inf, *ref.paris_knees(slope, inter)):
        if rng.random() < 0.3:
            sif[rng.integers(0, n)] = val
    lo = ref.paris_rate(thr if thr > 0 else 1.0, slope, inter, 0, np.inf)
    hi = ref.paris_rate(crit if crit < np.inf else 1e4, slope, inter, 0, np.inf)
    lo, hi = min(lo, hi), max(lo, hi)
    rate = 10 ** rng.uniform(np.log10(lo) - 1, np.log10(hi) + 1, n)
    cx.note(mode=mode, curve=(slope, inter, thr, crit), sif=sif[:60], rate=rate[:60])
    cx.key(mode, repr((slope, inter, thr, crit)), sif)
    got = vector(cx, rng, curve.get_growth_rate, sif, "get_growth_rate", big)
    back = vector(cx, rng, curve.get_sif, rate, "get_sif", big)
    cx.event("paris_calls", 12)
    pick = np.linspace(0, n - 1, min(n, 40)).astype(int)
    sel = sif[pick]
    near = (np.abs(sel - thr) <= 1e-9 * thr) & (thr > 0)
    if crit < np.inf:
        near |= np.abs(sel - crit) <= 1e-9 * crit
    keep(cx, "paris_big" if big else "paris", mode, np.r_[np.where(near, 0, got[pick]), back[pick]])


def growth(cx, mode, rng, big=False):
    size = int(rng.integers(1, 120))
    geo, curve, par, stress = crack.problem(rng, size)
    counts = rng.choice([0.5, 1.0], size)
    cx.note(mode=mode, geometry=crack.describe(geo), curve=par, stress=stress, counts=counts)
    cx.key(mode, repr(par), stress, counts, repr(crack.describe(geo)))
    cg = get_crack_growth(crack.count(stress, counts), curve, geo)
    first = view(cg)
    again = get_crack_growth(crack.count(stress, counts), curve, geo)
    cx.close(view(again), first, "repetition", "crack growth", rtol=1e-12)
    s, sbuf, spad = guarded(rng, stress)
    c, cbuf, cpad = guarded(rng, counts)
    near = get_crack_growth(crack.count(s, c), curve, geo)
    cx.close(view(near), first, "depends-on-neighbours", "crack growth", rtol=1e-12)
    unharmed(cx, sbuf, spad, stress, "stress ranges")
    unharmed(cx, cbuf, cpad, counts, "counts")
    cx.event("guarded_calls")
    cx.event("growth_calls", 3)
    keep(cx, "growth", mode, first)


def view(cg):
    n = len(cg.crack_depth)
    pick = np.unique(np.r_[np.arange(0, n, max(1, n // 15)), max(0, n - 1)]).astype(int) if n else []
    cols = [np.asarray(v, float)[pick] if n else np.empty(0)
            for v in (cg.crack_depth, cg.sif, cg.geometry_factor)]
    return np.concatenate([[n, float(cg.failure), float(cg.final_cycles)], *cols])


def factor(cx, mode, rng, big=False):
    geo = crack.cylinder(rng)
    table = to_numba_dict(dict(geo.__dict__))
    depths = geo.thickness * np.r_[rng.uniform(0.01, 0.9999, 6), 1.0, 1.2]
    depths = [float(d) for d in depths if d >= geo.thickness or ref.section_judged(
        d, geo.outer_diameter, geo.width_to_depth_ratio)]
    cx.note(mode=mode, geometry=crack.describe(geo), depths=depths)
    cx.key(mode, repr(crack.describe(geo)), repr(depths))
    out = []
    for d in depths:
        val = get_geometry_factor(d, "HOL_CYL_01", table)
        cx.close(get_geometry_factor(d, "HOL_CYL_01", table), val, "repetition", "factor", rtol=1e-12)
        k, fac = get_sif(100.0, d, "HOL_CYL_01", table)
        out += [val, fac, k]
        out += list(get_sif(100.0, d, "INF_SUR_00", table))
        cx.event("factor_calls", 4)
    keep(cx, "factor", mode, out)


def crossings(cx, mode, rng, big=False):
    if cx.index < 27:  # every sequence of a length over three levels, sliced by its start
        head = np.unravel_index(cx.index, (3, 3, 3))
        seqs = [np.array(head + tail, float) - 1 for n in range(0, 5)
                for tail in product(range(3), repeat=n)]
    else:
        x, _ = gen.signal(rng)
        seqs = [np.asarray(x, float), np.sign(rng.normal(0, 1, int(rng.integers(1, 70))))]
    cx.note(mode=mode, sequences=seqs[:3])
    cx.key(mode, *seqs[:50])
    out = []
    for x in seqs:
        for name, fn in (("findcross", rf.findcross), ("findextrema", rf.findextrema)):
            cx.note(sequence=x)
            got = np.asarray(fn(x)) if len(x) > 1 or name == "findcross" else np.empty(0, int)
            cx.check(np.all((got >= 0) & (got < len(x))) and np.all(np.diff(got) > 0),
                     "indices-out-of-bounds", f"{name}: {got[:20]} for {len(x)} samples")
            if len(x) > 1:
                arr, buf, pad = guarded(rng, x, poison=3.0)
                cx.same(np.asarray(fn(arr)), got, "depends-on-neighbours", name)
                unharmed(cx, buf, pad, x, name)
                cx.event("guarded_calls")
            out += [len(got), float(np.sum(got * (1 + np.arange(len(got)) % 7)))]
            cx.event("crossing_calls")
    keep(cx, "crossings", mode, out)


KINDS = {  # kind: (function, big, quick, thorough)
    "crossings": (crossings, False, 60, 600),
    "sn": (sn, False, 60, 900),
    "sn_big": (sn, True, 4, 40),
    "paris": (paris, False, 60, 900),
    "paris_big": (paris, True, 4, 40),
    "growth": (growth, False, 40, 600),
    "factor": (factor, False, 40, 600),
}


def build(kind, mode):
    fn, big, _, _ = KINDS[kind]

    def run(cx):
        rng = np.random.default_rng([cx.seed & 0xFFFFFFFF, zlib.crc32(kind.encode()), cx.index])
        fn(cx, mode, rng, big)
    return run


WORKLOADS = [
    Workload(f"{kind}@{mode}", build(kind, mode), quick, thorough,
             env=dict(env, PFMON_MODE=mode))
    for mode, env in MODES.items() for kind, (_, _, quick, thorough) in KINDS.items()
]


def export():
    return RESULTS


def finalize(reports):
    """The results of every mode against those of the first one."""
    modes = {}
    for rep in reports:
        mode = [p.split("=")[1] for p in rep["group"].split(",") if p.startswith("PFMON_MODE=")][0]
        modes.setdefault(mode, {}).update(rep["export"])
    base = modes.get("threads2", {})
    violations, compared = [], 0
    for mode, results in modes.items():
        if mode == "threads2":
            continue
        for name, vals in results.items():
            if name not in base:
                continue
            kind, index = name.split(":")
            one, two = np.array(base[name], float), np.array(vals, float)
            compared += len(two)
            rtol = RTOL.get(kind, 1e-9)
            ok = one.shape == two.shape and np.allclose(one, two, rtol=rtol, atol=1e-300, equal_nan=True)
            if not ok:
                violations.append({
                    "workload": f"{kind}@{mode}", "index": int(index),
                    "mechanism": f"mode-difference:{kind}",
                    "message": f"{mode} and threads2 give different results",
                    "data": {"threads2": one[:40].tolist(), mode: two[:40].tolist()}})
    return {"violations": violations, "oracle_evaluations": compared,
            "events": {"compared_results": compared, "compared_modes": len(modes)}}
