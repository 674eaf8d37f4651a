"""C18: crack growth step by step."""
import numpy as np

from py_fatigue.damage.crack_growth import get_crack_growth

from pfmon import crack, gen, make
from pfmon.core import Workload

RULE = (
    "A case is a load history with geometry and Paris curve, every reported "
    "step judged. Non-trivial: at least one step that grows the crack, or a "
    "failure; distinct by history, curve and geometry."
)
REQUIRED_EVENTS = ["steps", "growing_steps", "steps_below_threshold", "without_failure",
                   "failed_wall", "failed_critical", "failed_tenfold", "stopped_at_once",
                   "exactly_at_the_limit"]
WORKERS = 3


def run(cx, cc, curve, geo, par, stress, counts, what=""):
    cg = get_crack_growth(cc, curve, geo)
    crack.judge_steps(cx, cg, stress, counts, geo, par, what)
    if len(cg.crack_depth) == 0:
        cx.event("stopped_at_once")
    return cg


def histories(cx):
    rng = cx.rng
    size = int(rng.integers(1, 200))
    geo, curve, par, stress = crack.problem(rng, size)
    counts = rng.choice([0.5, 1.0], size) if rng.random() < 0.6 else np.ones(size)
    cx.note(geometry=crack.describe(geo), curve=par, stress=stress, counts=counts)
    cc = crack.count(stress, counts)
    cg = run(cx, cc, curve, geo, par, stress, counts)
    if cg.failure or cg.crack_depth[-1] > cg.crack_depth[0]:
        cx.key(repr(par), stress, counts, repr(crack.describe(geo)))
    again = get_crack_growth(cc, curve, geo)
    cx.same(np.array(again.crack_depth), np.array(cg.crack_depth), "repetition")
    other = get_crack_growth(crack.count(gen.layout(rng, stress), gen.layout(rng, counts)), curve, geo)
    cx.same(np.array(other.crack_depth), np.array(cg.crack_depth), "layout")
    # a history cut short gives the same beginning
    cut = int(rng.integers(1, size + 1))
    part = get_crack_growth(crack.count(stress[:cut], counts[:cut]), curve, geo)
    n = min(cut, len(cg.crack_depth))
    cx.same(np.array(part.crack_depth), np.array(cg.crack_depth)[:n], "prefix")
    cx.same(bool(part.failure), n < cut, "prefix", "failure")
    cx.sample(geometry=crack.describe(geo), curve=par, steps=len(cg.crack_depth), of=size,
              failure=bool(cg.failure))


def slow(cx):
    """Long histories with slow growth up to failure."""
    rng = cx.rng
    size = 4000
    geo, curve, par, stress = crack.problem(rng, size)
    counts = np.ones(size)
    cx.note(geometry=crack.describe(geo), curve=par, stress=stress[:20])
    cx.key(repr(par), stress, repr(crack.describe(geo)))
    run(cx, crack.count(stress, counts), curve, geo, par, stress, counts)


def edges(cx):
    """First steps at, just below and just above the threshold and the critical value."""
    rng = cx.rng
    depth = 1 / np.pi
    geo = crack.geometry(rng, 0).__class__(initial_depth=depth)
    slope = float(rng.uniform(2, 5))
    thr, crit = float(rng.integers(2, 20)), float(rng.integers(30, 300))
    inter = 1e-3 * depth / crit ** slope
    root = np.sqrt(np.pi * depth)
    first = [thr / root * (1 + 1e-6), thr / root * (1 - 1e-6), crit / root * (1 - 1e-6),
             crit / root * (1 + 1e-6), thr, crit][cx.index % 6]
    stress = np.r_[first, np.full(5, (thr + crit) / 2 / root)]
    if cx.index % 6 > 3:
        # exactly at the limit, whatever the last digit of the stress intensity is
        free = make.pf.ParisCurve(slope, inter, threshold=0.0, critical=1e9)
        at = float(get_crack_growth(crack.count(stress, np.ones(6)), free, geo).sif[0])
        thr, crit = (at, crit) if cx.index % 6 == 4 else (thr, at)
        cx.event("exactly_at_the_limit")
    curve = make.pf.ParisCurve(slope, inter, threshold=thr, critical=crit)
    par = ([slope], [inter], thr, crit)
    cx.note(curve=par, stress=stress)
    cx.key(repr(par), stress)
    cg = run(cx, crack.count(stress, np.ones(6)), curve, geo, par, stress, np.ones(6))
    if cx.index % 6 in (3, 5):
        cx.check(bool(cg.failure) and len(cg.crack_depth) == 0, "critical-first", "not failed at once")
    elif cx.index % 6 == 1:
        cx.check(cg.crack_depth[1] == cg.crack_depth[0], "threshold-first", "grown below threshold")
    else:
        cx.check(cg.crack_depth[1] > cg.crack_depth[0], "threshold-first", "not grown")


def counted(cx):
    """Counts of signals, as users have them."""
    rng = cx.rng
    geo, curve, par, stress = crack.problem(rng, 2)
    x, _ = gen.signal(rng, kind=str(rng.choice(["gauss", "walk", "levels", "quantised"])))
    scale = float(np.max(stress)) / float(np.ptp(x)) * float(rng.uniform(0.5, 1.5))
    cc = make.from_signal(rng, x=x * max(scale, 1e-6))
    cx.note(geometry=crack.describe(geo), curve=par, stress=cc.stress_range)
    cx.key(repr(par), np.asarray(cc.stress_range))
    run(cx, cc, curve, geo, par, np.array(cc.stress_range), np.array(cc.count_cycle), "counted")


WORKLOADS = [
    Workload("histories", histories, 450, 6000),
    Workload("slow", slow, 9, 150),
    Workload("edges", edges, 40, 400),
    Workload("counted", counted, 60, 900),
]
