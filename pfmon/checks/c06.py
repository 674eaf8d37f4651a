"""C06: scaling of cycle counts."""
import numpy as np

from pfmon import gen, make, ref
from pfmon.core import Skip, Workload

RULE = (
    "A case is a cycle count and one or two positive factors. Non-trivial: the "
    "count has rows; distinct by rows and factor."
)
REQUIRED_EVENTS = ["scaled", "composed", "commutes_sum", "commutes_lffd",
                   "commutes_count", "refused"]

STRESS = ("stress_range", "mean_stress", "residuals_sequence", "min_max_sequence",
          "range_bin_lower_bound", "range_bin_width", "mean_bin_lower_bound",
          "mean_bin_width", "stress_concentration_factor")
KEPT = ("count_cycle", "nr_small_cycles", "timestamp", "time_sequence", "unit",
        "lffd_solved", "mean_stress_corrected")


def factor(rng):
    kind = int(rng.integers(0, 5))
    if kind == 0:
        return float(rng.uniform(0.1, 10))
    if kind == 1:
        return int(rng.integers(1, 12))
    if kind == 2:
        return np.float64(rng.uniform(0.5, 3))
    if kind == 3:
        return float(10 ** rng.uniform(-6, 6))
    return 1.0


def count(rng):
    cc, route = make.anyhow(rng, int(rng.integers(0, 900)), unit=str(rng.choice(gen.UNITS)))
    if rng.random() < 0.3 and not cc.lffd_solved and cc.residuals_sequence is not None \
            and len(cc.residuals_sequence) > 2 and np.any(cc.mean_stress != 0):
        cc = cc.mean_stress_correction(detail_factor=0.8)
        route += "-corrected"
    return cc, route


def scaling(cx):
    rng = cx.rng
    cc, route = count(rng)
    fac = factor(rng)
    cx.note(route=route, factor=fac, rows=make.rows(cc))
    cx.key(make.rows(cc), fac)
    before = make.fields(cc)
    for side, out in (("right", cc * fac), ("left", fac * cc)):
        for name in STRESS:
            want = before[name]
            if want is None:
                continue
            cx.close(getattr(out, name), np.asarray(want, float) * fac, "scaled-" + name,
                     side, rtol=1e-13)
        for name in KEPT:
            cx.check(make.same_value(getattr(out, name), before[name]), "kept-" + name,
                     f"{side}: {getattr(out, name)!r} instead of {before[name]!r}")
    bad = make.same_fields(make.fields(cc), before)
    cx.check(not bad, "scaling-changed-operand", str(bad))
    cx.event("scaled")
    cx.sample(route=route, factor=fac)


def composed(cx):
    rng = cx.rng
    cc, route = count(rng)
    f_1, f_2 = factor(rng), factor(rng)
    if rng.random() < 0.2:  # there and back
        f_2 = 1.0 / f_1
    cx.note(route=route, factors=(f_1, f_2))
    cx.key(make.rows(cc), f_1, f_2)
    one = make.fields((cc * f_1) * f_2)
    two = make.fields(cc * float(f_1 * f_2))
    bad = make.same_fields(one, two, skip=("name",), rtol=1e-12)
    cx.check(not bad, "composition", str(bad), one={b: one[b] for b in bad},
             two={b: two[b] for b in bad})
    cx.event("composed")


def commutes(cx):
    """Dyadic factors: the scaled problem is exactly similar."""
    rng = cx.rng
    fac = float(rng.choice([0.125, 0.5, 2.0, 4.0, 32.0]))
    k = int(rng.integers(0, 900))
    sigs = [gen.signal(rng, max_size=60)[0] for _ in range(int(rng.integers(2, 5)))]
    bins = gen.bins(rng)
    cx.note(signals=sigs, factor=fac)
    cx.key(*sigs, fac)
    parts = [make.from_signal(rng, k + i, x=x, bins=bins) for i, x in enumerate(sigs)]
    total = sum(parts)
    skip = ("name",)
    one = make.fields(total * fac)
    two = make.fields(sum(p * fac for p in parts))
    bad = make.same_fields(one, two, skip=skip, rtol=1e-12)
    cx.check(not bad, "commutes-with-sum", str(bad))
    cx.event("commutes_sum")
    # LFFD
    one, two = (total * fac).solve_lffd(), total.solve_lffd() * fac
    scale = max(np.max(np.abs(x)) for x in sigs) * fac
    cx.check(ref.same_multiset(make.rows(one), make.rows(two), 1e-13 * scale),
             "commutes-with-lffd", "rows")
    bad = make.same_fields(make.fields(one), make.fields(two), rtol=1e-12,
                           skip=("name", "count_cycle", "stress_range", "mean_stress"))
    cx.check(not bad, "commutes-with-lffd", str(bad))
    cx.event("commutes_lffd")
    # counting
    x = sigs[0]
    one = make.from_signal(rng, k, x=x * fac, bins={b: v * fac for b, v in bins.items()})
    two = parts[0] * fac
    cx.check(ref.same_multiset(make.rows(one), make.rows(two), 1e-13 * scale),
             "commutes-with-counting", "rows")
    bad = make.same_fields(make.fields(one), make.fields(two), rtol=1e-12, skip=(
        "name", "count_cycle", "stress_range", "mean_stress", "stress_concentration_factor"))
    cx.check(not bad, "commutes-with-counting", str(bad))
    cx.event("commutes_count")


def refusals(cx):
    rng = cx.rng
    cc, _ = count(rng)
    cx.key(make.rows(cc), "refusal")
    before = make.fields(cc)
    for other in ("2", None, [2.0], (1,), {"a": 2}, np.array([1.0, 2.0]), 2j, cc, object()):
        if isinstance(other, np.ndarray):
            cx.raises(TypeError, lambda: cc * other, "refusal", "array")
            continue
        cx.raises(TypeError, lambda: cc * other, "refusal", type(other).__name__)
        cx.raises(TypeError, lambda: other * cc, "refusal", type(other).__name__)
    bad = make.same_fields(make.fields(cc), before)
    cx.check(not bad, "scaling-changed-operand", str(bad))


WORKLOADS = [
    Workload("scaling", scaling, 600, 8000),
    Workload("composed", composed, 400, 5000),
    Workload("commutes", commutes, 400, 5000),
    Workload("refusals", refusals, 60, 600),
]
