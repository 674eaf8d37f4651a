"""C30: doubtful operations are announced by warnings, ordinary ones are not."""
import warnings

import numpy as np
import py_fatigue as pf
from py_fatigue.cycle_count.rainflow import findcross
from py_fatigue.damage import crack_growth
from py_fatigue.damage import stress_life as sl

from pfmon import crack, gen, make
from pfmon.core import Skip, Workload
from pfmon.observe import snap

RULE = (
    "A case is one operation and its operands: like or unlike counts added, a count "
    "scaled, resolved or corrected, a nonlinear rule with or without its parameters. The "
    "warnings raised are counted and read. Non-trivial: every case; distinct by operands."
)
REQUIRED_EVENTS = ["like_sums", "unlike_sums", "no_residual_sums", "nothing_added", "rescaled",
                   "resolved_again", "corrected_again", "default_parameters", "given_parameters",
                   "no_crossings", "deprecated", "warnings_as_errors", "quiet_operations"]
BINS = dict(range_bin_lower_bound=0.2, range_bin_width=0.5, mean_bin_width=2.0)


def warned(fn, category=UserWarning):
    """The result of fn and the texts of its warnings of exactly this category."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        out = fn()
    return out, [str(w.message) for w in caught if w.category is category]


def quiet(cx, fn, what):
    out, texts = warned(fn)
    cx.check(not texts, "needless-warning", f"{what}: {texts}")
    cx.event("quiet_operations")
    return out


def loud(cx, fn, what, at_least=1, names=()):
    out, texts = warned(fn)
    cx.check(len(texts) >= at_least, "no-warning", f"{what}: {len(texts)} of {at_least} warnings {texts}")
    for name in names:
        cx.check(any(str(name) in text for text in texts), "warning-says", f"{what}: {name!r} not in {texts}")
    return out, texts


def as_error(cx, fn, operands, what):
    """A user who turns warnings into errors gets the warning, and intact operands."""
    before = [snap(o) for o in operands]
    with warnings.catch_warnings():
        warnings.simplefilter("error", UserWarning)
        cx.raises(UserWarning, fn, "no-warning", f"{what}, warnings as errors")
    cx.check([snap(o) for o in operands] == before, "operand-changed", what)
    cx.event("warnings_as_errors")


def ordinary(rng, k=0, **kw):
    """A count with full cycles and at least three residual points."""
    for _ in range(50):
        x, _name = gen.signal(rng, max_size=120)
        if len(x) > 4 and np.ptp(x) > 0 and np.max(np.abs(x)) < 1e6:
            cc = make.from_signal(rng, k, x=x, bins=kw.pop("bins", BINS), **kw)
            if cc.residuals_sequence is not None and len(cc.residuals_sequence) > 2:
                return cc
    raise Skip("no signal")


def sums(cx):
    rng = cx.rng
    names = ["a", "b"] if rng.random() < 0.4 else ["a", "a"]
    widths = [0.5, float(rng.choice([0.25, 1.0, 0.5 + 1e-9]))] if rng.random() < 0.3 else [0.5, 0.5]
    means = [2.0, float(rng.choice([1.0, 5.0, 10.0]))] if rng.random() < 0.3 else [2.0, 2.0]
    scfs = rng.random() < 0.3
    lost = int(rng.integers(1, 4)) if rng.random() < 0.3 else 0
    ops = []
    for k in (0, 1):
        bins = dict(BINS, range_bin_width=widths[k], mean_bin_width=means[k])
        if lost >> k & 1:
            cc = make.direct(rng, k, name=names[k], bins=bins, res=None)
        else:
            cc = ordinary(rng, k, name=names[k], bins=bins)
        ops.append(cc)
    if scfs:
        ops[1].stress_concentration_factor = float(rng.choice([1.5, 2.0, 1.0 + 1e-6]))
    one, two = ops
    unlike = [one.name != two.name, one.range_bin_width != two.range_bin_width,
              one.mean_bin_width != two.mean_bin_width,
              one.stress_concentration_factor != two.stress_concentration_factor,
              one.residuals_sequence is None or two.residuals_sequence is None]
    cx.note(names=names, widths=widths, means=means, scfs=scfs, lost=lost, rows=[make.rows(c) for c in ops])
    cx.key(names, widths, means, scfs, lost, make.rows(one), make.rows(two))
    need = sum(unlike)
    if not need:
        quiet(cx, lambda: one + two, "adding like counts")
        quiet(cx, lambda: sum([one, two]), "sum of like counts")
        cx.event("like_sums")
    else:
        said = []
        if unlike[0]:
            said += [one.name, two.name]
        if unlike[1]:
            said += [one.range_bin_width, two.range_bin_width, "range"]
        if unlike[2]:
            said += [one.mean_bin_width, two.mean_bin_width, "mean"]
        if unlike[3]:
            said += [two.stress_concentration_factor]
        _, texts = loud(cx, lambda: one + two, f"adding counts differing in {unlike}", need, said)
        cx.check(len(texts) <= need, "needless-warning", f"{need} differences: {texts}")
        loud(cx, lambda: sum([one, two]), "sum()", need, said)
        loud(cx, lambda: one.__add__(two), "__add__", need, said)
        as_error(cx, lambda: one + two, ops, "unlike sum")
        cx.event("unlike_sums")
        if unlike[4]:
            cx.event("no_residual_sums")


def nothing(cx):
    """Adding nothing is announced; starting sum() from nothing is not."""
    rng = cx.rng
    cc, route = make.anyhow(rng)
    cx.note(route=route, rows=make.rows(cc))
    cx.key(make.rows(cc))
    for other in (None, 0, 0.0, np.nan, float("nan"), np.float64(0)):
        out, _ = loud(cx, lambda o=other: cc + o, f"count + {other!r}")
        cx.check(out == cc, "nothing-added", f"{other!r}")
        quiet(cx, lambda o=other: o + cc, f"{other!r} + count")
    cx.event("nothing_added", 6)


def scaling(cx):
    rng = cx.rng
    cc = ordinary(rng)
    fac = [float(rng.uniform(0.2, 4)), float(rng.uniform(0.2, 4))]
    if rng.random() < 0.3:
        fac[0] = float(rng.choice([1.0 + 1e-9, 0.999, 1e-6, 1e6]))
    cx.note(rows=make.rows(cc), factors=fac)
    cx.key(make.rows(cc), fac)
    first = quiet(cx, lambda: cc * fac[0], "scaling")
    if first.stress_concentration_factor == 1.0:
        raise Skip("factor of one")
    second, _ = loud(cx, lambda: first * fac[1], "scaling again", 1, [first.stress_concentration_factor])
    loud(cx, lambda: fac[1] * first, "scaling again", 1, [first.stress_concentration_factor])
    cx.close(second.stress_concentration_factor, fac[0] * fac[1], "scf", rtol=1e-12)
    as_error(cx, lambda: first * fac[1], [first], "scaling again")
    cx.event("rescaled")


def resolving(cx):
    rng = cx.rng
    cc = ordinary(rng)
    parts = int(rng.integers(1, 5))
    for k in range(1, parts):
        new = ordinary(rng, k)
        cc = quiet(cx, lambda n=new, c=cc: c + n, "sum")
    cx.note(rows=make.rows(cc), parts=parts)
    cx.key(make.rows(cc), parts)
    mode = str(rng.choice(["residuals", "Residuals"]))
    done = quiet(cx, lambda: cc.solve_lffd(mode), "resolving")
    again, _ = loud(cx, lambda: done.solve_lffd(mode), "resolving again")
    cx.check(again == done, "resolved-again", "resolving again changes the count")
    cx.event("resolved_again")
    as_error(cx, lambda: done.solve_lffd(mode), [done], "resolving again")
    lost = make.direct(rng, 0, res=None)
    out, _ = loud(cx, lostly := (lambda: lost.solve_lffd(mode)), "resolving without residuals")
    cx.check(out == lost, "resolved-nothing", "no residuals")
    as_error(cx, lostly, [lost], "resolving without residuals")
    short = make.direct(rng, 0, res=np.array([1.0, 5.0])[:int(rng.integers(1, 3))])
    out, _ = loud(cx, lambda: short.solve_lffd(mode), "resolving two points")
    cx.check(out == short, "resolved-nothing", "two points")


def correcting(cx):
    rng = cx.rng
    one, two = ordinary(rng, 0), ordinary(rng, 1)
    cc = one + two
    if rng.random() < 0.5:
        cc = cc.solve_lffd()
    if not np.any(cc.mean_stress) or not np.any(cc.solve_lffd().mean_stress) or \
            not np.any(one.solve_lffd().mean_stress):
        raise Skip("no mean stress")
    kind = cx.index % 3
    name = ["DNVGL-RP-C203", "Walker", "SWT"][kind]
    name = [name, name.lower(), name.upper()][int(rng.integers(0, 3))]
    given = [dict(detail_factor=float(rng.choice([0.6, 0.8]))),
             dict(gamma=float(rng.choice([0.3, 0.5, 0.0, 1.0]))), {}][kind]
    cx.note(rows=make.rows(cc), correction=name, given=given)
    cx.key(make.rows(cc), name, given)
    out = quiet(cx, lambda: cc.mean_stress_correction(name, **given), "correction, parameters given")
    again, _ = loud(cx, lambda: out.mean_stress_correction(name, **given), "correcting again")
    cx.check(again == out, "corrected-again", "correcting again changes the count")
    cx.event("corrected_again")
    as_error(cx, lambda: out.mean_stress_correction(name, **given), [out], "correcting again")
    if kind < 2:
        preset, texts = loud(cx, lambda: cc.mean_stress_correction(name), "correction, no parameter", 1,
                             [[0.8, 0.5][kind]])
        cx.check(len(texts) == 1, "needless-warning", f"{texts}")
        want, _ = warned(lambda: cc.mean_stress_correction(name, **[dict(detail_factor=0.8), dict(gamma=0.5)][kind]))
        cx.close(preset.stress_range, want.stress_range, "preset-value", name, rtol=1e-12)
        cx.event("default_parameters")
        as_error(cx, lambda: cc.mean_stress_correction(name), [cc], "correction, no parameter")
    cx.event("given_parameters")
    # a count of a single time is corrected before the long-term sum
    loud(cx, lambda: one.mean_stress_correction(name, **given), "correcting a short-term count")


PRESETS = {"pavlou": {"base_exponent": -0.75, "ultimate_stress": 900.0},
           "manson halford": {"base_exponent": 0.4}, "leve": {"base_exponent": 2.0}, "si jian": {}}


def nonlinear(cx):
    rng = cx.rng
    sn, par = make.sn_curve(rng, endurance=False)
    n = int(rng.integers(2, 12))
    rng_ = rng.uniform(0.1, 0.6, n) * 100
    life = sn.get_cycles(rng_)
    cnt = life * rng.uniform(0.001, 0.5 / n, n)
    rule = list(PRESETS)[cx.index % 4]
    full = dict(PRESETS[rule])
    if "base_exponent" in full:
        full["base_exponent"] *= float(rng.uniform(0.5, 1.2))
    given = {k: v for k, v in full.items() if rng.random() < 0.5}
    cc = pf.CycleCount(cnt, rng_, np.zeros(n), timestamp=gen.stamp(rng), unit=sn.unit)
    cx.note(rows=make.rows(cc), rule=rule, given=given, curve=par)
    cx.key(make.rows(cc), rule, given)
    missing = [k for k in full if k not in given]
    fn = lambda: sl.get_nonlinear_damage(rule, cc, sn, **given)  # noqa: E731
    if rng.random() < 0.5:
        fn = lambda: sl.calc_nonlinear_damage(rule, rng_, cnt, sn, **given)  # noqa: E731
    if missing:
        _, texts = loud(cx, fn, f"{rule} without {missing}", len(missing), missing)
        cx.check(len(texts) == len(missing), "needless-warning", f"{rule} without {missing}: {texts}")
        cx.event("default_parameters")
        as_error(cx, fn, [cc, sn], f"{rule} without {missing}")
    else:
        quiet(cx, fn, f"{rule}, all parameters given")
        cx.event("given_parameters")


def others(cx):
    rng = cx.rng
    cc = ordinary(rng, bins=dict(BINS, range_bin_width=float(max(0.5, 1e-3))))
    cx.note(rows=make.rows(cc))
    cx.key(make.rows(cc))
    # level crossings
    x = rng.normal(0, 1, int(rng.integers(2, 40)))
    x = x[np.abs(x) > 1e-9]
    if len(x) > 1:
        level = float(rng.uniform(-3, 3))
        any_crossing = bool(np.any(np.diff(np.sign(x - level))))
        if any_crossing:
            quiet(cx, lambda: findcross(x, level), "crossings found")
        else:
            loud(cx, lambda: findcross(x, level), "no crossings")
            cx.event("no_crossings")
    # ordinary use
    sn, _ = make.sn_curve(rng, unit=cc.unit)
    quiet(cx, lambda: sl.get_pm(cc, sn), "damage")
    quiet(cx, lambda: sl.get_des(cc, 4.0), "equivalent range")
    quiet(cx, cc.to_df, "table")
    if 0.5 < np.max(cc.stress_range) < 5e3 and np.ptp(cc.mean_stress) < 1e4:
        out = quiet(cx, cc.as_dict, "export")
        quiet(cx, lambda: pf.CycleCount.from_rainflow(out, timestamp=cc.timestamp, unit=cc.unit), "import")
    quiet(cx, lambda: str(cc), "text")
    quiet(cx, lambda: (sn.get_cycles([10.0, 50.0]), sn.get_stress([1e5, 1e7]), sn.get_knee_cycles()), "curve")
    geo = crack.geometry(rng, cx.index % 2)
    cnt = crack.count(rng.uniform(5, 60, 4), np.ones(4))
    quiet(cx, lambda: crack_growth.get_crack_growth(cnt, pf.ParisCurve([3.0], [1e-13]), geo), "crack growth")
    # superseded names
    for fn, new in ((lambda: sn.n(50.0), sn.get_cycles(50.0)), (lambda: sn.sigma(1e6), sn.get_stress(1e6))):
        out, texts = warned(fn, FutureWarning)
        cx.check(len(texts) >= 1, "no-warning", "superseded name")
        cx.close(out, new, "superseded-value", rtol=1e-12)
        cx.event("deprecated")


WORKLOADS = [
    Workload("sums", sums, 300, 4000),
    Workload("nothing", nothing, 60, 600),
    Workload("scaling", scaling, 100, 1000),
    Workload("resolving", resolving, 80, 900),
    Workload("correcting", correcting, 150, 1500),
    Workload("nonlinear", nonlinear, 150, 1500),
    Workload("others", others, 60, 600),
]
