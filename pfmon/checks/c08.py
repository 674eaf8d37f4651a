"""C08: export and import of cycle counts."""
import json

import numpy as np

import py_fatigue as pf

from pfmon import binned, gen, make, ref
from pfmon.core import Skip, Workload

RULE = (
    "A case is one cycle count exported with random options and imported again "
    "(directly, through JSON, with legacy keys). Non-trivial: something lies "
    "above the range lower bound; distinct by rows and options."
)
REQUIRED_EVENTS = ["histogram_cycles", "listed_cycles", "half_cycles", "round_trips",
                   "legacy_exports", "small_rows", "without_residuals"]


def spectrum_count(rng, big=False):
    """Clustered count whose full cycles cover few bins."""
    n = int(rng.integers(1, 40))
    counts = rng.choice([0.5, 0.5, 1.0, 1.0, 1.5, 2.0, 5.0, 7.5, 30.0], n)
    if big:
        counts = counts * rng.choice([1.0, 3.0, 100.0], n)
        counts = np.floor(counts * 2) / 2
    bins = gen.bins(rng)
    ranges = rng.uniform(0.05, 40 * bins["range_bin_width"] + 2, n)
    if rng.random() < 0.3:
        ranges = np.round(ranges / bins["range_bin_width"]) * bins["range_bin_width"]
        ranges = np.maximum(ranges, bins["range_bin_width"])
    means = rng.normal(0, 3 * bins["mean_bin_width"], n)
    res = [None, np.empty(0), np.round(rng.normal(0, 9, 12), 6), rng.normal(0, 50, 5)][
        int(rng.integers(0, 4))]
    if rng.random() < 0.2:
        means = np.abs(means)
    cc = pf.CycleCount(
        count_cycle=counts, stress_range=ranges, mean_stress=means,
        timestamp=gen.stamp(rng, int(rng.integers(0, 99))), name="x",
        nr_small_cycles=int(rng.integers(0, 9)), residuals_sequence=res, **bins)
    low = gen.mean_bound(rng, float(np.min(means)), bins["mean_bin_width"])
    if low is not None:
        cc.mean_bin_lower_bound = low
    return cc


def split_rows(cc, mean_zero=False):
    ran = np.asarray(cc.stress_range, float)
    mea = np.zeros(len(ran)) if mean_zero else np.asarray(cc.mean_stress, float)
    cnt = np.asarray(cc.count_cycle, float)
    big = ran >= cc.range_bin_lower_bound
    whole = np.floor(cnt[big]).astype(int)
    full = np.column_stack([np.repeat(mea[big], whole), np.repeat(ran[big], whole)])
    is_half = cnt[big] - whole == 0.5
    half = np.column_stack([mea[big][is_half], ran[big][is_half]])
    return full, half, int(np.sum(~big))


def judge_export(cx, cc, dct, legacy, decimals):
    full, half, small = split_rows(cc, legacy)
    tol = 0.5000001 * 10.0 ** -decimals + 1e-11
    cx.check(dct["nr_small_cycles"] == cc.nr_small_cycles + small, "small-cycles",
             f"{dct['nr_small_cycles']} instead of {cc.nr_small_cycles} + {small}")
    cx.close(dct["range_bin_lower_bound"], cc.range_bin_lower_bound, "bin-definition")
    cx.close(dct["range_bin_width"], cc.range_bin_width, "bin-definition")
    if not legacy:
        cx.close(dct["mean_bin_lower_bound"], cc.mean_bin_lower_bound, "bin-definition")
        cx.close(dct["mean_bin_width"], cc.mean_bin_width, "bin-definition")
    res = np.asarray(dct["res"], float)
    res = np.column_stack([np.zeros(len(res)), res]) if legacy else res.reshape(-1, 2)
    cx.check(ref.same_multiset(res, half, tol), "half-cycles",
             "half cycles lost or changed", got=res, want=half)
    if cc.residuals_sequence is None:
        cx.check(dct["res_sig"] is None, "residual-sequence", "made up")
        cx.event("without_residuals")
    else:
        cx.close(np.asarray(dct["res_sig"], float), np.asarray(cc.residuals_sequence, float),
                 "residual-sequence", atol=tol, rtol=1e-13)
    for name in ("lg_c", "res", "res_sig"):
        val = np.asarray(dct[name] if dct[name] is not None else [], float)
        cx.check(np.allclose(np.round(val, decimals), val, rtol=1e-14, atol=0), "decimals",
                 f"{name} is not rounded to {decimals} decimals", got=val)
    nlg = len(dct["lg_c"])
    nhist = sum(binned.hist_cells(dct).values())
    cx.check(nlg + nhist == len(full), "full-cycles",
             f"{nlg} listed and {nhist} binned cycles instead of {len(full)}")
    if decimals >= 4:
        uniq, mult = binned.unique(full)
        left = binned.judge_listed(cx, uniq, mult, dct, decimals)
        binned.judge_cells(cx, uniq, left, dct)
    cx.event("half_cycles", len(half))
    cx.event("small_rows", small)
    return full, half


def judge_import(cx, imp, dct, cc, legacy, decimals, import_decimals):
    """Imported rows are those of the dictionary, at bin centres."""
    want = []
    for (i, j), num in binned.hist_cells(dct).items():
        mean = 0.0 if legacy else (dct["mean_bin_lower_bound"]
                                   + (i + 0.5) * dct["mean_bin_width"])
        want.append((dct["range_bin_lower_bound"] + (j + 0.5) * dct["range_bin_width"],
                     mean, float(num)))
    for item in dct["lg_c"]:
        want.append((item, 0.0, 1.0) if legacy else (item[1], item[0], 1.0))
    for item in dct["res"]:
        want.append((item, 0.0, 0.5) if legacy else (item[1], item[0], 0.5))
    want = np.array(want, float).reshape(-1, 3)
    tol = [0.5000001 * 10.0 ** -import_decimals + 1e-11, 1e-9, 0]
    cx.check(ref.same_multiset(make.rows(imp), want, tol), "imported-rows",
             "rows differ from the dictionary", got=make.rows(imp), want=want)
    cx.check(imp.nr_small_cycles == dct["nr_small_cycles"], "imported-small-cycles")
    cx.close(imp.range_bin_lower_bound, cc.range_bin_lower_bound, "imported-bins")
    cx.close(imp.range_bin_width, cc.range_bin_width, "imported-bins")
    if not legacy:
        cx.close(imp.mean_bin_lower_bound, cc.mean_bin_lower_bound, "imported-bins")
        cx.close(imp.mean_bin_width, cc.mean_bin_width, "imported-bins")
    if dct["res_sig"] is None:
        cx.check(imp.residuals_sequence is None, "imported-residuals", "made up")
    else:
        cx.same(np.asarray(imp.residuals_sequence, float), np.asarray(dct["res_sig"], float),
                "imported-residuals")


def options(rng):
    return dict(
        damage_tolerance_for_binning=float(rng.choice([0.0005, 0.001, 0.01, 0.1, 0.5])),
        damage_exponent=float(rng.choice([1.0, 3.0, 5.0, 8.0])),
        round_decimals=int(rng.choice([0, 1, 2, 3, 4, 4, 4, 4, 6, 8])),
        max_consecutive_zeros=int(rng.choice([1, 3, 12, 32, 10000])),
    )


def round_trip(cx, cc, route, legacy=None, **fixed):
    rng = cx.rng
    if legacy is None:
        legacy = bool(rng.random() < 0.3)
    opts = {**options(rng), **fixed}
    full, half, _ = split_rows(cc)
    cx.note(route=route, rows=make.rows(cc), legacy=legacy, options=opts,
            bins=[cc.range_bin_lower_bound, cc.range_bin_width,
                  cc.mean_bin_lower_bound, cc.mean_bin_width])
    span_r = float(np.max(cc.stress_range)) / cc.range_bin_width
    span_m = float(np.ptp(cc.mean_stress)) / cc.mean_bin_width
    if span_r * (1 if legacy else max(span_m, 1)) > 3e6 or cc.range_bin_width < 1e-3 \
            or cc.mean_bin_width < 1e-3:
        raise Skip  # a histogram nobody would ask for
    before = make.fields(cc)
    dct = cc.as_dict(legacy_export=legacy, **opts)
    text = json.dumps(dct)
    dct = json.loads(text)
    bad = make.same_fields(make.fields(cc), before)
    cx.check(not bad, "export-changed-operand", str(bad))
    judge_export(cx, cc, dct, legacy, opts["round_decimals"])
    if len(full) + len(half) == 0:
        return
    cx.key(make.rows(cc), legacy, sorted(opts.items()))
    unit = str(rng.choice(gen.UNITS))
    dec = int(rng.choice([4, 4, 6]))
    stamp = gen.stamp(rng, 3)
    imp = pf.CycleCount.from_rainflow(json.loads(text), timestamp=stamp, name="y",
                                      unit=unit, round_decimals=dec)
    judge_import(cx, imp, dct, cc, legacy, opts["round_decimals"], dec)
    cx.check(imp.timestamp == stamp and imp.name == "y" and imp.unit == unit,
             "imported-metadata")
    direct = pf.CycleCount.from_rainflow(
        cc.as_dict(legacy_export=legacy, **opts), timestamp=stamp, name="y",
        unit=unit, round_decimals=dec)
    bad = make.same_fields(make.fields(direct), make.fields(imp))
    cx.check(not bad, "json-changes-import", str(bad))
    # the status given with the import
    status = dict(mean_stress_corrected=str(rng.choice(["No", "WALKER: {'gamma': 0.5}", "yes"])),
                  lffd_solved=bool(rng.integers(0, 2)))
    told = pf.CycleCount.from_rainflow(json.loads(text), stamp, dec, "y", unit=unit, **status)
    bad = make.same_fields(make.fields(told), {**make.fields(imp), **status})
    cx.check(not bad, "imported-metadata", f"import with {status} differs in {bad}")
    cx.check(imp.mean_stress_corrected == "No" and imp.lffd_solved is False, "imported-metadata",
             "an import without status has one")
    old = json.loads(text)
    old["bin_lb"] = old.pop("range_bin_lower_bound")
    old["bin_width"] = old.pop("range_bin_width")
    old["no_sm_c"] = old.pop("nr_small_cycles")
    if dct["res_sig"] is None and rng.random() < 0.5:
        old.pop("res_sig")
    if not binned.hist_cells(dct) and rng.random() < 0.7:
        old.pop("hist")
        cx.event("without_histogram")
    leg = pf.CycleCount.from_rainflow(old, timestamp=stamp, name="y", unit=unit,
                                      round_decimals=dec)
    bad = make.same_fields(make.fields(leg), make.fields(imp))
    cx.check(not bad, "legacy-keys", str(bad))
    cx.event("round_trips")
    cx.event("legacy_exports", int(legacy))
    # once more: nothing is lost by a second trip
    again = json.loads(json.dumps(imp.as_dict(round_decimals=8)))
    judge_export(cx, imp, again, False, 8)
    cx.sample(route=route, rows=len(cc.count_cycle), listed=len(dct["lg_c"]),
              binned=sum(binned.hist_cells(dct).values()))


def spectra(cx):
    round_trip(cx, spectrum_count(cx.rng, big=cx.rng.random() < 0.3), "spectrum")


def signals(cx):
    rng = cx.rng
    x = gen.signal(rng, kind=str(rng.choice(
        ["gauss", "walk", "sines", "levels", "beats", "drift", "quantised", "block"])))[0]
    x = x * float(rng.uniform(0.2, 1))
    if np.max(np.abs(x)) > 500:
        x = x / np.max(np.abs(x)) * 200
    cc = make.from_signal(rng, x=x)
    for i in range(int(rng.integers(0, 3))):
        cc = cc + make.from_signal(rng, 5 + i, x=rng.normal(0, 20, 50))
    if rng.random() < 0.3:
        cc = cc.solve_lffd()
    if rng.random() < 0.2 and np.any(cc.mean_stress != 0):
        cc = cc.mean_stress_correction(detail_factor=0.8)
    round_trip(cx, cc, "signal")


def many(cx):
    rng = cx.rng
    if cx.index % 3 == 0:  # cells with very many cycles
        ranges, means = rng.uniform(3, 6, 3), rng.uniform(-9, 9, 3)
        cc = pf.CycleCount(
            count_cycle=np.array([70000.5, 40000.0, 300.0]), stress_range=ranges,
            mean_stress=means, timestamp=gen.stamp(rng), name="x", nr_small_cycles=70000,
            residuals_sequence=np.round(rng.normal(0, 9, 12), 3), range_bin_lower_bound=0.2,
            range_bin_width=float(rng.choice([0.05, 10.0])), mean_bin_width=5.0)
        round_trip(cx, cc, "crowded cells", legacy=True, damage_tolerance_for_binning=0.9)
        return round_trip(cx, cc, "crowded cells", legacy=False)
    if cx.index % 3 == 1:  # hundreds of bins
        num = 800
        cc = pf.CycleCount(
            count_cycle=rng.choice([1.0, 2.0, 0.5, 3.5], num), stress_range=rng.uniform(0, 400, num),
            mean_stress=rng.uniform(-300, 300, num), timestamp=gen.stamp(rng), name="x",
            residuals_sequence=np.round(rng.normal(0, 9, 12), 3), range_bin_lower_bound=0.2,
            range_bin_width=float(rng.choice([0.5, 1.0])), mean_bin_width=1.0)
        cx.event("hundreds_of_bins")
        return round_trip(cx, cc, "hundreds of bins", damage_tolerance_for_binning=0.5)
    cc = make.from_signal(rng, x=rng.normal(0, 15, 20000), bins=dict(
        range_bin_lower_bound=0.2, range_bin_width=0.5, mean_bin_width=5.0))
    return round_trip(cx, cc, "long signal")


WORKLOADS = [
    Workload("spectra", spectra, 700, 9000),
    Workload("signals", signals, 500, 6000),
    Workload("many", many, 4, 24),
]
