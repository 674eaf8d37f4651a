"""C04: views and derived quantities of a cycle count."""
import re

import numpy as np

import py_fatigue as pf

from pfmon import gen, make
from pfmon.core import Workload

RULE = (
    "A case is one cycle count obtained by a route users take (signal, direct "
    "data with clustered counts, sum, scaling, LFFD resolution, import). "
    "Non-trivial: it has at least one row; distinct by rows and route."
)
REQUIRED_EVENTS = ["full_cycles", "half_cycles", "clustered_rows", "summaries"]


def judge(cx, cc):
    ran, mea, cnt = (np.asarray(v, float) for v in
                     (cc.stress_range, cc.mean_stress, cc.count_cycle))
    whole = np.floor(cnt).astype(int)
    full = np.column_stack([np.repeat(mea, whole), np.repeat(ran, whole)])
    is_half = cnt - whole == 0.5
    half = np.column_stack([mea[is_half], ran[is_half]])
    got_full, got_half = np.asarray(cc.full_cycles), np.asarray(cc.half_cycles)
    cx.check(make.same_rows(got_full.reshape(-1, 2), full), "full-view",
             "full cycles", got=got_full[:20], counts=cnt, n_got=len(got_full),
             n_want=len(full))
    cx.check(make.same_rows(got_half.reshape(-1, 2), half), "half-view",
             "half cycles", got=got_half[:20], counts=cnt)
    cx.check(make.same_rows(np.asarray(cc.residuals).reshape(-1, 2), half),
             "half-view", "residuals", counts=cnt)
    cx.check(abs(len(got_full) + 0.5 * len(got_half) - cnt.sum()) <= 1e-9 * cnt.sum(),
             "views-total", "views do not add up to the count")
    cx.close(cc.stress_amplitude, ran / 2, "amplitude", rtol=1e-14)
    scale = float(np.max(np.abs(mea)) + np.max(ran))
    cx.close(cc.min_stress, mea - ran / 2, "min-stress", rtol=1e-13, atol=1e-15 * scale)
    cx.close(cc.max_stress, mea + ran / 2, "max-stress", rtol=1e-13, atol=1e-15 * scale)
    allr = np.r_[full[:, 1], half[:, 1]]
    m_1 = allr.mean()
    dev = allr - m_1
    want = (m_1, np.sqrt((dev ** 2).mean()) / m_1, (dev ** 3).mean() / m_1 ** 3)
    got = cc.statistical_moments
    for name, g, w in zip(("mean", "variation", "skewness"), got, want):
        ref_scale = (np.max(allr) / m_1) ** 3
        cx.check(abs(g - w) <= 1e-9 * abs(w) + 1e-12 * ref_scale * (m_1 if name == "mean" else 1),
                 "moments", f"{name}: {g} instead of {w}")
    cx.event("full_cycles", len(full))
    cx.event("half_cycles", len(half))
    cx.event("clustered_rows", int(np.sum(cnt > 1)))


def judge_table(cx, cc):
    df = cc.to_df()
    for col in ("count_cycle", "mean_stress", "stress_range"):
        cx.same(df[col].to_numpy(), np.asarray(getattr(cc, col)), "table-rows", col)
    cx.check(len(df.columns) == 3, "table-columns", f"{list(df.columns)}")
    for key in ("name", "timestamp", "time_sequence", "residuals_sequence", "unit",
                "lffd_solved", "mean_stress_corrected", "nr_small_cycles",
                "stress_concentration_factor"):
        cx.check(key in df._metadata and make.same_value(df._metadata[key], getattr(cc, key)),
                 "table-metadata", key)


def judge_summary(cx, cc):
    """Numbers shown by the notebook summary."""
    text = cc._repr_html_()
    shown = dict(re.findall(r"<th>([^<]*)</th>\s*<td>([^<]*)</td>", text))
    cnt, ran = np.asarray(cc.count_cycle), np.asarray(cc.stress_range)
    whole = np.floor(cnt)
    want = {
        "number of full cycles": int(whole.sum()),
        "number of residuals": int(np.sum(cnt - whole == 0.5)),
        "number of small cycles": int(cc.nr_small_cycles),
    }
    for key, val in want.items():
        cx.check(shown.get(key) == str(val), "summary", f"{key}: {shown.get(key)}, not {val}")
    largest = float(shown[f"largest stress range, {cc.unit}"])
    cx.check(abs(largest - ran.max()) <= 1e-5 * ran.max() + 1e-6, "summary",
             f"largest range {largest}, not {ran.max()}")
    full = ran[whole > 0]
    if len(full) and abs(full.max() - cc.range_bin_lower_bound) > 1e-9:
        said = shown[f"largest full stress range, {cc.unit}"]
        if full.max() > cc.range_bin_lower_bound:
            try:
                good = abs(float(said) - full.max()) <= 1e-5 * full.max() + 1e-6
            except ValueError:
                good = False
            cx.check(good, "summary", f"largest full range {said}, not {full.max()}")
            cx.event("largest_full")
    cx.check(shown["residuals resolved"] == str(bool(cc.lffd_solved)), "summary",
             "LFFD status")
    cx.event("summaries")


def routes(cx):
    cc, route = make.anyhow(cx.rng, int(cx.rng.integers(0, 1000)))
    cx.note(route=route, rows=make.rows(cc))
    cx.key(make.rows(cc), route)
    cx.event("route_" + route)
    judge(cx, cc)
    judge_table(cx, cc)
    cx.sample(route=route, rows=make.rows(cc)[:4])


def summaries(cx):
    cc, route = make.anyhow(cx.rng, int(cx.rng.integers(0, 1000)))
    cx.note(route=route, rows=make.rows(cc))
    cx.key(make.rows(cc), route, "summary")
    judge_summary(cx, cc)


def clustered(cx):
    rng = cx.rng
    n = int(rng.integers(1, 12))
    counts = rng.integers(1, 40, n) / 2
    if rng.random() < 0.3:
        counts[rng.integers(0, n)] = float(rng.choice([1000, 4096.5, 65536, 20000.5]))
    if cx.index % 233 == 7:
        counts[rng.integers(0, n)] = float(rng.choice([1.1e6, 1500000.5, 2**21 + 3]))
    cc = pf.CycleCount(count_cycle=counts, stress_range=rng.uniform(0.1, 100, n),
                       mean_stress=rng.normal(0, 20, n), timestamp=gen.stamp(rng))
    cx.note(rows=make.rows(cc))
    cx.key(make.rows(cc))
    judge(cx, cc)
    judge_table(cx, cc)


def many_rows(cx):
    rng = cx.rng
    cc = make.from_signal(rng, x=gen.signal(rng, kind="gauss", size=20000)[0])
    cx.note(size=20000)
    cx.key(make.rows(cc))
    judge(cx, cc)
    judge_table(cx, cc)


WORKLOADS = [
    Workload("routes", routes, 700, 9000),
    Workload("clustered", clustered, 700, 9000),
    Workload("summaries", summaries, 200, 2000),
    Workload("many-rows", many_rows, 4, 30),
]
