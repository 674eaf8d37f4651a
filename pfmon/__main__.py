"""Runner: starts the workers of a check, judges, writes evidence."""
from __future__ import annotations

import ast
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from pfmon import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PFMON_REPO", "/repo")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
STUCK_S = 300
GUARD_S = {"quick": 840, "thorough": 10000}


def known_findings(prop):
    """Mechanisms listed as known for a property: {mechanism: text}."""
    found = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                mat = re.match(r"known: property=(\S+) mechanism=(\S+) (.*)", line)
                if mat and mat.group(1) == prop:
                    found[mat.group(2)] = mat.group(3).strip()
    return found


def worker_env(scratch, extra, seed, tier):
    cache = "numba_" + re.sub(r"\W+", "_", core.group_name(extra))
    keep = ("PATH", "HOME", "LANG", "LC_ALL", "TZ")
    env = {k: os.environ[k] for k in keep if k in os.environ}
    env.update(
        VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", CI="1",
        PYTHONPATH=HERE + os.pathsep + REPO,
        NUMBA_CACHE_DIR=os.path.join(scratch, cache),
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        NUMBA_NUM_THREADS="2", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1", TMPDIR=scratch,
    )
    env.update(extra)
    return env


def stuck_case(out):
    """The case a worker has been in for longer than STUCK_S, if any."""
    try:
        if time.time() - os.stat(out + ".last").st_mtime > STUCK_S:
            with open(out + ".last") as fh:
                return json.loads(fh.read())
    except (OSError, ValueError):
        pass
    return None


def run_workers(prop, mod, seed, tier, scratch):
    groups = {}
    for wl in mod.WORKLOADS:
        if wl.cases(tier):
            groups.setdefault(core.group_name(wl.env), wl.env)
    ncpu = os.cpu_count() or 2
    per = getattr(mod, "WORKERS", 4)
    per = max(1, min(per, ncpu))
    if tier == "thorough":
        per = max(per, min(6, ncpu)) if per > 1 else 1
    jobs = []
    for gname, genv in groups.items():
        nsh = per if len(groups) == 1 else max(1, min(per, ncpu // len(groups) or 1))
        for shard in range(nsh):
            jobs.append((gname, genv, shard, nsh))
    start = time.monotonic()
    running, reports, errors, crashes = [], [], [], []
    pending = list(jobs)
    while pending or running:
        while pending and len(running) < max(2, ncpu):
            gname, genv, shard, nsh = pending.pop(0)
            out = os.path.join(scratch, f"r{len(reports)+len(running)}_{abs(hash((gname,shard)))}.json")
            log = open(out + ".log", "wb")
            proc = subprocess.Popen(
                [sys.executable, "-m", "pfmon.worker", prop, gname, str(shard),
                 str(nsh), out, REPO],
                cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log,
                env=worker_env(scratch, genv, seed, tier), start_new_session=True)
            running.append((proc, out, log, gname))
        for item in list(running):
            proc, out, log, gname = item
            ret = proc.poll()
            if ret is None:
                stuck = stuck_case(out)
                if stuck:
                    os.killpg(proc.pid, signal.SIGKILL)
                    proc.wait()
                    running.remove(item)
                    log.close()
                    crashes.append({
                        "workload": stuck[0], "index": stuck[1], "mechanism": "hang",
                        "message": f"one case did not end within {STUCK_S} s", "data": {}})
                continue
            running.remove(item)
            log.close()
            if ret == 0 and os.path.exists(out):
                with open(out) as fh:
                    rep = json.load(fh)
                rep["group"] = gname
                reports.append(rep)
                continue
            with open(out + ".log", errors="replace") as fh:
                tail = fh.read()[-2500:]
            last = None
            if os.path.exists(out + ".last"):
                with open(out + ".last") as fh:
                    try:
                        last = json.loads(fh.read())
                    except ValueError:
                        last = None
            if ret < 0 and -ret not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT) and last:
                crashes.append({
                    "workload": last[0], "index": last[1],
                    "mechanism": f"crash:{signal.Signals(-ret).name}",
                    "message": "the process running the code under test died",
                    "data": {"log": tail}})
            else:
                errors.append(f"worker {gname} ended with {ret}: {tail}")
        if time.monotonic() - start > GUARD_S[tier]:
            for proc, *_ in running:
                try:
                    os.killpg(proc.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                proc.wait()
            errors.append("time guard reached")
            break
        time.sleep(0.05)
    return reports, errors, crashes


def decide(prop, tier, seed):
    begin = time.monotonic()
    mod = core.load_check(prop)
    scratch = tempfile.mkdtemp(prefix="pfmon_")
    try:
        reports, errors, crashes = run_workers(prop, mod, seed, tier, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    violations = crashes[:]
    events, stats, digests, samples, oracle = {}, {}, set(), [], 0
    for rep in reports:
        violations += rep["violations"]
        oracle += rep["oracle_evaluations"]
        digests.update(rep["digests"])
        for name, num in rep["events"].items():
            events[name] = events.get(name, 0) + num
        for name, stat in rep["workloads"].items():
            tot = stats.setdefault(name, {k: 0 for k in stat})
            for key, val in stat.items():
                tot[key] += val
        for smp in rep["samples"]:
            if len(samples) < 4 and all(s["workload"] != smp["workload"] for s in samples):
                samples.append(smp)
    if hasattr(mod, "finalize"):
        fin = mod.finalize(reports)
        violations += fin.get("violations", [])
        oracle += fin.get("oracle_evaluations", 0)
        events.update(fin.get("events", {}))
    known = known_findings(prop)
    fresh = [v for v in violations if v["mechanism"] not in known]
    seen_known = sorted({v["mechanism"] for v in violations if v["mechanism"] in known})
    evaluations = sum(s["cases"] for s in stats.values())
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": samples,
            "oracle_evaluations": oracle,
            "observed_events": dict(sorted(events.items())),
            "workloads": stats,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - begin, 2),
        "violations": len(fresh),
        "known_findings_seen": seen_known,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(path + ".tmp", path)
    for mech in seen_known:
        print(f"KNOWN-FINDING: property={prop} {mech}: {known[mech]}")
    if fresh:
        replay = os.path.join(HERE, "evidence", f"{prop}.replay.json")
        envs = {w.name: w.env for w in mod.WORKLOADS}
        with open(replay, "w") as fh:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "env": envs.get(fresh[0]["workload"], {}),
                       "violations": fresh[:20]}, fh, indent=1)
        for vio in fresh[:3]:
            print(f"  {vio['workload']}[{vio['index']}] {vio['mechanism']}: {vio['message'][:300]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    problems = list(errors)
    for wl in mod.WORKLOADS:
        if wl.cases(tier):
            stat = stats.get(wl.name, {"cases": 0, "judged": 0})
            if stat["cases"] != wl.cases(tier):
                problems.append(f"workload {wl.name}: {stat['cases']} of {wl.cases(tier)} cases run")
            if not seen_known and stat["judged"] * 2 < stat["cases"]:
                problems.append(f"workload {wl.name}: only {stat['judged']} of {stat['cases']} cases judged")
    for name in getattr(mod, "REQUIRED_EVENTS", []):
        if not events.get(name):
            problems.append(f"nothing observed for {name}")
    if not oracle or len(digests) < 10:
        problems.append("the oracles observed too little")
    if problems:
        for prob in problems:
            print(f"NO ANSWER property={prop}: {prob}")
        return 2
    print(f"HELD property={prop} tier={tier} seed={seed} cases={evaluations} "
          f"distinct={len(digests)} oracle={oracle} wall={evidence['wall_s']}s")
    return 0


def replay(path):
    with open(path) as fh:
        rec = json.load(fh)
    scratch = tempfile.mkdtemp(prefix="pfmon_")
    code = (
        "import sys, json\nfrom pfmon import core\n"
        f"core.boot({REPO!r})\nmod = core.load_check({rec['property']!r})\n"
        "getattr(mod, 'prepare', lambda: None)()\n"
        f"for v in {[(v['workload'], v['index']) for v in rec['violations'][:5]]!r}:\n"
        "    for w in mod.WORKLOADS:\n"
        "        if w.name == v[0]:\n"
        f"            print(json.dumps(core.run_case({rec['property']!r}, w, v[1], {rec['seed']}, {rec['tier']!r}, core.new_acc()), indent=1))\n")
    try:
        subprocess.run([sys.executable, "-c", code], cwd=scratch,
                       env=worker_env(scratch, rec.get("env", {}), rec["seed"], rec["tier"]),
                       check=False)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def selftest():
    bad = 0
    for root, _, files in os.walk(os.path.join(HERE, "pfmon")):
        for name in files:
            if name.endswith(".py"):
                with open(os.path.join(root, name)) as fh:
                    ast.parse(fh.read(), name)
    with open(os.path.join(HERE, "MANIFEST.json")) as fh:
        man = json.load(fh)
    with open(os.path.join(HERE, "properties.jsonl")) as fh:
        props = {json.loads(line)["id"] for line in fh if line.strip()}
    claimed = {c["property"] for c in man["checks"]}
    na = {c["property"] for c in man.get("not_applicable", [])}
    if claimed | na != props or claimed & na:
        print("manifest and properties differ", sorted(props ^ (claimed | na)))
        bad = 1
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    return bad


def main(argv):
    if argv[:1] == ["--selftest"]:
        return selftest()
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if tier not in GUARD_S:
        print(f"unknown tier {tier}")
        return 2
    try:
        return decide(argv[0], tier, seed)
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
