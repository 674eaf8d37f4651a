"""Cases, verdicts and the worker loop.

A *workload* is a function run on one case; a case is determined by
(seed, property, workload, index).  The function drives the code under test and
evaluates oracles through its :class:`Case`.
"""
from __future__ import annotations

import hashlib
import json
import os
import traceback
import warnings
import zlib

import numpy as np


class Violation(Exception):
    """An oracle did not accept what the code under test did."""

    def __init__(self, mechanism, message, data=None):
        super().__init__(message)
        self.mechanism = mechanism
        self.message = message
        self.data = data or {}


class Skip(Exception):
    """The case is outside what the oracle can judge (borderline input)."""


def jsonable(obj, depth=0):
    """Shortened, JSON-compatible rendering of a value for reports."""
    if depth > 5:
        return repr(obj)[:120]
    if obj is None or isinstance(obj, (bool, int, str)):
        return obj if not isinstance(obj, str) else obj[:400]
    if isinstance(obj, float):
        return obj if np.isfinite(obj) else repr(obj)
    if isinstance(obj, np.generic):
        return jsonable(obj.item(), depth)
    if isinstance(obj, np.ndarray):
        if obj.size > 60:
            return {
                "array": f"{obj.dtype} {obj.shape}",
                "head": jsonable(obj.ravel()[:24].tolist(), depth + 1),
            }
        return jsonable(obj.tolist(), depth)
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(obj.items())[:40]}
    if isinstance(obj, (list, tuple, set)):
        obj = list(obj)
        out = [jsonable(v, depth + 1) for v in obj[:60]]
        if len(obj) > 60:
            out.append(f"... {len(obj)} items")
        return out
    return repr(obj)[:300]


class Case:
    """What a workload function gets: random numbers and monitors."""

    def __init__(self, prop, workload, index, seed, tier, acc):
        self.prop, self.workload, self.index = prop, workload, index
        self.seed, self.tier = seed, tier
        self.acc = acc
        self.rng = np.random.default_rng(
            [seed & 0xFFFFFFFF, zlib.crc32(prop.encode()),
             zlib.crc32(workload.encode()), index]
        )
        self.notes = {}
        self._key = hashlib.blake2b(digest_size=8)
        self._keyed = False

    # --- monitors -----------------------------------------------------
    def check(self, ok, mechanism, message="", **data):
        """Evaluate an oracle verdict."""
        self.acc["oracle_evaluations"] += 1
        if not ok:
            data = {**self.notes, **data}
            raise Violation(mechanism, message or mechanism, jsonable(data))

    def close(self, got, want, mechanism, message="", rtol=1e-9, atol=0.0, **data):
        """Numerical agreement (same shape, NaN equals NaN)."""
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            with np.errstate(all="ignore"):
                ok = bool(np.allclose(g.astype(float), w.astype(float), rtol=rtol,
                                      atol=atol, equal_nan=True))
        self.check(ok, mechanism, message, got=got, want=want, **data)

    def same(self, got, want, mechanism, message="", **data):
        """Exact agreement."""
        if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            ok = g.shape == w.shape and bool(np.array_equal(g, w))
        else:
            ok = type(got) is type(want) and got == want or got == want
        self.check(ok, mechanism, message, got=got, want=want, **data)

    def raises(self, exc, fn, mechanism, message="", **data):
        """The call must be refused with one of the given exceptions."""
        self.acc["oracle_evaluations"] += 1
        try:
            res = fn()
        except exc:
            self.event("refused")
            return
        except OSError:
            raise
        except Exception as err:  # wrong kind of refusal
            raise Violation(
                mechanism, f"{message}: raised {type(err).__name__}: {err}",
                jsonable({**self.notes, **data})) from err
        raise Violation(mechanism, f"{message}: accepted",
                        jsonable({**self.notes, **data, "returned": res}))

    # --- evidence -----------------------------------------------------
    def event(self, name, count=1):
        ev = self.acc["events"]
        ev[name] = ev.get(name, 0) + count

    def note(self, **kw):
        """Inputs of the case, kept for the report of a violation."""
        self.notes.update(kw)

    def key(self, *objs):
        """Count the case as non-trivial, distinct by these inputs."""
        for obj in objs:
            if isinstance(obj, np.ndarray):
                self._key.update(repr((obj.dtype.str, obj.shape)).encode())
                self._key.update(np.ascontiguousarray(obj).tobytes())
            else:
                self._key.update(repr(obj).encode())
        self._keyed = True

    def sample(self, **kw):
        if len(self.acc["samples"]) < 3:
            self.acc["samples"].append(
                {"workload": self.workload, "case": self.index, **jsonable(kw)})


class Workload:
    def __init__(self, name, fn, quick, thorough=None, env=None, exhaustive=False):
        self.name, self.fn = name, fn
        self.quick = quick
        self.thorough = quick * 10 if thorough is None else thorough
        self.env = env or {}
        self.exhaustive = exhaustive

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough


def new_acc():
    return {"oracle_evaluations": 0, "events": {}, "samples": []}


def run_case(prop, wl, index, seed, tier, acc):
    """Run one case; returns (status, info)."""
    case = Case(prop, wl.name, index, seed, tier, acc)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                wl.fn(case)
    except Skip:
        return "skip", None
    except Violation as vio:
        return "violation", {
            "workload": wl.name, "index": index, "mechanism": vio.mechanism,
            "message": vio.message, "data": vio.data}
    except (OSError, KeyboardInterrupt):
        raise
    except Exception as err:  # pylint: disable=broad-except
        return "violation", {
            "workload": wl.name, "index": index,
            "mechanism": f"exception:{type(err).__name__}",
            "message": f"{type(err).__name__}: {err}"[:600],
            "data": jsonable(case.notes),
            "traceback": traceback.format_exc()[-3000:]}
    return "ok", (case._key.hexdigest() if case._keyed else None)


def run_shard(prop, workloads, seed, tier, shard, nshards, progress=None):
    """Run every nshards-th case of each workload."""
    report = {"workloads": {}, "violations": [], "digests": [], **new_acc()}
    digests = set()
    for wl in workloads:
        stat = {"cases": 0, "judged": 0, "borderline": 0, "violations": 0}
        for index in range(shard, wl.cases(tier), nshards):
            if progress:
                progress(wl.name, index)
            status, info = run_case(prop, wl, index, seed, tier, report)
            stat["cases"] += 1
            if status == "ok":
                stat["judged"] += 1
                if info:
                    digests.add(info)
            elif status == "skip":
                stat["borderline"] += 1
            else:
                stat["violations"] += 1
                if len(report["violations"]) < 40:
                    report["violations"].append(info)
        report["workloads"][wl.name] = stat
    report["digests"] = sorted(digests)
    return report


def serial_kernels():
    """Compile without parallel code, in which numba does not check bounds."""
    import numba
    njit = numba.njit

    def serial(*args, **kwargs):
        if "parallel" in kwargs:
            kwargs["parallel"] = False
        return njit(*args, **kwargs)
    numba.njit = serial


def boot(repo):
    """Import the code under test from the working tree."""
    import time
    time.sleep = lambda *_: None  # the chunked sum sleeps for its progress bar
    if os.environ.get("PFMON_SERIAL"):
        serial_kernels()
    import py_fatigue
    where = os.path.realpath(py_fatigue.__file__)
    if not where.startswith(os.path.realpath(repo) + os.sep):
        raise OSError(f"py_fatigue imported from {where}, not from {repo}")
    import matplotlib
    matplotlib.use("Agg")
    return py_fatigue


def load_check(prop):
    import importlib
    return importlib.import_module(f"pfmon.checks.{prop.lower()}")


def worker_main(argv):
    """python -m pfmon.worker <prop> <group> <shard> <nshards> <out> <repo>"""
    prop, group, shard, nshards, out, repo = argv
    seed = int(os.environ["VERIF_SEED"])
    tier = os.environ["VERIF_TIER"]
    boot(repo)
    mod = load_check(prop)
    wls = [w for w in mod.WORKLOADS if group_name(w.env) == group]
    last = out + ".last"

    def progress(name, index):
        with open(last, "w") as fh:
            fh.write(json.dumps([name, index]))

    if hasattr(mod, "prepare"):
        mod.prepare()
    rep = run_shard(prop, wls, seed, tier, int(shard), int(nshards), progress)
    if hasattr(mod, "export"):
        rep["export"] = mod.export()
    with open(out + ".tmp", "w") as fh:
        json.dump(rep, fh)
    os.replace(out + ".tmp", out)


def group_name(env):
    return ",".join(f"{k}={v}" for k, v in sorted(env.items())) or "default"
