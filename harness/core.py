"""Monitor core: case scheduling, oracle comparisons, verdicts and evidence.

A *scenario* is a function ``f(c)`` that drives the real irtorch code through its
public interface with generated inputs and compares what it observes with an
independent reference through the case object ``c``.  A scenario is executed for a
number of *rounds*; every round has its own seed derived from
(VERIF_SEED, property, scenario, round).
"""
from __future__ import annotations

import hashlib
import logging
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The oracle observed behaviour that breaks the property."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain."""


SCENARIOS: dict[str, list] = {}
RULES: dict[str, str] = {}


def scenario(prop, quick, thorough=None, rule=None):
    def deco(f):
        SCENARIOS.setdefault(prop, []).append((f.__name__, f, quick, thorough if thorough is not None else quick * 8))
        return f

    return deco


def case_seed(seed, prop, name, rnd):
    h = hashlib.sha256(f"{seed}:{prop}:{name}:{rnd}".encode()).digest()
    return int.from_bytes(h[:7], "big")


def _np(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


def describe(x, limit=400):
    try:
        if hasattr(x, "detach"):
            x = x.detach().cpu().numpy()
        if isinstance(x, np.ndarray):
            s = np.array2string(x, precision=6, threshold=40, edgeitems=4).replace("\n", " ")
        else:
            s = repr(x)
    except Exception as e:  # pragma: no cover
        s = f"<{type(x).__name__}: {e}>"
    return s if len(s) <= limit else s[:limit] + "..."


class Case:
    def __init__(self, prop, name, rnd, seed, tier):
        self.prop, self.name, self.round, self.tier = prop, name, rnd, tier
        self.seed = case_seed(seed, prop, name, rnd)
        self.rng = np.random.default_rng(self.seed)
        self.comparisons = 0
        self.values = 0
        self.counters = {}
        self.worst = {}
        self.parts = []
        self.info = {}
        self.known = {}

    # --- recording ------------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def note(self, **kw):
        """Record what this case is about; enters the signature and the samples."""
        for k, v in kw.items():
            self.info[k] = describe(v, 160)
            self.parts.append(f"{k}={describe(v, 2000)}")

    def feed(self, *arrays):
        """Mix the actual inputs into the case signature."""
        for a in arrays:
            self.parts.append(hashlib.sha256(np.ascontiguousarray(_np(a)).tobytes()).hexdigest()[:16])

    def signature(self):
        return hashlib.sha256("|".join([self.name] + self.parts).encode()).hexdigest()[:20]

    # --- oracles --------------------------------------------------------------
    def ok(self, cond, message, **info):
        self.comparisons += 1
        if not bool(cond):
            extra = "; ".join(f"{k}={describe(v)}" for k, v in info.items())
            raise Violation(f"{message}" + (f" [{extra}]" if extra else ""))

    def equal(self, got, want, message):
        """Exact equality of arrays (NaN equals NaN)."""
        g, w = _np(got), _np(want)
        self.comparisons += 1
        self.values += int(g.size)
        if g.shape != w.shape:
            raise Violation(f"{message}: shape {g.shape}, expected {w.shape}")
        try:
            same = np.array_equal(g, w, equal_nan=True)
        except TypeError:
            same = np.array_equal(g, w)
        if not same:
            bad = np.argwhere(~((g == w) | ((g != g) & (w != w))))
            i = tuple(bad[0]) if len(bad) else ()
            raise Violation(f"{message}: at {i} got {describe(g[i])}, expected {describe(w[i])} ({len(bad)} of {g.size} differ)")

    def close(self, got, want, message, rtol=1e-4, atol=1e-5):
        """Numerical agreement; tolerances may be arrays.  NaN and infinities must coincide."""
        g = _np(got)
        w = _np(want)
        self.comparisons += 1
        self.values += int(g.size)
        if g.shape != w.shape:
            raise Violation(f"{message}: shape {g.shape}, expected {w.shape}")
        g = g.astype(np.float64)
        w = w.astype(np.float64)
        tol = np.broadcast_to(np.asarray(atol, dtype=np.float64) + np.asarray(rtol, dtype=np.float64) * np.abs(np.where(np.isfinite(w), w, 0.0)), w.shape)
        with np.errstate(invalid="ignore"):
            bad = np.where(np.isfinite(w) & np.isfinite(g), np.abs(g - w) > tol, ~((g == w) | (np.isnan(g) & np.isnan(w))))
            fin = np.isfinite(w) & np.isfinite(g)
            if fin.any():
                r = float(np.max(np.abs(g - w)[fin] / np.maximum(tol[fin], 1e-300)))
                self.worst[message] = max(self.worst.get(message, 0.0), r)
        if bad.any():
            idx = np.argwhere(bad)
            i = tuple(idx[0])
            raise Violation(f"{message}: at {tuple(int(k) for k in i)} got {g[i]!r}, expected {w[i]!r} (tolerance {tol[i]:.3g}; {int(bad.sum())} of {g.size} differ)")

    def leq(self, a, b, message, slack=0.0):
        a, b = _np(a).astype(np.float64), _np(b).astype(np.float64)
        self.comparisons += 1
        self.values += int(np.size(a))
        bad = ~(a <= b + slack)
        if np.any(bad):
            a_, b_ = np.broadcast_arrays(a, b)
            i = tuple(np.argwhere(np.broadcast_to(bad, a_.shape))[0]) if a_.ndim else ()
            raise Violation(f"{message}: {a_[i]!r} exceeds {b_[i]!r} (slack {np.max(slack):.3g}) at {i}")

    def raises(self, excs, fn, message):
        self.comparisons += 1
        logged = len(LOGGED_ERRORS)
        try:
            fn()
        except excs:
            del LOGGED_ERRORS[logged:]
            return
        except Exception as e:
            raise Violation(f"{message}: raised {type(e).__name__}: {e}")
        raise Violation(f"{message}: no exception was raised")

    def finding(self, key, fn):
        """Run the oracle of a listed known finding; a violation is reported under its key."""
        try:
            fn()
        except Violation as v:
            raise Violation(v.message, key=key)


LOGGED_ERRORS = []


class ErrorMonitor(logging.Handler):
    """records what the package logs as an error: an error that no caller gets to see was swallowed"""

    def emit(self, record):
        LOGGED_ERRORS.append(record.getMessage())


def run_case(args):
    prop, name, rnd, seed, tier, limit = args
    import random

    import torch

    f = next(s for s in SCENARIOS[prop] if s[0] == name)[1]
    c = Case(prop, name, rnd, seed, tier)
    random.seed(c.seed & 0xFFFFFFFF)
    np.random.seed(c.seed & 0xFFFFFFFF)
    torch.manual_seed(c.seed & 0x7FFFFFFFFFFF)
    torch.set_grad_enabled(True)
    out = {"scenario": name, "round": rnd, "status": "ok"}
    t0 = time.time()

    def onalarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    LOGGED_ERRORS.clear()
    try:
        f(c)
        if LOGGED_ERRORS:
            raise Violation(f"a call returned normally although an internal error was logged: {describe(LOGGED_ERRORS[0])}")
        if c.comparisons == 0:
            out["status"] = "empty"
    except Skip as e:
        out["status"] = "skip"
        out["message"] = str(e)
    except Violation as v:
        out.update(status="violation", message=v.message, key=v.key)
    except CaseTimeout:
        out.update(status="timeout", message=f"no result after {limit} s")
    except (MemoryError, OSError) as e:
        out.update(status="error", message=f"{type(e).__name__}: {e}", trace=traceback.format_exc())
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        frames = [fr for fr in tb if os.path.abspath(fr.filename).startswith(os.path.join(REPO, "irtorch"))]
        where = f" at {os.path.relpath(frames[-1].filename, REPO)}:{frames[-1].lineno} in {frames[-1].name}" if frames else ""
        out.update(
            status="violation",
            key=None,
            message=f"unexpected {type(e).__name__} on valid input{where}: {describe(str(e))}",
            trace=traceback.format_exc(),
        )
    finally:
        signal.alarm(0)
        torch.set_grad_enabled(True)
    out.update(
        comparisons=c.comparisons,
        values=c.values,
        counters=c.counters,
        worst=c.worst,
        info=c.info,
        signature=c.signature(),
        wall=time.time() - t0,
    )
    return out


def _worker_init():
    # irtorch prints progress with carriage returns: keep it out of the verdict stream
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    log = logging.getLogger("irtorch")
    log.setLevel(logging.ERROR)
    log.propagate = False
    log.handlers[:] = [ErrorMonitor()]
    import warnings

    warnings.filterwarnings("ignore")


def load_known(path):
    """finding lines of known_findings.txt: {property: {key: text}}"""
    res = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            fields = line[len("finding:"):].strip().split(None, 2)
            prop = fields[0].split("=", 1)[1]
            key = fields[1].split("=", 1)[1]
            res.setdefault(prop, {})[key] = fields[2]
    return res


def run_property(prop, tier, seed, only=None, jobs=None, verbose=False):
    from concurrent.futures import ProcessPoolExecutor, as_completed

    t0 = time.time()
    scen = SCENARIOS.get(prop, [])
    limit = 240 if tier == "quick" else 900
    deadline = 700 if tier == "quick" else 6 * 3600
    tasks = []
    for name, _, q, th in scen:
        n = q if tier == "quick" else th
        for r in range(n):
            if only is None or only == (name, r) or only == (name, None):
                tasks.append((prop, name, r, seed, tier, limit))
    if only is not None and not tasks:
        tasks = [(prop, only[0], only[1], seed, tier, limit)]
    # longest scenarios first is unknown; interleave the scenarios instead
    tasks.sort(key=lambda t: (t[2], t[1]))
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    results, unfinished = [], 0
    with ProcessPoolExecutor(max_workers=min(jobs, max(1, len(tasks))), initializer=_worker_init) as ex:
        futs = [ex.submit(run_case, t) for t in tasks]
        try:
            for fu in as_completed(futs, timeout=deadline):
                results.append(fu.result())
                if os.environ.get("VERIF_FAILFAST") and results[-1]["status"] == "violation" and not results[-1].get("key"):
                    raise TimeoutError
        except TimeoutError:
            unfinished = sum(not f.done() for f in futs)
            for f in futs:
                f.cancel()
            for p in list(ex._processes.values()):
                p.terminate()
        except Exception as e:  # a worker died
            results.append({"scenario": "-", "round": -1, "status": "error", "message": f"worker failure: {e!r}", "comparisons": 0, "values": 0, "counters": {}, "worst": {}, "info": {}, "signature": "", "wall": 0})
    results.sort(key=lambda r: (r["scenario"], r["round"]))
    return finish(prop, tier, seed, results, unfinished, time.time() - t0, only is None, verbose)


def finish(prop, tier, seed, results, unfinished, wall, write, verbose):
    known = load_known(os.path.join(VERIF, "known_findings.txt")).get(prop, {})
    viol = [r for r in results if r["status"] == "violation"]
    new = [r for r in viol if not (r.get("key") and r["key"] in known)]
    found = sorted({r["key"] for r in viol if r.get("key") and r["key"] in known})
    broken = [r for r in results if r["status"] in ("error", "timeout")]
    done = [r for r in results if r["comparisons"] > 0]
    counters, worst, per = {}, {}, {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0.0), v)
        p = per.setdefault(r["scenario"], {"cases": 0, "comparisons": 0, "values": 0, "skipped": 0, "cpu_s": 0.0})
        p["cases"] += 1
        p["comparisons"] += r["comparisons"]
        p["values"] += r["values"]
        p["skipped"] += r["status"] == "skip"
        p["cpu_s"] = round(p["cpu_s"] + r["wall"], 2)
    samples, seen = [], set()
    for r in results:
        if r["scenario"] not in seen and r["comparisons"] > 0:
            seen.add(r["scenario"])
            samples.append({"scenario": r["scenario"], "round": r["round"], **r["info"], "comparisons": r["comparisons"], "values": r["values"]})
    lines = []
    repdir = os.path.join(VERIF, "evidence", "replays")
    for i, r in enumerate(new):
        path = f"evidence/replays/{prop}-{r['scenario']}-{r['round']}.json"
        if i < 5 or verbose:
            os.makedirs(repdir, exist_ok=True)
            with open(os.path.join(VERIF, path), "w") as fh:
                json.dump({"property": prop, "scenario": r["scenario"], "round": r["round"], "seed": seed, "tier": tier, "message": r["message"], "info": r["info"], "trace": r.get("trace"), "replay_cmd": f"./check {prop} --tier {tier} --seed {seed} --case {r['scenario']}:{r['round']}"}, fh, indent=1)
            lines.append(f"VIOLATION property={prop} replay={path}")
            lines.append(f"  {r['scenario']}[{r['round']}]: {r['message']}")
        if verbose and r.get("trace"):
            lines.append(r["trace"])
    for k in found:
        lines.append(f"KNOWN-FINDING: property={prop} {known[k]}")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len({r["signature"] for r in done}),
            "rule": "one evaluation = one seeded scenario round driving the real code; distinct_nontrivial counts different (scenario, configuration, input) signatures among rounds in which the oracle made at least one comparison",
            "samples": samples,
            "oracle_comparisons": sum(r["comparisons"] for r in results),
            "values_compared": sum(r["values"] for r in results),
            "per_scenario": per,
            "observed": counters,
            "largest_error_over_tolerance": {k: float(f"{v:.3g}") for k, v in sorted(worst.items(), key=lambda kv: -kv[1])[:25]},
            "skipped": sum(r["status"] == "skip" for r in results),
            "unfinished": unfinished,
        },
        "wall_s": round(wall, 2),
        "assumptions": "Single threaded CPU float32 arithmetic of the installed torch; reference values computed independently in float64.",
        "violations": [{"scenario": r["scenario"], "round": r["round"], "message": r["message"]} for r in new[:20]],
    }
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
    for ln in lines:
        print(ln)
    for r in broken[:5]:
        print(f"INCONCLUSIVE {r['scenario']}[{r['round']}]: {r['message']}")
        if verbose and r.get("trace"):
            print(r["trace"])
    print(
        f"{prop} {tier} seed={seed}: {len(results)} rounds, {ev['coverage']['distinct_nontrivial']} distinct, "
        f"{ev['coverage']['oracle_comparisons']} comparisons over {ev['coverage']['values_compared']} values, "
        f"{len(new)} violations, {len(broken)} inconclusive, {ev['coverage']['skipped']} skipped, {unfinished} unfinished, {wall:.1f} s"
    )
    if verbose:
        for k, v in list(ev["coverage"]["largest_error_over_tolerance"].items())[:12]:
            print(f"   {v:8.3g} x tol  {k}")
        for k, v in per.items():
            print("  ", k, v)
    if new:
        return 1
    if broken or unfinished:
        return 2
    silent = [s for s, p in per.items() if p["comparisons"] == 0]
    if not per or silent:
        print(f"INCONCLUSIVE nothing observed in {silent or 'any scenario'}")
        return 2
    return 0
