"""Shared machinery of the checks: case scheduling, verdicts, evidence, replay.

A check module defines

    PROPERTY = "C01"
    LEVEL    = "exploration"
    RULE     = "how cases are made and what makes one non-trivial"
    TIERS    = {"quick": n_cases, "thorough": n_cases}
    FLOORS   = {"counter": minimum}      # monitor must have been reached
    def case(ctx): ...

``case`` drives the real code under one pseudo-random workload and reports what
its monitor saw through ``ctx``.  Verdicts are three-valued: a violation (exit
1), held on everything explored (exit 0), or inconclusive (exit 2: the harness
itself failed, or the counters say that the monitor was not reached).
"""

import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
# CPU seconds one case may burn before it counts as "does not terminate".  A
# case normally takes milliseconds.
CASE_CPU_LIMIT = 60.0


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """Raised by a monitor.  ``key`` names the failing mechanism."""

    def __init__(self, key, message, detail=None):
        super().__init__(f"[{key}] {message}")
        self.key, self.message, self.detail = key, message, detail


class Ctx:
    def __init__(self, prop, seed, index, tier):
        self.prop, self.seed, self.index, self.tier = prop, seed, index, tier
        self.rng = random.Random(f"{prop}/{seed}/{index}")
        self.counters = collections.Counter()
        self.sigs = set()
        self.violations = []
        self.samples = []
        self.trace = []  # event log of this case, saved when it fails

    def count(self, name, n=1):
        self.counters[name] += n

    def sig(self, *what):
        """Register a judged behaviour; RULE says when two are the same."""
        self.counters["judged"] += 1
        self.sigs.add(
            hashlib.blake2b(repr(what).encode(), digest_size=8).digest()
        )

    def log(self, *ev):
        self.trace.append(ev)
        if len(self.trace) > 4000:
            del self.trace[:2000]

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, key, message, detail=None):
        self.violations.append(
            {"key": key, "message": str(message)[:2000], "detail": _clip(detail)}
        )

    def expect(self, cond, key, message, detail=None):
        self.counters["assertions"] += 1
        if not cond:
            raise Violation(key, message() if callable(message) else message, detail)


def _clip(d):
    if d is None:
        return None
    s = d if isinstance(d, str) else repr(d)
    return s[:4000]


def _from_repo(exc):
    """True if the exception came out of the code under test."""
    frames = traceback.extract_tb(exc.__traceback__)
    inrepo = [i for i, f in enumerate(frames) if f.filename.startswith(REPO + "/")]
    if not inrepo:
        return False
    # innermost frame of ours after the last repo frame => raised by our own
    # callback (a scripted leaf, the simulated middleware), which is part of
    # the workload only if it says so.
    last = inrepo[-1]
    return not any(
        f.filename.startswith(HERE) for f in frames[last + 1 :]
    ) or getattr(exc, "_workload_fault", False)


def _describe(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    loc = [f for f in frames if f.filename.startswith(REPO + "/")]
    where = ""
    if loc:
        f = loc[-1]
        where = f"{os.path.relpath(f.filename, REPO)}:{f.name}"
    return f"{type(exc).__name__}: {str(exc)[:300]} (in {where})"


def run_case(mod, seed, index, tier):
    ctx = Ctx(mod.PROPERTY, seed, index, tier)
    out = io.StringIO()
    error = None

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    limit = getattr(mod, "CASE_CPU_LIMIT", CASE_CPU_LIMIT)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        with contextlib.redirect_stdout(out):
            mod.case(ctx)
    except Violation as v:
        ctx.violation(v.key, v.message, v.detail)
    except CaseTimeout as e:
        if _from_repo(e) or any(
            f.filename.startswith(REPO + "/")
            for f in traceback.extract_tb(e.__traceback__)
        ):
            ctx.violation(
                "no-termination",
                f"an operation of the code under test used {limit:.0f} CPU seconds "
                "without returning",
                traceback.format_exc()[-3000:],
            )
        else:
            error = "case timeout in harness\n" + traceback.format_exc()[-3000:]
    except Exception as e:
        if _from_repo(e):
            ctx.violation(
                "unexpected-exception:" + type(e).__name__,
                "the code under test raised where it must answer: " + _describe(e),
                traceback.format_exc()[-3000:],
            )
        else:
            error = traceback.format_exc()[-4000:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return {
        "index": index,
        "counters": dict(ctx.counters),
        "sigs": ctx.sigs,
        "violations": ctx.violations,
        "samples": ctx.samples,
        "trace": [repr(t)[:400] for t in ctx.trace[-400:]] if ctx.violations else [],
        "error": error,
    }


def known_findings():
    """Entries of known_findings.txt: (property, key-prefix, text)."""
    res = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d.get("status") == "known":
                        res.append(d)
    return res


_MOD = None


def _init(modname):
    global _MOD
    if os.environ.get("VERIF_QUIET", "1") == "1":
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 2)
    _MOD = importlib.import_module(modname)


def _work(args):
    seed, start, stop, tier = args
    agg = {
        "n": 0,
        "counters": collections.Counter(),
        "sigs": set(),
        "violations": [],
        "errors": [],
        "samples": [],
    }
    for i in range(start, stop):
        r = run_case(_MOD, seed, i, tier)
        agg["n"] += 1
        agg["counters"].update(r["counters"])
        agg["sigs"] |= r["sigs"]
        if len(agg["samples"]) < 2:
            agg["samples"] += r["samples"][:1]
        if r["error"]:
            agg["errors"].append((i, r["error"]))
            if len(agg["errors"]) > 3:
                break
        for v in r["violations"]:
            agg["violations"].append((i, v, r["trace"]))
        if len(agg["violations"]) > 2000:
            break
    return agg


def main(modname, argv):
    sys.path.insert(0, HERE)
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        r = run_case(mod, rep["seed"], rep["index"], rep["tier"])
        for v in r["violations"]:
            print(f"REPLAYED property={prop} key={v['key']}\n  {v['message']}")
            if v["detail"]:
                print("  " + v["detail"])
        for t in r["trace"]:
            print("   ", t)
        if r["error"]:
            print(r["error"])
        return 1 if r["violations"] else (2 if r["error"] else 0)
    n = int(os.environ.get("VERIF_CASES", mod.TIERS[tier]))
    if "--only" in argv:
        i = int(argv[argv.index("--only") + 1])
        r = run_case(mod, seed, i, tier)
        print(json.dumps({k: r[k] for k in ("counters", "violations", "trace")}, indent=1))
        print(r["error"] or "")
        return 0
    t0 = time.time()
    workers = int(os.environ.get("VERIF_WORKERS", getattr(mod, "WORKERS", 8)))
    chunk = max(1, min(getattr(mod, "CHUNK", 50), n // (workers * 2) or 1))
    jobs = [(seed, s, min(n, s + chunk), tier) for s in range(0, n, chunk)]
    counters = collections.Counter()
    sigs, samples, violations, errors = set(), [], [], []
    done = 0
    spawn = mp.get_context("spawn")
    workers = min(workers, len(jobs))
    with spawn.Pool(workers, _init, (modname,)) as pool:
        it = pool.imap_unordered(_work, jobs)
        wall_limit = getattr(mod, "WALL_LIMIT", 800 if tier == "quick" else 86400)
        for _ in jobs:
            try:
                a = it.next(timeout=max(1, wall_limit - (time.time() - t0)))
            except mp.TimeoutError:
                errors.append((-1, "wall limit reached: inconclusive"))
                break
            done += a["n"]
            counters.update(a["counters"])
            sigs |= a["sigs"]
            if len(samples) < 4:
                samples += a["samples"]
            violations += a["violations"]
            errors += a["errors"]
            if len(errors) > 10:
                break
        pool.terminate()
    wall = time.time() - t0

    findings = [f for f in known_findings() if f["property"] == prop]
    new, hit = {}, collections.Counter()
    for i, v, trace in sorted(violations, key=lambda x: x[0]):
        for f in findings:
            if v["key"] == f["key"] or v["key"].startswith(f["key"] + "/"):
                hit[f["key"]] += 1
                break
        else:
            new.setdefault(v["key"], (i, v, trace))
    for f in findings:
        print(
            f"KNOWN-FINDING: property={prop} {f['what']} "
            f"(observed {hit[f['key']]} times in this run)"
        )
    floors = {
        k: v for k, v in getattr(mod, "FLOORS", {}).items()
    }
    low = {k: (counters[k], v) for k, v in floors.items() if counters[k] < v}

    status = 0
    if new:
        status = 1
    elif errors or low or done < n:
        status = 2
    if not samples:
        samples = [{"counters": dict(counters)}]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": counters["judged"],
            "cases": done,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:4],
            "observed": {k: counters[k] for k in sorted(counters)},
            "known_finding_hits": dict(hit),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(new),
        "wall_s": round(wall, 2),
    }
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(
        f"{prop} tier={tier} seed={seed} cases={done}/{n} distinct={len(sigs)} "
        f"wall={wall:.1f}s "
        + " ".join(f"{k}={v}" for k, v in sorted(counters.items())[:60])
    )
    if new:
        d = os.path.join(evdir, "replay")
        os.makedirs(d, exist_ok=True)
        for key, (i, v, trace) in list(new.items())[:20]:
            safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in key)[:80]
            path = os.path.join(d, f"{prop}-{safe}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "seed": seed,
                        "tier": tier,
                        "index": i,
                        "violation": v,
                        "trace": trace,
                        "how": f"bash run.sh {prop} --replay {path}",
                    },
                    f,
                    indent=1,
                    default=repr,
                )
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  key={key} case={i}: {v['message'][:600]}")
    for i, e in errors[:3]:
        print(f"CHECK-ERROR property={prop} case={i}\n{e}")
    if low and not new:
        print(f"CHECK-ERROR property={prop} monitor not reached (have, need): {low}")
    return status


if __name__ == "__main__":
    # one identity for this module, here and in the workers
    sys.path.insert(0, HERE)
    import common

    sys.exit(common.main(sys.argv[1], sys.argv[2:]))
