"""Driver of the runtime monitors: cases -> executions -> verdicts.

A check module (checks/cNN.py) provides

    PROPERTY   id
    RULE       how cases are made and what makes one non-trivial
    PLAN       {tier: [(kind, number of cases), ...]}
    make(kind, rng, i)   -> case (JSON-able dict), no code under test involved
    observe(case, mon)   -> runs the code under test under the monitors
    NEED       {counter: minimum}; a run which does not reach it is
               inconclusive (exit 2), never "held"
    CORPUS     optional list of fixed cases that are always run first

`observe` calls the code under test through `mon.call`, so that an exception
on a valid input is a violation, and so is a result which the monitors cannot
read (wrong sizes, types or references). Other exceptions, or a missing
attribute, are errors of the check (exit 2).
"""
import json
import os
import signal
import sys
import tempfile
import time
import traceback
import shutil

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("PERMAVISS_SRC", "/repo/src")
CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "240"))
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 1)


class Violation(Exception):
    """The property does not hold on the execution just observed."""


class CaseTimeout(BaseException):
    """The code under test did not return within its CPU-time budget."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    return x


class Monitor(object):
    """Counters, the set of distinct observations, and guarded calls."""

    def __init__(self):
        self.counters = {}
        self.distinct = set()
        self.nontrivial_now = False

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def seen(self, *key):
        """Record a non-trivial observation identified by `key`."""
        self.nontrivial_now = True
        self.distinct.add(repr(key))

    def call(self, fn, *args, **kwargs):
        """Run the code under test on an input on which it has to work."""
        self.count("calls")
        try:
            return fn(*args, **kwargs)
        except Violation:
            raise
        except Exception as exc:
            where = ""
            for fr in traceback.extract_tb(exc.__traceback__):
                if "permaviss" in fr.filename:
                    where = "{}:{}".format(
                        os.path.basename(fr.filename), fr.name)
            raise Violation("{} raised {}: {} (in {})".format(
                getattr(fn, "__name__", fn), type(exc).__name__, exc, where))

    def must(self, cond, text, *fmt):
        self.count("assertions")
        if not cond:
            raise Violation(text.format(*[str(f)[:600] for f in fmt]))


def case_rng(seed, prop, kind, i):
    salt = [ord(c) for c in prop + kind]
    return np.random.default_rng([seed, i] + salt)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, mon):
    """Returns None or the text of the violation."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    mon.nontrivial_now = False
    try:
        mod.observe(case, mon)
        return None
    except Violation as v:
        return str(v)
    except CaseTimeout:
        return ("no result within {} s of CPU time, where such cases take "
                "a few seconds at most".format(CPU_LIMIT))
    except (ValueError, IndexError, TypeError, KeyError, OverflowError,
            ZeroDivisionError, RecursionError, AttributeError) as exc:
        # The monitors read every result of the unchanged code; a result they
        # cannot read (wrong sizes, types or references) is malformed. A
        # missing attribute tells of a renamed internal: no verdict.
        if isinstance(exc, AttributeError) and not any(
                "'{}' object".format(t) in str(exc) for t in (
                    "NoneType", "list", "tuple", "dict", "int", "float",
                    "bool", "str", "numpy.ndarray")):
            raise
        last = traceback.extract_tb(exc.__traceback__)[-1]
        return "malformed result, {}: {} (while reading it in {}:{})".format(
            type(exc).__name__, str(exc)[:200],
            os.path.basename(last.filename), last.name)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _tasks(mod, tier):
    out = [("corpus", i) for i in range(len(getattr(mod, "CORPUS", [])))]
    lists = []
    for kind, n in mod.PLAN[tier]:
        lists.append([(kind, i) for i in range(n)])
    # interleave kinds, so that a run that stops early has seen all of them
    longest = max([len(l) for l in lists] or [0])
    for k in range(longest):
        for l in lists:
            lo, hi = k * len(l) // longest, (k + 1) * len(l) // longest
            out.extend(l[lo:hi])
    return out


def build_case(mod, kind, i, seed):
    if kind == "corpus":
        return mod.CORPUS[i]
    return jsonable(mod.make(kind, case_rng(seed, mod.PROPERTY, kind, i), i))


def _worker(mod, tasks, seed, path, deadline, rank):
    out = open(path, "w")
    mon = Monitor()
    evals = nontriv = skipped = 0
    samples = []
    # keep the prints of the code under test out of the report
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")
    kinds = {}
    slowest = [0., ""]
    try:
        for kind, i in tasks:
            if time.time() > deadline:
                skipped += 1
                continue
            case = build_case(mod, kind, i, seed)
            if case is None:
                skipped += 1
                continue
            t0 = time.process_time()
            text = run_case(mod, case, mon)
            t1 = time.process_time() - t0
            if t1 > slowest[0]:
                slowest = [t1, "{} {}".format(kind, i)]
            evals += 1
            kinds[kind] = kinds.get(kind, 0) + 1
            if mon.nontrivial_now:
                nontriv += 1
                if len(samples) < 2 and len(json.dumps(case)) < 3000:
                    samples.append({"kind": kind, "index": i, "case": case})
            if text is not None:
                out.write(json.dumps({
                    "violation": text, "kind": kind, "index": i,
                    "case": case}) + "\n")
                out.flush()
                break
        out.write(json.dumps({
            "done": True, "evals": evals, "nontriv": nontriv,
            "skipped": skipped, "counters": mon.counters, "kinds": kinds,
            "slowest": slowest,
            "distinct": sorted(mon.distinct), "samples": samples}) + "\n")
    except BaseException:
        out.write(json.dumps({"error": traceback.format_exc()}) + "\n")
    out.close()
    os._exit(0)


def drive(mod, tier, seed, soft_wall):
    """Run all cases of a tier on several processes. Returns the result."""
    tasks = _tasks(mod, tier)
    nproc = max(1, min(getattr(mod, "JOBS", NPROC), NPROC, len(tasks)))
    scratch = tempfile.mkdtemp(prefix="permaviss-verif-")
    start = time.time()
    deadline = start + soft_wall
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        for w in range(nproc):
            path = os.path.join(scratch, "w{}".format(w))
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                _worker(mod, tasks[w::nproc], seed, path, deadline, w)
            pids[pid] = path
        paths = list(pids.values())
        alive = dict(pids)
        stop = False
        hard = deadline + CPU_LIMIT * 1.5 + 60
        while alive and not stop:
            time.sleep(0.05)
            for pid in list(alive):
                done, status = os.waitpid(pid, os.WNOHANG)
                if done:
                    del alive[pid]
            for path in paths:
                if os.path.exists(path) and os.path.getsize(path):
                    with open(path) as f:
                        if '"violation"' in f.readline():
                            stop = True
            if time.time() > hard:
                stop = True
        for pid in alive:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
        res = {"violations": [], "errors": [], "evals": 0, "nontriv": 0,
               "skipped": 0, "counters": {}, "kinds": {}, "distinct": set(),
               "samples": [], "wall": time.time() - start,
               "slowest": [0., ""], "procs": nproc}
        for path in paths:
            done = False
            if os.path.exists(path):
                for line in open(path):
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    if "violation" in rec:
                        res["violations"].append(rec)
                        done = True
                    elif "error" in rec:
                        res["errors"].append(rec["error"])
                        done = True
                    else:
                        done = True
                        for k in ("evals", "nontriv", "skipped"):
                            res[k] += rec[k]
                        for tab in ("counters", "kinds"):
                            for k, v in rec[tab].items():
                                res[tab][k] = res[tab].get(k, 0) + v
                        res["distinct"].update(rec["distinct"])
                        res["samples"].extend(rec["samples"])
                        res["slowest"] = max(res["slowest"], rec["slowest"])
            if not done and not stop:
                res["errors"].append("a worker ended without a report")
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(mod, tier, seed, res, verdict):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = res["samples"][:4]
    for v in res["violations"][:1]:
        samples = [{"violation": v["violation"][:500], "kind": v["kind"]}]
    ev = {
        "property": mod.PROPERTY, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": res["evals"],
            "distinct_nontrivial": len(res["distinct"]),
            "rule": mod.RULE,
            "samples": samples or [{"note": "no non-trivial case"}],
            "nontrivial_executions": res["nontriv"],
            "cases_per_workload": res["kinds"],
            "monitor_counters": dict(sorted(res["counters"].items())),
            "cases_not_run_for_time": res["skipped"],
            "slowest_case_cpu_s": res["slowest"],
            "processes": res["procs"],
            "verdict": verdict,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(res["wall"], 2),
        "violations": len(res["violations"]),
    }
    path = os.path.join(VERIF, "evidence", mod.PROPERTY + ".json")
    with open(path, "w") as f:
        json.dump(jsonable(ev), f, indent=1)
        f.write("\n")


def main(mod):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in mod.PLAN:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = mod.PROPERTY
    if len(sys.argv) > 2 and sys.argv[2] == "--replay":
        rec = json.load(open(sys.argv[3]))
        mon = Monitor()
        text = run_case(mod, rec["case"], mon)
        print("replay of {}: {}".format(prop, text or "held"))
        print("observed: {}".format(mon.counters))
        return 1 if text else 0
    soft = float(os.environ.get("VERIF_WALL", 420 if tier == "quick"
                                else 6000))
    res = drive(mod, tier, seed, soft)
    short = {k: (n, res["counters"].get(k, 0))
             for k, n in (mod.need(res["counters"]) if hasattr(mod, "need")
                          else getattr(mod, "NEED", {})).items()
             if res["counters"].get(k, 0) < n}
    if res["violations"]:
        verdict = "violated"
    elif res["errors"] or short or res["evals"] == 0:
        verdict = "inconclusive"
    else:
        verdict = "held on every execution observed"
    write_evidence(mod, tier, seed, res, verdict)
    for e in res["errors"][:2]:
        sys.stderr.write("check error: " + e + "\n")
    if res["violations"]:
        rec = res["violations"][0]
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replay",
                            "{}-seed{}.json".format(prop, seed))
        with open(path, "w") as f:
            json.dump(dict(rec, property=prop, seed=seed, tier=tier), f)
        print("{}: {} (workload {} {})".format(
            prop, rec["violation"], rec["kind"], rec["index"]))
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    print("{} {}: {} executions, {} non-trivial, {} distinct observations, "
          "{:.0f} s".format(prop, tier, res["evals"], res["nontriv"],
                            len(res["distinct"]), res["wall"]))
    for k, v in sorted(res["counters"].items()):
        print("  {}: {}".format(k, v))
    if res["errors"]:
        return 2
    if short or res["evals"] == 0:
        print("INCONCLUSIVE: monitors not reached often enough: {}".format(
            short))
        return 2
    return 0
