"""C18: results do not depend on workers, schedules or history."""
import gc
import multiprocessing
import signal
import time

import numpy as np

from vlib import gens, pools, ref
from vlib.core import Violation
from vlib.pools import schedule

PROPERTY = "C18"
RULE = (
    "the same call of create_MV_ss runs on real pools of 1 to 8 worker "
    "processes with seeded delays in the tasks and several chunk sizes, on "
    "pools with spawned workers, on serial pools with forward, backward and "
    "shuffled order, after calls with another prime and other data, and "
    "after calls in which a task fails; all results have to be the same "
    "(barcodes, pages, extensions, representatives), a failed task has to "
    "raise, and no worker may be left; non-trivial: tasks of some map "
    "finished out of order, or on more than one process; distinct: by order "
    "of completion and number of processes of each map")
ASSUMPTIONS = ["faults are injected in tasks which go through Pool.map",
               "killed workers are not injected: multiprocessing.Pool never "
               "returns then, whatever the caller does"]
JOBS = 4
PLAN = {"quick": [("fork", 26), ("order", 40), ("fault", 26), ("spawn", 4),
                  ("history", 30)],
        "thorough": [("fork", 900), ("order", 2500), ("fault", 900),
                     ("spawn", 60), ("history", 1500)]}
NEED = {"results_compared": 120, "out_of_order": 20, "faults_raised": 10,
        "several_processes": 10, "real_tasks": 250}


def need(counters):
    """Code that uses no pool at all has no schedules to observe."""
    if counters.get("pools_used", 0) == 0:
        return {"results_compared": NEED["results_compared"]}
    if counters.get("real_tasks", 0) == 0:
        # tasks which are not handed over as a whole are not traced
        return {k: NEED[k] for k in ("results_compared", "faults_raised")}
    return NEED


def make(kind, rng, i):
    if kind == "spawn":
        c = gens.mv_case(rng, dims=(1, 2), families=["strip", "loops"],
                         divs=[2], max_dims=(2,), budget=.3, nmax=14,
                         cells=(2, 2))
    elif kind in ("fork", "fault") or rng.random() < .7:
        c = gens.mv_case(rng, dims=(1, 2, 2, 2), budget=1., nmax=24,
                         divs=[2, 2, 3], max_dims=(1, 2, 2, 3), cells=(6, 8))
    else:
        c = gens.suspension_case(rng, 2, budget=2.)
    c["kind"] = kind
    c["seed"] = int(rng.integers(1 << 30))
    c["procs"] = int(rng.choice([1, 2, 2, 3, 8]))
    c["chunk"] = [None, 1, 2, 5][int(rng.integers(4))]
    if kind == "history":
        c["other"] = gens.mv_case(rng, dims=(1, 2), budget=.5, nmax=20,
                                  divs=[2, 3], max_dims=(1, 2), cells=(6, 8))
    return c


def basis(b):
    return [b.dim, ref.bars_list(b.barcode) if b.dim else []]


def signature(ss, p):
    """Everything a result says, with chains reduced to their nonzeros."""
    out = {"ph": [basis(b) for b in ss.persistent_homology],
           "pages": np.asarray(ss.page_dim_matrix).tolist()}
    last = ss.no_pages - 1
    if last >= 1:
        out["last"] = [[basis(b) for b in col] for col in ss.Hom[last]]
        reps = []
        for n, col in enumerate(ss.Hom_reps[last]):
            for deg in range(len(ss.Hom[last][n])):
                if ss.Hom[last][n][deg].dim == 0:
                    continue
                for k, ch in enumerate(col[deg]):
                    for idx, (r, co) in enumerate(zip(ch.ref, ch.coord)):
                        for e, row in zip(r, co):
                            row = ref.to_int(row) % p
                            reps += [(n, deg, k, idx, int(e), int(j),
                                      int(row[j]))
                                     for j in np.nonzero(row)[0]]
        out["reps"] = sorted(reps)
    out["ext"] = [[[(np.asarray(e).shape, (ref.to_int(e) % p).tolist())
                    for e in row if np.asarray(e).size]
                   for row in col] for col in ss.extensions]
    return out


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


class Wall(object):
    """Real time limit: a stuck pool uses no CPU time."""

    def __init__(self, seconds):
        self.seconds = seconds

    def fire(self, *a):
        raise Violation("no result within {} s of real time".format(
            self.seconds))

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self.fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def children():
    return {p.pid for p in multiprocessing.active_children()}


def no_workers(mon, before, limit=20.):
    """All worker processes of the call end by themselves."""
    gc.collect()
    end = time.time() + limit
    while children() - before and time.time() < end:
        time.sleep(.02)
    left = children() - before
    if left:
        raise Violation("{} worker processes are left {} s after the "
                        "result".format(len(left), limit))
    mon.count("no_worker_left")


def observe(case, mon):
    from permaviss.spectral_sequence.MV_spectral_seq import create_MV_ss
    args, p, kind = gens.args_of(case), case["p"], case["kind"]
    seed = case["seed"]
    before = children()

    def run(what, **how):
        schedule.reset(**how)
        with Wall(200):
            ss = mon.call(create_MV_ss, *args)
        return what, signature(ss, p)

    def compare(got):
        what, sig = got
        mon.must(sig == base, "result with {} differs from the serial one "
                 "in {}: {} instead of {}", what, diff(base, sig),
                 [sig[k] for k in diff(base, sig)],
                 [base[k] for k in diff(base, sig)])
        mon.count("results_compared")

    _, base = run("serial")
    mon.count("pools_used", schedule.pools)
    if kind == "order":
        for order, chunk in (("backward", 1), ("shuffled", case["chunk"]),
                             ("forward", 3)):
            compare(run("{} order, chunks of {}".format(order, chunk),
                        order=order, chunk=chunk, seed=seed))
            mon.count("out_of_order", order != "forward")
            if schedule.tasks > 1:
                mon.seen(order, chunk, schedule.tasks, schedule.maps)
    elif kind == "history":
        other = gens.args_of(case["other"])
        schedule.reset()
        mon.call(create_MV_ss, *other)
        compare(run("another call before"))
        pp = 3 if p == 2 else 2
        mon.call(create_MV_ss, *(args[:-1] + (pp,)))
        compare(run("the same call mod {} before".format(pp)))
        mon.seen(p, other[-1], case["max_dim"], case["other"]["max_dim"])
    elif kind == "fork":
        compare(run("{} workers".format(case["procs"]), mode="real",
                    procs=case["procs"], chunk=case["chunk"], delay=.01,
                    seed=seed))
        record(mon)
        no_workers(mon, before)
    elif kind == "spawn":
        old = multiprocessing.get_start_method()
        multiprocessing.set_start_method("spawn", force=True)
        try:
            compare(run("spawned workers", mode="real", procs=2))
        finally:
            multiprocessing.set_start_method(old, force=True)
        record(mon)
        no_workers(mon, before)
        mon.count("spawned")
    elif kind == "fault":
        total = 0
        schedule.reset()
        mon.call(create_MV_ss, *args)
        total = schedule.tasks
        if total == 0:
            return
        rng = np.random.default_rng(seed)
        many = [int(v) for v in rng.permutation(total)[:22]]
        for mode, at in [("serial", v) for v in many[:-1]] + [
                ("real", many[-1])]:
            fault = str(rng.choice(["MemoryError", "InjectedFault"]))
            schedule.reset(mode=mode, procs=2, fault_at=at, fault=fault)
            raised = False
            with Wall(200):
                try:
                    create_MV_ss(*args)
                except (MemoryError, pools.InjectedFault):
                    raised = True
                except Violation:
                    raise
                except Exception as e:
                    # another error: the failure is not hidden either
                    raised = True
            for pool in schedule.keep:
                pool.terminate()
                pool.join()
            schedule.keep = []
            if schedule.faulted:
                mon.must(raised, "task {} of {} failed with {}, and "
                         "create_MV_ss returned a result all the same", at,
                         total, fault)
                mon.count("faults_raised")
                mon.seen(mode, at, total, fault)
            # pools of a failed call are dropped with their workers
            if mode == "real" or at == many[0]:
                gc.collect()
                compare(run("a failed call before"))


def record(mon):
    """What has been seen on the real pools."""
    mon.count("real_tasks", schedule.tasks)
    for procs, order in schedule.traces:
        mon.count("several_processes", procs > 1)
        mon.count("out_of_order", list(order) != sorted(order))
        if procs > 1 or list(order) != sorted(order):
            mon.seen(procs, order)
