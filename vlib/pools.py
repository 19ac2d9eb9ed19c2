"""Stand-ins for multiprocessing.Pool, installed before permaviss is imported.

SerialPool runs the tasks of the pool in this process, each chunk on pickled
copies of the function and of its arguments, so that tasks are as isolated
from the caller (and from each other) as they are in worker processes. Order
and chunk size are chosen by `schedule`. The real pool, with injected delays
and faults, is used by the check on schedules.
"""
import multiprocessing
import multiprocessing.pool
import os
import pickle
import random
import time

REAL_POOL = multiprocessing.Pool


class Schedule(object):
    """What the next pools do, and what has been observed on them."""

    def __init__(self):
        self.reset()

    def reset(self, mode="serial", order="forward", chunk=None, procs=None,
              delay=0., seed=0, fault_at=None, fault=None):
        self.mode, self.order, self.chunk = mode, order, chunk
        self.procs, self.delay, self.seed = procs, delay, seed
        self.fault_at, self.fault = fault_at, fault
        self.pools = self.tasks = self.maps = self.faulted = 0
        self.traces = []
        # pools of calls that are made to fail, to end their workers: left
        # to the garbage collector, these may stay
        self.keep = []


schedule = Schedule()


class InjectedFault(RuntimeError):
    pass


class Traced(object):
    """Picklable wrapper which delays a task, logs it, and may fail."""

    def __init__(self, fn, base, delay, seed, fault_at, fault, star=False):
        self.fn, self.base, self.delay, self.star = fn, base, delay, star
        self.seed, self.fault_at, self.fault = seed, fault_at, fault

    def __call__(self, arg):
        k, x = arg
        start = time.monotonic()
        if self.fault_at is not None and self.base + k == self.fault_at:
            if self.fault == "MemoryError":
                raise MemoryError("injected")
            raise InjectedFault("injected")
        if self.delay:
            time.sleep(random.Random(self.seed * 1000003 + k).random()
                       * self.delay)
        out = self.fn(*x) if self.star else self.fn(x)
        return k, os.getpid(), start, time.monotonic(), out


class SerialPool(object):

    def __init__(self, processes=None, initializer=None, initargs=(),
                 *a, **kw):
        schedule.pools += 1
        if initializer is not None:
            initializer(*initargs)

    def _run(self, fn, items, star=False):
        items = list(items)
        n = len(items)
        chunk = schedule.chunk or max(1, -(-n // 8))
        order = list(range(0, n, chunk))
        if schedule.order == "backward":
            order.reverse()
        elif schedule.order == "shuffled":
            random.Random(schedule.seed + schedule.maps).shuffle(order)
        schedule.maps += 1
        out = [None] * n
        self.finished = []
        blob = pickle.dumps(fn, pickle.HIGHEST_PROTOCOL) if n else b""
        for lo in order:
            f = pickle.loads(blob)
            idx = list(range(lo, min(n, lo + chunk)))
            args = pickle.loads(pickle.dumps([items[k] for k in idx]))
            res = []
            for k, x in zip(idx, args):
                if schedule.fault_at is not None and (
                        schedule.tasks == schedule.fault_at):
                    schedule.faulted += 1
                    schedule.tasks += 1
                    if schedule.fault == "MemoryError":
                        raise MemoryError("injected")
                    raise InjectedFault("injected")
                schedule.tasks += 1
                res.append(f(*x) if star else f(x))
            res = pickle.loads(pickle.dumps(res, pickle.HIGHEST_PROTOCOL))
            for k, r in zip(idx, res):
                out[k] = r
                self.finished.append(k)
        return out

    def map(self, fn, iterable, chunksize=None):
        return self._run(fn, iterable)

    def starmap(self, fn, iterable, chunksize=None):
        return self._run(fn, iterable, True)

    def imap(self, fn, iterable, chunksize=1):
        return iter(self._run(fn, iterable))

    def imap_unordered(self, fn, iterable, chunksize=1):
        """Results in the order in which the tasks have finished."""
        out = self._run(fn, iterable)
        return iter([out[k] for k in self.finished])

    class _Result(object):
        def __init__(self, fn):
            self.exc = self.value = None
            try:
                self.value = fn()
            except Exception as e:
                self.exc = e

        def get(self, timeout=None):
            if self.exc is not None:
                raise self.exc
            return self.value

        def wait(self, timeout=None):
            return None

        def ready(self):
            return True

        def successful(self):
            return self.exc is None

    def _async(self, fn, callback, error_callback):
        r = self._Result(fn)
        if r.exc is None and callback is not None:
            callback(r.value)
        if r.exc is not None and error_callback is not None:
            error_callback(r.exc)
        return r

    def map_async(self, fn, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return self._async(lambda: self._run(fn, iterable), callback,
                           error_callback)

    def starmap_async(self, fn, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self._async(lambda: self._run(fn, iterable, True), callback,
                           error_callback)

    def apply(self, fn, args=(), kwds={}):
        return self._run(lambda_free(fn, kwds), [args], True)[0]

    def apply_async(self, fn, args=(), kwds={}, callback=None,
                    error_callback=None):
        return self._async(lambda: self.apply(fn, args, kwds), callback,
                           error_callback)

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class lambda_free(object):
    def __init__(self, fn, kwds):
        self.fn, self.kwds = fn, kwds

    def __call__(self, *args):
        return self.fn(*args, **self.kwds)


class RealPool(multiprocessing.pool.Pool):
    """The real pool with a given number of workers, delays and faults."""

    def __init__(self, processes=None, *a, **kw):
        schedule.pools += 1
        if processes is None:
            processes = schedule.procs
        multiprocessing.pool.Pool.__init__(self, processes, *a, **kw)
        if schedule.fault_at is not None:
            schedule.keep.append(self)

    def _traced(self, func, items, star=False):
        f = Traced(func, schedule.tasks, schedule.delay,
                   schedule.seed + schedule.maps, schedule.fault_at,
                   schedule.fault, star)
        if schedule.fault_at is not None and (
                schedule.tasks <= schedule.fault_at
                < schedule.tasks + len(items)):
            schedule.faulted += 1
        schedule.tasks += len(items)
        schedule.maps += 1
        return f

    def map(self, func, iterable, chunksize=None, star=False):
        items = list(iterable)
        f = self._traced(func, items, star)
        raw = multiprocessing.pool.Pool.map(
            self, f, list(enumerate(items)), chunksize or schedule.chunk)
        ends = sorted(raw, key=lambda r: r[3])
        schedule.traces.append((
            len({r[1] for r in raw}), tuple(r[0] for r in ends)))
        return [r[4] for r in raw]

    def starmap(self, func, iterable, chunksize=None):
        return self.map(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        items = list(iterable)
        f = self._traced(func, items)
        return iter([r[4] for r in multiprocessing.pool.Pool.imap_unordered(
            self, f, list(enumerate(items)), chunksize)])

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable, chunksize))


def make_pool(*a, **kw):
    """Replacement of multiprocessing.Pool."""
    if schedule.mode == "serial":
        return SerialPool(*a, **kw)
    if schedule.mode == "real":
        kw.setdefault("context", multiprocessing.get_context())
        return RealPool(*a, **kw)
    return REAL_POOL(*a, **kw)


def install():
    multiprocessing.Pool = make_pool
