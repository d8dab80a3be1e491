"""Deterministic stand-in for ``multiprocessing.Pool``.

The unit of isolation is the same as in the real pool: tasks are grouped into chunks, every chunk is pickled when it
is dispatched and unpickled by the worker that runs it, results travel back pickled.  Which worker takes which chunk
and in which order the chunks run is decided by the scenario's schedule; workers start with a copy of the parent's
random state, as forked workers do.
"""
import pickle
import random

import numpy as np

from dst.base import InjectedFault, h64


class _AsyncResult:
    def __init__(self, value=None, exc=None, callback=None, error_callback=None):
        self._value, self._exc = value, exc
        if exc is None and callback:
            callback(value)
        if exc is not None and error_callback:
            error_callback(exc)

    def get(self, timeout=None):
        if self._exc is not None:
            raise self._exc
        return self._value

    def wait(self, timeout=None):
        return None

    def ready(self):
        return True

    def successful(self):
        return self._exc is None


class SimPool:
    def __init__(self, owner, processes=None, initializer=None, initargs=(), **_):
        self.owner = owner
        self.n = int(processes) if processes else owner.ncpu
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.closed = False
        self._processes = self.n
        self._initializer, self._initargs = initializer, initargs
        self._rng_state = np.random.get_state()
        self._worker_rng = {}
        self._ready_workers = set()

    # -------------------------------------------------------------- core
    def _run(self, func, items, star, chunksize=None):
        if self.closed:
            raise ValueError("Pool not running")
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        if not items:
            return []
        chunksize = max(1, int(chunksize))
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        blobs = [pickle.dumps((func, chunk), protocol=pickle.HIGHEST_PROTOCOL) for chunk in chunks]
        order = list(range(len(chunks)))
        rng = self.owner.rng()
        workers = [rng.randrange(self.n) for _ in chunks]
        if self.owner.schedule == "random":
            rng.shuffle(order)
        elif self.owner.schedule == "reverse":
            order.reverse()
        elif self.owner.schedule == "single":
            workers = [0] * len(chunks)
        out, errors = {}, {}
        parent_state = np.random.get_state()
        for c in order:
            w = workers[c]
            self.owner.log.append((c, w))
            np.random.set_state(self._worker_rng.get(w, self._rng_state))
            if w not in self._ready_workers:
                self._ready_workers.add(w)
                if self._initializer:
                    self._initializer(*self._initargs)
            f, chunk = pickle.loads(blobs[c])
            try:
                res = []
                for k, item in enumerate(chunk):
                    self.owner.tasks += 1
                    self.owner.maybe_fail(c * chunksize + k)
                    res.append(f(*item) if star else f(item))
                out[c] = pickle.loads(pickle.dumps(res, protocol=pickle.HIGHEST_PROTOCOL))
            except Exception as e:  # delivered to the caller of map, as the real pool does
                errors[c] = e
            self._worker_rng[w] = np.random.get_state()
        np.random.set_state(parent_state)
        if errors:
            raise errors[order[[c in errors for c in order].index(True)]]
        return [r for c in range(len(chunks)) for r in out[c]]

    # -------------------------------------------------------------- API
    def map(self, func, iterable, chunksize=None):
        return self._run(func, iterable, False, chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self._run(func, iterable, True, chunksize)

    def imap(self, func, iterable, chunksize=1):
        return iter(self._run(func, iterable, False, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        items = list(iterable)
        res = self._run(func, items, False, chunksize)
        self.owner.rng().shuffle(res)
        return iter(res)

    def apply(self, func, args=(), kwds=None):
        return self._run(_Call(func, kwds or {}), [args], False)[0]

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        try:
            return _AsyncResult(self.apply(func, args, kwds), None, callback, error_callback)
        except Exception as e:
            return _AsyncResult(None, e, callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        try:
            return _AsyncResult(self.map(func, iterable, chunksize), None, callback, error_callback)
        except Exception as e:
            return _AsyncResult(None, e, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        try:
            return _AsyncResult(self.starmap(func, iterable, chunksize), None, callback, error_callback)
        except Exception as e:
            return _AsyncResult(None, e, callback, error_callback)

    def close(self):
        self.closed = True
        self.owner.open_pools.discard(id(self))

    def terminate(self):
        self.closed = True
        self.owner.open_pools.discard(id(self))

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _Call:
    def __init__(self, func, kwds):
        self.func, self.kwds = func, kwds

    def __call__(self, args):
        return self.func(*args, **self.kwds)


class _Ctx:
    def __init__(self, owner, method):
        self._owner, self._method = owner, method or "fork"

    def Pool(self, *a, **k):
        return self._owner.make(*a, **k)

    def get_start_method(self, *a, **k):
        return self._method

    def cpu_count(self):
        return self._owner.ncpu


class PoolWorld:
    """Owner of all simulated pools of one scenario; ``cfg`` = {ncpu, schedule, seed, fail_task}."""

    def __init__(self, cfg=None, fired=None):
        cfg = cfg or {}
        self.ncpu = int(cfg.get("ncpu", 3))
        self.schedule = cfg.get("schedule", "random")
        self.seed = cfg.get("seed", 0)
        self.fail_task = cfg.get("fail_task")
        self.fired = fired
        self.log, self.tasks, self.pools, self.open_pools = [], 0, 0, set()
        self._k = 0

    def rng(self):
        self._k += 1
        return random.Random(h64(self.seed, "pool", self._k))

    def make(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.pools += 1
        p = SimPool(self, processes, initializer, initargs)
        self.open_pools.add(id(p))
        return p

    def get_context(self, method=None):
        return _Ctx(self, method)

    def maybe_fail(self, k):
        if self.fail_task is not None and k == self.fail_task:
            self.fail_task = None
            if self.fired is not None:
                self.fired["pool:worker-exception"] += 1
            raise InjectedFault("injected failure in a worker process")
