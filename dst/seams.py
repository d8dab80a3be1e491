"""The seams the simulator owns: random draws, beam tracking, closed-orbit search, worker pools, clocks, plotting.

``Sim`` is installed around the execution of one scenario.  Everything the code under test takes from outside
(draws, tracking results, orbits, worker scheduling, time) goes through it; ``begin_op`` keys every stream to the
operation identifier, so that removing an operation (shrinking) does not shift the randomness of the others.
"""
import contextlib
import datetime as _datetime
import multiprocessing
import os
import sys
import time as _time
from collections import Counter

import numpy as np

from dst.base import BudgetExceeded, InjectedFault, h64

_REAL = {}


class ConstSource:
    """All normal draws are the same number (an admissible outcome of the real generator)."""

    def __init__(self, z):
        self.z = float(z)

    def normal(self, shape):
        return np.full(shape, self.z)


class TailSource:
    """Honest Gaussian stream into which far tail draws are injected with the given probability."""

    VALUES = (-9.0, -4.2, -3.01, -2.01, 2.01, 3.01, 4.2, 9.0, np.inf)

    def __init__(self, key, p, values=None):
        self.g = np.random.Generator(np.random.PCG64(key))
        self.p = p
        self.values = list(values or self.VALUES)
        self.injected = 0

    def normal(self, shape):
        x = np.atleast_1d(np.asarray(self.g.standard_normal(shape), dtype=float))
        m = self.g.random(x.shape) < self.p
        k = int(m.sum())
        if k:
            x[m] = self.g.choice(self.values, size=k)
            self.injected += k
        return x.reshape(shape)


class StreamSource:
    def __init__(self, key):
        self.g = np.random.Generator(np.random.PCG64(key))

    def normal(self, shape):
        return self.g.standard_normal(shape)


class Sim:
    def __init__(self, scenario, result, max_track=4000, max_draws=4_000_000):
        self.sc = scenario
        self.res = result
        self.seed = int(scenario.get("seed", 0))
        self.rng_cfg = dict(scenario.get("rng") or {"mode": "stream"})
        self.max_track, self.max_draws = max_track, max_draws
        self.n_track = self.n_draws = 0
        self.op_track = 0
        self.op_id = None
        self.op_fault = None
        self.faults_enabled = True
        self.entropy = 0              # what an unseeded generator would get from the operating system
        self.synthetic = None
        self.synthetic_orbit = None
        self.calls = Counter()
        self.pool_log = []
        self.clock = 1_700_000_000.0
        self.source = None
        self.on_track = None
        self.on_orbit = None
        self.begin_op("init")

    # ------------------------------------------------------------------ op framing
    def begin_op(self, op_id, fault=None, rng=None):
        self.op_id, self.op_fault, self.op_track, self.op_plot = op_id, fault, 0, 0
        cfg = rng or self.rng_cfg
        key = h64(self.seed, "draws", cfg.get("label", ""), op_id)
        mode = cfg.get("mode", "stream")
        if mode == "const":
            self.source = ConstSource(cfg["z"])
        elif mode == "tails":
            self.source = TailSource(key, cfg.get("p", 0.2), cfg.get("values"))
        else:
            self.source = StreamSource(key)
        _REAL["np_seed"](key & 0xFFFFFFFF)
        try:
            import at.lattice
            at.lattice.reset_rng(seed=key & 0x7FFFFFFF)
        except Exception:
            pass

    def end_op(self):
        f = self.op_fault
        self.op_fault = None
        if isinstance(self.source, TailSource) and self.source.injected:
            self.res.fired["tail-draws"] += self.source.injected
        return f

    def _take_fault(self, where):
        f = self.op_fault
        if f is None or not self.faults_enabled or f.get("where", "track") not in ((where,) if where == "plot" else (where, "any")):
            return None
        if f.get("at", 0) > (self.op_plot if where == "plot" else self.op_track) or f.get("done"):
            return None
        if f.get("p") is not None:           # a random pattern of failures
            if not pattern(self.seed, f, self.op_track):
                return None
        elif not f.get("sticky"):
            f["done"] = True
        self.res.fired[f"{where}:{f['kind']}"] += 1
        return f

    # ------------------------------------------------------------------ draws
    def normal(self, shape):
        n = int(np.prod(shape)) if shape != () else 1
        self.n_draws += n
        self.op_draws = n
        if self.n_draws > self.max_draws:
            raise BudgetExceeded("random draws")
        self.calls["draw"] += 1
        if self.calls["draw"] > 2_000_000:
            raise BudgetExceeded("random draw calls")
        return self.source.normal(shape)

    # ------------------------------------------------------------------ tracking
    def _count_track(self):
        self.n_track += 1
        self.calls["track"] += 1
        if self.n_track > self.max_track:
            raise BudgetExceeded("injections")

    def lattice_track(self, lattice, r_in, nturns=1, refpts=None, *args, **kwargs):
        self._count_track()
        f = self._take_fault("track")
        self.op_track += 1
        r_orig = np.array(r_in, dtype=float, copy=True) if self.on_track is not None else None
        if f and f["kind"] == "raise":
            raise InjectedFault("injected tracking failure")
        if self.synthetic is not None:
            out = self.synthetic(self, lattice, r_in, nturns, refpts)
            res = (out, {}, {})
        else:
            if refpts is None:
                res = _REAL["lattice_track"](lattice, r_in, nturns, *args, **kwargs)
            else:
                res = _REAL["lattice_track"](lattice, r_in, nturns, refpts, *args, **kwargs)
        try:
            self.res.beam_seconds += float(nturns) * float(getattr(lattice, "circumference", 0.0)) / 299792458.0
        except Exception:
            pass
        if f and f["kind"] == "lose":
            out = np.array(res[0], copy=True)
            n = out.shape[1]
            lost = [i for i in range(n) if (h64(self.seed, self.op_id, "lose", i) % 1000) / 1000.0 < f.get("frac", 1.0)]
            r0 = int(f.get("ref", 0.0) * out.shape[2])
            t0 = int(f.get("turn", 0.0) * out.shape[3])
            for i in lost:
                out[:, i, r0:, t0] = np.nan
                out[:, i, :, t0 + 1:] = np.nan
            res = (out,) + tuple(res[1:])
        if f and f["kind"] == "hole":          # one monitor misses the beam in one turn
            out = np.array(res[0], copy=True)
            at_ = _where_is(refpts, f["ord"], len(lattice))
            out[:, :, at_, min(f.get("turn", 0), out.shape[3] - 1)] = np.nan
            res = (out,) + tuple(res[1:])
        if f and f["kind"] == "mutate":
            _vandalise(lattice, r_in)
        if self.on_track is not None:
            self.on_track(r_orig, nturns, refpts, res[0])
        return res

    def _orbit(self, name, ring, *args, **kwargs):
        self._count_track()
        f = self._take_fault("orbit")
        self.op_track += 1
        if f and f["kind"] == "raise":
            raise InjectedFault("injected closed-orbit failure")
        if self.synthetic_orbit is not None and name == "find_orbit6":
            out = self.synthetic_orbit(self, ring, k_refs(args, kwargs))
        else:
            out = _REAL[name](ring, *args, **kwargs)
        if f and f["kind"] == "lose":
            out = (np.full_like(out[0], np.nan), np.full_like(out[1], np.nan)) + tuple(out[2:])
        if f and f["kind"] == "hole":
            arr = np.array(out[1], copy=True)
            arr[_where_is(k_refs(args, kwargs), f["ord"], len(ring))] = np.nan
            out = (out[0], arr) + tuple(out[2:])
        if f and f["kind"] == "mutate":
            _vandalise(ring, None)
        if self.on_orbit is not None:
            refs = k_refs(args, kwargs)
            self.on_orbit(refs, out[1])
        return out

    # ------------------------------------------------------------------ drawing
    def drawing(self):
        f = self._take_fault("plot")
        self.op_plot += 1
        if f:
            raise InjectedFault("injected plotting failure")

    # ------------------------------------------------------------------ clock
    def time(self):
        self.clock += 0.125
        return self.clock


def _where_is(refpts, ordinate, n):
    r = np.atleast_1d(np.asarray([0] if refpts is None else refpts))
    r = np.nonzero(r)[0] if r.dtype == bool else np.where(r < 0, r + n + 1, r)
    return np.nonzero(r == ordinate)[0]


def pattern(seed, fault, n):
    return h64(seed, "pattern", fault.get("key", 0), n) % 1000 < 1000 * fault["p"]


def k_refs(args, kwargs):
    if "refpts" in kwargs:
        return kwargs["refpts"]
    return args[0] if args else None


def _vandalise(lattice, r_in):
    """A tracking code is free to change the arguments it was handed (the wrapper exists because of that)."""
    if isinstance(r_in, np.ndarray):
        try:
            r_in += 1e-3
        except Exception:
            pass
    try:
        lattice.pop()
    except Exception:
        pass


@contextlib.contextmanager
def installed(sim, pool=None):
    """Install ``sim`` behind every seam for the duration of one scenario."""
    import at
    import at.tracking
    import at.tracking.track as att
    import matplotlib.pyplot as plt
    saved = []

    swapped = {}

    def patch(obj, name, value):
        old = getattr(obj, name)
        saved.append((obj, name, old))
        with contextlib.suppress(AttributeError):
            value.seam = (obj.__name__, name)  # recognised again in modules first imported while it was installed
            swapped[value.seam] = value
        swapped[id(old)] = value
        setattr(obj, name, value)

    def patch_method(name, function):
        """Lattice methods: only calls made by the code under test are the simulated beam, pyAT's own ones are not."""
        old = getattr(at.Lattice, name)

        def method(ring, *a, **k):
            mine = str(sys._getframe(1).f_globals.get("__name__", "")).startswith("pySC")
            return (function if mine else old)(ring, *a, **k)
        saved.append((at.Lattice, name, at.Lattice.__dict__[name]))
        setattr(at.Lattice, name, method)

    cur = sim

    def track(lattice, r_in, *a, **k):
        return cur.lattice_track(lattice, r_in, *a, **k)

    def drawn(fn):
        def call(*a, **k):
            cur.drawing()
            return fn(*a, **k)
        return call

    def randn(*shape):
        x = cur.normal(tuple(int(s) for s in shape))
        return float(x) if shape == () else np.asarray(x)

    def standard_normal(size=None):
        if size is None:
            return float(cur.normal(()))
        return np.asarray(cur.normal(tuple(np.atleast_1d(size).astype(int))))

    def normal(loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
            out = loc + scale * cur.normal(size)
            return float(out) if size == () else out
        return loc + scale * np.asarray(cur.normal(tuple(np.atleast_1d(size).astype(int))))

    def default_rng(seed=None):
        if seed is None:
            return np.random.Generator(np.random.PCG64(h64(cur.seed, "default_rng", str(cur.op_id), cur.calls["default_rng"], cur.entropy)))
        return _REAL["default_rng"](seed)

    try:
        for name in ("lattice_track",):
            patch(at, name, track)
            patch(at.tracking, name, track)
        patch(at, "find_orbit6", lambda ring, *a, **k: cur._orbit("find_orbit6", ring, *a, **k))
        patch(at, "find_orbit4", lambda ring, *a, **k: cur._orbit("find_orbit4", ring, *a, **k))
        patch(np.random, "randn", randn)
        patch(np.random, "standard_normal", standard_normal)
        patch(np.random, "normal", normal)
        patch(np.random, "default_rng", default_rng)
        patch(plt, "pause", drawn(lambda *a, **k: None))
        patch(plt, "show", drawn(lambda *a, **k: None))
        for name in ("figure", "subplots", "colorbar", "plot", "tight_layout"):
            patch(plt, name, drawn(getattr(plt, name)))
        if pool is not None:
            patch(multiprocessing, "Pool", pool.make)
            patch(multiprocessing, "get_context", pool.get_context)
            patch(multiprocessing, "cpu_count", lambda: pool.ncpu)
            patch(os, "cpu_count", lambda: pool.ncpu)
        # names which the code under test imported directly, and the same functions as methods of the lattice
        for name, module in list(sys.modules.items()):
            if name.split(".")[0] == "pySC" and module is not None:
                for key, value in list(vars(module).items()):
                    if callable(value) and not key.startswith("__"):
                        new = swapped.get(id(value)) or swapped.get(getattr(value, "seam", None))
                        if new is not None:
                            saved.append((module, key, value))
                            setattr(module, key, new)
        patch_method("track", track)
        patch_method("find_orbit6", lambda ring, *a, **k: cur._orbit("find_orbit6", ring, *a, **k))
        patch_method("find_orbit4", lambda ring, *a, **k: cur._orbit("find_orbit4", ring, *a, **k))
        yield sim
    finally:
        for obj, name, value in reversed(saved):
            setattr(obj, name, value)


def remember_real():
    import at
    _REAL.setdefault("lattice_track", at.lattice_track)
    _REAL.setdefault("find_orbit6", at.find_orbit6)
    _REAL.setdefault("find_orbit4", at.find_orbit4)
    _REAL.setdefault("np_seed", np.random.seed)
    _REAL.setdefault("default_rng", np.random.default_rng)
    _REAL.setdefault("time", _time.time)


def real(name):
    return _REAL[name]
