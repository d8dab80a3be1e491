"""Foundation of the simulator: keyed PRNG streams, violations, machine snapshots.

Everything random in a scenario is derived from one integer through ``h64``; nothing here reads a clock.
"""
import hashlib
import json
import pickle
import random
from collections import Counter

import numpy as np


def h64(*parts) -> int:
    blob = json.dumps(parts, sort_keys=True, default=str).encode()
    return int.from_bytes(hashlib.blake2b(blob, digest_size=8).digest(), "big")


def rng_for(*parts) -> random.Random:
    return random.Random(h64(*parts))


class SimError(Exception):
    """Raised by the simulator itself inside calls of the code under test (injected faults)."""


class InjectedFault(RuntimeError):
    """An injected failure of a component around the code under test."""


class BudgetExceeded(BaseException):
    """The code under test used far more injections/draws than any bounded procedure may (no progress)."""


class Skip(Exception):
    """The operation is not applicable in the current state (happens while shrinking); nothing was done."""


class Result:
    def __init__(self):
        self.violations = []
        self.stats = Counter()
        self.fired = Counter()
        self.states = set()
        self.trace = hashlib.blake2b(digest_size=16)
        self.n_events = 0
        self.beam_seconds = 0.0
        self.nontrivial = False

    def event(self, *parts):
        self.n_events += 1
        self.trace.update(json.dumps(parts, sort_keys=True, default=_jd).encode())

    def violate(self, kind, msg, op=None):
        self.violations.append(dict(kind=kind, msg=str(msg)[:600], op=op if isinstance(op, (int, str)) else str(op)))
        self.event("violation", kind, str(msg)[:600])

    def state(self, *parts):
        self.states.add(h64(*parts) & 0xFFFFFFFFFFFF)

    def summary(self):
        return dict(violations=self.violations, stats={k: int(v) for k, v in self.stats.items()}, fired={k: int(v) for k, v in self.fired.items()},
                    states=sorted(self.states), digest=self.trace.hexdigest(), events=self.n_events,
                    beam_seconds=float(self.beam_seconds), nontrivial=bool(self.nontrivial))


def _jd(o):
    if isinstance(o, np.ndarray):
        return [str(o.dtype), list(o.shape), hashlib.blake2b(np.ascontiguousarray(o).tobytes(), digest_size=8).hexdigest()]
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return repr(o.item())
    if isinstance(o, set):
        return sorted(map(str, o))
    return type(o).__name__


# ---------------------------------------------------------------- snapshots
def freeze(obj, depth=0):
    """Deep, alias-free copy of plain data (arrays, numbers, containers, objects with __dict__)."""
    if isinstance(obj, np.ndarray):
        return obj.copy()
    if obj is None or isinstance(obj, (bool, int, float, complex, str, bytes, np.generic)):
        return obj
    if isinstance(obj, dict):
        return {(int(k) if isinstance(k, (np.integer,)) else k): freeze(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [freeze(v, depth + 1) for v in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted((freeze(v, depth + 1) for v in obj), key=repr)
    if callable(obj):
        return getattr(obj, "__qualname__", type(obj).__name__)
    if hasattr(obj, "__dict__") and depth < 6:
        out = {"__class__": type(obj).__name__}
        for k, v in vars(obj).items():
            if not k.startswith("_"):          # private storage is not observable state
                out[k] = freeze(v, depth + 1)
        for k in dir(type(obj)):
            if not k.startswith("_") and isinstance(getattr(type(obj), k, None), property):
                out[k] = freeze(getattr(obj, k), depth + 1)
        return out
    return repr(type(obj))


_CACHE = {}


def cached(tag, value, fn):
    """Content-addressed snapshots: equal content yields the identical (never modified) frozen object."""
    try:
        key = (tag, pickle.dumps(value, 5))
    except Exception:
        return fn()
    hit = _CACHE.get(key)
    if hit is None:
        if len(_CACHE) > 60000:
            _CACHE.clear()
        hit = _CACHE[key] = fn()
    return hit


def freeze_element(el):
    return cached(type(el).__name__, vars(el), lambda: _freeze_element(el))


def _freeze_element(el):
    # pyAT itself writes the ring energy into radiating elements whenever a lattice object is built
    d = {k: freeze(v) for k, v in vars(el).items() if not k.startswith("_") and k != "Energy"}
    d["__class__"] = type(el).__name__
    return d


def freeze_ring(ring):
    out = {i: freeze_element(el) for i, el in enumerate(ring)}
    out["len"] = len(ring)
    for a in ("energy", "periodicity", "s_range"):
        out[a] = freeze(getattr(ring, a, None))
    return out


def freeze_machine(SC):
    out = {}
    for k, v in vars(SC).items():
        if k.startswith("_"):
            continue
        if k in ("RING", "IDEALRING"):
            out[k] = freeze_ring(v)
        elif k in ("SIG", "ORD"):
            out[k] = cached(k, [dict(v) if isinstance(v, dict) else None, dict(getattr(v, "__dict__", {}))], lambda: freeze(v))
        else:
            out[k] = freeze(v)
    return out


def _isnum(x):
    return isinstance(x, (int, float, complex, np.number, np.bool_)) and not isinstance(x, str)


def same_value(a, b, rtol=0.0, atol=0.0):
    if a is b:
        return True
    if type(a) is type(b) and isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes():
        return True
    if _isnum(a) and _isnum(b):
        if a == b or (a != a and b != b):
            return True
        return bool(np.isclose(a, b, rtol=rtol, atol=atol)) if (rtol or atol) else False
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            aa, bb = np.asarray(a), np.asarray(b)
        except Exception:
            return False
        if aa.shape != bb.shape:
            return False
        if aa.dtype.kind in "OSU" or bb.dtype.kind in "OSU":
            return bool(np.array_equal(aa, bb))
        if np.array_equal(aa, bb, equal_nan=True):
            return True
        return bool(np.allclose(aa, bb, rtol=rtol, atol=atol, equal_nan=True)) if (rtol or atol) else False
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_value(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_value(x, y, rtol, atol) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def diff(a, b, rtol=0.0, atol=0.0, path=(), maxdepth=3):
    """Paths (tuples) at which two snapshots differ, descending at most ``maxdepth`` levels of dicts."""
    if a is b:
        return []
    if isinstance(a, dict) and isinstance(b, dict) and len(path) < maxdepth:
        out = []
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                out.append(path + (k,))
            else:
                out.extend(diff(a[k], b[k], rtol, atol, path + (k,), maxdepth))
        return out
    return [] if same_value(a, b, rtol, atol) else [path]


def get_path(snap, path):
    for k in path:
        if isinstance(snap, dict) and k in snap:
            snap = snap[k]
        else:
            return "<absent>"
    return snap


def describe(paths, a=None, b=None, limit=4):
    out = []
    for p in paths[:limit]:
        s = ".".join(map(str, p))
        if a is not None and b is not None:
            s += f": {_short(get_path(a, p))} -> {_short(get_path(b, p))}"
        out.append(s)
    if len(paths) > limit:
        out.append(f"... ({len(paths)} differences)")
    return "; ".join(out)


def _short(x):
    if isinstance(x, np.ndarray):
        return np.array2string(x.ravel()[:6], precision=8, separator=",") + ("..." if x.size > 6 else "")
    s = repr(x)
    return s if len(s) < 80 else s[:77] + "..."
