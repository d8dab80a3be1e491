"""World W6: the same history under different circumstances.

A history of operations (world W1) is executed twice: alone, and under a changed environment which must not matter:
interleaved with the history of another machine, restarted from its pickled state between operations, with other
entropy, time, working directory and logging, or in a new interpreter with another hash seed.
"""
import contextlib
import ctypes
import errno
import gc
import io
import logging
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import types
from pathlib import Path

import numpy as np

from dst.base import BudgetExceeded, InjectedFault, Result, describe, diff, h64, rng_for
from dst.gen import Gen
from dst.history import World
from dst.seams import Sim, installed, remember_real
from dst.simpool import PoolWorld

VERIF = Path(__file__).resolve().parent.parent


class Recorder(World):
    """W1 which keeps what it saw"""

    def __init__(self, scenario, prop, sim):
        super().__init__(scenario, prop, sim)
        self.seen = []

    def start(self):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        self.SimulatedCommissioning = SimulatedCommissioning
        self.cur = "start"
        self.sim.begin_op("start")
        self.do_new({})
        self.note("start")

    def one(self, op):
        self.cur = op["id"]
        self.outputs = []
        with quiet_warnings():
            self.step(op)
        self.note(op["op"])

    def note(self, what):
        self.seen.append((what, [m.snap for m in self.machines], [m.design for m in self.machines], list(getattr(self, "outputs", []))))


@contextlib.contextmanager
def quiet_warnings():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


class Switch:
    """stands where a simulator is expected and passes everything on to the one whose turn it is"""

    def __init__(self, sim):
        self.__dict__["now"] = sim

    def __getattr__(self, name):
        return getattr(self.now, name)


def compare(res, prop, kind, a, b, what):
    """two recordings of the same history"""
    for i, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0] or len(x[1]) != len(y[1]):
            res.violate(f"{prop}/{kind}", f"{what}: step {i} is {x[0]} with {len(x[1])} machines alone, {y[0]} with {len(y[1])} machines otherwise")
            return False
        for j, (p, q) in enumerate(zip(x[1], y[1])):
            d = diff(p, q, rtol=1e-9, atol=1e-18)
            if d:
                res.violate(f"{prop}/{kind}", f"{what}: after {x[0]} (step {i}) machine {j} differs: {describe(d, p, q)}")
                return False
        for p, q in zip(x[2], y[2]):
            d = diff(p, q, rtol=1e-9, atol=1e-18)
            if d:
                res.violate(f"{prop}/{kind}", f"{what}: after {x[0]} (step {i}) the design lattice differs: {describe(d, p, q)}")
                return False
        if len(x[3]) != len(y[3]):
            res.violate(f"{prop}/{kind}", f"{what}: {x[0]} (step {i}) returned {len(y[3])} results instead of {len(x[3])}")
            return False
        for p, q in zip(x[3], y[3]):
            d = diff(p, q, rtol=1e-6, atol=1e-13)
            if d:
                res.violate(f"{prop}/{kind}", f"{what}: {x[0]} (step {i}) returned different results: {describe(d, p if isinstance(p, dict) else {}, q if isinstance(q, dict) else {})}"[:500])
                return False
    if len(a) != len(b):
        res.violate(f"{prop}/{kind}", f"{what}: {len(b)} steps instead of {len(a)}")
        return False
    return True


def pristine(fn, *args):
    """fn(*args) in a child process which starts as this one is and leaves no trace in it"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)     # do not outlive the runner
            signal.setitimer(signal.ITIMER_VIRTUAL, 120)
            try:
                out = (True, fn(*args))
            except BaseException as e:
                out = (False, type(e) is BudgetExceeded, f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out, 4))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    status = os.waitpid(pid, 0)[1]
    if not data:
        raise RuntimeError(f"a reference execution ended with status {status}")
    out = pickle.loads(data)
    if not out[0]:
        raise (BudgetExceeded if out[1] else RuntimeError)(f"a reference execution ended with {out[2]}")
    return out[1]


def recorded(scenario, prop):
    """One history in a process of its own -> (seen, account)"""
    def run():
        seen, sub = record(scenario, prop)
        return seen, types.SimpleNamespace(stats=dict(sub.stats), beam_seconds=sub.beam_seconds, digest=sub.trace.hexdigest())
    return pristine(run)


def record(scenario, prop, hooks=()):
    """Run one history alone -> (seen, result of its own simulator)"""
    sub = Result()
    sim = Sim(scenario, sub)
    pool = PoolWorld(scenario.get("pool"), sub.fired)
    with np.errstate(all="ignore"), installed(sim, pool):
        w = Recorder(scenario, prop, sim)
        w.start()
        for i, op in enumerate(scenario["ops"]):
            for h in hooks:
                h(w, i, sim)
            w.one(op)
    return w.seen, sub


# ---------------------------------------------------------------------- generation
def history(r, seed, n_ops=(6, 18), **kw):
    g = Gen(r, weights={"meas!": 5, "copy": .5, "plot": kw.pop("plot", .5), "randmult": 1}, n_ops=n_ops, faults=.1, measures=["bpm", "bpm", "all", "trans", "bunch", "rm", "disp", "model", "cmget", "supports"], **kw)
    return g.scenario(seed)


def like(r, spec):
    """the same lattice, or one with the same names and other positions"""
    return dict(spec) if r.random() < .5 else dict(spec, jitter=round(spec["jitter"] + .01, 3))


def generate(config, r, seed):
    if config == "duo":
        a = history(r, seed)
        kw = {}
        if r.random() < .5:          # twins: same lattice, other history
            kw["spec"] = like(r, a["ring"])
        b = history(r, h64(seed, "other") & 0xFFFFFFFFFF, **kw)
        if r.random() < .2:
            b["seed"] = a["seed"]
        order = [0] * len(a["ops"]) + [1] * len(b["ops"])
        r.shuffle(order)
        return dict(seed=seed, config=config, ops=a["ops"], a=a, b=b, order=order)
    a = history(r, seed, plot=0 if config == "fresh" else .5)
    sc = dict(seed=seed, config=config, ops=a["ops"], a=a)
    if config == "env":
        n = len(a["ops"])
        if r.random() < .5:
            sc["earlier"] = history(r, h64(seed, "earlier") & 0xFFFFFFFFFF, n_ops=(3, 8), **(dict(spec=like(r, a["ring"])) if r.random() < .6 else {}))
        sc["env"] = [dict(kind=r.choice(["restart", "restart", "entropy", "clock", "cwd", "logging", "garbage"]), at=r.randrange(n + 1), x=r.randrange(1 << 30)) for _ in range(r.randint(1, 4))]
    elif config == "fresh":
        sc["env"] = dict(hashseed=r.randrange(1, 1 << 31), tz=r.choice(["UTC", "Asia/Tokyo", "America/New_York"]), optimise=r.random() < .3)
    return sc


# ---------------------------------------------------------------------- C21
def execute_duo(sc, res):
    alone = []
    for k in "ab":
        seen, sub = recorded(dict(sc[k], ops=sc["ops"] if k == "a" else sc[k]["ops"]), "C21")
        alone.append(seen)
        merge(res, sub)
    worlds, subs = [], []
    pool = PoolWorld(sc["a"].get("pool"), res.fired)
    sims = []
    for k in "ab":
        sub = Result()
        subs.append(sub)
        sims.append(Sim(sc[k], sub))
    sw = Switch(sims[0])
    with np.errstate(all="ignore"), installed(sw, pool):
        for k, sim in zip("ab", sims):
            sw.__dict__["now"] = sim
            w = Recorder(sc[k], "C21", sim)
            w.start()
            worlds.append(w)
        todo = [list(sc["ops"]), list(sc["b"]["ops"])]
        order = list(sc["order"]) + [0] * len(todo[0]) + [1] * len(todo[1])
        turns = []
        for k in order:
            if todo[k]:
                sw.__dict__["now"] = sims[k]
                op = todo[k].pop(0)
                turns.append(f"{k}{op['op']}")
                worlds[k].one(op)
    for k, (w, ref) in enumerate(zip(worlds, alone)):
        compare(res, "C21", "interleaved", ref, w.seen, "interleaved with another machine")
        res.stats["steps-compared"] += len(ref)
    res.nontrivial = True
    res.fired["interleavings"] += 1
    for x, y in zip(turns, turns[1:]):
        if x[0] != y[0]:
            res.state("duo", x[1:], y[1:])
    res.event("duo", turns, [len(w.seen) for w in worlds])


def merge(res, sub):
    for k, v in sub.stats.items():
        if not k.startswith("foreign"):
            res.stats[k] += v
    res.beam_seconds += sub.beam_seconds
    res.event("alone", sub.digest if hasattr(sub, "digest") else sub.trace.hexdigest())


class Formatted(logging.Handler):
    """formats every record, as a log file would, and keeps what cannot be formatted"""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.n, self.errors = 0, []

    def emit(self, record):
        try:
            record.getMessage()
            self.n += 1
        except Exception as e:
            self.errors.append(f"{record.name}: {record.msg!r}: {e}")


@contextlib.contextmanager
def debug_logging():
    root, h = logging.getLogger(), Formatted()
    level, handlers, disabled = root.level, list(root.handlers), root.manager.disable
    logging.disable(logging.NOTSET)
    root.handlers = [h]
    root.setLevel(logging.DEBUG)
    try:
        yield h
    finally:
        root.handlers = handlers
        root.setLevel(level)
        logging.disable(disabled)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="pysc-dst-")
    old = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def execute_env(sc, res):
    a = dict(sc["a"], ops=sc["ops"])
    ref, sub = recorded(a, "C21")
    merge(res, sub)
    real_time, real_random = time.time, random.getstate()
    with contextlib.ExitStack() as stack:
        d = stack.enter_context(scratch())
        state = {"shift": 0.0, "log": None}

        def hook(w, i, sim):
            for e in sc["env"]:
                if e["at"] != i:
                    continue
                res.fired["env:" + e["kind"]] += 1
                if e["kind"] == "restart":
                    for m in w.machines:
                        m.SC = pickle.loads(pickle.dumps(m.SC))
                elif e["kind"] == "entropy":
                    random.seed(e["x"])
                    sim.entropy = e["x"]
                elif e["kind"] == "clock":
                    state["shift"] += (e["x"] % 200001 - 100000) * 60.0
                elif e["kind"] == "cwd":
                    os.chdir(d)
                elif e["kind"] == "logging" and state["log"] is None:
                    state["log"] = stack.enter_context(debug_logging())
                elif e["kind"] == "garbage":
                    gc.collect()

        def earlier():
            record(sc["earlier"], "C21")
            gc.collect()
            res.fired["env:other machine before"] += 1
        if sc.get("earlier"):
            earlier()
        time.time = lambda: real_time() + state["shift"]
        try:
            seen, sub = record(a, "C21", hooks=[hook])
        finally:
            time.time = real_time
            random.setstate(real_random)
    merge(res, sub)
    kinds = sorted({e["kind"] for e in sc["env"] if e["at"] < len(sc["ops"])})
    compare(res, "C21", "environment", ref, seen, "with changed " + ", ".join(kinds) + (" and another machine before" if sc.get("earlier") else ""))
    res.stats["steps-compared"] += len(ref)
    res.nontrivial = True
    for e in sc["env"]:
        if e["at"] < len(sc["ops"]):
            res.state("env", e["kind"], sc["ops"][e["at"]]["op"])


CHILD = """
import sys, pickle
sys.path[:0] = {paths!r}
import matplotlib
matplotlib.use('Agg')
from dst import metaworld
metaworld.child({inp!r}, {out!r})
"""


def child(inp, out):
    remember_real()
    sc = pickle.loads(Path(inp).read_bytes())
    sys.stdout = io.StringIO()
    logging.disable(logging.CRITICAL)
    seen, sub = record(sc, "C21")
    Path(out).write_bytes(pickle.dumps((seen, sub.trace.hexdigest())))


def execute_fresh(sc, res):
    from dst.runner import REPO
    a = dict(sc["a"], ops=sc["ops"])
    ref, sub = recorded(a, "C21")
    merge(res, sub)
    e = sc["env"]
    with scratch() as d:
        inp, out = os.path.join(d, "in"), os.path.join(d, "out")
        Path(inp).write_bytes(pickle.dumps(a))
        env = dict(os.environ, PYTHONHASHSEED=str(e["hashseed"] % 4294967295), TZ=e["tz"], PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        p = subprocess.run([sys.executable, "-B", "-c", CHILD.format(paths=[REPO, str(VERIF)], inp=inp, out=out)], cwd=d, env=env, capture_output=True, text=True, timeout=300)
        if p.returncode or not os.path.exists(out):
            raise RuntimeError("child failed: " + p.stderr[-1500:])
        seen, digest = pickle.loads(Path(out).read_bytes())
    res.fired["new interpreter"] += 1
    compare(res, "C21", "interpreter", ref, seen, "in a new interpreter with another hash seed")
    res.stats["steps-compared"] += len(ref)
    res.nontrivial = True
    res.state("fresh", tuple(x[0] for x in ref)[:4], e["tz"])


def execute(scenario, prop):
    remember_real()
    res = Result()
    if prop == "C21":
        {"duo": execute_duo, "env": execute_env, "fresh": execute_fresh}[scenario["config"]](scenario, res)
    else:
        raise ValueError(prop)
    return res
