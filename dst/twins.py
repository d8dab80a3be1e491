"""Procedures (worlds W2, W3, W4) executed twice under circumstances which must not matter.

The same program of measurements and corrections is executed alone and then with another machine's program run in the
middle of it, with other entropy, or with all messages written: machines, results, settings sent on the way and numbers
of injections must be the same.
"""
import contextlib
import copy
import types

import numpy as np

from dst import beamworld, fitworld, procworld
from dst.base import Result, describe, diff, freeze_machine, freeze_ring, h64
from dst.facade import Facade
from dst.metaworld import Switch, debug_logging, pristine
from dst.seams import Sim, installed, remember_real
from dst.simpool import PoolWorld

KINDS = {"scan": procworld, "rf": procworld, "thread": procworld, "orbit": procworld, "bba": fitworld, "tune": fitworld, "inj": fitworld, "mixed": beamworld}


def make(r, seed, kinds=tuple(KINDS)):
    kind = r.choice(kinds)
    a = KINDS[kind].generate(kind, r, seed)
    a["ops"] = [o for o in a["ops"] if o["op"] not in ("chroma", "locorm")]
    return dict(kind=kind, a=a)


def cls(kind):
    m = KINDS[kind]
    return m.ProcWorld if m is procworld else m.FitWorld if m is fitworld else m.BeamWorld


class Run:
    """one program; ``nested`` = (number of the operation before which it runs, another Run)"""

    def __init__(self, part):
        self.part, self.sub = part, Result()
        self.sim = Sim(part["a"], self.sub, max_track=20000)
        self.world = cls(part["kind"])(part["a"], "*", self.sim)
        self.returned = []

    def result(self):
        w = self.world
        return {"machine": freeze_machine(w.SC), "design": freeze_ring(w.SC.IDEALRING), "kinds": [(v["kind"], v.get("op")) for v in self.sub.violations]}


def run(parts, at=0, entropy=None, log=False):
    """parts[1], if any, runs before operation number ``at`` of parts[0]"""
    parts = copy.deepcopy(parts)
    pool = PoolWorld(parts[0]["a"].get("pool"), Result().fired)
    runs = [Run(p) for p in parts]
    for r in runs:
        if entropy is not None:
            r.sim.entropy = entropy
    sw = Switch(runs[0].sim)
    facade = Facade(False, None, None, sw)
    with np.errstate(all="ignore"), contextlib.ExitStack() as stack:
        stack.enter_context(installed(sw, pool))
        stack.enter_context(facade.installed())
        formatted = stack.enter_context(debug_logging()) if log else None
        first = runs[0]
        facade.returned = first.returned
        if len(runs) > 1:
            count, real = [0], first.sim.begin_op

            def begin_op(*a, **k):
                count[0] += 1
                if count[0] == at + 2:          # the first one is the construction of the machine
                    sw.__dict__["now"], facade.returned = runs[1].sim, runs[1].returned
                    try:
                        runs[1].world.run()
                    finally:
                        sw.__dict__["now"], facade.returned = first.sim, first.returned
                return real(*a, **k)
            first.sim.begin_op = begin_op
        first.world.run()
    runs = [r for r in runs if hasattr(r.world, "SC")]
    return runs, formatted


class Kept:
    """what is compared and accounted of a Run"""

    def __init__(self, r):
        self.returned, self._result = r.returned, r.result()
        self.sub = types.SimpleNamespace(stats=dict(r.sub.stats), fired=dict(r.sub.fired), beam_seconds=r.sub.beam_seconds, digest=r.sub.trace.hexdigest())

    def result(self):
        return self._result


def run_alone(part):
    """in a process of its own"""
    return pristine(lambda: [Kept(r) for r in run([part])[0]])


def same(res, prop, kind, x, y, what):
    """the same program executed twice"""
    for (n1, d1, t1), (n2, d2, t2) in zip(x.returned, y.returned):
        if n1 != n2:
            res.violate(f"{prop}/{kind}", f"{what}: {n2} instead of {n1} is called")
            return
        ok = len(d1) == len(d2) and all(p.shape == q.shape and (np.allclose(p, q, rtol=1e-6, atol=1e-13, equal_nan=True) if p.dtype.kind in "fiub" else np.array_equal(p, q)) for p, q in zip(d1, d2))
        if not ok:
            res.violate(f"{prop}/{kind}", f"{what}: {n1} returns (or sends) {[p.ravel()[:4].tolist() for p in d2]} instead of {[p.ravel()[:4].tolist() for p in d1]}")
            return
        if t1 != t2:
            res.violate(f"{prop}/{kind}", f"{what}: {t2} instead of {t1} injections after {n1}")
            return
    if len(x.returned) != len(y.returned):
        res.violate(f"{prop}/{kind}", f"{what}: {len(y.returned)} instead of {len(x.returned)} commands and results")
        return
    p, q = x.result(), y.result()
    d = diff(p, q, rtol=1e-6, atol=1e-13)
    if d:
        res.violate(f"{prop}/{kind}", f"{what}: {describe(d, p, q)}")


def account(sc, res, runs):
    for r in runs:
        for k, v in r.sub.stats.items():
            if k.startswith("op"):
                res.stats[k] += v
        for k, v in r.sub.fired.items():
            res.fired[k] += v
        res.beam_seconds += r.sub.beam_seconds
        res.event("program", r.sub.digest if hasattr(r.sub, "digest") else r.sub.trace.hexdigest(), len(r.returned))
    res.stats["results-compared"] += sum(len(r.returned) for r in runs)
    res.nontrivial = True


def generate_pair(config, r, seed):
    a, b = make(r, seed), make(r, h64(seed, "other") & 0xFFFFFFFFFF)
    return dict(seed=seed, config=config, ops=a["a"]["ops"], a=a, b=b, at=r.randrange(len(a["a"]["ops"]) + 1), entropy=r.randrange(1 << 30))


def execute_pair(sc, res, prop):
    remember_real()
    a = dict(sc["a"], a=dict(sc["a"]["a"], ops=sc["ops"]))
    (alone,) = run_alone(a)
    runs, _ = run([a, sc["b"]], sc["at"], sc["entropy"])
    account(sc, res, [alone] + runs)
    same(res, prop, "procedure", alone, runs[0], f"{a['kind']} with a program ({sc['b']['kind']}) on another machine before operation {sc['at']}")
    if len(runs) > 1 and not res.violations:
        res.fired["interleavings"] += 1
        (other,) = run_alone(sc["b"])
        account(sc, res, [other])
        same(res, prop, "procedure", other, runs[1], f"{sc['b']['kind']} in the middle of a program ({a['kind']}) on another machine")
        res.state("procs", a["kind"], sc["b"]["kind"], sc["ops"][sc["at"]]["op"] if sc["at"] < len(sc["ops"]) else "")


def generate_log(config, r, seed):
    a = make(r, seed)
    return dict(seed=seed, config=config, ops=a["a"]["ops"], a=a)


def execute_log(sc, res, prop):
    remember_real()
    a = dict(sc["a"], a=dict(sc["a"]["a"], ops=sc["ops"]))
    (alone,), _ = run([a])
    (logged,), formatted = run([a], log=True)
    account(sc, res, [alone, logged])
    res.stats["messages"] += formatted.n
    if formatted.errors:
        res.violate(f"{prop}/message", f"a log message cannot be formatted: {formatted.errors[0]}")
    same(res, prop, "results", alone, logged, f"{a['kind']} with all messages written")
    res.state("procs", a["kind"], tuple(o["op"] for o in sc["ops"][:3]), formatted.n > 0)
