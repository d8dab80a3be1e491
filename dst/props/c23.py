"""LOCO fits."""
from dst import parworld
from dst.props._hist import simplify as _simplify

PROP = "C23"
RULE = "distinct (method, fitted parameters, numbers of magnets, correctors and readings, weights, families) in runs with at least one fit compared"
ASSUMPTIONS = ["the data follow the Jacobian exactly, so the true parameters are known; undetermined fits are not compared"]
REAL = ["pySC: loco (Jacobian, lm and Newton-Gauss fits, set_correction), model response", "accelerator-toolbox: tracking and closed orbit", "scipy least squares"]
STUB = ["multiprocessing pool: simulated with a seeded scheduler"]
_N = {"quick": {"loco": 2200}, "thorough": {"loco": 12000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return parworld.generate(config, r, seed)


def execute(sc):
    return parworld.execute(sc, PROP)


def simplify(sc):
    for k, v in (("cal", 0.0), ("bpm_cal", 0.0), ("bpm_off", 0.0), ("drop_bpm", False), ("start", 0.0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    p = sc["plant"]
    for k, v in (("nerr", 0), ("ap", None), ("gates", []), ("rf", None)):
        if p[k] != v:
            yield dict(sc, plant=dict(p, **{k: v}))
    yield from _simplify(sc)
