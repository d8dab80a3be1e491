"""Parallel execution."""
from dst import parworld
from dst.props._hist import simplify as _simplify

PROP = "C14"
RULE = "distinct (operation, magnets, mode, workers, order in which workers took and finished tasks, outcome) in runs with at least one parallel result compared with the sequential one"
ASSUMPTIONS = ["workers are simulated: each chunk of tasks runs on its own pickled copy, in the order drawn by the seeded scheduler; a worker may fail", "only additive quadrupole changes (the documented default) are compared between schedules"]
REAL = ["pySC: loco.calculate_jacobian and its workers, model response and dispersion, beam_transmission", "accelerator-toolbox: tracking, closed orbit, patpass", "pickle"]
STUB = ["multiprocessing pool: simulated with a seeded scheduler (same chunking and isolation)"]
_N = {"quick": {"par": 1000}, "thorough": {"par": 9000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return parworld.generate(config, r, seed)


def execute(sc):
    return parworld.execute(sc, PROP)


def simplify(sc):
    for k, v in (("cal", 0.0), ("bpm_cal", 0.0), ("bpm_off", 0.0), ("drop_bpm", False), ("start", 0.0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    p = sc["plant"]
    for k, v in (("nerr", 0), ("ap", None), ("gates", []), ("rf", None)):
        if p[k] != v:
            yield dict(sc, plant=dict(p, **{k: v}))
    yield from _simplify(sc)
