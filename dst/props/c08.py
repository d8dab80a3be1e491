"""Orbit correction."""
from dst import procworld
from dst.props._hist import simplify as _simplify

PROP = "C08"
RULE = "distinct (procedure, tracking mode, turns, outcome, with or without dispersion, reference, regularisation, number of injections, fault or not) in runs in which at least one correction was compared with the reference iteration"
ASSUMPTIONS = ["the machine below the tracking seam is a linear ring with exactly known response (losses at apertures, injected losses)", "readings without noise; response matrices with or without errors", "runs in which a spread is within 1e-6 of the convergence limit are not compared"]
REAL = ["pySC: orbit_trajectory (balance, correct), setpoint commands, field updates, BPM readings, pseudo-inverse", "numpy"]
STUB = ["beam: linear plant behind at.lattice_track and at.find_orbit6", "random draws: constant"]
_N = {"quick": {"orbit": 2800}, "thorough": {"orbit": 40000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return procworld.generate(config, r, seed)


def execute(sc):
    return procworld.execute(sc, PROP)


def simplify(sc):
    for k, v in (("cal", 0.0), ("bpm_cal", 0.0), ("bpm_off", 0.0), ("drop_bpm", False), ("start", 0.0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    p = sc["plant"]
    for k, v in (("nerr", 0), ("ap", None), ("gates", []), ("rf", None)):
        if p[k] != v:
            yield dict(sc, plant=dict(p, **{k: v}))
    yield from _simplify(sc)
