"""Chromaticity and injection fits."""
from dst import fitworld
from dst.props._hist import simplify as _simplify

PROP = "C22"
RULE = "distinct (procedure, target, spread, step, families, BPM sets, turns, shots, planes, losses, size of deviations, outcome) in runs with at least one fit compared"
ASSUMPTIONS = ["optics of generated rings from accelerator-toolbox", "convergence of the simplex is required only where the target is reachable (well-conditioned sextupole response)"]
REAL = ["pySC: chroma.fit_chroma, injection_fit (drift and trajectory), setpoint commands, BPM readings", "accelerator-toolbox: tracking and optics (chromaticity and trajectory fits)", "scipy simplex"]
STUB = ["beam: random straight-line readings for the drift fit only"]
_N = {"quick": {"fits": 400}, "thorough": {"fits": 8000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return fitworld.generate(config, r, seed)


def execute(sc):
    return fitworld.execute(sc, PROP)


def simplify(sc):
    for k, v in (("cal", 0.0), ("bpm_cal", 0.0), ("bpm_off", 0.0), ("drop_bpm", False), ("start", 0.0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    p = sc["plant"]
    for k, v in (("nerr", 0), ("ap", None), ("gates", []), ("rf", None)):
        if p[k] != v:
            yield dict(sc, plant=dict(p, **{k: v}))
    yield from _simplify(sc)
