"""Beam-based alignment."""
from dst import fitworld
from dst.props._hist import simplify as _simplify

PROP = "C12"
RULE = "distinct (procedure, quadrupole/skew/sextupole, planes, steps, strengths, downstream BPMs, phase-advance quadrupole, results applied, results missing, loss, fault) in runs with at least one alignment compared with the true magnet centre"
ASSUMPTIONS = ["the machine below the tracking seam is a linear ring plus thin focusing about the real magnet centres, BPM and magnet of a pair at one betatron phase, so the true answer is known", "BPM noise is present but small; a statistical disagreement counts only if it returns with two other noise sequences", "results are compared only where the data determine the centre (response, amplitude and losses allow it)"]
REAL = ["pySC: bba (scan, evaluation, significance, application, fake_bba), setpoint commands, BPM readings with noise, statistics", "numpy"]
STUB = ["beam: linear plant with thin quadrupole, skew and sextupole kicks behind at.lattice_track, reading the lattice it is given", "random draws: seeded stream, or constant"]
_N = {"quick": {"bba": 650}, "thorough": {"bba": 9000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return fitworld.generate(config, r, seed)


def execute(sc):
    return fitworld.execute(sc, PROP)


def simplify(sc):
    for k, v in (("cal", 0.0), ("bpm_cal", 0.0), ("bpm_off", 0.0), ("drop_bpm", False), ("start", 0.0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    p = sc["plant"]
    for k, v in (("nerr", 0), ("ap", None), ("gates", []), ("rf", None)):
        if p[k] != v:
            yield dict(sc, plant=dict(p, **{k: v}))
    yield from _simplify(sc)
