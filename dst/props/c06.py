"""Response and dispersion measurements."""
from dst import procworld
from dst.props._hist import simplify as _simplify

PROP = "C06"
RULE = "distinct (procedure, tracking mode, turns, steps, fit order or cavities, full transmission or not, fault or not) in runs in which at least one response was compared"
ASSUMPTIONS = ["the machine below the tracking seam is a linear ring with exactly known response (losses at apertures and gates, injected losses)",
               "noise-free readings; amplitudes below the corrector limits (at least one direction is free)",
               "an exception out of the tracking code may leave a scan at its current step"]
REAL = ["pySC: response_measurement, loco measurement, setpoint commands, field updates, BPM readings", "numpy"]
STUB = ["beam: linear plant behind at.lattice_track and at.find_orbit6, reading the kicks and frequencies of the lattice it is given", "random draws: constant"]
_N = {"quick": {"scan": 1500}, "thorough": {"scan": 30000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return procworld.generate(config, r, seed)


def execute(sc):
    return procworld.execute(sc, PROP)


def simplify(sc):
    for k, v in (("cal", 0.0), ("bpm_cal", 0.0), ("bpm_off", 0.0), ("drop_bpm", False), ("start", 0.0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    p = sc["plant"]
    for k, v in (("nerr", 0), ("ap", None), ("gates", []), ("rf", None)):
        if p[k] != v:
            yield dict(sc, plant=dict(p, **{k: v}))
    yield from _simplify(sc)
