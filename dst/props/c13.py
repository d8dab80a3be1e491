"""Tune scans."""
from dst import fitworld
from dst.props._hist import simplify as _simplify

PROP = "C13"
RULE = "distinct (grid, points, full scan, target reached, points measured, best transmission, fault) in runs with at least one scan compared point by point"
ASSUMPTIONS = ["transmission of the synthetic machine depends on the two quadrupole families only", "a grid point visited again counts with its last measurement"]
REAL = ["pySC: tune.tune_scan, spiral order, setpoint commands, beam transmission and turn counting", "numpy"]
STUB = ["beam: synthetic transmission behind at.lattice_track as a function of the quadrupole fields of the lattice it is given"]
_N = {"quick": {"tune": 1800}, "thorough": {"tune": 30000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return fitworld.generate(config, r, seed)


def execute(sc):
    return fitworld.execute(sc, PROP)


def simplify(sc):
    for k, v in (("cal", 0.0), ("bpm_cal", 0.0), ("bpm_off", 0.0), ("drop_bpm", False), ("start", 0.0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    p = sc["plant"]
    for k, v in (("nerr", 0), ("ap", None), ("gates", []), ("rf", None)):
        if p[k] != v:
            yield dict(sc, plant=dict(p, **{k: v}))
    yield from _simplify(sc)
