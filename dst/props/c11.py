"""Phase and frequency of the cavities."""
from dst import procworld
from dst.props._hist import simplify as _simplify

PROP = "C11"
RULE = "distinct (procedure, outcome, turns, steps, kind of misuse, initial gain, corrected or not, fault or not) in runs in which at least one correction was compared with the known cavity"
ASSUMPTIONS = ["the synthetic cavity gives an energy gain per turn that is a(mean over the cavities of the) sine of the time lag plus an offset proportional to the frequency deviation", "a correction of zero is accepted where BPMs legitimately disagree (spread of dispersion, offsets or calibration): the code then reports its measurement as not precise", "an exception out of the tracking code may leave a scan at its current step"]
REAL = ["pySC: rf (correct_rf_phase, correct_rf_frequency), cavity setpoints and update, BPM readings", "numpy, scipy.optimize"]
STUB = ["beam: linear plant with a synthetic cavity behind at.lattice_track", "random draws: constant"]
_N = {"quick": {"rf": 2000}, "thorough": {"rf": 60000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return procworld.generate(config, r, seed)


def execute(sc):
    return procworld.execute(sc, PROP)


def simplify(sc):
    for k, v in (("cal", 0.0), ("bpm_cal", 0.0), ("bpm_off", 0.0), ("drop_bpm", False), ("start", 0.0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    p = sc["plant"]
    for k, v in (("nerr", 0), ("ap", None), ("gates", []), ("rf", None)):
        if p[k] != v:
            yield dict(sc, plant=dict(p, **{k: v}))
    yield from _simplify(sc)
