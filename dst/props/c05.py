"""BPM readings."""
from dst import beamworld
from dst.props._hist import REAL, STUB, simplify  # noqa: F401

PROP = "C05"
RULE = ("distinct (operation, tracking mode, particles, turns, shots, loss threshold, synthetic tracker or not, fault or not, injections made) in runs "
        "in which at least one result was compared with the independent evaluation")
ASSUMPTIONS = ["random draws are the cut normal numbers of the helper (2 sigma for jitter, noise and sums, 3 sigma for particles)",
               "exact comparison uses constant draws; honest draws are checked by bounds, freshness and moments (7 sigma limits)",
               "the synthetic tracker returns positions and losses as a function of the injected coordinates only"]
STUB = STUB + ["in about 70% of the readings: tracking itself (synthetic positions and losses)"]
_N = {"quick": {"mixed": 1600, "exact": 1000, "statistics": 48}, "thorough": {"mixed": 9000, "exact": 5000, "statistics": 1200}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return beamworld.generate_stat(r, seed) if config == "statistics" else beamworld.generate(config, r, seed)


def execute(sc):
    return beamworld.execute(sc, PROP)
