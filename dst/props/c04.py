"""Measurements, model calculations, plots and verification do not disturb the machine."""
from dst.props._hist import ASSUMPTIONS, REAL, RULE, STUB, Hist, simplify  # noqa: F401

PROP = "C04"
_H = Hist(PROP, {
    "healthy": dict(weights={"meas!": 14, "plot": 2, "inj": 4}),
    "faults": dict(faults=.8, weights={"meas!": 14, "plot": 2, "inj": 4}),
}, quick=240, thorough=4000)
plan, generate, execute = _H.plan, _H.generate, _H.execute
