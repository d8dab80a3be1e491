"""Model lattice and model responses depend on design and setpoints only."""
from dst.props._hist import ASSUMPTIONS, REAL, RULE, STUB, Hist, simplify  # noqa: F401

PROP = "C19"
_H = Hist(PROP, {
    "model": dict(weights={"meas!": 14, "errors": 3, "set_mag": 4, "set_cm": 4, "set_cav": 2, "aperture": 1.5}, measures=["model", "rm", "rm", "disp"]),
}, quick=420, thorough=5000)
plan, generate, execute = _H.plan, _H.generate, _H.execute
