"""Machines and copies are independent."""
from dst.props._hist import ASSUMPTIONS, REAL, RULE, STUB, Hist, simplify  # noqa: F401

PROP = "C15"
_H = Hist(PROP, {
    "copies": dict(faults=.2, weights={"copy!": 6, "new!": 2, "meas": 3, "aperture": 1, "edit": 2}),
}, quick=500, thorough=4500)
plan, generate, execute = _H.plan, _H.generate, _H.execute
