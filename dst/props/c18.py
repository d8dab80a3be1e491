"""Cavity and radiation switches change exactly the requested elements."""
from dst.props._hist import ASSUMPTIONS, REAL, RULE, STUB, Hist, simplify  # noqa: F401

PROP = "C18"
_H = Hist(PROP, {
    "switch": dict(weights={"switch!": 14, "meas!": 1, "errors": 1}, n_ops=(15, 40), exotic=.4),
}, quick=420, thorough=6000)
plan, generate, execute = _H.plan, _H.generate, _H.execute
