"""Setpoint commands do exactly what they say."""
from dst.props._hist import ASSUMPTIONS, REAL, RULE, STUB, Hist, simplify  # noqa: F401

PROP = "C03"
_H = Hist(PROP, {
    "commands": dict(weights={"set_mag": 8, "set_cm": 8, "set_cav": 5, "bad": 2, "randmult": 2, "sysmult": 2, "meas": 0, "switch": 0, "user_edit": 0}, n_ops=(12, 34)),
}, quick=450, thorough=8000)
plan, generate, execute = _H.plan, _H.generate, _H.execute
