"""Actual fields are the documented function of setpoints and errors, over any history."""
from dst.props._hist import ASSUMPTIONS, REAL, RULE, STUB, Hist, simplify  # noqa: F401

PROP = "C02"
_H = Hist(PROP, {
    "mixed": dict(weights=dict(sysmult=3, randmult=2, errors=3, set_mag=7, set_cm=7, set_cav=4, update=3, meas=0, plot=0, user_edit=0)),
    "copies": dict(weights=dict(copy=3, new=1, sysmult=2, set_mag=5, set_cm=5, set_cav=3), share=.4),
}, quick=450, thorough=6000)
plan, generate, execute = _H.plan, _H.generate, _H.execute
