"""The design lattice and the caller's lattice never change."""
from dst.props._hist import ASSUMPTIONS, REAL, RULE, STUB, Hist, simplify  # noqa: F401

PROP = "C01"
_H = Hist(PROP, {
    "mixed": dict(faults=.3, weights=dict(plot=.7, meas=5, copy=2, user_edit=2, aperture=1)),
    "models": dict(faults=.6, weights={"meas!": 9, "set_cm": 2}, measures=["rm", "rm", "rm", "disp", "disp", "model"]),
    "readings": dict(faults=.5, weights=dict(meas=10, plot=2), share=.5),
}, quick=260, thorough=5000)
plan, generate, execute = _H.plan, _H.generate, _H.execute
