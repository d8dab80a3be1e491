"""Registration bookkeeping is exact."""
from dst.props._hist import ASSUMPTIONS, REAL, RULE, STUB, Hist, simplify  # noqa: F401

PROP = "C17"
_H = Hist(PROP, {
    "register": dict(weights={"reg_bpm!": 6, "reg_mag!": 8, "reg_cav!": 4, "reg_sup!": 8, "bad": 3, "errors": 1, "edit": 1, "meas": 0, "switch": 0}, setup=False, n_ops=(15, 40)),
    "repeat": dict(weights={"reg_bpm!": 3, "reg_mag!": 8, "reg_cav!": 2, "reg_sup!": 8, "errors": 1, "edit": 1, "meas": 0, "switch": 0, "sysmult": 0, "randmult": 0},
                   setup=False, n_ops=(15, 40), again=0.6, ends=0.5),
}, quick=320, thorough=6000)
plan, generate, execute = _H.plan, _H.generate, _H.execute
