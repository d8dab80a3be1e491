"""Error draws follow the registered uncertainties."""
from dst.props._hist import ASSUMPTIONS, REAL, RULE, STUB, Hist, simplify  # noqa: F401

PROP = "C09"
_H = Hist(PROP, {
    "mixed": dict(weights={"errors!": 8, "inj_sig": 3, "reg_sup": 4, "reg_mag": 4, "reg_bpm": 2, "reg_cav": 2, "randmult": 3, "edit": 3, "meas": 0, "plot": 0, "user_edit": 0}),
    "exact": dict(weights={"errors!": 8, "inj_sig": 3, "reg_sup": 4, "reg_bpm": 2, "reg_cav": 2, "meas": 0}, rng="const", share=.6),
    "tails": dict(weights={"errors!": 8, "inj_sig": 3, "reg_sup": 4, "reg_bpm": 2, "reg_cav": 2, "meas": 0}, rng="tails", share=.4),
}, quick=220, thorough=4000)
plan, generate, execute = _H.plan, _H.generate, _H.execute
