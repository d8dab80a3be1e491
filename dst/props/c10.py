"""Support misalignments are carried to magnets and BPMs."""
from dst.props._hist import ASSUMPTIONS, REAL, RULE, STUB, Hist, simplify  # noqa: F401

PROP = "C10"
_H = Hist(PROP, {
    "supports": dict(weights={"errors!": 6, "reg_sup!": 8, "misalign!": 5, "update": 3, "reg_mag": 4, "reg_bpm": 2, "meas": 0, "inj_sig": 0, "switch": 0, "sysmult": 0}),
}, quick=480, thorough=7000)
plan, generate, execute = _H.plan, _H.generate, _H.execute
