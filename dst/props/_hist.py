"""Shared by the properties decided on histories of operations (world W1)."""
from dst import history
from dst.gen import Gen

REAL = ["pySC (all modules reached by the operations)", "pyAT tracking, closed orbit and optics", "numpy/scipy"]
STUB = ["random draws (numpy.random.randn/standard_normal/normal, at's random generator): keyed simulator streams",
        "at.lattice_track / at.find_orbit4 / at.find_orbit6: real code behind a fault-injecting shim",
        "multiprocessing pools: deterministic in-process pool", "matplotlib: Agg backend, no windows"]
ASSUMPTIONS = [
    "machines are generated rings of 3-6 cells (thick and thin correctors, split dipoles, combined-function dipoles, one or two cavities)",
    "supports of one type neither overlap nor share endpoints; magnets are registered once",
    "pyAT itself is trusted; the Energy attribute it writes into radiating elements is not part of the compared state",
]
RULE = ("distinct values of (operation, number of registered magnets and machines, how often errors were applied on each machine, "
        "fault injected or not, tracking mode) reached in runs in which at least one effect was compared with the reference model")


class Hist:
    """One property module's behaviour: configurations of the history generator."""

    def __init__(self, prop, configs, quick, thorough):
        self.prop, self.configs, self.n = prop, configs, {"quick": quick, "thorough": thorough}

    def plan(self, tier):
        return [(c, max(1, int(self.n[tier] * self.configs[c].get("share", 1.0)))) for c in self.configs]

    def generate(self, config, r, seed):
        kw = {k: v for k, v in self.configs[config].items() if k != "share"}
        return Gen(r, **kw).scenario(seed)

    def execute(self, sc):
        return history.execute(sc, self.prop)


def simplify(sc):
    """Candidates for a simpler failing scenario beyond removing operations."""
    if sc.get("rng", {}).get("mode") != "const":
        yield dict(sc, rng={"mode": "const", "z": 0.5})
    for k, v in (("shared", False), ("split", False), ("skew", False), ("aper", 0), ("cf", 0.0), ("curv", 0.0), ("ncav", 1), ("jitter", 0.0), ("e2", False), ("exotic", 0)):
        if sc["ring"].get(k) not in (v, None):
            yield dict(sc, ring=dict(sc["ring"], **{k: v}))
    for i, op in enumerate(sc.get("ops", [])):
        for key in ("ords", "sp"):
            if isinstance(op.get(key), list) and len(op[key]) > 1:
                ops = list(sc["ops"])
                ops[i] = dict(op, **{key: op[key][:1]})
                if op["op"] == "reg_mag" and op["types"].get("MasterOf"):
                    ops[i]["types"] = dict(op["types"], MasterOf=[row[:1] for row in op["types"]["MasterOf"]])
                if op["op"] != "reg_mag" or not op["types"].get("MasterOf") or key == "ords":
                    yield dict(sc, ops=ops)
        if isinstance(op.get("sig"), dict):
            for key in list(op["sig"]):
                ops = list(sc["ops"])
                ops[i] = dict(op, sig={k: v for k, v in op["sig"].items() if k != key})
                yield dict(sc, ops=ops)
