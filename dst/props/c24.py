"""The Matlab-style commands."""
from dst import indexworld
from dst.props._hist import simplify as _hist_simplify

PROP = "C24"
RULE = "distinct (world, operation, operation before it, fault or not, mode) in runs in which at least one command ran in place of its function, and distinct arguments of commands without a machine"
ASSUMPTIONS = ["commands are compared where they can express the call (no removed singular values, no choice of BPMs in RF corrections, default number of points in tune scans)",
               "a matrix inverted twice is the same matrix to 1e-7, otherwise the call is not compared"]
REAL = ["pySC: matlab_index and everything it calls", "accelerator-toolbox", "numpy, scipy"]
STUB = ["as in the worlds which are executed through the commands", "disk: virtual file with the multipole table"]
_N = {"quick": {"hist": 150, "proc": 250, "fit": 120, "tools": 300}, "thorough": {"hist": 4000, "proc": 6000, "fit": 3000, "tools": 6000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return indexworld.generate(config, r, seed)


def execute(sc):
    return indexworld.execute(sc, PROP)


def simplify(sc):
    if sc["config"] == "hist":
        for x in _hist_simplify(dict(sc["a"], ops=sc["ops"])):
            yield dict(sc, a=x, ops=x["ops"])
