"""Results depend on the history of the machine and the seed only."""
from dst import metaworld, twins
from dst.base import Result

PROP = "C21"
RULE = "distinct (operation of one machine followed by operation of another) pairs, (circumstance, operation after it) pairs and beginnings of histories repeated in a new interpreter"
ASSUMPTIONS = ["histories are executed with draws keyed by operation, as if the user seeded numpy before each", "results of tracking and closed orbits are compared to 1e-6, machines to 1e-9"]
REAL = ["pySC: all modules reached by the histories", "accelerator-toolbox", "numpy", "pickle"]
STUB = ["random draws behind numpy.random: keyed streams; entropy for unseeded generators, clock, working directory, hash seed and logging: chosen by the scenario", "multiprocessing pool: simulated"]
ISOLATE = True          # every scenario starts in a process which has executed nothing before
_N = {"quick": {"duo": 130, "env": 150, "fresh": 24, "procs": 150}, "thorough": {"duo": 3000, "env": 3000, "fresh": 400, "procs": 4000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return twins.generate_pair(config, r, seed) if config == "procs" else metaworld.generate(config, r, seed)


def execute(sc):
    if sc["config"] == "procs":
        res = Result()
        twins.execute_pair(sc, res, PROP)
        return res
    return metaworld.execute(sc, PROP)


def simplify(sc):
    if sc["config"] == "duo":
        ops = sc["b"]["ops"]
        for i in range(0, len(ops), max(1, len(ops) // 4)):
            yield dict(sc, b=dict(sc["b"], ops=ops[:i] + ops[i + max(1, len(ops) // 4):]))
        for i in range(len(ops)):
            yield dict(sc, b=dict(sc["b"], ops=ops[:i] + ops[i + 1:]))
    elif sc["config"] == "env":
        for i in range(len(sc["env"])):
            if len(sc["env"]) > 1:
                yield dict(sc, env=sc["env"][:i] + sc["env"][i + 1:])
        if sc.get("earlier"):
            yield {k: v for k, v in sc.items() if k != "earlier"}
            ops = sc["earlier"]["ops"]
            for i in range(len(ops)):
                yield dict(sc, earlier=dict(sc["earlier"], ops=ops[:i] + ops[i + 1:]))
