"""Debug mode and logging."""
from dst import logworld, twins
from dst.base import Result

PROP = "C20"
RULE = "distinct (nesting, module, active, log file, exception, disk faults, clock jumps, messages, contents of the block) and root logger settings in runs with at least one debug-mode block compared"
ASSUMPTIONS = ["two debug modes of the same module never start in the same microsecond", "levels which the user sets on the module's own logger inside its debug mode are lost by design"]
REAL = ["pySC: logging_tools, all modules reached by the histories", "logging of the standard library", "accelerator-toolbox"]
STUB = ["disk: virtual files which may refuse to open or to take data", "clock: virtual, may jump", "random draws: keyed streams"]
_N = {"quick": {"debug": 500, "procs": 300}, "thorough": {"debug": 9000, "procs": 5000}}


def plan(tier):
    return list(_N[tier].items())


def generate(config, r, seed):
    return twins.generate_log(config, r, seed) if config == "procs" else logworld.generate(config, r, seed)


def execute(sc):
    if sc["config"] == "procs":
        res = Result()
        twins.execute_log(sc, res, PROP)
        return res
    return logworld.execute(sc, PROP)


def simplify(sc):
    if sc["config"] == "procs":
        return
    for k, v in (("jumps", []), ("disk", {})):
        if sc[k]:
            yield dict(sc, **{k: v})

    def smaller(items):
        for i in range(len(items)):
            yield items[:i] + items[i + 1:]
        for i, it in enumerate(items):
            if it["t"] == "debug":
                yield items[:i] + it["body"] + items[i + 1:]
                for b in smaller(it["body"]):
                    yield items[:i] + [dict(it, body=b)] + items[i + 1:]
    for p in smaller(sc["prog"]):
        yield dict(sc, prog=p)
