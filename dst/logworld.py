"""World W7: debug mode and logging around histories of operations.

A seeded program of nested debug-mode blocks, log messages, level changes and machine operations runs against a
virtual file system (which can refuse, run full or fail) and a virtual clock (which can jump); the same operations are
executed without any logging for comparison.
"""
import contextlib
import errno
import io
import logging
import os
import sys
import time as _time
import types

import numpy as np

from dst.base import InjectedFault, Result, describe, diff, rng_for
from dst.metaworld import Recorder, compare, history, merge, record
from dst.seams import Sim, installed, remember_real
from dst.simpool import PoolWorld

LEVELS = [10, 10, 20, 25, 30, 40, 50]


class Boom(Exception):
    """raised by the user's code inside a debug-mode block"""


# ---------------------------------------------------------------------- virtual disk
class Disk:
    def __init__(self, faults, fired):
        self.files, self.open_now, self.n_open, self.n_write = {}, [], 0, 0
        self.faults, self.fired = faults, fired

    def open(self, path, mode="r", *a, **k):
        path = os.path.abspath(os.fspath(path))
        self.n_open += 1
        if self.n_open - 1 in self.faults.get("open", ()):
            self.fired["disk:open"] += 1
            raise OSError(self.faults.get("errno", errno.ENOSPC), "injected", path)
        if "r" in mode:
            if path not in self.files:
                raise FileNotFoundError(errno.ENOENT, "no such file", path)
        elif "w" in mode or path not in self.files:
            self.files[path] = []
        f = File(self, path)
        self.open_now.append(f)
        return f


class File:
    encoding = "utf-8"

    def __init__(self, disk, path):
        self.disk, self.name, self.closed = disk, path, False

    def write(self, text):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        d = self.disk
        k, d.n_write = d.n_write, d.n_write + 1
        lo, hi = d.faults.get("write", (0, 0))
        if lo <= k < hi:
            d.fired["disk:write"] += 1
            raise OSError(errno.ENOSPC, "injected", self.name)
        d.files[self.name].append(text)
        return len(text)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self.disk.open_now.remove(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Clock:
    def __init__(self, jumps, fired):
        self.t, self.n, self.jumps, self.fired = 1_700_000_000.25, 0, dict(jumps), fired

    def time(self):
        self.n += 1
        self.t += 0.001953125
        if self.n in self.jumps:
            self.fired["clock:jump"] += 1
            self.t += self.jumps[self.n]
        return self.t


def shim(real, **names):
    m = types.ModuleType(real.__name__)
    m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
    m.__dict__.update(names)
    return m


# ---------------------------------------------------------------------- generation
PLACES = ["correction/user_script", "correction/study", "core/extra", "utils/tool", "@outside/study/run", "@outside/alone"]


def generate(config, r, seed):
    a = history(r, seed, n_ops=(2, 7), plot=.3)
    left = list(range(len(a["ops"])))

    def body(depth):
        out = []
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < .3:
                out.append(dict(t="log", place=r.choice(PLACES), level=r.choice(LEVELS), form=r.choice(["plain", "args", "percent"])))
            elif x < .55 and left:
                left.pop()
                out.append(dict(t="op"))
            elif x < .65:
                out.append(dict(t="level", place=r.choice(PLACES), level=r.choice([0, 10, 30])))
            elif x < .72:
                out.append(dict(t="root", console=r.choice([None, 10, 20, 40, 0]), color=r.choice([None, True, False]), root=r.choice([10, 10, 30])))
            elif depth < 3:
                out.append(dict(t="debug", place=r.choice(PLACES), active=r.random() < .85, file=r.choice([None, None, "mine.log", "no_suffix"]),
                                boom=r.random() < .2, body=body(depth + 1)))
        return out
    prog = body(0) + [dict(t="debug", place=r.choice(PLACES), active=True, file=None, boom=r.random() < .2, body=body(1))]
    faults = {}
    if r.random() < .25:
        faults.update(open=[r.randrange(0, 3)], errno=r.choice([errno.ENOSPC, errno.EACCES, errno.EMFILE]))
    if r.random() < .25:
        lo = r.randrange(0, 30)
        faults["write"] = [lo, lo + r.randint(1, 20)]
    jumps = [[r.randrange(1, 60), r.choice([-86400.0, -1.5, 3600.0, 1e7])] for _ in range(r.choice([0, 0, 1, 3]))]
    return dict(seed=seed, config=config, a=a, ops=a["ops"], prog=prog, disk=faults, jumps=jumps, root_level=r.choice([10, 30, 30, 20]))


# ---------------------------------------------------------------------- the world
class LogWorld:
    def __init__(self, sc, prop, res):
        self.sc, self.prop, self.res = sc, prop, res
        self.disk = Disk(sc["disk"], res.fired)
        self.clock = Clock([tuple(x) for x in sc["jumps"]], res.fired)
        self.callers = {}
        self.blocks = []            # active debug blocks, outermost first
        self.n = 0
        self.err = io.StringIO()

    def fail(self, what, msg):
        self.res.violate(f"{self.prop}/{what}", msg)

    def caller(self, place):
        """functions of a module which (virtually) lies at that place"""
        if place not in self.callers:
            from pySC.utils import logging_tools as lt
            base = os.path.dirname(os.path.dirname(os.path.abspath(lt.__file__)))
            path = os.path.join("/home/somebody", place[9:] + ".py") if place.startswith("@outside/") else os.path.join(base, place + ".py")
            ns = {"__name__": "m", "logging_tools": lt}
            exec(compile("def debug(**k):\n    return logging_tools.DebugMode(**k)\ndef logger(name, **k):\n    return logging_tools.get_logger(name, **k)\n", path, "exec"), ns)
            self.callers[place] = (path, ns["debug"], ns["logger"], ns["logger"]("x"))
        return self.callers[place]

    def snapshot(self):
        out = {"": (logging.root.level, list(logging.root.handlers), list(logging.root.filters), logging.root.disabled)}
        for n, l in logging.root.manager.loggerDict.items():
            if isinstance(l, logging.Logger):
                out[n] = (l.level, list(l.handlers), l.propagate, l.disabled, list(l.filters))
        return out

    def changed(self, before):
        after = self.snapshot()
        fresh = (logging.NOTSET, [], True, False, [])
        return {n: (before.get(n), after[n]) for n in after if after[n] != before.get(n, fresh)}

    # -------------------------------------------------------------- program
    def run(self):
        root = logging.getLogger()
        saved = {n: (l.level, list(l.handlers), l.disabled) for n, l in [("", root)] + [(n, l) for n, l in root.manager.loggerDict.items() if isinstance(l, logging.Logger)]}
        names = set(root.manager.loggerDict)
        from pySC.utils import logging_tools as lt
        import datetime as dt
        clock = self.clock

        class Now(dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(clock.time(), dt.timezone.utc).replace(tzinfo=None)
        swap = {id(dt): shim(dt, datetime=Now), id(dt.datetime): Now,
                id(_time): shim(_time, time=clock.time, perf_counter=clock.time, monotonic=clock.time)}
        swap.update({id(f): clock.time for f in (_time.time, _time.perf_counter, _time.monotonic)})
        saved_mod = {k: v for k, v in vars(lt).items() if id(v) in swap}   # however the module imported them
        old_stderr, disabled_all = sys.stderr, root.manager.disable
        sim = self.sim = Sim(self.sc["a"], Result())
        pool = PoolWorld(self.sc["a"].get("pool"), sim.res.fired)
        try:
            for k, v in saved_mod.items():
                setattr(lt, k, swap[id(v)])
            logging.open = lt.open = self.disk.open
            sys.stderr = self.err
            logging.disable(logging.NOTSET)
            root.handlers = []
            root.setLevel(self.sc["root_level"])
            self.sink = Sink()
            root.addHandler(self.sink)
            with np.errstate(all="ignore"), installed(sim, pool):
                self.world = Recorder(self.sc["a"], self.prop, sim)
                self.world.start()
                self.todo = list(self.sc["ops"])
                self.body(self.sc["prog"])
                while self.todo:
                    self.world.one(self.todo.pop(0))
            self.res.beam_seconds += sim.res.beam_seconds
        finally:
            sys.stderr = old_stderr
            logging.disable(disabled_all)
            for k, v in saved_mod.items():
                setattr(lt, k, v)
            for m in (logging, lt):
                if "open" in vars(m):
                    del m.open
            for n, l in [("", root)] + [(n, l) for n, l in list(root.manager.loggerDict.items()) if isinstance(l, logging.Logger)]:
                level, handlers, disabled = saved.get(n, (0, [], False))
                for h in l.handlers:
                    if h not in handlers:
                        with contextlib.suppress(Exception):
                            h.close()
                l.handlers, l.disabled = handlers, disabled
                l.setLevel(level)
        if self.sink.errors:
            self.fail("message", f"a log message cannot be formatted: {self.sink.errors[0]}")

    def body(self, items):
        for it in items:
            getattr(self, "t_" + it["t"])(it)
            if self.res.violations:
                return

    def t_op(self, it):
        if self.todo:
            self.world.one(self.todo.pop(0))

    def t_level(self, it):
        lg = self.caller(it["place"])[3]
        if any(b["logger"] is lg for b in self.blocks):
            return                      # a level set inside the block is lost by design
        lg.setLevel(it["level"])

    def t_log(self, it):
        path, _, _, lg = self.caller(it["place"])
        self.n += 1
        text = f"message-{self.n}-"
        enabled = lg.isEnabledFor(it["level"])
        own = [b for b in self.blocks if b["logger"] is lg and b["open"]]
        if own and not enabled:
            self.fail("level", f"a message of level {it['level']} is not logged although the debug mode of its module {path} is active")
        if it["form"] == "args":
            lg.log(it["level"], text + "%s|%d", "x", 3)
            want = text + "x|3"
        elif it["form"] == "percent":
            lg.log(it["level"], text + "100%")
            want = text + "100%"
        else:
            lg.log(it["level"], text)
            want = text
        for b in self.blocks:
            if b["open"]:
                b["messages"].append((want, it["level"], lg, enabled))
        self.res.stats["messages"] += 1

    def t_root(self, it):
        """the main script sets up logging: everything from the given level on appears exactly once, errors on stderr"""
        if self.blocks:
            return
        root = logging.getLogger()
        keep = [h for h in root.handlers if h is self.sink]
        _, _, get, lg = self.caller("@outside/main")
        kw = {} if it["console"] is None else dict(level_console=it["console"])
        for _ in range(2):              # setting up twice must not double the messages
            get("__main__", level_root=it["root"], color=it["color"], **kw)
        streams = {}
        for h in root.handlers:
            if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler):
                which = "err" if h.stream in (sys.stderr, sys.__stderr__) else "out"
                s = io.StringIO()
                h.setStream(s)
                streams.setdefault(which, []).append(s)
        out = lambda k: "".join(s.getvalue() for s in streams.get(k, []))
        console = it["console"] if it["console"] is not None else (10 if sys.flags.debug else 20)
        for level in (5, 10, 15, 20, 25, 30, 35, 40, 45, 50):
            self.n += 1
            text = f"message-{self.n}-"
            root.log(level, text)
            n = {k: out(k).count(text) for k in ("out", "err")}
            shown = level >= max(console, 10, it["root"])
            # levels between the documented ones: at most once
            want = {"out": int(shown and level < 40), "err": int(shown and level >= 40)}
            if n != want and level % 10 == 0 or n["out"] + n["err"] > 1:
                self.fail("console", f"a message of level {level} appears {n} times with console level {it['console']} and root level {it['root']}")
        root.handlers = keep
        root.setLevel(self.sc["root_level"])
        self.res.state("root", it["console"], it["root"], it["color"])

    def t_debug(self, it):
        path, debug, _, lg = self.caller(it["place"])
        kw = dict(active=it["active"])
        if it["file"]:
            kw["log_file"] = os.path.join("/data/somewhere", it["file"])
        before = self.snapshot()
        n_open, files = len(self.disk.open_now), {k: list(v) for k, v in self.disk.files.items()}
        try:
            mode = debug(**kw)
        except OSError as e:
            self.res.stats["debug-mode-refused"] += 1
            c = self.changed(before)
            if c or len(self.disk.open_now) != n_open:
                self.fail("refused", f"debug mode could not open its file and left behind {self.short(c)}, {len(self.disk.open_now) - n_open} open files")
            self.res.state("refused", len(self.blocks))
            return
        block = dict(logger=lg, open=it["active"], messages=[], path=path, console=[])
        if it["active"]:
            new = [f for f in self.disk.open_now if f.name not in files]
            if len(self.disk.open_now) != n_open + 1 or len(new) != 1:
                self.fail("file", f"debug mode of {path} opened {[f.name for f in self.disk.open_now[n_open:]]}, existing {list(files)[:3]}")
                return
            name = new[0].name
            want_dir = os.path.dirname(os.path.abspath(kw.get("log_file", path)))
            want_end = it["file"] or os.path.splitext(os.path.basename(path))[0] + ".log"
            if os.path.dirname(name) != want_dir or not name.endswith(want_end):
                self.fail("file", f"debug mode of {path} with log_file={kw.get('log_file')} writes to {name}")
            block["file"] = name
            for n in list(logging.root.manager.loggerDict) + [""]:
                l = logging.getLogger(n) if n else logging.root
                for h in l.handlers:
                    if isinstance(h, logging.StreamHandler) and getattr(h, "stream", None) in (sys.stdout, sys.__stdout__):
                        block["console"].append(io.StringIO())
                        h.setStream(block["console"][-1])
        else:
            c = self.changed(before)
            if c or len(self.disk.open_now) != n_open or {k: list(v) for k, v in self.disk.files.items()} != files:
                self.fail("inactive", f"inactive debug mode changed {self.short(c)}")
        self.blocks.append(block)
        writes0 = self.disk.n_write
        try:
            with mode:
                inner = self.snapshot()
                self.body(it["body"])
                if it["boom"]:
                    raise Boom
            if it["boom"]:
                self.fail("swallowed", "debug mode swallowed an exception")
        except Boom:
            pass
        finally:
            self.blocks.remove(block)
        if self.res.violations:
            return
        self.res.nontrivial = True
        # levels set by the user inside survive, everything else is as before
        c = {n: v for n, v in self.changed(before).items() if not self.user_level(it["body"], n, v)}
        if c:
            self.fail("not-undone", f"after debug mode of {path}: {self.short(c)}")
        if len(self.disk.open_now) != n_open:
            self.fail("file-open", f"after debug mode of {path}: {[f.name for f in self.disk.open_now]} still open")
        if it["active"]:
            text = "".join(self.disk.files.get(block["file"], []))
            lines = text.split("\n")
            lo, hi = self.sc["disk"].get("write", (0, 0))
            clean = self.disk.n_write <= lo or writes0 >= hi
            pos = -1
            shown = "".join(x.getvalue() for x in block["console"])
            for msg, level, l, enabled in block["messages"] if block["console"] else ():
                n, want = shown.count(msg), int(level == logging.DEBUG)        # debug messages only: others have their own output
                if l is lg and n != want:
                    self.fail("debug-console", f"message {msg!r} of level {level} appears {n} times on the console of the debug mode of {path}")
                    return
            for msg, level, l, enabled in block["messages"]:
                at = [i for i, x in enumerate(lines) if msg in x]
                must = l is lg
                if len(at) > 1 or must and clean and len(at) != 1:
                    self.fail("content", f"message {msg!r} of level {level} appears {len(at)} times in the log file of {path}")
                    return
                if at and (logging.getLevelName(level) not in lines[at[0]] or at[0] <= pos):
                    self.fail("content", f"message {msg!r} is logged as {lines[at[0]]!r} on line {at[0]} after line {pos}")
                    return
                pos = at[0] if at else pos
            self.res.stats["log-files-compared"] += 1
        self.res.state("debug", len(self.blocks), it["place"], it["active"], it["file"], it["boom"], bool(self.sc["disk"]), bool(self.sc["jumps"]), len(block["messages"]), tuple(i["t"] for i in it["body"]))

    def user_level(self, body, name, v):
        for it in body:
            if it["t"] == "level":
                lg = self.caller(it["place"])[3]
                if lg.name == name and v[0] is not None and v[0][1:] == v[1][1:] or lg.name == name and v[0] is None:
                    return True
            if it["t"] == "debug" and self.user_level(it["body"], name, v):
                return True
        return False

    def short(self, c):
        return {n: f"level {a[0] if a else 0} -> {b[0]}, {len(a[1]) if a else 0} -> {len(b[1])} handlers" for n, (a, b) in list(c.items())[:3]}


class Sink(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.errors, self.n = [], 0

    def emit(self, record):
        try:
            record.getMessage()
            self.n += 1
        except Exception as e:
            self.errors.append(f"{record.name}: {record.msg!r}: {e}")


def execute(sc, prop):
    remember_real()
    res = Result()
    a = dict(sc["a"], ops=sc["ops"])
    ref, sub = record(a, prop)
    merge(res, sub)
    w = LogWorld(sc, prop, res)
    w.run()
    if not res.violations:
        compare(res, prop, "results", ref, w.world.seen, "with debug mode and logging")
    res.stats["steps-compared"] += len(ref)
    res.event("log", w.n, sorted(w.disk.files), w.disk.n_write)
    return res
