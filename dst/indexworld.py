"""World W8: the Matlab-style commands.

A simulation of another world is executed twice, once calling the functions directly and once through the commands of
``pySC.matlab_index``, with the same faults; both must see and do the same.  The commands without a machine read their
tables from a virtual disk which may fail.
"""
import errno
import math
import re
import types

import numpy as np

from dst import fitworld, procworld, refmodel
from dst.base import InjectedFault, Result, Skip, diff, freeze_ring, rng_for
from dst.facade import Facade
from dst.machines import build_ring, gen_spec
from dst.metaworld import Recorder, compare, history, merge
from dst.seams import Sim, installed, remember_real
from dst.simpool import PoolWorld

P = "C24"


def generate(config, r, seed):
    if config == "hist":
        a = history(r, seed, plot=1.5)
        return dict(seed=seed, config=config, a=a, ops=a["ops"])
    if config in ("proc", "fit"):
        kind = r.choice(["scan", "rf", "rf", "thread", "orbit"] if config == "proc" else ["bba", "tune", "inj", "inj"])
        a = (procworld if config == "proc" else fitworld).generate(kind, r, seed)
        a["ops"] = [o for o in a["ops"] if o["op"] not in ("chroma", "locorm")]
        for o in a["ops"]:
            if r.random() < .6:            # what the commands can express
                for k, v in (("removed", 0), ("ords", o.get("ords") if o["op"] not in ("rfphase", "rffreq") else False), ("flags", False)):
                    if k in o:
                        o[k] = v
                if o["op"] == "scan":
                    o["n_points"] = 60
        return dict(seed=seed, config=config, kind=kind, a=a, ops=a["ops"])
    ops = []
    for i in range(r.randint(3, 9)):
        k = r.choice(["ords", "circ", "table", "table", "table", "trans", "randnc", "pinv", "init", "refuse"])
        op = dict(id=i + 1, op=k)
        if k == "ords":
            op["regex"] = r.choice(["QF", "^Q", "BPM", "F$", ".", "nothing", "S[FD]", "^(CAV|BPM)$", "M|CAV"])
        elif k == "circ":
            op.update(mode=r.choice(["abs", "rel", "wrong"]), f=r.choice([1.0, 1.01, .97, 1.3]))
        elif k == "table":
            n = r.randint(1, 6)
            ab = [[r.choice([0.0, r.uniform(-.01, .01)]) for _ in range(2)] for _ in range(n)]
            if r.random() < .85:
                ab[r.randrange(n)][r.randrange(2)] = 1.0
            if r.random() < .1:
                ab[r.randrange(n)][r.randrange(2)] = 1.0
            op.update(ab=ab, extra=r.random() < .1, junk=r.random() < .08, chunk=r.choice([0, 1, 7, 64]), pad=r.choice([" ", "\t", "  ", "\n"]),
                      fault=r.choice([None] * 5 + ["open", "read"]), errno=r.choice([errno.EIO, errno.EACCES, errno.ENOENT]))
        elif k == "trans":
            op.update(d=[r.uniform(-1, 1) * r.choice([0, 1e-4, 1e-2]) for _ in range(3)], a=[r.uniform(-1, 1) * r.choice([0, 1e-3, .3]) for _ in range(3)],
                      theta=r.choice([0.0, r.uniform(-.3, .3)]), length=r.choice([0.0, r.uniform(.05, 2)]))
            if op["length"] == 0:
                op["theta"] = 0.0
        elif k == "randnc":
            op.update(cut=r.choice([.5, 1, 2, -1.5, 3]), shape=r.choice([[], [1], [7], [2, 3], [2, 1, 4]]))
        elif k == "pinv":
            op.update(shape=[r.randint(2, 6), r.randint(2, 6)], N=r.choice([0, 0, 1]), alpha=r.choice([0, .1, 3.0]), damping=r.choice([1, .5]))
        elif k == "refuse":
            op["what"] = r.choice(["dim-get", "dim-set", "type", "mult-type", "mult-shape", "inj", "centre", "loco", "in3d"])
        ops.append(op)
    return dict(seed=seed, config="tools", ring=gen_spec(r, size=3), ops=ops, rng={"mode": "normal", "label": "x"})


# ---------------------------------------------------------------------- twins
def execute_hist(sc, res):
    a = dict(sc["a"], ops=sc["ops"])
    out = []
    for wrapped in (False, True):
        sub = Result()
        sim = Sim(a, sub)
        bad = []
        f = Facade(wrapped, res, lambda what, msg: bad.append((what, msg)))
        with np.errstate(all="ignore"), installed(sim, PoolWorld(a.get("pool"), sub.fired)), f.installed():
            w = Recorder(a, P, sim)
            w.start()
            for op in a["ops"]:
                w.one(op)
        out.append((w.seen, sub, f, bad))
        merge(res, sub)
    for k, v in out[1][1].fired.items():
        res.fired[k] += v
    for what, msg in out[1][3]:
        res.violate(f"{P}/{what}", msg)
    if not res.violations:
        compare(res, P, "twin", out[0][0], out[1][0], "through the Matlab-style commands")
        plots = [{k: n for k, n in o[1].stats.items() if k.startswith("plot")} for o in out]
        if plots[0] != plots[1]:
            res.violate(f"{P}/plot", f"plots directly: {plots[0]}, through the Matlab-style commands: {plots[1]}")
    done(sc, res, out[1][2])


def same_returns(res, x, y):
    for (n1, d1, t1), (n2, d2, t2) in zip(x, y):
        if n1 != n2:
            return          # another path was taken (the machine decides below)
        ok = len(d1) == len(d2) and all(p.shape == q.shape and (np.allclose(p, q, rtol=1e-4, atol=1e-8, equal_nan=True) if p.dtype.kind in "fiub" else np.array_equal(p, q)) for p, q in zip(d1, d2))
        if not ok:
            res.violate(f"{P}/returned", f"{n1} returns (or sends) {[p.ravel()[:4].tolist() for p in d1]}, through its Matlab-style command {[p.ravel()[:4].tolist() for p in d2]}")
            return
        if t1 != t2:
            res.violate(f"{P}/injections", f"after {n1} {t1} injections were made, through its Matlab-style command {t2}")
            return


def done(sc, res, f):
    for k, n in f.used.items():
        res.stats["command:" + k] += n
    res.stats["commands-compared"] += sum(n for k, n in f.used.items() if k != "(direct)")
    res.nontrivial = any(k != "(direct)" for k in f.used)
    prev = None
    for o in sc["ops"]:
        res.state(sc["config"], prev, o["op"], o.get("what"), bool(o.get("fault")), o.get("mode"), o.get("method"))
        prev = o["op"]


def execute_world(sc, res):
    mod = procworld if sc["config"] == "proc" else fitworld
    cls = procworld.ProcWorld if sc["config"] == "proc" else fitworld.FitWorld
    out = []
    for wrapped in (False, True):
        import copy
        a = dict(copy.deepcopy(sc["a"]), ops=copy.deepcopy(sc["ops"]))
        sub = Result()
        sim = Sim(a, sub, max_track=20000)
        bad = []
        f = Facade(wrapped, res, lambda what, msg: bad.append((what, msg)), sim)
        with np.errstate(all="ignore"), installed(sim, PoolWorld(a.get("pool"), sub.fired)), f.installed():
            w = cls(a, "*", sim)
            w.run()
        out.append((sub, f, bad, w))
        res.beam_seconds += sub.beam_seconds
        res.event("world", sub.trace.hexdigest())
    for k, v in out[1][0].fired.items():
        res.fired[k] += v
    for what, msg in out[1][2]:
        res.violate(f"{P}/{what}", msg)
    direct = {v["kind"] for v in out[0][0].violations}
    for v in out[1][0].violations:
        if v["kind"] not in direct:
            res.violate(f"{P}/{v['kind'].replace('/', '-')}", "through the Matlab-style command, but not directly: " + v["msg"], v["op"])
    if not res.violations and not direct:
        same_returns(res, out[0][1].returned, out[1][1].returned)
    if not res.violations:
        a, b = out[0][3], out[1][3]
        from dst.base import describe, freeze_machine
        x, y = freeze_machine(a.SC), freeze_machine(b.SC)
        # inverting a matrix three times costs some digits, which iterations may amplify
        d = diff(x, y, rtol=1e-4, atol=1e-8)
        if d and not direct:
            res.violate(f"{P}/twin", f"the machine differs at the end if the Matlab-style commands are used: {describe(d, x, y)}")
    done(sc, res, out[1][1])


# ---------------------------------------------------------------------- commands without a machine
class Reader:
    """an open file which delivers its text in chunks and may fail"""

    def __init__(self, disk, text, op):
        self.disk, self.text, self.op, self.closed, self.n = disk, text, op, False, 0

    def _more(self):
        self.n += 1
        if self.op["fault"] == "read" and self.n > 1 or self.op["fault"] == "read" and not self.op["chunk"]:
            raise OSError(self.op["errno"], "injected")

    def read(self, size=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if size is None or size < 0:
            self._more()
            if self.op["fault"] == "read":
                raise OSError(self.op["errno"], "injected")
            out, self.text = self.text, ""
            return out
        self._more()
        n = min(size, self.op["chunk"] or size)
        out, self.text = self.text[:n], self.text[n:]
        return out

    def readline(self, size=-1):
        self._more()
        i = self.text.find("\n") + 1 or len(self.text)
        out, self.text = self.text[:i], self.text[i:]
        return out

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            x = self.readline()
            if not x:
                return
            yield x

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Tools:
    def __init__(self, sc, res, sim):
        from pySC import matlab_index
        from pySC.utils import sc_tools
        self.mi, self.tools, self.sc, self.res, self.sim = matlab_index, sc_tools, sc, res, sim
        self.ring, self.groups = build_ring(sc["ring"])

    def fail(self, what, msg):
        self.res.violate(f"{P}/{what}", msg, self.cur)

    def run(self):
        for op in self.sc["ops"]:
            self.cur = op["id"]
            self.sim.begin_op(op["id"])
            before = freeze_ring(self.ring)
            try:
                getattr(self, "do_" + op["op"])(op)
                self.res.stats["tool:" + op["op"]] += 1
                self.res.nontrivial = True
            except Skip:
                pass
            if op["op"] != "circ" and diff(before, freeze_ring(self.ring)):
                self.fail("ring", f"{op['op']} changed the ring")
            self.sim.end_op()
            self.res.state("tools", *[str(v) if not isinstance(v, list) else len(v) for v in op.values()][1:])
            if self.res.violations:
                break

    def attempt(self, what, fn, allowed=()):
        try:
            return fn()
        except allowed:
            raise
        except Exception as e:
            from dst.history import _where
            self.fail(what + "-raised", f"{type(e).__name__}: {e} at {_where(e)}")
            raise Skip

    def do_ords(self, op):
        got = self.attempt("ords", lambda: self.mi.SCgetOrds(self.ring, op["regex"]))
        want = [i for i, e in enumerate(self.ring) if re.search(op["regex"], e.FamName)]
        if list(np.asarray(got)) != want:
            self.fail("ords", f"SCgetOrds({op['regex']!r}) is {got}, elements with such names are {want}")

    def do_circ(self, op):
        length = lambda: [float(getattr(e, "Length", 0.0)) for e in self.ring]
        before, l0 = freeze_ring(self.ring), length()
        c0 = math.fsum(l0)
        circ = c0 * op["f"] if op["mode"] == "abs" else op["f"]
        drifts = [i for i, e in enumerate(self.ring) if e.PassMethod == "DriftPass"]
        d0 = math.fsum(l0[i] for i in drifts)
        if d0 + c0 * (op["f"] - 1) <= .05 * d0:
            raise Skip
        if op["mode"] == "wrong":
            try:
                self.mi.SCscaleCircumference(self.ring, circ, mode="wrong")
                self.fail("circumference", "SCscaleCircumference accepted an unknown mode")
            except ValueError:
                pass
            want = l0
        else:
            self.attempt("circumference", lambda: self.mi.SCscaleCircumference(self.ring, circ, mode=op["mode"]))
            s = 1 + c0 * (op["f"] - 1) / d0
            want = [l * s if i in drifts else l for i, l in enumerate(l0)]
        if not np.allclose(length(), want, rtol=1e-9, atol=1e-12):
            self.fail("circumference", f"SCscaleCircumference({circ}, {op['mode']}): circumference {c0} became {math.fsum(length())}")
        bad = [p for p in diff(before, freeze_ring(self.ring)) if p[-1] != "Length"]
        if bad:
            self.fail("circumference", f"SCscaleCircumference changed {bad[:3]}")

    def do_table(self, op):
        rows = [[k + 1] + list(x) for k, x in enumerate(op["ab"])]
        text = "\n".join(op["pad"].join(repr(float(x)) for x in row) for row in rows) + "\n"
        if op["extra"]:
            text += "17.0\n"
        if op["junk"]:
            text = text.replace("\n", "\n% comment\n", 1)
        opened = []

        def fake_open(path, mode="r", *a, **k):
            if op["fault"] == "open":
                self.res.fired["disk:open"] += 1
                raise OSError(op["errno"], "injected", path)
            opened.append(Reader(self, text, op))
            return opened[-1]
        had = vars(self.tools).get("open")
        self.tools.open = fake_open
        ones = [(i, j) for i, x in enumerate(op["ab"]) for j in range(2) if x[j] == 1]
        try:
            out = self.mi.SCmultipolesRead("/data/table.txt")
            got = ("ok", out)
        except OSError as e:
            got = ("OSError", str(e))
        except ValueError as e:
            got = ("ValueError", str(e))
        except Exception as e:
            got = (type(e).__name__, str(e))
        finally:
            if had is None:
                del self.tools.open
            else:
                self.tools.open = had
        if op["fault"] == "read":
            self.res.fired["disk:read"] += 1
        if any(not f.closed for f in opened):
            self.fail("table-open", f"SCmultipolesRead ({got[0]}) left its file open")
        want = "OSError" if op["fault"] else "ValueError" if op["junk"] else "ok"
        if got[0] != want:
            self.fail("table", f"SCmultipolesRead of a table with {len(rows)} rows{', ' + op['fault'] + ' failing' if op['fault'] else ''}{', with text in it' if op['junk'] else ''}: {got}")
            return
        if want != "ok":
            return
        if op["extra"]:
            if got[1] is not None:
                self.fail("table", f"SCmultipolesRead accepted a table of the wrong size: {got[1]}")
            return
        if not isinstance(got[1], tuple) or len(got[1]) != 3:
            self.fail("table", f"SCmultipolesRead returned {got[1]!r}")
            return
        ba, order, typ = got[1]
        if not np.array_equal(np.asarray(ba), np.array(op["ab"])[:, ::-1]):
            self.fail("table", f"SCmultipolesRead returned {ba} for the table {op['ab']}")
        if len(ones) == 1 and (int(order), int(typ)) != ones[0]:
            self.fail("table", f"SCmultipolesRead gives nominal order {order}, type {typ} for the table {op['ab']}")
        if len(ones) != 1 and (int(order), int(typ)) != (0, 0):
            self.fail("table", f"SCmultipolesRead gives nominal order {order}, type {typ} for a table without a unique nominal component, announced is the first")

    def do_trans(self, op):
        d, a = op["d"], op["a"]
        got = self.attempt("transformation", lambda: self.mi.SCgetTransformation(*d, *a, op["theta"], op["length"], refPoint="entrance"))
        want = refmodel.transformation(op["length"], op["theta"], np.array(d), np.array([a[2], a[0], a[1]]))
        for n, x, y in zip(("T1", "T2", "R1", "R2"), got, want):
            if not np.allclose(x, y, rtol=1e-8, atol=1e-12):
                self.fail("transformation", f"SCgetTransformation({d}, {a}, {op['theta']}, {op['length']}): {n} is {np.asarray(x).ravel()}, should be {np.asarray(y).ravel()}")
                return

    def do_randnc(self, op):
        shape = tuple(op["shape"])
        self.sim.begin_op(op["id"])
        got = np.asarray(self.attempt("randnc", lambda: self.mi.SCrandnc(op["cut"], shape)))
        if got.shape != shape or np.any(np.abs(got) > abs(op["cut"])) or not np.all(np.isfinite(got)):
            self.fail("randnc", f"SCrandnc({op['cut']}, {shape}) gave {got}")
        self.sim.begin_op(op["id"])
        again = np.asarray(self.tools.randnc(op["cut"], shape))
        if not np.array_equal(got, again):
            self.fail("randnc", f"SCrandnc({op['cut']}, {shape}) gave {got}, randnc {again} from the same random numbers")
        if got.size > 2 and len(np.unique(got)) < got.size:
            self.fail("randnc", f"SCrandnc({op['cut']}, {shape}) repeats numbers: {got}")

    def do_pinv(self, op):
        r = rng_for(self.sc["seed"], op["id"], "m")
        m = np.array([[r.uniform(-1, 1) for _ in range(op["shape"][1])] for _ in range(op["shape"][0])])
        keep = m.copy()
        n = min(op["N"], min(op["shape"]) - 1)
        got = self.attempt("pinv", lambda: self.mi.SCgetPinv(m, N=n, alpha=op["alpha"], damping=op["damping"]))
        want = procworld.pseudo_inverse(keep, op["alpha"], op["damping"], n)
        if not np.array_equal(m, keep) or not np.allclose(got, want, rtol=1e-7, atol=1e-9 * np.max(np.abs(want))):
            self.fail("pinv", f"SCgetPinv(N={n}, alpha={op['alpha']}, damping={op['damping']}) of {keep.tolist()} is {np.asarray(got).tolist()}")

    def do_init(self, op):
        SC = self.attempt("init", lambda: self.mi.SCinit(self.ring))
        if any(x is y for x in SC.RING for y in self.ring) or len(SC.RING) != len(self.ring):
            self.fail("init", "SCinit shares elements with the lattice of the user")

    def do_refuse(self, op):
        mi = self.mi
        SC = mi.SCinit(self.ring)
        q = np.array(self.groups["QF"][:1])
        mi.SCregisterMagnets(SC, q, HCM=1e-3, VCM=1e-3)
        before = freeze_ring(SC.RING)
        fn = {"dim-get": lambda: mi.SCgetCMSetPoints(SC, q, 0), "dim-set": lambda: mi.SCsetCMs2SetPoints(SC, q, np.zeros(1), 3),
              "type": lambda: mi.SCsetMags2SetPoints(SC, q, 0, 2, np.zeros(1)), "mult-type": lambda: mi.SCsetMultipoles(SC, q, np.zeros((2, 2)), method="sys", order=1, type=3),
              "mult-shape": lambda: mi.SCsetMultipoles(SC, q, np.zeros(4)), "inj": lambda: mi.SCfitInjectionZ(SC, "fitZ"),
              "centre": lambda: mi.SCgetTransformation(0, 0, 0, 0, 0, 0, 0, 1), "loco": lambda: mi.SClocoLib("x"), "in3d": lambda: mi.SCparticlesIn3D()}[op["what"]]
        try:
            fn()
            self.fail("not-refused", f"the command accepts {op['what']}")
        except (ValueError, NotImplementedError):
            pass
        except Exception as e:
            self.fail("not-refused", f"the command refuses {op['what']} with {type(e).__name__}: {e}")
        if diff(before, freeze_ring(SC.RING)):
            self.fail("not-refused", f"the command refused {op['what']} but changed the machine")


def execute(sc, prop):
    remember_real()
    res = Result()
    if sc["config"] == "hist":
        execute_hist(sc, res)
    elif sc["config"] in ("proc", "fit"):
        execute_world(sc, res)
    else:
        sim = Sim(sc, res)
        with np.errstate(all="ignore"), installed(sim, PoolWorld({"ncpu": 1, "seed": 1, "schedule": "random"}, res.fired)):
            Tools(sc, res, sim).run()
    return res
