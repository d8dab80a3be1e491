"""World W3: scans and iterative corrections on a machine with an exactly known linear response.

The machine below the code is ``plant.Plant``.  Every procedure is run next to a small reference implementation of
its documented iteration, which shares nothing with the code under test but the plant's formulas; injections can be
lost or raise at any point.
"""
import math

import numpy as np

from dst.base import InjectedFault, Result, Skip, describe, diff, freeze_machine, rng_for
from dst.beamworld import norm_refs
from dst.machines import C0, build_ring, gen_spec
from dst.plant import Plant, gen_plant
from dst.refrf import expect_frequency, expect_phase
from dst.seams import Sim, installed, pattern, remember_real
from dst.simpool import PoolWorld

NREPRO, WIGGLE_AFTER, W_STEPS, W_RANGE = 5, 20, 32, (500e-6, 1000e-6)
CM_FIELDS = ("SetPointA", "SetPointB", "PolynomA", "PolynomB", "KickAngle")


# ---------------------------------------------------------------------- scenarios
def generate(config, r, seed):
    spec = gen_spec(r, size=r.choice([2, 3, 3, 4]))
    orbit_rf = dict(lam=round(r.uniform(.3, 3), 3), amp=r.choice([1e-4, 5e-4]), psi=r.uniform(-3, 3), off=r.uniform(-5e-5, 5e-5),
                    per_hz=r.choice([1e-7, -3e-8]), df0=r.uniform(-500, 500))
    plant = gen_plant(r, rf=orbit_rf if r.random() < .4 else None)
    thick = ["QF", "QD", "SF"]
    sc = dict(seed=seed, ring=spec, plant=plant, rng={"mode": "const", "z": 0.0}, pool={"ncpu": 1, "seed": 1, "schedule": "random"},
              hcm=sorted(set((["CM"] if spec["thin"] and r.random() < .7 else []) + r.sample(thick, r.randint(1, 2)))),
              vcm=sorted(set((["CM"] if spec["thin"] and r.random() < .7 else []) + r.sample(thick, r.randint(1, 2)))),
              limit=r.choice([1e-3, 1e-3, 5e-3, 3e-4]), cal=r.choice([0.0, .05, .2]), bpm_cal=r.choice([0.0, .05]), bpm_off=r.choice([0.0, 1e-4, 5e-4]),
              drop_bpm=r.random() < .25, start=r.choice([0.0, 1e-5, 1e-4]), ops=[])
    ops = sc["ops"]

    def add(op, **kw):
        if r.random() < .12 and op not in ("z0", "rfstat"):
            kw["fault"] = {"kind": r.choice(["lose", "lose", "raise"]), "where": "any", "at": r.choice([0, 1, 2, 3, 5, 8, 13]), "frac": 1.0}
            if config != "thread" and r.random() < .35:
                kw["fault"].update(kind="hole", bpm=r.randrange(64), turn=r.choice([0, 1, 1, 2, 3]))
        ops.append(dict(id=len(ops) + 1, op=op, **kw))

    if config == "scan":
        for _ in range(r.randint(2, 5)):
            x = r.random()
            if x < .55:
                n = r.choice([2, 2, 3, 4, 5])
                add("rm", mode=r.choice(["TBT", "TBT", "ORB"]), nt=r.choice([1, 1, 2, 3]), n_steps=n, fit_order=r.choice([1, 1, 2]) if n >= 4 else 1,
                    amp=r.choice([1e-5, 5e-5, 2e-4, 8e-4]), per_cm=r.random() < .5, sub=r.random() < .5, asarray=r.choice(["scalar", "array1"]))
            elif x < .85:
                add("disp", mode=r.choice(["TBT", "ORB", "ORB"]), nt=r.choice([2, 3]), n_steps=r.choice([2, 2, 3, 4, 5]), step=r.choice([100.0, 1000, -500.0]), sub=r.random() < .4, spread=r.choice([0, 0, 300.0, -2000.0]))
            else:
                add("locorm", dkick=r.choice([1e-5, 1e-4, -1e-5]), sub=r.random() < .5, mode=r.choice(["TBT", "TBT", "PORB", "ORB"]), nt=r.choice([1, 2, 5]), edge=r.choice([0, 0, 1, -1]), np=r.choice([1, 1, 3]))
            maybe_move(add, r)
        return sc
    if config == "rf":
        plant.update(nerr=0, eta_spread=r.choice([0.0, 0.0, .3]), gates=[], ap=r.choice([None, None, None, 2e-3, 5e-4]), rf=orbit_rf)
        orbit_rf["off"] = orbit_rf["amp"] * r.choice([0.0, .1, -.1, .3, -.3, .5, -.5, .7, 1.2, -1.5])
        sc.update(start=0.0, drop_bpm=False)
        if r.random() < .6:
            sc.update(bpm_off=0.0, bpm_cal=0.0)
        sc["lag0"], sc["f_err"], sc["volt_off"] = r.choice([0.0, r.uniform(-1, 1)]), r.choice([0.0, r.uniform(-1e3, 1e3)]), r.uniform(-1e3, 1e3)
        for _ in range(r.randint(1, 4)):
            x = r.random()
            ncav = r.choice([None, None, 1])
            if r.random() < .3:
                add("rfmove", lag=r.uniform(-2, 2), df=r.uniform(-800, 800), lagspread=r.choice([0.0, r.uniform(-1, 1)]), dfspread=r.choice([0.0, r.uniform(-300, 300)]))
            bad = r.choice(["turns", "mode", "steps", "off", "notcav"]) if r.random() < .1 else None
            if x < .5:
                add("rfphase", nt=r.choice([3, 4, 6, 10]), n_steps=r.choice([6, 7, 10, 15, 21]), bad=bad, ords=r.random() < .3, ncav=ncav)
            elif x < .87:
                lo, hi = sorted([r.uniform(-2e3, 2e3), r.uniform(-2e3, 2e3)])
                add("rffreq", nt=r.choice([3, 4, 6, 10]), n_steps=r.choice([6, 7, 10, 15]), lo=lo, hi=hi + 200.0, bad=bad, ords=r.random() < .3, ncav=ncav)
            elif x < .95:
                add("rfstat", delta=r.choice([0.0, r.uniform(-.02, .02)]), ct=r.choice([0.0, r.uniform(-.3, .3), r.uniform(-5, 5)]), z=[r.choice([0.0, r.uniform(-.02, .02)]), r.choice([0.0, r.uniform(-.3, .3)])], lose=r.random() < .05)
            else:
                add("rfmove", lag=r.uniform(-2, 2), df=r.uniform(-800, 800))
        return sc
    for _ in range(r.randint(1, 3)):
        common = dict(ref=r.choice([None, None, "col", "flat"]), refamp=r.choice([1e-5, 1e-4, 5e-4]), sub=r.random() < .3, alpha=r.choice([0, 0, 1.0, 5.0]),
                      damping=r.choice([1, 1, .7]), removed=r.choice([0, 0, 1, 2]), rmerr=r.choice([0, 0, .05, .2]))
        which = r.choice(["first", "first", "stitch"] if config == "thread" else ["balance", "correct", "correct"])
        if which == "first":
            add("first", nt=1 if r.random() < .65 else 2, maxsteps=r.choice([3, 4, 30, 60, 100]), **common)
        elif which == "stitch":
            add("stitch", nt=2 if r.random() < .95 else 1, n_bpms=r.randint(1, 4), maxsteps=r.choice([4, 10, 30]), **common)
        elif which == "balance":
            add("balance", nt=2 if r.random() < .95 else 1, eps=r.choice([1e-4, 1e-5, 1e-7]), maxsteps=r.choice([4, 5, 10, 20]), **common)
        else:
            add("correct", mode=r.choice(["ORB", "TBT"]), nt=r.choice([1, 1, 2, 3]), eps=r.choice([1e-4, 1e-5, 1e-7]), target=r.choice([0, 0, 1e-4, 5e-4, 1e-6]),
                maxsteps=r.choice([1, 2, 3, 5, 30, 30]), disp=r.choice([0, 0, 1e6, 1e8]), **common)
        maybe_move(add, r)
    if config == "thread" and r.random() < .6:
        plant["gates"] = [dict(bpm=r.randrange(64), plane=r.randrange(2), theta=r.uniform(-1e-3, 1e-3), frac=r.uniform(.05, .6), base=r.random() < .7) for _ in range(r.randint(1, 2))]
        plant["ap"] = r.choice([None, 1.5e-2, 6e-3])
        if r.random() < .5:              # an injector which misses shots
            for op in ops:
                if op["op"] in ("first", "stitch") and "fault" not in op:
                    op["fault"] = {"kind": "lose", "where": "any", "at": r.choice([1, 5, 8]), "frac": 1.0, "p": r.choice([.1, .3, .5]), "key": op["id"]}
    return sc


def maybe_move(add, r):
    if r.random() < .5:
        add("z0", z=[r.uniform(-1, 1) * s for s in (5e-4, 1e-4, 5e-4, 1e-4)], kicks=r.choice([0.0, 5e-5, 3e-4, 1e-2]))


# ---------------------------------------------------------------------- reference
class Outcome(Exception):
    pass


class Ref:
    """Kicks and readings as the reference algorithms see them."""

    def __init__(self, w, bpms, hcm, vcm, mode, nt, fault):
        self.w, self.bpms, self.cms, self.mode, self.nt = w, bpms, (hcm, vcm), mode, (1 if mode == "ORB" else nt)
        self.k = [np.array([w.setpoint(o, d) for o in self.cms[d]]) for d in range(2)]
        self.df = 0.0
        self.fault, self.n_read = fault, 0
        self.reads = []

    def theta(self):
        th = self.w.theta0.copy()
        for d in range(2):
            for o, v in zip(self.cms[d], self.k[d]):
                th[d, o] = v * (1 + self.w.calcm[d].get(o, 0.0))
        return th

    def read(self):
        w = self.w
        f = self.fault
        lose = f and f["kind"] in ("lose", "hole") and (self.n_read == f["at"] if f.get("p") is None else self.n_read >= f["at"] and pattern(w.sc["seed"], f, self.n_read))
        self.n_read += 1
        if self.n_read > 3500:
            raise Outcome("budget")
        if self.mode == "ORB":
            x = w.plant.orbit(self.theta(), w.df0 + self.df)[:, :, None]
            if w.plant.lost(x)[-1, 0]:
                x[:] = np.nan
        else:
            x = w.plant.positions(self.theta(), w.z0, w.df0 + self.df, w.lag0, self.nt)
            x[:, w.plant.lost(x)] = np.nan
        if lose and f["kind"] == "hole":
            x[:, f["ord"], min(f["turn"], x.shape[2] - 1)] = np.nan
        elif lose:
            x[:] = np.nan
        out = np.zeros((2, len(self.bpms) * self.nt))
        for t in range(self.nt):
            for b, o in enumerate(self.bpms):
                out[:, t * len(self.bpms) + b] = (x[:, o, t] - w.bpm_off[o]) * (1 + w.bpm_cal[o])
        self.reads.append(out)
        return out

    def add(self, d, n, dk):
        k = self.k[d].copy()
        k[:n] = k[:n] + dk[:n]
        self.k[d] = np.clip(k, -self.w.sc["limit"], self.w.sc["limit"])

    def add_ords(self, d, ords, dk):
        for o in ords:
            i = list(self.cms[d]).index(o)
            self.k[d][i] = np.clip(self.k[d][i] + dk, -self.w.sc["limit"], self.w.sc["limit"])


def usable(x):
    """turns in which all monitors saw the beam, counted from a complete first turn"""
    ok = ~np.isnan(x).any(axis=0)
    return int(ok.sum()) if ok[0] else 0


def seen(b):
    return int(np.sum(~np.isnan(b[0])))


def rms(b):
    ok = ~np.isnan(b[0])
    with np.errstate(all="ignore"):
        return np.sqrt(np.mean(np.square(b[:, ok]), axis=1)) if ok.any() else np.full(2, np.nan)


def pseudo_inverse(m, alpha=0, damping=1, num_removed=0):
    u, s, vt = np.linalg.svd(m, full_matrices=False)
    n = len(s) - max(num_removed, 0)
    out = np.zeros(m.T.shape)
    for i in range(n):
        if s[i] > 0:
            out += damping * (s[i] / (s[i] ** 2 + alpha ** 2)) * np.outer(vt[i], u[:, i])
    return out


def last_cms(seen_n, n, bpms, cms):
    idx = seen_n - 1
    if idx >= len(bpms):
        return list(cms[-n:]) if n else []
    up = [o for o in cms if o <= bpms[idx]]
    if not up:
        raise Outcome("RuntimeError")
    return up[-n:]


def same_tail(h, n):
    return len(h) >= n and all(x == h[-1] for x in h[-n:])


def steady(h, n, eps):
    return len(h) >= n and bool(np.all(np.std(np.array(h[-n:]), axis=0) < eps))


def ref_wiggle(m, limit):
    phi = 2 * np.pi / ((1 + math.sqrt(5)) / 2)
    i = np.arange(W_STEPS)
    rad = np.sqrt(W_RANGE[0] ** 2 + (W_RANGE[1] ** 2 - W_RANGE[0] ** 2) * i / (W_STEPS - 1))
    pts = np.array([rad * np.cos(i * phi), rad * np.sin(i * phi)])
    steps = np.diff(np.hstack((np.zeros((2, 1)), pts)), axis=1)
    hist = [seen(m.read())]
    m.wiggled = True
    for n in range(1, 9):
        groups = [last_cms(hist[-1], n, m.bpms, m.cms[d]) for d in range(2)]
        for j in range(W_STEPS):
            for d in range(2):
                m.add_ords(d, groups[d], steps[d, j])
            hist.append(seen(m.read()))
            if hist[-1] >= limit:
                for _ in range(NREPRO - 1):
                    hist.append(seen(m.read()))
                if same_tail(hist, NREPRO):
                    return
    if hist[-1] < limit:
        raise Outcome("RuntimeError")


def ref_first(m, M, ref, a, pinv):
    b = m.read()
    hist = [seen(b)]
    for _ in range(a["maxsteps"]):
        if hist[-1] == 0:
            raise Outcome("RuntimeError")
        meas = b.ravel().copy()
        meas[np.isnan(meas)] = 0
        dphi = pinv @ (meas - ref)
        for d in range(2):
            o = last_cms(hist[-1], 1, m.bpms, m.cms[d])[0]
            n = list(m.cms[d]).index(o) + 1
            m.add(d, n, -(dphi[:len(m.cms[0])] if d == 0 else dphi[len(m.cms[0]):]))
        b = m.read()
        hist.append(seen(b))
        if same_tail(hist, NREPRO) and hist[-1] == b.shape[1]:
            return
        if same_tail(hist, WIGGLE_AFTER):
            ref_wiggle(m, hist[-1] + 1)
    raise Outcome("RuntimeError")


def ref_stitch(m, M, ref, a, pinv):
    nb = len(m.bpms)
    if m.nt != 2:
        raise Outcome("ValueError")
    b = m.read()
    hist = [seen(b)]
    limit = nb + a["n_bpms"]
    if hist[-1] < nb:
        raise Outcome("RuntimeError")
    if hist[-1] < limit:
        ref_wiggle(m, limit)
        b = m.read()
        hist.append(seen(b))
        if hist[-1] < limit:
            raise Outcome("RuntimeError")
    ref = ref.reshape(2, -1).copy()
    ref[:, nb:] = 0
    for _ in range(a["maxsteps"]):
        meas = np.zeros((2, 2 * nb))
        meas[:, :nb] = b[:, :nb]
        meas[:, nb:nb + a["n_bpms"]] = (b[:, nb:] - b[:, :nb])[:, :a["n_bpms"]]
        meas[np.isnan(meas)] = 0
        dphi = pinv @ (meas - ref).ravel()
        m.add(0, None, -dphi[:len(m.cms[0])])
        m.add(1, None, -dphi[len(m.cms[0]):])
        b = m.read()
        hist.append(seen(b))
        if same_tail(hist, NREPRO) and hist[-1] == b.shape[1]:
            return
    raise Outcome("RuntimeError")


def ref_balance(m, M, ref, a, pinv):
    nb = len(m.bpms)
    if m.nt != 2:
        raise Outcome("ValueError")
    b = m.read()
    h = [rms(b)]
    if seen(b) < b.shape[1]:
        raise Outcome("ValueError")
    ref = ref.reshape(2, -1).copy()
    ref[:, nb:] = 0
    for _ in range(a["maxsteps"]):
        meas = np.hstack((b[:, :nb], b[:, nb:] - b[:, :nb]))
        dphi = pinv @ (meas - ref).ravel()
        m.add(0, None, -dphi[:len(m.cms[0])])
        m.add(1, None, -dphi[len(m.cms[0]):])
        b = m.read()
        h.append(rms(b))
        if seen(b) < b.shape[1]:
            raise Outcome("RuntimeError")
        m.margin(h, NREPRO, a["eps"])
        if steady(h, NREPRO, a["eps"]):
            return
    raise Outcome("RuntimeError")


def ref_correct(m, M, ref, a, pinv):
    b = m.read()
    h = [rms(b)]
    if np.any(np.isnan(b)):
        raise Outcome("RuntimeError")
    for _ in range(a["maxsteps"]):
        dphi = pinv @ (b.ravel() - ref)
        if a["disp"]:
            m.df += -a["disp"] * dphi[-1] * m.w.fcal
            dphi = dphi[:-1]
        m.add(0, None, -dphi[:len(m.cms[0])])
        m.add(1, None, -dphi[len(m.cms[0]):])
        b = m.read()
        h.append(rms(b))
        if seen(b) < b.shape[1]:
            raise Outcome("RuntimeError")
        m.margin(h, NREPRO, a["eps"])
        m.margin(h, min(NREPRO, a["maxsteps"]), a["eps"])
        if max(h[-1]) < a["target"] and steady(h, min(NREPRO, a["maxsteps"]), a["eps"]):
            return
        if steady(h, NREPRO, a["eps"]):
            return
    if a["maxsteps"] == 1 or steady(h, min(NREPRO, a["maxsteps"]), a["eps"]):
        return
    raise Outcome("RuntimeError")


REFS = {"first": ref_first, "stitch": ref_stitch, "balance": ref_balance, "correct": ref_correct}


# ---------------------------------------------------------------------- the world
class ProcWorld:
    def __init__(self, scenario, prop, sim):
        self.sc, self.prop, self.sim, self.res = scenario, prop, sim, sim.res
        self.ring, self.groups = build_ring(scenario["ring"])
        self.cur = None
        self.records = []

    def fail(self, prop, what, msg):
        if self.prop in (prop, "*"):
            self.res.violate(f"{prop}/{what}", msg, self.cur)
        else:
            self.res.stats[f"foreign:{prop}/{what}"] += 1

    def setup(self):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        sc, g = self.sc, self.groups
        r = rng_for(sc["seed"], "setup")
        SC = self.SC = SimulatedCommissioning(self.ring)
        bpms = list(g["BPM"])
        if sc["drop_bpm"] and len(bpms) > 2:
            bpms.remove(r.choice(bpms))
        SC.register_bpms(np.array(bpms))
        self.bpms = bpms
        cms = {}
        for grp in sorted(set(sc["hcm"]) | set(sc["vcm"])):
            for o in g.get(grp, []):
                cms[o] = (grp in sc["hcm"], grp in sc["vcm"])
        self.hcm = sorted(o for o in cms if cms[o][0])
        self.vcm = sorted(o for o in cms if cms[o][1])
        for o in cms:
            kw = {}
            if cms[o][0]:
                kw["HCM"] = sc["limit"]
            if cms[o][1]:
                kw["VCM"] = sc["limit"]
            SC.register_magnets(np.array([o]), **kw)
        SC.register_cavities(np.array(g["CAV"]))
        self.bpm_off = {o: np.array([r.uniform(-1, 1), r.uniform(-1, 1)]) * sc["bpm_off"] for o in g["BPM"]}
        self.bpm_cal = {o: np.array([r.uniform(-1, 1), r.uniform(-1, 1)]) * sc["bpm_cal"] for o in g["BPM"]}
        for o in bpms:
            SC.RING[o].Offset = self.bpm_off[o].copy()
            SC.RING[o].CalError = self.bpm_cal[o].copy()
        self.calcm = [{}, {}]
        for o in cms:
            el = SC.RING[o]
            for d, nm in ((0, "CalErrorB"), (1, "CalErrorA")):
                c = r.uniform(-1, 1) * sc["cal"]
                self.calcm[d][o] = c
                v = np.array(getattr(el, nm), float).copy()
                if v.size == 0:
                    v = np.zeros(1)
                v[0] = c
                setattr(el, nm, v)
        self.rng_setup = r
        for o in g["CAV"]:
            if "lag0" in sc:
                SC.RING[o].TimeLagOffset = sc["lag0"]
                SC.RING[o].FrequencyOffset = sc["f_err"]
                SC.RING[o].VoltageOffset = sc["volt_off"]
                SC.update_cavities()
        self.fcal = 1 + (r.uniform(-1, 1) * 1e-9 if sc["cal"] else 0.0)
        for d, ords in ((0, self.hcm), (1, self.vcm)):
            for o in ords:
                SC.set_cm_setpoints(np.array([o]), np.array([r.uniform(-1, 1) * sc["start"]]), bool(d))
        SC.update_magnets()
        self.plant = Plant(self.ring, sc["plant"], g["CAV"])
        self.plant.gates = [self.gate(x) for x in sc["plant"].get("gates", [])]
        self.sim.synthetic = self.plant.track
        self.sim.synthetic_orbit = self.plant.find_orbit
        self.sim.on_track = lambda r_in, nt, refs, out: self.records.append(np.asarray(out)[[0, 2], 0])
        self.sim.on_orbit = lambda refs, out: self.records.append(np.transpose(np.asarray(out)[:, [0, 2]])[:, :, None])

    def gate(self, x):
        """a window which the beam passes only with a particular kick of the nearest corrector upstream"""
        o = self.bpms[x["bpm"] % len(self.bpms)]
        up = [c for c in (self.hcm, self.vcm)[x["plane"]] if c < o]
        if not up:
            return dict(at=o, plane=x["plane"], c=0.0, w=1.0)
        k = self.plant.response_tbt(x["plane"], 1)[0][o, up[-1]]
        base = self.plant.positions(self.plant.kicks(self.SC.RING), np.zeros(6), 0.0, 0.0, 1)[x["plane"], o, 0] if x["base"] else 0.0
        return dict(at=o, plane=x["plane"], c=base + k * x["theta"], w=abs(k) * 1e-3 * x["frac"])

    def setpoint(self, o, d):
        """corrector setting in rad, from the stored setpoint"""
        el = self.SC.RING[o]
        v = float((el.SetPointB, el.SetPointA)[d][0])
        if el.PassMethod == "CorrectorPass":
            return v
        return v * float(el.Length) * (-1 if d == 0 else 1)

    def sync(self):
        self.theta0 = self.plant.kicks(self.SC.RING)
        self.df0, self.lag0 = self.plant.rf(self.SC.RING)
        self.z0 = np.array(self.SC.INJ.Z0, float)

    def run(self):
        self.sim.begin_op("setup")
        self.setup()
        for op in self.sc["ops"]:
            self.cur = op["id"]
            if op.get("fault", {}).get("kind") == "hole":
                op = dict(op, fault=dict(op["fault"], ord=self.bpms[op["fault"]["bpm"] % len(self.bpms)]))
            self.sim.begin_op(op["id"], dict(op["fault"]) if op.get("fault") else None)
            self.records.clear()
            try:
                self.sync()
                getattr(self, "do_" + op["op"])(op)
                self.res.stats["op:" + op["op"]] += 1
            except Skip:
                self.res.stats["skipped"] += 1
            self.sim.end_op()
            self.res.event("op", op["id"], op["op"], len(self.records))
            if self.res.violations:
                break
        return self.res

    # ------------------------------------------------------------------ helpers
    def pick(self, op, what):
        r = rng_for(self.sc["seed"], op["id"], "pick")
        h, v, b = list(self.hcm), list(self.vcm), list(self.bpms)
        if not op.get("sub"):
            return b, h, v, {}
        h = sorted(r.sample(h, r.randint(1, len(h))))
        v = sorted(r.sample(v, r.randint(1, len(v))))
        b = sorted(r.sample(b, r.randint(1, len(b))))
        kw = dict(bpm_ords=np.array(b), cm_ords=[np.array(h), np.array(v)])
        return b, h, v, kw

    def set_mode(self, mode, nt):
        I = self.SC.INJ
        I.trackMode = mode
        I.nParticles = I.nShots = 1
        I.nTurns = 1 if mode == "ORB" else nt

    def guarded(self, prop, what, before, allowed, fn, inputs, settled=False):
        """Run a procedure; everything but the allowed places must be as before. -> ("ok", value) or (exception name, None)"""
        copies = [np.array(x, copy=True) for x in inputs]
        try:
            out = ("ok", fn())
        except InjectedFault:
            out = ("injected", None)
        except (RuntimeError, ValueError) as e:
            out = (type(e).__name__, str(e))
        except np.linalg.LinAlgError as e:
            out = ("LinAlgError", str(e))
        except Exception as e:
            from dst.history import _where
            self.fail(prop, "raised", f"{what}: {type(e).__name__}: {e} at {_where(e)}")
            raise Skip("raised")
        after = freeze_machine(self.SC)
        bad = [p for p in diff(before, after, rtol=1e-9, atol=1e-15) if not any(allowed(p) for _ in (0,))]
        if bad:
            self.fail(prop, "side-effect", f"{what} ({out[0]}) changed {describe(bad, before, after)}")
        for x, c in zip(inputs, copies):
            if not np.array_equal(np.asarray(x), c, equal_nan=True):
                self.fail(prop, "argument", f"{what} changed its arguments")
        return out

    # ------------------------------------------------------------------ C06
    def do_z0(self, op):
        self.SC.INJ.Z0 = np.array(op["z"] + [0.0, 0.0])
        if op["kicks"]:
            r = rng_for(self.sc["seed"], op["id"], "kicks")
            for d, ords in ((0, self.hcm), (1, self.vcm)):
                for o in ords:
                    if r.random() < .4:
                        self.SC.set_cm_setpoints(np.array([o]), np.array([r.uniform(-1, 1) * op["kicks"]]), bool(d))

    def true_rm(self, b, h, v, mode, nt):
        m = self.plant.rm(b, h, v, mode, nt)
        t = 1 if mode == "ORB" else nt
        row = np.concatenate([np.tile([1 + self.bpm_cal[o][d] for o in b], t) for d in range(2)])
        col = np.concatenate([[1 + self.calcm[d].get(o, 0.0) for o in (h, v)[d]] for d in range(2)])
        return m * row[:, None] * col[None]

    def check_entries(self, what, got, want, allowed_zero, op):
        got = np.asarray(got, float)
        if got.shape != want.shape:
            self.fail("C06", "shape", f"{what} has shape {got.shape} instead of {want.shape}")
            return
        scale = np.max(np.abs(want)) if want.size else 1.0
        right = np.abs(got - want) <= 1e-5 * scale + 1e-6 * np.abs(want)
        bad = ~(right | (allowed_zero & ((got == 0) | np.isnan(got))))
        self.res.stats["responses-compared"] += int(want.size)
        self.res.nontrivial = True
        if np.any(bad):
            i = tuple(int(x[0]) for x in np.nonzero(bad))
            self.fail("C06", what, f"{what} entry {i} is {got[i]!r}, the machine responds with {want[i]!r} ({int(bad.sum())} of {want.size} entries wrong)")

    def missing_rows(self, b):
        """readings (plane, turn, BPM order) which were missing at least once during the operation"""
        gone = None
        for x in self.records:
            if x.shape[1] != len(b):
                # the code may ask for more reference points than the BPMs: be generous
                return None
            m = np.isnan(x[0]).T.ravel()
            gone = m if gone is None else gone | m
        return gone

    def do_rm(self, op):
        from pySC.lattice_properties.response_measurement import response_matrix
        b, h, v, kw = self.pick(op, "rm")
        self.set_mode(op["mode"], op["nt"])
        self.sync()
        nt = self.SC.INJ.nTurns
        r = rng_for(self.sc["seed"], op["id"], "amp")
        lim = self.sc["limit"]
        base = min(op["amp"], lim * .9)
        amps = [np.array([base * (r.uniform(.3, 1) if op["per_cm"] else 1.0) for _ in x]) for x in (h, v)]
        amp = amps if op["per_cm"] else (base if op["asarray"] == "scalar" else np.array([base]))
        cm = [np.array(h), np.array(v)]
        before = freeze_machine(self.SC)
        start = {(d, o): self.setpoint(o, d) for d in range(2) for o in (self.hcm, self.vcm)[d]}
        bo = np.array(b)
        out = self.guarded("C06", "response_matrix", before, lambda p: self.scan_failed(op), lambda: response_matrix(
            self.SC, amp, bo, cm, n_steps=op["n_steps"], fit_order=op["fit_order"]), [bo, cm[0], cm[1]] + (amps if op["per_cm"] else []))
        if out[0] == "injected":
            return
        first_gone = bool(self.records) and bool(np.any(np.isnan(self.records[0])))
        if out[0] != "ok":
            if out[0] == "ValueError" and op["mode"] == "ORB" and first_gone:
                self.res.stats["no-orbit"] += 1
                return
            self.fail("C06", "response-failed", f"response_matrix raised {out[0]}: {out[1]}")
            return
        if op["mode"] == "ORB" and first_gone:
            self.fail("C06", "no-orbit", "response_matrix in orbit mode returned although there is no closed orbit")
        rm, err, steps = out[1]
        want = self.true_rm(b, h, v, op["mode"], nt)
        gone = self.missing_rows(b)
        zero = np.ones_like(want, bool) if gone is None else np.repeat(np.concatenate([gone, gone])[:, None], want.shape[1], axis=1)
        self.check_entries("response_matrix", rm, want, zero, op)
        full = gone is not None and not gone.any()
        for d in range(2):
            st = np.asarray(steps[d], float)
            if st.shape != (op["n_steps"], len((h, v)[d])):
                self.fail("C06", "steps-shape", f"steps of plane {d} have shape {st.shape}")
                continue
            if np.any(np.abs(st) > amps[d][None] * (1 + 1e-6) + 1e-12):
                self.fail("C06", "steps", f"a step of {np.max(np.abs(st))} was reported for amplitudes {amps[d]}")
            if full and np.any(np.abs(np.max(np.abs(st), axis=0) - amps[d]) > 1e-6 * amps[d] + 1e-12):
                self.fail("C06", "steps", f"largest steps {np.max(np.abs(st), axis=0)} although all of the beam arrived with amplitudes {amps[d]}")
        for (d, o), x in start.items():
            if abs(self.setpoint(o, d) - x) > 1e-11 * lim:
                self.fail("C06", "restore", f"corrector {o} plane {d} was left at {self.setpoint(o, d)} instead of {x}")
        self.res.state("rm", op["mode"], nt, op["n_steps"], op["fit_order"], full, len(b), len(h), len(v), bool(op.get("fault")))

    def scan_failed(self, op):
        """an exception out of the tracking code leaves a scan where it was"""
        return bool(op.get("fault") and op["fault"]["kind"] == "raise" and self.sim.op_fault is not None and self.sim.op_fault.get("done"))

    def do_disp(self, op):
        from pySC.lattice_properties.response_measurement import dispersion
        b, h, v, _ = self.pick(op, "disp")
        self.set_mode(op["mode"], op["nt"])
        self.sync()
        nt = self.SC.INJ.nTurns
        cavs = list(self.groups["CAV"])
        r = rng_for(self.sc["seed"], op["id"], "cav")
        sub = sorted(r.sample(cavs, r.randint(1, len(cavs)))) if op["sub"] else cavs
        kw = dict(bpm_ords=np.array(b), cav_ords=np.array(sub)) if op["sub"] else {}
        if not op["sub"]:
            b = list(self.bpms)
        for i, o in enumerate(cavs):
            if op.get("spread"):           # cavities need not share one frequency
                self.SC.set_cavity_setpoints(o, op["spread"] * (i - len(cavs) / 2), "Frequency", "add")
        f0 = {o: float(self.SC.RING[o].FrequencySetPoint) for o in cavs}
        rf0 = {o: float(self.SC.RING[o].Frequency) for o in cavs}
        self.plant.seen_rf.clear()
        before = freeze_machine(self.SC)
        out = self.guarded("C06", "dispersion", before, lambda p: self.scan_failed(op),
                           lambda: dispersion(self.SC, op["step"], n_steps=op["n_steps"], **kw), list(kw.values()))
        if out[0] == "injected":
            return
        if out[0] != "ok":
            if out[0] == "LinAlgError" and any(np.any(np.isnan(x)) for x in self.records):
                self.res.stats["disp-lost"] += 1
                return
            self.fail("C06", "dispersion-failed", f"dispersion raised {out[0]}: {out[1]}")
            return
        for o, (lo, hi) in self.plant.seen_rf.items():
            room = abs(op["step"]) * (1 + 1e-6) + 1e-4 if o in sub else 1e-4
            if max(hi - rf0[o], rf0[o] - lo) > room:
                self.fail("C06", "scan-range", f"during a dispersion measurement with steps of {op['step']} Hz the frequency of cavity {o} went from {rf0[o]} to {lo}..{hi} Hz")
        want = self.plant.dispersion(b, op["mode"], nt) * len(sub) / len(cavs)
        t = 1 if op["mode"] == "ORB" else nt
        want = want * np.concatenate([np.tile([1 + self.bpm_cal[o][d] for o in b], t) for d in range(2)])
        gone = self.missing_rows(b)
        got = np.ravel(out[1])
        if gone is None or gone.any():
            if op["n_steps"] == 2 and gone is not None:
                self.check_disp(got, want, np.concatenate([gone, gone]), op)
        else:
            self.check_disp(got, want, np.zeros(len(want), bool), op)
        for o in cavs:
            if abs(float(self.SC.RING[o].FrequencySetPoint) - f0[o]) > 1e-4:
                self.fail("C06", "restore", f"cavity {o} was left at {self.SC.RING[o].FrequencySetPoint} instead of {f0[o]} Hz")
        for i, o in enumerate(cavs):
            if op.get("spread"):
                self.SC.set_cavity_setpoints(o, -op["spread"] * (i - len(cavs) / 2), "Frequency", "add")
        self.res.state("disp", op["mode"], nt, op["n_steps"], len(sub), bool(op.get("fault")))

    def check_disp(self, got, want, zero, op):
        if got.shape != want.shape:
            self.fail("C06", "shape", f"dispersion has shape {got.shape} instead of {want.shape}")
            return
        # positions carry rounding of the order 1e-17, frequencies of 1e8 Hz one of 1e-8: far below the response
        tol = 1e-5 * np.max(np.abs(want)) + 1e-14
        bad = ~((np.abs(got - want) <= tol) | zero & np.isnan(got))
        self.res.stats["responses-compared"] += len(want)
        self.res.nontrivial = True
        if np.any(bad):
            i = int(np.nonzero(bad)[0][0])
            self.fail("C06", "dispersion", f"dispersion entry {i} is {got[i]!r}, the machine responds with {want[i]!r} ({int(bad.sum())} of {len(want)} wrong)")

    def do_locorm(self, op):
        from pySC.correction.loco import measure_closed_orbit_response_matrix
        b, h, v, _ = self.pick(op, "locorm")
        self.set_mode(op.get("mode", "TBT"), op.get("nt", 1))
        if op.get("mode", "TBT") != "ORB":
            self.SC.INJ.nParticles = op.get("np", 1)
        cm, bo = [np.array(h), np.array(v)], np.array(b)
        lim = self.sc["limit"]
        if op.get("edge"):        # one corrector which can hardly move any further
            d = int(not h) if not v else op["id"] % 2
            o = (h, v)[d][op["id"] % len((h, v)[d])]
            self.SC.set_cm_setpoints(np.array([o]), np.array([op["edge"] * (lim - .3 * abs(op["dkick"]))]), bool(d))
        self.sync()
        before = freeze_machine(self.SC)
        out = self.guarded("C06", "measure_closed_orbit_response_matrix", before, lambda p: self.scan_failed(op),
                           lambda: measure_closed_orbit_response_matrix(self.SC, bo, cm, op["dkick"]), [bo] + cm)
        if out[0] == "injected":
            return
        if out[0] != "ok":
            self.fail("C06", "response-failed", f"orbit response raised {out[0]}: {out[1]}")
            return
        want = self.true_rm(b, h, v, "ORB", 1)
        gone = self.missing_rows(b)
        zero = np.ones_like(want, bool) if gone is None else np.repeat(np.concatenate([gone, gone])[:, None], want.shape[1], axis=1)
        self.check_entries("orbit-response", out[1], want, zero, op)
        self.res.state("locorm", len(b), len(h), len(v), op.get("mode"), op.get("edge"), bool(op.get("fault")))

    # ------------------------------------------------------------------ C11
    def gain(self):
        """energy gain per turn (in units of dispersion) of the machine as it is now"""
        c = self.sc["plant"]["rf"]
        df, lag = self.plant.rf(self.SC.RING)
        return c["amp"] * float(np.mean(np.sin(2 * np.pi * lag / c["lam"] + c["psi"]))) + c["off"] + c["per_hz"] * (df - c["df0"])

    def imprecise(self):
        """BPMs do not all see the same: the code may (legitimately) find its measurement not significant"""
        return self.sc["plant"]["eta_spread"] > 0 or self.sc["bpm_off"] > 0 or self.sc["bpm_cal"] > 0

    def do_rfmove(self, op):
        cavs = np.array(self.groups["CAV"])
        n = np.arange(len(cavs))             # cavities need not have the same settings
        self.SC.set_cavity_setpoints(cavs, op["lag"] + op.get("lagspread", 0.0) * n, "TimeLag", "abs")
        self.SC.set_cavity_setpoints(cavs, op["df"] + op.get("dfspread", 0.0) * n, "Frequency", "add")

    def do_rfstat(self, op):
        """the phase and energy the beam is injected with, relative to the closed orbit"""
        from pySC.correction import rf
        SC, cavs = self.SC, np.array(self.groups["CAV"])
        if op["lose"]:
            orbit = np.full(6, np.nan)
        else:
            orbit = np.array([1e-4, 0.0, 0.0, 0.0, op["delta"], op["ct"]])
        z_was = SC.INJ.Z0.copy()
        SC.INJ.Z0 = np.array([0.0, 0.0, 0.0, 0.0, op["z"][0], op["z"][1]])
        plant_orbit = self.sim.synthetic_orbit
        self.sim.synthetic_orbit = lambda sim, lattice, refpts: (orbit.copy(), np.tile(orbit, (len(norm_refs(refpts if refpts is not None else [0], len(lattice))), 1)))
        before = freeze_machine(SC)
        out = self.guarded("C11", "phase_and_energy_error", before, lambda p: False, lambda: rf.phase_and_energy_error(SC, cavs), [cavs])
        self.sim.synthetic_orbit = plant_orbit
        lam = C0 / float(SC.RING[int(cavs[0])].Frequency)
        SC.INJ.Z0 = z_was
        if out[0] != "ok":
            if not op["lose"]:
                self.fail("C11", "failed", f"phase_and_energy_error raised {out[0]}: {out[1]}")
            return
        phase, energy = float(np.ravel(out[1][0])[0]), float(np.ravel(out[1][1])[0])
        if op["lose"]:
            if not (math.isnan(phase) and math.isnan(energy)):
                self.fail("C11", "static-error", f"phase_and_energy_error gives {phase}, {energy} without a closed orbit")
            return
        want = (op["ct"] - op["z"][1]) / lam * 360
        off = (phase - want + 180) % 360 - 180
        if abs(off) > 1e-6 or abs(phase) > 180 + 1e-9:
            self.fail("C11", "static-error", f"phase_and_energy_error gives {phase} degrees, beam and orbit are {want} degrees ({op['ct'] - op['z'][1]} of {lam} m) apart")
        if not math.isclose(energy, op["z"][0] - op["delta"], rel_tol=1e-9, abs_tol=1e-15):
            self.fail("C11", "static-error", f"phase_and_energy_error gives an energy error of {energy} for beam {op['z'][0]} and orbit {op['delta']}")
        self.res.nontrivial = True
        self.res.stats["static-errors"] += 1
        self.res.state("rfstat", round(want / 60), abs(energy) > 1e-3)

    def rf_setup(self, op):
        """-> keyword arguments and whether the call is expected to be refused"""
        cavs = np.array(self.groups["CAV"])
        self.set_mode("TBT", op["nt"])
        kw = dict(n_steps=op["n_steps"])
        self.used = list(cavs)
        if op["ords"]:
            self.used = list(cavs[:op.get("ncav") or len(cavs)])
            kw.update(cav_ords=np.array(self.used), bpm_ords=np.array(self.bpms))
        bad = op.get("bad")
        if bad == "turns":
            self.SC.INJ.nTurns = 2
        elif bad == "mode":
            self.SC.INJ.trackMode = "PORB"
        elif bad == "steps":
            kw["n_steps"] = 5
        elif bad == "off":
            for o in cavs:
                self.SC.RING[o].PassMethod = "IdentityPass"
        elif bad == "notcav":
            kw["cav_ords"] = np.array([self.bpms[0]])
        else:
            for o in cavs:
                self.SC.RING[o].PassMethod = "RFCavityPass"
        self.sync()
        return kw, bad

    def rf_call(self, name, op, kw, field, span):
        from pySC.correction import rf
        cavs, every = set(self.used), set(self.groups["CAV"])
        before = freeze_machine(self.SC)
        sp0 = {o: float(getattr(self.SC.RING[o], field + "SetPoint")) for o in cavs}
        g0 = self.gain()

        def allowed(p):
            return p[0] == "RING" and len(p) > 2 and p[1] in every and p[2] in (field, field + "SetPoint")
        sp_all = {o: float(getattr(self.SC.RING[o], field + "SetPoint")) for o in every}
        out = self.guarded("C11", name, before, allowed, lambda: getattr(rf, name)(self.SC, **kw), [x for x in (kw.get("cav_ords"), kw.get("bpm_ords")) if x is not None])
        moved = {o: float(getattr(self.SC.RING[o], field + "SetPoint")) - sp0[o] for o in cavs}
        tol = 1e-9 * span + (1e-6 if field == "Frequency" else 1e-12)
        step = next(iter(moved.values()))
        for o in every - cavs:
            if abs(float(getattr(self.SC.RING[o], field + "SetPoint")) - sp_all[o]) > tol:
                self.fail("C11", "other-cavity", f"{name} changed the {field} setpoint of cavity {o}, which it was not asked to use")
        if out[0] != "injected" and max(moved.values()) - min(moved.values()) > tol:
            self.fail("C11", "cavities-differ", f"{name} moved the cavities by {moved}")
        if out[0] not in ("ok", "injected") and abs(step) > tol:
            self.fail("C11", "restore", f"{name} failed ({out[0]}: {out[1]}) and left {field} changed by {step}")
        self.res.state(name, out[0], op["nt"], op["n_steps"], op.get("bad"), round(g0 / self.sc["plant"]["rf"]["amp"], 1), abs(step) <= tol, bool(op.get("fault")))
        return out, step, tol, g0

    def rf_readings(self):
        """horizontal readings (turns, BPMs) of every step of the scan"""
        off = np.array([self.bpm_off[o][0] for o in self.bpms])
        cal = np.array([self.bpm_cal[o][0] for o in self.bpms])
        return [((x[0] - off[:, None]) * (1 + cal[:, None])).T for x in self.records]

    def do_rfphase(self, op):
        kw, bad = self.rf_setup(op)
        c = self.sc["plant"]["rf"]
        # the synthetic cavity has the wavelength of the frequency which is set
        c["lam"] = 299792458.0 / float(self.SC.RING[self.groups["CAV"][0]].FrequencySetPoint)
        use = np.isin(self.groups["CAV"], self.used)
        df, lag = self.plant.rf(self.SC.RING)
        z = np.exp(1j * (2 * np.pi * lag / c["lam"] + c["psi"])) / len(use)
        amp = c["amp"] * abs(np.sum(z[use]))          # amplitude which the cavities used reach together
        cst = c["off"] + c["per_hz"] * (df - c["df0"]) + c["amp"] * float(np.sum(z[~use].imag))
        if amp < .2 * c["amp"] and not bad:
            raise Skip("cavities nearly cancel")
        out, step, tol, g0 = self.rf_call("correct_rf_phase", op, kw, "TimeLag", c["lam"])
        if out[0] == "injected":
            return
        if bad:
            if out[0] != "ValueError":
                self.fail("C11", "not-rejected", f"correct_rf_phase with wrong {bad}: {out[0]}")
            return
        n = kw["n_steps"]
        if len(self.records) != n:
            self.fail("C11", "steps", f"correct_rf_phase with {n} steps took {len(self.records)} readings")
            return
        want, signal, crossing = expect_phase(self.rf_readings(), c["lam"] * np.linspace(-.5, .5, n), c["lam"])
        if out[0] == "ok" and want is not None:
            self.res.stats["rf-fits"] += 1
            if crossing > 1.01:
                self.fail("C11", "fit", f"correct_rf_phase reported success ({step} m) although the sine through its readings never vanishes")
            elif signal < .9 and abs(step) > tol:
                self.fail("C11", "not-significant", f"correct_rf_phase moved the cavities by {step} m; its readings determine amplitude or mean to {2 * signal:.2f} sigma only")
            elif signal > 1.1 and crossing < .99 and abs((step - want + c["lam"] / 2) % c["lam"] - c["lam"] / 2) > 1e-4 * c["lam"]:
                self.fail("C11", "fit", f"correct_rf_phase moved the cavities by {step} m, the sine through its readings vanishes at {want} m (significance {2 * signal:.2f} sigma)")
        ratio = abs(cst) / amp
        clean = not any(np.isnan(x).any() for x in self.records)
        points = sum(1 for x in self.records if usable(x[0]) >= 3)
        self.res.stats["rf-compared"] += 1
        self.res.nontrivial = True
        if out[0] != "ok":
            if points >= 6 and ratio < .98:
                self.fail("C11", "gave-up", f"correct_rf_phase raised {out[0]}: {out[1]} with {points} usable steps although the zero crossing exists (offset {ratio:.2f} of the amplitude)")
            return
        if points < 6:
            self.fail("C11", "too-few", f"correct_rf_phase reported success with {points} usable steps")
        if ratio > 1.02:
            self.fail("C11", "no-zero-crossing", f"correct_rf_phase reported success although the energy gain never vanishes (offset {ratio:.2f} of the amplitude)")
            return
        if ratio > .9:
            return
        if abs(step) > c["lam"] / 2 * (1 + 1e-6):
            self.fail("C11", "fold", f"time lag moved by {step} m, more than half the wavelength {c['lam']}")
        if abs(step) <= tol and (ratio < .05 or self.imprecise() or abs(g0) < 1e-3 * c["amp"]):
            return                       # reported as not precise enough
        lag = self.plant.rf(self.SC.RING)[1]
        slope = float(np.sum(np.cos(2 * np.pi * lag[use] / c["lam"] + c["psi"])))
        if abs(self.gain()) > 2e-3 * amp or slope < 0:
            self.fail("C11", "phase", f"after correct_rf_phase ({step} m) the energy gain per turn is {self.gain() / c['amp']:.4f} of the amplitude, before {g0 / c['amp']:.4f}, slope {slope:.2f}")

    def do_rffreq(self, op):
        kw, bad = self.rf_setup(op)
        kw["f_range"] = (op["lo"], op["hi"])
        c = self.sc["plant"]["rf"]
        out, step, tol, g0 = self.rf_call("correct_rf_frequency", op, kw, "Frequency", abs(op["lo"]) + abs(op["hi"]))
        if out[0] == "injected":
            return
        if bad:
            if out[0] != "ValueError":
                self.fail("C11", "not-rejected", f"correct_rf_frequency with wrong {bad}: {out[0]}")
            return
        points = sum(1 for x in self.records if usable(x[0]) >= 3)
        self.res.stats["rf-compared"] += 1
        self.res.nontrivial = True
        if out[0] != "ok":
            if points >= 3:
                self.fail("C11", "gave-up", f"correct_rf_frequency raised {out[0]}: {out[1]} with {points} usable steps")
            return
        if points < 3:
            self.fail("C11", "too-few", f"correct_rf_frequency reported success with {points} usable steps")
        if len(self.records) != kw["n_steps"]:
            self.fail("C11", "steps", f"correct_rf_frequency with {kw['n_steps']} steps took {len(self.records)} readings")
            return
        want, signal = expect_frequency(self.rf_readings(), np.linspace(op["lo"], op["hi"], kw["n_steps"]))
        if want is not None:
            self.res.stats["rf-fits"] += 1
            if signal < .9 and abs(step) > tol:
                self.fail("C11", "not-significant", f"correct_rf_frequency moved the cavities by {step} Hz; its readings determine slope or intercept to {2 * signal:.2f} sigma only")
            elif signal > 1.1 and abs(step - want) > 1e-4 * abs(want) + 1e-3:
                self.fail("C11", "fit", f"correct_rf_frequency moved the cavities by {step} Hz, the line through its readings vanishes at {want} Hz (significance {2 * signal:.2f} sigma)")
        per_hz = c["per_hz"] * len(self.used) / len(self.groups["CAV"])
        want = -g0 / per_hz
        if abs(step) <= 1e-6 and (self.imprecise() or abs(g0) < 1e-2 * abs(per_hz) * (abs(op["lo"]) + abs(op["hi"]))):
            return                       # reported as not precise enough
        if abs(step - want) > 1e-3 * abs(want) + 1.0:
            self.fail("C11", "frequency", f"correct_rf_frequency changed the frequency by {step} Hz, the energy gain vanishes at {want} Hz")

    # ------------------------------------------------------------------ C07, C08
    def do_first(self, op):
        self.iterate("C07", "first_turn", "first", op, "TBT")

    def do_stitch(self, op):
        self.iterate("C07", "stitch", "stitch", op, "TBT")

    def do_balance(self, op):
        self.iterate("C08", "balance", "balance", op, "TBT")

    def do_correct(self, op):
        self.iterate("C08", "correct", "correct", op, op["mode"])

    def iterate(self, prop, name, key, op, mode):
        from pySC.correction import orbit_trajectory
        b, h, v, kw = self.pick(op, key)
        self.set_mode(mode, op["nt"])
        self.sync()
        nt = self.SC.INJ.nTurns
        r = rng_for(self.sc["seed"], op["id"], "rm")
        g = np.random.Generator(np.random.PCG64(r.randrange(1 << 40)))
        M = self.true_rm(b, h, v, mode, nt)
        M = M * (1 + op["rmerr"] * g.uniform(-1, 1, M.shape))
        disp = op.get("disp", 0)
        if disp:
            eta = self.plant.dispersion(b, mode, nt)
            if not eta.any():
                disp = 0
            else:
                M = np.column_stack((M, disp * eta))
        alpha, removed = op["alpha"], op["removed"]
        s = np.linalg.svd(M, compute_uv=False)
        if removed >= len(s):
            removed = 0
        kept = s[:len(s) - removed]
        if alpha == 0 and kept[-1] < 1e-3 * kept[0]:
            alpha = round(float(kept[0]) * .03, 6)
        pk = {k: x for k, x, dflt in (("alpha", alpha, 0), ("damping", op["damping"], 1), ("num_removed", removed, 0)) if x != dflt}
        ref = np.zeros(M.shape[0])
        if op["ref"]:
            ref = g.uniform(-1, 1, M.shape[0]) * op["refamp"]
        args = dict(kw)
        if op["ref"]:
            args["reference"] = ref.reshape(-1, 1).copy() if op["ref"] == "col" else ref.copy()
        a = {k: op[k] for k in ("maxsteps", "n_bpms", "eps", "target") if k in op}
        args.update(a)
        a["disp"] = disp
        if disp:
            args["scaleDisp"] = disp
        if key == "stitch":
            a["n_bpms"] = args["n_bpms"] = min(op["n_bpms"], len(b))
        # what the reference does
        m = Ref(self, b, h, v, mode, nt, op.get("fault"))
        m.doubt, m.wiggled = False, False

        def margin(hh, n, eps):
            if len(hh) >= n:
                sd = np.std(np.array(hh[-n:]), axis=0)
                if np.any(np.abs(sd / eps - 1) < 1e-6):
                    m.doubt = True
        m.margin = margin
        try:
            with np.errstate(all="ignore"):
                REFS[key](m, M, ref, a, pseudo_inverse(M, alpha, op["damping"], removed))
            want = "ok"
        except Outcome as e:
            want = e.args[0]
        # what the code does
        used = {(o, d) for d in range(2) for o in (h, v)[d]}
        ords = {o for o, _ in used}
        cavs = set(self.groups["CAV"])
        before = freeze_machine(self.SC)
        others = {(d, o): np.array((self.SC.RING[o].SetPointB, self.SC.RING[o].SetPointA)[d], float) for d in range(2) for o in set(self.hcm) | set(self.vcm)}
        f0 = {o: float(self.SC.RING[o].FrequencySetPoint) for o in cavs}

        def allowed(p):
            if p[0] == "RING" and len(p) > 2 and p[1] in ords and p[2] in CM_FIELDS:
                return True
            return bool(disp) and p[0] == "RING" and len(p) > 2 and p[1] in cavs and p[2] in ("Frequency", "FrequencySetPoint")
        M_in = M.copy()
        inputs = [M_in] + [x for x in (args.get("reference"), args.get("bpm_ords")) if x is not None] + list(args.get("cm_ords", []))
        fn = getattr(orbit_trajectory, name)
        with np.errstate(all="ignore"):
            out = self.guarded(prop, name, before, allowed, lambda: fn(self.SC, M_in, **args, **pk), inputs)
        n_read = len(self.records)
        self.res.state(name, mode, nt, want, m.wiggled, bool(disp), bool(op["ref"]), alpha > 0, min(n_read, 40), bool(op.get("fault")))
        self.res.stats[f"{name}:{want}"] += 1
        self.res.stats["wiggled"] += int(m.wiggled)
        # setpoints which must not be touched, and limits
        for (d, o), x in others.items():
            now = np.array((self.SC.RING[o].SetPointB, self.SC.RING[o].SetPointA)[d], float)
            keep = now if (o, d) not in used else now[1:]
            was = x if (o, d) not in used else x[1:]
            if not np.allclose(keep, was, rtol=1e-9, atol=0):
                self.fail(prop, "side-effect", f"{name} changed setpoints of magnet {o} plane {d} from {x} to {now}")
            if (o, d) in used and not abs(self.setpoint(o, d)) <= self.sc["limit"] * (1 + 1e-9):
                self.fail(prop, "limit", f"{name} left corrector {o} plane {d} at {self.setpoint(o, d)}, limit {self.sc['limit']}")
        if out[0] == "injected":
            return
        if want == "budget" or m.doubt:
            return
        self.res.stats["iterations-compared"] += 1
        self.res.nontrivial = True
        if out[0] != want:
            self.fail(prop, "outcome", f"{name} ended with {out[0]} ({out[1] if out[0] != 'ok' else 'success'}) after {n_read} injections, the documented iteration ends with "
                                       f"{'success' if want == 'ok' else want} after {m.n_read}")
            return
        if want != "ok":
            return
        if out[1] is not self.SC:
            self.fail(prop, "return", f"{name} returned another machine")
        tail = self.records[-NREPRO:]
        if key in ("first", "stitch") and any(np.any(np.isnan(x)) for x in tail):
            self.fail(prop, "not-honest", f"{name} reported success although beam was missing in one of its last {NREPRO} readings")
        if np.any(np.isnan(self.records[-1])):
            self.fail(prop, "not-honest", f"{name} reported success although its last reading is incomplete")
        for d in range(2):
            for o, x in zip((h, v)[d], m.k[d]):
                if abs(self.setpoint(o, d) - x) > 1e-5 * abs(x) + 2e-9:
                    self.fail(prop, "result", f"{name} left corrector {o} plane {d} at {self.setpoint(o, d)}, the documented iteration gives {x}")
                    return
        for o in cavs:
            df = float(self.SC.RING[o].FrequencySetPoint) - f0[o]
            if abs(df - m.df / self.fcal) > 1e-5 * abs(m.df) + 1e-5:
                self.fail(prop, "result", f"{name} changed the frequency of cavity {o} by {df} Hz, the documented iteration by {m.df}")


def execute(scenario, prop):
    remember_real()
    res = Result()
    sim = Sim(scenario, res)
    pool = PoolWorld(scenario.get("pool"), res.fired)
    with np.errstate(all="ignore"), installed(sim, pool):
        ProcWorld(scenario, prop, sim).run()
    return res
