"""World W2: the injected beam and the BPM readings, against an independent evaluation of what the tracker returned.

The tracker below the code is either the real one or a synthetic one (positions and losses are keyed functions of the
particle coordinates, so that they do not depend on how the calls are grouped); everything it returned is recorded
and the readings are recomputed from these records, the errors of the BPMs and the random draws.
"""
import hashlib
import math

import numpy as np

from dst.base import InjectedFault, Result, Skip, freeze_machine, diff, describe, h64, rng_for
from dst.machines import build_ring, gen_spec
from dst.seams import Sim, installed, remember_real
from dst.simpool import PoolWorld

CUT_BPM, CUT_JIT, CUT_BUNCH = 2.0, 2.0, 3.0
VAR3, VAR2 = 0.973336925, 0.773741


def generate(config, r, seed):
    spec = gen_spec(r, size=r.choice([3, 3, 4]))
    n_bpm = 2 * spec["cells"]
    ops = []
    sc = dict(seed=seed, ring=spec, ops=ops, bpms=r.sample(range(n_bpm), r.randint(1, n_bpm)))
    mode = {"exact": "const", "draws": "stream", "tails": "tails"}.get(config) or r.choices(["const", "stream", "tails"], [5, 4, 2])[0]
    sc["rng"] = {"mode": mode}
    if mode == "const":
        sc["rng"]["z"] = r.choice([0.5, -0.8, 0.9, 1.7, -1.3])
    if mode == "tails":
        sc["rng"]["p"] = r.choice([0.1, 0.5])
    k = 0

    def add(op, **kw):
        nonlocal k
        k += 1
        ops.append(dict(id=k, op=op, **kw))

    add("errs", **gen_errs(r, n_bpm, mode))
    add("inj", set=gen_inj(r))
    for _ in range(r.randint(6, 14)):
        x = r.random()
        if x < .12:
            add("errs", **gen_errs(r, n_bpm, mode))
        elif x < .38:
            add("inj", set=gen_inj(r))
        elif x < .7:
            sub = None
            if r.random() < .5:
                sub = r.sample(range(n_bpm), r.randint(1, n_bpm))
            add("read", sub=sub, errors=r.random() < .4, track=gen_track(r), plot=r.random() < .03, **gen_fault(r))
        elif x < .78:
            add("all", track=gen_track(r), **(gen_fault(r) or gen_fault(r)))
        elif x < .9:
            add("trans", np=r.choice([None, 1, 3, 20]), nt=r.choice([None, 1, 2, 5, 9]), track=gen_track(r, loss=.8), **gen_fault(r))
        else:
            add("bunch", np=r.choice([None, 1, 2, 7]))
    sc["pool"] = {"ncpu": r.choice([1, 2, 3, 5]), "seed": r.randrange(1 << 20), "schedule": r.choice(["random", "reverse", "single"])}
    return sc


def gen_fault(r):
    if r.random() < .15:
        return {"fault": {"kind": r.choice(["raise", "mutate", "lose"]), "where": "any", "at": r.choice([0, 1]), "frac": r.choice([.5, 1.0]),
                          "ref": r.random(), "turn": r.random() * .99}}
    return {}


def gen_errs(r, n, mode):
    def v(scale, dim=2):
        return [[scale * r.uniform(-1, 1) * r.choice([0, 1, 1]) for _ in range(dim)] for _ in range(n)]
    return dict(Offset=v(3e-4), SupportOffset=v(2e-4), Roll=[x[0] for x in v(r.choice([.01, .5]), 1)], SupportRoll=[x[0] for x in v(.02, 1)],
                CalError=v(.1), SumError=[x[0] for x in v(.08, 1)] if r.random() < .7 else [0.0] * n,
                Noise=[[abs(a) for a in x] for x in v(1e-5)], NoiseCO=[[abs(a) for a in x] for x in v(1e-6)])


def gen_inj(r):
    s = {}
    if r.random() < .7:
        s["trackMode"] = r.choice(["TBT", "TBT", "PORB", "ORB"])
    if r.random() < .7:
        s["nParticles"] = r.choice([1, 1, 2, 5, 9])
    if r.random() < .7:
        s["nTurns"] = r.choice([1, 2, 3, 5])
    if r.random() < .6:
        s["nShots"] = r.choice([1, 1, 2, 4])
    if r.random() < .5:
        s["beamLostAt"] = r.choice([1.0, 0.75, 0.5, 0.2, 0.05])
    if r.random() < .5:
        s["Z0"] = [r.uniform(-1, 1) * r.choice([0, 1e-4, 1e-3]) for _ in range(6)]
    if r.random() < .6:
        s["randomInjectionZ"] = [r.choice([0.0, 1e-5, 1e-4]) for _ in range(6)]
    if r.random() < .6:
        s["beamSize"] = gen_sigma(r)
    if r.random() < .3:
        s["postFun"] = r.choice([None, "shift", "flip", "inplace"])
    return s


def shift_in_place(z):
    z += 1e-4
    return z


def gen_sigma(r):
    """A beam matrix: zero, diagonal, correlated, or of reduced rank."""
    kind = r.choice(["zero", "diag", "diag", "corr", "corr", "rank"])
    if kind == "zero":
        return [[0.0] * 6 for _ in range(6)]
    a = np.zeros((6, 6))
    sc = [1e-4, 2e-5, 5e-5, 1e-5, 1e-3, 1e-3]
    if kind == "diag":
        for i in range(6):
            a[i, i] = sc[i] * r.choice([0.0, 1.0, r.uniform(.1, 1)])
    else:
        n = 6 if kind == "corr" else r.randint(1, 4)
        for i in range(6):
            for j in range(n):
                a[i, j] = sc[i] * r.uniform(-1, 1)
    m = a @ a.T
    return (0.5 * (m + m.T)).tolist()


def gen_track(r, loss=.5):
    if r.random() < .3:
        return None
    return dict(loss=r.choice([0, loss, loss * .3, .05]), allnan=r.random() < .5, amp=1e-3)


def synthetic(cfg):
    """Positions keyed by (coordinates of the particle, reference point, turn); losses stay lost."""
    def track(sim, lattice, r_in, nturns, refpts):
        n_el = len(lattice)
        r_in = np.asarray(r_in, float).reshape(6, -1)
        refs = norm_refs(refpts, n_el)
        n = r_in.shape[1]
        out = np.empty((6, n, len(refs), nturns))
        for p in range(n):
            key = int.from_bytes(hashlib.blake2b(r_in[:, p].tobytes(), digest_size=8).digest(), "big")
            g = np.random.Generator(np.random.PCG64(h64(sim.seed, cfg.get("salt", 0), key)))
            a = g.uniform(-1, 1, 6)
            ph = g.uniform(0, 2 * np.pi, 6)
            q = g.uniform(.1, .9, 6)
            t = np.arange(nturns)[None, :]
            s = refs[:, None] / max(n_el, 1)
            for c in range(6):
                out[c, p] = cfg["amp"] * a[c] * np.cos(ph[c] + 2 * np.pi * q[c] * (t + s) * 1.7) + r_in[c, p] * .5
            if g.random() < cfg["loss"]:
                when = g.integers(0, nturns * (n_el + 1)) if g.random() < .7 else g.integers(0, n_el + 1)
                pos = t * (n_el + 1) + refs[:, None]
                lost = pos >= when
                out[0, p][lost] = np.nan
                if cfg.get("allnan"):
                    out[:, p, lost] = np.nan
        return out
    return track


def norm_refs(refpts, n_el):
    r = np.atleast_1d(np.asarray(refpts if refpts is not None else [n_el]))
    if r.dtype == bool:
        return np.nonzero(r)[0]
    r = r.astype(int)
    return np.where(r < 0, r + n_el + 1, r)


def rot(a, x, y):
    return np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y


class BeamWorld:
    def __init__(self, scenario, prop, sim):
        self.sc, self.prop, self.sim, self.res = scenario, prop, sim, sim.res
        self.ring, self.groups = build_ring(scenario["ring"])
        self.n_el = len(self.ring)
        self.records = []
        self.cur = None
        self.z_seen, self.jit_seen = [], []

    def fail(self, prop, what, msg):
        if self.prop in (prop, "*"):
            self.res.violate(f"{prop}/{what}", msg, self.cur)
        else:
            self.res.stats[f"foreign:{prop}/{what}"] += 1

    def call(self, prop, what, fn, *a, **k):
        try:
            return fn(*a, **k)
        except InjectedFault:
            raise
        except Exception as e:
            from dst.history import _where
            self.fail(prop, what + "-raised", f"{type(e).__name__}: {e} at {_where(e)}")
            raise Skip("raised")

    def run(self):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        self.sim.begin_op("start")
        SC = self.SC = SimulatedCommissioning(self.ring)
        allb = self.groups["BPM"]
        self.bpms = sorted(allb[i % len(allb)] for i in set(self.sc["bpms"]))
        order = list(self.bpms)
        rng_for(self.sc["seed"], "order").shuffle(order)
        SC.register_bpms(np.array(order))
        self.err = {k: {} for k in ("Offset", "SupportOffset", "Roll", "SupportRoll", "CalError", "SumError", "Noise", "NoiseCO")}
        for o in self.bpms:
            for k in self.err:
                self.err[k][o] = 0.0 if k in ("Roll", "SupportRoll", "SumError") else np.zeros(2)
        self.post, self.own, self.post_out = None, False, []
        self.sim.on_track = lambda r_in, nt, refs, out: self.records.append(("track", np.array(r_in, float).reshape(6, -1), nt, refs, out))
        self.sim.on_orbit = lambda refs, out: self.records.append(("orbit", None, 1, refs, out))
        for op in self.sc["ops"]:
            self.cur = op["id"]
            self.sim.begin_op(op["id"], dict(op["fault"]) if op.get("fault") else None, op.get("rng"))
            self.records.clear()
            self.post_out.clear()
            self.sim.synthetic = synthetic(dict(op["track"], salt=op["id"])) if op.get("track") else None
            before = None if op["op"] in ("inj", "errs") else self.settings()
            try:
                getattr(self, "do_" + op["op"])(op)
                self.res.stats["op:" + op["op"]] += 1
            except Skip:
                self.res.stats["skipped"] += 1
            except InjectedFault:
                self.res.stats["op-with-fault"] += 1
            self.sim.end_op()
            if before is not None:          # however the measurement ended
                for k, v in self.settings().items():
                    if v != before.get(k):
                        self.fail("C16", "settings", f"{op['op']} changed INJ.{k}")
            self.res.event("op", op["id"], op["op"], len(self.records))
            I = SC.INJ
            self.res.state(op["op"], I.trackMode, I.nParticles, I.nTurns, I.nShots, round(float(I.beamLostAt), 2), bool(op.get("track")), bool(op.get("fault")), len(self.records))
            if self.res.violations:
                break
        return self.res

    # ------------------------------------------------------------------ settings
    def do_errs(self, op):
        for i, o in enumerate(self.groups["BPM"]):
            if o not in self.err["Roll"]:
                continue
            el = self.SC.RING[o]
            for k in self.err:
                v = op[k][i % len(op[k])]
                v = np.array(v, float) if isinstance(v, list) else float(v)
                self.err[k][o] = v
                setattr(el, k, v.copy() if isinstance(v, np.ndarray) else v)

    def settings(self):
        return {k: v.tobytes() if isinstance(v, np.ndarray) else v for k, v in [*vars(self.SC.INJ).items(), ("trackMode", self.SC.INJ.trackMode)] if not k.startswith("_")}

    def do_inj(self, op):
        I, s = self.SC.INJ, op["set"]
        for k in ("nParticles", "nTurns", "nShots", "beamLostAt"):
            if k in s:
                setattr(I, k, s[k])
        for k in ("Z0", "randomInjectionZ", "beamSize"):
            if k in s:
                setattr(I, k, np.array(s[k], float))
        if "postFun" in s:
            self.post, self.own = s["postFun"], True
            fn = {None: lambda m: m, "shift": lambda m: m + 1e-4, "flip": lambda m: -m, "inplace": shift_in_place}[self.post]


            def user(m, fn=fn):      # the user's own function sees the complete bunch, and what it returns is what is injected
                out = fn(m)
                self.post_out.extend(np.array(out, float).reshape(6, -1).T)
                return out
            I.postFun = user
        if "trackMode" in s:
            I.trackMode = s["trackMode"]
            if s["trackMode"] == "ORB":
                if I.nTurns != 1 or I.nParticles != 1:
                    self.fail("C05", "orbit-mode", f"orbit mode with {I.nTurns} turns and {I.nParticles} particles")
        if I.trackMode == "ORB":
            I.nTurns = I.nParticles = 1

    def unpost(self, z):
        return {None: z, "shift": z - 1e-4, "flip": -z, "inplace": z - 1e-4}[self.post]

    # ------------------------------------------------------------------ C16: what was injected
    def check_bunch(self, z, n, label, op, jitter_seen=None):
        I = self.SC.INJ
        z = np.asarray(z, float)
        if z.shape != (6, n):
            self.fail("C16", "shape", f"{label}: coordinates of shape {z.shape} for {n} particles")
            return
        if self.own:
            made = {c.tobytes() for c in self.post_out}
            if not all(c.tobytes() in made for c in np.ascontiguousarray(z.T)):
                self.fail("C16", "own-function", f"{label}: injected coordinates are not what the user's function returned")
                return
        u = self.unpost(z) - I.Z0[:, None]
        eps = 1e-12 * (1e-2 + np.abs(I.Z0))[:, None]
        sig = np.asarray(I.randomInjectionZ, float)
        S = np.asarray(I.beamSize, float)
        mode = self.sc["rng"]["mode"]
        self.res.stats["bunches-checked"] += 1
        self.res.nontrivial = True
        if not np.all(np.isfinite(u)):
            self.fail("C16", "finite", f"{label}: coordinates are not finite for a valid beam matrix")
            return
        if n == 1 or not S.any():
            if mode == "const":
                want = sig[:, None] * self.sc["rng"]["z"]
                if np.any(np.abs(u - want) > 1e-9 * np.abs(want) + eps):
                    self.fail("C16", "centroid", f"{label}: injected {u[:, 0]} around Z0, the jitter is {want[:, 0]}")
            if np.any(np.abs(u) > CUT_JIT * sig[:, None] + eps):
                self.fail("C16", "jitter-cut", f"{label}: injected {u[:, 0]} around Z0, uncertainty {sig}")
            if np.any(np.abs(u - u[:, :1]) > eps):
                self.fail("C16", "common-jitter", f"{label}: particles of a bunch without size differ")
            if jitter_seen is not None and mode == "stream":
                for i in range(6):
                    if sig[i]:
                        jitter_seen.append((float(u[i, 0] / sig[i]), i))
            return
        # bunch with size: distance from the centre, allowing for the common jitter
        w, L = np.linalg.eigh(S)
        ok = w > 1e-9 * w.max()
        proj = L.T @ u
        jit = L.T @ np.diag(sig)
        slack = CUT_JIT * np.abs(jit).sum(axis=1)[:, None]
        null = np.abs(proj[~ok]) > slack[~ok] + 7.4 * np.sqrt(np.maximum(w[~ok], 0))[:, None] + 1e-6 * math.sqrt(w.max()) + eps.max()
        if np.any(null):
            self.fail("C16", "beam-matrix-range", f"{label}: particles spread in a direction in which the beam matrix has no extent")
        d = np.maximum(np.abs(proj[ok]) - slack[ok] - eps.max(), 0.0) / np.sqrt(w[ok])[:, None]
        if np.any(np.sum(d ** 2, axis=0) > CUT_BUNCH ** 2 * 6 * 1.001):
            self.fail("C16", "bunch-cut", f"{label}: a particle is {math.sqrt(np.max(np.sum(d ** 2, axis=0))):.2f} sigma from the centre")
        if mode == "stream" and n > 1:
            for i in range(n):
                for j in range(i):
                    if np.array_equal(u[:, i], u[:, j]):
                        self.fail("C16", "identical-particles", f"{label}: particles {i} and {j} are identical")
                        return

    def distinct(self, seen, prop, what):
        z = sorted(seen)
        for (a, i), (b, j) in zip(z, z[1:]):
            if abs(a - b) < 1e-10 * max(abs(a), 1e-2):
                self.fail(prop, what, f"the same random number {a} was used twice ({i}, {j})")
                return

    # ------------------------------------------------------------------ C05: readings
    def shots(self):
        """positions (2, N, B, T) of every shot at the registered BPMs, from the records"""
        out = []
        for kind, r_in, nt, refs, res in self.records:
            refs = norm_refs(refs, self.n_el)
            idx = {int(o): i for i, o in enumerate(refs)}
            if not all(o in idx for o in self.want_bpms):
                continue
            sel = [idx[o] for o in self.want_bpms]
            if kind == "orbit":
                out.append(np.transpose(np.asarray(res)[sel][:, [0, 2]])[:, None, :, None].astype(float))
            else:
                out.append(np.asarray(res)[[0, 2]][:, :, sel, :].astype(float))
        return out

    def single(self, tr, z_sum, z_noise, noise_key):
        """One shot: (2, B, T) readings and sums, following the written description of a BPM."""
        _, n, nb, nt = tr.shape
        I = self.SC.INJ
        read, sums = np.full((2, nb, nt), np.nan), np.full((nb, nt), np.nan)
        for b, o in enumerate(self.want_bpms):
            e = {k: self.err[k][o] for k in self.err}
            for t in range(nt):
                alive = ~np.isnan(tr[0, :, b, t])
                frac = alive.sum() / n * (1 + e["SumError"] * z_sum)
                if frac < 1 - I.beamLostAt or not alive.any():
                    if not frac < 1 - I.beamLostAt:
                        sums[b, t] = frac
                    continue
                x, y = np.mean(tr[0, alive, b, t]), np.mean(tr[1, alive, b, t])
                xr, yr = rot(e["Roll"] + e["SupportRoll"], x, y)
                for d, val in enumerate((xr, yr)):
                    read[d, b, t] = (val - e["Offset"][d] - e["SupportOffset"][d]) * (1 + e["CalError"][d]) + e[noise_key][d] * z_noise / frac
                sums[b, t] = frac
        return read, sums

    @staticmethod
    def wmean(v, w):
        m = ~np.isnan(v) & ~np.isnan(w)
        if not m.any():
            return np.nan
        tot = w[m].sum()
        return np.nan if tot == 0 else float((v[m] * w[m]).sum() / tot)

    def expected(self, shots, z):
        I = self.SC.INJ
        key = "NoiseCO" if I.trackMode == "ORB" else "Noise"
        per = [self.single(tr, z, z, key) for tr in shots]
        nb, nt = per[0][1].shape
        o = np.full((2, nb, nt), np.nan)
        s = np.zeros((nb, nt))
        err = np.full((2, nb, nt), np.nan)
        for b in range(nb):
            for t in range(nt):
                w = np.array([p[1][b, t] for p in per])
                s[b, t] = np.nansum(w) / len(per)
                for d in range(2):
                    v = np.array([p[0][d, b, t] for p in per])
                    o[d, b, t] = self.wmean(v, w)
                    if not np.isnan(v).any():
                        err[d, b, t] = math.sqrt(self.wmean((v - o[d, b, t]) ** 2, w))
        if I.trackMode == "PORB":
            o2, s2 = np.full((2, nb, 1), np.nan), np.zeros((nb, 1))
            for b in range(nb):
                for d in range(2):
                    o2[d, b, 0] = self.wmean(o[d, b], s[b])
                s2[b, 0] = s[b].sum() / nt
            o, s = o2, s2
        flat = lambda x: np.array([[x[d, b, t] for t in range(x.shape[2]) for b in range(x.shape[1])] for d in range(2)])
        return flat(o), flat(np.stack([s, s])), flat(err)

    def do_read(self, op):
        from pySC.core.beam import bpm_reading
        SC, I = self.SC, self.SC.INJ
        allb = self.groups["BPM"]
        sub = None if op.get("sub") is None else [allb[i % len(allb)] for i in dict.fromkeys(op["sub"])]
        self.want_bpms = self.bpms if sub is None else [o for o in self.bpms if o in sub]
        kw = {} if sub is None else {"bpm_ords": np.array(sub)}
        if op.get("errors"):
            kw["calculate_errors"] = True
        if not self.want_bpms:
            try:
                bpm_reading(SC, **kw)
            except ValueError:
                return
            self.fail("C05", "no-bpm", "a reading of unregistered BPMs was accepted")
            return
        SC.plot = bool(op.get("plot"))
        try:
            out = self.call("C05", "reading", bpm_reading, SC, **kw)
        finally:
            SC.plot = False
            if op.get("plot"):
                import matplotlib.pyplot as plt
                plt.close("all")
        self.check_injections(I.nShots, op)
        shots = self.shots()
        if len(shots) != I.nShots:
            self.fail("C05", "shots", f"{len(shots)} injections for a reading averaged over {I.nShots} shots")
            return
        nt = 1 if I.trackMode in ("PORB", "ORB") else I.nTurns
        want_len = nt * len(self.want_bpms)
        three = bool(op.get("errors")) and I.trackMode == "TBT"
        if len(out) != (3 if three else 2) or any(np.shape(x) != (2, want_len) for x in out):
            self.fail("C05", "shape", f"returned {[np.shape(x) for x in out]}, expected {2 + three} arrays of shape {(2, want_len)}")
            return
        mode = self.sc["rng"]
        noise = any(np.any(self.err["NoiseCO" if I.trackMode == "ORB" else "Noise"][o]) or self.err["SumError"][o] for o in self.want_bpms)
        if mode["mode"] == "const" or not noise:
            z = mode.get("z", 0.0)
            e = self.expected(shots, z)
            for nm, g, w, tol in (("position", out[0], e[0], 1e-12), ("sum", out[1], e[1], 1e-12)) + ((("spread", out[2], e[2], 1e-10),) if three else ()):
                self.cmp(nm, np.asarray(g, float), w, tol, op, I)
            self.res.stats["readings-compared"] += 1
            self.res.nontrivial = True
            return
        self.check_noise(out, shots, I, op)

    def cmp(self, nm, g, w, tol, op, I):
        bad = (np.isnan(g) != np.isnan(w)) | (~np.isnan(w) & (np.abs(g - w) > 1e-9 * np.abs(w) + tol))
        if np.any(bad):
            d, k = [int(i[0]) for i in np.nonzero(bad)]
            b, t = self.want_bpms[k % len(self.want_bpms)], k // len(self.want_bpms)
            self.fail("C05", nm, f"{I.trackMode} reading ({I.nParticles} particles, {I.nTurns} turns, {I.nShots} shots): {nm} in plane {d} of BPM {b} turn {t} "
                                 f"is {g[d, k]!r}, beam and errors give {w[d, k]!r}")

    def check_noise(self, out, shots, I, op):
        """Unknown draws: what is not explained by the beam must be noise within its limits, fresh for every BPM, plane and turn."""
        if len(shots) != 1 or I.trackMode == "PORB":
            base = self.expected(shots, 0.0)
            # bounded by the cut draws
            mx = max([abs(self.err["SumError"][o]) for o in self.want_bpms] + [0.0]) * CUT_BPM
            nz = np.array([[np.max([self.err["NoiseCO" if I.trackMode == "ORB" else "Noise"][o][d] for o in self.want_bpms])] for d in range(2)])
            if mx == 0.0:
                n = I.nParticles
                fr = max(1.0 / n, 1 - I.beamLostAt)
                bad = (np.isnan(out[0]) != np.isnan(base[0])) | (np.abs(out[0] - base[0]) > CUT_BPM * nz / fr * (1 + 1e-9) + 1e-12)
                if np.any(bad & ~(np.isnan(out[0]) & np.isnan(base[0]))):
                    self.fail("C05", "noise-limit", f"{I.trackMode} reading deviates from the beam by more than the noise allows")
            return
        tr = shots[0]
        key = "NoiseCO" if I.trackMode == "ORB" else "Noise"
        seen = []
        nb = len(self.want_bpms)
        for b, o in enumerate(self.want_bpms):
            e = {k: self.err[k][o] for k in self.err}
            for t in range(tr.shape[3]):
                k = t * nb + b
                alive = ~np.isnan(tr[0, :, b, t])
                frac = alive.mean()
                s = out[1][:, k]
                if not s[0] == s[1]:
                    self.fail("C05", "sum", f"the two planes of BPM {o} report different sums {s}")
                lo, hi = sorted((frac * (1 + CUT_BPM * abs(e["SumError"])), frac * (1 - CUT_BPM * abs(e["SumError"]))))
                if s[0] == 0 or np.isnan(out[0][0, k]):
                    if lo > max(1 - I.beamLostAt, 0) + 1e-12:
                        self.fail("C05", "lost", f"BPM {o} turn {t} reads nothing although {frac:.2f} of the beam arrived")
                    continue
                if hi < 1 - I.beamLostAt - 1e-12 or not alive.any():
                    self.fail("C05", "not-lost", f"BPM {o} turn {t} reads {out[0][:, k]} although {1 - frac:.2f} of the beam is lost")
                    continue
                if not lo - 1e-12 <= s[0] <= hi + 1e-12:
                    self.fail("C05", "sum", f"BPM {o} turn {t}: sum {s[0]} for {frac} of the beam and a sum error of {e['SumError']}")
                if e["SumError"]:
                    seen.append(((s[0] / frac - 1) / e["SumError"], f"sum of BPM {o} turn {t}"))
                x, y = np.mean(tr[0, alive, b, t]), np.mean(tr[1, alive, b, t])
                for d, val in enumerate(rot(e["Roll"] + e["SupportRoll"], x, y)):
                    det = (val - e["Offset"][d] - e["SupportOffset"][d]) * (1 + e["CalError"][d])
                    dev = (out[0][d, k] - det) * s[0]
                    if abs(dev) > CUT_BPM * e[key][d] * (1 + 1e-9) + 1e-13:
                        self.fail("C05", "noise-limit", f"BPM {o} plane {d} turn {t}: {out[0][d, k]} deviates by {dev} from {det}, noise is {e[key][d]}")
                    if e[key][d]:
                        seen.append((dev / e[key][d], f"noise of BPM {o} plane {d} turn {t}"))
        self.res.stats["noise-terms-checked"] += len(seen)
        self.res.nontrivial = True
        if self.sc["rng"]["mode"] == "stream":
            z = sorted(seen)
            for (a, i), (b, j) in zip(z, z[1:]):
                if abs(a - b) < 1e-7:
                    if abs(a - b) < 1e-9:
                        self.fail("C05", "shared-noise", f"{i} and {j} got the same random number {a}")
                        break
            self.z_seen.extend(a for a, _ in seen)

    def check_injections(self, shots, op):
        I = self.SC.INJ
        if I.trackMode == "ORB":
            if any(r[0] == "track" for r in self.records) or not any(r[0] == "orbit" for r in self.records):
                self.fail("C05", "orbit-mode", "a closed-orbit reading tracked an injected beam")
            return
        seen = []
        for kind, z, nt, refs, res in self.records:
            if kind == "track":
                self.check_bunch(z, I.nParticles, f"shot {len(seen)}", op, seen)
                if nt != I.nTurns:
                    self.fail("C05", "turns", f"tracked {nt} turns instead of {I.nTurns}")
        self.distinct(seen, "C16", "repeated-jitter")

    def do_all(self, op):
        from pySC.core.beam import all_elements_reading
        SC, I = self.SC, self.SC.INJ
        self.want_bpms = self.bpms
        read, pos = self.call("C05", "all-elements", all_elements_reading, SC)
        self.check_injections(I.nShots, op)
        recs = [r for r in self.records if r[0] in ("track", "orbit")]
        if len(recs) != I.nShots:
            self.fail("C05", "shots", f"{len(recs)} injections for {I.nShots} shots")
            return
        pos = np.asarray(pos)
        want = np.full((2, I.nParticles, self.n_el + 1, I.nTurns, I.nShots), np.nan)
        for k, (kind, z, nt, refs, res) in enumerate(recs):
            refs = norm_refs(refs, self.n_el)
            w = np.transpose(np.asarray(res)[:, [0, 2]])[:, None, :, None] if kind == "orbit" else np.asarray(res)[[0, 2]]
            want[..., k][:, :, refs, :] = w
            m = np.isnan(want[0, ..., k])
            want[1, ..., k][m] = np.nan
        if pos.shape != want.shape or not np.array_equal(pos, want, equal_nan=True):
            self.fail("C05", "true-positions", f"positions at all elements differ from the tracked ones ({pos.shape} and {want.shape})")
        if self.sc["rng"]["mode"] == "const" and I.trackMode != "PORB" and np.shape(read) == (2, len(self.bpms) * I.nTurns):
            z = self.sc["rng"]["z"]
            per = [self.single(tr, z, z, "NoiseCO" if I.trackMode == "ORB" else "Noise") for tr in self.shots()]
            if I.nShots == 1:
                w = per[0][0]
                self.cmp("position", np.asarray(read, float), np.array([[w[d, b, t] for t in range(w.shape[2]) for b in range(w.shape[1])] for d in range(2)]), 1e-12, op, I)
            else:  # any mean over the shots which were seen: how shots are weighted is not judged
                flat = np.array([[[p[0][d, b, t] for t in range(p[0].shape[2]) for b in range(p[0].shape[1])] for d in range(2)] for p in per])
                seen, got = ~np.isnan(flat), np.asarray(read, float)
                lo, hi = np.where(seen, flat, np.inf).min(axis=0), np.where(seen, flat, -np.inf).max(axis=0)
                gone = ~seen.any(axis=0)
                eps = 1e-12 + 1e-9 * np.abs(np.where(seen, flat, 0)).max(axis=0)
                wrong = (np.isnan(got) != gone) | (~gone & ~((got >= lo - eps) & (got <= hi + eps)))
                if wrong.any():
                    d, i = np.argwhere(wrong)[0]
                    self.fail("C05", "all-elements-mean", f"reading {i} of plane {d} is {got[d, i]}, the shots give {flat[:, d, i]}")
        self.res.nontrivial = True

    def do_trans(self, op):
        from pySC.core.beam import beam_transmission
        SC, I = self.SC, self.SC.INJ
        n, nt = op.get("np") or I.nParticles, op.get("nt") or I.nTurns
        before = (I.nParticles, I.nTurns)
        turns, frac = self.call("C16", "transmission", beam_transmission, SC, **{k: v for k, v in (("nParticles", op.get("np")), ("nTurns", op.get("nt"))) if v is not None})
        if (I.nParticles, I.nTurns) != before:
            self.fail("C16", "settings", "a transmission measurement changed the injection settings")
        recs = [r for r in self.records if r[0] == "track"]
        if not recs:
            self.fail("C16", "no-tracking", "transmission without tracking")
            return
        z = np.concatenate([r[1] for r in recs], axis=1)
        self.check_bunch(z, n, "transmission", op)
        alive = np.concatenate([~np.isnan(np.asarray(r[4])[0, :, list(norm_refs(r[3], self.n_el)).index(self.n_el), :]) for r in recs], axis=0)
        want = alive.mean(axis=0)
        frac = np.asarray(frac, float)
        if frac.shape != (nt,) or not np.allclose(frac, want, rtol=1e-12, atol=1e-12):
            self.fail("C16", "transmission", f"transmission {frac} for {n} particles and {nt} turns, survivors at the end of each turn {want}")
        good = int(np.sum(want > 1 - I.beamLostAt))
        if turns != good:
            self.fail("C16", "survived-turns", f"{turns} survived turns, transmission {want} with the beam counted as lost at {I.beamLostAt} gives {good}")
        self.res.nontrivial = True

    def do_bunch(self, op):
        from pySC.core.beam import generate_bunches
        I = self.SC.INJ
        z = self.call("C16", "bunch", generate_bunches, self.SC, **({} if op.get("np") is None else {"nParticles": op["np"]}))
        self.check_bunch(z, op.get("np") or I.nParticles, "bunch", op)


class StatWorld:
    """Long runs of honest draws: first and second moments of bunches, jitter and noise."""

    def __init__(self, scenario, prop, sim):
        self.sc, self.prop, self.sim, self.res = scenario, prop, sim, sim.res

    def fail(self, prop, what, msg):
        if self.prop in (prop, "*"):
            self.res.violate(f"{prop}/{what}", msg, "statistics")

    def run(self):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        from pySC.core import beam
        c = self.sc
        ring, groups = build_ring(c["ring"])
        SC = SimulatedCommissioning(ring)
        self.sim.begin_op("stat")
        S = np.array(c["beamSize"])
        SC.INJ.beamSize = S
        SC.INJ.Z0 = np.array(c["Z0"])
        n = c["n"]
        z = np.asarray(beam.generate_bunches(SC, nParticles=n), float) - SC.INJ.Z0[:, None]
        cov = z @ z.T / n
        sd = np.sqrt(np.maximum(np.outer(np.diag(S), np.diag(S)), 0.0))
        dev = np.abs(cov - VAR3 * S)
        lim = 8.0 / math.sqrt(n) * sd + 1e-22
        if np.any(dev > lim):
            i, j = [int(k[0]) for k in np.nonzero(dev > lim)]
            self.fail("C16", "covariance", f"covariance ({i},{j}) of {n} particles is {cov[i, j]}, the beam matrix gives {VAR3 * S[i, j]}")
        mean = np.abs(z.mean(axis=1))
        if np.any(mean > 7 * np.sqrt(np.diag(S) / n) + 1e-12):
            self.fail("C16", "mean", f"mean of {n} particles is {z.mean(axis=1)} away from Z0")
        SC.INJ.randomInjectionZ = np.array(c["jit"])
        SC.INJ.beamSize = np.zeros((6, 6))
        m = 400
        z = np.array([np.asarray(beam.generate_bunches(SC, nParticles=1), float)[:, 0] for _ in range(m)]) - SC.INJ.Z0
        self.moments("C16", "jitter", z[:, SC.INJ.randomInjectionZ > 0] / SC.INJ.randomInjectionZ[SC.INJ.randomInjectionZ > 0])
        self.res.state("bunch", n, tuple(np.diag(S) > 0))
        # noise of the BPMs
        SC.INJ.randomInjectionZ = np.zeros(6)
        bp = np.array(groups["BPM"])
        SC.register_bpms(bp, Noise=np.array([1e-5, 3e-5]), NoiseCO=np.array([2e-6, 1e-6]), SumError=0.03)
        SC.apply_errors()
        for o in bp:
            SC.RING[o].SumError = 0.03 if c["sum"] else 0.0
        SC.INJ.trackMode = c["mode"]
        if c["mode"] == "TBT":
            SC.INJ.nTurns = 5
        track = synthetic({"loss": 0.0, "amp": 1e-3, "salt": 1}) if c["mode"] == "TBT" else None
        self.sim.synthetic = track
        reads = [beam.bpm_reading(SC) for _ in range(c["reads"])]
        pos = np.array([x[0] for x in reads])          # (R, 2, BT)
        sums = np.array([x[1][0] for x in reads])
        sig = np.array([1e-5, 3e-5] if c["mode"] == "TBT" else [2e-6, 1e-6])
        if c["sum"]:
            self.moments("C05", "sum errors", ((sums - 1) / 0.03).reshape(-1, 1))
        base = pos.mean(axis=0)
        k = len(reads)
        d = (pos - base) * sums[:, None] / sig[None, :, None] / math.sqrt(1 - 1 / k)
        self.moments("C05", "noise", d.reshape(len(reads), 2, -1).transpose(0, 2, 1).reshape(-1, 2), mean=False)
        self.res.nontrivial = True
        self.res.stats["particles"] += n
        return self.res

    def moments(self, prop, label, z, mean=True):
        n = len(z)
        if np.any(np.abs(z) > 2 * 1.35):
            self.fail(prop, "moments", f"{label}: deviation of {np.abs(z).max()} sigma")
        var = (z ** 2).mean(axis=0)
        if np.any(np.abs(var - VAR2) > 7 * 0.9 / math.sqrt(n)):
            self.fail(prop, "moments", f"{label}: variance {var} in units of the uncertainty, a normal draw cut at 2 sigma has {VAR2}")
        if mean and np.any(np.abs(z.mean(axis=0)) > 7 * 0.88 / math.sqrt(n)):
            self.fail(prop, "moments", f"{label}: mean {z.mean(axis=0)}")
        for i in range(z.shape[1]):
            for j in range(i):
                if abs((z[:, i] * z[:, j]).mean()) > 7 * 0.78 / math.sqrt(n):
                    self.fail(prop, "correlation", f"{label}: components {j} and {i} are correlated ({(z[:, i] * z[:, j]).mean()})")


def generate_stat(r, seed):
    return dict(seed=seed, ring=gen_spec(r, size=3), rng={"mode": "stream"}, beamSize=gen_sigma(r), Z0=[r.uniform(-1, 1) * 1e-4 for _ in range(6)],
                n=r.choice([3000, 8000]), jit=[r.choice([0.0, 1e-5, 1e-4]) for _ in range(6)], mode=r.choice(["TBT", "TBT", "ORB"]),
                sum=r.random() < .5, reads=60, ops=[])


def execute(scenario, prop):
    remember_real()
    res = Result()
    sim = Sim(scenario, res)
    pool = PoolWorld(scenario.get("pool"), res.fired)
    with np.errstate(all="ignore"), installed(sim, pool):
        (StatWorld if "reads" in scenario else BeamWorld)(scenario, prop, sim).run()
    return res
