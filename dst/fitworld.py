"""World W4: beam-based alignment, tune scans, chromaticity and injection fits.

BBA runs on ``QuadPlant``: the linear plant plus thin focusing kicks about the magnets' actual centres, with BPM and
magnet of a pair at the same betatron phase, so that the true answer is known.  Tune scans see a synthetic
transmission which depends on the quadrupoles only; chromaticity and injection fits run on the real tracking code.
"""
import copy
import math

import numpy as np
from at import Dipole

from dst.base import Skip, freeze_machine, h64, rng_for, Result
from dst.beamworld import norm_refs
from dst.machines import build_ring, gen_spec
from dst.plant import Plant, gen_plant
from dst.procworld import ProcWorld
from dst.seams import Sim, installed, real, remember_real
from dst.simpool import PoolWorld

OUTLIER, SIGMAS = 1.5e-3, 2.5
MAG_FIELDS = ("SetPointA", "SetPointB", "PolynomA", "PolynomB")


# ---------------------------------------------------------------------- plant with quadrupoles
class QuadPlant(Plant):
    def __init__(self, ring, cfg, cavs, pairs):
        super().__init__(ring, cfg, cavs)
        self.nom = {}
        for i, e in enumerate(ring):
            if hasattr(e, "PolynomB") and not isinstance(e, Dipole) and float(getattr(e, "Length", 0)) > 0:
                b, a = np.array(e.PolynomB, float), np.array(e.PolynomA, float)
                self.nom[i] = (np.pad(b, (0, 4))[:4], np.pad(a, (0, 4))[:4])
        for b, m in pairs:
            for d in range(2):
                self.phi_c[d][m] = self.phi[d][b]
                self.beta_c[d][m] = self.beta[d][b]
                self.err[d][min(b, m):max(b, m) + 1] = 0
        self.cache.clear()

    def active(self, lattice):
        out = []
        for i, (b0, a0) in self.nom.items():
            e = lattice[i]
            b, a = np.pad(np.array(e.PolynomB, float), (0, 4))[:4] - b0, np.pad(np.array(e.PolynomA, float), (0, 4))[:4] - a0
            if np.any(b[1:]) or np.any(a[1:]):
                c = np.array(getattr(e, "MagnetOffset", np.zeros(3)), float)[:2] + np.array(getattr(e, "SupportOffset", np.zeros(3)), float)[:2]
                out.append((i, b * float(e.Length), a * float(e.Length), c))
        return sorted(out, key=lambda x: x[0])

    def positions(self, th, z, df, lag, nturns):
        x = super().positions(th, z, df, lag, nturns)
        mags = self.mags
        if not mags:
            return x
        kick = th + self.err
        amp_c = np.sqrt(self.beta_c)
        A = [float(z[2 * d]) / math.sqrt(self.beta[d][0]) for d in range(2)]
        B = [float(z[2 * d + 1]) * math.sqrt(self.beta[d][0]) for d in range(2)]
        extra = []                                # (turn, ordinate, plane, dA, dB)
        for t in range(nturns):
            cum = []
            ph = self.phi_c + 2 * np.pi * self.q[:, None] * t
            for d in range(2):
                da, db = -amp_c[d] * kick[d] * np.sin(ph[d]), amp_c[d] * kick[d] * np.cos(ph[d])
                cum.append((np.cumsum(da) - da, np.cumsum(db) - db, da.sum(), db.sum()))
            for c, b, a, m in mags:
                pos = [amp_c[d][c] * ((A[d] + cum[d][0][c]) * math.cos(ph[d][c]) + (B[d] + cum[d][1][c]) * math.sin(ph[d][c])) for d in range(2)]
                u, v = pos[0] - m[0], pos[1] - m[1]
                tx = -(b[1] * u + b[2] * (u * u - v * v)) + a[1] * v
                ty = b[1] * v + 2 * b[2] * u * v + a[1] * u
                for d, k in ((0, tx), (1, ty)):
                    da, db = -amp_c[d][c] * k * math.sin(ph[d][c]), amp_c[d][c] * k * math.cos(ph[d][c])
                    A[d] += da
                    B[d] += db
                    extra.append((t, c, d, da, db))
            for d in range(2):
                A[d] += cum[d][2]
                B[d] += cum[d][3]
        refs = np.arange(self.n + 1)
        for t0, c, d, da, db in extra:
            for t in range(t0, nturns):
                ph = self.phi[d] + 2 * np.pi * self.q[d] * t
                part = np.sqrt(self.beta[d]) * (da * np.cos(ph) + db * np.sin(ph))
                x[d, :, t] += part * (refs > c) if t == t0 else part
        return x

    def track(self, sim, lattice, r_in, nturns, refpts):
        self.mags = self.active(lattice)
        return super().track(sim, lattice, r_in, nturns, refpts)

    mags = ()


# ---------------------------------------------------------------------- scenarios
def generate(config, r, seed):
    spec = gen_spec(r, size=r.choice([2, 3, 3, 4]), **({"jitter": 0.0} if config not in ("bba", "tune") and r.random() < .4 else {}))
    sc = dict(seed=seed, config=config, ring=spec, plant=gen_plant(r), rng={"mode": "stream"}, pool={"ncpu": r.choice([1, 2, 4]), "seed": 1, "schedule": "random"},
              hcm=["QF"], vcm=["QF"], limit=1e-3, cal=0.0, bpm_cal=r.choice([0.0, .05]), bpm_off=r.choice([0.0, 1e-4, 5e-4, 1.2e-3]),
              drop_bpm=False, start=0.0, noise=1e-9, ops=[])
    ops = sc["ops"]

    def add(op, p=.12, kinds=("lose", "lose", "raise"), **kw):
        if r.random() < p:
            kw["fault"] = {"kind": r.choice(kinds), "where": "any", "at": r.choice([0, 1, 2, 3, 5, 8, 13, 21]), "frac": 1.0}
        ops.append(dict(id=len(ops) + 1, op=op, **kw))

    if config == "bba":
        sc["plant"].update(rf=None, ap=r.choice([None, None, 1.5e-2, 6e-3, 3e-3, 1e-3, 1e-4]), nerr=r.choice([0, 2]), err=1e-5)
        sc["mag_off"], sc["sup_off"] = r.choice([0.0, 1e-4, 5e-4, 9e-4]), r.choice([0.0, 2e-4])
        sc["qcal"] = r.choice([0.0, 0.0, .01])
        sc["noise"] = r.choice([1e-9, 1e-9, 1e-8, 1e-6])
        if sc["qcal"] == 0 and r.random() < .4:      # the focusing quadrupoles are gradient dipoles: centre without compensation off by this much
            sc["bend"] = r.choice([-1, 1]) * r.choice([2e-4, 5e-4])
        for _ in range(r.randint(1, 3)):
            if r.random() < .75:
                kind = r.choice(["quad", "quad", "quad", "skew", "sext"])
                add("bba", kind=kind, rows=1 if kind == "sext" else r.choice([1, 2, 2]), n_pairs=r.randint(1, 3), n_steps=r.choice([4, 7, 10]), strengths=r.choice([2, 2, 3]),
                    down=r.choice([None, None, 3, 5]), phase=r.choice([0, 0, 1, 2]), comp=r.random() < .6, scale=r.choice([1.0, 1.0, .5, 3.0]), bad=r.choice(["turns", "mode", "shape", "order"]) if r.random() < .08 else None)
            else:
                add("fake", p=0, n_pairs=r.randint(1, 3), rows=r.choice([1, 2]), given=r.random() < .5, flags=r.random() < .7, z=r.choice([None, 0.0, .7, -1.5, 1.99]))
        return sc
    if config == "tune":
        sc.update(noise=0.0, q_start=r.choice([0.0, .01]), qcal=r.choice([0.0, .002]))
        for _ in range(r.randint(1, 3)):
            n1, n2 = r.choice([1, 2, 3, 5, 7, 11]), r.choice([3, 5, 8, 11])
            add("scan", n=[n1, n2], span=[r.choice([.01, .05]), r.choice([.01, .05])], n_points=r.choice([2, 5, 12, 30, 60]), target=r.choice([1, 1, .9, .5, .01]),
                full=r.random() < .3, np=r.choice([None, 1, 5, 20]), nt=r.choice([None, 1, 5, 20]), opt=[r.uniform(-1.3, 1.3), r.uniform(-1.3, 1.3)], sharp=r.choice([.5, 1.5, 4.0, 40.0]),
                quads=r.choice([["QF", "QD"], ["QF", "QD"], ["QD", "QF"], ["QF1", "QF2"]]), lost_at=r.choice([1, .6, .3]), arr=r.random() < .7)
        return sc
    sc.update(noise=0.0, nshots=r.choice([1, 1, 3]))
    for _ in range(r.randint(1, 2)):
        x = r.random()
        if x < .35:
            add("chroma", p=0, fams=r.choice([["SF", "SD"], ["SF", "SD"], ["SD", "SF"], ["SF1", "SF2", "SD"], ["SD", "SF1", "SF2"]]), target=r.choice([None, None, "near", "nan"]), spread=r.choice([0.0, .3]), step=r.choice([None, .5]))
        elif x < .75:
            add("drift", p=.1, z=[r.uniform(-1, 1) * s for s in (1e-3, 3e-4, 1e-3, 3e-4)], nt=r.choice([2, 2, 3]), plane=r.choice([None, [0], [1]]), lose=r.random() < .15, plot=r.random() < .1)
        else:
            add("traj", p=.1, z=[r.uniform(-1, 1) * s for s in (5e-4, 1e-4, 5e-4, 1e-4)], inds=r.choice([None, [0, 1, 2], [0, 1, 2, 3], [1, 2, 3]]), nt=r.choice([1, 2]))
    return sc


# ---------------------------------------------------------------------- the world
class FitWorld(ProcWorld):
    def setup(self):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        sc, g = self.sc, self.groups
        r = rng_for(sc["seed"], "setup")
        bend = {}
        if sc.get("bend"):
            for o in g["QF"]:
                e = self.ring[o]
                e.BendingAngle = sc["bend"] * float(e.PolynomB[1]) * float(e.Length)
            bend = {"QF": dict(CF=True, HCM=sc["limit"])}
        SC = self.SC = SimulatedCommissioning(self.ring)
        self.bpms = list(g["BPM"])
        SC.register_bpms(np.array(self.bpms))
        kinds = [k for k in ("QF", "QD", "SF", "SD", "SQ") if k in g]
        for k in kinds:
            SC.register_magnets(np.array(g[k]), **bend.get(k, {}))
        SC.register_cavities(np.array(g["CAV"]))
        self.bpm_off = {o: np.array([r.uniform(-1, 1), r.uniform(-1, 1)]) * sc["bpm_off"] for o in self.bpms}
        self.bpm_cal = {o: np.array([r.uniform(-1, 1), r.uniform(-1, 1)]) * sc["bpm_cal"] for o in self.bpms}
        for o in self.bpms:
            e = SC.RING[o]
            e.Offset, e.CalError = self.bpm_off[o].copy(), self.bpm_cal[o].copy()
            e.Noise, e.NoiseCO = np.full(2, sc["noise"]), np.full(2, sc["noise"])
            e.SupportOffset = np.array([r.uniform(-1, 1) * sc.get("sup_off", 0.0) for _ in range(2)])
        for k in kinds:
            for o in g[k]:
                e = SC.RING[o]
                e.MagnetOffset = np.array([r.uniform(-1, 1) * sc.get("mag_off", 0.0) for _ in range(3)])
                e.SupportOffset = np.array([r.uniform(-1, 1) * sc.get("sup_off", 0.0) for _ in range(3)])
                c = np.zeros(2)
                c[1] = r.uniform(-1, 1) * sc.get("qcal", 0.0)
                if k[0] == "Q":
                    e.CalErrorB = c
        if sc.get("q_start"):
            for k in ("QF", "QD"):
                for o in g[k]:
                    SC.set_magnet_setpoints(o, 1 + r.uniform(-1, 1) * sc["q_start"], False, 1, method="rel")
        SC.update_magnets()
        SC.INJ.nParticles = SC.INJ.nShots = 1
        self.pairs = [(b, m) for b, m in self.neighbours("QF") + self.neighbours("QD")]
        if sc["config"] == "bba":
            self.plant = QuadPlant(self.ring, sc["plant"], g["CAV"], self.pairs)
            self.sim.synthetic = self.plant.track
        self.log = []
        self.sim.on_track = lambda r_in, nt, refs, out: self.records.append(np.asarray(out)[[0, 2], 0])

    def neighbours(self, kind):
        """BPM just upstream of each magnet of a kind"""
        out = []
        for m in self.groups.get(kind, []):
            up = [b for b in self.bpms if b < m]
            if up:
                out.append((up[-1], m))
        return out

    def sync(self):
        pass

    # ------------------------------------------------------------------ C12
    def do_bba(self, op):
        from pySC.correction import bba
        sc, SC = self.sc, self.SC
        r = rng_for(sc["seed"], op["id"], "pairs")
        kind = op["kind"]
        if kind == "skew":
            pool = self.pairs
        elif kind == "sext":
            # the sextupole follows the quadrupole behind the same BPM
            pool = self.neighbours("SF")
        else:
            pool = self.pairs
        if kind == "sext" and sc["qcal"]:
            raise Skip("quadrupole errors between BPM and sextupole")
        pick = [sorted(r.sample(pool, min(op["n_pairs"], len(pool)))) for _ in range(op["rows"])]
        bo, mo = np.array([[p[0] for p in row] for row in pick]), np.array([[p[1] for p in row] for row in pick])
        for o in self.groups["SF"]:          # an earlier, failed alignment may have left a sextupole at a trial setting
            SC.set_magnet_setpoints(o, 1.0, False, 2, method="rel")
        for k in ("QF", "QD"):
            for o in self.groups[k]:
                SC.set_magnet_setpoints(o, 0.0, True, 1, method="abs")
                SC.set_magnet_setpoints(o, 1.0, False, 1, method="rel")
        if op["phase"]:                      # these do not start from their design strength
            for o in (self.groups["QF"][:1] + self.groups["QD"][:1]):
                SC.set_magnet_setpoints(o, r.choice([1.0, .995, 1.01]), False, 1, method="rel", dipole_compensation=True)
        plant = self.plant = QuadPlant(self.ring, sc["plant"], self.groups["CAV"], [p for p in self.pairs if p not in ()] if kind != "sext" else pool)
        self.sim.synthetic = plant.track
        self.set_mode("TBT", 2)
        SC.INJ.Z0 = np.array([r.uniform(-1, 1) * s for s in (1e-4, 2e-5, 1e-4, 2e-5)] + [0.0, 0.0])
        kw = dict(n_steps=op["n_steps"], dipole_compensation=op["comp"], max_injection_pos_angle=np.array([.9e-3, .3e-3]) * op["scale"])
        dq = .05 if op["strengths"] == 2 else .03
        vec = np.linspace(1 - dq, 1 + dq, op["strengths"])
        order = 1
        if kind == "skew":
            vec, kw["skewness"], kw["setpoint_method"] = np.linspace(-.1, .1, op["strengths"]), True, "add"
            # additive steps accumulate from one strength to the next, the strengths must be differences
            vec, kw["setpoint_method"] = np.linspace(-.1, .1, op["strengths"]), "abs"
        elif kind == "sext":
            order = 2
            vec = np.linspace(-60, 60, op["strengths"])
            kw.update(magnet_order=2, fit_order=2, setpoint_method="abs")
        if kind != "quad" or op["strengths"] != 2:
            kw["magnet_strengths"] = vec
        if op["down"]:
            kw["num_downstream_bpms"] = min(op["down"], len(self.bpms))
        if op["phase"]:
            qs = self.groups["QF"][:1] if op["phase"] == 1 else self.groups["QF"][:1] + self.groups["QD"][:1]
            if kind == "sext":
                raise Skip("phase quadrupoles and sextupoles")
            kw["q_ord_phase"] = np.array(qs)
            kw["q_ord_setpoints"] = np.array([1.0, .95, 1.05])
        bad = op.get("bad")
        if bad == "turns":
            SC.INJ.nTurns = 1
        elif bad == "mode":
            SC.INJ.trackMode = "PORB"
        elif bad == "shape":
            mo = mo[:, :1] if mo.shape[1] > 1 else np.hstack((mo, mo))
        elif bad == "order":
            kw["fit_order"] = 3
        before = freeze_machine(SC)
        off0 = {o: np.array(SC.RING[o].Offset, float) for o in self.bpms}
        used = {int(o) for o in bo.ravel()}
        raised = self.scan_raise(op)
        self.records.clear()
        starts, z0, note = [], SC.INJ.Z0.copy(), self.sim.on_track

        def on_track(r_in, nt, refs, res):
            starts.append(np.asarray(r_in, float).reshape(6, -1)[:4].mean(axis=1) - z0[:4])
            note(r_in, nt, refs, res)
        self.sim.on_track = on_track
        out = self.guarded("C12", "trajectory_bba", before, lambda p: raised() or p[0] == "RING" and len(p) > 2 and p[1] in used and p[2] == "Offset",
                           lambda: bba.trajectory_bba(SC, bo, mo, **kw), [bo, mo] + [kw[k] for k in ("magnet_strengths", "q_ord_phase", "q_ord_setpoints", "max_injection_pos_angle") if k in kw])
        self.sim.on_track = note
        far = [x for x in starts if np.any(np.abs(x) > kw["max_injection_pos_angle"][[0, 1, 0, 1]] * (1 + 1e-6) + 1e-12)]
        if far:
            self.fail("C12", "injection", f"trajectory_bba injected the beam at {far[0]} from the injection point, allowed are {kw['max_injection_pos_angle']} in each plane")
        if out[0] == "injected":
            return
        if bad:
            if out[0] != "ValueError":
                self.fail("C12", "not-rejected", f"trajectory_bba with wrong {bad}: {out[0]}")
            for o in self.bpms:
                if not np.array_equal(off0[o], SC.RING[o].Offset):
                    self.fail("C12", "rejected", f"a refused alignment changed the offset of BPM {o}")
            return
        if out[0] != "ok":
            if any(np.isnan(x).any() for x in self.records):
                self.res.stats["bba-no-beam"] += 1
                return
            self.fail("C12", "failed", f"trajectory_bba raised {out[0]}: {out[1]} with all of the beam")
            return
        _, offs, errs = out[1]
        offs, errs = np.asarray(offs, float), np.asarray(errs, float)
        if offs.shape != bo.shape or errs.shape != bo.shape:
            self.fail("C12", "shape", f"results have shapes {offs.shape}, {errs.shape}")
            return
        # what may be applied
        want = {o: off0[o].copy() for o in self.bpms}
        n_ok = 0
        for d in range(bo.shape[0]):
            for j in range(bo.shape[1]):
                v, e = offs[d, j], errs[d, j]
                if np.isnan(v) or abs(v) > OUTLIER or abs(v) < SIGMAS * e:
                    continue
                want[int(bo[d, j])][d] += v
                n_ok += 1
        for o in self.bpms:
            now = np.array(SC.RING[o].Offset, float)
            if not np.allclose(now, want[o], rtol=1e-9, atol=1e-14):
                self.fail("C12", "applied", f"BPM {o} has offset {now}, from {off0[o]} and the reported results {offs[bo == o]}+-{errs[bo == o]} it should have {want[o]}")
        # what is true
        reach = 0.9e-3 * op["scale"]
        for d in range(bo.shape[0]):
            for j in range(bo.shape[1]):
                b, m = int(bo[d, j]), int(mo[d, j])
                if kind == "skew":
                    meas = 1 - d
                else:
                    meas = d
                e = SC.RING[m]
                truth = (float(e.MagnetOffset[d]) + float(e.SupportOffset[d]) - off0[b][d] - float(SC.RING[b].SupportOffset[d])) * (1 + self.bpm_cal[b][d])
                if sc.get("bend") and kind == "quad" and not op["comp"] and d == 0 and m in self.groups["QF"]:
                    truth -= sc["bend"] * self.bpm_cal[b][d]        # the shift of a gradient dipole is corrected for as if the monitor were calibrated
                sig = self.resolution(plant, b, m, d, meas, kw, order, vec, kind, starts)
                self.res.stats["bba-results"] += 1
                if sig is None or np.isnan(offs[d, j]):
                    if np.isnan(offs[d, j]) and sig is not None and sig < 1e-7 and not any(np.isnan(x).any() for x in self.records):
                        self.fail("C12", "no-result", f"no result for BPM {b} plane {d} although all of the beam arrived")
                    continue
                self.res.nontrivial = True
                self.res.stats["bba-compared"] += 1
                tol = max(60 * sig + 1e-3 * abs(truth) * (sig / 1e-7 > 1) + 1e-9, 4 * errs[d, j] if errs[d, j] < 2e-5 else min(errs[d, j], 1e-4))
                if abs(offs[d, j] - truth) > tol:
                    self.fail("C12", "centre", f"alignment of BPM {b} to {kind} {m} plane {d} gives {offs[d, j]} +- {errs[d, j]}, the magnet centre reads {truth} (resolution {sig:.1e})")
                if sig < 1e-7 and 2e-4 < abs(truth) < OUTLIER * .99 and not abs(offs[d, j]) >= SIGMAS * errs[d, j]:
                    self.fail("C12", "not-significant", f"alignment of BPM {b} to {kind} {m} plane {d} gives {offs[d, j]} +- {errs[d, j]}: rejected although the data determine it to {sig:.1e}")
        self.res.state("bba", kind, bool(sc.get("bend")), op["comp"], bo.shape[0], op["n_steps"], op["strengths"], op["down"], op["phase"], n_ok, int(np.isnan(offs).sum()), any(np.isnan(x).any() for x in self.records), bool(op.get("fault")))

    def scan_raise(self, op):
        def f():
            return self.scan_failed(op)
        return f

    def resolution(self, plant, b, m, d, meas, kw, order, vec, kind, starts):
        """how well noise allows the magnet centre to be found; None if hardly at all"""
        noise = self.sc["noise"] * 3
        down = kw.get("num_downstream_bpms", len(self.bpms))
        i = self.bpms.index(b)
        resp = []
        rt = plant.response_tbt(meas, 2)
        for k in range(i, i + down):
            t, o = divmod(k, len(self.bpms))
            v = rt[t][self.bpms[o], m]
            resp.append(abs(v))
        # amplitude of the beam at the BPM over the scan
        # (only the part the injection moves: the magnets of other pairs move the beam as well, which is no lever here)
        two = [(z, rec) for z, rec in zip(starts, self.records) if rec.shape[2] == 2]
        moved = [abs(q[1][d, b2, 0] - p[1][d, b2, 0]) for p, q in zip(two, two[1:])
                 for b2 in [self.bpms.index(b) if p[1].shape[1] == len(self.bpms) else b] if q[0][2 * d] - p[0][2 * d] > 1e-9]
        n = int(kw["n_steps"]) * len(vec)
        lost = np.isnan(np.array([rec[d] for rec in self.records if rec.shape[2] == 2])).any()
        if lost:
            return None                 # fewer points, resolution unknown
        span = max(moved, default=0.0) * (int(kw["n_steps"]) - 1)
        amp = span / 2
        if amp < 5e-5:
            return None
        e = self.ring[m]
        length = float(e.Length)
        dk = (vec[-1] - vec[0]) * length * (abs(float(e.PolynomB[1])) if kind == "quad" else 1.0)
        signal = max(resp) * dk * (amp if order == 1 else amp ** 2)
        if signal <= 0:
            return None
        ratio = noise / signal
        if ratio > (.02 if order == 1 else 1e-4):
            return None
        return ratio * max(amp, 1e-3) + noise

    def do_fake(self, op):
        from pySC.correction import bba
        SC = self.SC
        r = rng_for(self.sc["seed"], op["id"], "pairs")
        pick = [sorted(r.sample(self.pairs, min(op["n_pairs"], len(self.pairs)))) for _ in range(op["rows"])]
        bo, mo = np.array([[p[0] for p in row] for row in pick]), np.array([[p[1] for p in row] for row in pick])
        flags = np.array([[r.random() < .5 for _ in row] for row in pick]) if op["flags"] else None
        given = np.array([r.uniform(1e-5, 1e-4) for _ in range(op["rows"])]) if op["given"] else None
        if flags is None and given is None:
            given = np.full(op["rows"], 5e-5)
        if op["z"] is not None:
            self.sim.begin_op(op["id"], None, rng={"mode": "const", "z": op["z"]})
        before = freeze_machine(SC)
        off0 = {o: np.array(SC.RING[o].Offset, float) for o in self.bpms}
        used = {int(o) for o in bo.ravel()}
        inputs = [bo, mo] + [x for x in (flags, given) if x is not None]
        out = self.guarded("C12", "fake_bba", before, lambda p: p[0] == "RING" and len(p) > 2 and p[1] in used and p[2] == "Offset",
                           lambda: bba.fake_bba(SC, bo, mo, errors=flags, fake_offset=given), inputs)
        if out[0] != "ok":
            self.fail("C12", "fake-failed", f"fake_bba raised {out[0]}: {out[1]}")
            return
        f = np.ones(bo.shape, bool) if flags is None else flags
        want = {}
        for d in range(bo.shape[0]):
            sp = given[d] if given is not None else None
            if sp is None:
                good = [off0[int(b)][d] + SC.RING[int(b)].SupportOffset[d] - SC.RING[int(m)].MagnetOffset[d] - SC.RING[int(m)].SupportOffset[d] for b, m, x in zip(bo[d], mo[d], f[d]) if not x]
                sp = math.sqrt(np.mean(np.square(good))) if good else math.nan
            for b, m, x in zip(bo[d], mo[d], f[d]):
                b, m = int(b), int(m)
                if x and not math.isnan(sp):
                    want[(b, d)] = (SC.RING[m].MagnetOffset[d] + SC.RING[m].SupportOffset[d] - SC.RING[b].SupportOffset[d], sp)
        self.res.nontrivial = True
        for o in self.bpms:
            for d in range(2):
                now = float(SC.RING[o].Offset[d])
                if (o, d) not in want:
                    if now != off0[o][d]:
                        self.fail("C12", "fake-untouched", f"fake_bba changed BPM {o} plane {d}, which it was not asked to (or could not) re-assign, to {now}")
                    continue
                c, sp = want[(o, d)]
                if op["z"] is not None and abs(now - c - op["z"] * sp) > 1e-12 + 1e-9 * abs(now) or abs(now - c) > 2 * sp * (1 + 1e-9) + 1e-14:
                    self.fail("C12", "fake", f"fake_bba gave BPM {o} plane {d} the offset {now}: magnet {c} plus {op['z']} times {sp}, cut at two")
        if len({round((float(SC.RING[o].Offset[d]) - c) / sp, 9) for (o, d), (c, sp) in want.items() if sp > 0}) == 1 and len(want) > 1 and op["z"] is None and all(sp > 0 for _, sp in want.values()):
            self.fail("C12", "fake-draws", "fake_bba used the same random number for all BPMs")
        self.res.state("fake", len(want), op["given"], op["flags"], op["z"])

    # ------------------------------------------------------------------ C13
    def do_scan(self, op):
        from pySC.correction import tune
        SC = self.SC
        g = dict(self.groups)
        g["QF1"], g["QF2"] = self.groups["QF"][::2], self.groups["QF"][1::2]
        fams = [list(g[k]) for k in op["quads"]]
        if not all(fams):
            raise Skip("no family")
        (n1, n2), nt, npart = op["n"], op["nt"] or 3, op["np"] or 1
        if n1 == 1 and op["n_points"] > 5:
            n1 = 3
        grid = [1 + np.linspace(-1, 1, n) * s if n > 1 else np.ones(1) for n, s in zip((n1, n2), op["span"])]
        # working point of the synthetic machine
        SC.INJ.trackMode, SC.INJ.nParticles, SC.INJ.nTurns, SC.INJ.beamLostAt, SC.INJ.nShots = "TBT", npart, nt, op["lost_at"], 1
        seen = []
        nom = {o: float(SC.RING[o].NomPolynomB[1]) for o in fams[0] + fams[1]}
        cal = {o: 1 + float(np.pad(np.array(SC.RING[o].CalErrorB, float), (0, 2))[1]) for o in nom}

        def turns_of(f, npar, nturns):
            dist = math.hypot(*[(f[k] - 1) / op["span"][k] - op["opt"][k] for k in range(2)])
            u = np.array([(h64(op["id"], i) % 997) / 997 for i in range(npar)])
            return np.floor(nturns * np.clip(1.6 - op["sharp"] * dist * (.4 + u), 0, 1.0)).astype(int)

        def track(sim, lattice, r_in, nturns, refpts):
            refs = norm_refs(refpts, len(lattice))
            npar = np.asarray(r_in).reshape(6, -1).shape[1]
            ratios = [[float(lattice[o].PolynomB[1]) / nom[o] / cal[o] for o in fam] for fam in fams]
            f = [float(np.mean(x)) for x in ratios]
            seen.append((f, max(max(x) - min(x) for x in ratios), npar, nturns))
            alive = turns_of([np.round(v, 12) for v in f], npar, nturns)
            out = np.zeros((6, npar, len(refs), nturns))
            for i, a in enumerate(alive):
                out[:, i, :, a:] = np.nan
            return out
        self.sim.synthetic = track
        before = freeze_machine(SC)
        ords = set(fams[0] + fams[1])
        sp0 = {o: np.array(SC.RING[o].SetPointB, float) for o in ords}
        quads = [np.array(x) for x in fams] if op["arr"] else fams
        kw = dict(target=op["target"], n_points=op["n_points"], full_scan=op["full"])
        if op["np"]:
            kw["nParticles"] = op["np"]
        if op["nt"]:
            kw["nTurns"] = op["nt"]
        out = self.guarded("C13", "tune_scan", before, lambda p: p[0] == "RING" and len(p) > 2 and p[1] in ords and p[2] in MAG_FIELDS,
                           lambda: tune.tune_scan(SC, quads, grid, **kw), [np.array(x) for x in grid])
        self.sim.synthetic = None
        if out[0] == "injected":
            return
        lose = op["fault"]["at"] if op.get("fault") and op["fault"]["kind"] == "lose" else None
        # the points visited, as the machine saw them
        pts, turns, trans = [], [], []
        for i, (f, spread, npar, nturns) in enumerate(seen):
            if npar != npart or nturns != nt:
                self.fail("C13", "tracking", f"scan tracked {npar} particles for {nturns} turns instead of {npart} and {nt}")
                return
            if spread > 1e-9:
                self.fail("C13", "family", f"quadrupoles of one family were set to different fractions ({spread})")
                return
            idx = []
            for k in range(2):
                j = int(np.argmin(np.abs(grid[k] - f[k])))
                if abs(grid[k][j] - f[k]) > 1e-9:
                    self.fail("C13", "grid", f"family {k} was set to {f[k]} times its design strength, which is not on the grid")
                    return
                idx.append(j)
            a = turns_of([np.round(v, 12) for v in f], npar, nturns)
            frac = np.array([np.mean(a > t) for t in range(nturns)])
            if lose == i:
                frac = np.zeros(nturns)
            pts.append(tuple(idx))
            trans.append(frac)
            turns.append(int(np.sum(frac > 1 - op["lost_at"])))
        self.res.nontrivial = True
        self.res.stats["scans-compared"] += 1
        centre = tuple((n - 1) // 2 for n in (n1, n2))
        if pts and pts[0] != centre:
            self.fail("C13", "start", f"scan started at {pts[0]} instead of the centre {centre} of the grid")
        # an outward spiral, up to the rounding to the grid
        rad = [max(abs(p[k] - centre[k]) / max(centre[k], 1) for k in range(2)) for p in pts]
        hit = [i for i, x in enumerate(trans) if x[-1] >= op["target"]]
        final = None
        if hit and not op["full"]:
            if len(pts) != hit[0] + 1:
                self.fail("C13", "stop", f"target reached at point {hit[0]} but {len(pts)} points were measured")
                return
            final = {pts[-1]}
        else:
            if len(pts) != op["n_points"]:
                self.fail("C13", "points", f"{len(pts)} points were measured instead of {op['n_points']} ({out[0]})")
                return
            # a point which is visited again counts with its last measurement
            last = {p: (x[-1], n) for p, x, n in zip(pts, trans, turns)}
            best, most = max(x for x, _ in last.values()), max(n for _, n in last.values())
            if most > 0:
                final = {p for p, x in last.items() if (x[0] == best if best > 0 else x[1] == most)}
        if final is None:
            if out[0] != "RuntimeError":
                self.fail("C13", "no-transmission", f"no turn survived at any point but the scan ended with {out[0]}")
            for o in ords:
                if not np.allclose(SC.RING[o].SetPointB, sp0[o], rtol=1e-9, atol=0):
                    self.fail("C13", "restore", f"failed scan left quadrupole {o} at {SC.RING[o].SetPointB} instead of {sp0[o]}")
            self.res.state("scan", "none", len(pts))
            return
        if out[0] != "ok":
            self.fail("C13", "failed", f"tune_scan raised {out[0]}: {out[1]} although {max(turns)} turns were reached")
            return
        _, setp, mt, tr = out[1]
        got = tuple(int(np.argmin(np.abs(grid[k] - setp[k]))) for k in range(2))
        if got not in final or any(abs(grid[k][got[k]] - setp[k]) > 1e-12 for k in range(2)):
            self.fail("C13", "best", f"scan chose {setp} (point {got}), the best points were {sorted(final)[:4]}")
        for k in range(2):
            for o in fams[k]:
                now = np.array(SC.RING[o].SetPointB, float)
                want = sp0[o].copy()
                want[1] = nom[o] * setp[k]
                if not np.allclose(now, want, rtol=1e-9, atol=1e-12):
                    self.fail("C13", "applied", f"quadrupole {o} ends at {now}, chosen was {want}")
        mt, tr = np.asarray(mt, float), np.asarray(tr, float)
        if mt.shape != (n1, n2) or tr.shape != (n1, n2, nt):
            self.fail("C13", "shape", f"results have shapes {mt.shape} and {tr.shape}")
            return
        ref_mt, ref_tr = np.full((n1, n2), np.nan), np.full((n1, n2, nt), np.nan)
        for p, a, b in zip(pts, turns, trans):
            ref_mt[p], ref_tr[p] = a, b
        if not np.array_equal(mt, ref_mt, equal_nan=True) or not np.allclose(tr, ref_tr, atol=1e-12, rtol=0, equal_nan=True):
            self.fail("C13", "records", f"returned transmissions differ from those measured (or unvisited points are filled): {np.argwhere(~((mt == ref_mt) | np.isnan(mt) & np.isnan(ref_mt)))[:3].tolist()}")
        self.res.state("scan", n1, n2, op["n_points"], op["full"], bool(hit), len(pts), round(max(x[-1] for x in trans), 1), bool(op.get("fault")))

    # ------------------------------------------------------------------ C22
    def do_chroma(self, op):
        from pySC.correction import chroma
        SC = self.SC
        self.sim.synthetic = None
        fams = [list(self.groups[k[:2]])[{"1": slice(0, None, 2), "2": slice(1, None, 2)}.get(k[2:], slice(None))] for k in op["fams"]]
        nf = len(fams)
        r = rng_for(self.sc["seed"], op["id"], "chroma")
        for fam in fams:
            for o in fam:
                if op["spread"]:
                    SC.set_magnet_setpoints(o, 1 + op["spread"] * r.uniform(-1, 1), False, 2, method="rel")
        get = type(SC.RING).get_chrom

        def chrom():
            return np.array(get(SC.RING)[0:2], float)
        ideal = np.array(get(SC.IDEALRING.deepcopy())[0:2], float)
        start = chrom()
        # linear response of the chromaticities to the two families
        resp = np.zeros((2, nf))
        sp0 = {o: np.array(SC.RING[o].SetPointB, float) for fam in fams for o in fam}
        for k in range(nf):
            for o in fams[k]:
                SC.set_magnet_setpoints(o, 1.0, False, 2, method="add")
            resp[:, k] = chrom() - start
            for o in fams[k]:
                SC.set_magnet_setpoints(o, sp0[o][2], False, 2, method="abs")
        if not np.all(np.isfinite(start)) or not np.all(np.isfinite(resp)):
            raise Skip("unstable optics")
        target = ideal
        arg = None
        if op["target"] == "near":
            target = arg = start + np.array([r.uniform(-2, 2), r.uniform(-2, 2)])
        elif op["target"] == "nan":
            arg = np.array([1.0, np.nan])
        before = freeze_machine(SC)
        kw = {}
        if op["step"] or nf > 2:
            kw["init_step_size"] = np.full(nf, op["step"] or 2.0)
        ords = set(sp0)
        out = self.guarded("C22", "fit_chroma", before, lambda p: arg is not None and op["target"] != "nan" and False or op["target"] != "nan" and p[0] == "RING" and len(p) > 2 and p[1] in ords and p[2] in MAG_FIELDS,
                           lambda: self.quiet(lambda: chroma.fit_chroma(SC, [np.array(f) for f in fams], arg, **kw)), [x for x in (arg,) if x is not None])
        if out[0] != "ok":
            self.fail("C22", "failed", f"fit_chroma raised {out[0]}: {out[1]}")
            return
        self.res.nontrivial = True
        delta = []
        for fam in fams:
            ch = [np.array(SC.RING[o].SetPointB, float) - sp0[o] for o in fam]
            for o, c in zip(fam, ch):
                if np.any(np.abs(np.delete(c, 2)) > 1e-12):
                    self.fail("C22", "other-component", f"fit_chroma changed other setpoints of sextupole {o}: {c}")
            d = [c[2] for c in ch]
            delta.append(d[0])
            if max(d) - min(d) > 1e-9 * (1 + abs(d[0])):
                self.fail("C22", "family", f"fit_chroma changed the sextupoles of one family by different amounts {d}")
        if op["target"] == "nan":
            self.res.stats["chroma-nan"] += 1
            return
        merit0, merit = (float(np.sqrt(np.mean((x - target) ** 2))) for x in (start, chrom()))
        lin = np.linalg.svd(resp, compute_uv=False)
        guess = kw.get("init_step_size", np.array([2.0, 2.0]))
        merit_g = float(np.sqrt(np.mean((start + resp @ guess - target) ** 2)))
        self.res.stats["chroma-compared"] += 1
        if not merit <= max(min(merit0, merit_g), 1e-2) * (1 + 1e-6) + 1e-2:
            self.fail("C22", "chroma", f"fit_chroma ends with chromaticities {chrom()} at a distance of {merit:.4f} from the target {target}, before the fit {merit0:.4f}")
        elif lin[-1] > .02 * lin[0] and lin[-1] > .01 and merit > 5e-3 * max(1.0, 1e-3 / lin[-1] * 10):
            self.fail("C22", "chroma", f"fit_chroma ends with chromaticities {chrom()} at a distance of {merit:.4f} from the reachable target {target}")
        self.res.state("chroma", op["target"], tuple(op["fams"]), bool(op["spread"]), op["step"], len(sp0), round(math.log10(max(merit, 1e-9))), round(math.log10(max(merit0, 1e-9))))

    def quiet(self, fn):
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()

    def readings(self, nt):
        """mean over the shots of what the BPMs read, from the tracked positions"""
        out = []
        for x in self.records:
            y = x.copy()
            for i, o in enumerate(self.bpms):
                for d in range(2):
                    y[d, i] = (y[d, i] - self.bpm_off[o][d] - float(self.SC.RING[o].SupportOffset[d])) * (1 + self.bpm_cal[o][d])
            out.append(np.concatenate([y[:, :, t] for t in range(nt)], axis=1))
        ok = np.array(out)
        return np.nanmean(ok, axis=0) if len(ok) else None

    def do_drift(self, op):
        from pySC.correction import injection_fit
        SC = self.SC
        r = rng_for(self.sc["seed"], op["id"], "drift")
        self.set_mode("TBT", op["nt"])
        SC.INJ.nShots = self.sc["nshots"]
        SC.INJ.Z0 = np.array(op["z"] + [0.0, 0.0])
        # any trajectory, the fit only looks at two BPMs
        g = np.random.Generator(np.random.PCG64(r.randrange(1 << 40)))
        amp = np.array([1e-3, 0, 1e-3, 0, 0, 0])

        def track(sim, lattice, r_in, nturns, refpts):
            refs = norm_refs(refpts, len(lattice))
            out = g.uniform(-1, 1, (6, 1, len(refs), nturns)) * amp[:, None, None, None]
            if op["lose"]:
                out[:, :, :, 1:] = np.nan
            return out
        self.sim.synthetic = track
        before = freeze_machine(SC)
        kw = {}
        if op["plane"]:
            kw["n_dims"] = np.array(op["plane"])
        if op["plot"]:
            kw["plot"] = True
        self.records.clear()
        out = self.guarded("C22", "fit_injection_drift", before, lambda p: False, lambda: injection_fit.fit_injection_drift(SC, **kw), [])
        self.sim.synthetic = None
        if op["plot"]:
            import matplotlib.pyplot as plt
            plt.close("all")
        if out[0] == "injected":
            return
        b = self.readings(op["nt"])
        n = len(self.bpms)
        pair = b[:, [n - 1, n]] if b is not None else None
        self.res.nontrivial = True
        if pair is None or np.isnan(pair).any():
            if out[0] == "ok":
                self.fail("C22", "drift-lost", f"fit_injection_drift returned {out[1]} without beam at the BPMs it uses")
            return
        if out[0] != "ok":
            self.fail("C22", "failed", f"fit_injection_drift raised {out[0]}: {out[1]}")
            return
        length = np.array([float(getattr(e, "Length", 0.0)) for e in self.ring])
        s = np.concatenate(([0.0], np.cumsum(length)))
        s1, s2 = s[self.bpms[-1]] - s[-1], s[self.bpms[0]]
        want = np.zeros(6)
        for d in range(2):
            slope = (pair[d, 1] - pair[d, 0]) / (s2 - s1)
            want[2 * d], want[2 * d + 1] = -(pair[d, 0] - slope * s1), -slope
        got = np.asarray(out[1], float)
        self.res.stats["drift-compared"] += 1
        if got.shape != (6,) or np.max(np.abs(got - want)) > 1e-9 * max(1, np.max(np.abs(want))):
            self.fail("C22", "drift", f"fit_injection_drift returns {got}, the straight line through the last and first BPM gives {want}")
        self.res.state("drift", op["nt"], self.sc["nshots"], op["lose"], bool(op.get("fault")), op["plane"], op["plot"], len(self.bpms), bool(self.sc["bpm_cal"]), self.sc["bpm_off"])

    def do_traj(self, op):
        from pySC.correction import injection_fit
        SC = self.SC
        self.sim.synthetic = None
        self.set_mode("TBT", op["nt"])
        SC.INJ.nShots = 1
        SC.INJ.Z0 = np.array(op["z"] + [0.0, 0.0])
        z0 = SC.INJ.Z0.copy()
        inds = np.array(op["inds"] or [0, 1, 2])
        if max(inds) >= len(self.bpms):
            raise Skip("not enough BPMs")
        kw = {"bpm_inds": inds} if op["inds"] else {}
        before = freeze_machine(SC)
        self.records.clear()
        raised = self.scan_raise(op)
        out = self.guarded("C22", "fit_injection_trajectory", before, lambda p: p[:2] == ("INJ", "Z0") or raised(),
                           lambda: self.quiet(lambda: injection_fit.fit_injection_trajectory(SC, **kw)), [inds])
        if out[0] == "injected":
            if not np.array_equal(SC.INJ.Z0, z0):
                self.fail("C22", "trajectory-failed", f"a failed fit_injection_trajectory changed the injection from {z0} to {SC.INJ.Z0}")
            return
        first = self.records[0]
        y = np.array([[(first[d, i, 0] - self.bpm_off[o][d] - float(SC.RING[o].SupportOffset[d])) * (1 + self.bpm_cal[o][d]) for i, o in enumerate(self.bpms)] for d in range(2)])[:, inds] if first.shape[1] == len(self.bpms) else None
        if y is None:
            raise Skip("unknown reading")
        self.res.nontrivial = True
        if np.isnan(y).any() or op.get("fault"):
            if out[0] == "ok" and not np.all(np.isfinite(SC.INJ.Z0)):
                self.fail("C22", "trajectory-lost", f"fit_injection_trajectory set the injection to {SC.INJ.Z0}")
            return
        if out[0] != "ok":
            self.fail("C22", "failed", f"fit_injection_trajectory raised {out[0]}: {out[1]}")
            return
        delta = np.asarray(out[1], float)
        if delta.shape != (6,) or np.any(delta[4:]) or not np.allclose(SC.INJ.Z0, z0 + delta, rtol=1e-9, atol=1e-12):
            self.fail("C22", "trajectory-applied", f"injection was {z0}, the correction {delta}, it is now {SC.INJ.Z0}")
            return

        def merit(x):
            t = real("lattice_track")(SC.IDEALRING.deepcopy(), np.concatenate((x, [0, 0]))[:, None].copy(), 1, np.array(self.bpms)[inds], keep_lattice=False)[0][[0, 2], 0, :, 0]
            return float(np.sqrt(np.mean((y - t) ** 2)))
        m0, m1 = merit(np.zeros(4)), merit(-delta[:4])
        self.res.stats["trajectory-compared"] += 1
        if not m1 <= m0 * (1 + 1e-9) or not m1 <= max(.5 * m0, 3e-4) + self.sc["bpm_off"] + 1e-3 * self.sc["bpm_cal"]:
            self.fail("C22", "trajectory", f"the fitted injection misses the readings by {m1:.2e} rms, no correction by {m0:.2e}")
        self.res.state("traj", tuple(int(i) for i in inds), op["nt"], bool(op.get("fault")), len(self.bpms), bool(self.sc["bpm_cal"]), self.sc["bpm_off"], round(math.log10(max(m1, 1e-12))))


STATISTICAL = ("C12/centre", "C12/not-significant")


def execute(scenario, prop):
    """A BPM at the phase of the magnet has no response and passes the code's 2-sigma gate now and then; its random
    centre may enter the average.  A statistical disagreement therefore counts only if other noise gives it as well."""
    pristine = copy.deepcopy(scenario)
    res = attempt(scenario, prop)
    for label in ("again", "once more"):
        kinds = {v["kind"] for v in res.violations}
        if not kinds & set(STATISTICAL):
            break
        other = {(v["kind"], v.get("op")) for v in attempt(dict(copy.deepcopy(pristine), rng=dict(pristine["rng"], label=label)), prop).violations}
        res.violations = [v for v in res.violations if v["kind"] not in STATISTICAL or (v["kind"], v.get("op")) in other]
    return res


def attempt(scenario, prop):
    remember_real()
    res = Result()
    sim = Sim(scenario, res, max_track=20000)
    pool = PoolWorld(scenario.get("pool"), res.fired)
    with np.errstate(all="ignore"), installed(sim, pool):
        FitWorld(scenario, prop, sim).run()
    return res
