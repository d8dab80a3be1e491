"""World W5: work that is spread over processes (LOCO Jacobian, multi-particle transmission) and the LOCO fits.

Everything runs on the real tracking code; the pool is simulated: which worker takes which chunk in which order is the
scenario's decision, arguments and results are pickled, workers may fail.
"""
import math

import numpy as np

from dst import refrings
from dst.base import InjectedFault, Result, Skip, freeze_machine, rng_for
from dst.fitworld import FitWorld
from dst.machines import gen_spec
from dst.plant import gen_plant
from dst.seams import Sim, installed, real, remember_real
from dst.simpool import PoolWorld

SCHEDULES = ("random", "reverse", "single", "random")


def generate(config, r, seed):
    spec = gen_spec(r, size=r.choice([2, 2, 3]))
    sc = dict(seed=seed, config=config, ring=spec, plant=gen_plant(r), rng={"mode": "stream"}, pool={"ncpu": 1, "seed": 1, "schedule": "single"},
              hcm=["QF"], vcm=["QF"], limit=1e-3, cal=0.0, bpm_cal=0.0, bpm_off=r.choice([0.0, 1e-4]), drop_bpm=False, start=0.0, noise=0.0,
              qcal=r.choice([0.0, .01]), q_start=r.choice([0.0, .005]), mag_off=r.choice([0.0, 2e-5]), ops=[])
    ops = sc["ops"]

    def pool(n):
        p = dict(ncpu=r.choice([1, 2, 3, 5, 8]), seed=r.randrange(1 << 30), schedule=r.choice(SCHEDULES))
        if r.random() < .12:
            p["fail_task"] = r.randrange(n)
        return p

    def add(op, **kw):
        ops.append(dict(id=len(ops) + 1, op=op, **kw))

    if config == "loco":
        sc["dipoles"] = bool(spec["cf"]) and r.random() < .6
    for _ in range(r.randint(1, 2)):
        if config == "loco" and r.random() < .3:
            add("apply", n=r.randint(1, 6), skew=r.random() < .3, order=r.choice([1, 1, 1, 2]), method=r.choice(["add", "add", "abs", "rel"]), comp=r.choice([None, True, True, False]), beat=r.random() < .35,
                fams=r.random() < .6, size=r.choice([1e-3, 1e-2]))
        elif config == "loco":
            inc = r.choice([["quads"], ["quads"], ["quads", "cor"], ["cor"], ["bpm"], ["quads", "bpm"]])
            add("locofit", nq=r.randint(1, 4), nb=r.randint(2, 5), nc=[r.randint(1, 3), r.randint(1, 3)], inc=inc, how=r.choice(["lm", "ng", "ng"]), mode=r.choice(["ORB", "TBT"]),
                weights=r.choice(["one", "eye", "diag"]), guess=r.choice([0.0, 1e-6, 1e-3]), size=r.choice([1e-4, 1e-2]), noise=r.choice([0.0, 0.0, .1, .5]), fams=r.random() < .4, apply=r.choice(["add", "add", "rel"]))
        elif r.random() < .55:
            nq = r.randint(1, 6)
            add("jac", nq=nq, nb=r.randint(1, 4), nc=[r.randint(0, 2), r.randint(1, 2)], mode=r.choice(["ORB", "ORB", "TBT"]), dk=r.choice([1e-2, 1e-3]), skew=r.random() < .25, method=r.choice(["add", "add", "add", "abs", "rel"]), clip=r.choice([0, 0, .4]),
                disp=r.random() < .3, full=r.random() < .6, pool=pool(nq), sub=r.random() < .5)
        else:
            npart = r.choice([1, 2, 3, 7, 20, 50])
            add("trans", np=npart, nt=r.choice([1, 3, 10]), size=r.choice([1e-3, 1e-2, 2e-2]), pool=pool(max(1, min(npart, 3))), lost_at=r.choice([1, .5]), explicit=r.random() < .5)
    return sc


class ParWorld(FitWorld):
    def __init__(self, scenario, prop, sim, pool):
        super().__init__(scenario, prop, sim)
        self.pool = pool

    def setup(self):
        super().setup()
        self.mags = sorted(int(o) for o in self.SC.ORD.Magnet)
        self.cavs = list(self.groups["CAV"])
        if self.sc.get("dipoles"):
            self.SC.register_magnets(np.array(self.groups["B"]), CF=True, HCM=self.sc["limit"])

    def use_pool(self, cfg):
        p = self.pool
        p.ncpu, p.schedule, p.seed, p.fail_task, p._k = cfg["ncpu"], cfg["schedule"], cfg["seed"], cfg.get("fail_task"), 0
        p.log.clear()

    def choose(self, op, what):
        r = rng_for(self.sc["seed"], op["id"], what)
        quads = self.groups["QF"] + self.groups["QD"]
        q = r.sample(quads, min(op["nq"], len(quads)))
        b = sorted(r.sample(self.bpms, min(op["nb"], len(self.bpms))))
        cms = [sorted(r.sample(self.groups["QF"] + self.groups["SF"], min(n, len(self.groups["QF"])))) for n in op["nc"]]
        return r, q, b, cms

    # ------------------------------------------------------------------ C14
    def do_jac(self, op):
        from pySC.correction import loco
        from pySC.lattice_properties.response_model import SCgetModelRM
        SC = self.SC
        _, q, b, cms = self.choose(op, "jac")
        bo, co, qo = np.array(b), [np.array(x, dtype=int) for x in cms], np.array(q)
        method, field, sp = op.get("method", "add"), "PolynomA" if op["skew"] else "PolynomB", "SetPointA" if op["skew"] else "SetPointB"
        if op["skew"] and op.get("clip"):       # some skew quadrupoles reach their limit within the step
            for o in q[::2]:
                SC.RING[o].SkewQuadLimit = abs(float(SC.RING[o].SetPointA[1])) + op["clip"] * op["dk"]
        dkick, dk = 1e-5, op["dk"]
        model = SCgetModelRM(SC, bo, co, trackMode=op["mode"], useIdealRing=False, dkick=dkick)
        if np.isnan(model).any():
            raise Skip("no closed orbit")
        disp = op["disp"] and op["mode"] == "ORB"
        full = op["full"] and not disp
        dk = {"add": dk, "rel": 1 + dk}.get(method, dk)
        if method == "abs" and not op["skew"]:  # an absolute value must leave a lattice with an orbit
            dk = float(SC.RING[q[0]].SetPointB[1]) + op["dk"]
        kw = dict(trackMode=op["mode"], useIdealRing=False, skewness=op["skew"], includeDispersion=disp, full_jacobian=full)
        if "method" in op and method != "add":
            kw["method"] = method
        if disp:
            cv = self.cavs if not op["sub"] else self.cavs[:1]
            kw.update(cav_ords=np.array(cv), rf_step=1e3)
        before = freeze_machine(SC)
        self.use_pool(op["pool"])
        out = self.guarded("C14", "calculate_jacobian", before, lambda p: False, lambda: loco.calculate_jacobian(SC, model, dkick, co, bo, qo, dk, **kw), [model, bo, qo] + co)
        order = list(self.pool.log)
        if self.pool.fail_task is None and "fail_task" in op["pool"]:
            if out[0] != "injected":
                self.fail("C14", "worker-failure", f"a worker failed but calculate_jacobian ended with {out[0]}")
            self.use_pool(dict(ncpu=1, schedule="single", seed=0))
            self.res.state("jac-failed", len(q), op["pool"]["ncpu"])
            return
        if out[0] != "ok":
            self.fail("C14", "failed", f"calculate_jacobian raised {out[0]}: {out[1]}")
            return
        got = np.asarray(out[1], float)
        nb2, nc = model.shape
        want_shape = (len(q) + (nc + nb2 if full else 0), nb2, nc + (1 if disp else 0))
        if got.shape != want_shape:
            self.fail("C14", "shape", f"Jacobian has shape {got.shape} instead of {want_shape}")
            return
        # one magnet at a time, in this process
        self.use_pool(dict(ncpu=1, schedule="single", seed=0))
        kw1 = dict(kw, full_jacobian=False)
        self.res.nontrivial = True
        scale = float(np.nanmax(np.abs(got[:len(q)]))) or 1.0
        for i, o in enumerate(q):
            one = np.asarray(loco.calculate_jacobian(SC, model, dkick, co, bo, np.array([o]), dk, **kw1), float)[0]
            if not np.allclose(one, got[i], rtol=1e-7, atol=1e-7 * scale, equal_nan=True):
                self.fail("C14", "schedule", f"response to magnet {o} (entry {i}) depends on the other magnets or on the schedule: {np.nanmax(np.abs(one - got[i]))} of {scale}, order {order[:8]}")
        # what it should be
        base, _ = refrings.response(refrings.model_ring(self, False), "rm", dict(mode=op["mode"], nt=1, dkick=dkick), b, np.zeros(6), cms[0], cms[1], [])
        if disp:
            d0, _ = refrings.response(refrings.model_ring(self, False), "disp", dict(mode="ORB", step=1e3), b, np.zeros(6), [], [], cv)
        for i, o in enumerate(q):
            def ring():
                rg = refrings.model_ring(self, False)
                f = "PolynomA" if op["skew"] else "PolynomB"
                p = np.array(getattr(rg[o], f), float)
                p[1] += dk
                setattr(rg[o], f, p)
                return rg
            resp, _ = refrings.response(ring(), "rm", dict(mode=op["mode"], nt=1, dkick=dkick), b, np.zeros(6), cms[0], cms[1], [])
            want = (resp - base) / dk
            if np.isnan(want).any() or np.isnan(base).any():
                continue
            if method != "add" or abs(float(getattr(SC.RING[o], sp)[1]) + dk) > getattr(SC.RING[o], "SkewQuadLimit", np.inf):
                continue          # not a derivative
            if np.max(np.abs(want - got[i][:, :nc])) > 1e-3 * scale + 1e-6 / dk:
                self.fail("C14", "derivative", f"entry {i} of the Jacobian is not the response to magnet {o}: off by {np.max(np.abs(want - got[i][:, :nc]))} of {scale}")
            if disp:
                d1, _ = refrings.response(ring(), "disp", dict(mode="ORB", step=1e3), b, np.zeros(6), [], [], cv)
                want = (d1 - d0) / dk
                if np.max(np.abs(want - got[i][:, nc])) > 1e-3 * np.max(np.abs(want)) + 1e-9:
                    self.fail("C14", "derivative", f"dispersion column {i} of the Jacobian is off by {np.max(np.abs(want - got[i][:, nc]))} of {np.max(np.abs(want))}")
        if full:
            for i in range(nc):
                w = np.zeros_like(model)
                w[:, i] = model[:, i]
                if not np.allclose(got[len(q) + i], w, rtol=1e-12, atol=0):
                    self.fail("C14", "corrector-block", f"Jacobian of corrector {i} is not its column of the model")
            for i in range(nb2):
                w = np.zeros_like(model)
                w[i] = model[i]
                if not np.allclose(got[len(q) + nc + i], w, rtol=1e-12, atol=0):
                    self.fail("C14", "bpm-block", f"Jacobian of BPM reading {i} is not its row of the model")
        self.res.stats["jacobians-compared"] += 1
        self.res.state("jac", len(q), op["mode"], op["skew"], method, op.get("clip"), disp, full, op["pool"]["ncpu"], tuple(c for c, _ in order), tuple(w for _, w in order))

    def do_trans(self, op):
        from pySC.core.beam import beam_transmission
        SC = self.SC
        self.set_mode("TBT", op["nt"])
        s = op["size"]
        SC.INJ.Z0 = np.zeros(6)
        SC.INJ.beamSize = np.diag([s, s / 10, s, s / 10, 1e-4, 1e-4]) ** 2
        SC.INJ.randomInjectionZ = np.array([1e-4, 1e-5, 1e-4, 1e-5, 1e-4, 1e-4])
        SC.INJ.beamLostAt = op["lost_at"]
        kw = {}
        if op["explicit"]:
            kw = dict(nParticles=op["np"], nTurns=op["nt"])
        else:
            SC.INJ.nParticles = op["np"]
        got = []
        self.sim.on_track = lambda r_in, nt, refs, out: got.append((r_in, nt, np.array(out)))
        before = freeze_machine(SC)
        results = []
        for cfg in (op["pool"], dict(ncpu=1, schedule="single", seed=0)):
            self.use_pool(cfg)
            self.sim.begin_op(op["id"])
            got.clear()
            out = self.guarded("C14", "beam_transmission", before, lambda p: False, lambda: beam_transmission(SC, **kw), [])
            failed = "fail_task" in cfg and self.pool.fail_task is None
            if failed:
                if out[0] != "injected":
                    self.fail("C14", "worker-failure", f"a worker failed but beam_transmission ended with {out[0]}")
                self.res.state("trans-failed", op["np"], cfg["ncpu"])
                continue
            if out[0] != "ok":
                self.fail("C14", "failed", f"beam_transmission raised {out[0]}: {out[1]}")
                return
            if len(got) != 1:
                raise Skip("tracked more than once")
            r_in, nt, _ = got[0]
            if np.reshape(r_in, (6, -1)).shape[1] != op["np"] or nt != op["nt"]:
                self.fail("C14", "tracking", f"{np.shape(r_in)} coordinates were tracked for {nt} turns instead of {op['np']} for {op['nt']}")
                return
            t = real("lattice_track")(SC.RING.deepcopy(), np.array(r_in, order="F"), nt, np.array([len(SC.RING)]), keep_lattice=False, in_place=False)[0]
            frac = np.array([np.mean(~np.isnan(t[0, :, 0, k])) for k in range(nt)])
            turns = int(np.sum(frac > 1 - op["lost_at"]))
            self.res.nontrivial = True
            self.res.stats["transmissions-compared"] += 1
            if not np.allclose(np.ravel(out[1][1]), frac, atol=1e-12, rtol=0) or out[1][0] != turns:
                self.fail("C14", "transmission", f"transmission with {cfg['ncpu']} workers is {out[1]}, the same particles one by one give {turns}, {frac}")
            results.append((out[1][0], np.ravel(out[1][1]).tolist()))
            self.res.state("trans", op["np"], nt, cfg["ncpu"], tuple(self.pool.log), round(float(frac[-1]), 1))
        if len(results) == 2 and results[0] != results[1]:
            self.fail("C14", "schedule", f"transmission depends on the number of workers: {results}")

    # ------------------------------------------------------------------ C23
    def do_locofit(self, op):
        from pySC.correction import loco
        from pySC.lattice_properties.response_model import SCgetModelRM
        SC = self.SC
        r, q, b, cms = self.choose(op, "loco")
        g = np.random.Generator(np.random.PCG64(r.randrange(1 << 40)))
        bo, co, qo = np.array(b), [np.array(x, dtype=int) for x in cms], np.array(q)
        model = SCgetModelRM(SC, bo, co, trackMode=op["mode"], useIdealRing=False, dkick=1e-5)
        if np.isnan(model).any():
            raise Skip("no closed orbit")
        self.use_pool(dict(ncpu=3, schedule="random", seed=op["id"]))
        J = np.asarray(loco.calculate_jacobian(SC, model, 1e-5, co, bo, qo, 1e-3, trackMode=op["mode"], useIdealRing=False), float)
        lengths = [len(q), model.shape[1], model.shape[0]]
        mask = np.concatenate([np.full(n, k in op["inc"]) for k, n in zip(("quads", "cor", "bpm"), lengths)])
        p = g.uniform(-1, 1, len(mask)) * op["size"] * mask
        measured = model + np.einsum("ijk,i->jk", J, p)
        guess = np.full(len(mask), op["guess"])
        w = {"one": 1, "eye": np.eye(lengths[2]), "diag": np.diag(g.uniform(.3, 3, lengths[2]))}[op["weights"]]
        W = np.eye(lengths[2]) if op["weights"] == "one" else w
        Jm = J[mask]
        before = freeze_machine(SC)
        inputs = [guess, model, measured, J] + ([w] if op["weights"] != "one" else [])
        if op["how"] == "lm":
            s = np.linalg.svd((np.sqrt(W) @ Jm.transpose(1, 0, 2).reshape(lengths[2], -1)).reshape(lengths[2], len(Jm), -1).transpose(1, 0, 2).reshape(len(Jm), -1), compute_uv=False)
            if len(s) < len(Jm) or s[-1] < max(1e-3 * s[0], 1e-4) or model.size < len(Jm):
                raise Skip("not determined")
            want = p[mask]
            if op.get("noise"):            # data no parameters can explain: the best ones in the sense of the weights
                extra = g.standard_normal(model.shape) * op["noise"] * float(np.max(np.abs(measured - model)))
                measured = measured + extra
                sw = np.sqrt(np.diag(W))[:, None]
                want = want + np.linalg.lstsq((sw * Jm).reshape(len(Jm), -1).T, (sw * extra).ravel(), rcond=None)[0]
                inputs[2] = measured
                self.res.stats["noisy-fits"] += 1
            out = self.guarded("C23", "loco_correction_lm", before, lambda x: False,
                               lambda: self.quiet(lambda: loco.loco_correction_lm(guess, model, measured, J, lengths, op["inc"], weights=w, verbose=0)), inputs)
        else:
            S = Jm.sum(axis=2)
            s = np.linalg.svd(S @ W @ S.T, compute_uv=False)
            if len(s) < len(Jm) or s[-1] < max(1e-6 * s[0], 1e-6):
                raise Skip("not determined")
            out = self.guarded("C23", "loco_correction_ng", before, lambda x: False,
                               lambda: loco.loco_correction_ng(guess, model, measured, J, lengths, op["inc"], len(Jm), weights=w), inputs)
            want = p[mask] - guess[mask]
        if out[0] != "ok":
            self.fail("C23", "failed", f"LOCO {op['how']} raised {out[0]}: {out[1]}")
            return
        got = np.asarray(out[1], float)
        self.res.nontrivial = True
        self.res.stats["fits-compared"] += 1
        if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-4 * max(np.max(np.abs(want)), op["size"]) + 1e-9:
            self.fail("C23", "fit", f"LOCO {op['how']} of {op['inc']} finds {got[:6]}, the deviations in the data are {want[:6]}")
            return
        self.res.state("loco", op["how"], tuple(op["inc"]), lengths[0], lengths[1], lengths[2], op["weights"], op["guess"], op["size"])
        if "quads" not in op["inc"]:
            return
        dq = got[:len(q)]
        sp0 = {o: np.array(SC.RING[o].SetPointB, float) for o in q}
        ords = set(q)
        allowed = lambda x: x[0] == "RING" and len(x) > 2 and x[1] in ords and x[2] in ("SetPointB", "PolynomB")
        before = freeze_machine(SC)
        if op["fams"]:
            k = r.randint(1, len(q))
            fam = [qo[:k], qo[k:]] if k < len(q) else [qo]
            val = dq[:len(fam)]
            out = self.guarded("C23", "set_correction", before, allowed, lambda: loco.set_correction(SC, val, fam, individuals=False), [val] + fam)
            change = {o: -val[i] for i, f in enumerate(fam) for o in f}
        else:
            val = dq
            out = self.guarded("C23", "set_correction", before, allowed, lambda: loco.set_correction(SC, val, qo), [val, qo])
            change = {o: -v for o, v in zip(q, val)}
        if out[0] != "ok":
            self.fail("C23", "failed", f"set_correction raised {out[0]}: {out[1]}")
            return
        for o in q:
            x = sp0[o].copy()
            x[1] += change[o]
            if not np.allclose(SC.RING[o].SetPointB, x, rtol=1e-9, atol=1e-14):
                self.fail("C23", "applied", f"set_correction left quadrupole {o} at {SC.RING[o].SetPointB} instead of {x}")
        self.res.state("loco-applied", op["how"], tuple(op["inc"]), lengths[0], op["fams"])


    def check_beat(self, op, r):
        """rms beta beat of a lattice relative to given optics"""
        import at
        from pySC.correction import loco
        SC = self.SC
        refs = np.array(sorted(r.sample(range(len(SC.RING)), r.randint(1, 6))))
        try:
            with np.errstate(all="ignore"):
                design = at.get_optics(SC.IDEALRING.deepcopy(), refs)[2]
                own = np.asarray(at.get_optics(SC.RING.deepcopy(), range(len(SC.RING) + 1))[2].beta)[refs]
        except Exception:
            raise Skip("no optics")
        if not (np.isfinite(own).all() and np.isfinite(design.beta).all()):
            raise Skip("no optics")
        d0 = np.array(design.beta)
        before = freeze_machine(SC)
        out = self.guarded("C23", "model_beta_beat", before, lambda x: False, lambda: loco.model_beta_beat(SC.RING, design, refs), [refs])
        if out[0] != "ok":
            self.fail("C23", "failed", f"model_beta_beat raised {out[0]}: {out[1]}")
            return
        want = [math.sqrt(sum((own[i][d] / d0[i][d] - 1) ** 2 for i in range(len(refs))) / len(refs)) for d in range(2)]
        self.res.stats["beta-beats"] += 1
        if not np.allclose(out[1], want, rtol=1e-6, atol=1e-9):
            self.fail("C23", "beta-beat", f"beta beat at {refs.tolist()} is {out[1]}, the optics of the machine give {want}")

    def do_apply(self, op):
        from pySC.correction import loco
        SC = self.SC
        r = rng_for(self.sc["seed"], op["id"], "apply")
        dip = set(self.groups["B"]) if self.sc.get("dipoles") else set()
        pool = self.groups["QF"] + self.groups["QD"] + sorted(dip) * 2
        if op["order"] == 2 and not op["skew"]:
            pool = self.groups["SF"] + self.groups["SD"]
        ords = sorted(set(r.sample(pool, min(op["n"], len(pool)))))
        r.shuffle(ords)
        cuts = sorted(r.sample(range(1, len(ords)), r.randint(0, len(ords) - 1))) if op["fams"] else list(range(1, len(ords)))
        fams = [ords[a:b] for a, b in zip([0] + cuts, cuts + [len(ords)])]
        field, o1 = "SetPointA" if op["skew"] else "SetPointB", op["order"]
        for o in ords:
            if len(SC.RING[o].SetPointA) <= o1:
                raise Skip("no such order")
        base = {"rel": -1.0, "abs": 0.0 if op["skew"] or o1 == 2 else -1.0, "add": 0.0}[op["method"]]
        val = np.array([base + r.uniform(-1, 1) * op["size"] for _ in fams])
        want = {}
        for v, fam in zip(val, fams):
            for o in fam:
                e = SC.RING[o]
                sp = {f: np.array(getattr(e, f), float) for f in ("SetPointA", "SetPointB")}
                nom = float((e.NomPolynomA if op["skew"] else e.NomPolynomB)[o1])
                new = {"add": sp[field][o1] - v, "abs": -v, "rel": -v * nom}[op["method"]]
                if o in dip and op["comp"] is not False and not op["skew"] and o1 == 1:
                    kick = -sp["SetPointB"][0] * float(e.Length) + (new - sp["SetPointB"][1]) / float(e.NomPolynomB[1]) * float(e.BendingAngle)
                    if abs(kick) > .9 * self.sc["limit"]:
                        raise Skip("corrector limit")
                    sp["SetPointB"][0] = -kick / float(e.Length)
                sp[field][o1] = new
                want[o] = sp
        kw = dict(skewness=op["skew"], order=o1, method=op["method"])
        if op["comp"] is not None:
            kw["dipole_compensation"] = op["comp"]
        before = freeze_machine(SC)
        all_ords = set(ords)
        allowed = lambda x: x[0] == "RING" and len(x) > 2 and x[1] in all_ords and x[2] in ("SetPointA", "SetPointB", "PolynomA", "PolynomB")
        arg = [np.array(f) for f in fams] if op["fams"] else np.array(ords)
        inputs = [val] + (arg if op["fams"] else [arg])
        out = self.guarded("C23", "set_correction", before, allowed, lambda: loco.set_correction(SC, val, arg, individuals=not op["fams"], **kw), inputs)
        if out[0] != "ok":
            self.fail("C23", "failed", f"set_correction raised {out[0]}: {out[1]}")
            return
        self.res.nontrivial = True
        self.res.stats["corrections-applied"] += 1
        for o, sp in want.items():
            for f, x in sp.items():
                if not np.allclose(getattr(SC.RING[o], f), x, rtol=1e-9, atol=1e-13):
                    self.fail("C23", "applied", f"set_correction({val}, {fams if op['fams'] else ords}, {kw}) left {f} of magnet {o} at {getattr(SC.RING[o], f)} instead of {x}")
        if op["beat"]:
            self.check_beat(op, r)
        self.res.state("apply", op["skew"], o1, op["method"], op["comp"], op["fams"], len(fams), len(all_ords & dip))


def execute(scenario, prop):
    remember_real()
    res = Result()
    sim = Sim(scenario, res, max_track=200000)
    pool = PoolWorld(scenario.get("pool"), res.fired)
    with np.errstate(all="ignore"), installed(sim, pool):
        ParWorld(scenario, prop, sim, pool).run()
    return res
