"""World W1: histories of operations on one or several simulated machines, checked against the reference model.

A scenario is a JSON object {seed, ring, rng, ops}.  Every operation carries its own id (which keys its random
draws), may carry a fault, and raises ``Skip`` when it does not apply to the current state, so that any subsequence
of the operations is again a scenario.
"""
import contextlib
import copy
import math
import traceback

from at import AtError
import numpy as np

from dst import refmodel as rm
from dst.base import (BudgetExceeded, InjectedFault, Result, Skip, describe, diff, freeze, freeze_machine, freeze_ring,
                      get_path, rng_for, same_value)
from dst.machines import build_ring, gen_spec, gen_support_pairs
from dst.seams import Sim, TailSource, installed, real, remember_real
from dst.simpool import PoolWorld

ENV_ERRORS = (InjectedFault,)


def _post_new(z):
    return z + 1e-5


def _post_inplace(z):
    z += 1e-5          # a user may well write his post-processing like this
    return z


def _post_none(z):
    return z


EXOTIC = {"StrMPoleSymplectic4Pass": ["ExactMultipolePass", "ExactMultipoleRadPass", "StrMPoleSymplectic4RadPass"],
          "BndMPoleSymplectic4Pass": ["BndStrMPoleSymplectic4Pass", "ExactSectorBendPass", "ExactSectorBendRadPass", "BndMPoleSymplectic4RadPass"]}
SWITCHED = ("BndMPoleSymplectic4Pass", "BndMPoleSymplectic4E2Pass", "StrMPoleSymplectic4Pass")
POST = {"none": _post_none, "new": _post_new, "inplace": _post_inplace}
RT, AT_ = 1e-9, 1e-15


def repo_in_traceback(exc):
    return any("/pySC/" in f.filename and "/repo/" in f.filename for f in traceback.extract_tb(exc.__traceback__))


class Machine:
    def __init__(self, SC, design):
        self.SC = SC
        self.design = design
        self.bpm, self.rf, self.hcm, self.vcm, self.skew = set(), set(), set(), set(), set()
        self.mags, self.cavs = {}, {}
        self.sup = {t: set() for t in rm.SUPPORTS}
        self.sig = {"BPM": {}, "RF": {}, "Magnet": {}, "Support": {}}
        self.syspol, self.dirty = {}, set()
        self.shared = set()          # endpoints used by several supports of one type
        self.circ_applied = False
        self.errors_applied = 0
        self.snap = None

    def fork(self, SC):
        m = Machine(SC, self.design)
        for k in ("bpm", "rf", "hcm", "vcm", "skew"):
            setattr(m, k, set(getattr(self, k)))
        m.mags = {o: x.clone() for o, x in self.mags.items()}
        for o in m.mags:
            m.mags[o].is_hcm = self.mags[o].is_hcm
        m.cavs = {o: dict(x) for o, x in self.cavs.items()}
        m.sup = {t: set(v) for t, v in self.sup.items()}
        m.sig = freeze(self.sig)
        m.syspol = freeze(self.syspol)
        m.dirty, m.shared = set(self.dirty), set(self.shared)
        m.circ_applied, m.errors_applied = self.circ_applied, self.errors_applied
        return m

    def targets(self, o):
        return [o] + list(self.mags[o].children if o in self.mags else [])


def dec_sigma(x):
    v = np.array(x["v"], dtype=float) if isinstance(x["v"], list) else float(x["v"])
    return v if x.get("cut") is None else [v, x["cut"]]


def sigma_parts(val, default):
    if isinstance(val, list):
        return np.asarray(val[0], float), abs(float(val[1]))
    return np.asarray(val, float), float(default)


class World:
    FAST_FREEZE = True

    def __init__(self, scenario, prop, sim=None):
        self.scenario, self.prop = scenario, prop
        self.res = sim.res if sim else Result()
        self.sim = sim
        self.machines = []
        self.user_ring, self.groups = build_ring(scenario["ring"])
        if scenario["ring"].get("e2"):
            for e in self.user_ring:
                if e.PassMethod == "BndMPoleSymplectic4Pass":
                    e.PassMethod = "BndMPoleSymplectic4E2Pass"
        if scenario["ring"].get("exotic"):       # magnets with integrators outside the switched families
            x = rng_for(scenario["ring"]["exotic"], "exotic")
            for e in self.user_ring:
                alt = EXOTIC.get(e.PassMethod)
                if alt and x.random() < .3:
                    e.PassMethod = x.choice(alt)
        self.user_snap = freeze_ring(self.user_ring)
        self.cur = None
        self.tails = {}

    # ------------------------------------------------------------------ reporting
    def fail(self, prop, what, msg):
        key = f"{prop}/{what}"
        if self.prop == prop or self.prop == "*":
            self.res.violate(key, msg, self.cur)
        else:
            self.res.stats["foreign:" + key] += 1

    def call(self, props, what, fn, *a, allowed=(), **k):
        """Run a call of the code under test which must not raise, except for injected faults."""
        try:
            return fn(*a, **k)
        except ENV_ERRORS:
            raise
        except allowed:
            raise
        except Skip:
            raise
        except BudgetExceeded as e:
            for p in props:
                self.fail(p, what + "-unbounded", f"exceeded the budget of {e}")
            raise Skip("budget")
        except Exception as e:
            for p in props:
                self.fail(p, what + "-raised", f"{type(e).__name__}: {e} at {_where(e)}")
            raise Skip("raised")

    # ------------------------------------------------------------------ main loop
    def run(self):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        self.SimulatedCommissioning = SimulatedCommissioning
        self.cur = "start"
        self.sim.begin_op("start")
        self.do_new({})
        for op in self.scenario["ops"]:
            self.cur = op["id"]
            self.step(op)
            if self.res.violations:
                break
        self.cur = "end"
        return self.res

    def step(self, op):
        name = op["op"]
        m = None
        if name not in ("user_edit", "new"):
            if not self.machines:
                return
            m = self.machines[op.get("m", 0) % len(self.machines)]
        fault = dict(op["fault"]) if op.get("fault") else None
        self.sim.begin_op(op["id"], fault, op.get("rng"))
        before_violations = len(self.res.violations)
        faulted = False
        try:
            allowed = getattr(self, "do_" + name)(op) if m is None else getattr(self, "do_" + name)(m, op)
            self.res.stats["op:" + name] += 1
            self.res.event("op", op["id"], name)
        except Skip as e:
            self.res.stats["skipped"] += 1
            self.res.event("skip", op["id"])
            allowed = getattr(self, "_skip_allowed", None)
            self._skip_allowed = None
            if str(e) in ("budget", "raised"):
                self.resnap()
                self.sim.end_op()
                return
        except ENV_ERRORS:
            faulted = True
            self.res.event("injected", op["id"])
            self.res.stats["op-with-fault:" + name] += 1
            allowed = None
        self.sim.end_op()
        self.check_frames(m, op, allowed or set(), faulted)

    # ------------------------------------------------------------------ global invariants after every operation
    def check_frames(self, m, op, allowed, faulted):
        name = op["op"]
        if name != "user_edit":
            d = [p for p in diff(self.user_snap, freeze_ring(self.user_ring)) if p != ("s_range",)]
            if d:
                self.fail("C01", "user-lattice", f"after {name}: the caller's lattice changed: {describe(d, self.user_snap, freeze_ring(self.user_ring))}")
                self.user_snap = freeze_ring(self.user_ring)
        for i, x in enumerate(self.machines):
            new = freeze_machine(x.SC)
            d = [p for p in diff(x.design, new["IDEALRING"], maxdepth=2) if p != ("s_range",)]
            if d:
                self.fail("C01", "design-lattice", f"after {name} on machine {op.get('m', 0)}: design lattice of machine {i} changed: {describe(d, x.design, new['IDEALRING'])}")
                x.design = new["IDEALRING"]
            if x.snap is None:
                x.snap = new
                continue
            d = [p for p in diff(x.snap, new, rtol=1e-12, atol=1e-30) if p[0] != "IDEALRING"]
            if x is not m:
                if d:
                    kind = "C01" if name == "user_edit" else "C15"
                    self.fail(kind, "other-machine", f"{name} on another machine changed machine {i}: {describe(d, x.snap, new)}")
            else:
                bad = [p for p in d if not _is_allowed(p, allowed)]
                if bad:
                    prop = {"meas": "C04", "plot": "C04", "set_cm": "C03", "set_mag": "C03", "set_cav": "C03", "bad": "C03", "dump": "C04",
                            "reg_bpm": "C17", "reg_cav": "C17", "reg_mag": "C17", "reg_sup": "C17", "errors": "C09",
                            "switch": "C18", "sysmult": "C02", "edit": "C17" if op.get("what") == "sig" else "C09", "randmult": "C09", "update": "C02", "copy": "C15"}.get(name, "C04")
                    if name == "inj" and any(p[0] == "SIG" for p in bad):
                        prop = "C09"
                    if name == "bad" and op.get("kind", "").startswith("reg"):
                        prop = "C17"
                    if name == "bad" and op.get("kind", "").startswith("switch"):
                        prop = "C18"
                    tag = "faulted" if faulted else "frame"
                    what = f"{op.get('what', '')}" if name in ("meas", "plot") else ""
                    self.fail(prop, tag, f"{name} {what} changed something it must not: {describe(bad, x.snap, new)}")
            x.snap = new
            if x is m:
                self.check_fields(x, new, d, name)
        self.res.state(op["op"], sum(len(x.mags) for x in self.machines), len(self.machines),
                       tuple(sorted(x.errors_applied for x in self.machines)), faulted,
                       m.SC.INJ.trackMode if m else "")

    def resnap(self):
        for x in self.machines:
            x.snap = freeze_machine(x.SC)

    # ------------------------------------------------------------------ C02: fields follow setpoints and errors
    def check_fields(self, x, snap, changed, name):
        if not any(p[0] == "RING" for p in changed) and name not in ("errors", "update", "set_cm", "set_mag", "set_cav"):
            return
        ring = snap["RING"]
        n = 0
        for o, mg in x.mags.items():
            src = ring[o]
            for t in x.targets(o):
                if t in x.dirty:
                    continue
                tgt = ring[t]
                exp = rm.actual_fields(
                    {"A": src["SetPointA"], "B": src["SetPointB"]},
                    {"A": np.asarray(src["CalErrorA"], float), "B": np.asarray(src["CalErrorB"], float)},
                    {"A": tgt.get("PolynomAOffset"), "B": tgt.get("PolynomBOffset")},
                    x.syspol.get(t, {}),
                    dict(bend_err=src.get("BendingAngleError"), cf=mg.cf, nom1=mg.nom["B"][1] if len(mg.nom["B"]) > 1 else 0.0,
                         has_angle="BendingAngle" in src),
                    dict(angle=tgt.get("BendingAngle"), length=tgt.get("Length")))
                n += 1
                for ab in "AB":
                    got = np.asarray(tgt["Polynom" + ab], float)
                    k = max(len(got), len(exp[ab]))
                    g, e = np.pad(got, (0, k - len(got))), np.pad(exp[ab], (0, k - len(exp[ab])))
                    if not np.allclose(g, e, rtol=RT, atol=1e-13):
                        self.fail("C02", "polynom", f"after {name}: Polynom{ab} of element {t} (driven by {o}) is {g.tolist()}, "
                                                    f"setpoints and errors give {e.tolist()}")
                if tgt.get("MaxOrder") is not None:
                    used = max([i for i in range(len(exp["A"])) if exp["A"][i]] + [i for i in range(len(exp["B"])) if exp["B"][i]] + [0])
                    limit = min(len(tgt["PolynomA"]), len(tgt["PolynomB"])) - 1
                    if tgt["MaxOrder"] < min(used, limit) or tgt["MaxOrder"] > max(len(tgt["PolynomA"]), len(tgt["PolynomB"])) - 1:
                        self.fail("C02", "maxorder", f"after {name}: MaxOrder of {t} is {tgt['MaxOrder']} with polynomials A{tgt['PolynomA']} B{tgt['PolynomB']}")
                if src["PassMethod"] == "CorrectorPass" or tgt["PassMethod"] == "CorrectorPass":
                    want = np.array([exp["B"][0], exp["A"][0]])
                    if not np.allclose(np.asarray(tgt.get("KickAngle", [np.nan] * 2), float), want, rtol=RT, atol=1e-15):
                        self.fail("C02", "kick", f"after {name}: KickAngle of {t} is {tgt.get('KickAngle')}, fields give {want}")
        for o in x.cavs:
            c = ring[o]
            for p in ("Voltage", "Frequency", "TimeLag"):
                want = c[p + "SetPoint"] * (1 + c[p + "CalError"]) + c[p + "Offset"]
                if not np.allclose(c[p], want, rtol=1e-12, atol=1e-15):
                    self.fail("C02", "cavity", f"after {name}: {p} of cavity {o} is {c[p]}, setpoint and errors give {want}")
                n += 1
        self.res.stats["fields-compared"] += n
        if n:
            self.res.nontrivial = True

    # ------------------------------------------------------------------ operations
    def do_new(self, op):
        if len(self.machines) >= 3:
            raise Skip
        design = freeze_ring(self.user_ring)
        sc = self.call(("C01", "C17"), "construct", self.SimulatedCommissioning, self.user_ring)
        m = Machine(sc, design)
        self.machines.append(m)
        snap = freeze_machine(sc)
        for k in ("RING", "IDEALRING"):
            d = diff(design, snap[k])
            if d:
                self.fail("C01", "construct", f"{k} of a new machine differs from the caller's lattice: {describe(d, design, snap[k])}")
        m.snap = snap

    def do_copy(self, m, op):
        if len(self.machines) >= 4:
            raise Skip
        before = m.snap
        sc = self.call(("C15",), "copy", m.SC.very_deep_copy)
        new = m.fork(sc)
        snap = freeze_machine(sc)
        d = diff(before, snap)
        if d:
            self.fail("C15", "copy-differs", f"copy differs from the original: {describe(d, before, snap)}")
        new.snap = snap
        new.design = before["IDEALRING"]
        self.machines.append(new)
        if self.prop in ("C15", "*"):
            _shared(self, m.SC, sc)

    def do_user_edit(self, op):
        """The owner of the lattice goes on using it after the machine was built from it."""
        o = op["ord"] % len(self.user_ring)
        el = self.user_ring[o]
        if hasattr(el, "PolynomB") and len(el.PolynomB):
            el.PolynomB[op["k"] % len(el.PolynomB)] += op["x"]
        elif getattr(el, "Length", 0) > 0:
            el.Length = el.Length * (1 + op["x"])
        elif hasattr(el, "Frequency"):
            el.Frequency = el.Frequency * (1 + op["x"])
        else:
            el.FamName = el.FamName + "_"
        self.user_snap = freeze_ring(self.user_ring)

    # ---- registration
    def _ords(self, x):
        return np.array(x, dtype=int)

    def do_reg_bpm(self, m, op):
        ords = op["ords"]
        kw = {k: dec_sigma(v) for k, v in op["sig"].items()}
        allowed = {("ORD", "BPM"), ("SIG", "BPM")}
        fields = ("Noise", "NoiseCO", "Offset", "SupportOffset", "Roll", "SupportRoll", "CalError", "SumError")
        allowed |= {("RING", o, f) for o in ords for f in fields}
        self._reg(m, m.SC.register_bpms, self._ords(ords), kw, op)
        m.bpm |= set(ords)
        for o in ords:
            m.sig["BPM"].setdefault(o, {}).update(freeze(kw))
        for o in ords:
            for f in fields:
                v = getattr(m.SC.RING[o], f, None)
                if v is None or np.any(np.asarray(v, float) != 0) or np.shape(v) != (() if f in ("Roll", "SupportRoll", "SumError") else (2,)):
                    self.fail("C17", "bpm-fields", f"after registration BPM {o} has {f}={v!r}")
        self._check_registry(m)
        return allowed

    def do_reg_cav(self, m, op):
        ords = [o for o in op["ords"]]
        kw = {k: dec_sigma(v) for k, v in op["sig"].items()}
        el = {o: freeze(vars(m.SC.RING[o])) for o in ords}
        self._reg(m, m.SC.register_cavities, self._ords(ords), kw, op)
        m.rf |= set(ords)
        allowed = {("ORD", "RF"), ("SIG", "RF")}
        for o in ords:
            m.sig["RF"].setdefault(o, {}).update(freeze(kw))
            m.cavs[o] = {p: float(el[o][p]) for p in ("Voltage", "Frequency", "TimeLag")}
            for p in ("Voltage", "Frequency", "TimeLag"):
                allowed |= {("RING", o, p + s) for s in ("SetPoint", "Offset", "CalError")}
                c = m.SC.RING[o]
                if getattr(c, p + "SetPoint", None) != el[o][p] or getattr(c, p + "Offset", 1) != 0 or getattr(c, p + "CalError", 1) != 0:
                    self.fail("C17", "cavity-fields", f"cavity {o} registered with {p}={el[o][p]}: setpoint {getattr(c, p + 'SetPoint', None)}")
        self._check_registry(m)
        return allowed

    def do_reg_mag(self, m, op):
        ords = [o for o in op["ords"] if o not in m.mags or (op.get("again") and self._pristine(m, o))]
        if len(ords) != len(op["ords"]) and op["types"].get("MasterOf"):
            raise Skip
        if not ords:
            raise Skip
        if any(o in x.children for x in m.mags.values() for o in ords):
            raise Skip
        kw = {k: dec_sigma(v) for k, v in op["sig"].items()}
        types = dict(op["types"])
        kids = types.get("MasterOf")
        if kids is not None:
            if any(k in m.mags for row in kids for k in row):
                raise Skip
            types["MasterOf"] = np.array(kids, dtype=int)
        if "CF" in types:
            types["CF"] = 1
            if any(abs(m.SC.RING[o].PolynomB[1]) == 0 for o in ords):
                raise Skip
        for lim in ("HCM", "VCM", "SkewQuad"):
            if lim in types and types[lim] is None:
                types[lim] = np.inf
        before = {o: freeze(vars(m.SC.RING[o])) for o in ords}
        self._reg(m, m.SC.register_magnets, self._ords(ords), {**kw, **types}, op)
        allowed = {("ORD", "Magnet"), ("SIG", "Magnet")}
        allowed |= {("ORD", k) for k, t in (("HCM", "HCM"), ("VCM", "VCM"), ("SkewQuad", "SkewQuad")) if t in types}
        fields = ["NomPolynomA", "NomPolynomB", "SetPointA", "SetPointB", "CalErrorA", "CalErrorB", "MagnetOffset",
                  "SupportOffset", "MagnetRoll", "SupportRoll", "T1", "T2"]
        if "CF" in types:
            fields.append("CombinedFunction")
        if "HCM" in types or "VCM" in types:
            fields.append("CMlimit")
        if "SkewQuad" in types:
            fields.append("SkewQuadLimit")
        if kids is not None:
            fields.append("MasterOf")
        for i, o in enumerate(ords):
            b = before[o]
            old = m.mags.get(o)
            mg = rm.MagnetModel(b["PolynomA"], b["PolynomB"], b.get("Length", 0.0), b["PassMethod"] == "CorrectorPass", b.get("BendingAngle", 0.0))
            if old is not None:              # registered again: what was known stays, what is given is added
                mg.cf, mg.limits, mg.is_hcm, mg.skewlimit, mg.children = old.cf, old.limits, old.is_hcm, old.skewlimit, list(old.children)
                self.res.stats["registered-again"] += 1
            mg.cf = mg.cf or "CF" in types
            if "HCM" in types or "VCM" in types:
                lim0 = mg.limits or [0.0, 0.0]
                mg.limits = [types.get("HCM", lim0[0]), types.get("VCM", lim0[1])]
            mg.is_hcm = mg.is_hcm or "HCM" in types
            mg.skewlimit = types.get("SkewQuad", mg.skewlimit)
            if kids is not None:
                mg.children = [row[i] for row in kids]
            m.mags[o] = mg
            m.dirty |= set(mg.children)
            m.sig["Magnet"].setdefault(o, {}).update(freeze(kw))
            allowed |= {("RING", o, f) for f in fields}
            for t, s in (("HCM", m.hcm), ("VCM", m.vcm), ("SkewQuad", m.skew)):
                if t in types:
                    s.add(o)
            el = m.SC.RING[o]
            for ab in "AB":
                for f in ("NomPolynom", "SetPoint"):
                    if not np.array_equal(getattr(el, f + ab, None), b["Polynom" + ab]):
                        self.fail("C17", "magnet-setpoint", f"magnet {o} registered with Polynom{ab}={b['Polynom' + ab]} has {f}{ab}={getattr(el, f + ab, None)}")
                if np.any(getattr(el, "CalError" + ab)):
                    self.fail("C17", "magnet-cal", f"magnet {o}: CalError{ab} is not zero after registration")
            lim = getattr(el, "CMlimit", None)
            if mg.limits is not None and (lim is None or not np.array_equal(lim, mg.limits)):
                self.fail("C17", "cm-limit", f"magnet {o}: CMlimit {lim} instead of {mg.limits}")
            if mg.skewlimit is not None and getattr(el, "SkewQuadLimit", None) != mg.skewlimit:
                self.fail("C17", "skew-limit", f"magnet {o}: SkewQuadLimit {getattr(el, 'SkewQuadLimit', None)} instead of {mg.skewlimit}")
            if mg.children and list(np.ravel(getattr(el, "MasterOf", []))) != mg.children:
                self.fail("C17", "children", f"magnet {o}: children {getattr(el, 'MasterOf', None)} instead of {mg.children}")
        self._check_registry(m)
        return allowed

    def _pristine(self, m, o):
        """A registered magnet whose fields are its calibrated setpoints only, so that registering it again takes nothing over twice."""
        e, mg = m.SC.RING[o], m.mags[o]
        for ab in "AB":
            now, sp, cal = (np.asarray(getattr(e, f + ab), float) for f in ("Polynom", "SetPoint", "CalError"))
            k = max(len(now), len(sp), len(cal))
            now, sp, cal = (np.pad(x, (0, k - len(x))) for x in (now, sp, cal))
            if not np.allclose(now, sp * (1 + cal), rtol=1e-14, atol=0) or hasattr(e, f"Polynom{ab}Offset"):
                return False
        if o in m.dirty or any(k in m.syspol for k in [o, *mg.children]) or any(hasattr(m.SC.RING[k], "PolynomBOffset") for k in mg.children):
            return False
        return not np.any(getattr(e, "BendingAngleError", 0.0)) and not (mg.cf and not np.array_equal(mg.sp["B"], mg.nom["B"]))

    def do_reg_sup(self, m, op):
        typ, pairs = op["type"], op["pairs"]
        kw = {k: dec_sigma(v) for k, v in op["sig"].items()}
        mine = {tuple(p) for p in zip(*pairs)}
        ends = {o for p in mine for o in p}
        others = {o for p in m.sup[typ] - mine for o in p}
        share = bool(ends & others or len(ends) != 2 * len(mine))
        if share and not op.get("share"):
            raise Skip            # supports of one type do not share endpoints ...
        s = np.array([0.0] + list(np.cumsum([float(getattr(e, "Length", 0.0)) for e in m.SC.RING])))
        if any(abs(s[a] - s[b]) < 1e-6 for a, b in mine):
            raise Skip
        cover = [i for a, b in (mine | m.sup[typ]) for i in (range(a, b + 1) if a < b else list(range(a, len(s))) + list(range(b + 1)))]
        if len(cover) != len(set(cover)) and not op.get("share"):
            raise Skip            # ... nor do they overlap
        if share or len(cover) != len(set(cover)):      # ... except where only the registration itself is looked at
            m.shared |= ends | others
            self.res.stats["supports-sharing"] += 1
        self._reg(m, m.SC.register_supports, self._ords(pairs), kw, op, pos=(typ,))
        m.sup[typ] |= mine
        allowed = {("ORD", typ), ("SIG", "Support")}
        for o in ends:
            allowed |= {("RING", o, f"{typ}{f}") for f in ("Offset", "Roll")}
            d = m.sig["Support"].setdefault(o, {})
            for k in [k for k in d if k.startswith(typ)]:
                del d[k]
            for f in ("Offset", "Roll"):
                v = getattr(m.SC.RING[o], typ + f, None)
                if v is None or np.shape(v) != (3,) or np.any(v):
                    self.fail("C17", "support-fields", f"support endpoint {o}: {typ}{f}={v!r}")
        for a, b in mine:
            for k, v in kw.items():
                val, cut = (v[0], v[1]) if isinstance(v, list) else (v, None)
                rows = [(a, val)] if val.ndim == 1 else [(a, val[0]), (b, val[1])]
                for o, r in rows:
                    m.sig["Support"][o][typ + k] = [r.copy(), cut] if cut is not None else r.copy()
        self._check_registry(m)
        return allowed

    def _reg(self, m, fn, ords, kw, op, pos=()):
        o0, k0, kw = ords.copy(), freeze(kw), copy.deepcopy(kw)
        self.call(("C17",), op["op"], fn, ords, *pos, **kw)
        if not np.array_equal(o0, ords) or diff(k0, freeze(kw)):
            self.fail("C17", "caller-arguments", f"{op['op']} modified the arguments of the caller")
        for x in [ords, *kw.values()]:         # the caller goes on to use his arrays for something else
            x = x[0] if isinstance(x, list) else x
            if isinstance(x, np.ndarray):
                x *= 7
        self.res.nontrivial = True

    def _check_registry(self, m):
        O, S = m.SC.ORD, m.SC.SIG
        for name, want in (("BPM", m.bpm), ("RF", m.rf), ("Magnet", set(m.mags)), ("HCM", m.hcm), ("VCM", m.vcm), ("SkewQuad", m.skew)):
            got = np.asarray(O[name]).tolist()
            if got != sorted(want):
                self.fail("C17", "ordinates", f"ORD.{name} is {got}, registered are {sorted(want)}")
        cm = [np.asarray(x).tolist() for x in O.CM]
        if cm != [sorted(m.hcm), sorted(m.vcm)]:
            self.fail("C17", "ordinates", f"ORD.CM is {cm}")
        for typ in rm.SUPPORTS:
            got = [tuple(int(v) for v in c) for c in np.asarray(O[typ]).T]
            if sorted(got) != sorted(m.sup[typ]):
                self.fail("C17", "supports", f"ORD.{typ} is {got}, registered are {sorted(m.sup[typ])}")
        for name in ("BPM", "RF", "Magnet", "Support"):
            got = freeze(S[name])
            got = {k: dict(v) for k, v in got.items() if len(v)}
            want = {k: v for k, v in m.sig[name].items() if len(v)}
            if name == "Support":
                got, want = ({k: v for k, v in x.items() if k not in m.shared} for x in (got, want))
            d = diff(want, got)
            if d:
                self.fail("C17", "sigmas", f"SIG.{name}: expected -> stored: {describe(d, want, got)}")

    def do_inj_sig(self, m, op):
        m.SC.SIG.staticInjectionZ = np.array(op["static"], float)
        m.SC.SIG.randomInjectionZ = np.array(op["random"], float)
        if op.get("circ") is not None:
            m.SC.SIG.Circumference = op["circ"]
        m.SC.INJ.Z0ideal = np.array(op["z0"], float)
        return {("SIG",), ("INJ", "Z0ideal")}

    # ---- multipoles
    def do_sysmult(self, m, op):
        table = np.array(op["BA"], float)
        ords = [o for o in op["ords"] if o in m.mags and op["order"] < len(m.mags[o].sp["A"]) and op["order"] < len(m.mags[o].sp["B"])]
        kids = [c for o in ords for c in m.mags[o].children] if op.get("kids") else []
        ords = ords + kids
        if not ords or op["order"] >= len(table):
            raise Skip
        t0 = table.copy()
        self.call(("C02",), "sysmult", m.SC.set_systematic_multipole_errors, np.array(ords), table, op["order"], bool(op["skew"]))
        if not np.array_equal(t0, table):
            self.fail("C02", "caller-table", "the multipole table of the caller was modified")
        src = "A" if op["skew"] else "B"
        t0[op["order"], 1 if op["skew"] else 0] = 0.0
        allowed = set()
        for o in ords:
            d = m.syspol.setdefault(o, {})
            for i, tgt in enumerate("BA"):
                d.setdefault((tgt, src), {})[op["order"]] = t0[:, i].copy()
                allowed.add(("RING", o, f"SysPol{tgt}From{src}"))
                allowed |= {("RING", o, f) for f in ("PolynomA", "PolynomB", "KickAngle", "MaxOrder")}
            m.dirty.add(o)
        if op.get("scribble"):
            table[:] = 7.0        # the caller re-uses the array
        return allowed

    def do_randmult(self, m, op):
        ords = [o for o in op["ords"] if o in m.mags]
        if not ords:
            raise Skip
        table = np.array(op["BA"], float)
        old = {(o, ab): np.array(getattr(m.SC.RING[o], f"Polynom{ab}Offset", np.zeros(0)), float) for o in ords for ab in "AB"}
        t0 = table.copy()
        self.call(("C09",), "randmult", m.SC.set_random_multipole_errors, np.array(ords), table)
        if not np.array_equal(t0, table):
            self.fail("C09", "caller-table", "the multipole table of the caller was modified")
        allowed, seen = set(), []
        for o in ords:
            for i, ab in enumerate("BA"):
                new = np.asarray(getattr(m.SC.RING[o], f"Polynom{ab}Offset"), float)
                delta = rm.pad_add(new, -old[(o, ab)])
                sig = rm.pad_add(t0[:, i], np.zeros(len(delta)))
                self._draws("C09", f"random multipole {ab} of {o}", delta, sig, 2.0, op, seen, scale=np.abs(rm.pad_add(new, np.zeros(len(delta)))))
                allowed |= {("RING", o, f"Polynom{ab}Offset")} | {("RING", o, f) for f in ("PolynomA", "PolynomB", "KickAngle", "MaxOrder")}
            m.dirty.add(o)
        self._independent(seen, op)
        if op.get("scribble"):
            table[:] = 7.0
        return allowed

    # ---- errors
    def _mode(self, op):
        return (op.get("rng") or self.scenario.get("rng") or {"mode": "stream"})

    def _draws(self, prop, label, got, sigma, cut, op, seen=None, scale=None):
        """got must be sigma * z with z a normal draw truncated at ``cut``."""
        got, sigma = np.asarray(got, float), np.asarray(sigma, float)
        if got.shape != sigma.shape:
            self.fail(prop, "draw-shape", f"{label}: error of shape {got.shape} for an uncertainty of shape {sigma.shape}")
            return
        g, s = np.ravel(got), np.ravel(np.abs(sigma))
        tol = 1e-12 * (s * cut + (0 if scale is None else np.ravel(scale))) + 1e-30
        mode = self._mode(op)
        if not np.all(np.isfinite(g)) or np.any(np.abs(g) > s * cut + tol):
            self.fail(prop, "truncation", f"{label}: {g.tolist()} outside {cut} sigma of {s.tolist()}")
        if mode["mode"] == "const":
            want = np.ravel(sigma) * mode["z"]
            if not np.allclose(g, want, rtol=1e-9, atol=1e-9 * float(np.max(tol) / 1e-12 if len(tol) else 0) + 1e-30):
                self.fail(prop, "scaling", f"{label}: {g.tolist()} for uncertainty {np.ravel(sigma).tolist()} and a draw of {mode['z']}")
        elif seen is not None:
            seen.extend((label, i, v / w) for i, (v, w) in enumerate(zip(g, s)) if w > 0)
            self._tails(prop, label, [abs(v / w) for v, w in zip(g, s) if w > 0], float(cut), mode)
        self.res.stats["draws-checked"] += len(g)

    LEVELS = (0.7, 1.05, 1.55, 2.05, 2.55)

    def _tails(self, prop, label, z, cut, mode):
        """Draws reach as far out as their own truncation lets them: a level below the cut is exceeded by some of them,
        unless that has a probability below 1e-11 under the distribution actually drawn from."""
        p = mode.get("p", 0.2) if mode["mode"] == "tails" else 0.0
        vals = [abs(v) for v in (mode.get("values") or TailSource.VALUES)] if p else []

        def mass(x):
            return (1 - p) * math.erf(x / math.sqrt(2)) + (p * sum(v <= x for v in vals) / len(vals) if vals else 0.0)
        for lev in self.LEVELS:
            if cut < lev * 1.04:
                continue
            q = mass(lev * 1.02) / mass(cut * (1 - 1e-9))
            t = self.tails.setdefault((prop, cut, lev), [0.0, 0, 0])
            t[0] += len(z) * math.log(max(q, 1e-300))
            t[1] += len(z)
            t[2] += sum(v > lev for v in z)
            if t[2] == 0 and t[0] < -25:
                self.fail(prop, "tails-missing", f"none of {t[1]} draws truncated at {cut} sigma lies beyond {lev} sigma (last: {label})")
                t[0] = 0.0

    def _independent(self, seen, op):
        if self._mode(op)["mode"] != "stream":
            return
        z = sorted((v, l, i) for l, i, v in seen)
        for (a, l1, i1), (b, l2, i2) in zip(z, z[1:]):
            if abs(a - b) < 1e-13 * max(abs(a), 1e-3):
                self.fail("C09", "shared-draw", f"{l1}[{i1}] and {l2}[{i2}] got the same random number {a!r}")
                return
        for v, l, i in z:
            if v == 0.0:
                self.fail("C09", "not-drawn", f"{l}[{i}] got no error at all")
                return

    def do_errors(self, m, op):
        ns = op["nsigmas"]
        SC = m.SC
        if m.shared:
            raise Skip
        old = m.snap["RING"]
        seen = []
        self.call(("C09",), "apply_errors", SC.apply_errors, **({} if ns is None else {"nsigmas": ns}))
        ns = 2.0 if ns is None else float(ns)
        allowed = {("INJ", "Z0"), ("INJ", "randomInjectionZ")}
        R = SC.RING
        for kind, name in (("RF", "cavity"), ("BPM", "BPM"), ("Magnet", "magnet")):
            for o, fields in m.sig[kind].items():
                for f, v in fields.items():
                    sig, cut = sigma_parts(v, ns)
                    if kind == "BPM" and "Noise" in f:
                        got = getattr(R[o], f)
                        if not np.array_equal(np.asarray(got, float), np.asarray(v, float)):
                            self.fail("C09", "noise", f"BPM {o}: {f} is {got!r}, registered {v!r}")
                        allowed.add(("RING", o, f))
                        continue
                    attr = "BendingAngleError" if f == "BendingAngle" else f
                    got = getattr(R[o], attr, None)
                    allowed.add(("RING", o, attr))
                    if got is None:
                        self.fail("C09", "missing", f"{name} {o}: no {attr} after applying errors")
                        continue
                    self._draws("C09", f"{name} {o} {attr}", got, sig, cut, op, seen)
        # injection
        S = m.snap["SIG"]
        self._draws("C09", "static injection", SC.INJ.Z0 - m.snap["INJ"]["Z0ideal"], S["staticInjectionZ"], ns, op, seen,
                    scale=np.abs(m.snap["INJ"]["Z0ideal"]))
        if not np.array_equal(SC.INJ.randomInjectionZ, S["randomInjectionZ"]):
            self.fail("C09", "jitter", f"injection jitter {SC.INJ.randomInjectionZ} instead of {S['randomInjectionZ']}")
        # circumference
        d = m.design
        drifts = [i for i in range(d["len"]) if d[i].get("PassMethod") == "DriftPass"]
        ltot = sum(float(d[i].get("Length", 0.0)) for i in range(d["len"]))
        got = sum(float(getattr(e, "Length", 0.0)) for e in R)
        if S["Circumference"]:
            allowed |= {("RING", i, "Length") for i in drifts}
            self._draws("C09", "circumference", np.array(got / ltot - 1), np.array(S["Circumference"]), ns, op, None, scale=np.array(1e-2))
            r = [float(R[i].Length) / d[i]["Length"] for i in drifts if d[i]["Length"]]
            if r and max(r) - min(r) > 1e-9:
                self.fail("C09", "drift-scaling", f"drifts scaled by different factors {min(r)}..{max(r)}")
        elif abs(got / ltot - 1) > 1e-12:
            self.fail("C09", "circumference", f"circumference changed by {got / ltot - 1} without uncertainty")
        else:
            allowed |= {("RING", i, "Length") for i in drifts}
        # supports
        for typ in rm.SUPPORTS:
            for a, b in m.sup[typ]:
                allowed |= {("RING", o, f"{typ}{f}") for o in (a, b) for f in ("Offset", "Roll")}
                self._check_support(m, typ, a, b, ns, op, seen)
        self._independent(seen, op)
        # applying twice must re-draw, not repeat or accumulate
        if m.errors_applied and self._mode(op)["mode"] == "stream":
            for kind in ("RF", "BPM", "Magnet"):
                for o, fields in m.sig[kind].items():
                    for f, v in fields.items():
                        if "Noise" in f:
                            continue
                        attr = "BendingAngleError" if f == "BendingAngle" else f
                        sig = sigma_parts(v, ns)[0]
                        a, b = np.asarray(old[o].get(attr, 0.0), float), np.asarray(getattr(R[o], attr), float)
                        if a.shape == b.shape and np.any((a == b) & (sig != 0) & (a != 0)):
                            self.fail("C09", "not-redrawn", f"{kind} {o} {attr} kept its previous error {a}")
        m.errors_applied += 1
        m.dirty.clear()
        for o in m.mags:
            for t in m.targets(o):
                allowed |= {("RING", t, f) for f in ("PolynomA", "PolynomB", "KickAngle", "MaxOrder", "T1", "T2", "R1", "R2")}
            allowed |= {("RING", o, f) for f in ("SupportOffset", "SupportRoll")}
        allowed |= {("RING", o, f) for o in m.bpm for f in ("SupportOffset", "SupportRoll")}
        allowed |= {("RING", o, f) for o in m.rf for f in ("Voltage", "Frequency", "TimeLag")}
        self.check_alignment(m)
        self.res.nontrivial = True
        return allowed

    def _check_support(self, m, typ, a, b, ns, op, seen):
        R, sa, sb = m.SC.RING, m.sig["Support"].get(a, {}), m.sig["Support"].get(b, {})
        s = np.array([0.0] + list(np.cumsum([float(getattr(e, "Length", 0.0)) for e in R])))
        length = (s[b] - s[a]) % s[-1]
        off0, off1 = np.asarray(getattr(R[a], typ + "Offset"), float), np.asarray(getattr(R[b], typ + "Offset"), float)
        roll = np.asarray(getattr(R[a], typ + "Roll"), float)
        vo, vr, v1 = sa.get(typ + "Offset"), sa.get(typ + "Roll"), sb.get(typ + "Offset")
        lab = f"{typ} {a}-{b}"
        if vo is None and vr is None:
            for o in (a, b):
                for f in ("Offset", "Roll"):
                    if np.any(np.asarray(getattr(R[o], typ + f), float) != 0):
                        self.fail("C09", "support-without-uncertainty", f"{lab}: {f} of {o} is {getattr(R[o], typ + f)}")
            return
        sig0, c0 = sigma_parts(vo, ns) if vo is not None else (np.zeros(3), ns)
        sigr, cr = sigma_parts(vr, ns) if vr is not None else (np.zeros(3), ns)
        if v1 is not None:                                   # independent endpoints
            sig1, c1 = sigma_parts(v1, ns)
            self._draws("C09", lab + " start", off0, sig0, c0, op, seen)
            self._draws("C09", lab + " end", off1, sig1, c1, op, seen)
            self._draws("C09", lab + " roll", roll[:1], sigr[:1], cr, op, seen)
            slope = (off1 - off0) / length
            if not np.allclose(roll[1:], [slope[1], slope[0]], rtol=1e-8, atol=1e-15):
                self.fail("C10", "endpoint-tilt", f"{lab}: pitch/yaw {roll[1:]} but endpoints are displaced by {off0}, {off1} over {length} m")
            return
        centre, half = (off0 + off1) / 2, (off1 - off0) / 2
        self._draws("C09", lab + " centre", centre, sig0, c0, op, seen, scale=np.abs(off0))
        self._draws("C09", lab + " roll", roll, sigr, cr, op, seen)
        want = np.array([roll[2], roll[1], 0.0]) * length / 2
        if not np.allclose(half, want, rtol=1e-8, atol=1e-15):
            self.fail("C10", "pitch-yaw", f"{lab}: endpoints {off0}, {off1} do not match pitch/yaw {roll[1:]} over {length} m")

    # ---- C10: alignment of magnets and BPMs follows the supports
    def check_alignment(self, m):
        SC, R = m.SC, m.SC.RING
        s = np.array([0.0] + list(np.cumsum([float(getattr(e, "Length", 0.0)) for e in R])))
        own = {(t, o): (np.asarray(getattr(R[o], t + "Offset"), float), np.asarray(getattr(R[o], t + "Roll"), float))
               for t in rm.SUPPORTS for p in m.sup[t] for o in p}
        off, roll = rm.support_field(s, m.sup, own)
        amb = rm.ambiguous(s, off, roll)
        n = 0
        for o in sorted(m.mags):
            e = R[o]
            if not amb[o]:
                if not np.allclose(e.SupportOffset, off[:, o], rtol=1e-7, atol=1e-14) or not np.allclose(e.SupportRoll, roll[:, o], rtol=1e-7, atol=1e-14):
                    self.fail("C10", "magnet-support", f"magnet {o} at s={s[o]}: support offset {e.SupportOffset}, roll {e.SupportRoll}; "
                                                       f"its supports give {off[:, o]}, {roll[:, o]}")
                n += 1
            t1, t2, r1, r2 = rm.transformation(float(getattr(e, "Length", 0.0)), float(getattr(e, "BendingAngle", 0.0)),
                                               np.asarray(e.SupportOffset, float) + np.asarray(e.MagnetOffset, float),
                                               np.asarray(e.SupportRoll, float) + np.asarray(e.MagnetRoll, float))
            for t in m.targets(o):
                for nm, w in (("T1", t1), ("T2", t2), ("R1", r1), ("R2", r2)):
                    if t != o and nm[0] in "TR":
                        w = getattr(e, nm)          # split magnets move together with their master
                    g = getattr(R[t], nm, None)
                    if g is None or not np.allclose(g, w, rtol=1e-7, atol=1e-12):
                        self.fail("C10", "transformation", f"{nm} of element {t} (magnet {o}) does not represent its offsets and rolls: {g} instead of {w}")
        for o in sorted(m.bpm):
            e = R[o]
            if not amb[o]:
                if not np.allclose(e.SupportOffset, off[:2, o], rtol=1e-7, atol=1e-14) or not np.allclose(e.SupportRoll, roll[0, o], rtol=1e-7, atol=1e-14):
                    self.fail("C10", "bpm-support", f"BPM {o} at s={s[o]}: support offset {e.SupportOffset}, roll {e.SupportRoll}; "
                                                    f"its supports give {off[:2, o]}, {roll[0, o]}")
                n += 1
        self.res.stats["alignments-compared"] += n

    def do_update(self, m, op):
        what = op["what"]
        allowed = set()
        if what == "magnets":
            ords = None if op.get("ords") is None else [o for o in op["ords"] if o in m.mags]
            if ords is not None and not ords:
                raise Skip
            self.call(("C02",), "update_magnets", m.SC.update_magnets, **({} if ords is None else {"ords": np.array(ords)}))
            for o in (m.mags if ords is None else ords):
                for t in m.targets(o):
                    m.dirty.discard(t)
                    allowed |= {("RING", t, f) for f in ("PolynomA", "PolynomB", "KickAngle", "MaxOrder")}
        elif what == "cavities":
            self.call(("C02",), "update_cavities", m.SC.update_cavities)
            allowed |= {("RING", o, f) for o in m.rf for f in ("Voltage", "Frequency", "TimeLag")}
        elif m.shared:
            raise Skip
        else:
            self.call(("C10",), "update_supports", m.SC.update_supports, offset_bpms=op.get("bpms", True), offset_magnets=op.get("mags", True))
            if op.get("mags", True):
                for o in m.mags:
                    for t in m.targets(o):
                        allowed |= {("RING", t, f) for f in ("T1", "T2", "R1", "R2")}
                    allowed |= {("RING", o, f) for f in ("SupportOffset", "SupportRoll")}
            if op.get("bpms", True):
                allowed |= {("RING", o, f) for o in m.bpm for f in ("SupportOffset", "SupportRoll")}
            if op.get("mags", True) and op.get("bpms", True):
                self.check_alignment(m)
        return allowed

    def do_misalign(self, m, op):
        """Direct alignment survey values: the documented fields are set by the user, then supports are updated."""
        mags = [o for o in op["ords"] if o in m.mags]
        allowed = set()
        if m.shared:
            raise Skip
        for o in mags:
            m.SC.RING[o].MagnetOffset = np.array(op["offset"], float)
            m.SC.RING[o].MagnetRoll = np.array(op["roll"], float)
            allowed |= {("RING", o, f) for f in ("MagnetOffset", "MagnetRoll")}
        for typ, pairs in op.get("sup", {}).items():
            for a, b, oa, ob, ro in pairs:
                if (a, b) in m.sup[typ]:
                    m.SC.RING[a].__dict__[typ + "Offset"] = np.array(oa, float)
                    m.SC.RING[b].__dict__[typ + "Offset"] = np.array(ob, float)
                    m.SC.RING[a].__dict__[typ + "Roll"] = np.array(ro, float)
                    allowed |= {("RING", o, typ + f) for o in (a, b) for f in ("Offset", "Roll")}
        return allowed | (self.do_update(m, {"what": "supports"}) or set())

    # ---- setpoints
    def _form(self, ords, form):
        if form == "int":
            return int(ords[0])
        if form == "list":
            return [int(o) for o in ords]
        if form == "npint":
            return np.int64(ords[0])
        return np.array(ords, dtype=int)

    def _value(self, v, form):
        if form == "scalar":
            return float(v[0])
        if form == "int":
            return int(v[0])
        if form == "list":
            return [float(x) for x in v]
        if form == "intlist":
            return [int(x) for x in v]
        if form == "intarray":
            return np.array([int(x) for x in v])
        if form == "npscalar":
            return np.float64(v[0])
        return np.array(v, dtype=float)

    def _cmd_args(self, op, ords):
        n = len(ords)
        v = [op["sp"][i % len(op["sp"])] for i in range(n)]
        if op["vform"] in ("scalar", "int", "npscalar"):
            v = [v[0]] * n
        if op["vform"] in ("int", "intlist", "intarray"):
            v = [float(int(x)) for x in v]
        oform = op["oform"] if n == 1 or op["oform"] not in ("int", "npint") else "array"
        return v, self._form(ords, oform), self._value(v, op["vform"])

    def _finish_cmd(self, m, op, oarg, varg, o0, v0, ords):
        if not same_value(o0, freeze(oarg)) or not same_value(v0, freeze(varg)):
            self.fail("C03", "caller-arguments", f"{op['op']} modified the arguments of the caller")
        allowed = set()
        for o in ords:
            for t in m.targets(o):
                allowed |= {("RING", t, f) for f in ("PolynomA", "PolynomB", "KickAngle", "MaxOrder")}
                m.dirty.discard(t)
        for o in m.dirty:
            allowed |= {("RING", o, f) for f in ("PolynomA", "PolynomB", "KickAngle", "MaxOrder")}
        self.res.nontrivial = True
        return allowed

    def _check_setpoints(self, m, o, what):
        el, mg = m.SC.RING[o], m.mags[o]
        for ab in "AB":
            got = np.asarray(getattr(el, "SetPoint" + ab), float)
            want = mg.sp[ab]
            if got.shape != want.shape or not np.allclose(got, want, rtol=RT, atol=1e-14):
                self.fail("C03", "setpoint", f"{what}: SetPoint{ab} of {o} is {got.tolist()}, the command gives {want.tolist()}")
                if got.shape == want.shape:
                    mg.sp[ab] = got.copy()
            if not np.array_equal(np.asarray(getattr(el, "NomPolynom" + ab), float), mg.nom[ab]):
                self.fail("C03", "nominal", f"{what}: the nominal fields of {o} changed")

    def do_set_cm(self, m, op):
        pool = m.hcm if op["dim"] == 0 else m.vcm
        ords = [o for o in op["ords"] if (o in pool or (op.get("any") and o in m.mags))]
        if not ords:
            raise Skip
        v, oarg, varg = self._cmd_args(op, ords)
        o0, v0 = freeze(oarg), freeze(varg)
        clip = 0
        for o, x in zip(ords, v):
            clip += bool(m.mags[o].cm_set(op["dim"], x, op["method"]))
        self.res.stats["clipped"] += clip
        kw = {} if op["method"] == "abs" and op.get("default") else {"method": op["method"]}
        self.call(("C03",), "set_cm", m.SC.set_cm_setpoints, oarg, varg, skewness=bool(op["dim"]), **kw)
        allowed = self._finish_cmd(m, op, oarg, varg, o0, v0, ords)
        for o in ords:
            self._check_setpoints(m, o, f"set_cm_setpoints {op['method']} {v}")
            allowed.add(("RING", o, "SetPoint" + "BA"[op["dim"]]))
        back = self.call(("C03",), "get_cm", m.SC.get_cm_setpoints, oarg, skewness=bool(op["dim"]))
        want = [m.mags[o].cm_get(op["dim"]) for o in ords]
        if np.shape(back) != (len(ords),) or not np.allclose(back, want, rtol=RT, atol=1e-16):
            self.fail("C03", "read-back", f"get_cm_setpoints returns {back}, set to {want}")
        return allowed

    def do_set_mag(self, m, op):
        ab = "BA"[int(op["skew"])]
        ords = [o for o in op["ords"] if o in m.mags and op["order"] < len(m.mags[o].sp[ab])]
        if not ords:
            raise Skip
        v, oarg, varg = self._cmd_args(op, ords)
        o0, v0 = freeze(oarg), freeze(varg)
        before_b0 = {o: m.mags[o].sp["B"][0] for o in ords}
        for o, x in zip(ords, v):
            self.res.stats["clipped"] += bool(m.mags[o].mag_set(op["skew"], op["order"], x, op["method"], op.get("comp", False)))
        kw = {} if op["method"] == "abs" and op.get("default") else {"method": op["method"]}
        if op.get("comp"):
            kw["dipole_compensation"] = True
            self.res.stats["compensated"] += sum(before_b0[o] != m.mags[o].sp["B"][0] for o in ords)
        self.call(("C03",), "set_mag", m.SC.set_magnet_setpoints, oarg, varg, bool(op["skew"]), op["order"], **kw)
        allowed = self._finish_cmd(m, op, oarg, varg, o0, v0, ords)
        for o in ords:
            self._check_setpoints(m, o, f"set_magnet_setpoints {op['method']} order {op['order']} skew {op['skew']} {v}")
            allowed.add(("RING", o, "SetPoint" + ab))
            if op.get("comp"):
                allowed.add(("RING", o, "SetPointB"))
        return allowed

    def do_set_cav(self, m, op):
        ords = [o for o in op["ords"] if o in m.cavs]
        if not ords:
            raise Skip
        p = op["param"]
        v, oarg, varg = self._cmd_args(op, ords)
        o0, v0 = freeze(oarg), freeze(varg)
        for o, x in zip(ords, v):
            cur = m.cavs[o][p]
            m.cavs[o][p] = {"abs": x, "rel": cur * x, "add": cur + x}[op["method"]]
        kw = {} if op["method"] == "abs" and op.get("default") else {"method": op["method"]}
        self.call(("C03",), "set_cav", m.SC.set_cavity_setpoints, oarg, varg, p, **kw)
        if not same_value(o0, freeze(oarg)) or not same_value(v0, freeze(varg)):
            self.fail("C03", "caller-arguments", "set_cavity_setpoints modified the arguments of the caller")
        allowed = set()
        for o in ords:
            got = getattr(m.SC.RING[o], p + "SetPoint")
            if not np.allclose(got, m.cavs[o][p], rtol=1e-12, atol=0):
                self.fail("C03", "cavity", f"set_cavity_setpoints {op['method']}: {p} setpoint of {o} is {got}, the command gives {m.cavs[o][p]}")
            m.cavs[o][p] = float(np.ravel(got)[0])
            allowed |= {("RING", o, p + "SetPoint")} | {("RING", o, q) for q in ("Voltage", "Frequency", "TimeLag")}
        self.res.nontrivial = True
        return allowed

    def do_bad(self, m, op):
        """Commands which must be rejected, and change nothing when they are."""
        SC, k = m.SC, op["kind"]
        mags, cavs = sorted(m.mags), sorted(m.cavs)
        lenb = np.array([1e-6, 2e-6, 3e-6])
        calls = {
            "cm-method": lambda: SC.set_cm_setpoints(np.array(sorted(m.hcm)), 1e-5, skewness=False, method="relative"),
            "mag-method": lambda: SC.set_magnet_setpoints(np.array(mags), 1e-5, False, 1, method="delta"),
            "cav-method": lambda: SC.set_cavity_setpoints(np.array(cavs), 1.0, "Voltage", method=""),
            "cm-length": lambda: SC.set_cm_setpoints(np.array(sorted(m.hcm)[:2]), lenb, skewness=False),
            "mag-length": lambda: SC.set_magnet_setpoints(np.array(mags[:2]), lenb, False, 1, method="rel"),
            "cav-length": lambda: SC.set_cavity_setpoints(np.array(cavs[:1]), lenb, "Voltage", method="add"),
            "reg-bpm": lambda: SC.register_bpms(np.array(self.groups["BPM"][:2]), Ofset=np.zeros(2)),
            "reg-mag": lambda: SC.register_magnets(np.array(self.groups["QF"][:2]), MagnetOfset=np.zeros(3)),
            "reg-cav": lambda: SC.register_cavities(np.array(self.groups["CAV"][:1]), Phase=1.0),
            "reg-sup": lambda: SC.register_supports(np.array([[0], [3]]), "Girder", Tilt=np.zeros(3)),
            "reg-sup-type": lambda: SC.register_supports(np.array([[0], [3]]), "Table", Offset=np.zeros(3)),
            "reg-sup-shape": lambda: SC.register_supports(np.array([[0, 3, 5]]), "Girder", Offset=np.zeros(3)),
            "switch": lambda: self._switch(SC.RING, "cavityof"),
            "switch2": lambda: self._switch(SC.RING, "cavityoff", "radiation"),
        }
        need = {"cm-method": m.hcm, "mag-method": mags, "cav-method": cavs, "cm-length": len(m.hcm) > 1, "mag-length": len(mags) > 1,
                "cav-length": cavs}
        if not need.get(k, True):
            raise Skip
        prop = "C17" if k.startswith("reg") else "C18" if k.startswith("switch") else "C03"
        try:
            calls[k]()
        except ValueError:
            self.res.stats["rejected"] += 1
        except Exception as e:
            self.fail(prop, "rejection", f"{k}: {type(e).__name__} instead of a ValueError: {e}")
        else:
            self.fail(prop, "accepted", f"{k}: an invalid command was accepted")
        return set()

    # ---- modes
    def do_inj(self, m, op):
        inj = m.SC.INJ
        for k, v in op["set"].items():
            setattr(inj, k, POST[v] if k == "postFun" else np.array(v, float) if isinstance(v, list) else v)
        for k, f in (op.get("scale") or {}).items():
            x = getattr(inj, k)
            x *= f
        return {("INJ",)}

    def do_edit(self, m, op):
        """the user changes one registered uncertainty, or one error of a BPM or magnet, in place"""
        if op["what"] == "sig":
            where = [("SIG", kind, o, f) for kind in ("BPM", "RF", "Magnet", "Support") for o in sorted(m.sig[kind]) for f in sorted(m.sig[kind][o])
                     if not (kind == "Support" and o in m.shared)]
        else:
            where = [("RING", o, f) for o in sorted(m.bpm) for f in ("Noise", "NoiseCO", "Offset", "CalError")]
            where += [("RING", o, f) for o in sorted(m.mags) for f in ("MagnetOffset", "MagnetRoll")]

        def target(p):
            x = getattr(m.SC.RING[p[1]], p[2]) if p[0] == "RING" else m.SC.SIG[p[1]][p[2]][p[3]]
            return x[0] if isinstance(x, list) else x
        where = [p for p in where if isinstance(target(p), np.ndarray)]
        if not where:
            raise Skip
        p = where[op["i"] % len(where)]
        x = target(p)
        x *= op["f"]
        x += op["add"]
        if p[0] == "SIG":
            old = m.sig[p[1]][p[2]][p[3]]
            m.sig[p[1]][p[2]][p[3]] = [np.array(x), old[1]] if isinstance(old, list) else np.array(x)
        self.res.stats["edited:" + p[0] + ":" + p[-1]] += 1
        self.res.nontrivial = True
        self._check_registry(m)
        return {p[:3]}

    def do_aperture(self, m, op):
        """the user narrows an aperture of the machine: a new one, or the array which is there"""
        i = op["ord"] % len(m.SC.RING)
        el, x = m.SC.RING[i], np.array(op["x"], float)
        field = "RApertures" if len(x) == 4 else "EApertures"
        if op["inplace"] and getattr(el, field, None) is not None:
            a = getattr(el, field)
            a *= .5
        else:
            setattr(el, field, x)
        return {("RING", i, field)}

    def do_plotflag(self, m, op):
        m.SC.plot = bool(op["on"])
        return {("plot",)}

    def _switch(self, ring, *args):
        from pySC.core.lattice_setting import switch_cavity_and_radiation
        return switch_cavity_and_radiation(ring, *args)

    def do_switch(self, m, op):
        args = op["args"]
        ring = m.SC.RING
        snap = m.snap["RING"]
        want = {}
        for i in range(snap["len"]):
            p = snap[i]["PassMethod"]
            if "Frequency" in snap[i] and snap[i]["__class__"] == "RFCavity":
                if "cavityoff" in args:
                    p = "IdentityPass"
                elif "cavityon" in args:
                    p = "RFCavityPass"
            elif p.replace("RadPass", "Pass") in SWITCHED:
                if "radiationoff" in args:
                    p = p.replace("RadPass", "Pass")
                elif "radiationon" in args and "Rad" not in p:
                    p = p.replace("Pass", "RadPass")
            want[i] = p
        out = self.call(("C18",), "switch", self._switch, ring, *args)
        m.SC.RING = out
        for i in range(snap["len"]):
            if out[i].PassMethod != want[i]:
                self.fail("C18", "passmethod", f"{args}: element {i} ({snap[i]['FamName']}) has {out[i].PassMethod}, expected {want[i]} (was {snap[i]['PassMethod']})")
        self.res.nontrivial = True
        return {("RING", i, "PassMethod") for i in range(snap["len"])}

    # ---- measurements (never change the machine)
    def do_meas(self, m, op):
        from pySC.core import beam
        from pySC.lattice_properties import response_model as rmod
        SC, what, a = m.SC, op["what"], op.get("args", {})
        bpms = np.array(sorted(m.bpm), dtype=int)
        if what in ("bpm", "all", "rm", "disp") and not len(bpms):
            raise Skip
        if what == "rm" and not (m.hcm or m.vcm):
            raise Skip
        if what == "disp" and not m.rf:
            raise Skip
        soft = (ValueError, np.linalg.LinAlgError, AtError)     # AT refuses a machine without enough voltage for its losses
        z = np.array(a.get("z0", [0.0] * 6), float)
        z0 = z.copy()
        sub = None
        if a.get("subset"):
            sub = np.array([o for o in a["subset"] if o in m.bpm], dtype=int)
            if not len(sub):
                sub = None
        fns = {
            "bpm": lambda: beam.bpm_reading(SC, **({} if sub is None else {"bpm_ords": sub}), calculate_errors=bool(a.get("errors"))),
            "all": lambda: beam.all_elements_reading(SC),
            "trans": lambda: beam.beam_transmission(SC, nParticles=a.get("np"), nTurns=a.get("nt"), plot=bool(a.get("plot"))),
            "bunch": lambda: beam.generate_bunches(SC, nParticles=a.get("np")),
            "rm": lambda: rmod.SCgetModelRM(SC, bpms, [sorted(m.hcm)[:2], sorted(m.vcm)[:2]], trackMode=a["mode"], Z0=z,
                                            nTurns=a.get("nt", 1), useIdealRing=a["ideal"]),
            "disp": lambda: rmod.SCgetModelDispersion(SC, bpms, sorted(m.rf), trackMode=a["mode"], Z0=z, nTurns=a.get("nt", 1),
                                                      useIdealRing=a["ideal"], rfStep=a.get("step", 1e3)),
            "model": lambda: rmod.SCgetModelRING(SC, includeAperture=a.get("aper", False)),
            "verify": lambda: SC.verify_structure(),
            "cmget": lambda: [SC.get_cm_setpoints(sorted(s), skewness=bool(d)) for d, s in enumerate((m.hcm, m.vcm)) if s],
            "supports": lambda: SC.support_offset_and_roll(np.array(a["s"], float)),
        }
        if m.shared and what in ("verify", "supports"):
            raise Skip
        if what == "verify" and not m.sup["Girder"] and (m.sup["Plinth"] or m.sup["Section"]):
            raise Skip
        self.sim.faults_enabled = True
        try:
            out = self.call(("C19", "C04") if what in ("rm", "disp", "model") else ("C04",), what, fns[what], allowed=soft)
        except soft as e:
            # beam lost / no closed orbit / unstable: a refusal is fine, damage is not
            self.res.stats["measurement-refused"] += 1
            self.res.event("refused", type(e).__name__)
            out = None
            if what in ("cmget", "supports", "bunch", "model"):
                self.fail("C04", what + "-raised", f"{type(e).__name__}: {e}")
        if not np.array_equal(z, z0):
            self.fail("C04", "caller-arguments", f"{what} modified the initial coordinates of the caller")
        if out is not None and what == "model":
            self._check_model(m, out, a)
            out = freeze_ring(out)
        if out is not None and not op.get("fault") and what in ("rm", "disp"):
            self._check_rm(m, what, a, bpms, z, out)
        self.res.event("out", what, freeze(out) if what != "model" else 0)
        if isinstance(getattr(self, "outputs", None), list):
            self.outputs.append({what: out if what == "model" else freeze(out)})
        if out is not None:
            self.res.nontrivial = True
        return set()

    def do_plot(self, m, op):
        import matplotlib.pyplot as plt
        from pySC.plotting.plot_lattice import plot_cm_strengths, plot_lattice
        from pySC.plotting.plot_phase_space import plot_phase_space
        from pySC.plotting.plot_support import plot_support
        from pySC.core import beam
        SC, what = m.SC, op["what"]
        if what in ("cm",) and not (m.hcm and m.vcm):
            raise Skip
        if what == "phase" and not m.rf:
            raise Skip
        if what == "support" and not (m.bpm and len(m.mags) > 1 and m.errors_applied):
            raise Skip
        if what == "reading" and not m.bpm or what == "support" and m.shared:
            raise Skip

        def reading():
            SC.plot = True
            try:
                return beam.bpm_reading(SC)
            finally:
                SC.plot = False
        fns = {"cm": lambda: plot_cm_strengths(SC), "lattice": lambda: plot_lattice(SC, n_sectors=1, ideal_ring=op.get("ideal", True)),
               "phase": lambda: plot_phase_space(SC, nParticles=2, nTurns=2, plotCO=op.get("co", False)),
               "support": lambda: plot_support(SC), "reading": reading}
        font = plt.rcParams["font.size"]
        refused = bool(op.get("fault"))
        try:
            fns[what]()
            self.res.stats["plotted:" + what] += 1
            if plt.rcParams["font.size"] != font:
                self.fail("C04", "plot-settings", f"plot {what} left the font size at {plt.rcParams['font.size']}")
        except ENV_ERRORS:
            if op["fault"].get("where") != "plot":
                raise
            self.res.event("injected", op["id"])
            self.res.stats["op-with-fault:plot"] += 1
        except Exception as e:
            refused = True
            self.res.stats["plot-refused:" + what + ":" + type(e).__name__] += 1
        finally:
            plt.rcParams["font.size"] = font
            plt.close("all")
        if refused:      # a plot which could not be completed may leave its display range behind
            return {("RING", "s_range"), ("IDEALRING", "s_range")}
        return set()

    def _check_model(self, m, model, a):
        """C19: design lattice + setpoints, nothing else."""
        got = freeze_ring(model)
        ring = m.snap["RING"]
        for i in range(m.design["len"]):
            want = dict(m.design[i])
            if i in m.mags:
                for ab in "AB":
                    w = np.array(ring[i]["SetPoint" + ab], float)
                    w[0] = 0.0
                    want["Polynom" + ab] = w
            if a.get("aper"):
                for k in ("EApertures", "RApertures"):
                    if k in ring[i]:
                        want[k] = ring[i][k]
            if i in m.cavs:
                for p in ("Voltage", "Frequency", "TimeLag"):
                    want[p] = ring[i][p + "SetPoint"]
            d = diff(want, got[i], rtol=1e-12, atol=1e-30)
            if d:
                self.fail("C19", "model-ring", f"element {i} of the model: {describe(d, want, got[i])}")
        for i, e in enumerate(model):
            if e is m.SC.RING[i] or e is m.SC.IDEALRING[i]:
                self.fail("C19", "model-shared", f"element {i} of the model is the machine's own element")
            for name, ring in (("the machine", m.SC.RING), ("the design lattice", m.SC.IDEALRING)):
                own = vars(ring[i])
                for k, x in vars(e).items():
                    y = own.get(k)
                    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.size and np.shares_memory(x, y) or isinstance(x, (list, dict)) and x is y:
                        self.fail("C19", "model-shared", f"{k} of element {i} of the model is shared with {name}")

    def _check_rm(self, m, what, a, bpms, z, out):
        """C19: compare with a direct finite difference on the design lattice or on the setpoint model."""
        if self.prop not in ("C19", "*"):
            return
        from dst.refrings import model_ring, response
        ring = model_ring(m, a["ideal"])
        try:
            want, scale = response(ring, what, a, bpms, z, sorted(m.hcm)[:2], sorted(m.vcm)[:2], sorted(m.rf))
        except AtError:
            return
        if a["mode"] == "ORB" and not np.all(np.isfinite(want)):      # no closed orbit: the last iterate is not a result
            self.res.stats["rm-no-orbit"] += 1
            return
        if np.shape(out) != want.shape:
            self.fail("C19", "rm-shape", f"{what}: shape {np.shape(out)} instead of {want.shape}")
        elif not np.allclose(out, want, rtol=1e-3, atol=1e-3 * scale):
            k = int(np.nanargmax(np.abs(np.ravel(out - want)))) if np.any(np.isfinite(out - want)) else 0
            self.fail("C19", "rm-value", f"{what} {a}: entry {k} is {np.ravel(out)[k]}, finite difference gives {np.ravel(want)[k]}")
        self.res.stats["rm-compared"] += 1


def _where(e):
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if "/pySC/" in f.filename:
            return f"{f.filename.split('/pySC/')[-1]}:{f.name}"
    return "outside pySC"


def _is_allowed(p, allowed):
    for k in range(1, len(p) + 1):
        if tuple(p[:k]) in allowed:
            return True
    return False


def _mutables(obj, out, path="", depth=0):
    if depth > 7:
        return
    if isinstance(obj, np.ndarray):
        if obj.size:
            out.append((path, obj))
    elif isinstance(obj, dict):
        for k, v in obj.items():
            _mutables(v, out, f"{path}.{k}", depth + 1)
    elif isinstance(obj, (list, tuple)):
        for k, v in enumerate(obj):
            _mutables(v, out, f"{path}[{k}]", depth + 1)
    elif hasattr(obj, "__dict__") and not callable(obj):
        for k, v in vars(obj).items():
            _mutables(v, out, f"{path}.{k}", depth + 1)


def _shared(world, a, b):
    """No element, array or container of the copy may be storage of the original."""
    la, lb = [], []
    for sc, out in ((a, la), (b, lb)):
        for nm in ("RING", "IDEALRING"):
            for i, e in enumerate(getattr(sc, nm)):
                out.append((f"{nm}[{i}]", e))
                _mutables(vars(e), out, f"{nm}[{i}]")
        _mutables(vars(sc.INJ), out, "INJ")
        for nm in ("ORD", "SIG"):
            _mutables(getattr(sc, nm), out, nm)
    ids = {id(x): p for p, x in la if not isinstance(x, np.ndarray)}
    mem = {}
    for p, x in la:
        if isinstance(x, np.ndarray):
            mem.setdefault(x.__array_interface__["data"][0], p)
    for p, x in lb:
        if isinstance(x, np.ndarray):
            q = mem.get(x.__array_interface__["data"][0])
            if q:
                world.fail("C15", "shared-storage", f"{p} of the copy shares memory with {q} of the original")
                return
        elif id(x) in ids:
            world.fail("C15", "shared-element", f"{p} of the copy is {ids[id(x)]} of the original")
            return


def execute(scenario, prop):
    remember_real()
    res = Result()
    sim = Sim(scenario, res)
    pool = PoolWorld(scenario.get("pool"), res.fired)
    with np.errstate(all="ignore"), installed(sim, pool):
        w = World(scenario, prop, sim)
        w.run()
    res.fired["operations"] += 0
    return res
