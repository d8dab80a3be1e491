"""Generators of W1 histories: swarm-style weights, everything derived from one PRNG."""
import math

from dst.machines import build_ring, gen_spec, gen_support_pairs

BASE = dict(reg_bpm=1, reg_mag=2, reg_cav=1, reg_sup=2, inj_sig=1, sysmult=1, randmult=1, errors=3, set_cm=4, set_mag=4,
            set_cav=2, bad=1, update=1, inj=1, switch=1, meas=3, plot=0, copy=1, new=1, user_edit=1, misalign=1)


def sig(r, v, dim=None, cut=0.25):
    x = v if dim is None else [v * r.choice([0.0, 1.0, r.uniform(0.2, 1)]) for _ in range(dim)]
    return {"v": x, "cut": r.choice([1, 1.5, 2.5, 3, 4]) if r.random() < cut else None}


def bpm_sig(r):
    out = {}
    if r.random() < .8:
        out["Offset"] = sig(r, 2e-4, 2)
    if r.random() < .6:
        out["CalError"] = sig(r, 5e-2, 2)
    if r.random() < .6:
        out["Roll"] = sig(r, 5e-3)
    if r.random() < .4:
        out["SumError"] = sig(r, 0.05)
    if r.random() < .5:
        out["Noise"] = {"v": [1e-5, 2e-5], "cut": None}
    if r.random() < .5:
        out["NoiseCO"] = {"v": [1e-6, 3e-6], "cut": None}
    return out


def mag_sig(r, n, bend):
    out = {}
    k = n if bend else r.randint(1, n)
    if r.random() < .7:
        out["CalErrorB"] = sig(r, 2e-3, k)
    if r.random() < .5:
        out["CalErrorA"] = sig(r, 2e-3, k)
    if r.random() < .7:
        out["MagnetOffset"] = sig(r, 3e-5, 3)
    if r.random() < .6:
        out["MagnetRoll"] = sig(r, 1e-4, 3)
    if bend and r.random() < .7:
        out["BendingAngle"] = sig(r, 1e-4)
    return out


def cav_sig(r):
    out = {}
    for p, v in (("Voltage", 1e3), ("Frequency", 1e2), ("TimeLag", 1e-3)):
        if r.random() < .6:
            out[p + "Offset"] = sig(r, v)
        if r.random() < .4:
            out[p + "CalError"] = sig(r, 1e-5 if p == "Frequency" else 1e-2)
    return out


def sup_sig(r):
    k = r.random()
    if k < .35:
        out = {"Offset": sig(r, 1e-4, 3)}
        if r.random() < .6:
            out["Roll"] = sig(r, 1e-4, 3)
        return out
    if k < .7:
        a, b = sig(r, 1e-4, 3), sig(r, 1e-4, 3)
        out = {"Offset": {"v": [a["v"], b["v"]], "cut": a["cut"]}}
        if r.random() < .6:
            out["Roll"] = {"v": [1e-4, 0.0, 0.0], "cut": None}
        return out
    if k < .9:
        return {"Roll": sig(r, 1e-4, 3)}
    return {}


class Gen:
    def __init__(self, r, weights=None, n_ops=(8, 26), spec=None, setup=True, rng=None, faults=0.0, measures=None, plots=None, machines=1,
                 again=0.15, ends=0.0, exotic=0.0):
        self.r, self.again, self.ends = r, again, ends
        self.spec = spec or gen_spec(r)
        self.spec["e2"] = r.random() < .2
        if exotic and r.random() < exotic:
            self.spec["exotic"] = r.randrange(1, 1 << 20)
        self.ring, self.groups = build_ring(self.spec)
        self.ops, self.k = [], 0
        w = dict(BASE)
        w.update(weights or {})
        for key in w:                       # swarm: every scenario disables or boosts some operations
            if w[key] and r.random() < .15:
                w[key] = 0
            elif w[key] and r.random() < .15:
                w[key] *= 3
        w.update({k: v for k, v in (weights or {}).items() if k.endswith("!")})
        self.w = {k.rstrip("!"): v for k, v in w.items() if v}
        for k, v in (weights or {}).items():
            if k.endswith("!"):
                self.w[k.rstrip("!")] = v
        self.faults, self.measures, self.plots = faults, measures, plots
        self.n_machines = 1
        self.reg = {"bpm": set(), "cav": set(), "mag": {}, "hcm": set(), "vcm": set()}
        if setup:
            self.setup()
        n = r.randint(*n_ops)
        for _ in range(n):
            name = r.choices(list(self.w), list(self.w.values()))[0]
            getattr(self, "g_" + name)()
        mode = rng or r.choices(["stream", "const", "tails"], [6, 3, 2])[0]
        self.rng = {"mode": mode}
        if mode == "const":
            self.rng["z"] = r.choice([0.5, -0.8, 0.9, -0.31, 0.05])
        if mode == "tails":
            self.rng["p"] = r.choice([0.05, 0.3, 0.6])
            if r.random() < .4:          # draws which only the wider truncations admit
                self.rng.update(p=0.7, values=r.choice([[-1.7, 1.7], [-2.3, 2.3], [-2.8, 2.8, 5.0]]))

    def scenario(self, seed):
        return {"seed": seed, "ring": self.spec, "rng": self.rng, "ops": self.ops,
                "pool": {"ncpu": self.r.choice([1, 2, 3, 8]), "seed": self.r.randrange(1 << 20), "schedule": self.r.choice(["random", "reverse", "single"])}}

    def add(self, op, **kw):
        self.k += 1
        d = {"id": self.k, "op": op}
        if op not in ("new", "user_edit"):
            d["m"] = self.r.randrange(self.n_machines)
        d.update(kw)
        self.ops.append(d)
        return d

    # ------------------------------------------------------------ setup
    def setup(self):
        r = self.r
        order = ["bpm", "cav", "mags", "sup", "inj"]
        r.shuffle(order)
        for o in order:
            if o == "bpm" and r.random() < .95:
                self.g_reg_bpm(all_=r.random() < .6)
            if o == "cav" and r.random() < .85:
                self.g_reg_cav()
            if o == "mags":
                for _ in range(r.randint(2, 6) if r.random() < .9 else 0):
                    self.g_reg_mag()
            if o == "sup":
                for _ in range(r.randint(0, 3)):
                    self.g_reg_sup()
            if o == "inj" and r.random() < .6:
                self.g_inj_sig()
        if r.random() < .6:
            self.g_errors()

    # ------------------------------------------------------------ registration
    def g_reg_bpm(self, all_=False):
        g = self.groups["BPM"]
        ords = list(g) if all_ else self.r.sample(g, self.r.randint(1, len(g)))
        if self.r.random() < .5:
            ords.sort()
        self.reg["bpm"] |= set(ords)
        self.add("reg_bpm", ords=ords, sig=bpm_sig(self.r))

    def g_reg_cav(self):
        g = self.groups["CAV"]
        ords = self.r.sample(g, self.r.randint(1, len(g)))
        self.reg["cav"] |= set(ords)
        self.add("reg_cav", ords=ords, sig=cav_sig(self.r))

    def g_reg_mag(self):
        r = self.r
        fams = [f for f in ("QF", "QD", "SF", "SD", "SQ", "CM", "B", "B") if f in self.groups]
        f = r.choice(fams)
        again = r.random() < self.again
        g = [o for o in self.groups[f] if again or o not in self.reg["mag"]]
        if not g:
            return
        ords = r.sample(g, r.randint(1, len(g)) if r.random() < .5 else len(g))
        n = min(len(self.ring[ords[0]].PolynomA), len(self.ring[ords[0]].PolynomB))
        types = {}
        lim = lambda: r.choice([None, 1e-3, 2e-4, 5e-5])
        if f in ("CM", "SF", "SD", "SQ") or r.random() < .25:
            if r.random() < .8:
                types["HCM"] = lim()
            if r.random() < .8:
                types["VCM"] = lim()
        if f == "SQ" or (f in ("SD", "SF") and r.random() < .3):
            types["SkewQuad"] = r.choice([None, 0.1, 0.01])
        if f == "B":
            if self.spec["cf"] and r.random() < .8:
                types["CF"] = 1
            if self.spec["cf"] and r.random() < .5:
                types["HCM"] = lim()
            if self.spec["split"] and r.random() < .8:
                rows = []
                cells = {o: i for i, o in enumerate(self.groups["B"])}
                for c in range(1, self.spec["nchild"] + 1):
                    rows.append([self.groups[f"Bc{c}"][cells[o]] for o in ords])
                types["MasterOf"] = rows
        for o in ords:
            self.reg["mag"][o] = {**self.reg["mag"].get(o, {}), **types}
        if "HCM" in types:
            self.reg["hcm"] |= set(ords)
        if "VCM" in types:
            self.reg["vcm"] |= set(ords)
        self.add("reg_mag", ords=ords, sig=mag_sig(r, n, f == "B"), types=types, **({"again": True} if again else {}))

    def g_reg_sup(self):
        r = self.r
        typ = r.choice(["Girder", "Girder", "Plinth", "Section"])
        pairs = gen_support_pairs(r, self.groups, len(self.ring), typ)
        kw = {}
        if r.random() < self.ends:
            kw["share"] = True
            last = [p for o in self.ops if o["op"] == "reg_sup" and o["type"] == typ for p in zip(*o["pairs"])]
            if last and r.random() < .7:          # same start or same end as a support registered before
                a, b = r.choice(last)
                pairs[0][0], pairs[1][0] = (a, pairs[1][0]) if r.random() < .5 else (pairs[0][0], b)
        self.add("reg_sup", type=typ, pairs=pairs, sig=sup_sig(r), **kw)

    def g_inj_sig(self):
        r = self.r
        self.add("inj_sig", static=[r.choice([0, 1e-4]) for _ in range(6)], random=[r.choice([0, 1e-5]) for _ in range(6)],
                 circ=r.choice([None, 0.0, 1e-5, 1e-4]), z0=[r.choice([0.0, 1e-5]) for _ in range(6)])

    # ------------------------------------------------------------ errors
    def _table(self):
        r = self.r
        n = r.choice([2, 3, 3, 5])
        return [[r.choice([0.0, r.uniform(-1, 1) * 1e-3]) for _ in range(2)] for _ in range(n)]

    def _mags(self, k=4):
        pool = sorted(self.reg["mag"])
        if not pool:
            return []
        return self.r.sample(pool, min(len(pool), self.r.randint(1, k)))

    def g_sysmult(self):
        t = self._table()
        self.add("sysmult", ords=self._mags(), BA=t, order=self.r.randrange(0, min(3, len(t))), skew=self.r.randrange(2),
                 kids=self.r.random() < .3, scribble=self.r.random() < .5)
        if self.r.random() < .5:
            self.g_update("magnets")

    def g_randmult(self):
        self.add("randmult", ords=self._mags(), BA=self._table(), scribble=self.r.random() < .5)
        if self.r.random() < .5:
            self.g_update("magnets")

    def g_errors(self):
        self.add("errors", nsigmas=self.r.choice([None, None, 1, 1.5, 3]))

    def g_update(self, what=None):
        what = what or self.r.choice(["magnets", "magnets", "cavities", "supports"])
        kw = {}
        if what == "magnets" and self.r.random() < .5:
            kw["ords"] = self._mags()
        if what == "supports" and self.r.random() < .4:
            kw[self.r.choice(["bpms", "mags"])] = False
        self.add("update", what=what, **kw)

    def g_misalign(self):
        r = self.r
        self.add("misalign", ords=self._mags(), offset=[r.uniform(-1, 1) * 1e-4 for _ in range(3)],
                 roll=[r.uniform(-1, 1) * 1e-3 for _ in range(3)])

    # ------------------------------------------------------------ commands
    def _pick(self, pool, k=5):
        pool = sorted(pool)
        if not pool:
            return []
        o = self.r.sample(pool, min(len(pool), self.r.choice([1, 1, 2, 3, k, len(pool)])))
        if self.r.random() < .5:
            o.sort()
        return o

    def _forms(self):
        return dict(oform=self.r.choice(["array", "array", "list", "int", "npint"]),
                    vform=self.r.choice(["array", "array", "list", "scalar", "npscalar", "int", "intarray", "intlist"]),
                    default=self.r.random() < .5)

    def g_set_cm(self):
        r = self.r
        dim = r.randrange(2)
        method = r.choice(["abs", "abs", "add", "rel"])
        sc = {"abs": 1e-4, "add": 5e-5, "rel": 1.5}[method]
        f = self._forms()
        if f["vform"].startswith("int") and method != "rel":
            sp = [r.choice([0, 0, 1, -1])]
        else:
            sp = [r.uniform(-1, 1) * sc * r.choice([1, 1, 1, 20]) for _ in range(4)]
        pool = self.reg["hcm"] if dim == 0 else self.reg["vcm"]
        if r.random() < .1:
            pool = self.reg["hcm"] | self.reg["vcm"]
        self.add("set_cm", ords=self._pick(pool), dim=dim, method=method, sp=sp, any=True, **f)

    def g_set_mag(self):
        r = self.r
        order = r.choice([1, 1, 1, 2, 0])
        skew = r.random() < .3
        method = r.choice(["rel", "rel", "abs", "add"])
        f = self._forms()
        if method == "rel":
            sp = [1 + r.uniform(-1, 1) * 5e-3 for _ in range(4)]
            if f["vform"].startswith("int"):
                sp = [1]
        elif method == "abs":
            nominal = {1: 1.4, 2: 1.0, 0: 1e-4}[order]
            sp = [r.uniform(-1, 1) * (0.05 if skew else nominal) for _ in range(3)]
            if r.random() < .8:        # keep most machines sane: absolute values go to weak components
                skew, order = True, 1
                sp = [r.uniform(-1, 1) * 0.03 for _ in range(3)]
        else:
            sp = [r.uniform(-1, 1) * 0.01 for _ in range(3)]
        comp = order == 1 and r.random() < .35 or r.random() < .03
        ords = self._mags(6)
        if comp:
            b = [o for o in self.reg["mag"] if o in self.groups["B"]]
            ords = self._pick(b) if b and r.random() < .8 else ords
        self.add("set_mag", ords=ords, order=order, skew=skew, method=method, sp=sp, comp=comp, **f)

    def g_set_cav(self):
        r = self.r
        p = r.choice(["Voltage", "Frequency", "TimeLag"])
        method = r.choice(["abs", "add", "rel"])
        sp = {"rel": [1 + r.uniform(-1, 1) * 1e-6], "add": [r.uniform(-1, 1) * {"Voltage": 1e4, "Frequency": 100.0, "TimeLag": 1e-2}[p]],
              "abs": [{"Voltage": 1e5 * r.uniform(.5, 2), "Frequency": 5e8 * (1 + 1e-6 * r.random()), "TimeLag": r.uniform(-1, 1) * 1e-2}[p]]}[method]
        f = self._forms()
        self.add("set_cav", ords=self._pick(self.reg["cav"]), param=p, method=method, sp=sp, **f)

    def g_bad(self):
        self.add("bad", kind=self.r.choice(["cm-method", "mag-method", "cav-method", "cm-length", "mag-length", "cav-length", "reg-bpm",
                                            "reg-mag", "reg-cav", "reg-sup", "reg-sup-type", "reg-sup-shape", "switch", "switch2"]))

    # ------------------------------------------------------------ modes
    def g_inj(self):
        r = self.r
        s = {}
        if r.random() < .6:
            s["trackMode"] = r.choice(["TBT", "TBT", "PORB", "ORB"])
        if s.get("trackMode") != "ORB":
            if r.random() < .6:
                s["nParticles"] = r.choice([1, 1, 3, 8])
            if r.random() < .6:
                s["nTurns"] = r.choice([1, 2, 3])
        if r.random() < .5:
            s["nShots"] = r.choice([1, 2, 3])
        if r.random() < .3:
            s["beamLostAt"] = r.choice([1.0, 0.6, 0.3])
        if r.random() < .3:
            s["beamSize"] = [[(1e-10 if i == j else 0.0) for j in range(6)] for i in range(6)]
        if r.random() < .3:
            s["Z0"] = [r.uniform(-1, 1) * r.choice([1e-5, 1e-3, 3e-2]) for _ in range(6)]
        if r.random() < .3:
            s["postFun"] = r.choice(["none", "new", "inplace"])
        kw = {}
        if r.random() < .3:         # owners of a machine also edit its settings in place
            kw["scale"] = {r.choice(["Z0", "randomInjectionZ", "Z0ideal", "beamSize"]): r.choice([0.5, 1.5, 0.0])}
        self.add("inj", set=s, **kw)

    def g_edit(self):
        r = self.r
        self.add("edit", what=r.choice(["sig", "err"]), i=r.randrange(1 << 20), f=r.choice([.5, 2.0, 1.0]), add=r.choice([0.0, 1e-6]))

    def g_aperture(self):
        r = self.r
        ends = self.groups.get("D", []) or list(range(len(self.ring)))
        self.add("aperture", ord=r.choice(ends) if r.random() < .3 else r.randrange(len(self.ring)), inplace=r.random() < .4,
                 x=[-.015, .016, -.01, .011] if r.random() < .5 else [.014, .012])

    def g_switch(self):
        r = self.r
        a = r.choice([["cavityoff"], ["cavityon"], ["radiationon"], ["radiationoff"], ["cavityoff", "radiationoff"],
                      ["cavityon", "radiationon"], ["radiationon", "radiationoff"], ["cavityon", "cavityoff"], []])
        self.add("switch", args=a)

    def g_copy(self):
        if self.n_machines < 4:
            self.n_machines += 1
        self.add("copy")

    def g_new(self):
        if self.n_machines < 3:
            self.n_machines += 1
        self.add("new")

    def g_user_edit(self):
        self.add("user_edit", ord=self.r.randrange(len(self.ring)), k=self.r.randrange(3), x=1e-3)

    # ------------------------------------------------------------ measurements
    def fault(self, kinds=("raise", "lose", "mutate")):
        r = self.r
        if r.random() >= self.faults:
            return {}
        f = {"kind": r.choice(kinds), "where": "any", "at": r.choice([0, 0, 1, 2, 3, 5])}
        if r.random() < .4:
            f["sticky"] = True
        if f["kind"] == "lose":
            f.update(frac=r.choice([1.0, 0.5]), ref=r.random(), turn=r.random() * .99)
        return {"fault": f}

    def plot_fault(self):
        r = self.r
        return {"fault": {"kind": "raise", "where": "plot", "at": r.choice([0, 1, 2, 3, 4, 6])}} if r.random() < .3 else {}

    def g_meas(self):
        r = self.r
        what = r.choice(self.measures or ["bpm", "bpm", "all", "trans", "bunch", "rm", "rm", "disp", "model", "verify", "cmget", "supports"])
        a = {}
        if what == "bpm":
            if r.random() < .4:
                a["subset"] = r.sample(self.groups["BPM"], r.randint(1, len(self.groups["BPM"])))
            a["errors"] = r.random() < .3
        elif what == "trans":
            a = {"np": r.choice([None, 1, 4]), "nt": r.choice([None, 1, 3])}
        elif what == "bunch":
            a = {"np": r.choice([None, 1, 5])}
        elif what in ("rm", "disp"):
            a = {"mode": r.choice(["TBT", "ORB"]), "ideal": r.random() < .4, "nt": r.choice([1, 2, 3])}
            if r.random() < .5:
                a["z0"] = [r.uniform(-1, 1) * 1e-5 for _ in range(6)]
            if what == "disp":
                a["step"] = r.choice([1e3, 200.0, -500.0])
        elif what == "model":
            a = {"aper": r.random() < .5}
        elif what == "supports":
            a = {"s": sorted(r.uniform(0, 20) for _ in range(4))}
        self.add("meas", what=what, args=a, **self.fault())

    def g_plot(self):
        self.add("plot", what=self.r.choice(self.plots or ["cm", "lattice", "phase", "support", "reading"]), ideal=self.r.random() < .5,
                 co=self.r.random() < .5, **(self.fault() or self.plot_fault()))
