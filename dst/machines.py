"""Generator of storage rings: every lattice is a pure function of a small JSON specification."""
import numpy as np

C0 = 299792458.0


def gen_spec(r, size=None, **force):
    """A random specification with stable optics away from the integer and half-integer resonances."""
    for _ in range(200):
        spec = _draw_spec(r, size)
        spec.update(force)
        if _healthy(spec):
            return spec
    raise AssertionError("no stable machine found")


def _draw_spec(r, size):
    n = size or r.choice([3, 4, 4, 5, 6])
    return dict(
        cells=n,
        split=r.random() < 0.5,               # dipole cut into a master and one or two children
        nchild=r.choice([1, 1, 2]),
        curv=r.choice([0.0, 0.0, 0.2]),       # difference of the curvature of the parts of a split dipole
        cf=r.choice([0.0, 0.0, 0.05, -0.05]),  # quadrupole component of the dipoles
        thin=r.random() < 0.5,                # thin correctors with a CorrectorPass
        skew=r.random() < 0.6,
        ncav=r.choice([1, 1, 2]),
        shared=r.random() < 0.5,              # the user's lattice holds the same element object at several places
        kf=round(1.4 + r.uniform(-0.12, 0.12), 4),
        kd=round(-1.6 + r.uniform(-0.12, 0.12), 4),
        ks=round(r.uniform(0.5, 4.0), 3),
        jitter=round(r.uniform(0, 0.1), 3),   # spread of drift lengths between the cells
        angle=round(r.uniform(0.05, 0.25), 4),
        volt=r.choice([1e5, 4e5]),
        harm=r.choice([60, 100, 150]),
        aper=r.choice([0, 0, 1, 2]),
        seedl=r.randrange(1 << 30),
    )


def _healthy(spec):
    """Both planes stable and the tunes away from integer and half-integer resonances (4D, nominal optics)."""
    import at
    ring, _ = build_ring(spec)
    m = at.find_m44(ring.disable_6d(copy=True), 0.0)[0]
    for k in (0, 2):
        c = 0.5 * (m[k, k] + m[k + 1, k + 1])
        if not abs(c) < 0.93:
            return False
    return True


def build_ring(spec):
    """-> (ring, groups) with groups: name -> list of ordinates"""
    import random
    from at import Lattice, elements as el
    r = random.Random(spec["seedl"])
    els, groups = [], {}
    shared = {}

    def add(group, e):
        groups.setdefault(group, []).append(len(els))
        els.append(e)
        return e

    def common(key, make):
        if spec["shared"]:
            if key not in shared:
                shared[key] = make()
            return shared[key]
        return make()

    cavs = []

    def cavity(k):
        c = el.RFCavity(f"CAV{k}", 0.0, spec["volt"] / spec["ncav"], 1e8, spec["harm"], 2.5e9)
        c.TimeLag = 0.0
        cavs.append(c)
        add("CAV", c)

    cavity(0)
    n = spec["cells"]
    for i in range(n):
        j = spec["jitter"]
        d = [round(0.5 + r.uniform(-j, j), 4) for _ in range(5)]
        add("GS", el.Marker(f"GS{i}"))
        add("BPM", el.Monitor(f"BPM{i}"))
        if spec["thin"]:
            add("CM", el.Corrector(f"CM{i}", 0.0, np.zeros(2), PolynomA=np.zeros(2), PolynomB=np.zeros(2)))
        add("D", common("D0", lambda: el.Drift("DR", 0.5)) if spec["shared"] else el.Drift(f"DR{i}", d[0]))
        add("QF", el.Quadrupole(f"QF{i}", 0.3, spec["kf"]))
        add("D", el.Drift(f"DR{i}", d[1]))
        ang, lb = spec["angle"], 0.9
        parts = [1.0]
        if spec["split"]:
            parts = [0.5, 0.5] if spec["nchild"] == 1 else [0.4, 0.35, 0.25]
        bend = [f * (1 + c * spec.get("curv", 0.0)) for f, c in zip(parts, {1: [0], 2: [1, -1], 3: [1, -1, -.2]}[len(parts)])]
        for p, frac in enumerate(parts):
            add("B" if p == 0 else f"Bc{p}", el.Dipole(f"B{'abc'[p]}{i}", lb * frac, ang * bend[p], spec["cf"]))
        add("D", common("D2", lambda: el.Drift("DS", 0.45)) if spec["shared"] else el.Drift(f"DS{i}", d[2]))
        add("GE", el.Marker(f"GE{i}"))
        if spec["ncav"] == 2 and i == n // 2:
            cavity(1)
        add("BPM", el.Monitor(f"BPN{i}"))
        add("QD", el.Quadrupole(f"QD{i}", 0.3, spec["kd"]))
        add("D", el.Drift(f"DT{i}", d[3]))
        sf = el.Sextupole(f"SF{i}", 0.12, spec["ks"])
        add("SF", sf)
        if spec["skew"]:
            add("SQ", el.Multipole(f"SQ{i}", 0.1, [0.0, 0.0], [0.0, 0.0]))
        add("D", el.Drift(f"DU{i}", d[4]))
        add("SD", el.Sextupole(f"SD{i}", 0.1, -0.7 * spec["ks"]))
    circ = sum(float(getattr(e, "Length", 0.0)) for e in els)
    for c in cavs:
        c.Frequency = spec["harm"] * C0 / circ
        c.HarmNumber = spec["harm"]
    if spec["aper"]:
        for i, e in enumerate(els):
            if e.FamName[:2] in ("QF", "QD", "SF"):
                if spec["aper"] == 2 and i % 3 == 0:
                    e.RApertures = np.array([-0.02, 0.02, -0.015, 0.015])
                else:
                    e.EApertures = np.array([0.02, 0.015])
    ring = Lattice(els, name="sim", energy=2.5e9, periodicity=1)
    return ring, groups


def gen_support_pairs(r, groups, nels, kind):
    """start/end ordinates of non-overlapping girders, or of long sections/plinths (possibly across injection)"""
    gs, ge = groups["GS"], groups["GE"]
    n = len(gs)
    if r.random() < 0.35:             # anywhere, ending on magnets, monitors or drifts alike
        k = r.randint(1, min(4, nels // 8))
        ends = sorted(r.sample(range(nels), 2 * k))
        if r.random() < 0.5:          # the last support crosses the injection point
            ends = ends[1:] + ends[:1]
        return [ends[0::2], ends[1::2]]
    if kind == "Girder":
        idx = sorted(r.sample(range(n), r.randint(1, n)))
        return [[gs[i] for i in idx], [ge[i] for i in idx]]
    if kind == "Plinth":
        idx = sorted(r.sample(range(n), r.randint(1, max(1, n - 1))))
        return [[gs[i] + 1 for i in idx], [ge[i] + 1 for i in idx]]   # offset by one element: other endpoints
    if r.random() < 0.4 and n >= 3:   # wraps around the injection point
        return [[gs[n - 1] - 1], [ge[0] - 1]]
    k = r.randint(1, n - 1)
    return [[gs[0], gs[k] + 2], [gs[k] + 1 if k else ge[0], ge[n - 1] - 1]] if r.random() < 0.5 else [[gs[0]], [ge[n - 1] - 1]]
