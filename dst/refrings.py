"""Independent evaluation of responses on the design lattice or on the setpoint model (real AT, no pySC)."""
import numpy as np

from dst.seams import real


def model_ring(m, ideal):
    ring = m.SC.IDEALRING.deepcopy()
    for i in range(len(ring)):
        ring[i] = ring[i].deepcopy()
    if not ideal:
        for o in m.mags:
            src = m.SC.RING[o]
            a, b = np.array(src.SetPointA, float), np.array(src.SetPointB, float)
            a[0] = b[0] = 0.0
            ring[o].PolynomA, ring[o].PolynomB = a, b
        for o in m.cavs:
            for p in ("Voltage", "Frequency", "TimeLag"):
                setattr(ring[o], p, getattr(m.SC.RING[o], p + "SetPoint"))
    return ring


def _look(ring, mode, z, nt, refs):
    if mode == "ORB":
        orb = real("find_orbit6")(ring.deepcopy(), refs)[1]
        return np.transpose(orb)[[0, 2]].reshape(2, 1, len(refs), 1)
    out = real("lattice_track")(ring.deepcopy(), np.array(z, float), nt, refs, keep_lattice=False, in_place=False)[0]
    return out[[0, 2]]


def _flat(d):
    return np.concatenate([np.ravel(np.transpose(d[k], (2, 1, 0))) for k in range(2)])


def response(ring, what, a, bpms, z, hcm, vcm, cavs):
    mode, nt = a["mode"], (1 if a["mode"] == "ORB" else a.get("nt", 1))
    base = _look(ring, mode, z, nt, bpms)
    cols = []
    if what == "disp":
        step = a.get("step", 1e3)
        for o in cavs:
            ring[o].Frequency += step
        out = _flat((_look(ring, mode, z, nt, bpms) - base) / step)
        return out, float(np.nanmax(np.abs(out)) if np.any(np.isfinite(out)) else 1.0)
    dk = a.get("dkick", 1e-5)
    for dim, ords in enumerate((hcm, vcm)):
        for o in ords:
            e = ring[o]
            if e.PassMethod == "CorrectorPass":
                k0 = np.array(e.KickAngle, float)
                k = k0.copy()
                k[dim] += dk
                e.KickAngle = k
                r = _look(ring, mode, z, nt, bpms)
                e.KickAngle = k0
            else:
                ab = "BA"[dim]
                p0 = np.array(getattr(e, "Polynom" + ab), float)
                p = p0.copy()
                p[0] += (-1) ** (dim + 1) * dk / e.Length
                setattr(e, "Polynom" + ab, p)
                r = _look(ring, mode, z, nt, bpms)
                setattr(e, "Polynom" + ab, p0)
            cols.append(_flat((r - base) / dk))
    out = np.array(cols).T
    return out, float(np.nanmax(np.abs(out)) if np.any(np.isfinite(out)) else 1.0)
