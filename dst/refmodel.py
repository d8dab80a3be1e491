"""Small executable reference models: what setpoints, fields, supports and alignments have to be.

Nothing in here calls the code under test.  Setpoints are tracked from the commands; everything about *errors* is an
argument, because errors are public state of the machine.
"""
import numpy as np


def pad_add(*vs):
    n = max(len(v) for v in vs)
    out = np.zeros(n)
    for v in vs:
        out[:len(v)] += v
    return out


class MagnetModel:
    def __init__(self, pa, pb, length, corrector_pass, bending_angle):
        self.sp = {"A": np.array(pa, float), "B": np.array(pb, float)}
        self.nom = {"A": np.array(pa, float), "B": np.array(pb, float)}
        self.length, self.thin, self.angle = float(length), bool(corrector_pass), bending_angle
        self.limits, self.skewlimit, self.cf, self.children = None, None, False, []
        self.syspol = {}          # (target, source) -> {order: array}
        self.dirty = False

    def clone(self):
        m = MagnetModel(self.sp["A"], self.sp["B"], self.length, self.thin, self.angle)
        m.nom = {k: v.copy() for k, v in self.nom.items()}
        m.limits = None if self.limits is None else list(self.limits)
        m.skewlimit, m.cf, m.children = self.skewlimit, self.cf, list(self.children)
        m.syspol = {k: {o: v.copy() for o, v in d.items()} for k, d in self.syspol.items()}
        m.dirty = self.dirty
        return m

    # ------------------------------------------------------------- corrector commands
    def cm_norm(self, dim):
        return 1.0 if self.thin else (-1.0) ** (dim + 1) * self.length

    def cm_get(self, dim):
        return self.sp["BA"[dim]][0] * self.cm_norm(dim)

    def cm_set(self, dim, x, method):
        cur = self.cm_get(dim)
        v = {"abs": x, "rel": cur * x, "add": cur + x}[method]
        clipped = False
        if self.limits is not None and abs(v) > abs(self.limits[dim]):
            v, clipped = np.sign(v) * self.limits[dim], True
        self.sp["BA"[dim]][0] = v / self.cm_norm(dim)
        return clipped

    def mag_set(self, skew, order, x, method, compensate=False):
        ab = "BA"[int(skew)]
        cur = self.sp[ab][order]
        v = {"abs": x, "rel": self.nom[ab][order] * x, "add": cur + x}[method]
        clipped = False
        if skew and order == 1 and self.skewlimit is not None and abs(v) > self.skewlimit:
            v, clipped = np.sign(v) * self.skewlimit, True
        if compensate and order == 1 and not skew and self.angle and self.nom["B"][1] and self.limits is not None and self.is_hcm:
            self.cm_set(0, (v - self.sp["B"][1]) / self.nom["B"][1] * self.angle, "add")
        self.sp[ab][order] = v
        return clipped

    is_hcm = False


def actual_fields(sp, cal, offset, syspol, src, tgt):
    """(PolynomA, PolynomB) of a target element driven by a source magnet.

    sp/cal: {"A","B"} of the source; offset: {"A","B"} (or None) of the target; syspol: {(target, source): {n: arr}};
    src: dict(bend_err, cf, nom1, has_angle); tgt: dict(angle, length)
    """
    excit = {ab: sp[ab] * pad_add(np.ones(len(sp[ab])), cal[ab])[:len(sp[ab])] for ab in "AB"}
    out = {}
    for t in "AB":
        parts = [excit[t]]
        if offset.get(t) is not None:
            parts.append(offset[t])
        for s in "AB":
            for n, table in (syspol.get((t, s)) or {}).items():
                parts.append(excit[s][n] * np.asarray(table))
        out[t] = pad_add(*parts)
    if src.get("bend_err") is not None and tgt.get("angle") is not None:
        out["B"][0] += float(np.ravel(src["bend_err"])[0]) * tgt["angle"] / tgt["length"]
    if src.get("cf") and src.get("has_angle"):
        alpha = excit["B"][1] / src["nom1"]
        out["B"][0] += (alpha - 1.0) * tgt["angle"] / tgt["length"]
    return out


# ------------------------------------------------------------------ supports
SUPPORTS = ("Section", "Plinth", "Girder")


def support_field(s_pos, supports, own):
    """Offsets (3,N) and rolls (3,N) [az, ax, ay] of the support structures at every element entrance.

    supports: {type: [(start, end), ...]}, own: {(type, ord): (offset3, roll3)}.
    Also returns the boolean mask of element indices whose position is shared with an off-support neighbour.
    """
    n, circ = len(s_pos), s_pos[-1]
    off, roll = np.zeros((3, n)), np.zeros((3, n))
    for typ in SUPPORTS:
        new = off.copy()
        for a, b in supports.get(typ, []):
            p0 = off[:, a] + own[(typ, a)][0]
            p1 = off[:, b] + own[(typ, b)][0]
            idx, u, length = _members(s_pos, a, b, circ)
            for i in range(3):
                new[i, idx] = p0[i] + (p1[i] - p0[i]) * u / length
        off = new
    for typ in SUPPORTS:
        for a, b in supports.get(typ, []):
            idx, u, length = _members(s_pos, a, b, circ)
            roll[0, idx] += own[(typ, a)][1][0]
            roll[1, idx] = (off[1, b] - off[1, a]) / length
            roll[2, idx] = (off[0, b] - off[0, a]) / length
    return off, roll


def _members(s_pos, a, b, circ):
    if s_pos[a] < s_pos[b]:
        idx = np.arange(a, b + 1)
        return idx, s_pos[idx] - s_pos[a], s_pos[b] - s_pos[a]
    idx = np.concatenate((np.arange(a, len(s_pos)), np.arange(0, b + 1)))
    u = np.where(idx >= a, s_pos[idx] - s_pos[a], s_pos[idx] + circ - s_pos[a])
    return idx, u, s_pos[b] + circ - s_pos[a]


def ambiguous(s_pos, off, roll):
    """Elements which share their position with an element that has another support offset or roll."""
    amb = np.zeros(len(s_pos), bool)
    for i in range(len(s_pos)):
        for j in (i - 1, i + 1):
            k = j
            while 0 <= k < len(s_pos) and abs(s_pos[k] - s_pos[i]) < 1e-9:
                if np.any(off[:, k] != off[:, i]) or np.any(roll[:, k] != roll[:, i]):
                    amb[i] = True
                k += j - i
    return amb


def _rot(rx, ry, rz):
    cx, sx, cy, sy, cz, sz = np.cos(rx), np.sin(rx), np.cos(ry), np.sin(ry), np.cos(rz), np.sin(rz)
    mx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    my = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    mz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return mx @ my @ mz


def transformation(length, angle, offsets, rolls):
    """T1, T2, R1, R2 of an element displaced by ``offsets`` [x,y,z] and rotated by ``rolls`` [z, x, y]."""
    rz, rx, ry = rolls
    m = _rot(rx, ry, rz)

    def plane(mat, trans, dist):
        c = mat[2, 2]
        t = np.array([dist * mat[2, 0] / c, mat[2, 0], dist * mat[2, 1] / c, mat[2, 1], 0.0, dist / c]) + trans
        r = np.array([
            [mat[1, 1] / c, dist * mat[1, 1] / c ** 2, -mat[0, 1] / c, -dist * mat[0, 1] / c ** 2, 0, 0],
            [0, mat[0, 0], 0, mat[1, 0], mat[2, 0], 0],
            [-mat[1, 0] / c, -dist * mat[1, 0] / c ** 2, mat[0, 0] / c, dist * mat[0, 0] / c ** 2, 0, 0],
            [0, mat[0, 1], 0, mat[1, 1], mat[2, 1], 0],
            [0, 0, 0, 0, 1, 0],
            [-mat[0, 2] / c, -dist * mat[0, 2] / c ** 2, -mat[1, 2] / c, -dist * mat[1, 2] / c ** 2, 0, 1]])
        return t, r

    xh, yh, zh = m[:, 0], m[:, 1], m[:, 2]
    d = float(zh @ offsets)
    t, r1 = plane(m, np.array([-offsets @ xh, 0, -offsets @ yh, 0, 0, 0]), d)
    t1 = np.linalg.solve(r1, t)
    b = _rot(0.0, -angle, 0.0)
    back = b.T @ m.T @ b
    if angle:
        chord = np.array([length * (np.cos(angle) - 1) / angle, 0.0, length * np.sin(angle) / angle])
    else:
        chord = np.array([0.0, 0.0, length])
    v = chord - m @ chord - offsets
    bx, by, bz = b[:, 0], b[:, 1], b[:, 2]
    d2 = float(bz @ v)
    t2, r2 = plane(back, np.array([-v @ bx, 0, -v @ by, 0, 0, 0]), d2)
    return t1, t2, r1, r2
