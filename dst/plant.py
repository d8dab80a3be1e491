"""A linear storage ring behind the tracking seam: positions follow from the dipole kicks in the lattice that is tracked.

The optics are fixed (drawn from the plant's seed) and do not depend on the quadrupoles, so that every response is
exactly known.  Particles are lost at apertures and gates; the same formulas serve the tracker stub and the reference
algorithms, which call ``positions`` with their own idea of the kicks.
"""
import math

import numpy as np

from dst.base import h64
from dst.beamworld import norm_refs


def gen_plant(r, **force):
    cfg = dict(seed=r.randrange(1 << 30), q=[round(r.uniform(2.1, 2.4), 4), round(r.uniform(1.6, 1.9), 4)], beta=r.choice([4.0, 8.0]),
               nerr=r.choice([0, 2, 5]), err=r.choice([1e-5, 5e-5, 2e-4]), ap=r.choice([None, None, 1.5e-2, 6e-3, 3e-3]), gates=[],
               eta=round(r.uniform(.1, .6), 3), rf=None)
    cfg.update(force)
    return cfg


class Plant:
    def __init__(self, ring, cfg, cavs=()):
        self.cfg, self.n = cfg, len(ring)
        g = np.random.Generator(np.random.PCG64(h64(cfg["seed"], "plant")))
        length = np.array([float(getattr(e, "Length", 0.0)) for e in ring])
        s = np.concatenate(([0.0], np.cumsum(length)))
        self.s, self.circ = s, s[-1]
        self.q = np.array(cfg["q"], float)
        mid = s[:-1] + length / 2
        self.phi = 2 * np.pi * self.q[:, None] * s[None] / self.circ          # at reference points
        self.phi_c = 2 * np.pi * self.q[:, None] * mid[None] / self.circ      # at the kick of an element
        b = cfg["beta"]
        self.beta = b * g.uniform(.6, 1.5, (2, self.n + 1))
        self.beta_c = b * g.uniform(.6, 1.5, (2, self.n))
        self.err = np.zeros((2, self.n))
        for _ in range(cfg["nerr"]):
            self.err[g.integers(0, 2), g.integers(0, self.n)] += cfg["err"] * g.uniform(-1, 1) * 2
        spread = cfg.get("eta_spread", .5)
        self.eta = cfg["eta"] * g.uniform(1 - spread, 1 + spread, self.n + 1)
        self.before = np.arange(self.n)[None, :] < np.arange(self.n + 1)[:, None]    # element c acts on reference point r
        self.cavs = list(cavs)
        self.seen_rf = {}             # range of frequencies each cavity had while the beam was tracked
        self.f0 = [float(ring[o].Frequency) for o in self.cavs]
        self.cache = {}
        # gates: ordinate, plane, centre of the allowed window, half width
        self.gates = cfg.get("gates", [])
        self.off = False

    def response_tbt(self, d, nturns):
        key = (d, nturns)
        if key not in self.cache:
            dphi = self.phi[d][:, None] - self.phi_c[d][None]
            amp = np.sqrt(self.beta[d][:, None] * self.beta_c[d][None])
            m = np.zeros((nturns, self.n + 1, self.n))
            for t in range(nturns):
                for age in range(t + 1):
                    part = amp * np.sin(dphi + 2 * np.pi * self.q[d] * age)
                    m[t] += part * self.before if age == 0 else part
            self.cache[key] = m
        return self.cache[key]

    def response_orb(self, d):
        key = (d, "orb")
        if key not in self.cache:
            dphi = self.phi[d][:, None] - self.phi_c[d][None]
            q = self.q[d]
            self.cache[key] = (np.sqrt(self.beta[d][:, None] * self.beta_c[d][None]) * np.cos(np.abs(dphi) - np.pi * q) / (2 * math.sin(np.pi * q)))
        return self.cache[key]

    # ------------------------------------------------------------------ what the lattice says
    def kicks(self, lattice):
        th = np.zeros((2, self.n))
        for i, e in enumerate(lattice):
            if getattr(e, "PassMethod", "") == "CorrectorPass":
                k = np.asarray(e.KickAngle, float)
                th[:, i] = k[:2]
            elif hasattr(e, "PolynomB"):
                ln = float(e.Length)
                th[0, i] = -float(e.PolynomB[0]) * ln
                th[1, i] = float(e.PolynomA[0]) * ln
        return th

    def rf(self, lattice):
        if not self.cavs:
            return 0.0, np.zeros(1)
        for o in self.cavs:
            f = float(lattice[o].Frequency)
            lo, hi = self.seen_rf.get(o, (f, f))
            self.seen_rf[o] = (min(lo, f), max(hi, f))
        return (float(np.mean([lattice[o].Frequency - f for o, f in zip(self.cavs, self.f0)])),
                np.array([float(getattr(lattice[o], "TimeLag", 0.0)) for o in self.cavs]))

    # ------------------------------------------------------------------ positions
    def positions(self, th, z, df, lag, nturns):
        """(2, refs, turns) for one particle, before losses"""
        x = np.zeros((2, self.n + 1, nturns))
        t = np.arange(nturns)[None]
        for d in range(2):
            kick = th[d] + self.err[d]
            x[d] = (self.response_tbt(d, nturns) @ kick).T
            ph = self.phi[d][:, None] + 2 * np.pi * self.q[d] * t
            b0 = self.beta[d][0]
            x[d] += np.sqrt(self.beta[d][:, None] / b0) * np.cos(ph) * z[2 * d] + np.sqrt(self.beta[d][:, None] * b0) * np.sin(ph) * z[2 * d + 1]
        c = self.cfg.get("rf")
        if c:
            lam = c["lam"]
            gain = c["amp"] * np.mean(np.sin(2 * np.pi * lag / lam + c["psi"])) + c["off"] + c["per_hz"] * (df - c["df0"])
            x[0] += self.eta[:, None] * gain * t
        return x

    def orbit(self, th, df):
        x = np.zeros((2, self.n + 1))
        for d in range(2):
            x[d] = self.response_orb(d) @ (th[d] + self.err[d])
        x[0] += self.eta * df * self.cfg.get("orb_per_hz", 1e-7)
        return x

    def lost(self, x):
        """(refs, turns) mask: lost at or before this point"""
        ap = self.cfg.get("ap")
        bad = np.zeros(x.shape[1:], bool)
        if self.off:
            return bad
        if ap:
            bad |= (np.abs(x[0]) > ap) | (np.abs(x[1]) > ap * .8)
        for g in self.gates:
            bad[g["at"]] |= np.abs(x[g["plane"], g["at"]] - g["c"]) > g["w"]
        flat = bad.T.ravel()
        return np.maximum.accumulate(flat).reshape(x.shape[2], x.shape[1]).T

    # ------------------------------------------------------------------ seams
    def track(self, sim, lattice, r_in, nturns, refpts):
        refs = norm_refs(refpts, self.n)
        r_in = np.asarray(r_in, float).reshape(6, -1)
        th = self.kicks(lattice)
        df, lag = self.rf(lattice)
        out = np.zeros((6, r_in.shape[1], len(refs), nturns))
        for p in range(r_in.shape[1]):
            x = self.positions(th, r_in[:, p], df, lag, nturns)
            m = self.lost(x)
            x[:, m] = np.nan
            out[0, p], out[2, p] = x[0][refs], x[1][refs]
            out[1::2, p][:, m[refs]] = np.nan
            out[4, p][m[refs]] = np.nan
        return out

    def find_orbit(self, sim, lattice, refpts):
        refs = norm_refs(refpts if refpts is not None else [0], self.n)
        th = self.kicks(lattice)
        x = self.orbit(th, self.rf(lattice)[0])
        out = np.zeros((len(refs), 6))
        if self.lost(x[:, :, None])[-1, 0]:
            return np.full(6, np.nan), np.full((len(refs), 6), np.nan)
        out[:, 0], out[:, 2] = x[0][refs], x[1][refs]
        return np.zeros(6), out

    # ------------------------------------------------------------------ exact responses
    def rm(self, bpms, hcm, vcm, mode, nturns):
        """true response of positions (not readings) to actual kicks, rows: plane, turn, BPM"""
        nt = 1 if mode == "ORB" else nturns
        out = np.zeros((2 * nt * len(bpms), len(hcm) + len(vcm)))
        for d, cms in enumerate((hcm, vcm)):
            m = self.response_orb(d)[None] if mode == "ORB" else self.response_tbt(d, nt)
            blk = m[:, bpms][:, :, cms].reshape(nt * len(bpms), len(cms))
            out[d * nt * len(bpms):(d + 1) * nt * len(bpms), (0 if d == 0 else len(hcm)):(len(hcm) if d == 0 else None)] = blk
        return out

    def dispersion(self, bpms, mode, nturns):
        nt = 1 if mode == "ORB" else nturns
        out = np.zeros(2 * nt * len(bpms))
        if mode == "ORB":
            out[:len(bpms)] = self.eta[bpms] * self.cfg.get("orb_per_hz", 1e-7)
        elif self.cfg.get("rf"):
            for t in range(nt):
                out[t * len(bpms):(t + 1) * len(bpms)] = self.eta[bpms] * self.cfg["rf"]["per_hz"] * t
        return out
