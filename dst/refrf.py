"""What the RF corrections make of their readings: the documented fits in closed form."""
import numpy as np


def line(x, y, w):
    """weighted straight line -> (slope, intercept), covariance"""
    a = np.column_stack([x, np.ones(len(x))]) * w[:, None]
    cov = np.linalg.inv(a.T @ a)
    return cov @ (a.T @ (y * w)), cov


def energy_shift(x):
    """x (turns, BPMs) -> mean drift of the horizontal position per turn and its error, or None"""
    mean = np.mean(x - x[0], axis=1)
    err = np.std(x, axis=1) / np.sqrt(x.shape[1])
    ok = ~np.isnan(mean)
    if ok.sum() < 3:
        return None
    p, cov = line(np.arange(len(x))[ok].astype(float), mean[ok], 1 / (err[ok] + 1e-9))
    return p[0], np.sqrt(cov[0, 0])


def scan(readings, steps):
    got = [(s, *e) for s, e in zip(steps, map(energy_shift, readings)) if e is not None]
    return np.array(got).reshape(-1, 3).T


def expect_frequency(readings, steps):
    """-> step, signal in units of two standard deviations; step None if there are too few points"""
    x, y, e = scan(readings, steps)
    if len(x) < 3:
        return None, 0.0
    p, cov = line(x, y, 1 / e)
    return -p[1] / p[0], min(abs(p[0]) / (2 * np.sqrt(cov[0, 0])), abs(p[1]) / (2 * np.sqrt(cov[1, 1])))


def expect_phase(readings, steps, lam):
    """-> step, signal in units of two standard deviations, offset in units of the amplitude"""
    x, y, e = scan(readings, steps)
    if len(x) < 6:
        return None, 0.0, 0.0
    a = np.column_stack([np.sin(2 * np.pi * x / lam), np.cos(2 * np.pi * x / lam), np.ones(len(x))]) / e[:, None]
    if np.linalg.cond(a) > 1e6:
        return np.nan, 0.0, 0.0
    cov = np.linalg.inv(a.T @ a)
    s, c, mean = cov @ (a.T @ (y / e))
    amp = np.hypot(s, c)
    g = np.array([s, c]) / amp
    signal = min(amp / (2 * np.sqrt(g @ cov[:2, :2] @ g)), abs(mean) / (2 * np.sqrt(cov[2, 2])))
    if abs(mean) > amp:
        return np.nan, signal, abs(mean) / amp
    step = (np.arcsin(-mean / amp) - np.arctan2(c, s)) / (2 * np.pi) * lam
    step -= lam * np.round(step / lam)
    return step, signal, abs(mean) / amp
