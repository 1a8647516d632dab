"""The bounded spaces: deterministic streams, alphabets, estimator configurations."""
from __future__ import annotations

import itertools
import math

import numpy as np


def _hash(*ks):
    """splitmix64 of a few small integers, as a float in [-1, 1): fixed, not seeded."""
    h = 0x9E3779B97F4A7C15
    for k in ks:
        h = (h ^ (k + 0x9E3779B97F4A7C15)) & 0xFFFFFFFFFFFFFFFF
        h = ((h ^ (h >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        h = ((h ^ (h >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 31
    return h / 2.0**63 - 1.0


def row(t, p, seed=0):
    """Row t of a fixed, well-conditioned pseudo-noise stream with a common factor."""
    common = _hash(seed, t, 0)
    out = np.empty(p)
    for i in range(p):
        out[i] = (1.0 + 0.3 * i) * (1.3 * _hash(seed, t, i + 1) + 0.8 * ((-1) ** (i // 2)) * common)
    return out


_CACHE = {}


def stream(n, p, seed=0):
    key = (p, seed)
    have = _CACHE.get(key)
    if have is None or len(have) < n:
        have = np.array([row(t, p, seed) for t in range(max(n, 64))])
        _CACHE[key] = have
    return have[:n].copy()


def letters(p, kinds):
    """Named small observations used as alphabet of the operation trees."""
    out = {}
    i = np.arange(p)
    sgn = np.where(i % 2 == 0, 1.0, -1.0)
    table = {
        "z": np.zeros(p),
        "u": 1.0 + i,                                # all positive
        "v": sgn * (2.0 + 0.5 * i),                  # alternating
        "n": -(0.5 + 0.25 * i),                      # all negative
        "e": np.where(i == 0, 3.0, 0.0),             # one coordinate only
        "l": np.where(i == p - 1, -2.0, 1.0),
        "b": sgn * 40.0 + i,                         # gross outlier
        "t": 1e-3 * (1 + i) * sgn,                   # tiny
        "q": 0.7 * np.cos(1.0 + 2.0 * i),
        "w": 1.9 * np.sin(2.0 + 3.0 * i) + 0.3,
    }
    for k in kinds:
        out[k] = table[k].astype(float)
    return out


DEVIATIONS = ["zero", "big", "repeat", "neg", "single", "tiny", "huge1"]


def deviate(X, t, kind):
    """Row t of stream X replaced by an unusual one."""
    p = X.shape[1]
    x = X[t].copy()
    if kind == "zero":
        return np.zeros(p)
    if kind == "big":
        return 60.0 * np.where(np.arange(p) % 2 == 0, 1.0, -0.7) + x
    if kind == "repeat":
        return X[t - 1].copy() if t else x
    if kind == "neg":
        return -x
    if kind == "single":
        y = np.zeros(p)
        y[t % p] = 5.0
        return y
    if kind == "tiny":
        return x * 1e-6
    if kind == "huge1":
        x[t % p] += 900.0
        return x
    raise KeyError(kind)


def compositions(n):
    """All ways to cut n rows into consecutive chunks: 2**(n-1) of them."""
    for cut in itertools.product((0, 1), repeat=n - 1):
        parts, size = [], 1
        for c in cut:
            if c:
                parts.append(size)
                size = 1
            else:
                size += 1
        parts.append(size)
        yield parts


def n_burn(r):
    return int(min(250, max(5, math.ceil(1.0 / r))))


# --------------------------------------------------------------------- configurations
# Estimators that invert their own running estimate to update it: two executions that differ
# by rounding only may be amplified by an ill-conditioned running matrix.
INVERTERS = {"HuberCovariance", "AdaptiveEwaCovariance", "TylerCovariance",
             "GeodesicEwaCovariance"}
HAS_R = ["DiagonalCovariance", "BlockCovariance", "EwaCovariance", "AdaptiveEwaCovariance",
         "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance",
         "SchurConditionalCovariance", "SchurLedoitWolfCovariance", "PartialMomentsCovariance",
         "HuberCovariance", "TylerCovariance", "GeodesicEwaCovariance", "DCCCovariance",
         "FactorCovariance"]
ALL17 = ["EmpiricalCovariance"] + HAS_R


def make(cfg):
    """cfg = [class name, params]; ConditionalCovariance params hold nested cfgs."""
    import precise

    name, params = cfg
    kw = {}
    for k, v in params.items():
        if isinstance(v, list) and v and isinstance(v[0], str):
            v = precise.from_skater(mini_skater) if v[0] == "skater" else make(v)
        kw[k] = v
    return getattr(precise, name)(**kw)


class Dist:
    def __init__(self, mean, std):
        self.mean = mean
        self.std = std


def mini_skater(y, state):
    """A tiny EWMA volatility skater: f(y, state) -> (dists, state)."""
    if state is None:
        state = (0, 0.0, 1.0)
    n, m, v = state
    n += 1
    g = max(1.0 / n, 0.2)
    d = y - m
    m = m + g * d
    v = (1 - g) * v + g * d * d
    return [Dist(m, math.sqrt(max(v, 1e-6))), Dist(99.0, 99.0)], (n, m, v)


def base_configs(r=None, extra=True):
    """One or more configurations per estimator at decay rate r (default rate if None)."""
    rr = {} if r is None else {"r": r}
    out = [["EmpiricalCovariance", {}]]
    for name in HAS_R:
        out.append([name, dict(rr)])
    if extra:
        out += [
            ["BlockCovariance", {**rr, "n_blocks": 2}],
            ["SchurCovariance", {**rr, "n_blocks": 2, "gamma": 0.3, "interpolation": "geodesic"}],
            ["SchurCovariance", {**rr, "n_blocks": 3, "gamma": 1.0}],
            ["SchurLedoitWolfCovariance", {**rr, "n_blocks": 2}],
            ["SchurConditionalCovariance", {**rr, "n_blocks": 2}],
            ["ShrunkCovariance", {**rr, "delta": 0.6, "target": "identity"}],
            ["FactorCovariance", {**rr, "k": 1}],
            ["FactorCovariance", {**rr, "k": 5}],
            ["HuberCovariance", {**rr, "c": 0.6}],
            ["AdaptiveEwaCovariance", {**rr, "max_r": 0.2}],
            ["DCCCovariance", {**rr, "vol_r": 0.25}],
        ]
    return out


def odd_configs(r=1 / 7):
    """Parameters that no rounding leaves alone."""
    out = [[n, {"r": r}] for n in HAS_R]
    return out + [["ShrunkCovariance", {"r": 0.123456789, "delta": 0.123456789}],
                  ["ShrunkCovariance", {"r": r, "delta": 1 / 3, "target": "identity"}],
                  ["SchurCovariance", {"r": r, "gamma": 0.376543219, "n_blocks": 3}],
                  ["SchurCovariance", {"r": 0.2345678, "gamma": 2 / 3, "n_blocks": 2, "interpolation": "geodesic"}],
                  ["HuberCovariance", {"r": r, "c": 1.3456789}], ["AdaptiveEwaCovariance", {"r": r, "max_r": 0.345678912}],
                  ["DCCCovariance", {"r": r, "vol_r": 0.1234567891}], ["FactorCovariance", {"r": r, "k": 2}]]


def conditional_configs(r=None):
    rr = {} if r is None else {"r": r}
    return [
        ["ConditionalCovariance", {}],
        ["ConditionalCovariance", {"vol": ["EwaCovariance", dict(rr)],
                                   "corr": ["LedoitWolfCovariance", dict(rr)]}],
        ["ConditionalCovariance", {"vol": ["skater"], "corr": ["EwaCovariance", dict(rr)]}],
        ["ConditionalCovariance", {"vol": ["DiagonalCovariance", {"r": 0.3}],
                                   "corr": ["TylerCovariance", dict(rr)]}],
    ]


def nested_configs(r=None):
    """Sub-models whose own state holds nested containers."""
    rr = {} if r is None else {"r": r}
    return [["ConditionalCovariance", {"vol": ["FactorCovariance", {**rr, "k": 1}],
                                       "corr": ["BlockCovariance", {**rr, "n_blocks": 2}]}],
            ["ConditionalCovariance", {"vol": ["BlockCovariance", dict(rr)], "corr": ["FactorCovariance", dict(rr)]}]]


def with_diff(cfgs):
    return cfgs + [[n, {**p, "diff": True}] for n, p in cfgs if n != "ConditionalCovariance"]


# --------------------------------------------------------------------- observation
def observe(est, full=False):
    """What a user sees of an estimator (None while unfitted)."""
    if est.n_samples_ < 1:
        return {"n": est.n_samples_}
    g = getattr(est, "gamma_", None)  # before the covariance is read: it may not depend on that
    o = {"n": est.n_samples_, "cov": np.array(est.covariance_), "loc": np.array(est.location_)}
    if g is not None:
        o["gamma_"] = float(g)
    if full:
        o["corr"] = np.array(est.correlation_)
    return o


def close(a, b, rtol=1e-8, atol=0.0):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if np.array_equal(a, b, equal_nan=True):
        return True
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return False
    scale = max(np.abs(a).max(), np.abs(b).max())
    return bool(np.abs(a - b).max() <= rtol * scale + atol)


def same_obs(a, b, rtol=1e-8, scale=1.0):
    """None if equal up to rounding, else the name of the first observable that differs."""
    if a.get("n") != b.get("n"):
        return f"n_samples_ {a.get('n')} != {b.get('n')}"
    for k in a:
        if k == "n":
            continue
        if k not in b:
            return f"{k} missing"
        at = 1e-11 * (scale * scale if k == "cov" else scale if k == "loc" else 1.0)
        if not close(a[k], b[k], rtol, at):
            return f"{k}: {np.asarray(a[k]).tolist()} != {np.asarray(b[k]).tolist()}"[:400]
    return None


def data_scale(X):
    X = np.asarray(X, dtype=float)
    return float(np.abs(X).max()) if X.size else 1.0


def cond(C):
    try:
        ev = np.linalg.eigvalsh(np.asarray(C, dtype=float))
    except Exception:
        return np.inf
    if not np.isfinite(ev).all() or ev[-1] <= 0:
        return np.inf
    return np.inf if ev[0] <= 0 else float(ev[-1] / ev[0])
