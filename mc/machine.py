"""Operation sequences over one estimator instance, executed statelessly from scratch.

A sequence is replayed on a new instance for every word (no snapshots of the instance under test,
so hidden per-instance caches cannot be lost by the exploration itself).
"""
from __future__ import annotations

import numpy as np

from mc import space as S


def full_obs(est, probe):
    """Everything observable, with precision-based quantities only when they are well defined."""
    o = S.observe(est, full=True)
    if o["n"] < 1:
        return o
    o["nf"] = est.n_features_in_
    if S.cond(o["cov"]) < 1e5:
        o["prec"] = np.array(est.precision_)
        o["gp"] = np.array(est.get_precision())
        o["score"] = float(est.score(probe))
        o["maha"] = np.array(est.mahalanobis(probe))
    return o


def same_full(a, b, scale):
    if a.get("n") != b.get("n"):
        return f"n_samples_ {b.get('n')} instead of {a.get('n')}"
    if a.get("nf") != b.get("nf"):
        return f"n_features_in_ {b.get('nf')} instead of {a.get('nf')}"
    for k, v in a.items():
        if k in ("n", "nf"):
            continue
        if k not in b:
            if k in ("prec", "gp", "score", "maha"):
                continue
            return f"{k} missing"
        tol = 1e-4 if k in ("prec", "gp", "score", "maha") else 1e-8
        at = 1e-11 * scale * scale if k == "cov" else 1e-9
        if not S.close(v, b[k], tol, at):
            return f"{k}: {np.asarray(b[k]).tolist()} instead of {np.asarray(v).tolist()}"[:500]
    return None


class Reference:
    """Expected observation of a history = a fresh instance fed those rows one by one, unread."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.memo = {}

    def __call__(self, hist, width):
        key = tuple(hist)
        if key not in self.memo:
            est = S.make(self.cfg)
            for r in hist:
                est.partial_fit(np.array(r))
            self.memo[key] = full_obs(est, S.stream(3, width or 2, seed=8))
        return self.memo[key]


def nsamples(cfg, hist):
    return max(len(hist) - 1, 0) if cfg[1].get("diff") else len(hist)
