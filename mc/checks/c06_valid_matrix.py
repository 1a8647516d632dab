"""C06: every estimate is a valid covariance matrix, whatever finite data has been seen.

All observation words over degenerate alphabets (zero, tiny, gross, one-sided, collinear rows),
from scratch and from the burn-in boundary, and single/double deviations at every position of long
streams, for every estimator, parameter extreme and width.
"""
from __future__ import annotations

import copy

import numpy as np

from mc import space as S

PROPERTY = "C06"
LEVEL = "model_checking"
ASSUMPTIONS = ["finite observations with magnitudes between 1e-6 and 1e3 (no overflow of squares)"]


def extreme_configs():
    out = []
    for r in (1.0, 0.9, 0.5, 0.2):
        out += S.base_configs(r, extra=False)[1:]
    for g in (0.0, 0.5, 1.0):
        for nb in (1, 2, 3, 9):
            for it in ("linear", "geodesic"):
                out.append(["SchurCovariance", {"r": 0.2, "n_blocks": nb, "gamma": g, "interpolation": it}])
    for nb in (1, 2, 3, 9):
        for n in ("BlockCovariance", "SchurLedoitWolfCovariance", "SchurConditionalCovariance"):
            out.append([n, {"r": 0.2, "n_blocks": nb}])
    for d in (0.0, 0.5, 1.0):
        for t in ("identity", "constant_correlation"):
            out.append(["ShrunkCovariance", {"r": 0.2, "delta": d, "target": t}])
    for k in (1, 2, 3, 9):
        for r in (0.2, 0.9):
            out.append(["FactorCovariance", {"r": r, "k": k}])
    for c in (0.1, 1.0, 5.0):
        out.append(["HuberCovariance", {"r": 0.2, "c": c}])
    for m in (0.3, 1.0):
        out.append(["AdaptiveEwaCovariance", {"r": 0.2, "max_r": m}])
    for v in (0.9, 0.02):
        out.append(["DCCCovariance", {"r": 0.2, "vol_r": v}])
    return out


def cases(tier):
    th = tier == "thorough"
    out = []
    cfgs = S.with_diff(S.base_configs(0.3)) + extreme_configs() + S.conditional_configs(0.3)
    for c in cfgs:
        out.append({"kind": "tree", "cfg": c, "p": 2, "letters": "zuvetb", "depth": 6 if th else 4, "prefix": 0, "cost": 2})
        out.append({"kind": "tree", "cfg": c, "p": 3, "letters": "zub", "depth": 8 if th else 6, "prefix": 0, "cost": 2})
        out.append({"kind": "tree", "cfg": c, "p": 1, "letters": "zuvtb", "depth": 4, "prefix": 0})
        out.append({"kind": "tree", "cfg": c, "p": 7, "letters": "zubw", "depth": 3, "prefix": 0})
        out.append({"kind": "tree", "cfg": c, "p": 3, "letters": "zutbe", "depth": 4 if th else 3, "prefix": 4})
        for shape in ("const", "zero", "dup", "lin"):
            out.append({"kind": "tree", "cfg": c, "p": 3, "letters": "zuwb", "depth": 5 if th else 3, "prefix": 0, "shape": shape})
    for c in S.with_diff(S.base_configs(None)) + S.conditional_configs(None):
        out.append({"kind": "deviate", "cfg": c, "p": 3, "n": 80 if th else 34, "cost": 3})
        out.append({"kind": "deviate", "cfg": c, "p": 12, "n": 24, "few": True, "cost": 3})
        out.append({"kind": "deviate", "cfg": c, "p": 36, "n": 22, "few": True, "cost": 5})
        out.append({"kind": "longrun", "cfg": c, "p": 70, "n": 24, "cost": 3})
        out.append({"kind": "longrun", "cfg": c, "p": 130, "n": 6, "cost": 3})
    for r, n in ((0.01, 130), (0.002, 300)):
        for c in S.base_configs(r, extra=False)[1:]:
            out.append({"kind": "longrun", "cfg": c, "p": 4, "n": n * (3 if th else 1)})
    for c in S.base_configs(None):
        out.append({"kind": "longrun", "cfg": c, "p": 2, "n": 1100})
    return out


def validate(rec, est, p, how):
    rec.state()
    C = est.covariance_
    if C.shape != (p, p) or not np.isfinite(C).all():
        rec.violate("covariance_ is not a finite p x p matrix", got=C, how=how)
        return
    top = max(float(np.abs(C).max()), 1e-300)
    rec.check(np.abs(C - C.T).max() <= 1e-12 * top, "covariance_ not symmetric", got=C, how=how)
    lo = np.linalg.eigvalsh(C)[0]
    rec.check(lo >= -1e-9 * top * p, "covariance_ not positive semi-definite", eig=lo, got=C, how=how)
    m = est.location_
    rec.check(m.shape == (p,) and np.isfinite(m).all(), "location_ invalid", got=m, how=how)
    R = est.correlation_
    ok = R.shape == (p, p) and np.isfinite(R).all()
    rec.check(ok, "correlation_ is not a finite p x p matrix", got=R, how=how)
    if ok:
        rec.check(np.abs(R - R.T).max() <= 1e-12, "correlation_ not symmetric", got=R, how=how)
        sig = (np.diag(C) <= 0) | (np.diag(C) > 1e-16 * top)  # else rounding noise of a constant
        rec.check(np.abs(R[np.ix_(sig, sig)]).max(initial=0) <= 1 + 1e-6, "correlation_ outside [-1, 1]", got=R, how=how)
        dg = np.diag(R)[np.diag(C) > 1e-22]
        rec.check(np.abs(dg - 1).max() <= 1e-9 if dg.size else True,
                  "correlation_ without unit diagonal", got=np.diag(R), variances=np.diag(C), how=how)
    P = est.precision_
    rec.check(P.shape == (p, p), "precision_ has the wrong shape", how=how)


def degenerate(x, shape):
    """Rows restricted to a constant, duplicated or collinear variable."""
    x = x.copy()
    if shape == "const":
        x[0] = 3.0
    elif shape == "zero":
        x[-1] = 0.0
    elif shape == "dup":
        x[-1] = x[0]
    elif shape == "lin":
        x[-1] = 2.0 * x[0] - x[1]
    return x


def tree(rec, cfg, est, L, depth, p, word):
    for a, x in L.items():
        e = copy.deepcopy(est)
        e.partial_fit(x)
        rec.trans()
        w = word + a
        if e.n_samples_ >= 1:
            validate(rec, e, p, w)
        if depth > 1:
            tree(rec, cfg, e, L, depth - 1, p, w)
        else:
            rec.trace()
            rec.sample({"word": w})


def run(case, rec):
    from precise.base import NotFittedError

    cfg, p = case["cfg"], case["p"]
    if case["kind"] == "tree":
        est = S.make(cfg)
        probe = np.ones((2, p))
        for f in (lambda: est.covariance_, lambda: est.location_, lambda: est.correlation_,
                  lambda: est.precision_, lambda: est.get_precision(), lambda: est.score(probe),
                  lambda: est.mahalanobis(probe)):
            try:
                f()
            except NotFittedError:
                continue
            rec.violate("no NotFittedError before the first observation")
        rec.check(est.n_samples_ == 0, "n_samples_ before data")
        if case["prefix"]:
            est.partial_fit(S.stream(case["prefix"], p, seed=22))
        L = S.letters(p, case["letters"])
        tree(rec, cfg, est, {a: degenerate(x, case.get("shape")) for a, x in L.items()}, case["depth"], p, "")
    elif case["kind"] == "deviate":
        n = case["n"]
        X = S.stream(n, p, seed=23)
        base = S.make(cfg)
        kinds = S.DEVIATIONS[:3] if case.get("few") else S.DEVIATIONS
        for t in range(n):
            for k in kinds:
                e = copy.deepcopy(base)
                x = S.deviate(X, t, k)
                for reps in (1, 2, 3):
                    e.partial_fit(x)
                    rec.trans()
                    if e.n_samples_ >= 1:
                        validate(rec, e, p, {"deviation": k, "at": t, "reps": reps})
                for u in range(t + 1, min(t + 4, n)):
                    e.partial_fit(X[u])
                    rec.trans()
                    validate(rec, e, p, {"deviation": k, "at": t, "after": u})
                rec.trace()
            base.partial_fit(X[t])
    else:
        X = S.stream(case["n"], p, seed=24)
        est = S.make(cfg)
        for t, x in enumerate(X):
            est.partial_fit(x)
            rec.trans()
            if est.n_samples_ >= 1:
                validate(rec, est, p, {"t": t})
        # then a dead feed: the same row over and over, then zeros
        for x in [X[-1]] * 40 + [np.zeros(p)] * 40:
            est.partial_fit(x)
            rec.trans()
            validate(rec, est, p, {"dead feed": x})
        rec.trace()
