"""C11: diff=True on a stream of levels is the same estimator fed the stream of first differences.

All op words (row, batch, empty batch, fit, save/restore, read) up to the depth, long streams across
the burn-in boundary, and a deviation at every position.
"""
from __future__ import annotations

import itertools
import json
import pickle

import numpy as np

from mc import machine as M
from mc import space as S

PROPERTY = "C11"
LEVEL = "model_checking"


def cases(tier):
    th = tier == "thorough"
    out = []
    for c in S.base_configs(0.3) + S.base_configs(None):
        out.append({"kind": "words", "cfg": c, "p": 2, "depth": 5 if th else 4, "prefix": 0, "cost": 3})
        out.append({"kind": "words", "cfg": c, "p": 3, "depth": 4 if th else 3, "prefix": 5 if c[1].get("r") else 20, "cost": 2})
        out.append({"kind": "deviate", "cfg": c, "p": 4, "n": 60 if th else 28, "cost": 2})
    for r, n in ((0.01, 125), (0.002, 280)):
        for c in S.base_configs(r, extra=False)[1:]:
            out.append({"kind": "long", "cfg": c, "p": 2, "n": n})
    for c in S.base_configs(None):
        out.append({"kind": "long", "cfg": c, "p": 2, "n": 1060})
    for p in (1, 6, 10, 35, 70, 130):
        for c in S.base_configs(None):
            out.append({"kind": "long", "cfg": c, "p": p, "n": 40 if p < 100 else 24})
    return out


def expect(rec, cfg, est, levels, memo, probe, how):
    """levels: rows since the last reset."""
    n = max(len(levels) - 1, 0)
    if est.n_samples_ != n:
        rec.violate("n_samples_ is not the number of differences", got=est.n_samples_, want=n, how=how)
        return
    if n == 0:
        return
    key = tuple(map(tuple, levels))
    if key not in memo:
        ref = S.make(cfg)
        for d in np.diff(np.array(levels), axis=0):
            ref.partial_fit(d)
        memo[key] = M.full_obs(ref, probe)
    d = M.same_full(memo[key], M.full_obs(est, probe), 10)
    rec.check(d is None, "diff=True is not the estimator on first differences", diff=d, how=how)
    rec.trace()


def run(case, rec):
    cfg, p = case["cfg"], case["p"]
    dcfg = [cfg[0], {**cfg[1], "diff": True}]
    probe = S.stream(3, p, seed=8)
    memo = {}
    if case["kind"] == "words":
        pre = S.stream(case["prefix"], p, seed=42) + 3
        L = S.letters(p, "uw")
        big = S.stream(3, p, seed=43) * 2
        ops = ["u", "w", "rows3", "rows1", "same3", "empty", "fit", "fit1", "json", "pickle", "read"]
        for depth in range(1, case["depth"] + 1):
            for word in itertools.product(ops, repeat=depth):
                if word[-1] in ("read", "empty") or sum(o in ("json", "pickle", "read", "empty") for o in word) > 2:
                    continue
                est = S.make(dcfg)
                levels = []
                if len(pre):
                    est.partial_fit(pre)
                    levels = list(pre)
                for op in word:
                    rec.trans()
                    if op in L:
                        est.partial_fit(L[op])
                        levels.append(L[op])
                    elif op == "rows3":
                        est.partial_fit(big)
                        levels += list(big)
                    elif op == "rows1":
                        est.partial_fit(big[1:2])
                        levels.append(big[1])
                    elif op == "same3":
                        est.partial_fit(np.array([big[2]] * 3))
                        levels += [big[2]] * 3
                    elif op == "empty":
                        est.partial_fit(np.empty((0, p)))
                    elif op == "fit":
                        est.fit(big[::-1])
                        levels = list(big[::-1])
                    elif op == "fit1":
                        est.fit(big[:1])
                        levels = [big[0]]
                    elif op == "json":
                        est = S.make(dcfg).set_state(json.loads(json.dumps(est.get_state())))
                    elif op == "pickle":
                        est = pickle.loads(pickle.dumps(est))
                    elif est.n_samples_ >= 1:
                        est.covariance_, est.precision_, est.location_, est.score(big)
                rec.state()
                expect(rec, cfg, est, levels, memo, probe, word)
        rec.sample({"word": word})
    elif case["kind"] == "deviate":
        n = case["n"]
        X = np.cumsum(S.stream(n, p, seed=44), axis=0)
        for kind in S.DEVIATIONS:
            for t in range(n):
                Y = X.copy()
                Y[t] = S.deviate(X, t, kind)
                est = S.make(dcfg).partial_fit(Y)
                rec.trans(n)
                rec.state()
                ref = S.make(cfg).partial_fit(np.diff(Y, axis=0))
                scale = S.data_scale(Y)
                if cfg[0] in S.INVERTERS and S.cond(ref.covariance_) > 1e6:
                    rec.skip("ill-conditioned")
                    continue
                d = M.same_full(M.full_obs(ref, probe), M.full_obs(est, probe), scale)
                rec.check(d is None, "diff=True is not the estimator on first differences", diff=d, at=t, kind=kind)
                rec.trace()
    else:
        n = case["n"]
        X = np.cumsum(S.stream(n, p, seed=45), axis=0)
        est, ref = S.make(dcfg), S.make(cfg)
        for t in range(n):
            est.partial_fit(X[t])
            rec.trans(2)
            rec.state()
            if t:
                ref.partial_fit(X[t] - X[t - 1])
                d = S.same_obs(S.observe(ref), S.observe(est), 1e-9, 10)
                rec.check(d is None, "diff=True is not the estimator on first differences", diff=d, t=t)
                rec.check(est.n_features_in_ == p, "n_features_in_", t=t)
        rec.trace()
