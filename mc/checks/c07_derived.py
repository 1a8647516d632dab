"""C07: correlation_, precision_, mahalanobis and score are the textbook functions of covariance_ and
location_, at every prefix of every stream explored and for every shape of evaluation data.
"""
from __future__ import annotations

import numpy as np
import pandas as pd

from mc import space as S

PROPERTY = "C07"
LEVEL = "model_checking"
ASSUMPTIONS = ["inverse-based quantities are compared where cond(covariance_) < 1e7"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for c in S.with_diff(S.base_configs(None)) + S.base_configs(0.3) + S.conditional_configs(0.2):
        for p, n in ((1, 12), (2, 30), (3, 30), (4, 24), (5, 40), (8, 36), (12, 30), (33, 40), (70, 24), (130, 7)):
            out.append({"cfg": c, "p": p, "n": n * (3 if th else 1), "seed": p})
    for nb in (1, 2, 3, 5, 10):
        for name in ("BlockCovariance", "SchurCovariance", "SchurLedoitWolfCovariance"):
            for p in (3, 5, 7, 11):
                out.append({"cfg": [name, {"n_blocks": nb}], "p": p, "n": 26, "seed": 1})
    for c in S.base_configs(0.02)[1:]:
        out.append({"cfg": c, "p": 3, "n": 130, "seed": 2, "every": 5})
    for c in S.base_configs(0.3) + S.conditional_configs(0.2):
        for sc in (1e-3, 1e3):
            out.append({"cfg": c, "p": 4, "n": 16, "seed": 3, "scale": sc})
    for c in S.base_configs(0.3) + S.conditional_configs(0.2):
        for sc in ([1e-4, 1e5], [1e-3, 1.0, 1e3], [1e4, 1e-4, 1e4], [1e-6, 1.0, 1.0], [1e-5, 1e-5]):
            out.append({"kind": "mixed", "cfg": c, "p": len(sc), "n": 18, "scale": sc})
    for c in S.base_configs(0.05) + S.conditional_configs(0.2):
        for p in (1, 2, 5):
            out.append({"kind": "sample sizes", "cfg": c, "p": p, "big": 60000 if th else 17000})
    out.append({"kind": "singular"})
    return out


def run(case, rec):
    if case.get("kind") == "singular":
        return run_singular(rec)
    if case.get("kind") == "sample sizes":
        return run_sizes(case, rec)
    if case.get("kind") == "mixed":
        return run_mixed(case, rec)
    cfg, p = case["cfg"], case["p"]
    X = S.stream(case["n"], p, seed=30 + case["seed"]) * case.get("scale", 1.0)
    evals = {
        "one row": X[0], "row list": X[1].tolist(), "one-row batch": X[2:3], "batch": X[:9],
        "centre": None, "far": X[:4] * 50, "strided": np.repeat(X[:6], 2, axis=0)[::2],
        "frame": pd.DataFrame(X[:7], columns=[f"v{p - i:03d}" for i in range(p)], index=range(7, 0, -1)),
        "series": pd.Series(X[4], index=[f"v{p - i:03d}" for i in range(p)]),
        "fortran": np.asfortranarray(X[3:10]), "list": X[:3].tolist(), "many": np.vstack([X] * (1 + 300 // len(X))),
    }
    est = S.make(cfg)
    for t, x in enumerate(X):
        est.partial_fit(x)
        rec.trans()
        if est.n_samples_ < 1 or t % case.get("every", 1):
            continue
        rec.state()
        C, m = np.array(est.covariance_), np.array(est.location_)
        v = np.diag(C)
        how = {"t": t}
        R = est.correlation_
        for i in range(p):
            for j in range(p):
                if v[i] > 0 and v[j] > 0:
                    w = C[i, j] / (np.sqrt(v[i]) * np.sqrt(v[j]))
                    if abs(R[i, j] - w) > 1e-9 * max(1, abs(w)):
                        rec.violate("correlation_ is not covariance_ rescaled", got=R[i, j], want=w, how=how)
        kappa = S.cond(C)
        if not kappa < 1e7 or np.abs(C).max() < 1e-150:
            rec.skip("ill-conditioned")
            continue
        tol = 1e-12 * kappa * p + 1e-9
        P = est.precision_
        rec.check(np.abs(P @ C - np.eye(p)).max() < tol and np.abs(C @ P - np.eye(p)).max() < tol,
                  "precision_ is not the inverse of covariance_", got=P, cov=C, how=how)
        rec.check(S.close(P, P.T, tol), "precision_ not symmetric", how=how)
        rec.check(S.close(est.get_precision(), P, 1e-12), "get_precision differs from precision_", how=how)
        logdet = np.linalg.slogdet(C)[1]
        for name, Y in evals.items():
            if name == "centre":
                Y = m.copy()
            rows = np.atleast_2d(np.array(Y, dtype=float))
            want = np.array([(r - m) @ np.linalg.solve(C, r - m) for r in rows[:20]])
            got = est.mahalanobis(Y)
            if np.shape(got) != (len(rows),):
                rec.violate("mahalanobis must return one value per row", shape=np.shape(got), form=name, how=how)
                continue
            rec.check(S.close(got[:20], want, 1e-10 * kappa + 1e-8, 1e-9), "mahalanobis is not (x-m)' P (x-m)",
                      got=got[:20], want=want, form=name, how=how)
            full = np.array([(r - m) @ np.linalg.solve(C, r - m) for r in rows[20:]])
            allm = np.concatenate([want, full])
            rec.check(S.close(got, allm, 1e-10 * kappa + 1e-8, 1e-9), "mahalanobis differs beyond row 20", form=name, how=how)
            ll = np.mean(-0.5 * allm - 0.5 * logdet - 0.5 * p * np.log(2 * np.pi))
            s = est.score(Y)
            rec.check(np.ndim(s) == 0 and abs(s - ll) <= (1e-10 * kappa + 1e-8) * (abs(ll) + 1),
                      "score is not the mean Gaussian log-likelihood", got=s, want=ll, form=name, how=how)
            rec.trace()
    rec.sample({"t": t, "forms": list(evals)})


def run_singular(rec):
    """A variable that never moved: the covariance is exactly singular, the precision its pseudo-inverse."""
    for c in (["EmpiricalCovariance", {}], ["EwaCovariance", {}], ["OASCovariance", {"r": 0.2}]):
        for p in (1, 2, 3, 5):
            X = S.stream(12, p, seed=40)
            X[:, p - 1] = 2.0
            est = S.make(c)
            for t, x in enumerate(X):
                est.partial_fit(x)
                rec.trans()
                C = est.covariance_
                live = C[:-1, :-1]
                if C[-1].any() or (p > 1 and S.cond(live) > 1e6):
                    continue
                rec.state()
                want = np.zeros((p, p))
                want[:-1, :-1] = np.linalg.inv(live) if p > 1 else 0
                rec.check(S.close(est.precision_, want, 1e-6), "precision_ of a singular covariance_ is not its "
                          "pseudo-inverse", cfg=c, p=p, t=t, got=est.precision_)
                D = S.stream(9, p, seed=41) * 2 - est.location_
                rec.check(S.close(est.mahalanobis(D + est.location_), np.einsum("ij,jk,ik->i", D, want, D), 1e-6),
                          "mahalanobis is not (x-m)' P (x-m) where the covariance is singular", cfg=c, p=p, t=t)
                rec.trace()


def run_sizes(case, rec):
    """Evaluation samples of every length up to 70, about the powers of two, and very long."""
    p = case["p"]
    est = S.make(case["cfg"]).partial_fit(S.stream(40, p, seed=38))
    C, m = np.array(est.covariance_), np.array(est.location_)
    kappa = S.cond(C)
    if not kappa < 1e7:
        rec.skip("ill-conditioned")
        return
    logdet = np.linalg.slogdet(C)[1]
    Y = S.stream(case["big"], p, seed=39) * 1.5 + 0.3
    D = Y - m
    want = np.einsum("ij,ji->i", D, np.linalg.solve(C, D.T))
    for n in [*range(1, 71), 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047,
              2048, 2049, 4096, 4097, 5000, 8193, 10001, 16385, case["big"]]:
        rec.state()
        rec.trans(2)
        got = est.mahalanobis(Y[:n])
        rec.check(np.shape(got) == (n,) and S.close(got, want[:n], 1e-10 * kappa + 1e-8, 1e-9), "mahalanobis of a sample of this length", n=n)
        ll = float(np.mean(-0.5 * want[:n] - 0.5 * logdet - 0.5 * p * np.log(2 * np.pi)))
        s = est.score(Y[:n])
        rec.check(abs(s - ll) <= (1e-10 * kappa + 1e-8) * (abs(ll) + 1), "score of a sample of this length", n=n, got=s, want=ll)
    rec.trace()


def run_mixed(case, rec):
    """Variables in very different units: the same formulas, judged in standard units."""
    cfg, p = case["cfg"], case["p"]
    X = S.stream(case["n"], p, seed=37) * np.array(case["scale"])
    est = S.make(cfg)
    for t, x in enumerate(X):
        est.partial_fit(x)
        rec.trans()
        C, m = np.array(est.covariance_), np.array(est.location_)
        sd = np.sqrt(np.abs(np.diag(C)))
        if not (sd > 0).all() or np.abs(np.log10(sd / np.array(case["scale"]))).max() > 2:
            rec.skip("no scale yet")  # start-up values and documented floors
            continue
        N = C / np.outer(sd, sd)
        kappa = S.cond(N)
        if not kappa < 1e3:
            rec.skip("ill-conditioned")
            continue
        rec.state()
        how = {"t": t, "scale": case["scale"]}
        rec.check(S.close(est.correlation_, N, 1e-9), "correlation_ is not covariance_ rescaled", got=est.correlation_, want=N, how=how)
        Q = np.linalg.inv(N)
        rec.check(S.close(est.precision_ * np.outer(sd, sd), Q, 1e-5), "precision_ is not the inverse of covariance_",
                  got=est.precision_ * np.outer(sd, sd), want=Q, how=how)
        Z = (X[:6] - m) / sd
        want = np.einsum("ij,jk,ik->i", Z, Q, Z)
        rec.check(S.close(est.mahalanobis(X[:6]), want, 1e-5), "mahalanobis is not (x-m)' P (x-m)", got=est.mahalanobis(X[:6]),
                  want=want, how=how)
        ll = float(np.mean(-0.5 * want - 0.5 * np.linalg.slogdet(N)[1] - np.log(sd).sum() - 0.5 * p * np.log(2 * np.pi)))
        s = est.score(X[:6])
        rec.check(abs(s - ll) <= 1e-5 * (abs(ll) + 10), "score is not the mean Gaussian log-likelihood", got=s, want=ll, how=how)
        rec.trace()
