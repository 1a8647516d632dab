"""C24: every assessor computes its documented score, and prefers what it should.

All combinations of a family of covariance matrices (structures x scales x widths), evaluation
samples (every length 1..n) and assessor parameters, against formulas evaluated independently;
exhaustive perturbation grids for the optimality ("higher is better") statements; the complete
truth table of the capability flags.
"""
from __future__ import annotations

import itertools
import math

import numpy as np

from mc import ref
from mc import space as S

PROPERTY = "C24"
LEVEL = "model_checking"
ASSUMPTIONS = ["covariances of condition < 1e6 (inverse-based scores), scales 1e-3 to 1e3"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for p in (1, 2, 3, 4, 5, 6, 8, 11, 12, 20, 23):
        out.append({"kind": "formulas", "p": p, "ns": [1, 2, 3, 7, 30] + ([64, 200] if th else []), "cost": p})
    for p in (1, 2, 3, 6):
        for part in range(4):
            out.append({"kind": "formulas", "p": p, "ns": [65, 128, 257, 520, 1100, 2600] + ([11000] if th else []), "part": part, "cost": p})
    for p in (33, 70) + ((130,) if th else ()):
        for part in range(4):
            out.append({"kind": "formulas", "p": p, "ns": [3, 40] + ([300] if th else []), "part": part, "cost": p})
    for p in (1, 2, 3, 4):
        out.append({"kind": "optimum", "p": p, "cost": 3, "steps": 5 if th else 3})
    out.append({"kind": "flags"})
    out.append({"kind": "invariance", "cost": 3})
    return out


def family(p):
    """Covariances of many structures."""
    out = {}
    i = np.arange(p)
    for rho in (0.0, 0.3, 0.9, -0.2):
        C = np.where(i[:, None] == i[None, :], 1.0, rho if rho >= 0 else rho / p)
        out[f"equi{rho}"] = C
        out[f"ar{rho}"] = np.power(abs(rho) + 1e-12, np.abs(i[:, None] - i[None, :])) * np.where(rho < 0, (-1.0) ** np.abs(i[:, None] - i[None, :]), 1)
    X = S.stream(4 * p + 6, p, seed=61)
    out["sample"] = np.cov(X, rowvar=False, bias=True).reshape(p, p)
    D = np.diag(np.linspace(0.5, 2.5, p))
    out["scaled"] = D @ out["equi0.3"] @ D
    v = np.linspace(1, 2, p)
    out["spiked"] = np.eye(p) + 3 * np.outer(v, v) / p
    for k in ("sample", "spiked"):
        out[k + "*1e-6"] = out[k] * 1e-6
        out[k + "*1e4"] = out[k] * 1e4
    return {k: (C + C.T) / 2 for k, C in out.items() if S.cond(C) < 1e6}


def loglik(C, X):
    L = np.linalg.cholesky(C)
    Z = np.linalg.solve(L, np.asarray(X, dtype=float).T)
    return float(np.mean(-0.5 * (Z * Z).sum(axis=0)) - np.log(np.diag(L)).sum() - 0.5 * len(C) * math.log(2 * math.pi))


def geodesic(A, B, g):
    L = np.linalg.cholesky(A)
    Li = np.linalg.inv(L)
    w, V = np.linalg.eigh(Li @ B @ Li.T)
    H = L @ V
    return (H * np.maximum(w, 0) ** g) @ H.T


def damped(C, nb, g, how):
    x = ref.cross_mask(len(C), nb)
    if how == "linear":
        return np.where(x, g * C, C)
    return geodesic(np.where(x, 0.0, C), C, g)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def near(rec, got, want, what, tol=1e-7, **how):
    rec.state()
    rec.trans()
    ok = isinstance(got, float) and (got == want or abs(got - want) <= tol * max(1.0, abs(want)))
    rec.check(ok, f"{what} is not the documented score", got=got, want=want, how=how)


def run_formulas(case, rec):
    from precise.assessment import (BlockPseudoLikelihood, FrobeniusToTruth, GMVVariance, LogLikelihood, SchurLikelihood,
                                    SteinLoss, VariogramScore)

    p = case["p"]
    fam = family(p)
    full = fam
    if "part" in case:
        fam = {k: fam[k] for i, k in enumerate(fam) if i % 4 == case["part"]}
    for name, C in fam.items():
        sc = math.sqrt(np.trace(C) / p)
        for n in case["ns"]:
            X = sc * (S.stream(n, p, seed=62) + (0.4 if n > 60 else 0.0))
            how = {"cov": name, "n": n, "p": p}
            near(rec, LogLikelihood().score(C, X_test=X), loglik(C, X), "LogLikelihood", **how)
            for bs in sorted({1, 2, 3, p // 2 + 1, max(1, p - 1), p, p + 1, 10, 12}):
                w = sum(loglik(C[a:a + bs, a:a + bs], X[:, a:a + bs]) for a in range(0, p, bs))
                near(rec, BlockPseudoLikelihood(bs).score(C, X_test=X), w, "BlockPseudoLikelihood", bs=bs, **how)
            near(rec, BlockPseudoLikelihood().score(C, X_test=X),
                 sum(loglik(C[a:a + 10, a:a + 10], X[:, a:a + 10]) for a in range(0, p, 10)), "BlockPseudoLikelihood", **how)
            for nb in sorted({1, 2, 3, 4, p, p + 2}) if p < 30 else (3, p // 2):
                for g in (0.0, 0.005, 0.25, 0.5, 0.9, 0.993, 1.0) if p < 30 else (0.3, 0.995):
                    G = damped(C, nb, g, "linear")
                    near(rec, SchurLikelihood(gamma=g, n_blocks=nb).score(C, X_test=X), loglik(ref.floored(G), X), "SchurLikelihood",
                         1e-5, nb=nb, g=g, **how)
                    if n in (2, 7, 257):
                        G = damped(C, nb, g, "geodesic")
                        near(rec, SchurLikelihood(gamma=g, n_blocks=nb, interpolation="geodesic").score(C, X_test=X), loglik(G, X),
                             "SchurLikelihood geodesic", 1e-4, nb=nb, g=g, **how)
            near(rec, SchurLikelihood().score(C, X_test=X), loglik(ref.floored(damped(C, 4, 0.5, "linear")), X), "SchurLikelihood", 1e-5, **how)
            if n > p + 2:
                Y = X - X.mean(axis=0)
                Sm = Y.T @ Y / n
                M = np.linalg.solve(C, Sm)
                near(rec, SteinLoss().score(C, X_test=X), -(np.trace(M) - (np.linalg.slogdet(Sm)[1] - np.linalg.slogdet(C)[1]) - p), "SteinLoss",
                     1e-6, **how)
            w = np.linalg.solve(C, np.ones(p))
            if abs(w.sum()) * np.abs(C).max() > 1e-3:
                w = w / w.sum()
                near(rec, GMVVariance().score(C, X_test=X) / sc ** 2, -float(np.mean([(x @ w) ** 2 for x in X])) / sc ** 2, "GMVVariance", 1e-6, **how)
            tot = 0.0
            if p <= 12 or n <= 40:
                E = [[math.sqrt(max(C[i, i] + C[j, j] - 2 * C[i, j], 0.0) * 2 / math.pi) for j in range(p)] for i in range(p)]
                if n > 60:
                    tot = float(((np.abs(X[:, :, None] - X[:, None, :]) - E) ** 2).sum())
                for x in X if n <= 60 else ():
                    if p > 12:
                        tot += float(((np.abs(x[:, None] - x[None, :]) - E) ** 2).sum())
                        continue
                    for i in range(p):
                        for j in range(p):
                            tot += (abs(x[i] - x[j]) - E[i][j]) ** 2
                near(rec, VariogramScore().score(C, X_test=X) / sc ** 2, -tot / n / sc ** 2, "VariogramScore", 1e-7, **how)
        for name2, T in full.items():
            near(rec, FrobeniusToTruth().score(C, true_cov=T), -math.sqrt(((C - T) ** 2).sum() / (T ** 2).sum()), "FrobeniusToTruth", cov=name,
                 truth=name2)
        rec.trace()
    rec.sample({"family": list(fam), "p": p})


def run_optimum(case, rec):
    """The best matrix for a sample is the one the theory says, against every perturbation of a grid."""
    import precise
    from precise.assessment import BlockPseudoLikelihood, FrobeniusToTruth, GMVVariance, LogLikelihood, SchurLikelihood, SteinLoss

    p = case["p"]
    X = S.stream(6 * p + 5, p, seed=63)
    raw = X.T @ X / len(X)
    Y = X - X.mean(axis=0)
    cen = Y.T @ Y / len(X)
    # symmetric perturbation directions: every matrix with entries in {-1, 0, 1} (p <= 2), else unit ones
    dirs = []
    pairs = [(i, j) for i in range(p) for j in range(i, p)]
    for co in (itertools.product((-1, 0, 1), repeat=len(pairs)) if p <= 3 else
               [tuple(int(k == m) * s for k in range(len(pairs))) for m in range(len(pairs)) for s in (1, -1)]):
        if any(co):
            E = np.zeros((p, p))
            for (i, j), c in zip(pairs, co):
                E[i, j] = E[j, i] = c * math.sqrt(raw[i, i] * raw[j, j])
            dirs.append(E)
    judges = [("LogLikelihood", LogLikelihood(), raw, X), ("SteinLoss", SteinLoss(), cen, X),
              ("FrobeniusToTruth", FrobeniusToTruth(), raw, None),
              ("full block", BlockPseudoLikelihood(p), raw, X), ("gamma=1", SchurLikelihood(gamma=1.0), raw, X)]
    for nm, a, best, data in judges:
        top = a.score(best, X_test=data, true_cov=raw)
        for E in dirs:
            for k in range(1, case["steps"] + 1):
                for eps in (0.05 * k, 0.4 * k):
                    C = best + eps * E
                    if np.linalg.eigvalsh(C)[0] <= 1e-6 * np.trace(best):
                        continue
                    rec.trans()
                    rec.state()
                    got = a.score(C, X_test=data, true_cov=raw)
                    rec.check(got < top + 1e-9, f"{nm} prefers a wrong matrix", got=got, best=top, eps=eps, direction=E)
        rec.trace()
    # minimum variance: the weights implied by the sample second moment beat those of any other matrix
    g = GMVVariance()
    top = g.score(raw, X_test=X)
    for E in dirs:
        C = raw + 0.1 * E
        if np.linalg.eigvalsh(C)[0] > 1e-3:
            rec.trans()
            rec.check(g.score(C, X_test=X) <= top + 1e-9, "GMVVariance prefers a wrong matrix", direction=E)
    rec.trace()


def run_flags(case, rec):
    import precise
    from precise import assessment as A

    names = ["LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood", "SteinLoss", "FrobeniusToTruth", "GMVVariance",
             "VariogramScore"]
    every = precise.all_assessors()
    rec.check([a.name for a in every] == names, "the registered assessors", got=[a.name for a in every])
    X, C = S.stream(9, 4, seed=64), np.eye(4)
    for a in every:
        b = precise.assessor_from_name(a.name)
        rec.check(type(b) is type(a) and isinstance(a, A.Assessor) and type(a) is getattr(A, a.name), "assessor_from_name", name=a.name)
        rec.check(a.needs_data == (a.name != "FrobeniusToTruth") and a.needs_truth == (a.name == "FrobeniusToTruth"),
                  "capability flags", name=a.name)
        for d, t in itertools.product((False, True), repeat=2):
            want = (d or not a.needs_data) and (t or not a.needs_truth)
            rec.state()
            rec.trans()
            rec.check(a.usable(have_data=d, have_truth=t) == want, "usable", name=a.name, d=d, t=t)
            if want:
                v = a.score(C, X_test=X if d else None, true_cov=2 * C if t else None)
                rec.check(isinstance(v, float) and math.isfinite(v), "a usable assessor did not score", name=a.name, d=d, t=t)
                w = a.score(C.tolist(), X_test=X if d else None, true_cov=(2 * C).tolist() if t else None)
                rec.check(v == w, "lists are scored differently", name=a.name)
                u = b.score(C, X_test=X if d else None, true_cov=2 * C if t else None)
                rec.check(u == v, "two instances disagree", name=a.name)
        rec.trace()
    for bad in ("", "loglikelihood", "Nope", "Assessor"):
        try:
            precise.assessor_from_name(bad)
            rec.violate("assessor_from_name accepted an unknown name", name=bad)
        except KeyError:
            rec.trans()
    # a printed assessor is the assessor
    made = [A.LogLikelihood(), A.SteinLoss(), A.FrobeniusToTruth(), A.GMVVariance(), A.VariogramScore()]
    made += [A.BlockPseudoLikelihood(b) for b in (1, 2, 10)]
    made += [A.SchurLikelihood(g, nb, i) for g in (0.0, 0.3, 1.0) for nb in (1, 2, 4) for i in ("linear", "geodesic")]
    K = family(4)["sample"]
    for a in made:
        b = eval(repr(a), vars(A))
        rec.trans()
        rec.check(type(b) is type(a) and vars(b) == vars(a) and b.score(K, X_test=X, true_cov=C) == a.score(K, X_test=X, true_cov=C),
                  "the printed form of an assessor is another one", name=a.name, text=repr(a))
    # the defaults documented
    for a, kw in ((A.BlockPseudoLikelihood(), {"block_size": 10}), (A.SchurLikelihood(), {"gamma": 0.5, "n_blocks": 4, "interpolation": "linear"})):
        for k, v in kw.items():
            rec.check(getattr(a, k) == v, "default parameter", name=a.name, par=k)


def frozen(x):
    x = x.copy()
    x.setflags(write=False)
    return x


def run_invariance(case, rec):
    """Scores average over the rows of X_test: order, duplication and splitting of rows."""
    import precise

    for p in (1, 3, 6):
        for name, C in family(p).items():
            sc = math.sqrt(np.trace(C) / p)
            X = sc * S.stream(6, p, seed=65)
            for a in precise.all_assessors():
                if a.needs_truth or (a.name == "SteinLoss" and p > 3):
                    continue
                v = a.score(C, X_test=X)
                tol = 1e-7 * max(1.0, abs(v))
                wide = np.zeros((6, 2 * p))
                wide[:, ::2] = X
                for how, c, x in (("F order", np.asfortranarray(C), np.asfortranarray(X)), ("strided", C, wide[:, ::2]),
                                  ("reversed", C[::-1, ::-1][::-1, ::-1], X[::-1][::-1]), ("read-only", frozen(C), frozen(X)),
                                  ("longdouble", C.astype(np.longdouble), X), ("nested lists", C.tolist(), X)):
                    rec.trans()
                    rec.check(abs(a.score(c, X_test=x) - v) <= tol, "the memory layout matters", name=a.name, cov=name, how=how)
                if p == 3:
                    Z = np.round(4 * S.stream(6, p, seed=65))
                    K = np.array([[4, 1, 0], [1, 3, -1], [0, -1, 2]])
                    rec.check(abs(a.score(K, X_test=Z.astype(int)) - a.score(K.astype(float), X_test=Z)) <= 1e-9, "integers are scored differently", name=a.name)
                    rec.check(abs(a.score(K.astype(np.float32), X_test=Z.astype(np.float32)) - a.score(K.astype(float), X_test=Z)) <= 1e-4,
                              "single precision is scored differently", name=a.name)
                for q in itertools.islice(itertools.permutations(range(6)), 0, 720, 37):
                    rec.trans()
                    rec.state()
                    rec.check(abs(a.score(C, X_test=X[list(q)]) - v) <= tol, "row order matters", name=a.name, cov=name)
                rec.check(abs(a.score(C, X_test=np.vstack([X, X])) - v) <= tol, "not an average over rows", name=a.name, cov=name)
                if a.name != "SteinLoss":
                    parts = [a.score(C, X_test=X[i:i + 1]) for i in range(6)]
                    rec.check(abs(sum(parts) / 6 - v) <= tol, "not the mean of the scores of the rows", name=a.name, cov=name)
                rec.trace()
