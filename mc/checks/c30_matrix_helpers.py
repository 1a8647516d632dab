"""C30: the matrix algebra every estimator stands on (precise._linalg).

All small symmetric integer matrices (definite, indefinite, singular, zero), and all pairs of a lattice
of SPD matrices for the geodesic, each helper against its defining property: nearest definite matrix
against every rival and against the spectral projection, inverse and pseudo-inverse by the Penrose
conditions, the geodesic by its group laws.
"""
from __future__ import annotations

import importlib
import itertools

import numpy as np

from mc import space as S

PROPERTY = "C30"
LEVEL = "model_checking"


def symmetric(p, vals):
    up = [(i, j) for i in range(p) for j in range(i, p)]
    for v in itertools.product(vals, repeat=len(up)):
        M = np.zeros((p, p))
        for (i, j), x in zip(up, v):
            M[i, j] = M[j, i] = x
        yield M


def spd(p):
    low = [(i, j) for i in range(p) for j in range(i)]
    for dg in itertools.product((1, 2), repeat=p):
        for of in itertools.product((-1, 0, 1), repeat=len(low)):
            L = np.diag(np.array(dg, dtype=float))
            for (i, j), v in zip(low, of):
                L[i, j] = v
            yield L @ L.T


VALS = {1: (-2, -1, 0, 1, 2, 7), 2: (-3, -2, -1, 0, 1, 2, 3), 3: (-2, -1, 0, 1, 2), 4: (-1, 0, 1)}


def cases(tier):
    th = tier == "thorough"
    out = []
    for p, vals in VALS.items():
        n = len(vals) ** (p * (p + 1) // 2)
        step = 1 if th or p < 4 else 29
        k = max(1, min(32 if th else 8, n // step // 800))
        for part in range(k):
            out.append({"kind": "definite", "p": p, "part": part, "of": k, "step": step, "cost": n / step / k})
    for p in (2, 3, 4):
        out.append({"kind": "graded", "p": p, "step": 1 if p < 4 else 7 if th else 97, "cost": 500})
    out.append({"kind": "fallbacks"})
    for p in (7, 12, 33, 70) + ((130,) if th else ()):
        for part in range(4):
            out.append({"kind": "large", "p": p, "part": part, "cost": 10 * p})
    for p in (1, 2, 3):
        k = {1: 1, 2: 2, 3: 8}[p] * (4 if th else 1)
        for part in range(k):
            out.append({"kind": "geodesic", "p": p, "part": part, "of": k, "rivals": 1 if th or p < 3 else 9, "cost": 900})
    return out


def lin():
    return importlib.import_module("precise._linalg")


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(1.0, np.abs(b).max(initial=0.0))))


def has(f, rec):
    fn = getattr(lin(), f, None)
    if fn is None:
        rec.skip("no " + f)
    return fn


def run_definite(case, rec):
    p = case["p"]
    is_pd, nearest, floor, invert = (has(f, rec) for f in ("is_positive_def", "nearest_pos_def", "make_pos_def", "try_invert"))
    sym, corr = has("to_symmetric", rec), has("cov_to_corrcoef", rec)
    rivals = list(spd(p))[::7 if p == 4 else 1][:40]
    perm = np.roll(np.arange(p), 1)
    skew = np.triu(np.ones((p, p)), 1) * 0.25
    skew = skew - skew.T
    for n, M in enumerate(symmetric(p, VALS[p])):
        if n % case["step"] or (n // case["step"]) % case["of"] != case["part"]:
            continue
        keep = M.copy()
        w, V = np.linalg.eigh(M)
        rec.state()
        rec.trans(len(rivals))
        if is_pd and abs(w[0]) > 1e-6:
            rec.check(bool(is_pd(M)) == (w[0] > 0), "is_positive_def", M=M, eigenvalues=w)
        if sym:
            rec.check(near(sym(M + skew), M, 1e-15), "symmetric part", M=M)
        if nearest:
            A = nearest(M)
            proj = (V * np.clip(w, 0, None)) @ V.T
            rec.check(near(A, A.T, 1e-12) and np.linalg.eigvalsh(A)[0] > -1e-12 and is_pd(A), "nearest_pos_def is not positive definite", M=M, got=A)
            rec.check(near(A, proj, 1e-7), "nearest_pos_def is not the nearest matrix", M=M, got=A, want=proj)
            d = np.linalg.norm(A - M)
            rec.check(all(d <= np.linalg.norm(K - M) + 1e-7 for K in rivals), "a rival is nearer than nearest_pos_def", M=M, got=A)
            if w[0] > 1e-6:
                rec.check(near(A, M, 1e-12), "nearest_pos_def moved a definite matrix", M=M, got=A)
            rec.check(near(nearest(M + skew), A, 1e-7), "nearest_pos_def depends on the skew part", M=M)
        if floor:
            for eps in (None, 1e-3, 0.5):
                B = floor(M) if eps is None else floor(M, eps)
                e = 1e-8 if eps is None else eps
                top = np.abs(w).max()
                lo = e * min(1.0, top) if top > 0 else e
                want = (V * np.clip(w, lo, None)) @ V.T
                rec.check(near(B, B.T, 1e-14) and near(B, want, 1e-9) and np.linalg.eigvalsh(B)[0] > 0.4 * lo, "make_pos_def does not floor the spectrum", M=M, eps=eps, got=B, want=want)
                for c in (1e-6, 1e3):
                    want = (V * np.clip(c * w, e * min(1.0, c * top) if top > 0 else e, None)) @ V.T
                    rec.check(near(floor(c * M, e) / c, want / c, 1e-8), "make_pos_def of a matrix of another scale", M=c * M, eps=e)
                rec.check(near(floor(M[np.ix_(perm, perm)], e), B[np.ix_(perm, perm)], 1e-9), "make_pos_def depends on the order of the variables", M=M)
                rec.check(near(floor(M + skew, e), B, 1e-9), "make_pos_def depends on the skew part", M=M)
        if invert:
            det = np.linalg.det(M)
            if abs(det) > 1e-6:
                rec.check(near(invert(M) @ M, np.eye(p), 1e-9), "try_invert is not the inverse", M=M)
            else:
                P = invert(M)
                rec.check(P is not None and P.shape == (p, p), "try_invert of a singular matrix", M=M)
                try:
                    np.linalg.inv(M)
                    rec.skip("singular, but invertible in floating point")
                except np.linalg.LinAlgError:
                    rec.check(near(M @ P @ M, M, 1e-8) and near(P @ M @ P, P, 1e-8) and near(M @ P, (M @ P).T, 1e-8) and near(P @ M, (P @ M).T, 1e-8),
                              "try_invert of a singular matrix is not its pseudo-inverse", M=M, got=P)
        if corr and w[0] > -1e-9 and np.diag(M).min() >= 0:
            R = corr(M)
            sd = np.sqrt(np.diag(M))
            for i, j in itertools.product(range(p), repeat=2):
                want = M[i, j] / (sd[i] * sd[j]) if sd[i] * sd[j] > 0 else 0.0
                rec.check(abs(R[i, j] - want) < 1e-9, "correlation", M=M, got=R)
            k = 1.0 + np.arange(p)
            rec.check(near(corr(M * np.outer(k, k)), R, 1e-9), "correlation depends on the units", M=M)
        rec.check(np.array_equal(M, keep), "a helper changed its argument", M=keep, after=M)
    rec.trace()
    rec.sample({"p": p, "entries": VALS[p], "step": case["step"]})


def patterned(p):
    """Symmetric matrices of every kind at a realistic width: definite, singular, indefinite, negative, graded."""
    i = np.arange(p)
    d = np.abs(i[:, None] - i[None, :])
    X = S.stream(3 * p, p, seed=66)
    Y = S.stream(max(2, p // 3), p, seed=67)
    sample, low = np.cov(X, rowvar=False), Y.T @ Y / len(Y)
    grade = np.diag(10.0 ** np.linspace(-2, 2, p))
    hole = sample.copy()
    hole[1, :] = hole[:, 1] = 0.0
    out = {"equi": 0.4 * np.ones((p, p)) + 0.6 * np.eye(p), "ar": 0.7 ** d, "alternating": (-0.6) ** d, "sample": sample, "low rank": low,
           "graded": grade @ (0.3 ** d) @ grade, "block": np.where(i[:, None] % 4 == i[None, :] % 4, 0.7, 0.05) + 0.3 * np.eye(p), "hole": hole,
           "ones": np.ones((p, p)), "shifted": sample - np.median(np.linalg.eigvalsh(sample)) * np.eye(p), "negative": -(0.5 ** d),
           "one negative": np.eye(p) - 1.5 * np.ones((p, p)) / p, "anti": np.fliplr(np.eye(p)), "diagonal": np.diag(1.0 + i), "cyclic": np.cos(2 * np.pi * d / p)}
    return {k: (M + M.T) / 2 for k, M in out.items()}


def run_large(case, rec):
    """The same laws for wide matrices."""
    p = case["p"]
    is_pd, nearest, floor, invert = (has(f, rec) for f in ("is_positive_def", "nearest_pos_def", "make_pos_def", "try_invert"))
    sym, corr, step = has("to_symmetric", rec), has("cov_to_corrcoef", rec), has("geodesic_step", rec)
    skew = np.triu(S.stream(p, p, seed=68), 1)
    skew = skew - skew.T
    perm = np.array([(3 + next(k for k in (7, 5, 3, 11) if p % k) * j) % p for j in range(p)])
    fam = patterned(p)
    rivals = [M for M in fam.values() if np.linalg.eigvalsh(M)[0] > -1e-12]
    for name, M0 in [kv for i, kv in enumerate(fam.items()) if i % 4 == case["part"]]:
        for c in (1.0, 1e-5, 3e3):
            M = c * M0
            keep = M.copy()
            w, V = np.linalg.eigh(M)
            top = np.abs(w).max()
            how = {"matrix": name, "p": p, "times": c}
            rec.state()
            rec.trans()
            if is_pd and abs(w[0]) > 1e-9 * top:
                rec.check(bool(is_pd(M)) == (w[0] > 0), "is_positive_def", **how)
            if sym:
                rec.check(near(sym(M + c * skew) / c, M0, 1e-12), "symmetric part", **how)
            if nearest:
                A = nearest(M)
                proj = (V * np.clip(w, 0, None)) @ V.T
                rec.check(near(A / c, A.T / c, 1e-12) and is_pd(A), "nearest_pos_def is not positive definite", **how)
                rec.check(near(A / top, proj / top, 1e-7), "nearest_pos_def is not the nearest matrix", **how)
                dist = np.linalg.norm(A - M)
                rec.check(all(dist <= np.linalg.norm(c * K - M) + 1e-7 * top for K in rivals), "a rival is nearer than nearest_pos_def", **how)
            if floor:
                for e in (1e-8, 1e-3, 0.5):
                    lo = e * min(1.0, top)
                    B = floor(M, e)
                    want = (V * np.clip(w, lo, None)) @ V.T
                    rec.check(near(B / top, want / top, 1e-9) and near(B / top, B.T / top, 1e-14), "make_pos_def does not floor the spectrum", eps=e, **how)
                    rec.check(e < 1e-6 or np.linalg.eigvalsh(B)[0] > 0.4 * lo, "make_pos_def is not definite", eps=e, **how)
                    rec.check(near(floor(M[np.ix_(perm, perm)], e) / top, want[np.ix_(perm, perm)] / top, 1e-8), "make_pos_def depends on the order of the variables", eps=e, **how)
            if invert:
                Q = invert(M)
                if np.abs(w).min() > 1e-7 * top:
                    rec.check(near(Q @ M, np.eye(p), 1e-7), "try_invert is not the inverse", **how)
                else:
                    rec.check(Q is not None and Q.shape == (p, p), "try_invert of a singular matrix", **how)
            if corr and w[0] > -1e-9 * top and np.diag(M).min() >= 0:
                sd = np.sqrt(np.diag(M))
                den = np.outer(sd, sd)
                want = np.where(den > 0, M / np.where(den > 0, den, 1.0), 0.0)
                rec.check(near(corr(M), want, 1e-9), "correlation", **how)
            rec.check(np.array_equal(M, keep), "a helper changed its argument", **how)
        rec.trace()
    spds = [(k, M + 0.05 * np.trace(M) / p * np.eye(p)) for k, M in fam.items() if np.linalg.eigvalsh(M)[0] > -1e-12 and k != "graded"]
    if step is None:
        return
    for n, (ka, A) in enumerate(spds):
        if n % 4 != case["part"]:
            continue
        for kb, B in spds:
            how = {"from": ka, "to": kb, "p": p}
            rec.state()
            rec.check(near(step(A, B, 0.0), A, 1e-7) and near(step(A, B, 1.0), B, 1e-7), "the geodesic does not join its ends", **how)
            w = np.linalg.eigvals(np.linalg.solve(A, B)).real
            for t in (0.03, 0.5, 0.9):
                rec.trans()
                C = step(A, B, t)
                rec.check(near(C, C.T, 1e-12) and np.linalg.eigvalsh(C)[0] > 0, "a point of the geodesic is not SPD", t=t, **how)
                rec.check(near(np.linalg.slogdet(C)[1], (1 - t) * np.linalg.slogdet(A)[1] + t * np.linalg.slogdet(B)[1], 1e-7),
                          "log-volume is not linear along the geodesic", t=t, **how)
                rec.check(near(np.sort(np.linalg.eigvals(np.linalg.solve(A, C)).real), np.sort(np.maximum(w, 0) ** t), 1e-5), "relative spectrum along the geodesic", t=t, **how)
                rec.check(near(C, step(B, A, 1 - t), 1e-6), "the geodesic is not reversible", t=t, **how)
        rec.trace()


GRADES = ((1.0, 2.0 ** -10, 2.0 ** 8, 2.0 ** -3), (2.0 ** -7, 2.0 ** 7, 1.0, 2.0 ** -12))


def run_graded(case, rec):
    """The small integer matrices and lattice again, with variables in very different units (powers of two, so
    that a singular matrix stays exactly singular)."""
    p = case["p"]
    invert, step, nearest = has("try_invert", rec), has("geodesic_step", rec), has("nearest_pos_def", rec)
    for g in GRADES:
        d = np.array(g[:p])
        for n, M in enumerate(symmetric(p, VALS[p])):
            if n % case["step"] or invert is None:
                continue
            G = M * np.outer(d, d)
            rec.state()
            rec.trans()
            if abs(np.linalg.det(M)) > 1e-6:
                rec.check(near(invert(G) * np.outer(d, d), np.linalg.inv(M), 1e-8), "try_invert in other units", M=G)
            else:
                try:
                    np.linalg.inv(G)
                    rec.skip("singular, but invertible in floating point")
                except np.linalg.LinAlgError:
                    P = invert(G)
                    w = np.abs(np.linalg.eigvalsh(G))
                    small = w[w > 1e-13 * w.max()].min() if w.max() > 0 else 1.0
                    if small < 1e-8 * w.max():
                        rec.skip("ill-conditioned")
                        continue
                    rec.check(near(G @ P @ G / max(w.max(), 1e-300), G / max(w.max(), 1e-300), 1e-7) and near(P @ G @ P * small, P * small, 1e-7)
                              and near(G @ P, (G @ P).T, 1e-7) and near(P @ G, (P @ G).T, 1e-7),
                              "try_invert of a singular matrix in other units is not its pseudo-inverse", M=G, got=P)
        if step is None or p > 3:
            continue
        fam = list(spd(p))
        for n, A in enumerate(fam):
            for B in fam[n % 5::5]:
                for k in (1.0, 1e-5, 1e4):
                    C = k * B * np.outer(d, d)
                    if S.cond(C) > 1e7:  # near the helper's own regularisation
                        rec.skip("ill-conditioned")
                        continue
                    top = np.abs(C).max()
                    for t in (0.25, 0.9):
                        rec.trans()
                        rec.state()
                        w = np.linalg.eigvals(np.linalg.solve(A, C)).real
                        E = step(A, C, t)
                        rec.check(near(E, E.T, 1e-12) and np.linalg.eigvalsh(E)[0] > 0, "a point of the geodesic is not SPD", A=A, B=C, t=t)
                        rec.check(near(np.log(np.sort(np.linalg.eigvals(np.linalg.solve(A, E)).real)), t * np.log(np.sort(w)), 1e-3),
                                  "relative spectrum along the geodesic of very different matrices", A=A, B=C, t=t)
                        rec.check(near(step(A, C, 1.0) / top, C / top, 1e-6), "the geodesic does not end at its end", A=A, B=C)
                        rec.check(near(step(C, A, 1 - t) / np.abs(E).max(), E / np.abs(E).max(), 1e-4), "the geodesic of very different matrices is not reversible", A=A, B=C, t=t)
    rec.trace()


def run_fallbacks(case, rec):
    """affine_shrink: the diagonal times phi, then shrunk towards its mean by lmbd."""
    shrink = has("affine_shrink", rec)
    if shrink is None:
        return
    for p, vals in VALS.items():
        for n, M in enumerate(symmetric(p, vals)):
            if n % (1 if p < 4 else 13):
                continue
            for phi, lm in ((1.01, 0.01), (1.0, 0.3), (2.0, 0.0), (1.5, 1.0)):
                rec.state()
                rec.trans()
                keep = M.copy()
                B = M.copy()
                for i in range(p):
                    B[i, i] *= phi
                want = (1 - lm) * B + lm * (sum(B[i, i] for i in range(p)) / p) * np.eye(p)
                got = shrink(M) if (phi, lm) == (1.01, 0.01) else shrink(M, phi, lm)
                rec.check(near(got, want, 1e-12) and np.array_equal(M, keep), "affine_shrink", M=M, phi=phi, lmbd=lm, got=got, want=want)
    rec.trace()


def run_geodesic(case, rec):
    p = case["p"]
    step = has("geodesic_step", rec)
    if step is None:
        return
    fam = list(spd(p))
    mine = [A for i, A in enumerate(fam) if i % case["of"] == case["part"]]
    G = np.eye(p) + np.triu(np.ones((p, p)), 1) * 0.5
    for n, A in enumerate(mine):
        for B in fam[n % case["rivals"]::case["rivals"]]:
            keep = A.copy(), B.copy()
            rec.state()
            rec.check(near(step(A, B, 0.0), A, 1e-8) and near(step(A, B, 1.0), B, 1e-8), "the geodesic does not join its ends", A=A, B=B)
            w, U = np.linalg.eig(np.linalg.solve(A, B))   # A^-1 B, real positive spectrum
            for t in (0.25, 0.5, 0.9):
                rec.trans()
                C = step(A, B, t)
                rec.check(near(C, C.T, 1e-12) and np.linalg.eigvalsh(C)[0] > 0, "a point of the geodesic is not SPD", A=A, B=B, t=t, got=C)
                rec.check(near(np.linalg.slogdet(C)[1], (1 - t) * np.linalg.slogdet(A)[1] + t * np.linalg.slogdet(B)[1], 1e-8),
                          "log-volume is not linear along the geodesic", A=A, B=B, t=t)
                rec.check(near(np.sort(np.linalg.eigvals(np.linalg.solve(A, C)).real), np.sort(w.real ** t), 1e-6), "relative spectrum along the geodesic", A=A, B=B, t=t)
                rec.check(near(C, step(B, A, 1 - t), 1e-7), "the geodesic is not reversible", A=A, B=B, t=t)
                rec.check(near(step(G @ A @ G.T, G @ B @ G.T, t), G @ C @ G.T, 1e-6), "the geodesic is not affine invariant", A=A, B=B, t=t)
                rec.check(near(step(A, C, 0.5), step(A, B, t / 2), 1e-6), "half the way to a point is not half of its parameter", A=A, B=B, t=t)
                if p == 1:
                    rec.check(near(C, A ** (1 - t) * B ** t, 1e-9), "one dimension: geometric mean", A=A, B=B, t=t)
            rec.check(np.array_equal(A, keep[0]) and np.array_equal(B, keep[1]), "the geodesic changed its ends")
        # Singular and indefinite ends: between the ends the path is strictly inside the cone.
        if n % 4 == 0 and p < 4:
            for M in symmetric(p, VALS[p] if p < 3 else (-1, 0, 1)):
                if np.linalg.eigvalsh(M)[0] > 1e-9 or not M.any():
                    continue
                keep = M.copy()
                for t in (0.25, 0.5, 0.75):
                    rec.trans()
                    for C, way in ((step(A, M, t), "to"), (step(M, A, t), "from")):
                        w = np.linalg.eigvalsh(C) if np.isfinite(C).all() else [-1.0]
                        rec.check(near(C, C.T, 1e-12) and w[0] > 1e-12 * w[-1], "a point of the geodesic %s a matrix without inverse is not SPD" % way, A=A, M=M, t=t, got=C)
                rec.check(np.array_equal(M, keep), "the geodesic changed its ends")
    rec.trace()
    rec.sample({"p": p, "pairs": len(mine) * len(fam)})
