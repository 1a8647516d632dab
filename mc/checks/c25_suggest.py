"""C25: suggest ranks by the documented features, tree and rules.

Every data set of a grid (sizes x structures x tails, plus all words over small alphabets) is
described and ranked by the real code and by an independent computation from the definitions and the
shipped tree tables; every node of the tree is examined; the evidence counts the leaves and rule
regimes reached. Feature values too close to a threshold for rounding are skipped (counted).
"""
from __future__ import annotations

import itertools
import types

import numpy as np

from mc import space as S

PROPERTY = "C25"
LEVEL = "model_checking"
ASSUMPTIONS = ["data sets whose features lie within rounding of a decision threshold are skipped for ranking (counted)"]

ORDER = ["EmpiricalCovariance", "DiagonalCovariance", "BlockCovariance", "EwaCovariance", "AdaptiveEwaCovariance",
         "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance", "SchurConditionalCovariance",
         "SchurLedoitWolfCovariance", "PartialMomentsCovariance", "HuberCovariance", "TylerCovariance",
         "GeodesicEwaCovariance", "DCCCovariance", "FactorCovariance"]
STRUCTS = ["iid", "factor1", "factor.3", "factor3", "equi.6", "hetero", "spiked", "dup"]
TAILS = [0.5, 1.0, 1.7, 3.0]


def cases(tier):
    th = tier == "thorough"
    out = [{"kind": "tree"}, {"kind": "calls"}, {"kind": "stumps"}]
    for p in (1, 2, 3):
        out.append({"kind": "words", "p": p, "depth": 4 if th else 3, "cost": 4})
    sizes = [(n, p) for p in (1, 2, 3, 4, 5, 7, 9, 11, 15, 20, 25, 32, 40, 50, 60) for n in (p // 2 + 2, p - 1, p + 2, int(1.6 * p) + 1, 3 * p + 1, 4 * p, 4 * p + 1, 12 * p, 40)
             if n >= 1]
    if th:
        sizes += [(n, p) for p in range(1, 40, 2) for n in (2, 10, 25, 80, 160, 400)]
    for s in STRUCTS:
        for a in TAILS + ([0.3, 2.2, 5.0] if th else []):
            out.append({"kind": "rank", "struct": s, "tail": a, "sizes": sorted(set(sizes)), "cost": 8})
    # long and wide: what a shortcut for large data would change
    for s in STRUCTS[:7]:
        out.append({"kind": "rank", "struct": s, "tail": 1.7, "sizes": [(1030, 3), (5100, 2), (11000, 4), (52000, 2), (101000, 1)] + ([(1100000, 2)] if th else []), "cost": 9})
        out.append({"kind": "rank", "struct": s, "tail": 1.0, "sizes": [(30, 101), (140, 130), (60, 210), (260, 255)] + ([(40, 520), (1100, 501)] if th else []), "cost": 9})
    return out


def data(n, p, struct, a):
    Z = S.stream(n, p, seed=71) / (1.0 + 0.3 * np.arange(p))
    Z = np.sign(Z) * np.abs(Z) ** a
    f = S.stream(n, 1, seed=72)
    f = np.sign(f) * np.abs(f) ** a
    i = np.arange(p)
    if struct == "iid":
        return Z
    if struct == "factor1":
        return 0.4 * Z + f * (1.0 + 0.05 * i)
    if struct == "factor.3":
        return Z + 0.3 * f * (1.0 + 0.05 * i)
    if struct == "factor3":
        F = S.stream(n, 3, seed=73)
        B = np.array([[np.cos(1.3 * k + 0.7 * j) for j in range(p)] for k in range(3)])
        return F @ B + 0.3 * Z
    if struct == "equi.6":
        return np.sqrt(0.4) * Z + np.sqrt(0.6) * f
    if struct == "hetero":
        return Z * np.logspace(-1, 1, p)
    if struct == "spiked":
        return Z * np.where(i < 2, 6.0, 0.6)
    if struct == "dup":
        return np.where(i % 2 == 1, np.roll(Z, 1, axis=1), Z)
    raise KeyError(struct)


def features(X):
    X = np.asarray(X, dtype=float)
    n, p = X.shape
    d = X - X.sum(axis=0) / n
    C = d.T @ d / n
    ev = np.maximum(np.linalg.eigvalsh((C + C.T) / 2), 1e-12)
    v = np.maximum(np.array([C[i, i] for i in range(p)]), 1e-12)
    rank = ev.sum() ** 2 / (ev ** 2).sum()
    off = [abs(C[i, j]) / (v[i] * v[j]) ** 0.5 for i in range(p) for j in range(p) if i != j]
    return {"n": n, "p": p, "p_over_n": p / n, "effective_rank": rank, "sphericity": rank / p,
            "condition_number": ev[-1] / ev[0], "mean_abs_offdiag_corr": sum(off) / len(off) if off else 0.0,
            "avg_excess_kurtosis": float(np.mean((d ** 4).sum(axis=0) / n / v ** 2 - 3.0))}


def condition_is_noise(X):
    """The smallest eigenvalue is rounding noise above the 1e-12 floor, or decides by a hair."""
    d = np.asarray(X, dtype=float)
    d = d - d.mean(axis=0)
    ev = np.linalg.eigvalsh(d.T @ d / len(d))
    return ev[-1] * 1e-15 * len(ev) > 2e-13 or bool((ev[0] < 1e-9) and ev[0] > 1e-14 * max(ev[-1], 1.0) * len(ev))


def heuristic(f):
    s = {k: 0.0 for k in ORDER}
    margin = [f["p_over_n"] - 0.25, f["sphericity"] - 0.6, (f["condition_number"] - 50.0) / 50, f["avg_excess_kurtosis"] - 1.0]
    hard = f["p_over_n"] > 0.25 or f["sphericity"] < 0.6 or f["condition_number"] > 50
    for k in (["Factor", "LedoitWolf", "OAS", "Shrunk", "Schur"] if hard else ["Empirical", "Ewa"]):
        s[k + "Covariance"] += 2
    if f["avg_excess_kurtosis"] > 1.0:
        s["HuberCovariance"] += 1.5
        s["TylerCovariance"] += 1.5
    s["LedoitWolfCovariance"] += 0.5
    return s, min(abs(m) for m in margin[1:]) < 1e-9, (bool(hard), bool(f["avg_excess_kurtosis"] > 1.0))


def walk(M, f):
    node, close = 0, False
    while M.LEFT[node] != -1:
        j = M.FEATURE[node]
        z = (f[M.FEATURES[j]] - M.MEAN[j]) / M.STD[j]
        close = close or abs(z - M.THRESHOLD[node]) < 1e-8 * max(1.0, abs(z))
        node = M.LEFT[node] if z <= M.THRESHOLD[node] else M.RIGHT[node]
    return node, dict(zip(M.CLASSES, M.VALUE[node])), close


def ranking(M, f):
    h, close, regime = heuristic(f)
    node, w = None, {}
    if M is not None:
        node, w, c = walk(M, f)
        close = close or c
    return sorted(ORDER, key=lambda k: (-w.get(k, 0), -h[k], ORDER.index(k))), close, (node,) + regime


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def compare_features(X, rec, how):
    import precise

    got, want = precise.covariance_features(X), features(X)
    rec.trans()
    noisy = condition_is_noise(X)
    ok = list(got) == list(want) and got["n"] == want["n"] and got["p"] == want["p"]
    bad = []
    for k in want:
        if k == "condition_number" and noisy:
            rec.skip("condition number is rounding noise")
            continue
        tol = 1e-5 if k == "condition_number" else 1e-9
        if not (k in got and isinstance(got[k], (int, float)) and abs(got[k] - want[k]) <= tol * max(1.0, abs(want[k]))):
            bad.append(k)
    rec.check(ok and not bad, "covariance_features differs from the definitions", got=got, want=want, which=bad, how=how)
    return noisy, got


def spread(M):
    """The shipped tree with other counts in its leaves: each leaf recommends something else, some with ties."""
    if M is None:
        return None
    T = types.ModuleType("spread")
    T.__dict__.update({k: getattr(M, k) for k in ("FEATURES", "MEAN", "STD", "CLASSES", "FEATURE", "THRESHOLD", "LEFT", "RIGHT")})
    T.VALUE = [[(7 * i + 3 * j * j + i * j) % 11 for j in range(len(M.CLASSES))] for i in range(len(M.FEATURE))]
    return T


def compare_rank(X, rec, how, seen=None):
    import precise
    from precise import recommend

    noisy, f = compare_features(X, rec, how)
    if not hasattr(recommend, "_MODEL"):
        rec.skip("the model is not replaceable")
        return
    for M in (recommend._MODEL, None, spread(recommend._MODEL)):
        keep = recommend._MODEL
        want, close, regime = ranking(M, features(X))
        if noisy:
            lo, hi = dict(features(X)), dict(features(X))
            lo["condition_number"], hi["condition_number"] = 1e6, 1e16
            close = close or ranking(M, lo)[0] != ranking(M, hi)[0]
        if close:
            rec.skip("a feature lies on a decision threshold")
            continue
        rec.state()
        recommend._MODEL = M
        try:
            got = [c.__name__ for c in precise.suggest(X, top=17)]
            first = [c.__name__ for c in precise.suggest(X)]
        finally:
            recommend._MODEL = keep
        rec.check(got == want and first == want[:3], "suggest does not rank by the shipped tree and the rules",
                  got=got, default=first, want=want, features=f, tree=M is not None, how=how)
        if seen is not None and M in (keep, None):
            seen.add((M is not None,) + regime)


def run_words(case, rec):
    p = case["p"]
    L = S.letters(p, "zuvqe")
    for n in range(1, case["depth"] + 1):
        for w in itertools.product(L, repeat=n):
            X = np.array([L[k] for k in w])
            compare_rank(X, rec, {"word": w, "p": p})
            rec.trace()
    rec.sample({"p": p, "letters": list(L), "depth": case["depth"]})


def run_rank(case, rec):
    import precise

    seen = set()
    for n, p in case["sizes"]:
        X = data(n, p, case["struct"], case["tail"])
        how = {"n": n, "p": p, "struct": case["struct"], "tail": case["tail"]}
        compare_rank(X, rec, how, seen)
        if p >= 2 and p <= 11:
            compare_features(X[::-1], rec, {**how, "rows": "reversed"})
            compare_features(X[:, ::-1], rec, {**how, "columns": "reversed"})
            compare_features(X * 7.0 + 3.0, rec, {**how, "moved": True})
            for u in (1e4, 1e-2, 1e-3, 1e-4, 3e-5, 1e-5):
                compare_features(X * u, rec, {**how, "units": u})
            compare_features(X * np.logspace(0, -5, p), rec, {**how, "units": "mixed"})
            compare_rank(X * 1e-3, rec, {**how, "units": 1e-3})
        rec.trace()
    for s in seen:
        rec.add("tree leaf %s reached" % s[1] if s[0] else "rules alone, hard=%d heavy=%d" % s[2:])
    rec.sample({"struct": case["struct"], "tail": case["tail"], "sizes": len(case["sizes"])})


def run_tree(case, rec):
    """The shipped tables form one binary tree whose leaves recommend something."""
    import precise
    from precise import recommend

    M = recommend._MODEL
    rec.check(M is not None, "the trained recommender does not ship")
    n = len(M.FEATURE)
    rec.check(len(M.THRESHOLD) == len(M.LEFT) == len(M.RIGHT) == len(M.VALUE) == n, "table lengths")
    rec.check(len(M.MEAN) == len(M.STD) == len(M.FEATURES) and all(s > 0 for s in M.STD), "feature tables")
    f = precise.covariance_features(S.stream(9, 3))
    rec.check(all(k in f for k in M.FEATURES), "unknown feature", names=M.FEATURES)
    rec.check(all(c in precise.estimator_names() for c in M.CLASSES), "unknown class", names=M.CLASSES)
    reach, todo, leaves = [], [0], []
    while todo and len(reach) <= n:
        i = todo.pop()
        reach.append(i)
        rec.state()
        rec.trans()
        leaf = M.LEFT[i] == -1
        rec.check(leaf == (M.RIGHT[i] == -1) == (M.FEATURE[i] == -2), "a node is neither leaf nor split", node=i)
        rec.check(len(M.VALUE[i]) == len(M.CLASSES) and all(v >= 0 for v in M.VALUE[i]), "leaf counts", node=i)
        if leaf:
            leaves.append(i)
            continue
        rec.check(0 <= M.FEATURE[i] < len(M.FEATURES), "feature index", node=i)
        todo += [M.LEFT[i], M.RIGHT[i]]
    rec.check(sorted(reach) == list(range(n)), "nodes are not reached exactly once", reach=reach)
    empty = sorted(i for i in leaves if not any(M.VALUE[i]))
    if empty:
        all_but_last = empty == sorted(leaves)[:-1] and len(empty) == 23
        rec.violate("leaves of the shipped tree recommend nothing", nodes=empty,
                    key="tree-leaves-without-counts" if all_but_last else None)
    rec.trace()


def run_stumps(case, rec):
    """Exported trees of one and two splits over n, p and p/n, with thresholds exactly at and on both sides of each value."""
    import precise
    from precise import recommend

    if not hasattr(recommend, "_MODEL"):
        rec.skip("the model is not replaceable")
        return
    keep = recommend._MODEL
    classes = ["TylerCovariance", "DCCCovariance", "EmpiricalCovariance", "OASCovariance"]
    try:
        for n, p in itertools.product((2, 4, 8, 16, 32), (1, 2, 4, 8)):
            X = data(n, p, "iid", 1.0)
            f = {"n": n, "p": p, "p_over_n": p / n}
            h, _, _ = heuristic(features(X))
            for names in itertools.permutations(f, 2):
                for mean, std in (((0.0, 0.0), (1.0, 1.0)), ((2.0, 0.25), (0.5, 4.0))):
                    z = [(f[k] - m) / s for k, m, s in zip(names, mean, std)]
                    for a, b in itertools.product((-1, 0, 1), repeat=2):
                        for left in (True, False):   # the second split hangs on the left or the right
                            T = types.ModuleType("stump")
                            T.FEATURES, T.MEAN, T.STD, T.CLASSES = list(names), list(mean), list(std), classes
                            T.FEATURE = [0, 1, -2, -2, -2]
                            T.THRESHOLD = [z[0] + a * 0.125, z[1] + b * 0.125, -2.0, -2.0, -2.0]
                            T.LEFT, T.RIGHT = ([1, 2, -1, -1, -1], [4, 3, -1, -1, -1]) if left else ([4, 2, -1, -1, -1], [1, 3, -1, -1, -1])
                            T.VALUE = [[9, 9, 9, 9], [1, 9, 9, 9], [0, 3, 0, 0], [2, 0, 0, 2], [0, 0, 1, 1]]
                            leaf = (2 if b >= 0 else 3) if (a >= 0) == left else 4
                            w = dict(zip(classes, T.VALUE[leaf]))
                            want = sorted(ORDER, key=lambda k: (-w.get(k, 0), -h[k], ORDER.index(k)))
                            recommend._MODEL = T
                            got = [c.__name__ for c in precise.suggest(X, top=17)]
                            rec.state()
                            rec.trans()
                            rec.check(got == want, "suggest does not walk the tree it was given", features=f, names=names, thresholds=T.THRESHOLD,
                                      second="left" if left else "right", got=got[:4], want=want[:4])
                rec.trace()
    finally:
        recommend._MODEL = keep


def run_calls(case, rec):
    """top, containers, errors."""
    import pandas as pd
    import precise

    X = data(50, 6, "factor1", 1.7)
    full = [c.__name__ for c in precise.suggest(X, top=17)]
    rec.check(sorted(full) == sorted(ORDER), "suggest(top=17) is not every estimator once", got=full)
    for top in range(0, 25):
        got = precise.suggest(X, top=top)
        rec.trans()
        rec.check([c.__name__ for c in got] == full[:top] and all(c is getattr(precise, c.__name__) for c in got), "top", top=top, got=got)
    for how, Y in (("list", X.tolist()), ("frame", pd.DataFrame(X)), ("fortran", np.asfortranarray(X)), ("tuple", tuple(map(tuple, X))),
                   ("strided", np.repeat(X, 2, axis=0)[::2])):
        rec.state()
        rec.check([c.__name__ for c in precise.suggest(Y, top=17)] == full, "suggest depends on the container", how=how)
        a, b = precise.covariance_features(Y), features(X)
        rec.check(all(abs(a[k] - b[k]) <= 1e-6 * max(1, abs(b[k])) for k in b), "features depend on the container", how=how)
    rec.trace()
