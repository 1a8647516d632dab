"""C21: a fixed keyed universe is the wrapped estimator on imputed vectors.

All histories of key subsets (including unknown keys and permuted dicts) up to the depth from
nothing and across the burn-in, for every imputation rule, and every subset missing at every
position of longer streams; all sub-queries and orders at every node.
"""
from __future__ import annotations

import itertools

import numpy as np

from mc import space as S
from mc.keyed_model import FixedModel, forms, name_sets

PROPERTY = "C21"
LEVEL = "model_checking"


def cases(tier):
    th = tier == "thorough"
    out = []
    wraps = [["EwaCovariance", {"r": 0.3}], ["LedoitWolfCovariance", {}], ["TylerCovariance", {"r": 0.3}],
             ["EmpiricalCovariance", {}], ["BlockCovariance", {"r": 0.3, "n_blocks": 2}], ["DCCCovariance", {"r": 0.3}]]
    for w in wraps:
        for imp in ("ffill", "mean", "zero"):
            for keys in (None, ["c", "a", "b"], ("b", "a")):
                out.append({"kind": "tree", "wrap": w, "impute": imp, "keys": keys,
                            "depth": 4 if th else 3, "prefix": 0, "cost": 4})
                out.append({"kind": "tree", "wrap": w, "impute": imp, "keys": keys, "depth": 3 if th else 2,
                            "prefix": 5, "cost": 2})
                out.append({"kind": "gaps", "wrap": w, "impute": imp, "keys": keys, "n": 60 if th else 30, "cost": 3})
    for c in S.base_configs(0.3):
        for imp in ("ffill", "mean"):
            out.append({"kind": "gaps", "wrap": c, "impute": imp, "keys": None, "n": 20, "cost": 2})
            out.append({"kind": "gaps", "wrap": [c[0], {**c[1], "diff": True}], "impute": "ffill", "keys": None,
                        "n": 14, "cost": 2})
    out.append({"kind": "names"})
    for imp in ("ffill", "mean", "zero"):
        for keys in (None, ["c", "a", "b"]):
            out.append({"kind": "forms", "wrap": wraps[0], "impute": imp, "keys": keys})
    for n in (3, 12, 21, 70):
        for kind in name_sets(12):
            for imp in ("ffill", "mean", "zero"):
                for w in wraps[:2] + wraps[4:5] if n == 12 else wraps[:1]:
                    out.append({"kind": "wide", "names": kind, "p": n, "impute": imp, "wrap": w, "n": 40 if th else 16})
    return out


NAMES = "abcd"


def obs(t, names, order=0):
    x = S.row(t, 4, 44)
    names = list(names)
    if order and names:
        names = names[order % len(names):] + names[:order % len(names)]
    return {k: float(x[NAMES.index(k)]) for k in names}


def build(case):
    import precise

    kw = {"impute": case["impute"]}
    if case["impute"] == "ffill" and case["wrap"][0] == "EmpiricalCovariance":
        kw = {}  # the default
    if case["keys"] is not None:
        kw["keys"] = case["keys"]
    return precise.FixedUniverse(S.make(case["wrap"]), **kw)


def agree(rec, k, m, how, queries=True):
    rec.state()
    if m.est.n_samples_ < 1:
        return True
    C, keys = m.cov()
    if not np.isfinite(C).all():
        rec.skip("not finite")
        return False
    scale = max(1.0, np.abs(C).max())
    got, gk = k.cov_array()
    if not rec.check(list(gk) == keys, "keys of the estimate", got=gk, want=keys, how=how):
        return False
    if not rec.check(S.close(got, C, 1e-8, 1e-10 * scale), "the matrix is not that of the imputed vectors", got=got,
                     want=C, how=how, keys=keys):
        return False
    if queries:
        for n in (1, 2, len(keys)):
            for q in itertools.permutations(keys, n):
                W, _ = m.cov(q)
                got, gk = k.cov_array(list(q))
                rec.check(list(gk) == list(q) and S.close(got, W, 1e-8, 1e-10 * scale),
                          "a query is not the matching submatrix", query=q, got=got, want=W, how=how)
    return True


def run(case, rec):
    if case["kind"] == "names":
        return names(rec)
    if case["kind"] == "wide":
        return wide(case, rec)
    if case["kind"] == "forms":
        return run_forms(case, rec)
    wrap = case["wrap"]
    full = list(case["keys"]) if case["keys"] else list("abc")
    if case["kind"] == "tree":
        subsets = [c for n in range(1, 4) for c in itertools.combinations("abc", n)] + [("d",), ("a", "d"), ("a", "b", "c", "d"), ()]
        for w in itertools.product(range(len(subsets)), repeat=case["depth"]):
            k, m = build(case), FixedModel(wrap, case["keys"], case["impute"])
            if case["keys"] is None and not case["prefix"] and not subsets[w[0]]:
                continue
            for t in range(case["prefix"]):
                o = obs(t, "abc")
                k.learn_one(dict(o))
                m.push(o)
            for i, a in enumerate(w):
                o = obs(case["prefix"] + i, subsets[a], order=i)
                k.learn_one(dict(o))
                m.push(o)
                rec.trans()
            agree(rec, k, m, {"sets": [subsets[a] for a in w], "prefix": case["prefix"]}, queries=sum(w) % 7 == 0)
            rec.trace()
        rec.sample({"sets": [subsets[a] for a in w]})
    else:
        n = case["n"]
        for gone in ("a", "b", "c", "ab", "bc", "ac", "abc"):
            for length in (1, 3):
                for at in range(0 if case["keys"] else 1, n, 1 if length == 1 else 4):
                    k, m = build(case), FixedModel(wrap, case["keys"], case["impute"])
                    for t in range(min(n, at + 6)):
                        miss = at <= t < at + length
                        o = obs(t, [c for c in "abcd" if not (miss and c in gone) and (t % 4 == 3 or c != "d")], order=t)
                        if t == 0 and case["keys"] is None:
                            o = obs(t, "bca")
                        k.learn_one(o)
                        m.push(o)
                        rec.trans()
                        if t >= at and not agree(rec, k, m, {"gone": gone, "at": at, "len": length, "t": t},
                                                 queries=t == at + 1 and at % 5 == 0):
                            break
                    rec.trace()


def names(rec):
    """Keys of any hashable type, values of any numeric type, one key only, many keys."""
    import precise

    for keys in ([1, 2, 3], [("x", 1), ("y", 2)], ["only"], [f"k{i}" for i in range(9)]):
        for kinds in (float, int, np.float64, np.float32):
            k, m = precise.FixedUniverse(precise.EwaCovariance(r=0.3)), FixedModel(["EwaCovariance", {"r": 0.3}])
            for t in range(12):
                x = np.round(8 * S.row(t, len(keys), 45))
                o = {q: kinds(v) for q, v in zip(keys, x) if t == 0 or (t + hash(str(q)) * 0 + keys.index(q)) % 4}
                k.learn_one(o)
                m.push(o)
                rec.trans()
                agree(rec, k, m, {"keys": str(keys), "t": t}, queries=len(keys) < 4)
            rec.trace()


def wide(case, rec):
    """Many names of every kind, in an order no sort gives; later observations arrive in other orders and with gaps."""
    import precise

    names = name_sets(case["p"])[case["names"]]
    p = len(names)
    X = S.stream(case["n"], p, seed=48)
    for given in (None, names[::-1], tuple(names[1:]) + ("never",)):
        kw = {} if given is None else {"keys": given}
        k, m = precise.FixedUniverse(S.make(case["wrap"]), impute=case["impute"], **kw), FixedModel(case["wrap"], given, case["impute"])
        for t in range(case["n"]):
            cols = list(range(p)) if t == 0 else [(5 * j + t) % p for j in range(p)] if p % 5 else [(7 * j + t) % p for j in range(p)]
            o = {names[j]: float(X[t, j]) for j in cols if t == 0 or (j + t) % 4}
            k.learn_one(dict(o))
            m.push(o)
            rec.trans()
            rec.state()
            C, keys = m.cov()
            scale = max(1.0, np.abs(C).max())
            got, gk = k.cov_array()
            rec.check(list(gk) == keys and S.close(got, C, 1e-8, 1e-10 * scale), "the matrix is not that of the imputed vectors",
                      got=gk, want=keys, names=case["names"], given=given is not None, t=t)
            for q in (keys[::-1], keys[1::2], keys[-1:] + keys[:1]):
                W, _ = m.cov(q)
                got, gk = k.cov_array(q)
                rec.check(list(gk) == q and S.close(got, W, 1e-8, 1e-10 * scale), "a query is not the matching submatrix", query=q, t=t)
                V = k.covariance_
                rec.check(list(V) == keys and abs(V[q[0]][q[-1]] - W[0, -1]) <= 1e-8 * scale, "covariance_ is keyed wrongly", query=q, t=t)
        rec.trace()


def run_forms(case, rec):
    """Whatever kind of dict carries the observation, and whatever kind of number its values are; every subset missing at every step of a
    short stream. A dict that answers for names it does not hold is not asked for them, and gains no entry."""
    subsets = [c for n in range(4) for c in itertools.combinations("abc", n)]
    vals = np.array([[2, 1, 0, 3], [1, 0, 5, 1], [0, 3, 1, 2], [4, 1, 1, 0], [1, 6, 0, 1], [3, 2, 7, 5], [5, 0, 2, 1]], dtype=float)
    for name, wear in forms().items():
        for a, b in itertools.product(range(len(subsets)), repeat=2):
            k, m = build(case), FixedModel(case["wrap"], case["keys"], case["impute"])
            for t in range(7):
                names = "abc" if t in (0, 1, 4) else subsets[a] if t in (2, 5) else subsets[b]
                o = {z: vals[t]["abcd".index(z)] for z in list(names) + ["d"] * (t % 2)}
                worn = wear(o)
                k.learn_one(worn)
                m.push(o)
                rec.trans()
                rec.check(list(worn) == list(o) and all(float(worn[z]) == o[z] for z in o), "the observation was changed", form=name, got=dict(worn), want=o)
                if not agree(rec, k, m, {"form": name, "sets": [subsets[a], subsets[b]], "t": t}, queries=False):
                    break
            rec.trace()
