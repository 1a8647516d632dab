"""C22: a dynamic universe assembles its matrix from per-key-set estimators by the documented rules.

Explicit model of the live key sets (creation, feeding, staleness, eviction, capacity) stepped
together with the real object through all key-set histories up to the depth, for small capacities
and staleness limits; every node compares the matrix of the last key set, and of all seen names.
"""
from __future__ import annotations

import itertools

import numpy as np

from mc import space as S
from mc.keyed_model import DynamicModel, forms, name_sets

PROPERTY = "C22"
LEVEL = "model_checking"
ASSUMPTIONS = ["ties between equally old and equally stale universes go to the one created first",
               "a name held by no live estimator (evicted or never seen) is an unknown entry, its own variance included"]
EWA = ["EwaCovariance", {"r": 0.3}]


def cases(tier):
    th = tier == "thorough"
    out = []
    for mu in (1, 2, 3, 10):
        for ms in (0, 1, 2, 50):
            for first in range(7):
                out.append({"kind": "tree", "sets": ["a", "b", "c", "ab", "bc", "ac", "abc"], "first": first,
                            "depth": 5 if th else 4, "mu": mu, "ms": ms, "wrap": EWA, "cost": 4})
            out.append({"kind": "tree", "sets": ["ab", "bc", "abc"], "first": None, "depth": 7 if th else 6,
                        "mu": mu, "ms": ms, "wrap": EWA, "cost": 6})
            out.append({"kind": "tree", "sets": ["", "ab", "cb", "abc", "d"], "first": None, "depth": 5 if th else 4,
                        "mu": mu, "ms": ms, "wrap": EWA, "cost": 6})
            out.append({"kind": "tree", "sets": ["ab", "cd", "bc", "abcd"], "first": None, "depth": 6 if th else 5,
                        "mu": mu, "ms": ms, "wrap": ["EmpiricalCovariance", {}], "cost": 6})
    for c in S.base_configs(0.3):
        out.append({"kind": "rotate", "wrap": c, "n": 40, "mu": 3, "ms": 4, "cost": 3})
        out.append({"kind": "rotate", "wrap": c, "n": 24, "mu": 10, "ms": 50, "cost": 3})
    for n in (4, 12, 21, 40):
        for kind in name_sets(12):
            for w in (EWA, ["LedoitWolfCovariance", {"r": 0.3}])[:2 if n == 12 else 1]:
                out.append({"kind": "wide", "names": kind, "p": n, "wrap": w, "n": 60 if th else 24, "mu": 3 if n == 4 else 10, "cost": 2})
    for w in (EWA, ["EmpiricalCovariance", {}], ["LedoitWolfCovariance", {}]):
        for a, b in ((13, 9), (40, 33), (70, 66), (150, 120), (270, 260)) + (((1100, 1030), (2100, 2060)) if th else ((1060, 1030),)):
            out.append({"kind": "aged", "a": a, "b": b, "wrap": w})
    out.append({"kind": "stale", "n": 130})
    out.append({"kind": "forms", "n": 9})
    out.append({"kind": "capacity", "n": 40})
    return out


NAMES = "abcdefgh"


def obs(t, names):
    x = S.row(t, 8, 46)
    return {k: float(x[NAMES.index(k)]) for k in names}


def compare(rec, k, m, query, how):
    rec.state()
    C, keys = m.cov(query)
    got, gk = k.cov_array(query)
    scale = max(1e-3, float(np.abs(C).max(initial=0.0)))
    tol = 1e-3 if m.cfg[0] == "GeodesicEwaCovariance" else 1e-7
    ok = list(gk) == list(keys) and S.close(got, C, tol, 1e-8 * scale)
    rec.check(ok, "the matrix is not assembled as documented", got=got, want=C, keys=[list(gk), list(keys)], how=how)
    return ok


def run(case, rec):
    import precise

    kind = case["kind"]
    if kind == "wide":
        return wide(case, rec)
    if kind == "aged":
        return aged(case, rec)
    if kind == "forms":
        return run_forms(case, rec)
    if kind in ("stale", "capacity"):
        return limits(case, rec)

    def both():
        k = precise.DynamicUniverse(S.make(case["wrap"]), max_universes=case["mu"], max_staleness=case["ms"])
        return k, DynamicModel(case["wrap"], case["mu"], case["ms"])

    if kind == "tree":
        sets = case["sets"]
        firsts = [case["first"]] if case["first"] is not None else range(len(sets))
        for w in itertools.product(range(len(sets)), repeat=case["depth"]):
            if w[0] not in firsts:
                continue
            k, m = both()
            seen = set()
            for t, a in enumerate(w):
                o = obs(t, sets[a])
                k.learn_one(o)
                m.push(o)
                seen |= set(sets[a])
                rec.trans()
            live = {z for u in m.live for z in u["set"]}
            how = {"sets": [sets[a] for a in w], "mu": case["mu"], "ms": case["ms"]}
            compare(rec, k, m, None, how)
            known = sorted(seen & live, reverse=True)
            if len(known) > 1:
                compare(rec, k, m, known, how)
            # names no live estimator holds: evicted, and never seen
            if sum(w) % 2:
                compare(rec, k, m, sorted(seen) + ["h"], how)
            rec.trace()
        rec.sample(how)
    else:
        pattern = ["abc", "abcd", "bcd", "ab", "abcd", "abcd", "cd", "abd"]
        for shift in range(len(pattern)):
            k, m = both()
            for t in range(case["n"]):
                names = pattern[(t // (1 + shift % 3) + shift) % len(pattern)]
                o = obs(t, names[::-1] if t % 2 else names)
                k.learn_one(o)
                m.push(o)
                rec.trans()
                known = sorted({z for u in m.live for z in u["set"]})
                if not np.isfinite(m.cov(known)[0]).all():
                    rec.skip("not finite")
                    break
                compare(rec, k, m, None, {"t": t, "shift": shift})
                compare(rec, k, m, known, {"t": t, "shift": shift})
            rec.trace()


def limits(case, rec):
    """Default limits: staleness 50 and ten universes, crossed at every distance."""
    import precise

    if case["kind"] == "stale":
        for gap in list(range(47, 54)) + [100]:
            for warm in (1, 4):
                k, m = precise.keyed(precise.EwaCovariance(r=0.3), dynamic=True), DynamicModel(EWA)
                for t in range(warm):
                    for x in (k.learn_one, m.push):
                        x(obs(t, "abc"))
                for t in range(gap):
                    for x in (k.learn_one, m.push):
                        x(obs(warm + t, "bd"))
                    rec.trans()
                for back in ("ab", "abc", "abcd"):
                    for x in (k.learn_one, m.push):
                        x(obs(200, back))
                    rec.trans()
                    compare(rec, k, m, None, {"gap": gap, "back": back})
                    compare(rec, k, m, sorted({z for u in m.live for z in u["set"]}), {"gap": gap, "back": back})
                rec.trace()
    else:
        pairs = ["".join(c) for c in itertools.combinations("abcdef", 2)]
        for start in range(len(pairs)):
            k, m = precise.keyed(precise.EwaCovariance(r=0.3), dynamic=True), DynamicModel(EWA)
            for t in range(case["n"]):
                names = pairs[(start + t * (1 + t % 3)) % len(pairs)]
                for x in (k.learn_one, m.push):
                    x(obs(t, names))
                rec.trans()
                compare(rec, k, m, None, {"t": t, "start": start})
                compare(rec, k, m, sorted({z for u in m.live for z in u["set"]}), {"t": t, "start": start})
            rec.trace()


def aged(case, rec):
    """Two long-lived key sets that share a name, either one the older, and a third beside them."""
    import precise

    for lengths in ((case["a"], case["b"]), (case["b"], case["a"]), (case["a"], case["a"])):
        for third in (None, "bd", "abc"):
            k = precise.DynamicUniverse(S.make(case["wrap"]), max_universes=10, max_staleness=10_000)
            m = DynamicModel(case["wrap"], 10, 10_000)
            X = S.stream(sum(lengths) + 5, 4, seed=53)
            t = 0
            for names, n in zip(("ab", "cb"), lengths):
                for i in range(n):
                    o = {z: float(X[t, "abcd".index(z)]) * (1.0 if names == "ab" else 3.0) for z in (third if third and i % 50 == 3 else names)}
                    k.learn_one(o)
                    m.push(o)
                    t += 1
                    rec.trans()
                    if i >= n - 2 or i % 100 == 7:
                        live = sorted({z for u in m.live for z in u["set"]})
                        for q in (["b"], live, live[::-1]):
                            compare(rec, k, m, q, {"t": t, "lengths": lengths, "third": third})
            rec.trace()
    rec.sample({"lengths": lengths})


def wide(case, rec):
    """Many names of every kind, in an order no sort gives; key sets nested, overlapping and disjoint."""
    import precise

    names = name_sets(case["p"])[case["names"]]
    p = len(names)
    X = S.stream(case["n"], p, seed=49)
    h = p // 2
    sets = [range(p), range(h + 1), range(h - 1, p), [*range(0, p, 2)], range(p)[::-1], [1, 0], range(1, p), [*range(h)][::-1]]
    for shift in range(len(sets)):
        k = precise.DynamicUniverse(S.make(case["wrap"]), max_universes=case["mu"], max_staleness=6)
        m = DynamicModel(case["wrap"], case["mu"], 6)
        for t in range(case["n"]):
            o = {names[j]: float(X[t, j]) for j in sets[(t // (1 + shift % 2) + shift) % len(sets)]}
            k.learn_one(dict(o))
            m.push(o)
            rec.trans()
            live = [z for z in names if any(z in u["set"] for u in m.live)]
            if t % 3 == shift % 3:
                compare(rec, k, m, None, {"t": t, "shift": shift, "names": case["names"]})
            if t % 6 == shift % 6:
                compare(rec, k, m, live[::-1], {"t": t, "shift": shift, "names": case["names"]})
        rec.trace()


def run_forms(case, rec):
    """Whatever kind of dict carries the observation, and whatever kind of number its values are."""
    import precise

    sets = ["abc", "ab", "bcd", "cba"]
    vals = np.array([[(3 * t + 5 * j + t * j) % 8 for j in range(4)] for t in range(case["n"])], dtype=float)
    for name, wear in forms().items():
        for w in itertools.product(range(4), repeat=3):
            k, m = precise.DynamicUniverse(S.make(EWA), max_universes=2, max_staleness=2), DynamicModel(EWA, 2, 2)
            for t in range(case["n"]):
                o = {z: vals[t]["abcd".index(z)] for z in sets[w[t % 3]]}
                worn = wear(o)
                k.learn_one(worn)
                m.push(o)
                rec.trans()
                rec.check(list(worn) == list(o) and all(float(worn[z]) == o[z] for z in o), "the observation was changed", form=name, got=dict(worn), want=o)
            compare(rec, k, m, None, {"form": name, "sets": [sets[a] for a in w]})
            compare(rec, k, m, sorted({z for u in m.live for z in u["set"]}), {"form": name, "sets": [sets[a] for a in w]})
            rec.trace()
