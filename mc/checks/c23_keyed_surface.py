"""C23: every keyed view shows the same matrix, under the keys asked for, in the order asked for.

All key-set histories up to the depth for both adapters; at every node all permutations and subsets
of the known names are queried through every view, and the three ways of feeding are compared.
"""
from __future__ import annotations

import copy
import itertools
import pickle

import numpy as np

from mc import space as S
from mc.keyed_model import name_sets

PROPERTY = "C23"
LEVEL = "model_checking"


def cases(tier):
    th = tier == "thorough"
    out = []
    for dyn in (False, True):
        for w in (["EwaCovariance", {"r": 0.3}], ["TylerCovariance", {"r": 0.3}], ["EmpiricalCovariance", {}],
                  ["SchurLedoitWolfCovariance", {"r": 0.3, "n_blocks": 2}], ["LedoitWolfCovariance", {}]):
            for first in range(4):
                out.append({"kind": "views", "dyn": dyn, "wrap": w, "first": first, "depth": 5 if th else 4, "cost": 5})
            for first in range(4):
                out.append({"kind": "feeding", "dyn": dyn, "wrap": w, "n": 5, "first": first, "cost": 3})
            out.append({"kind": "order", "dyn": dyn, "wrap": w, "n": 14})
        out.append({"kind": "empty", "dyn": dyn})
    out.append({"kind": "front"})
    out.append({"kind": "unknown"})
    for kind in name_sets(12):
        for n in (2, 12, 25):
            out.append({"kind": "wide", "names": kind, "p": n})
    return out


SETS = ["abc", "ab", "cba", "abcd"]


def obs(t, names):
    x = S.row(t, 4, 47)
    return {k: float(x["abcd".index(k)]) for k in names}


def build(case):
    import precise

    return precise.keyed(S.make(case["wrap"]), dynamic=case["dyn"])


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def known(k, case, seen, first):
    return list(first) if not case["dyn"] else sorted(seen)


def run_views(case, rec):
    import pandas as pd

    for w in itertools.product(range(4), repeat=case["depth"]):
        if w[0] != case["first"]:
            continue
        k = build(case)
        seen = set()
        for t, a in enumerate(w):
            k.learn_one(obs(t, SETS[a]))
            seen |= set(SETS[a])
            rec.trans()
        rec.state()
        names = list(SETS[w[0]]) if not case["dyn"] else sorted(seen)
        default = list(SETS[w[0]]) if not case["dyn"] else list(SETS[w[-1]])
        how = {"sets": [SETS[a] for a in w], "dyn": case["dyn"]}
        # default views
        C, keys = k.cov_array()
        rec.check(list(keys) == default, "default keys and their order", got=keys, want=default, how=how)
        rec.check(C.shape == (len(keys),) * 2 and np.array_equal(C, C.T) and np.isfinite(C).all(), "not a square symmetric matrix", how=how)
        for nm, v in (("covariance_", k.covariance_), ("covariance", k.covariance)):
            rec.check(list(v) == keys and all(list(v[a]) == keys for a in keys)
                      and all(abs(v[a][b] - C[i, j]) <= 1e-12 * abs(C).max() for i, a in enumerate(keys) for j, b in enumerate(keys)),
                      f"{nm} differs from cov_array", how=how, got=v, want=C)
        rec.check(S.close(k.get_cov(), C, 1e-12), "get_cov differs from cov_array", how=how)
        F = k.to_frame()
        rec.check(isinstance(F, pd.DataFrame) and list(F.index) == keys and list(F.columns) == keys
                  and S.close(F.values, C, 1e-12), "to_frame differs from cov_array", how=how)
        R = corr(C)
        rec.check(S.close(k.get_corr(), R, 1e-9, 1e-9), "get_corr is not the correlation of get_cov", how=how,
                  got=k.get_corr(), want=R)
        v = k.correlation_
        rec.check(list(v) == keys and all(list(v[a]) == keys for a in keys)
                  and all(abs(v[a][b] - R[i, j]) <= 1e-9 for i, a in enumerate(keys) for j, b in enumerate(keys)),
                  "correlation_ is not the correlation of covariance_", how=how, got=v, want=R)
        # queries in every order
        for n in ((1, 2, len(names)) if sum(w) % 3 == 0 else (2,)):
            ref = {}
            for q in itertools.permutations(names, n):
                Q, qk = k.cov_array(list(q))
                rec.check(list(qk) == list(q) and Q.shape == (n, n), "keys of a query", query=q, got=qk, how=how)
                base = ref.setdefault(frozenset(q), (q, Q))
                ix = [base[0].index(a) for a in q]
                s = max(1e-6, np.abs(Q).max())
                rec.check(S.close(base[1][np.ix_(ix, ix)], Q, 1e-7, 1e-8 * s), "a query depends on the order of its keys", query=q,
                          how=how, got=Q, want=base[1][np.ix_(ix, ix)])
                if n > 1 and q == base[0]:
                    rec.check(S.close(k.get_cov(q), Q, 1e-12) and S.close(k.get_corr(q), corr(Q), 1e-9, 1e-9),
                              "get_cov/get_corr of a query", query=q, how=how)
                    G = k.to_frame(list(q))
                    rec.check(list(G.index) == list(q) and list(G.columns) == list(q) and S.close(G.values, Q, 1e-12),
                              "to_frame of a query", query=q, how=how)
        rec.trace()
    rec.sample({"sets": [SETS[a] for a in w]})


def corr(C):
    d = np.sqrt(np.diag(C))
    R = np.zeros_like(C)
    for i in range(len(d)):
        for j in range(len(d)):
            R[i, j] = 1.0 if i == j else (C[i, j] / (d[i] * d[j]) if d[i] * d[j] > 0 else 0.0)
    return R


def run_feeding(case, rec):
    """update, learn_one, learn_many (any split, any iterable): the same stream; all return self."""
    sets = SETS + [""]
    for w in itertools.product(range(5), repeat=case["n"]):
        if w[0] > w[-1] or w[0] != case["first"]:
            continue
        stream = [obs(t, sets[a]) for t, a in enumerate(w)]
        ref = build(case)
        for o in stream:
            rec.check(ref.learn_one(dict(o)) is ref, "learn_one does not return the estimator")
        C, keys = ref.cov_array()
        for how in ("update", "many", "generator", "split", "one buffer", "watching"):
            k = build(case)
            if how == "update":
                for o in stream:
                    k.update(dict(o))
            elif how == "many":
                rec.check(k.learn_many([dict(o) for o in stream]) is k, "learn_many does not return the estimator")
            elif how == "generator":
                k.learn_many(o for o in stream)
            elif how == "one buffer":
                k.learn_many(buffered(stream))
            elif how == "watching":
                at = []
                k.learn_many(watched(stream, k, at))
                rec.check(len(at) == len(stream) and all(at), "learn_many has not absorbed the observations before the one it asks for",
                          sets=[sets[a] for a in w], at=at)
            else:
                k.learn_many(stream[:2])
                k.learn_one(stream[2])
                k.learn_many([])
                k.learn_many(stream[3:])
            got, gk = k.cov_array()
            rec.trans(len(stream))
            rec.state()
            rec.check(list(gk) == list(keys) and S.close(got, C, 1e-10, 1e-12), "the way of feeding matters", how=how,
                      sets=[sets[a] for a in w], got=got, want=C)
        # The same observation (the same object, or an equal one) several times in a row counts each time.
        stream = [obs(min(t - t % 2, 2), sets[w[t - t % 2]]) for t in range(len(w))]
        for t in range(1, len(w), 2):
            stream[t] = stream[t - 1]
        ref = build(case)
        for o in stream:
            ref.learn_one(dict(o))
        C, keys = ref.cov_array()
        for how in ("same", "equal", "one by one"):
            k = build(case)
            if how == "one by one":
                for o in stream:
                    k.learn_one(o)
            else:
                k.learn_many(stream if how == "same" else [dict(o) for o in stream])
            got, gk = k.cov_array()
            rec.trans(len(stream))
            rec.state()
            rec.check(list(gk) == list(keys) and S.close(got, C, 1e-10, 1e-12), "a repeated observation is not counted each time", how=how,
                      sets=[sets[w[t - t % 2]] for t in range(len(w))], got=got, want=C)
        rec.trace()


def buffered(stream):
    """One dict, refilled for each observation."""
    d = {}
    for o in stream:
        d.clear()
        d.update(o)
        yield d


def watched(stream, k, at):
    """Looks at the estimator before giving the next observation (True if it shows every earlier one)."""
    twin = copy.deepcopy(k)
    for t, o in enumerate(stream):
        try:
            want = twin.cov_array()
            got = k.cov_array()
            at.append(list(got[1]) == list(want[1]) and S.close(got[0], want[0], 1e-10, 1e-12))
        except ValueError:
            at.append(t == 0)
        twin.learn_one(dict(o))
        yield o


def run_order(case, rec):
    """The order of keys inside an observation does not matter (beyond naming the universe)."""
    if case["wrap"][0].startswith("Schur"):
        return
    perms = list(itertools.permutations("abc"))
    for pat in range(36):
        a, b = build(case), build(case)
        for t in range(case["n"]):
            o = obs(t, "abc")
            q = perms[(pat // 6) if t % 2 else pat % 6]
            a.learn_one(o)
            b.learn_one({z: o[z] for z in q})
            rec.trans(2)
            rec.state()
            rec.check(S.close(a.get_cov(["a", "b", "c"]), b.get_cov(["a", "b", "c"]), 1e-7, 1e-9),
                      "the order of keys in an observation matters", t=t, order=q)
        rec.trace()


def run_empty(case, rec):
    import precise

    for read in ("covariance_", "correlation_", "covariance", "cov_array", "get_cov", "get_corr", "to_frame"):
        k = precise.keyed(dynamic=case["dyn"])
        rec.trans()
        rec.state()
        try:
            v = getattr(k, read)
            if callable(v):
                v()
            rec.violate("a keyed estimator without data produced an estimate", read=read)
        except ValueError:
            rec.trace()


def run_unknown(case, rec):
    """A fixed universe has no answer for a name outside it, at any point, and is unharmed by the question."""
    import precise

    for keys in (None, ["c", "a", "b"]):
        k, d = (precise.FixedUniverse(precise.EwaCovariance(r=0.3), keys=keys) for _ in "ab")
        for t in range(12):
            k.learn_one(obs(t, "abc" if t % 3 else "abcd"[:3 + (t > 0)]))
            d.learn_one(obs(t, "abc"))
            for q in (["d"], ["a", "z"], ["z", "a", "b"], ["a", "b", "c", "d"], [None]):
                for read in ("cov_array", "get_cov", "get_corr", "to_frame"):
                    rec.trans()
                    try:
                        getattr(k, read)(q)
                        rec.violate("an answer for a name that is not in the universe", query=q, read=read, t=t)
                    except (KeyError, ValueError):
                        rec.trace()
            rec.state()
            rec.check(S.close(k.get_cov(), d.get_cov(), 1e-9, 1e-12) and list(k.covariance_) == list(d.covariance_), "asking changed the universe", t=t)


def run_front(case, rec):
    """keyed() and the constructors accept an instance, a class with parameters, or nothing."""
    import precise

    data = [obs(t, "abc") for t in range(30)]
    for cls, par in (("EwaCovariance", {"r": 0.3}), ("LedoitWolfCovariance", {"r": 0.2}), ("ShrunkCovariance", {"r": 0.3, "delta": 0.5}),
                     ("EmpiricalCovariance", {}), ("FactorCovariance", {"k": 1, "r": 0.3})):
        C = getattr(precise, cls)
        direct = C(**par)
        for o in data:
            direct.partial_fit(np.array([o["a"], o["b"], o["c"]]))
        for nm, k in (("keyed inst", precise.keyed(C(**par))), ("keyed dyn", precise.keyed(C(**par), dynamic=True)),
                      ("keyed class", precise.keyed(C, **par)), ("keyed class dyn", precise.keyed(C, dynamic=True, **par)),
                      ("Fixed inst", precise.FixedUniverse(C(**par))), ("Fixed class", precise.FixedUniverse(C, **par)),
                      ("Dyn inst", precise.DynamicUniverse(C(**par))), ("Dyn class", precise.DynamicUniverse(C, **par)),
                      ("keys", precise.keyed(C(**par), keys=["a", "b", "c"], impute="zero")),
                      ("limits", precise.keyed(C(**par), dynamic=True, max_universes=2, max_staleness=3))):
            for o in data:
                k.learn_one(o)
            rec.trans(len(data))
            rec.state()
            want = precise.DynamicUniverse if "yn" in nm or nm == "limits" else precise.FixedUniverse
            rec.check(isinstance(k, want), "kind of adapter", how=nm)
            rec.check(S.close(k.get_cov(["a", "b", "c"]), direct.covariance_, 1e-7, 1e-10), "the adapter does not run the estimator given",
                      how=nm, cls=cls, par=par, got=k.get_cov(["a", "b", "c"]), want=direct.covariance_)
            rec.trace()
        used = C(**par).fit(S.stream(9, 5, seed=4))
        for dyn in (False, True):
            k = precise.keyed(used, dynamic=dyn)
            k.learn_many(data)
            rec.check(S.close(k.get_cov(["a", "b", "c"]), direct.covariance_, 1e-7, 1e-10), "a fitted template's data leaked into the adapter", cls=cls)
            rec.check(used.n_samples_ == 9, "the adapter trained its template", cls=cls)
    for dyn in (False, True):
        k = precise.keyed(dynamic=dyn)
        d = precise.EwaCovariance()
        for o in data:
            k.learn_one(o)
            d.partial_fit(np.array([o["a"], o["b"], o["c"]]))
        rec.check(S.close(k.get_cov(["a", "b", "c"]), d.covariance_, 1e-7, 1e-10), "the default estimator is not EwaCovariance()")


def run_wide(case, rec):
    """Every view with many names of every kind, in an order no sort gives; both adapters; subsets and orders of them."""
    import precise

    names = name_sets(case["p"])[case["names"]]
    p = len(names)
    X = S.stream(9, p, seed=50)
    for dyn in (False, True):
        for wrap in (["EwaCovariance", {"r": 0.3}], ["OASCovariance", {"r": 0.3}]):
            k = precise.keyed(S.make(wrap), dynamic=dyn)
            d = S.make(wrap)
            for t in range(9):
                cols = range(p) if t == 0 or dyn and t % 2 else [(j + t) % p for j in range(p)]
                k.learn_one({names[j]: float(X[t, j]) for j in cols})
                d.partial_fit(X[t:t + 1])
                rec.trans()
                rec.state()
                default = names if not dyn else [names[j] for j in cols]
                rot = names[t % p:] + names[:t % p]
                for q in (None, names, names[::-1], rot[:max(1, p // 2)], tuple(rot), [rot[-1]]):
                    keys = default if q is None else list(q)
                    ix = [names.index(z) for z in keys]
                    C = np.array(d.covariance_)[np.ix_(ix, ix)]
                    s = max(1e-6, np.abs(C).max())
                    how = {"q": None if q is None else keys[:6], "t": t, "dyn": dyn}
                    got, gk = k.cov_array() if q is None else k.cov_array(q)
                    rec.check(list(gk) == keys and S.close(got, C, 1e-7, 1e-8 * s), "cov_array of many names", how=how, got=list(gk), want=keys)
                    F = k.to_frame() if q is None else k.to_frame(q)
                    rec.check(list(F.index) == keys and list(F.columns) == keys and S.close(F.values, C, 1e-7, 1e-8 * s), "to_frame of many names", how=how)
                    G, R = (k.get_cov(), k.get_corr()) if q is None else (k.get_cov(q), k.get_corr(q))
                    rec.check(S.close(G, C, 1e-7, 1e-8 * s) and S.close(R, corr(np.array(G)), 1e-9, 1e-9), "get_cov/get_corr of many names", how=how)
                V, W = k.covariance_, k.correlation_
                ix = [names.index(z) for z in default]
                C = np.array(d.covariance_)[np.ix_(ix, ix)]
                s = max(1e-6, np.abs(C).max())
                rec.check(list(V) == default and list(W) == default and all(list(V[z]) == default for z in default)
                          and all(abs(V[a][b] - C[i, j]) <= 1e-7 * s for i, a in enumerate(default) for j, b in enumerate(default)),
                          "covariance_ of many names", t=t, dyn=dyn)
            rec.trace()
