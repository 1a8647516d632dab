"""C10: input of the wrong shape is rejected, and the rejection leaves no trace.

At every prefix of a stream, every malformed call (dimension 0/3, every other width, ragged,
non-numeric, 1d fit), every pair of malformed calls; afterwards the estimator equals one that never
saw them and the stream continues.
"""
from __future__ import annotations

import copy
import itertools

import numpy as np

from mc import machine as M
from mc import space as S

PROPERTY = "C10"
LEVEL = "model_checking"


def cases(tier):
    out = []
    th = tier == "thorough"
    for c in S.with_diff(S.base_configs(None)) + S.base_configs(0.3) + S.conditional_configs(0.3):
        for p, n in ((1, 10), (2, 12), (4, 24), (8, 10), (40, 2)):
            out.append({"cfg": c, "p": p, "n": n * (3 if th else 1)})
    for c in S.with_diff(S.base_configs(None)) + S.conditional_configs(0.3):
        out.append({"cfg": c, "p": 2, "n": 1, "past": 1040, "cost": 2})
    for w in (["EwaCovariance", {"r": 0.3}], ["LedoitWolfCovariance", {"r": 0.3, "diff": True}], ["EmpiricalCovariance", {}],
              ["BlockCovariance", {"r": 0.3, "n_blocks": 2}]):
        for kw in ({}, {"keys": ["a", "b", "c"]}, {"impute": "mean"}, {"dynamic": True},
                   {"dynamic": True, "max_universes": 2, "max_staleness": 1}):
            out.append({"kind": "keyed", "wrap": w, "kw": kw, "n": 24 if th else 9, "cost": 3})
    return out


def shapes(p):
    """Every array shape with other than one or two axes, of sizes 0, 1, 3 and p."""
    out = []
    for nd in (3, 4):
        for sh in itertools.product(sorted({0, 1, 3, p}) if nd == 3 and p < 3 else sorted({0, 1, p}) if nd == 3 else sorted({1, p}), repeat=nd):
            out.append((f"shape {sh}", "partial_fit", np.ones(sh)))
            if nd == 3:
                out.append((f"shape {sh} to fit", "fit", np.ones(sh)))
    return out + [("no axes", "partial_fit", np.array(2.0)), ("int", "partial_fit", 5), ("nested", "partial_fit", [[[1.0] * p]]),
                  ("dict", "partial_fit", {"a": 1.0}), ("none row", "partial_fit", [[None] * p, ["a"] * p])]


def malformed(p, started):
    """(name, method, argument) of calls that must be refused."""
    out = [
        ("0d", "partial_fit", 3.0), ("3d", "partial_fit", np.ones((2, 2, p))),
        ("4d", "partial_fit", np.ones((1, 1, 1, p))),
        ("ragged", "partial_fit", [[1.0] * p, [1.0] * (p + 1)]), ("text", "partial_fit", ["x"] * p),
        ("fit 1d", "fit", np.ones(p)), ("fit 0d", "fit", 1.0), ("fit 3d", "fit", np.ones((1, 2, p))),
        ("fit text", "fit", [["x"] * p]), ("fit ragged", "fit", [[1.0] * p, [1.0] * (p + 1)]),
    ]
    if started:
        for q in list(range(1, p + 4)) + [2 * p, 3 * p]:
            if q != p:
                out.append((f"width {q}", "partial_fit", np.arange(1.0, q + 1)))
                out.append((f"width {q} list", "partial_fit", [1.0] * q))
                out.append((f"width {q} batch", "partial_fit", np.arange(3.0 * q).reshape(3, q)))
                out.append((f"width {q} 1-batch", "partial_fit", np.ones((1, q))))
    return out


def evaluations(p):
    out = [("0d", 1.0), ("3d", np.ones((2, 2, p)))]
    for q in range(1, p + 4):
        if q != p:
            out += [(f"width {q}", np.ones(q)), (f"width {q} batch", np.ones((2, q)))]
    return out


def refused(f):
    try:
        f()
    except (ValueError, TypeError):
        return True
    return False


def run(case, rec):
    if case.get("kind") == "keyed":
        return keyed(case, rec)
    cfg, p, n = case["cfg"], case["p"], case["n"]
    past = case.get("past", 0)
    n += past
    X = S.stream(n + 3, p, seed=41)
    probe = S.stream(3, p, seed=8)
    clean = S.make(cfg)
    if past:  # an estimator with a long life behind it
        clean.partial_fit(X[:past])
    base = None
    for t in range(past, n + 1):
        if past:
            base = copy.deepcopy(clean)
            cont = copy.deepcopy(clean).partial_fit(X[t:t + 2])
        started = t >= 1
        obs = M.full_obs(clean, probe)
        for name, method, arg in malformed(p, started) + (shapes(p) if t in (0, 7) and p <= 4 else []):
            est = S.make(cfg) if base is None else copy.deepcopy(base)
            if t and base is None:
                est.partial_fit(X[:t])
            for again in (1, 2):
                rec.trans()
                if not refused(lambda: getattr(est, method)(arg)):
                    rec.violate("misshapen input was accepted", call=method, input=name, after=t, p=p)
                    break
            else:
                rec.state()
                d = M.same_full(obs, M.full_obs(est, probe), S.data_scale(X))
                rec.check(d is None, "a rejected call changed the estimator", call=method, input=name, after=t, diff=d)
                if not started:
                    q = p + 1  # nothing was accepted yet, so any width is still welcome
                    est.partial_fit(np.arange(1.0, q + 1)).partial_fit(np.ones((2, q)))
                    rec.check(est.n_features_in_ == q, "a rejected call fixed the width", input=name)
                else:
                    est.partial_fit(X[t:t + 2])
                    ref = S.make(cfg).partial_fit(X[:t + 2]) if base is None else cont
                    d = M.same_full(M.full_obs(ref, probe), M.full_obs(est, probe), S.data_scale(X))
                    rec.check(d is None, "the stream does not continue after a rejected call", call=method,
                              input=name, after=t, diff=d)
                rec.trace()
        if clean.n_samples_ >= 1:
            for name, arg in evaluations(p) + ([(a, x) for a, m, x in shapes(p) if m == "partial_fit" and "none" not in a] if t in (1, 7) and p <= 4 else []):
                rec.trans()
                for meth in ("mahalanobis", "score"):
                    rec.check(refused(lambda: getattr(clean, meth)(arg)), "misshapen evaluation data was accepted",
                              call=meth, input=name, p=p)
                rec.trace()
        if t < n:
            clean.partial_fit(X[t])
    rec.sample({"last prefix": n, "input": name})


SETS = ["ab", "abc", "a", "bc", "abc", "cb", "b", "abcd", "ac"]
BAD = {"text": "oops", "list": [1.0, 2.0], "dict": {}, "object": object(), "one-element list": [1.0], "matrix": np.ones((2, 2)),
       "complex": 1.0 + 2.0j}


def keyed(case, rec):
    """Observations holding what is not a number, at every prefix, in every position, of every key set."""
    import precise

    def feed(upto):
        k = precise.keyed(S.make(case["wrap"]), **case["kw"])
        for t in range(upto):
            k.learn_one(good(t))
        return k

    def good(t):
        x = S.row(t, 4, 43)
        return {c: float(x["abcd".index(c)]) for c in SETS[t % len(SETS)]}

    def view(k):
        try:
            C, names = k.cov_array()
        except (ValueError, AssertionError):
            return None, None
        return np.array(C), list(names)

    def same(a, b):
        return a[1] == b[1] and (a[0] is None or S.close(a[0], b[0], 1e-9, 1e-12))

    n = case["n"]
    plain = [view(feed(t)) for t in range(n + 4)]
    for at in range(n):
        for names in ("a", "ab", "abc", "cab", "abcd"):
            for where in names:
                if where == "d" and not case["kw"].get("dynamic"):
                    continue  # outside the universe: ignored
                for kind, v in BAD.items():
                    x = {c: 5.0 for c in names}
                    x[where] = v
                    how = {"after": at, "names": names, "bad": where, "value": kind}
                    k = feed(at)
                    if at == 0 and where not in "abc":
                        continue
                    rec.trans()
                    accepted = not refused(lambda: k.learn_one(dict(x)))
                    if accepted:
                        if where in (getattr(k, "keys", None) or names):
                            rec.violate("an observation without a number was accepted", how=how)
                        continue
                    rec.state()
                    rec.check(same(view(k), plain[at]), "a rejected observation changed the estimator", how=how)
                    for t in range(at, at + 3):
                        k.learn_one(good(t))
                        rec.trans()
                        rec.check(same(view(k), plain[t + 1]), "the stream does not continue after a rejected observation",
                                  how=how, t=t)
                    rec.trace()
