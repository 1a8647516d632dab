"""C01: the estimate is a function of the rows fed so far, not of how they were chunked or typed.

All compositions (2**(n-1)) of n rows into consecutive partial_fit calls, across the burn-in
switch, with every accepted container; plus every uniform chunk length, every two-chunk cut and
fit() on every prefix of a long stream.
"""
from __future__ import annotations

import array
import itertools
from fractions import Fraction

import numpy as np

from mc import space as S

PROPERTY = "C01"
LEVEL = "model_checking"
ASSUMPTIONS = ["observations are finite and exactly representable in the container used"]


def _configs():
    out = []
    for c in S.with_diff(S.base_configs(None)):
        out.append(c)
    for c in S.base_configs(0.3, extra=False)[1:]:
        out.append(c)
    for c in S.base_configs(0.9, extra=False)[1:]:
        if c[0] not in S.INVERTERS:
            out.append(c)
    return out + S.conditional_configs() + S.conditional_configs(0.2)[1:]


def cases(tier):
    out = []
    thorough = tier == "thorough"
    for c in _configs():
        out.append({"kind": "compositions", "cfg": c, "n": 10 if thorough else 8,
                    "ps": [1, 2, 3, 5, 9], "prefixes": [0, 3, 17, 18], "cost": 3})
        out.append({"kind": "forms", "cfg": c, "ps": [1, 2, 4, 7]})
        out.append({"kind": "words", "cfg": c, "letters": "zuvebt"[:6 if thorough else 5], "depth": 4,
                    "prefixes": [0, 6, 19], "p": 2, "cost": 3})
        out.append({"kind": "long", "cfg": c, "n": 520 if thorough else 140, "p": 3, "cost": 4})
        out.append({"kind": "long", "cfg": c, "n": 60, "p": 40, "cost": 4, "stride": 2 if thorough else 7})
        out.append({"kind": "long", "cfg": c, "n": 26, "p": 70, "cost": 3, "stride": 2 if thorough else 7})
        out.append({"kind": "long", "cfg": c, "n": 9, "p": 130, "cost": 4, "stride": 1 if thorough else 3})
        out.append({"kind": "bulk", "cfg": c, "sizes": [255, 256, 257, 600, 1100],
                    "n": 3000 if thorough else 1300, "p": 2, "cost": 5})
        if c[0] not in S.INVERTERS or c[0] == "HuberCovariance":
            out.append({"kind": "huge", "cfg": c, "n": 30000 if thorough else 5003, "p": 2, "cost": 4})
    for r in (0.01, 0.002):
        for c in S.base_configs(r, extra=False)[1:]:
            out.append({"kind": "long", "cfg": c, "n": 300, "p": 2, "cost": 6, "stride": 1 if thorough else 7})
    return out


def expected_n(cfg, t):
    return max(t - 1, 0) if cfg[1].get("diff") else t


def prefix_obs(cfg, X):
    """Observations after each row, fed one 1d row at a time: the reference execution."""
    est = S.make(cfg)
    out = [S.observe(est)]
    for x in X:
        est.partial_fit(x.copy())
        out.append(S.observe(est))
    return out


def compare(rec, cfg, est, ref, t, X, how):
    o = S.observe(est)
    if o["n"] != expected_n(cfg, t):
        rec.violate("n_samples_ is not the number of observations", got=o["n"], rows=t, how=how)
        return False
    if o["n"] >= 1 and est.n_features_in_ != X.shape[1]:
        rec.violate("n_features_in_ wrong", got=est.n_features_in_, p=X.shape[1], how=how)
        return False
    d = S.same_obs(ref[t], o, 1e-7, S.data_scale(X))
    if d:
        if cfg[0] in S.INVERTERS and "cov" in o and S.cond(ref[t]["cov"]) > 1e6:
            rec.skip("ill-conditioned")
            return True
        rec.violate("chunked execution differs from row-by-row execution", rows=t, diff=d, how=how)
        return False
    return True


def run(case, rec):
    cfg = case["cfg"]
    if case["kind"] == "huge":
        n, p = case["n"], case["p"]
        X = S.stream(n, p, seed=12)
        a, b, c, d = (S.make(cfg) for _ in "abcd")
        for x in X:
            a.partial_fit(x)
        b.partial_fit(X)
        c.fit(X)
        d.partial_fit(X[:4]).partial_fit(X[4:])
        rec.trans(3 * n)
        rec.state(3)
        ref = {n: S.observe(a)}
        for nm, e in (("one batch", b), ("fit", c), ("a start, then one batch", d)):
            compare(rec, cfg, e, ref, n, X, {"how": nm, "n": n})
        rec.trace()
        return
    if case["kind"] == "compositions":
        for p in case["ps"]:
            for pre in case["prefixes"]:
                X = S.stream(pre + case["n"], p, seed=1)
                ref = prefix_obs(cfg, X)
                for k, parts in enumerate(S.compositions(case["n"])):
                    est = S.make(cfg)
                    t = 0
                    if pre:
                        est.partial_fit(X[:pre])
                        t = pre
                    for size in parts:
                        chunk = X[t:t + size]
                        ret = est.partial_fit(chunk[0] if size == 1 and k % 2 else chunk)
                        rec.trans()
                        t += size
                        if ret is not est:
                            rec.violate("partial_fit must return self", parts=parts)
                        rec.state()
                        if t == len(X) or p == 2:
                            compare(rec, cfg, est, ref, t, X, {"prefix": pre, "parts": parts, "p": p})
                    rec.trace()
                rec.sample({"p": p, "prefix": pre, "parts": parts})
    elif case["kind"] == "words":
        # every word of unusual rows (repeated, all zero, outlying) as one batch, and in two
        p = case["p"]
        L = S.letters(p, case["letters"])
        for pre in case["prefixes"]:
            P = S.stream(pre, p, seed=5)
            for word in itertools.product(case["letters"], repeat=case["depth"]):
                X = np.vstack([P, [L[k] for k in word]])
                est = S.make(cfg)
                for x in X:
                    est.partial_fit(x)
                ref = {len(X): S.observe(est)}
                for cut in (0, 1, 2):
                    b = S.make(cfg)
                    if pre + cut:
                        b.partial_fit(X[:pre + cut])
                    b.partial_fit(X[pre + cut:])
                    rec.trans(2)
                    rec.state()
                    compare(rec, cfg, b, ref, len(X), X, {"word": word, "prefix": pre, "cut": cut})
                    rec.trace()
    elif case["kind"] == "forms":
        import pandas as pd

        for p in case["ps"]:
            X = np.round(S.stream(12, p, seed=2) * 8)
            ref = prefix_obs(cfg, X)
            wide = np.zeros((24, 2 * p))
            wide[::2, ::2] = X
            ro = X.copy()
            ro.setflags(write=False)
            forms = {
                "list": X.tolist(), "tuple": tuple(map(tuple, X.tolist())), "int": X.astype(int),
                "int8": X.astype(np.int8) if np.abs(X).max() < 127 else X.astype(np.int16),
                "float32": X.astype(np.float32), "float16": X.astype(np.float16),
                "fortran": np.asfortranarray(X), "strided": wide[::2, ::2], "readonly": ro,
                "reversed-view": X[::-1].copy()[::-1], "frame": pd.DataFrame(X),
                "intframe": pd.DataFrame(X.astype(int), columns=[f"c{i}" for i in range(p)]),
                "frame-labels-descending": pd.DataFrame(X, columns=[f"v{p - i:03d}" for i in range(p)], index=range(12, 0, -1)),
                "frame-labels-alike": pd.DataFrame(X, columns=["v"] * p, index=[0] * 12),
                "frame-float32": pd.DataFrame(X.astype(np.float32), columns=[f"{(i * 7) % 11}" for i in range(p)]),
                "frame-mixed": pd.DataFrame({-i: (X[:, i].astype(int) if i % 2 else X[:, i]) for i in range(p)}),
                "bigendian": X.astype(">f8"),
                "list-of-arrays": [np.array(x) for x in X], "object": X.astype(object), "matrix": np.asmatrix(X),
                "frame-nullable": pd.DataFrame(X, columns=[f"v{p - i}" for i in range(p)]).astype("Int64"),
                "fractions": [[Fraction(float(v)) for v in x] for x in X],
                "series-rows": [pd.Series(x, index=[f"v{p - i}" for i in range(p)]) for x in X],
                "array-rows": [array.array("d", x) for x in X],
            }
            for name, Y in forms.items():
                for split in range(0, 13):
                    # rows one at a time before `split`, the rest in one batch
                    est = S.make(cfg)
                    for i in range(split):
                        xi = Y.iloc[i] if hasattr(Y, "iloc") else Y[i]
                        est.partial_fit(xi)
                        rec.trans()
                    # an empty batch is no observation
                    rec.check(est.partial_fit(np.empty((0, p))) is est, "partial_fit does not return the estimator", form=name, split=split, empty=True)
                    if split < 12:
                        rec.check(est.partial_fit(Y.iloc[split:] if hasattr(Y, "iloc") else Y[split:]) is est, "partial_fit does not return the estimator",
                                  form=name, split=split)
                    rec.trans()
                    rec.state()
                    compare(rec, cfg, est, ref, 12, X, {"form": name, "split": split, "p": p})
                    rec.trace()
                est = S.make(cfg).fit(Y)
                compare(rec, cfg, est, ref, 12, X, {"form": name, "fit": True, "p": p})
                rec.trace()
    elif case["kind"] == "long":
        n, p = case["n"], case["p"]
        X = S.stream(n, p, seed=3)
        ref = prefix_obs(cfg, X)
        step = case.get("stride", 1)
        for m in range(1, n + 1, step):
            est = S.make(cfg)
            t = 0
            while t < n:
                est.partial_fit(X[t:t + m])
                t = min(t + m, n)
                rec.trans()
            compare(rec, cfg, est, ref, n, X, {"uniform chunk": m})
            rec.trace()
            rec.state()
        for t in range(1, n + 1, step):
            est = S.make(cfg)
            est.partial_fit(X[:t])
            compare(rec, cfg, est, ref, t, X, {"batch of": t})
            for u in range(t, min(t + 2, n)):
                est.partial_fit(X[u])
            if t < n:
                est.partial_fit(X[min(t + 2, n):])
                compare(rec, cfg, est, ref, n, X, {"cut at": t})
            est = S.make(cfg)
            ret = est.fit(X[:t])
            if ret is not est:
                rec.violate("fit must return self")
            compare(rec, cfg, est, ref, t, X, {"fit on": t})
            rec.trans(3)
            rec.state(3)
            rec.trace(2)
    else:
        n, p = case["n"], case["p"]
        X = S.stream(n, p, seed=4)
        ref = prefix_obs(cfg, X)
        for m in case["sizes"] + [n]:
            est = S.make(cfg)
            t = 0
            while t < n:
                est.partial_fit(X[t:t + m])
                t = min(t + m, n)
                rec.trans()
                rec.state()
                compare(rec, cfg, est, ref, t, X, {"chunk": m})
            rec.trace()
