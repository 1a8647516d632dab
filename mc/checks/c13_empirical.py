"""C13: EmpiricalCovariance is exactly the mean and population covariance of everything seen.

Oracle: exact rational arithmetic. All words over small alphabets with every prefix compared, all
permutations of row multisets, every prefix of long streams at several offsets and scales, and a
deviation at every position.
"""
from __future__ import annotations

import itertools
from fractions import Fraction

import numpy as np

from mc import space as S

PROPERTY = "C13"
LEVEL = "model_checking"
ASSUMPTIONS = ["offsets up to 1e8 standard deviations; tolerance follows double-precision cancellation"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for p, letters, depth in ((1, "uzbt", 6), (2, "uvz", 8 if th else 7), (3, "zelbq", 5), (4, "uvnw", 5)):
        out.append({"kind": "words", "p": p, "letters": letters, "depth": depth, "cost": 5})
    for p, letters in ((1, "uzbtqwn"), (2, "uuvznbq"), (3, "zelbqwt"), (3, "uuuvvbb")):
        out.append({"kind": "perms", "p": p, "letters": letters + ("v" if th else ""), "cost": 8})
    for p in (1, 2, 3, 5, 8, 12):
        for sc, off in ((1.0, 0.0), (1e-5, 0.0), (1e5, 0.0), (1.0, 1e6), (1.0, -1e8), (0.01, 100.0)):
            out.append({"kind": "prefixes", "p": p, "n": 600 if th else 150, "scale": sc, "offset": off, "cost": 2})
    for p in (33, 70, 130):
        out.append({"kind": "prefixes", "p": p, "n": 40, "scale": 1.0, "offset": 3.0, "cost": 2})
    out.append({"kind": "long", "p": 2, "n": 20000 if th else 6000, "offset": 50.0, "cost": 5})
    out.append({"kind": "long", "p": 4, "n": 20000 if th else 6000, "offset": 0.0, "cost": 5})
    out.append({"kind": "long", "p": 2, "n": 20000 if th else 6000, "offset": 1e6, "cost": 5})
    out.append({"kind": "long", "p": 1, "n": 80000 if th else 17000, "offset": -1e5, "cost": 5})
    out.append({"kind": "long", "p": 1, "n": 1_100_000 if th else 140_000, "offset": 3.0, "cost": 9})
    for p in (1, 3):
        out.append({"kind": "dev", "p": p, "n": 60 if th else 30, "cost": 5})
    for kind in ("int", "float32", "list", "frame", "bool"):
        out.append({"kind": "types", "how": kind})
    return out


class Exact:
    """Running sums as rationals; integers over a power of two, so exact and fast enough."""

    def __init__(self, p):
        self.n, self.p = 0, p
        self.s = [Fraction(0)] * p
        self.q = {(i, j): Fraction(0) for i in range(p) for j in range(i, p)}

    def push(self, x):
        f = [Fraction(float(v)) for v in x]
        self.n += 1
        self.s = [a + b for a, b in zip(self.s, f)]
        for (i, j) in self.q:
            self.q[i, j] += f[i] * f[j]

    def mean(self):
        return np.array([float(a / self.n) for a in self.s])

    def cov(self):
        C = np.zeros((self.p, self.p))
        for (i, j), v in self.q.items():
            C[i, j] = C[j, i] = float(v / self.n - self.s[i] * self.s[j] / (self.n * self.n))
        return C


def agree(rec, est, ex, scale, offset, how):
    rec.state()
    if not rec.check(est.n_samples_ == ex.n, "n_samples_ is not the number of rows", got=est.n_samples_, want=ex.n, how=how):
        return False
    m, C = ex.mean(), ex.cov()
    eps = 1e-15 * max(20, ex.n ** 0.5)
    ok = np.abs(est.location_ - m).max() <= eps * 10 * (abs(offset) + scale)
    rec.check(bool(ok), "location_ is not the mean of the rows", got=est.location_, want=m, how=how)
    tol = 1e-10 * np.abs(C).max() + eps * 10 * (scale * abs(offset) + scale * scale)
    ok2 = est.covariance_.shape == C.shape and np.abs(est.covariance_ - C).max() <= tol
    rec.check(bool(ok2), "covariance_ is not the population covariance", got=est.covariance_, want=C, how=how)
    return ok and ok2


def run(case, rec):
    import precise

    kind = case["kind"]
    if kind == "types":
        return types(case, rec)
    p = case["p"]
    if kind == "words":
        L = S.letters(p, case["letters"])
        seen = set()
        for w in itertools.product(case["letters"], repeat=case["depth"]):
            est, ex = precise.EmpiricalCovariance(), Exact(p)
            for i in range(len(w)):
                est.partial_fit(L[w[i]])
                ex.push(L[w[i]])
                rec.trans()
                if w[:i + 1] in seen:
                    continue
                seen.add(w[:i + 1])
                agree(rec, est, ex, 40, 0, {"word": "".join(w[:i + 1])})
            rec.trace()
        rec.sample({"word": "".join(w)})
    elif kind == "perms":
        L = S.letters(p, case["letters"])
        ex = Exact(p)
        for a in case["letters"]:
            ex.push(L[a])
        done = set()
        for w in itertools.permutations(case["letters"]):
            if w in done:
                continue
            done.add(w)
            est = precise.EmpiricalCovariance()
            for a in w:
                est.partial_fit(L[a])
            rec.trans(len(w))
            agree(rec, est, ex, 40, 0, {"order": "".join(w)})
            rec.trace()
    elif kind == "prefixes":
        X = S.stream(case["n"], p, seed=90 + p) * case["scale"] + case["offset"]
        est, ex = precise.EmpiricalCovariance(), Exact(p)
        for t, x in enumerate(X):
            est.partial_fit(x)
            ex.push(x)
            rec.trans()
            if not agree(rec, est, ex, 5 * p * case["scale"], case["offset"], {"t": t, **case}):
                return
        rec.trace()
    elif kind == "long":
        X = S.stream(case["n"], p, seed=95) + case["offset"]
        for how in ("rows", "fit", "chunks"):
            est, ex = precise.EmpiricalCovariance(), Exact(p)
            if how == "fit":
                est.fit(X)
                for x in X:
                    ex.push(x)
                rec.trans(len(X))
                agree(rec, est, ex, 5 * p, case["offset"], {"how": how})
            else:
                step = 1 if how == "rows" else 97
                for t in range(0, len(X), step):
                    est.partial_fit(X[t] if step == 1 else X[t:t + step])
                    for x in X[t:t + step]:
                        ex.push(x)
                    rec.trans()
                    if t % (50 if t < 20000 else 1000 * step) == 0 and not agree(rec, est, ex, 5 * p, case["offset"], {"how": how, "t": t}):
                        return
            rec.trace()
    else:
        X = S.stream(case["n"], p, seed=97)
        for d in S.DEVIATIONS:
            for t in range(case["n"]):
                Y = X.copy()
                Y[t] = S.deviate(X, t, d)
                est, ex = precise.EmpiricalCovariance(), Exact(p)
                for i, x in enumerate(Y):
                    est.partial_fit(x)
                    ex.push(x)
                    rec.trans()
                    if i >= t:
                        if not agree(rec, est, ex, S.data_scale(Y), 0, {"dev": d, "at": t, "t": i}):
                            return
                rec.trace()


def types(case, rec):
    """Whole-number and other dtypes: no integer arithmetic, no precision lost."""
    import pandas as pd
    import precise

    base = np.round(10 * S.stream(12, 3, seed=98))
    conv = {"int": lambda a: a.astype(int), "float32": lambda a: a.astype(np.float32), "list": lambda a: a.tolist(),
            "frame": lambda a: pd.DataFrame(a, columns=list("abc")), "bool": lambda a: a > 0}[case["how"]]
    want = base > 0 if case["how"] == "bool" else base
    for n in range(1, 13):
        est, ex = precise.EmpiricalCovariance(), Exact(3)
        est.fit(conv(base[:n]))
        for x in want[:n]:
            ex.push(x)
        rec.trans()
        agree(rec, est, ex, 40, 0, {"type": case["how"], "n": n})
        one = precise.EmpiricalCovariance()
        for x in base[:n]:
            one.partial_fit(conv(x[None, :]))
        agree(rec, one, ex, 40, 0, {"type": case["how"], "n": n, "rows": True})
        rec.trace()
