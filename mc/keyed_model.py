"""Reference models of the keyed adapters, built on separately fed wrapped estimators."""
from __future__ import annotations

import numpy as np

from mc import space as S


class FixedModel:
    def __init__(self, cfg, keys=None, impute="ffill"):
        self.cfg, self.impute = cfg, impute
        self.keys = list(keys) if keys is not None else None
        self.rows = []
        self.seen = {}
        self.est = S.make(cfg)

    def push(self, obs):
        if self.keys is None:
            self.keys = list(obs)
        vec = []
        for i, k in enumerate(self.keys):
            if k in obs:
                v = self.seen[k] = float(obs[k])
            elif self.impute == "ffill":
                v = self.seen.get(k, 0.0)
            elif self.impute == "mean":
                v = float(np.array(self.est.location_)[i]) if self.est.n_samples_ else self.seen.get(k, 0.0)
            else:
                v = 0.0
            vec.append(v)
        self.rows.append(vec)
        self.est.partial_fit(np.array([vec]))

    def cov(self, keys=None):
        C = np.array(self.est.covariance_)
        keys = self.keys if keys is None else list(keys)
        ix = [self.keys.index(k) for k in keys]
        return C[np.ix_(ix, ix)], keys


class DynamicModel:
    """One record per live key set: [keys, rows absorbed, staleness, birth number, estimator]."""

    def __init__(self, cfg, max_universes=10, max_staleness=50):
        self.cfg, self.mu, self.ms = cfg, max_universes, max_staleness
        self.live = []
        self.births = 0
        self.last = None

    def feed(self, u, obs):
        u["est"].partial_fit(np.array([[float(obs[k]) for k in u["keys"]]]))
        u["n"] += 1
        u["stale"] = 0

    def push(self, obs):
        self.last = list(obs)
        names = frozenset(obs)
        for u in self.live:
            if names >= u["set"]:
                self.feed(u, obs)
            else:
                u["stale"] += 1
        self.live = [u for u in self.live if u["stale"] <= self.ms]
        if all(u["set"] != names for u in self.live):
            u = {"keys": list(obs), "set": names, "n": 0, "stale": 0, "est": S.make(self.cfg), "birth": self.births}
            self.births += 1
            self.feed(u, obs)
            self.live.append(u)
            if len(self.live) > self.mu:
                worst = self.live[0]
                for v in self.live[1:]:
                    if (v["stale"], -v["n"]) > (worst["stale"], -worst["n"]):
                        worst = v
                self.live.remove(worst)

    def entry(self, a, b):
        best = None
        for u in self.live:
            if a in u["set"] and b in u["set"] and u["est"].n_samples_ > 0:
                if best is None or (u["n"], -u["stale"]) > (best["n"], -best["stale"]):
                    best = u
        if best is None:
            return None
        C = np.array(best["est"].covariance_)
        return C[best["keys"].index(a), best["keys"].index(b)]

    def raw(self, keys=None):
        """(matrix before projection, known mask, keys)"""
        keys = self.last if keys is None else list(keys)
        n = len(keys)
        M = np.zeros((n, n))
        known = np.zeros((n, n), dtype=bool)
        for i in range(n):
            for j in range(n):
                e = self.entry(keys[i], keys[j])
                if e is not None:
                    M[i, j], known[i, j] = e, True
        off = [M[i, j] for i in range(n) for j in range(n) if i != j and known[i, j]]
        fill = sum(off) / len(off) if off else 0.0
        M[~known] = fill
        return M, known, keys

    def cov(self, keys=None):
        M, known, keys = self.raw(keys)
        w, V = np.linalg.eigh((M + M.T) / 2)
        return (V * np.maximum(w, 0.0)) @ V.T, keys


def name_sets(n):
    """Universes of n names of every kind that can be a key, in an order that no sort gives."""
    step = next(k for k in (7, 5, 3, 11, 13) if n % k)
    ix = [(3 + step * i) % n for i in range(n)]
    return {"str": [f"x{i}" for i in ix], "int": ix, "negative": [i - n // 2 for i in ix], "tuple": [(i % 3, f"v{i}") for i in ix],
            "mixed": [(i if i % 3 == 0 else f"x{i}" if i % 3 == 1 else (i, None)) for i in ix],
            "float": [i / 8 for i in ix], "frozen": [frozenset((i, -1)) for i in ix],
            "case": [("a" if i % 2 else "A") * (1 + i // 2) for i in ix]}


class Quiet(dict):
    """A dict that answers for names it does not hold (without holding them)."""

    def __missing__(self, key):
        return 99.0


def forms():
    """The ways in which the same observation can be written: kinds of dict, kinds of number."""
    from collections import Counter, OrderedDict, defaultdict
    from fractions import Fraction

    def values(f):
        return lambda o: {k: f(v) for k, v in o.items()}

    return {"OrderedDict": OrderedDict, "defaultdict": lambda o: defaultdict(lambda: 99.0, o), "Counter": lambda o: Counter(o),
            "__missing__": Quiet, "float32": values(np.float32), "int": values(int), "int64": values(np.int64), "uint8": values(lambda v: np.uint8(v)),
            "bool": values(lambda v: bool(v) if v in (0, 1) else v), "0-d": values(np.array), "Fraction": values(Fraction), "float16": values(np.float16)}
