"""Drive an estimator and its reference model through the same bounded space of streams."""
from __future__ import annotations

import itertools

import numpy as np

from mc import ref
from mc import space as S

FINE = 1e-9


def agree(rec, est, mod, how, scale, prec=True):
    """True to go on, False to stop this path."""
    want = mod.estimate()
    early = {k: getattr(est, k, None) for k in mod.extras()} if want is not None and mod.n else {}
    if mod.tainted:
        rec.skip("ill-conditioned path")
        return False
    if est.n_samples_ != mod.n:
        rec.violate("n_samples_", got=est.n_samples_, want=mod.n, how=how)
        return False
    loc = np.array(est.location_)
    if not S.close(loc, mod.location(), FINE, 1e-12 * scale):
        rec.violate("location_ is not the documented mean", got=loc, want=mod.location(), how=how)
        return False
    if want is None:
        rec.skip("ill-conditioned read")
        return True
    got = np.array(est.covariance_)
    if got.shape != want.shape or not np.isfinite(got).all():
        rec.violate("covariance_ malformed", got=got, how=how)
        return False
    d = np.sqrt(np.abs(np.diag(want)))
    tol = 1e-7 * np.outer(d, d) + mod.atol + 1e-13 * scale * scale + 1e-11 * np.abs(want).max()
    bad = np.abs(got - want) > tol
    if bad.any():
        rec.violate("covariance_ is not the documented estimate", got=got, want=want, how=how,
                    worst=float((np.abs(got - want) / tol).max()))
        return False
    for k, v in mod.extras().items():
        g = early.get(k)
        if g is None or abs(g - v) > 1e-6 or getattr(est, k, None) != g:
            rec.violate(f"{k} is not the documented value", got=g, want=v, how=how)
            return False
    return True


def cases_for(cfg, tier, trees=True, widths=(1, 2, 3, 4, 5, 7, 9, 12), scratch="uvn", burn="uzbn",
              deep=None, devs=S.DEVIATIONS):
    """The bounded space for one configuration (params without r): see each case kind."""
    name, par = cfg
    th = tier == "thorough"
    out = []

    def c(r, **kw):
        q = dict(par)
        if r is not None:
            q["r"] = r
        out.append({"cfg": [name, q], **kw})

    fast = 0.3 if has_r(name) else None
    if trees:
        c(fast, kind="scratch", p=2, letters=scratch, depth=8 if th else 7, cost=6)
        c(fast, kind="scratch", p=3, letters="zeltu", depth=5 if th else 4, cost=3)
        for k in (5, 4):
            c(fast, kind="burn", p=3, k=k, letters=burn + ("tq" if th else ""), depth=5 if th else 4, cost=4)
        c(fast, kind="burn", p=1, k=4, letters="uzbn", depth=4, cost=2)
        c(0.2 if fast else None, kind="burn", p=2, k=5, letters="uzbn", depth=4, cost=2)
        for r in (0.5, 0.25, fast) if fast else (None,):
            c(r, kind="sym", p=2, letters="zeul", depth=5 if th else 4, cost=3)
            c(r, kind="sym", p=3, letters="zelb", depth=4 if th else 3, cost=3)
    for p, r in ((17, 0.04), (26, 0.03), (33, 0.3), (40, 0.02), (65, 0.012), (65, 0.2), (130, 0.05)):
        if name == "ConditionalCovariance" and p > 33:
            continue
        c(r if fast else None, kind="wide", p=p, n=ref.burn(r) + (60 if th else 22), cost=4)
    for p in widths:
        c(fast, kind="runs", p=p, n=60 if th else 34, cost=2)
        c(None, kind="runs", p=p, n=90 if th else 60, cost=2)
    for p in (2, 4) if not th else (1, 2, 3, 4, 5):
        c(fast, kind="dev", p=p, n=26 if not th else 40, devs=list(devs), cost=5)
        c(None, kind="dev", p=p, n=36 if not th else 70, devs=list(devs), tail=14, cost=6)
    for sc, off in ((1e-3, 0.0), (1e3, 0.0), (1.0, 1e4), (0.05, -30.0), (1e-5, 0.0), (1e5, 0.0), (1e-2, 1.0),
                    ([1e-4, 1.0, 1e3], 0.0), ([30.0, 1e-3, 0.1], 0.0)):
        c(fast, kind="runs", p=3, n=40, scale=sc, offset=off, cost=1)
    for p, sc in ((2, 1.0), (5, 0.02)):
        c(None, kind="marathon", p=p, n=(30000 if th else 5200) // (5 if name == "ConditionalCovariance" else 1), scale=sc,
          cost=8)
    if has_r(name):
        for r in (1.0, 0.9, 0.7, 0.51, 0.5, 0.4, 1 / 3, 0.25, 0.21, 0.2, 0.199, 0.17, 0.15, 0.1, 0.08, 0.03, 0.02,
                  0.01, 0.0041, 0.004, 0.0039, 0.001):
            nb = ref.burn(r)
            if name == "ConditionalCovariance" and nb > 60:
                continue
            c(r, kind="runs", p=3, n=nb + 25 * (2 if th else 1), cost=2 if nb < 60 else 5)
    else:
        c(None, kind="runs", p=3, n=320, cost=3)
    return out


FINE_GRID = (0.001, 0.008, 0.02, 0.05, 0.11, 0.19, 0.28, 0.35, 0.42, 0.5, 0.58, 0.66, 0.75, 0.83, 0.9, 0.96, 0.985, 0.993, 0.9995, 1.0)


def param_cases(name, tier, **grid):
    """Short streams with an outlier, a repeated and a zero row, over every combination of a fine parameter grid."""
    out = []
    keys = list(grid)
    for vals in itertools.product(*grid.values()):
        par = dict(zip(keys, vals))
        for r in ((0.3, 0.08) if "r" not in par and has_r(name) else (None,)):
            q = dict(par) if r is None else {**par, "r": r}
            out.append({"cfg": [name, q], "kind": "params", "p": 0, "n": 60 if tier == "thorough" else 22, "cost": 0.4})
    return out


def params(case, rec, cfg):
    for p in (2, 3, 5, 8):
        nb = ref.burn(cfg[1].get("r", 0.05))
        X = S.stream(nb + case["n"], p, seed=90 + p)
        X[nb + 2] *= 8
        X[nb + 6] = X[nb + 5]
        X[nb + 9] = 0
        X[nb + 12, 0] *= -30
        walk(rec, cfg, p, X, {"kind": "params"}, start=2)
        walk(rec, cfg, p, 0.01 * X + 3.0, {"kind": "params, shifted"}, start=2)


def has_r(name):
    return name not in ("EmpiricalCovariance", "ConditionalCovariance")


def words(letters, depth):
    return itertools.product(letters, repeat=depth)


def run(case, rec):
    cfg, p = case["cfg"], case["p"]
    kind = case["kind"]
    if kind == "params":
        return params(case, rec, cfg)
    if kind == "marathon":
        return marathon(case, rec, cfg, p)
    if kind == "wide":
        return marathon({**case, "scale": 1.0, "every": 13}, rec, cfg, p)
    if kind == "runs":
        X = S.stream(case["n"], p, seed=60 + p) * np.array(case.get("scale", 1.0)) + case.get("offset", 0.0)
        walk(rec, cfg, p, X, {"kind": kind, "n": len(X)})
        # the same stream read only at the end (nothing computed on the way)
        est, mod = S.make(cfg), ref.model(cfg, p)
        est.partial_fit(X)
        for x in X:
            mod.push(x)
        rec.trans(len(X))
        rec.state()
        agree(rec, est, mod, {"kind": "batch", "n": len(X)}, S.data_scale(X))
        return
    if kind == "dev":
        n = case["n"]
        X = S.stream(n, p, seed=70 + p)
        tail = case.get("tail", n)
        for d in case["devs"]:
            for t in range(n):
                Y = X.copy()
                Y[t] = S.deviate(X, t, d)
                walk(rec, cfg, p, Y[:t + tail], {"kind": d, "at": t}, start=max(t - 1, 0))
        return
    if kind == "sym":
        # five rows (the shortest burn-in) whose mean is exactly zero, then rows sharing coordinates with it
        a, b = 2.0 * np.array([1, -1, 0.5])[:p], 2.0 * np.array([1, 2, -2])[:p]
        k, pre = 5, np.array([0 * a, a, -a, 2 * b, -2 * b])
    else:
        k = case.get("k", 0)
        pre = S.stream(k, p, seed=80 + p)
    L = S.letters(p, case["letters"])
    seen = set()
    for w in words(case["letters"], case["depth"]):
        X = np.array(list(pre) + [L[a] for a in w])
        # nodes shared with an earlier leaf were already compared
        common = 0
        while common < len(w) and w[:common + 1] in seen:
            common += 1
        for i in range(1, len(w) + 1):
            seen.add(w[:i])
        walk(rec, cfg, p, X, {"prefix": k, "word": "".join(w)}, start=k + common)
    rec.sample({"word": "".join(w), "prefix": k})


def marathon(case, rec, cfg, p):
    """A very long stream, compared now and then (behaviour that depends on the number of rows seen)."""
    X = S.stream(case["n"], p, seed=88) * case["scale"]
    est, mod = S.make(cfg), ref.model(cfg, p)
    scale = S.data_scale(X)
    for t, x in enumerate(X):
        est.partial_fit(x)
        mod.push(x)
        rec.trans()
        if t % case.get("every", 97) == 0 or t == len(X) - 1:
            rec.state()
            if not agree(rec, est, mod, {"kind": "marathon", "t": t}, scale):
                return
    rec.trace()


def walk(rec, cfg, p, X, how, start=0):
    est, mod = S.make(cfg), ref.model(cfg, p)
    scale = S.data_scale(X)
    for t, x in enumerate(X):
        est.partial_fit(x)
        mod.push(x)
        rec.trans()
        if t < start:
            if mod.tainted:
                rec.skip("ill-conditioned path")
                return
            continue
        rec.state()
        if not agree(rec, est, mod, {**how, "t": t}, scale):
            return
    rec.trace()
