"""C12: estimates follow the units, origin, sign and labelling of the data.

Every transform (shifts, scalings, coordinate sign flips, permutations: all p! for p <= 4) applied
to whole streams, compared with the transformed estimate at every prefix, with and without a
deviation at every position.
"""
from __future__ import annotations

import itertools

import numpy as np

from mc import space as S

PROPERTY = "C12"
LEVEL = "model_checking"
ASSUMPTIONS = ["standard deviations between about 1e-4 and 1e5 (above the 1e-12 variance floors)",
               "shifts up to 1e4 standard deviations (double-precision cancellation)"]

BLOCKED = {"BlockCovariance", "SchurCovariance", "SchurLedoitWolfCovariance", "SchurConditionalCovariance"}


def cases(tier):
    th = tier == "thorough"
    out = []
    cfgs = S.with_diff(S.base_configs(None)) + S.base_configs(0.3) + [
        c for c in S.conditional_configs(0.2) if "skater" not in str(c)]
    for c in cfgs:
        for p, n in ((1, 14), (2, 30), (3, 26), (4, 26), (6, 30), (33, 40), (70, 24)):
            if c[0] in S.INVERTERS and S.n_burn(c[1].get("r", 0.05)) <= p + 1:
                continue  # starts from the inverse of a singular matrix: rounding decides
            out.append({"kind": "prefixes", "cfg": c, "p": p, "n": n * (3 if th else 1), "seed": p, "cost": min(p, 7),
                        **({"wide": True} if p > 10 else {})})
        if c[0] == "GeodesicEwaCovariance" and "r" in c[1]:
            continue
        out.append({"kind": "deviate", "cfg": c, "p": 3, "n": 60 if th else 26, "cost": 4})
    for r, n in ((0.01, 140), (0.002, 290)):
        for c in S.base_configs(r, extra=False)[1:]:
            out.append({"kind": "prefixes", "cfg": c, "p": 3, "n": n, "seed": 7, "sparse": True, "cost": 4})
    for c in S.base_configs(None):
        out.append({"kind": "prefixes", "cfg": c, "p": 2, "n": 1060, "seed": 8, "sparse": True, "cost": 6})
    out.append({"kind": "geodesic-scale"})
    return out


def nblocks(cfg):
    return cfg[1].get("n_blocks", 4)


def transforms(cfg, p):
    """(name, row map, covariance map, location map, tolerance)"""
    name = cfg[0]
    tyler = name == "TylerCovariance"
    out = []
    up = np.arange(1.0, p + 1)
    for nm, b in (("shift +10", np.full(p, 10.0)), ("shift mixed", 1000.0 * (-1) ** np.arange(p)),
                  ("shift one", np.where(np.arange(p) == p - 1, 5000.0, 0.0)), ("shift -3", -3.0 * up)):
        if cfg[1].get("diff"):
            out.append((nm, lambda x, b=b: x + b, lambda C: C, lambda m: m, 1e-6))
        else:
            out.append((nm, lambda x, b=b: x + b, lambda C: C, lambda m, b=b: m + b, 1e-6))
    if name != "GeodesicEwaCovariance":
        floored = "DCCCovariance" in str(cfg) or "Conditional" in name
        for c in (1e-2 if floored else 1e-4, 0.1, 3.0, 1e3, 1e5):
            out.append((f"scale {c}", lambda x, c=c: x * c, lambda C, c=c: C if tyler else C * c * c,
                        lambda m, c=c: m * c, 1e-9))
    if not (name == "ShrunkCovariance" and cfg[1].get("target") != "identity"):
        flips = list(itertools.product((1.0, -1.0), repeat=p)) if p <= 4 else [
            tuple(-1.0 if i == j else 1.0 for i in range(p)) for j in range(0, p, 1 if p < 10 else 11)]
        for s in flips:
            s = np.array(s)
            out.append((f"flip {s.tolist()}", lambda x, s=s: x * s, lambda C, s=s: C * np.outer(s, s),
                        lambda m, s=s: m * s, 1e-9))
    if name in BLOCKED:
        groups = np.array_split(np.arange(p), min(nblocks(cfg), p))
        perms = [np.concatenate(q) for q in itertools.product(
            *[[np.array(z) for z in itertools.islice(itertools.permutations(g), 6)] for g in groups])][:24]
    elif p <= 4:
        perms = [np.array(q) for q in itertools.permutations(range(p))]
    else:
        perms = [np.roll(np.arange(p), k) for k in range(1, p, 1 if p < 10 else 13)] + [np.arange(p)[::-1]]
    for q in perms:
        out.append((f"permute {q.tolist()}", lambda x, q=q: x[..., q], lambda C, q=q: C[np.ix_(q, q)],
                    lambda m, q=q: m[q], 1e-9))
    return out


def compare(rec, cfg, nm, base, est, fc, fm, tol, how):
    if est.n_samples_ != base["n"]:
        rec.violate("n_samples_ depends on the values", transform=nm, how=how)
        return False
    if base["n"] < 1:
        return True
    if np.abs(base["cov"]).max() <= 1e-7:
        rec.skip("no variation seen yet: the estimate is the numerical floor")
        return True
    if cfg[0] == "GeodesicEwaCovariance":
        tol = 1e-3  # logarithms of the 1e-8 floor amplify rounding
    if cfg[1].get("interpolation") == "geodesic" and base["n"] < len(base["loc"]) + 4:
        rec.skip("geodesic between singular matrices: regularised by the numerical floor")
        return True
    if base["n"] <= len(base["loc"]) + 2 or S.cond(base["cov"]) > 1e4:
        tol = max(tol, 1e-7)  # positive-definiteness floors act on (nearly) singular matrices
    want, got = fc(base["cov"]), np.array(est.covariance_)
    # cancellation: shifts of 5e3 leave rounding of 1e-16 * 5e3 * sd in each deviation
    atol = 1e-9 * max(1.0, np.abs(want).max()) if nm.startswith("shift") else 1e-13 * np.abs(want).max()
    ok = S.close(want, got, tol, atol) and S.close(fm(base["loc"]), est.location_, 1e-9, 1e-12)
    if ok and "gamma_" in base:
        g = getattr(est, "gamma_", None)
        ok = g is not None and abs(g - base["gamma_"]) < 1e-5
    if not ok:
        if cfg[0] in S.INVERTERS and S.cond(base["cov"]) > 1e5:
            rec.skip("ill-conditioned")
            return True
        if S.cond(base["cov"]) > 1e9 and S.close(want, got, 1e-5, 1e-7 * np.abs(want).max()):
            rec.skip("ill-conditioned")  # regularisation floors of a singular matrix
            return True
        rec.violate("the estimate does not follow the transform", transform=nm, got=got, want=want,
                    location=est.location_, want_location=fm(base["loc"]), how=how)
    return ok


def run(case, rec):
    cfg = case.get("cfg")
    if case["kind"] == "geodesic-scale":
        X = S.stream(60, 3, seed=50)
        a = S.make(["GeodesicEwaCovariance", {}]).fit(X).covariance_
        b = S.make(["GeodesicEwaCovariance", {}]).fit(X * 100.0).covariance_
        rec.trans(120)
        rec.state(2)
        rec.trace()
        rec.check(S.close(a * 1e4, b, 1e-6), "GeodesicEwaCovariance does not scale with the data",
                  key="geodesic-scale-100", got=b, want=a * 1e4)
        return
    p, n = case["p"], case["n"]
    X = S.stream(n, p, seed=51 + case.get("seed", 0))
    if case["kind"] == "prefixes":
        base = S.make(cfg)
        obs, seen = [], set()
        for x in X:
            base.partial_fit(x)
            obs.append(S.observe(base))
        for nm, fx, fc, fm, tol in transforms(cfg, p):
            if case.get("sparse") and nm.startswith("flip") and nm.count("-") > 1:
                continue
            if case.get("wide") and nm.split()[0] in seen and nm not in ("shift mixed", "scale 1000.0"):
                continue
            seen.add(nm.split()[0])
            est = S.make(cfg)
            for t, x in enumerate(X):
                est.partial_fit(fx(x))
                rec.trans()
                if case.get("wide") and t % 6 and t < n - 2:
                    continue
                if case.get("sparse") and t % 11 and t < n - 30:
                    continue
                rec.state()
                if not compare(rec, cfg, nm, obs[t], est, fc, fm, tol, {"t": t, "p": p}):
                    break
            rec.trace()
        rec.sample({"transform": nm, "n": n})
    else:
        for kind in ("zero", "big", "repeat", "single"):
            for at in range(n):
                Y = X.copy()
                Y[at] = S.deviate(X, at, kind)
                Y = Y[:at + 3]
                base = S.make(cfg).partial_fit(Y)
                o = S.observe(base)
                for nm, fx, fc, fm, tol in transforms(cfg, p):
                    if nm.startswith("flip") and nm.count("-") != 1:
                        continue
                    est = S.make(cfg).partial_fit(np.array([fx(x) for x in Y]))
                    rec.trans(len(Y))
                    rec.state()
                    compare(rec, cfg, nm, o, est, fc, fm, tol, {"kind": kind, "at": at})
                    rec.trace()
