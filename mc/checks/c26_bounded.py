"""C26: an update costs the same memory and work after any number of observations.

Every estimator is stepped through every prefix of long streams (crossing the end of the burn-in);
at each step the memory reachable from it and the number of bytecode events its update executes are
recorded. After the burn-in neither may exceed what it was just after the burn-in. Process-wide
memory is compared too (caches outside the object). The same for keyed estimators over ever-changing
key sets, where the number of live key sets is capped.
"""
from __future__ import annotations

import gc
import itertools
import sys
import tracemalloc

import numpy as np

from mc import points
from mc import space as S

PROPERTY = "C26"
LEVEL = "model_checking"
ASSUMPTIONS = ["work is counted in bytecode-level events of the package; array operations by the memory they touch"]


def cases(tier):
    th = tier == "thorough"
    out = []
    n = 700 if th else 160
    for c in S.with_diff(S.base_configs(0.2)) + S.conditional_configs(0.2):
        for p in ((1, 3, 7) if th else (3,)):
            out.append({"kind": "stream", "cfg": c, "p": p, "n": n, "cost": 4})
            out.append({"kind": "stream", "cfg": c, "p": p, "n": n, "mix": True, "cost": 4})
    for c in S.base_configs(None, extra=False):
        out.append({"kind": "stream", "cfg": c, "p": 2, "n": 1500 if th else 330, "cost": 4})
    for c in S.base_configs(0.004, extra=False):
        out.append({"kind": "stream", "cfg": c, "p": 2, "n": 1500 if th else 560, "cost": 6})
    for c in S.with_diff(S.base_configs(0.3)) + S.conditional_configs(0.3):
        out.append({"kind": "cycles", "cfg": c, "depth": 3 if th else 2, "cost": 4})
    for name, kw in (("DiagonalCovariance", {}), ("FactorCovariance", {"k": 1}), ("FactorCovariance", {"k": 2}),
                     ("FactorCovariance", {"k": 5})):
        for diff in (False, True):
            out.append({"kind": "width", "cfg": [name, {**kw, "diff": diff}], "cost": 2})
    for dyn in (False, True):
        for kw in ({}, {"impute": "mean"}, {"keys": ["a", "b", "c"]}) if not dyn else ({"max_universes": 3}, {"max_universes": 4, "max_staleness": 3}, {}):
            out.append({"kind": "keycycles", "dyn": dyn, "kw": kw, "cost": 3})
    for dyn in (False, True):
        for w in (["EwaCovariance", {"r": 0.3}], ["LedoitWolfCovariance", {}], ["TylerCovariance", {"r": 0.3}]):
            for kw in ([{}] if not dyn else [{"max_universes": 3}, {"max_universes": 5, "max_staleness": 4}, {}]):
                out.append({"kind": "keyed", "wrap": w, "dyn": dyn, "kw": kw, "n": 400 if th else 200, "cost": 3})
    return out


def reach(o):
    """Bytes of arrays and number of objects reachable from o (classes, modules and functions excluded)."""
    seen, todo, size, count = set(), [o], 0, 0
    skip = (type, type(sys), type(reach), type(len), str)
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, skip):
            continue
        seen.add(id(x))
        if isinstance(x, (int, float, complex, bool, np.generic)) or x is None:
            continue
        count += 1
        if isinstance(x, np.ndarray):
            b = x if x.base is None else x.base
            size += getattr(b, "nbytes", x.nbytes)
            continue
        if isinstance(x, dict):
            size += 16 * len(x)
            todo += list(x.keys()) + list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            size += 8 * len(x)
            todo += list(x)
        elif isinstance(x, (bytes, bytearray)):
            size += len(x)
        else:
            todo += [y for y in gc.get_referents(x) if y is not type(x)]
    return size, count


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def burn(cfg):
    p = dict(cfg[1])
    r = min([v for k, v in p.items() if k in ("r", "vol_r")] + [0.05 if "r" not in p else p["r"]])
    for v in p.values():
        if isinstance(v, list) and len(v) > 1:
            r = min(r, v[1].get("r", 0.05))
    return S.n_burn(r) if cfg[0] != "EmpiricalCovariance" else 5


def judge(rec, hist, start, what, cfg):
    """hist[t] after update t; nothing after `2*start` may exceed the most seen up to there."""
    top = [max(h[k] for h in hist[:start]) for k in range(len(hist[0]))]
    late = [max(h[k] for h in hist[start:]) for k in range(len(hist[0]))]
    for k, name in enumerate(("array bytes", "objects", "events")[:len(top)]):
        rec.check(late[k] <= top[k] + (40 if name == "events" else 0) , f"{what}: {name} grow with the stream",
                  first=top[k], later=late[k], n=len(hist), cfg=cfg)


def run_stream(case, rec):
    cfg, p, n = case["cfg"], case["p"], case["n"]
    X = S.stream(n, p, seed=81)
    if case.get("mix"):  # surprises, repeats and silences throughout
        X[::5] *= 30
        X[3::11] = 0
        X[7::13] = X[6:-1:13][:len(X[7::13])]
        X[4::9, 0] = np.round(X[4::9, 0])
    est = S.make(cfg)
    hist = []
    nb = burn(cfg)
    start = nb + 30
    assert start < n - 30, (start, n)
    tracemalloc_at = {}
    for t in range(n):
        k = [0]
        if t % 7 == 3 or abs(t - nb) < 3 or t > n - 4:
            with points.enabled():
                points.trace(lambda: est.partial_fit(X[t]), lambda i: k.__setitem__(0, i))
        else:
            est.partial_fit(X[t])
        if t % 3 == 0 and est.n_samples_:
            est.covariance_
        hist.append(reach(est) + (k[0],))
        rec.trans()
        rec.state()
    judge(rec, hist, start, "estimator", cfg)
    rec.trace()
    # batches, and memory outside the object
    est = S.make(cfg)
    est.partial_fit(X[:start])
    for _ in range(2):
        est.partial_fit(X[start:start + 20])
    gc.collect()
    tracemalloc.start()
    try:
        mem = []
        for a in range(6):
            for t in range(start, n, 2):
                est.partial_fit(X[t])
                est.location_
            est.covariance_
            est.correlation_
            gc.collect()
            mem.append(tracemalloc.get_traced_memory()[0])
            rec.trans((n - start) // 2)
    finally:
        tracemalloc.stop()
    steps = (n - start) // 2
    # a leak grows in every round; allocations made once do not
    rec.check(min(np.diff(mem)[1:]) < 16 * steps, "process memory grows with the stream", memory=mem, steps=steps, cfg=cfg)
    rec.sample({"cfg": cfg, "bytes": hist[-1][0], "objects": hist[-1][1], "events per update": max(h[2] for h in hist)})


def run_width(case, rec):
    """Diagonal and Factor cost O(d) and O(d k) per update: no d x d array before covariance_ is read."""
    cfg = case["cfg"]
    k = cfg[1].get("k", 0)
    for d in (100, 200, 400, 800):
        X = S.stream(9, d, seed=84)
        est = S.make(cfg)
        est.partial_fit(X[:1])
        for t in range(1, 9):
            gc.collect()
            tracemalloc.start()
            try:
                est.partial_fit(X[t])
                peak = tracemalloc.get_traced_memory()[1]
            finally:
                tracemalloc.stop()
            rec.trans()
            rec.state()
            size = reach(est)[0]
            rec.check(size <= 8 * d * (k + 6) + 2000, "state larger than O(d k)", d=d, k=k, bytes=size, cfg=cfg)
            rec.check(peak <= 8 * d * (4 * k + 30) + 20000, "an update needs more than O(d k) memory", d=d, k=k, bytes=peak, cfg=cfg)
    rec.trace()


CYCLE = ("row", "outlier", "zero", "same", "batch", "empty", "reads", "maha", "save", "restore", "pickle", "copy", "fit", "reject", "params")


def run_cycles(case, rec):
    """Every short word of calls, repeated: memory after many repetitions is that after a few."""
    import copy
    import json
    import pickle

    cfg, p = case["cfg"], 3
    X = S.stream(70, p, seed=85)
    batch = S.stream(4, p, seed=86)
    for word in itertools.chain.from_iterable(itertools.product(CYCLE, repeat=d) for d in range(1, case["depth"] + 1)):
        if not {"row", "outlier", "zero", "same", "batch", "fit"} & set(word):
            word = word + ("row",)
        est = S.make(cfg)
        est.partial_fit(X[:20])
        saved = None
        sizes = []
        reps = 18 + 12 // len(word)
        for k in range(reps):
            x = X[20 + (k % 50)]
            for op in word:
                rec.trans()
                if op == "row":
                    est.partial_fit(x)
                elif op == "outlier":
                    est.partial_fit(40.0 * x)
                elif op == "zero":
                    est.partial_fit(np.zeros(p))
                elif op == "same":
                    est.partial_fit(X[20])
                elif op == "batch":
                    est.partial_fit(batch)
                elif op == "empty":
                    est.partial_fit(np.empty((0, p)))
                elif op == "reads":
                    est.covariance_, est.correlation_, est.precision_, est.location_, repr(est)
                elif op == "maha":
                    est.mahalanobis(batch), est.score(batch)
                elif op == "save":
                    try:
                        saved = json.dumps(est.get_state())
                    except NotImplementedError:
                        pass
                elif op == "restore":
                    if saved is not None:
                        est.set_state(json.loads(saved))
                elif op == "pickle":
                    est = pickle.loads(pickle.dumps(est)) if cfg[1].get("vol", [""])[0] != "skater" else est
                elif op == "copy":
                    est = copy.deepcopy(est)
                elif op == "fit":
                    est.fit(X[:12])
                elif op == "params":
                    est.get_params()
                elif op == "reject":
                    for bad in (np.ones(p + 1), np.ones((2, 2, p)), ["x"] * p):
                        try:
                            est.partial_fit(bad)
                        except (ValueError, TypeError):
                            pass
            sizes.append(reach(est))
        rec.state()
        early, late = sizes[5:10], sizes[-5:]
        for j, name in enumerate(("array bytes", "objects")):
            a, b = max(h[j] for h in early), max(h[j] for h in late)
            if b > a and not {"fit", "restore"} & set(word) and reps * len(word) < 60:
                # still inside some sub-model's start-up: carry on before judging
                for k in range(120):
                    est.partial_fit(X[k % 70])
                a, b = b, reach(est)[j]
            rec.check(b <= a + (16 if j == 0 else 2), f"{name} grow with the calls", first=a, later=b, word=word, cfg=cfg)
        rec.trace()
    rec.sample({"word": word})


def run_keycycles(case, rec):
    """The same for keyed estimators: observations of every kind and every query, repeated."""
    import precise

    names = "abcd"
    ops = ("abc", "ab", "ca", "a", "abcd", "zq", "empty", "many", "cov", "corr", "array", "frame", "subset", "reject", "rename")
    for word in itertools.chain.from_iterable(itertools.product(ops, repeat=d) for d in (1, 2)):
        if not case["dyn"] and "rename" in word:
            continue
        k = precise.keyed(S.make(["EwaCovariance", {"r": 0.3}]), dynamic=case["dyn"], **case["kw"])
        for t in range(12):
            k.learn_one({c: float(v) for c, v in zip("abc", S.row(t, 3, 87))})
        sizes = []
        for rep in range(40):
            x = S.row(rep, 4, 88)
            for op in word:
                rec.trans()
                try:
                    if op in ("abc", "ab", "ca", "a", "abcd"):
                        k.learn_one({c: float(x[names.index(c)]) for c in op})
                    elif op == "zq":
                        k.learn_one({"z": 1.0, "q": float(x[0])})
                    elif op == "empty":
                        k.learn_one({})
                    elif op == "many":
                        k.learn_many([{"a": float(x[0]), "b": 1.0, "c": float(x[1])}, {"a": 0.5, "b": float(x[2]), "c": 2.0}])
                    elif op == "cov":
                        k.covariance_, k.get_cov()
                    elif op == "corr":
                        k.correlation_, k.get_corr()
                    elif op == "array":
                        k.cov_array()
                    elif op == "frame":
                        k.to_frame()
                    elif op == "subset":
                        k.get_cov(["b", "a"])
                    elif op == "rename":
                        k.learn_one({f"v{rep}": 1.0, "a": float(x[0])})
                    else:
                        k.learn_one({"a": "text", "b": 1.0})
                except (ValueError, KeyError, TypeError):
                    pass
            sizes.append(reach(k))
        rec.state()
        for j, name in enumerate(("array bytes", "objects")):
            a, b = max(h[j] for h in sizes[:26]), max(h[j] for h in sizes[26:])
            rec.check(b <= a * 1.02 + 16, f"keyed: {name} grow with the calls", first=a, later=b, word=word, case=case)
        rec.trace()


def run_keyed(case, rec):
    import precise

    k = precise.keyed(S.make(case["wrap"]), dynamic=case["dyn"], **case["kw"])
    cap = case["kw"].get("max_universes", 10)
    names = "abcde"
    sets = [c for m in (2, 3, 4) for c in itertools.combinations(names, m)]
    n = case["n"]
    hist = []
    for t in range(n):
        x = S.row(t, 5, 82)
        keys = sets[(7 * t) % len(sets)] if case["dyn"] else [c for c in names if (t + ord(c)) % 4]
        if case["dyn"] and t % 3 == 0:
            keys = names[:3]
        o = {c: float(x[names.index(c)]) for c in keys}
        k.learn_one(o)
        hist.append(reach(k))
        rec.trans()
        rec.state()
    half = n // 2
    for j, name in enumerate(("array bytes", "objects")):
        a, b = max(h[j] for h in hist[:half]), max(h[j] for h in hist[half:])
        rec.check(b <= a * 1.02 + 16, f"keyed: {name} grow with the stream", first=a, later=b, case=case)
    # never more than the cap: the memory is bounded by that of cap estimators of the largest width
    if case["dyn"]:
        e = S.make(case["wrap"])
        e.partial_fit(S.stream(40, 4, seed=83))
        one = reach(e)
        worst = max(h[0] for h in hist)
        rec.check(worst <= (cap + 1) * (one[0] + 64), "more live key sets than max_universes", bytes=worst, one=one[0], cap=cap)
    rec.trace()
    rec.sample({"case": case, "bytes": hist[-1][0], "objects": hist[-1][1]})
