"""C02: saving at any point of a stream and resuming is indistinguishable from not stopping.

Every crash/restart point t of a stream (t = 0..N, across both ends of the burn-in), every
mechanism (get_state/set_state through JSON text, pickle at each protocol, deepcopy), every pair of
restart points on short streams, and every short operation tree around a checkpoint.
"""
from __future__ import annotations

import copy
import itertools
import json
import pickle

import numpy as np

from mc import space as S

PROPERTY = "C02"
LEVEL = "model_checking"
ASSUMPTIONS = ["the state is restored into an instance constructed with the same parameters"]


def mechanisms(cfg):
    m = {
        "pickle": lambda e: pickle.loads(pickle.dumps(e)),
        "pickle2": lambda e: pickle.loads(pickle.dumps(e, protocol=2)),
        "deepcopy": copy.deepcopy,
    }
    if cfg[0] != "ConditionalCovariance":
        def via_json(e):
            return S.make(cfg).set_state(json.loads(json.dumps(e.get_state(), allow_nan=False)))

        def into_used(e):
            other = S.make(cfg)
            p = e.n_features_in_ or 2
            other.partial_fit(S.stream(7, p + 1, seed=9) * 3 + 1)  # another past, another width
            return other.set_state(json.loads(json.dumps(e.get_state())))

        def plain(e):
            return S.make(cfg).set_state(e.get_state())

        m = {"json": via_json, "json-into-used": into_used, "state": plain, **m}
    return m


def cases(tier):
    th = tier == "thorough"
    out = []
    cfgs = S.with_diff(S.base_configs(None)) + S.conditional_configs(0.1)
    for c in cfgs:
        out.append({"kind": "points", "cfg": c, "n": 90 if th else 30, "p": 3, "tail": 12, "cost": 3})
        out.append({"kind": "points", "cfg": c, "n": 26, "p": 1, "tail": 8, "cost": 2})
        out.append({"kind": "points", "cfg": c, "n": 26, "p": 7, "tail": 5, "cost": 2})
        out.append({"kind": "points", "cfg": c, "n": 24, "p": 36, "tail": 2, "cost": 3})
        out.append({"kind": "points", "cfg": c, "n": 9, "p": 70, "tail": 2, "cost": 3})
        for sc in (1e-5, 1e4):
            out.append({"kind": "points", "cfg": c, "n": 26, "p": 4, "tail": 3, "scale": sc, "cost": 2})
    for c in S.with_diff(S.odd_configs()):
        out.append({"kind": "points", "cfg": c, "n": 22, "p": 3, "tail": 12, "cost": 1.5})
    for c in S.with_diff(S.base_configs(None)):
        out.append({"kind": "late", "cfg": c, "lo": 998, "hi": 1003, "n": 1008, "p": 2, "cost": 1.5})
    for r in (0.3, 0.9):
        for c in S.with_diff(S.base_configs(r, extra=(r == 0.3))[1:]):
            if r == 0.9 and c[0] in S.INVERTERS:
                continue
            out.append({"kind": "pairs", "cfg": c, "n": 14 if th else 8, "p": 2, "cost": 3})
            out.append({"kind": "tree", "cfg": c, "depth": 5 if th else 4, "post": 2, "p": 2, "cost": 4})
    for c in S.nested_configs(0.2):
        out.append({"kind": "points", "cfg": c, "n": 18, "p": 3, "tail": 6, "cost": 2})
    for c in S.conditional_configs(0.3) + S.nested_configs(0.3):
        out.append({"kind": "pairs", "cfg": c, "n": 9, "p": 2, "cost": 3})
        out.append({"kind": "tree", "cfg": c, "depth": 3, "post": 1, "p": 2, "cost": 3})
    for r, lo, hi in ((0.01, 90, 112), (0.002, 243, 260)):
        for c in S.with_diff(S.base_configs(r, extra=False)[1:]):
            out.append({"kind": "late", "cfg": c, "lo": lo, "hi": hi, "n": hi + 15, "p": 2, "cost": 2})
    for wrap in (["EwaCovariance", {"r": 0.3}], ["EwaCovariance", {"r": 0.3, "diff": True}], ["EmpiricalCovariance", {}],
                 ["DCCCovariance", {"r": 0.3}]):
        for kw in ({"impute": "ffill"}, {"impute": "mean"}, {"impute": "zero", "keys": list("abc")}, {"dynamic": True},
                   {"dynamic": True, "max_universes": 2, "max_staleness": 3}):
            out.append({"kind": "keyed", "cfg": wrap, "kw": kw, "n": 24 if th else 12, "p": 3, "cost": 2})
    return out


def keyed_seen(k):
    try:
        C, keys = k.cov_array()
    except (ValueError, IndexError):
        return None
    return {"keys": list(keys), "cov": np.array(C), "frame": np.array(k.to_frame())}


def keyed(case, rec):
    """Every point (and pair of points) at which a keyed adapter is copied while names come and go."""
    import precise

    kw = dict(case["kw"])
    sets = ["abc", "ab", "cab", "bc", "abcd", "a", "bca"]
    for shift in range(3):
        rows = []
        for t in range(case["n"]):
            x = S.row(t, 4, 31 + shift)
            rows.append({c: float(x["abcd".index(c)]) for c in (sets[0] if t == 0 else sets[(t * (shift + 1) + shift) % 7])})

        def start():
            return precise.keyed(S.make(case["cfg"]), **copy.deepcopy(kw))

        k, ref = start(), [None]
        for o in rows:
            k.learn_one(dict(o))
            ref.append(keyed_seen(k))
        for t1, t2 in itertools.combinations_with_replacement(range(len(rows) + 1), 2):
            k = start()
            for t, o in enumerate(rows + [None]):
                for cut in (t1, t2):
                    if t == cut:
                        old, k = k, copy.deepcopy(k)
                        for o2 in rows[:3]:  # the original goes elsewhere
                            old.learn_one({c: 50.0 * v + 7 for c, v in o2.items()})
                        if t:
                            keyed_seen(old)
                if o is None:
                    break
                k.learn_one(dict(o))
                rec.trans()
                if t + 1 < t2:
                    continue
                got = keyed_seen(k)
                rec.state()
                same = (got is None) == (ref[t + 1] is None) and (got is None or (
                    got["keys"] == ref[t + 1]["keys"] and S.close(got["cov"], ref[t + 1]["cov"], 1e-9, 1e-12)
                    and S.close(got["frame"], ref[t + 1]["frame"], 1e-9, 1e-12)))
                if not rec.check(same, "a copied keyed estimator continues differently", got=got, want=ref[t + 1],
                                 how={"copied at": [t1, t2], "t": t + 1, "stream": shift}):
                    return
            rec.trace()


def agree(rec, cfg, a, b, scale, how):
    d = S.same_obs(S.observe(a), S.observe(b), 1e-9, scale)
    if d:
        rec.violate("resumed execution differs from the uninterrupted one", diff=d, how=how)
        return False
    return True


def continue_both(rec, cfg, est, res, rows, scale, how):
    for i, x in enumerate(rows):
        est.partial_fit(x)
        res.partial_fit(x)
        rec.trans(2)
        if not agree(rec, cfg, est, res, scale, {**how, "after": i + 1}):
            return False
    rec.trace()
    return True


def run(case, rec):
    cfg = case["cfg"]
    p = case["p"]
    if case["kind"] == "keyed":
        return keyed(case, rec)
    mech = mechanisms(cfg)
    if case["kind"] in ("points", "late"):
        n = case["n"]
        tail = case.get("tail", 12)
        X = S.stream(n + tail, p, seed=5) * case.get("scale", 1.0)
        scale = S.data_scale(X)
        main = S.make(cfg)
        lo = case.get("lo", 0)
        if lo:
            main.partial_fit(X[:lo])
        for t in range(lo, case.get("hi", n) + 1):
            rec.state()
            for name, f in mech.items():
                res = f(main)
                how = {"at": t, "mechanism": name, "p": p}
                if ("skater" not in str(cfg) and repr(res) != repr(main)) or res.get_params().keys() != main.get_params().keys():
                    rec.violate("parameters changed by the round trip", how=how, got=repr(res))
                if t and res.n_features_in_ != main.n_features_in_:
                    rec.violate("n_features_in_ lost by the round trip", how=how)
                if not agree(rec, cfg, main, res, scale, how):
                    continue
                ref = copy.deepcopy(main)
                continue_both(rec, cfg, ref, res, X[t:t + tail], scale, how)
            if cfg[0] != "ConditionalCovariance":
                snapshot_is_frozen(rec, cfg, main, X[t:t + 3], t)
            if t < len(X):
                main.partial_fit(X[t])
                rec.trans()
    elif case["kind"] == "pairs":
        n = case["n"]
        X = S.stream(n, p, seed=6)
        scale = S.data_scale(X)
        ref = [S.observe(S.make(cfg))]
        est = S.make(cfg)
        for x in X:
            est.partial_fit(x)
            ref.append(S.observe(est))
        names = list(mech)
        for t1, t2 in itertools.combinations_with_replacement(range(n + 1), 2):
            for m1, m2 in itertools.product(names, names):
                e = S.make(cfg).partial_fit(X[:t1])
                e = mech[m1](e)
                e.partial_fit(X[t1:t2])
                e = mech[m2](e)
                e.partial_fit(X[t2:])
                rec.state()
                rec.trans(5)
                rec.trace()
                d = S.same_obs(ref[n], S.observe(e), 1e-8, scale)
                if d:
                    rec.violate("two restarts change the estimate", diff=d,
                                how={"t1": t1, "m1": m1, "t2": t2, "m2": m2})
    else:
        L = S.letters(p, "zuv")
        pre = S.stream(3, p, seed=7)
        kinds = list(mech)
        for depth in range(1, case["depth"] + 1):
            for word in itertools.product(L, repeat=depth):
                est = S.make(cfg).partial_fit(pre)
                for a in word:
                    est.partial_fit(L[a])
                    rec.trans()
                rec.state()
                name = kinds[(depth + len(set(word)) + ord(word[-1])) % len(kinds)]
                for name in ([name] if depth < case["depth"] else kinds):
                    base = mech[name](est)
                    for cont in itertools.product(L, repeat=case["post"]):
                        a, b = copy.deepcopy(est), mech[name](base)
                        how = {"word": word, "then": cont, "mechanism": name}
                        continue_both(rec, cfg, a, b, [L[c] for c in cont], 5.0, how)
        rec.sample({"word": word, "then": cont, "mechanism": name})


def snapshot_is_frozen(rec, cfg, main, rows, t):
    """A saved state neither follows the estimator nor reaches back into it."""
    ref = S.observe(main)
    est = copy.deepcopy(main)
    st = est.get_state()
    text = json.dumps(st)
    res = S.make(cfg).set_state(st)
    for x in rows:
        est.partial_fit(x)
        res.partial_fit(x * 2 + 1)
        rec.trans(2)
    S.observe(est)
    S.observe(res)
    if json.dumps(st) != text:
        rec.violate("a saved state changed after it was taken", at=t)
    # the dict handed to set_state and the one returned by get_state belong to the caller
    res = S.make(cfg).set_state(st)
    _scribble(st)
    d = S.same_obs(ref, S.observe(res), 1e-9)
    if d:
        rec.violate("editing the restored dict changes the estimator", at=t, diff=d)
    _scribble(res.get_state())
    d = S.same_obs(ref, S.observe(res), 1e-9)
    if d:
        rec.violate("editing the result of get_state changes the estimator", at=t, diff=d)


def _scribble(o):
    if isinstance(o, dict):
        for k, v in list(o.items()):
            if isinstance(v, (dict, list)):
                _scribble(v)
            elif isinstance(v, (int, float)):
                o[k] = 12345
            elif isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 9e9
    elif isinstance(o, list):
        for i, v in enumerate(o):
            if isinstance(v, (dict, list)):
                _scribble(v)
            else:
                o[i] = 9e9
