"""C04: reading an estimate has no effect, and what was read belongs to the reader.

All words up to the depth over updates and every kind of read; final observation compared with the
same updates executed without any read. Arrays obtained on the way are either kept (and must not
change afterwards) or overwritten (and must not matter).
"""
from __future__ import annotations

import copy
import itertools
import json
import pickle

import numpy as np

from mc import machine as M
from mc import space as S

PROPERTY = "C04"
LEVEL = "model_checking"


def cases(tier):
    out = []
    d = 5 if tier == "thorough" else 4
    for c in S.with_diff(S.base_configs(0.3)):
        out.append({"cfg": c, "reads": 2 if tier == "quick" else 9, "depth": d if not c[1].get("diff") else d - 1, "prefix": 4, "p": 3, "cost": 4})
    for c in S.base_configs(None) + S.conditional_configs(0.3):
        out.append({"cfg": c, "reads": 9, "depth": d - 1, "prefix": 19, "p": 5, "cost": 2})
        out.append({"cfg": c, "reads": 9, "depth": d - 1, "prefix": 0, "p": 2, "cost": 2})
        out.append({"cfg": c, "reads": 9, "depth": d - 1, "prefix": 19, "p": 1, "cost": 2})
        out.append({"cfg": c, "every": 60, "p": 1, "cost": 1})
        out.append({"cfg": c, "every": 60, "p": 3, "scale": 1e-5, "cost": 1})
        out.append({"cfg": c, "every": 160, "p": 4, "cost": 2})
        out.append({"cfg": c, "every": 30, "p": 40, "cost": 1})
        out.append({"cfg": c, "every": 1060, "p": 2, "cost": 3})
        out.append({"cfg": c, "every": 22, "p": 70, "cost": 2})
        out.append({"cfg": c, "every": 8, "p": 130, "cost": 2})
    for r in (0.01, 0.002):
        for c in S.base_configs(r, extra=False)[1:]:
            out.append({"cfg": c, "every": 275, "p": 3, "cost": 2})
    for w in (["EwaCovariance", {"r": 0.3}], ["EmpiricalCovariance", {}], ["LedoitWolfCovariance", {}], ["FactorCovariance", {"k": 2, "r": 0.3}],
              ["TylerCovariance", {"r": 0.3}], ["ConditionalCovariance", {}]):
        for how in ({}, {"impute": "mean"}, {"impute": "zero"}, {"dynamic": True}, {"dynamic": True, "max_universes": 2, "max_staleness": 1}):
            out.append({"keyed": w, "how": how, "depth": 5 if tier == "thorough" else 4, "cost": 3})
    return out


READS = ["cov", "corr", "prec", "loc", "score", "maha", "state", "dump"]


def read(est, what, probe):
    """Return the arrays obtained."""
    if what == "cov":
        return [est.covariance_]
    if what == "corr":
        return [est.correlation_]
    if what == "prec":
        return [est.precision_, est.get_precision()]
    if what == "loc":
        return [est.location_] + ([np.array(est.gamma_)] if hasattr(est, "gamma_") else [])
    if what == "maha":
        return [est.mahalanobis(probe)]
    if what == "score":
        return [np.array(est.score(probe))]
    if what == "state":
        try:
            st = est.get_state()
        except NotImplementedError:
            pass
        else:
            json.dumps(st)
            spoil(st)
        spoil(est.get_params())
        repr(est)
        est.n_samples_, est.n_features_in_
        return []
    pickle.dumps(est)
    copy.deepcopy(est)
    return []


def spoil(x):
    """Overwrite a nested structure that was handed out, whatever of it can be."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 7e7
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list, np.ndarray)):
                spoil(x[k])
            else:
                x[k] = 5e5
        x["intruder"] = 1.0
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list, np.ndarray)):
                spoil(v)
            else:
                x[i] = -4e4
        x.append(3e3)
    elif hasattr(x, "iloc"):
        x.iloc[:, :] = 7e7


KEYED_READS = ("cov_array", "sub", "get_cov", "get_corr", "dicts", "frame", "text")


def keyed_read(k, what, known):
    sub = known[::-1][:2]
    if what == "cov_array":
        return list(k.cov_array()) + list(k.cov_array(list(known)))
    if what == "sub":
        return list(k.cov_array(sub)) + [k.get_cov(sub), k.get_corr(sub)]
    if what == "get_cov":
        return [k.get_cov(), k.get_cov(list(known))]
    if what == "get_corr":
        return [k.get_corr(), k.get_corr(list(known))]
    if what == "dicts":
        return [k.covariance_, k.correlation_, k.covariance]
    if what == "frame":
        return [k.to_frame(), k.to_frame(sub)]
    repr(k)
    copy.deepcopy(k)
    return []


def keyed_case(case, rec):
    """All words over observations of different key sets and reads, for the keyed adapters."""
    import precise

    X = S.stream(8, 4, seed=17)
    sets = {"abc": "abc", "ab": "ab", "cb": "cb", "abcd": "abcd"}

    def fresh():
        return precise.keyed(S.make(case["keyed"]), **case["how"])

    def feed(k, t, names):
        k.learn_one({n: float(X[t, "abcd".index(n)]) for n in names})

    def final(k, known):
        return [k.cov_array()[0], k.cov_array(list(known))[0], k.get_corr(list(known)), k.cov_array(list(known)[::-1][:2])[0]]

    dyn = case["how"].get("dynamic")
    for depth in range(2, case["depth"] + 1):
        for word in itertools.product(list(sets) + list(KEYED_READS), repeat=depth):
            k = sum(o in KEYED_READS for o in word)
            if not 1 <= k <= 2 or k == depth or word[0] not in ("abc", "cb", "dicts", "cov_array"):
                continue
            if depth == 4 and (word[1] == word[2] or k == 1 or "ab" in word):
                continue
            rec.state()
            updates = [o for o in word if o in sets]
            first = sets[updates[0]]
            known = sorted(set("".join(updates))) if dyn else list(first)
            for mode in ("keep", "scribble"):
                e, q, t, seen, kept = fresh(), fresh(), 0, set(), []
                for o in word:
                    rec.trans()
                    if o in sets:
                        feed(e, t, sets[o])
                        feed(q, t, sets[o])
                        seen |= set(o)
                        t += 1
                        continue
                    if not seen:
                        try:
                            keyed_read(e, o, list("ab"))
                        except ValueError:
                            pass
                        continue
                    names = sorted(seen) if dyn else list(first)
                    for v in keyed_read(e, o, names):
                        kept.append((o, v, copy.deepcopy(v)))
                        if mode == "scribble":
                            spoil(v)
                scale = np.abs(X).max() ** 2
                for i, (got, want) in enumerate(zip(final(e, known), final(q, known))):
                    rec.check(S.close(got, want, 1e-10 * (1 + scale)), "reads changed a keyed estimate", word=word, mode=mode, view=i, got=got, want=want)
                if mode == "keep":
                    for o, v, was in kept:
                        same = v.equals(was) if hasattr(v, "equals") else np.array_equal(v, was) if isinstance(v, np.ndarray) else v == was
                        rec.check(same, "what a keyed estimator returned earlier changed later", word=word, op=o)
                rec.trace()
    rec.sample({"keyed": case["keyed"], "how": case["how"], "word": word})


def run(case, rec):
    if "keyed" in case:
        return keyed_case(case, rec)
    cfg, p = case["cfg"], case["p"]
    ref = M.Reference(cfg)
    probe = S.stream(3, p, seed=8)
    if "every" in case:
        return every(case, rec, cfg, p, probe)
    pre = S.stream(case["prefix"], p, seed=14)
    L = S.letters(p, "uv")
    batch = S.stream(3, p, seed=15)
    ops = ["a", "b", "batch"] + READS
    for depth in range(1, case["depth"] + 1):
        for word in itertools.product(ops, repeat=depth):
            k = sum(o in READS for o in word)
            if not 1 <= k <= case["reads"]:
                continue
            if case["reads"] == 2 and depth == 4 and "batch" in word:
                continue
            for mode in ("keep", "scribble"):
                est = S.make(cfg)
                hist = [tuple(x) for x in pre]
                if len(pre):
                    est.partial_fit(pre)
                kept = []
                for op in word:
                    rec.trans()
                    if op in ("a", "b"):
                        x = L["u" if op == "a" else "v"]
                        est.partial_fit(x)
                        hist.append(tuple(x))
                    elif op == "batch":
                        est.partial_fit(batch)
                        hist += [tuple(x) for x in batch]
                    elif est.n_samples_ >= 1:
                        for arr in read(est, op, probe):
                            if not isinstance(arr, np.ndarray):
                                rec.violate("not an array", op=op)
                            kept.append((op, arr, arr.copy()))
                            if mode == "scribble" and arr.flags.writeable:
                                arr[...] = 7e7
                rec.state()
                if M.nsamples(cfg, hist) >= 1:
                    d = M.same_full(ref(hist, p), M.full_obs(est, probe), 10)
                    rec.check(d is None, "reads changed the estimate", word=word, mode=mode, diff=d)
                if mode == "keep":
                    for op, arr, was in kept:
                        rec.check(np.array_equal(arr, was, equal_nan=True),
                                  "an array returned earlier changed later", word=word, op=op)
                rec.trace()
    rec.sample({"prefix": case["prefix"], "word": word})


def every(case, rec, cfg, p, probe):
    """A long stream: one instance is read (twice) after every row, the other never until the end."""
    n = case["every"]
    X = S.stream(n, p, seed=16) * case.get("scale", 1.0)
    watched, quiet = S.make(cfg), S.make(cfg)
    kept = []
    for t, x in enumerate(X):
        watched.partial_fit(x)
        quiet.partial_fit(x)
        rec.trans(2)
        rec.state()
        for what in READS[:4]:
            a = read(watched, what, probe)
            b = read(watched, what, probe)
            for u, v in zip(a, b):
                rec.check(S.close(u, v, 1e-10), "two reads in a row differ", t=t, what=what)
                if t % 7 == 0:
                    kept.append((t, what, u, u.copy()))
                elif u.flags.writeable:
                    u[...] = -3e3
    d = M.same_full(M.full_obs(quiet, probe), M.full_obs(watched, probe), S.data_scale(X))
    rec.check(d is None, "reads changed the estimate", every=n, diff=d)
    for t, what, u, was in kept:
        rec.check(np.array_equal(u, was, equal_nan=True), "an array returned earlier changed later", t=t, what=what)
    rec.trace()
