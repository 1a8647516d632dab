"""C05: what the caller passes in is neither modified nor kept.

All words over the ways of passing data through memory the caller reuses (one row buffer, one batch
buffer, views, frames, lists, dicts); after every call the argument must be bit-identical, is then
overwritten with garbage, and the estimate must equal that of private copies.
"""
from __future__ import annotations

import copy
import itertools

import numpy as np

from mc import machine as M
from mc import space as S

PROPERTY = "C05"
LEVEL = "model_checking"


def cases(tier):
    out = []
    d = 5 if tier == "thorough" else 4
    for c in S.with_diff(S.base_configs(0.3)) + S.conditional_configs(0.3):
        out.append({"kind": "words", "cfg": c, "depth": d, "p": 2, "cost": 4})
        out.append({"kind": "words", "cfg": c, "depth": 3, "p": 1, "cost": 1})
    for c in S.nested_configs(0.3):
        out.append({"kind": "words", "cfg": c, "depth": 3, "p": 2, "cost": 1})
    for c in S.with_diff(S.base_configs(None)):
        out.append({"kind": "words", "cfg": c, "depth": 3, "p": 5, "prefix": 18, "cost": 3})
        out.append({"kind": "long", "cfg": c, "n": 60, "p": 3})
    for c in S.with_diff(S.base_configs(0.3)) + S.conditional_configs(0.3):
        for p in (1, 3):
            out.append({"kind": "large", "cfg": c, "p": p, "ns": [1, 2, 17, 65, 130, 300, 1030] if not th(tier) else
                        [1, 2, 3, 5, 9, 17, 33, 65, 101, 130, 257, 300, 513, 1030, 2100, 5000], "cost": 3})
        out.append({"kind": "large", "cfg": c, "p": 40, "ns": [1, 2, 17, 65], "cost": 2})
        out.append({"kind": "large", "cfg": c, "p": 130, "ns": [1, 3], "cost": 2})
    for wrap in (["EwaCovariance", {"r": 0.3}], ["LedoitWolfCovariance", {"r": 0.3}]):
        for dyn in (False, True):
            out.append({"kind": "keyed_args", "cfg": wrap, "dynamic": dyn})
    for c in S.base_configs(0.3) + S.conditional_configs(0.3):
        for dyn in (False, True):
            out.append({"kind": "keyed", "cfg": c, "dynamic": dyn, "depth": 4})
    out.append({"kind": "scoring", "ps": [1, 2, 3, 5, 12, 25]})
    return out


def th(tier):
    return tier == "thorough"


def run_large(case, rec):
    """Batches of many sizes, writable and read-only, C and Fortran ordered, through every method that takes data."""
    cfg, p = case["cfg"], case["p"]
    for n in case["ns"]:
        X = S.stream(n, p, seed=22) + 0.25
        want = None
        for form in ("C", "F", "readonly", "view"):
            for word in (("fit",), ("partial_fit",), ("fit", "score", "mahalanobis", "partial_fit"),
                         ("partial_fit", "mahalanobis", "score")):
                est = S.make(cfg)
                for method in word:
                    arg = np.array(X, order="F" if form == "F" else "C")
                    if form == "view":
                        arg = np.concatenate([arg, arg], axis=1)[:, :p]
                    if form == "readonly":
                        arg.setflags(write=False)
                    if method in ("score", "mahalanobis") and est.n_samples_ < 1:
                        continue
                    try:
                        getattr(est, method)(arg)
                    except (np.linalg.LinAlgError,):
                        rec.skip("singular precision")
                    rec.trans()
                    rec.check(np.array_equal(arg, X), "the caller's data was modified", method=method, n=n, form=form)
                    if form != "readonly":
                        arg[...] = 4e4
                rec.state()
                if word[0] == word[-1] or len(word) == 3:
                    o = S.observe(est)
                    if want is None:
                        want = o
                    d = S.same_obs(want, o, 1e-9, S.data_scale(X))
                    rec.check(d is None, "the estimate depends on memory layout or follows the caller's buffer", n=n,
                              form=form, word=word, diff=d)
                rec.trace()


def run_keyed_args(case, rec):
    """Lists of names, and results already handed out, belong to the caller."""
    import precise

    rows = [{"b": 1.0 + t % 3, "a": float(t * t % 7), "c": 0.5 * (t % 5)} for t in range(12)]
    for spoil in itertools.product((0, 1), repeat=5):
        names = ["b", "a", "c"]
        kw = {} if case["dynamic"] else {"keys": names}
        k = precise.keyed(S.make(case["cfg"]), dynamic=case["dynamic"], **kw)
        ref = precise.keyed(S.make(case["cfg"]), dynamic=case["dynamic"], **({} if case["dynamic"] else {"keys": ("b", "a", "c")}))
        for t, o in enumerate(rows):
            if t == 0 and spoil[0]:
                names.sort()
                names.append("zz")
            k.learn_one(dict(o))
            ref.learn_one(dict(o))
            rec.trans(2)
            if t % 4 == 2:
                query = ["c", "b"]
                C, keys = k.cov_array(query)
                rec.check(query == ["c", "b"], "the caller's list of names was modified", t=t)
                C2, keys2 = k.cov_array()
                D = k.covariance_
                if spoil[1]:
                    query.reverse()
                    keys.append("yy")
                if spoil[2]:
                    keys2.reverse()
                if spoil[3]:
                    for arr in (C, C2):
                        if arr.flags.writeable:
                            arr[...] = 5e5
                if spoil[4]:
                    for v in D.values():
                        v.clear()
                    D.clear()
            got, keys = k.cov_array()
            want, keys_w = ref.cov_array()
            rec.state()
            ok = list(keys) == list(keys_w) and S.close(got, want, 1e-9, 1e-12)
            for q in (["a", "b"], ["c"], ["b", "c", "a"]):
                ok = ok and S.close(k.get_cov(list(q)), ref.get_cov(list(q)), 1e-9, 1e-12)
            if not rec.check(ok, "a list or result in the caller's hands changed the estimate", spoil=spoil, t=t, got=[got, keys],
                             want=[want, keys_w]):
                break
        rec.trace()


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


WAYS = ["row", "batch", "strided", "list", "frame", "fit", "score"]


def run_words(case, rec):
    import pandas as pd
    import precise

    cfg, p = case["cfg"], case["p"]
    X = S.stream(64, p, seed=17)
    pre = S.stream(case.get("prefix", 0), p, seed=18)
    ref = M.Reference(cfg)
    probe = S.stream(3, p, seed=8)
    for depth in range(1, case["depth"] + 1):
        for word in itertools.product(WAYS, repeat=depth):
            est = S.make(cfg)
            rowbuf = np.empty(p)
            batchbuf = np.empty((3, p))
            wide = np.empty((6, 2 * p))
            hist = []
            if len(pre):
                est.partial_fit(pre.copy())
                hist = [tuple(x) for x in pre]
            t = 0
            for way in word:
                rec.trans()
                n = 1 if way == "row" else 3
                data = X[t:t + n]
                t += n
                if way == "row":
                    rowbuf[:] = data[0]
                    arg = rowbuf
                elif way in ("batch", "fit", "score"):
                    batchbuf[:] = data
                    arg = batchbuf
                elif way == "strided":
                    wide[::2, ::2] = data
                    arg = wide[::2, ::2]
                elif way == "list":
                    arg = data.tolist()
                else:
                    arg = pd.DataFrame(data.copy())
                before = copy.deepcopy(arg)
                if way == "fit":
                    est.fit(arg)
                    hist = []
                elif way == "score":
                    if est.n_samples_ >= 1:
                        est.score(arg)
                        est.mahalanobis(arg)
                else:
                    est.partial_fit(arg)
                if way != "score":
                    hist = hist + [tuple(x) for x in data]
                same = arg == before if isinstance(arg, list) else np.array_equal(
                    np.asarray(arg), np.asarray(before))
                rec.check(same, "the caller's data was modified", word=word, way=way)
                if isinstance(arg, list):
                    for r in arg:
                        r[:] = [4e4] * len(r)
                elif isinstance(arg, pd.DataFrame):
                    arg.iloc[:, :] = 4e4
                else:
                    arg[...] = 4e4
            rec.state()
            for part in (getattr(est, "vol", None), getattr(est, "corr", None)):
                if isinstance(part, precise.BaseOnlineCovariance):
                    rec.check(part.n_samples_ == 0, "a component template was fitted", word=word)
            if M.nsamples(cfg, hist) >= 1:
                d = M.same_full(ref(hist, p), M.full_obs(est, probe), 10)
                rec.check(d is None, "the estimate follows the caller's buffer", word=word, diff=d)
            rec.trace()
    rec.sample({"word": word})


def run_long(case, rec):
    cfg, p = case["cfg"], case["p"]
    X = S.stream(case["n"], p, seed=19)
    a, b = S.make(cfg), S.make(cfg)
    buf = np.empty(p)
    for t, x in enumerate(X):
        a.partial_fit(x.copy())
        buf[:] = x
        b.partial_fit(buf)
        rec.check(np.array_equal(buf, x), "the caller's data was modified", t=t)
        buf[:] = -8e3
        rec.trans(2)
        rec.state()
        d = S.same_obs(S.observe(a), S.observe(b), 1e-9, S.data_scale(X))
        rec.check(d is None, "the estimate follows the caller's buffer", t=t, diff=d)
    rec.trace()


def run_keyed(case, rec):
    """Templates and dicts handed to the keyed adapters stay the caller's."""
    import precise

    cfg = case["cfg"]
    rows = [{"A": 1.0, "B": 2.0}, {"B": -1.0, "A": 0.5}, {"A": 3.0, "B": -2.0, "C": 1.0},
            {"A": -0.7}]
    for word in itertools.product(range(len(rows)), repeat=case["depth"]):
        template = S.make(cfg)
        shown = repr(template)
        k1 = precise.keyed(template, dynamic=case["dynamic"])
        k2 = precise.keyed(S.make(cfg), dynamic=case["dynamic"])
        d = {}
        for w in word:
            d.clear()
            d.update(rows[w])
            before = dict(d)
            k1.learn_one(d)
            rec.check(d == before and list(d) == list(before), "the caller's dict was modified", word=word)
            for key in d:
                d[key] = 6e6
            d["zzz"] = 1.0
            k2.update(dict(rows[w]))
            rec.trans(2)
        rec.state()
        rec.check(template.n_samples_ == 0 and ("skater" in str(cfg) or repr(template) == shown),
                  "the template estimator was fitted or changed", word=word)
        keys = ["A"] if word[0] == 3 and not case["dynamic"] else ["A", "B"]
        if case["dynamic"] and not any(w != 3 for w in word):
            keys = ["A"]
        rec.check(S.close(k1.get_cov(keys), k2.get_cov(keys), 1e-9), "the estimate follows the caller's dict",
                  word=word)
        rec.trace()


def run_scoring(case, rec):
    """Assessors, suggest and covariance_features leave their arguments alone."""
    import precise

    for p in case["ps"]:
        X = S.stream(40, p, seed=20)
        cov = np.cov(X, rowvar=False, bias=True).reshape(p, p) + 0.1 * np.eye(p)
        truth = np.cov(S.stream(50, p, seed=21), rowvar=False, bias=True).reshape(p, p) + 0.2 * np.eye(p)
        cov[0, -1] *= 1.0 + 1e-9  # an almost symmetric matrix must not be repaired in place
        for a in precise.all_assessors():
            for writable in (True, False):
                args = [cov.copy(), X.copy(), truth.copy()]
                for arr in args:
                    arr.setflags(write=writable)
                was = [v.copy() for v in args]
                a.score(args[0], X_test=args[1], true_cov=args[2])
                rec.trans()
                rec.check(all(np.array_equal(u, v) for u, v in zip(args, was)),
                          "an assessor modified its arguments", assessor=a.name, p=p)
                rec.state()
                rec.trace()
        for f in (precise.suggest, precise.covariance_features):
            Y = X.copy()
            f(Y)
            rec.trans()
            rec.check(np.array_equal(Y, X), "the data window was modified", f=f.__name__, p=p)
            rec.trace()
            rec.state()
