"""C03: fit and set_state make an estimator forget everything it held before.

All operation words up to the depth over {observe a, observe b, batch, read everything, save,
restore, clear, fit on the same width, fit on another width, fit on one row, failing calls}; after
each word the instance must equal a fresh one fed only the rows since the last reset.
"""
from __future__ import annotations

import copy
import itertools
import json

import numpy as np

from mc import machine as M
from mc import space as S

PROPERTY = "C03"
LEVEL = "model_checking"


def cases(tier):
    out = []
    depth = 5 if tier == "thorough" else 4
    for r in (0.3, None):
        for c in S.with_diff(S.base_configs(r)):
            out.append({"cfg": c, "b": depth > 4, "depth": depth if r else depth - 1, "cost": 4 if r else 2})
    for c in S.conditional_configs(0.3):
        out.append({"cfg": c, "depth": depth - 1, "cost": 4})
        out.append({"cfg": c, "depth": 2, "past": 260, "cost": 1})
    for c in S.nested_configs(0.3):
        out.append({"cfg": c, "depth": depth - 2, "cost": 2})
    for c in S.with_diff(S.base_configs(None)):
        out.append({"cfg": c, "depth": 3 if depth > 4 else 2, "past": 1040, "cost": 2})
    return out


def run(case, rec):
    cfg = case["cfg"]
    can_state = cfg[0] != "ConditionalCovariance"
    ref = M.Reference(cfg)
    A = S.stream(7, 2, seed=11)
    B = S.stream(4, 3, seed=12)
    ops = ["a", "batch", "read", "fitA", "fitB", "fit1"]
    if case["depth"] <= 3 or case.get("b"):
        ops.append("bad")  # calls that are refused
    if case.get("b"):
        ops.append("b")
    if can_state:
        ops += ["save", "restore", "clear"]
    lets = {w: S.letters(w, "uv") for w in (2, 3)}
    batch = {w: S.stream(2, w, seed=13) for w in (2, 3)}
    resets = {"fitA", "fitB", "fit1", "restore", "clear"}
    if case.get("past"):
        old = [tuple(x) for x in S.stream(case["past"], 2, seed=18)]
        aged = S.make(cfg).partial_fit(np.array(old))
    for depth in range(1, case["depth"] + 1):
        for word in itertools.product(ops, repeat=depth):
            if not resets & set(word):
                continue  # nothing to forget: C04 covers plain words
            est = S.make(cfg)
            hist, width = [], None
            if case.get("past"):  # an estimator with a long life behind it
                est = copy.deepcopy(aged)
                hist, width = list(old), 2
            else:
                est.partial_fit(A[:4])
                hist, width = [tuple(x) for x in A[:4]], 2
            saved, saved_hist, saved_w = None, None, None
            if can_state:
                saved, saved_hist, saved_w = None, [], None
            for op in word:
                w = width or 2
                rec.trans()
                if op in ("a", "b"):
                    x = lets[w]["u" if op == "a" else "v"]
                    est.partial_fit(x.copy())
                    hist = hist + [tuple(x)]
                    width = w
                elif op == "batch":
                    est.partial_fit(batch[w].copy())
                    hist = hist + [tuple(x) for x in batch[w]]
                    width = w
                elif op == "read":
                    if est.n_samples_ >= 1:
                        M.full_obs(est, S.stream(3, w, seed=8))
                elif op == "bad":
                    for call in (lambda: est.partial_fit(np.zeros(w + 1)), lambda: est.partial_fit(np.zeros((2, w + 2))),
                                 lambda: est.partial_fit(["x"] * w)):
                        if width:
                            try:
                                call()
                            except Exception:
                                continue
                            rec.violate("a misshapen observation was accepted", word=word)
                elif op in ("fitA", "fitB", "fit1"):
                    Y = A if op == "fitA" else B if op == "fitB" else A[:1]
                    est.fit(Y.copy())
                    hist, width = [tuple(x) for x in Y], Y.shape[1]
                elif op == "save":
                    saved, saved_hist, saved_w = json.dumps(est.get_state()), hist, width
                elif op == "restore":
                    est.set_state(None if saved is None else json.loads(saved))
                    hist, width = saved_hist, saved_w
                elif op == "clear":
                    est.set_state(None)
                    hist, width = [], None
            rec.state()
            want = ref(hist, width)
            if M.nsamples(cfg, hist) < 1:
                ok = est.n_samples_ == 0 and raises_not_fitted(est)
                rec.check(ok, "an estimator without data must be unfitted", word=word)
                # a reset estimator accepts any width again
                if not hist:
                    rec.check(est.n_features_in_ is None, "a cleared estimator keeps a width", word=word, got=est.n_features_in_)
                    est.partial_fit(np.array([1.0, 2.0, 3.0, 4.0]))
                    est.partial_fit(np.array([0.0, 1.0, -3.0, 4.5]))
                    h = [(1.0, 2.0, 3.0, 4.0), (0.0, 1.0, -3.0, 4.5)]
                    d = M.same_full(ref(h, 4), M.full_obs(est, S.stream(3, 4, seed=8)), 5)
                    rec.check(d is None, "history survives a reset", word=word, diff=d)
            else:
                d = M.same_full(want, M.full_obs(est, S.stream(3, width, seed=8)), 10)
                rec.check(d is None, "history survives a reset", word=word, diff=d)
            rec.trace()
    rec.sample({"word": word, "rows kept": hist})


def raises_not_fitted(est):
    from precise.base import NotFittedError

    if getattr(est, "gamma_", None) is not None:
        return False
    for attr in ("covariance_", "correlation_", "precision_", "location_"):
        try:
            getattr(est, attr)
        except NotFittedError:
            continue
        return False
    return True
