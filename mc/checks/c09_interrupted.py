"""C09: an update cut short leaves a whole number of rows behind.

For every estimator and several positions in the stream, a batch update (and a fit) is re-executed
with an exception raised at every point where CPython can deliver one; afterwards the estimator must
be the one that saw a prefix of the batch, and must continue from there.
"""
from __future__ import annotations

import copy

import numpy as np

from mc import points
from mc import space as S

PROPERTY = "C09"
LEVEL = "fault_enumeration"
RULE = ("one evaluation per (estimator, position in the stream, call, interruption point): the call is executed "
        "with an exception raised exactly there; all points the call executes are enumerated (function entries, "
        "before and after calls and operators, backward jumps). Non-trivial: the exception really cut the call short.")
ASSUMPTIONS = ["registered single-matrix estimators (ConditionalCovariance advances its sub-models in place)",
               "interruptions at CPython's delivery points and raising operations of the package's own code"]


class Cut(BaseException):
    pass


class CutE(Exception):
    pass


def cases(tier):
    th = tier == "thorough"
    out = []
    for c in S.with_diff(S.base_configs(0.3)):
        nb = 5
        for k in (0, 1, nb - 1, nb + 1) if th or "diff" not in c[1] else (0, 1, nb):
            out.append({"cfg": c, "k": k, "rows": 3 if th else 2, "cost": 3})
        out.append({"cfg": c, "k": 3, "rows": 2, "fit": True, "cost": 3})
        out.append({"cfg": c, "k": 7, "rows": 2, "p": 12, "cost": 3})
        out.append({"cfg": c, "k": 5, "rows": 2, "p": 34, "cost": 4})
    for c in S.with_diff(S.base_configs(None)):
        out.append({"cfg": c, "k": 1030, "rows": 2, "p": 2, "cost": 4})
        out.append({"cfg": c, "k": 300, "rows": 2, "p": 2, "fit": True, "cost": 2})
    return out


def obs(est):
    return S.observe(est)


def run(case, rec):
    with points.enabled():
        explore(case, rec)


def explore(case, rec):
    cfg, k, m = case["cfg"], case["k"], case["rows"]
    p = case.get("p", 3)
    X = S.stream(k + m + 3, p, seed=33)
    batch = X[k:k + m]
    tail = X[k + m:]
    fit = case.get("fit")
    scale = S.data_scale(X)

    aged = None
    if k > 50:  # a long past, lived once
        aged = S.make(cfg).partial_fit(X[:k])

    def start():
        if aged is not None:
            return copy.deepcopy(aged)
        est = S.make(cfg)
        for x in X[:k]:
            est.partial_fit(x)
        return est

    # what the estimator may be afterwards: j rows of the batch, then continued
    allowed = []
    for j in range(m + 1):
        for fresh in ((True, False) if fit else (False,)):
            if fit and not fresh and j:
                continue
            est = S.make(cfg) if fresh else start()
            for x in batch[:j]:
                est.partial_fit(x)
            o = obs(est)
            trail = []
            for x in tail:
                est.partial_fit(x)
                trail.append(obs(est))
            allowed.append((j, o, trail))

    def call(est):
        return est.fit(batch) if fit else est.partial_fit(batch)

    base = start()
    _, total = points.trace(lambda: call(base), lambda i: None)
    if total < 5:
        rec.violate("the update executes no code of the package", total=total)
        return
    last = -1
    for exc in (Cut, CutE):
        if exc is CutE and case["cost"] and not fit and k > 1:
            continue
        for at in range(1, total + 1):
            est = start()

            def hit(i):
                if i == at:
                    raise exc()

            cut = True
            try:
                points.trace(lambda: call(est), hit)
                cut = False
            except exc:
                pass
            rec.add("evaluations")
            rec.add("distinct_nontrivial", int(cut))
            got = obs(est)
            matches = [a for a in allowed if same(a[1], got, scale)]
            if not matches:
                rec.violate("interrupted update left part of a row behind", point=at, of=total, n=got["n"],
                            fit=bool(fit), got=got)
                continue
            trail = []
            for x in tail:
                est.partial_fit(x)
                trail.append(obs(est))
            ok = [a for a in matches if all(same(u, v, scale) for u, v in zip(a[2], trail))]
            if not ok:
                rec.violate("interrupted update: the stream does not continue from the rows absorbed", point=at,
                            of=total, n=got["n"], fit=bool(fit), got=trail[-1], want=matches[0][2][-1])
    rec.sample({"points": total, "k": k, "rows": m})


def same(a, b, scale):
    return S.same_obs(a, b, 1e-8, scale) is None
