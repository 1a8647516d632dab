"""C28: the evaluation harnesses judge out of sample and report what they measured.

rolling_oos is recomputed window by window from its definition over all small (length, window, step)
combinations. The leave-one-out harnesses are run in every world of a family of controlled worlds:
spies stand in for the generative ensembles and the assessor, so every draw and score is seen; the
order of draws shows what each choice was based on, and ranks and choices are recomputed. Reports,
leaderboards and winners are compared on all small score tables. The training pipeline's exported
tree is compared with the classifier it was exported from.
"""
from __future__ import annotations

import collections
import importlib
import itertools
import math
import re
import shutil
import tempfile
from pathlib import Path

import numpy as np

from mc import core
from mc import space as S

PROPERTY = "C28"
LEVEL = "model_checking"


def cases(tier):
    th = tier == "thorough"
    out = []
    for p in (2, 3, 5):
        for tl in (6, 11):
            out.append({"kind": "rolling", "p": p, "train": tl, "cost": 6,
                        "grid": [(T, te, st) for te in (1, 2, 4) for st in (1, 2, 4, 5) for T in ((tl + te, tl + te + 1, tl + te + 3, tl + te + 8, tl + te + 12) if th else
                                                                             (tl + te, tl + te + 3, tl + te + 8))]})
    for w in range(11):
        for t in (1, 2, 5):
            out.append({"kind": "loo", "world": w, "trials": t, "cost": 4})
        for nf in (2, 3, 6):
            out.append({"kind": "loo", "world": w, "trials": 3, "families": nf, "cost": 4})
    for w in range(11) if th else (0, 1, 2, 3, 5, 8):
        out.append({"kind": "trained", "world": w, "problems": 24 if th or w in (2, 3) else 10, "cost": 8})
    for nf in (2, 3, 5):
        out.append({"kind": "trained", "world": 3, "families": nf, "problems": 24 if th else 8, "cost": 8})
    out.append({"kind": "judged", "cost": 5})
    out.append({"kind": "report"})
    for names in (2, 3):
        out.append({"kind": "board", "names": names, "cells": 2 if names == 3 or not th else 3, "cost": 3})
    for seed in range(4 if th else 2):
        out.append({"kind": "bakeoff", "seed": seed, "d": 4 + seed, "cost": 5})
    for d in (1, 2, 3):
        out.append({"kind": "export", "depth": d, "cost": 3})
    out.append({"kind": "real", "cost": 4})
    return out


def mod(name):
    return importlib.import_module("research." + name)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


# ------------------------------------------------------------------ rolling windows
def gmv(C):
    w = np.linalg.solve(C, np.ones(len(C)))
    return w / w.sum()


def rolling(R, tl, te, st):
    import precise

    R = np.asarray(R, dtype=float)
    T, p = R.shape
    per = collections.defaultdict(list)
    rec_, best, ew, counts = [], [], [], collections.Counter()
    start = 0
    risky = set()  # estimators whose portfolio is too ill-conditioned to compare
    shaky = False  # an aggregate depends on one of them
    while start + tl + te <= T:
        past, future = R[start:start + tl].copy(), R[start + tl:start + tl + te].copy()
        got = {}
        bad = set()
        for cls in precise.all_estimators():
            C = cls().fit(past).covariance_
            if S.cond(C) > 1e9:
                bad.add(cls.__name__)
                got[cls.__name__] = np.inf
                continue
            w = gmv(C)
            got[cls.__name__] = sum(float(x @ w) ** 2 for x in future) / te
        risky |= bad
        for k, v in got.items():
            per[k].append(v)
        pick = precise.suggest(past, top=1)[0].__name__
        counts[pick] += 1
        shaky = shaky or pick in bad
        rec_.append(got[pick])
        best.append(min(got.values()))
        ew.append(sum(float(x.mean()) ** 2 for x in future) / te)
        start += st
    vol = lambda v: math.sqrt(252.0 * sum(v) / len(v))
    return {k: vol(v) for k, v in per.items()}, None if shaky else vol(rec_), None if risky else vol(best), vol(ew), dict(counts), risky


def agrees(got, want):
    fixed, rec_, best, ew, counts, risky = want
    return (set(got[0]) == set(fixed) and all(k in risky or close(got[0][k], fixed[k]) for k in fixed)
            and (rec_ is None or close(got[1], rec_)) and (best is None or close(got[2], best))
            and close(got[3], ew) and dict(got[4]) == counts)


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1e-12, abs(a), abs(b))


def run_rolling(case, rec):
    oe = mod("oos_equity")
    p, tl = case["p"], case["train"]
    for (T, te, st), spikes in itertools.product(case["grid"], (False, True)):
        R = S.stream(T, p, seed=101) * 0.01
        if spikes:  # heavy rows, and a future unlike the past: looking ahead changes the choice
            R[tl:tl + te] = R[tl:tl + te] @ (np.ones((p, p)) + np.eye(p)) * 30
        keep = R.copy()
        want = rolling(R, tl, te, st)
        if want[5]:
            rec.skip("portfolios of an ill-conditioned estimate", len(want[5]))
        rec.state()
        rec.trans(sum(want[4].values()))
        for how, Y in (("array", R), ("list", R.tolist())):
            got = oe.rolling_oos(Y, train_len=tl, test_len=te, step=st)
            ok = agrees(got, want)
            rec.check(ok, "rolling_oos is not the out-of-sample risk of the windows", T=T, train=tl, test=te, step=st, p=p, got=got, want=want[:5])
        rec.check(np.array_equal(R, keep), "rolling_oos changed the returns")
        rec.trace()
        # the report shows these numbers, best first, and the recommender's true rank
        lines = oe.report(*got).splitlines()
        rows = [ln.split() for ln in lines if ln.split() and ln.split()[0] in want[0]]
        rec.check([r[0] for r in rows] == [k for k, v in sorted(got[0].items(), key=lambda kv: kv[1])]
                  and all(abs(float(r[1]) - got[0][r[0]]) <= 6e-5 for r in rows), "report rows", rows=rows, got=got[0])
        rank = 1 + sum(v < got[1] for v in got[0].values())
        rl = [ln for ln in lines if ln.startswith("RECOMMENDER")][0]
        rec.check(f"rank {rank}/{len(got[0])}" in rl and f"{got[1]:.4f}" in rl, "report: recommender line", line=rl, rank=rank)
        rec.check(any(ln.startswith("ORACLE") and f"{got[2]:.4f}" in ln for ln in lines)
                  and any(ln.startswith("equal_weight") and f"{got[3]:.4f}" in ln for ln in lines), "report: reference lines")
    rec.sample({"p": p, "train_len": tl, "grid": case["grid"][:5]})


def run_real(case, rec):
    """The bundled equity data, a few windows of it."""
    import pandas as pd

    oe = mod("oos_equity")
    R = pd.read_csv(oe.DATA, index_col=0).values[:330, :7]
    for tl, te, st in ((60, 21, 21), (40, 10, 100)):
        want = rolling(R, tl, te, st)
        got = oe.rolling_oos(R, train_len=tl, test_len=te, step=st)
        rec.state()
        rec.trans()
        rec.check(agrees(got, want), "rolling_oos on the bundled data", got=got, want=want[:5])
    a = oe.rolling_oos(R[:120])
    b = rolling(R[:120], 60, 21, 21)
    rec.check(agrees(a, b), "rolling_oos defaults are windows of 60, 21 apart by 21", got=a[1:], want=b[1:])
    rec.trace()


# ------------------------------------------------------------------ leave one out
class World:
    """Controlled ensembles and assessor; sees every draw and every score."""

    def __init__(self, k, nfam):
        self.k = k
        self.fams = [f"fam{i}" for i in range(nfam)]
        self.draws = []       # family of every trial
        self.scores = []      # scores handed out, one list per trial
        self.tests = []       # rows of X_test per trial

    def ensembles(self):
        def gen(name):
            def g(p, rng):
                self.draws.append(name)
                self.scores.append([])
                self.tests.append([])
                i = self.fams.index(name)
                C = np.eye(p) * (1.0 + i)
                if i % 2:
                    C = C + 0.4 * (np.ones((p, p)) - np.eye(p))
                return C
            return g
        return {f: (gen(f), i == 1) for i, f in enumerate(self.fams)}

    def value(self, fam, trial, e):
        """Score of estimator e (registry position) in that trial of that family."""
        i = self.fams.index(fam)
        k = self.k
        if k == 0:
            return -float(e)                                    # always the first
        if k == 1:
            return float(e)                                     # always the last
        if k == 2:
            return 50.0 if e == i else -float(e)                # a specialist per family
        if k == 3:
            return float((e * 7 + i * 3 + trial * 5) % 17)      # changes every trial
        if k == 4:
            return float((e * 7 + i * 3) % 17)
        if k == 5:
            return 0.0                                          # all tied
        if k == 6:
            return -np.inf if e % 3 == 0 else float((e * 5 + trial) % 17)
        if k == 8:
            return -1.0 + ((e * 5 + trial) % 17) * 1e-13        # told apart by the last digits
        if k == 9:
            return 1e9 + ((e * 3 + i) % 17) * 1e-4
        if k == 10:
            return -1e-12 * ((e * 7 + trial) % 17)
        return 50.0 if e == 16 - i else float((e * 11) % 17)

    # assessor interface
    name = "spy"

    def score(self, cov, X_test=None, true_cov=None):
        v = self.value(self.draws[-1], len(self.draws), len(self.scores[-1]))
        self.scores[-1].append(v)
        self.tests[-1].append(np.array(X_test))
        if self.k == 6 and len(self.scores[-1]) % 5 == 0:
            self.scores[-1][-1] = -np.inf
            raise np.linalg.LinAlgError("spy")
        return v


def ranks(scores):
    order = sorted(range(len(scores)), key=lambda e: -scores[e])
    return {e: i + 1 for i, e in enumerate(order)}


def best_fixed(trials):
    acc = collections.defaultdict(list)
    for s in trials:
        for e, r in ranks(s).items():
            acc[e].append(r)
    m = {e: float(np.mean(r)) for e, r in acc.items()}
    return {e for e in m if m[e] <= min(m.values()) + 1e-9}


def run_loo(case, rec):
    import precise

    oos = mod("oos")
    nf = case.get("families", 4)
    w = World(case["world"], nf)
    t = case["trials"]
    names = precise.estimator_names()
    picked = []
    real_suggest = getattr(oos, "suggest", None)
    keep = oos.ENSEMBLES

    def spy(X, top=3):
        out = real_suggest(X, top=top)
        picked.append((len(w.draws), np.array(X), out[0].__name__))
        return out

    oos.ENSEMBLES = w.ensembles()
    if real_suggest is not None:
        oos.suggest = spy
    try:
        res = oos.leave_one_ensemble_out(p=3, n_train=12, n_test=9, trials=t, seed=5, assessor=w)
    finally:
        oos.ENSEMBLES = keep
        if real_suggest is not None:
            oos.suggest = real_suggest
    rec.check(list(res) == w.fams, "one result per ensemble", got=list(res))
    rec.check(len(w.draws) == 2 * t * len(w.fams), "number of trials", got=len(w.draws))
    for h, held in enumerate(w.fams):
        a, b = 2 * t * h, 2 * t * h + t
        rec.state()
        rec.trans(2 * t)
        rec.check(all(d != held for d in w.draws[a:b]), "the held-out ensemble was used to choose the fixed estimator", held=held, draws=w.draws[a:b])
        rec.check(all(d == held for d in w.draws[b:b + t]), "evaluated on another ensemble", held=held, draws=w.draws[b:b + t])
        rec.check(all(len(s) == len(names) for s in w.scores[a:b + t]), "every estimator is scored once per trial")
        bf = best_fixed(w.scores[a:b])
        got = res[held]
        rec.check(got["best_fixed"] in [names[e] for e in bf], "not the best fixed estimator on the rest", held=held, got=got, want=[names[e] for e in bf])
        e = names.index(got["best_fixed"])
        want = float(np.mean([ranks(s)[e] for s in w.scores[b:b + t]]))
        rec.check(abs(got["rank_best_fixed"] - want) < 1e-9, "rank of the fixed estimator", held=held, got=got, want=want)
        mine = [x for x in picked if b < x[0] <= b + t]
        if len(mine) == t:
            want = float(np.mean([ranks(w.scores[k - 1])[names.index(nm)] for k, _, nm in mine]))
            rec.check(abs(got["rank_recommender"] - want) < 1e-9, "rank of the recommended estimator", held=held, got=got, want=want)
            for k, X, _ in mine:
                rec.check(X.shape == (12, 3) and all(T.shape == (9, 3) for T in w.tests[k - 1]), "train and test windows", got=X.shape)
                rec.check(not any((X[:, None, :] == T[None, :, :]).all(-1).any() for T in w.tests[k - 1][:1]), "the recommender saw test rows")
                rec.check(all(np.array_equal(T, w.tests[k - 1][0]) for T in w.tests[k - 1]), "estimators are judged on different test rows")
        else:
            rec.skip("recommendations not observable")
    rec.trace()
    # same seed, same answer
    w2 = World(case["world"], nf)
    oos.ENSEMBLES = w2.ensembles()
    try:
        again = oos.leave_one_ensemble_out(p=3, n_train=12, n_test=9, trials=t, seed=5, assessor=w2)
    finally:
        oos.ENSEMBLES = keep
    rec.check(again == res and w2.draws == w.draws, "not reproducible from its seed")
    rec.sample({"world": case["world"], "trials": t, "draws": w.draws[:8]})


def run_trained(case, rec):
    import precise

    oos = mod("oos")
    names = precise.estimator_names()
    w = World(case["world"] if case["world"] != 5 else 7, case.get("families", 4))
    t, npb = 3, case["problems"]
    keep = oos.ENSEMBLES
    oos.ENSEMBLES = w.ensembles()
    try:
        res = oos.leave_one_family_out_trained(p=3, n_train=12, n_test=9, trials=t, n_problems=npb, seed=3, assessor=w)
    finally:
        oos.ENSEMBLES = keep
    per = npb + 2 * t
    rec.check(list(res) == w.fams and len(w.draws) == per * len(w.fams), "trials per held-out family", got=len(w.draws), want=per * len(w.fams))
    for h, held in enumerate(w.fams):
        a = per * h
        rec.state()
        rec.trans(per)
        rec.check(all(d != held for d in w.draws[a:a + npb + t]), "the recommender or fixed choice was trained on the held-out family", held=held,
                  draws=w.draws[a:a + npb + t])
        rec.check(all(d == held for d in w.draws[a + npb + t:a + per]), "evaluated on another family", held=held)
        got = res[held]
        bf = best_fixed(w.scores[a + npb:a + npb + t])
        rec.check(got["best_fixed"] in [names[e] for e in bf], "not the best fixed estimator on the rest", held=held, got=got)
        ev = w.scores[a + npb + t:a + per]
        e = names.index(got["best_fixed"])
        rec.check(abs(got["rank_best_fixed"] - np.mean([ranks(s)[e] for s in ev])) < 1e-9, "rank of the fixed estimator", held=held, got=got)
        # labels the recommender could have learnt from the other families
        labels = {int(np.argmax(s)) for s in w.scores[a:a + npb]}
        possible = [[ranks(s)[e] for e in labels] for s in ev]
        lo, hi = np.mean([min(x) for x in possible]), np.mean([max(x) for x in possible])
        rec.check(lo - 1e-9 <= got["rank_recommender"] <= hi + 1e-9, "the recommender names an estimator that never won in training", held=held,
                  got=got, labels=[names[e] for e in labels], lo=lo, hi=hi)
    rec.trace()
    rec.sample({"world": case["world"], "held out": w.fams})


# ------------------------------------------------------------------ reports
def run_report(case, rec):
    oos = mod("oos")
    for m in (1, 2, 3):
        for vals in itertools.product((1.0, 2.25, 7.5) + ((2.25 + 1e-9,) if m < 3 else ()), repeat=2 * m):
            res = {f"e{i}": {"best_fixed": "EwaCovariance", "rank_recommender": vals[2 * i], "rank_best_fixed": vals[2 * i + 1]} for i in range(m)}
            lines = oos.report(res).splitlines()
            rec.state()
            rec.trans()
            for i in range(m):
                row = [ln.split() for ln in lines if ln.startswith(f"e{i} ")][0]
                win = "rec" if vals[2 * i] <= vals[2 * i + 1] else "fix"
                rec.check(row == [f"e{i}", "EwaCovariance", f"{vals[2 * i]:.2f}", f"{vals[2 * i + 1]:.2f}", win], "report row", got=row, res=res)
            mean = re.findall(r"[\d.]+", [ln for ln in lines if ln.startswith("MEAN rank")][0].split("oracle)")[1])
            want = [f"{np.mean(vals[0::2]):.2f}", f"{np.mean(vals[1::2]):.2f}"]
            rec.check(all(abs(float(a) - float(b)) < 0.011 for a, b in zip(mean, want)) and len(mean) == 2, "report mean ranks", got=mean, want=want)
    rec.trace()


def run_board(case, rec):
    b = mod("bakeoff")
    names = ["EwaCovariance", "OASCovariance", "HuberCovariance"][:case["names"]]
    cells = ["s1", "s2", "s3"][:case["cells"]]
    vals = (0.5, -1.25, 3.0, -np.inf, None) + ((0.5 + 1e-11,) if case["names"] == 2 else ())
    for v in itertools.product(vals, repeat=len(names) * len(cells)):
        if v[0] is None:
            continue  # the first cell names the columns
        res = {}
        for i, nm in enumerate(names):
            res[nm] = {}
            for j, c in enumerate(cells):
                x = v[i * len(cells) + j]
                res[nm][c] = {"LogLikelihood": 1.0 * i, **({"SchurLikelihood": x} if x is not None else {})}
        rec.state()
        rec.trans()
        get = lambda nm, c: res[nm][c].get("SchurLikelihood", -np.inf)
        rk = {nm: [] for nm in names}
        for c in cells:
            for i, nm in enumerate(sorted(names, key=lambda q: -get(q, c))):
                rk[nm].append(i + 1)
        avg = {nm: sum(r) / len(r) for nm, r in rk.items()}
        lines = b.leaderboard(res).splitlines()
        rows = [ln.split() for ln in lines if ln.split() and ln.split()[0] in names]
        rec.check([r[0] for r in rows] == sorted(names, key=lambda q: avg[q]) and all(abs(float(r[1]) - avg[r[0]]) < 0.006 for r in rows),
                  "leaderboard ranks", rows=rows, want=avg, res=res)
        for r in rows:
            fin = [get(r[0], c) for c in cells if np.isfinite(get(r[0], c))]
            want = sum(fin) / len(fin) if fin else -np.inf
            rec.check((float(r[2]) == want) or abs(float(r[2]) - want) < 6e-4, "leaderboard mean score", row=r, want=want)
            rec.check(abs(float(r[3]) - names.index(r[0])) < 6e-4, "leaderboard second column", row=r)
        wins = {ln.split()[0]: ln.split()[-1] for ln in b.per_scenario_winners(res).splitlines() if "->" in ln}
        rec.check(wins == {c: max(names, key=lambda q: get(q, c)) for c in cells}, "winners", got=wins, res=res)
        alt = {ln.split()[0]: ln.split()[-1] for ln in b.per_scenario_winners(res, primary="LogLikelihood").splitlines() if "->" in ln}
        rec.check(set(alt.values()) == {names[-1]}, "winners under another assessor", got=alt)
    rec.trace()


def run_bakeoff(case, rec):
    import precise

    b = mod("bakeoff")
    keep = b.HAVE_RANDOMCOV
    b.HAVE_RANDOMCOV = False
    try:
        kw = dict(d=case["d"], n=120, n_test=60, seed=case["seed"])
        scs = list(b.build_scenarios(**kw))
        res = b.run(**kw)
    finally:
        b.HAVE_RANDOMCOV = keep
    rec.check(list(res) == precise.estimator_names(), "every estimator is judged", got=list(res))
    rec.check([s[0] for s in scs] == ["equicorr", "one_factor", "ar1_toeplitz", "high_dim_low_n", "regime_change", "contaminated", "heavy_tailed"],
              "scenarios", got=[s[0] for s in scs])
    for name, train, test, true in scs:
        d = 40 if name == "high_dim_low_n" else case["d"]
        rec.check(train.shape == (60 if name == "high_dim_low_n" else 120, d) and test.shape == (60, d) and true.shape == (d, d)
                  and np.allclose(true, true.T) and np.linalg.eigvalsh(true)[0] > 0, "scenario shapes", name=name)
        for cls in precise.all_estimators():
            C = cls().fit(train).covariance_
            for a in precise.all_assessors():
                rec.trans()
                try:
                    want = float(a.score(C, X_test=test, true_cov=true))
                except Exception:
                    want = -np.inf
                got = res[cls.__name__][name].get(a.name)
                if S.cond(C) > 1e10:
                    rec.skip("ill-conditioned estimate")
                    continue
                rec.check(got is not None and (got == want or abs(got - want) <= 1e-6 * max(1, abs(want))), "bake-off score", estimator=cls.__name__,
                          scenario=name, assessor=a.name, got=got, want=want)
                rec.state()
    rec.trace()


class Judge:
    """An assessor that sees what it is given, and sometimes cannot say."""

    def __init__(self, name, mode):
        self.name, self.mode, self.seen = name, mode, []

    def usable(self, have_data=False, have_truth=False):
        return self.mode != "unusable" and have_data and have_truth

    def score(self, cov, X_test=None, true_cov=None):
        self.seen.append((np.array(cov), X_test, true_cov))
        n = len(self.seen)
        if self.mode == "raises" or (self.mode == "sometimes" and n % 3 == 0):
            raise np.linalg.LinAlgError("judge")
        if self.mode == "value error" and n % 4 == 1:
            raise ValueError("judge")
        if self.mode == "nan" and n % 5 == 0:
            return float("nan")
        return -float(n)


def run_judged(case, rec):
    """The bake-off under assessors that fail, abstain or answer oddly: what is reported is what they said."""
    import precise

    b = mod("bakeoff")
    X = S.stream(60, 3, seed=102)
    scs = [("one", X[:20], X[20:30], np.eye(3)), ("two", X[30:45] * 2, X[45:], np.eye(3) * 4.0)]
    modes = ["fine", "raises", "sometimes", "value error", "nan", "unusable"]
    keep = b.build_scenarios, b.all_assessors
    for size in (1, 2, 3):
        for pick in itertools.permutations(modes, size):
            judges = [Judge(f"j{i}", m) for i, m in enumerate(pick)]
            b.build_scenarios = lambda **k: scs
            b.all_assessors = lambda: judges
            try:
                res = b.run()
            finally:
                b.build_scenarios, b.all_assessors = keep
            rec.state()
            rec.trans(len(scs) * 17)
            rec.check(list(res) == precise.estimator_names(), "every estimator is judged", got=list(res))
            for j in judges:
                if j.mode == "unusable":
                    rec.check(not j.seen and all(j.name not in res[e][s] for e in res for s in res[e]), "an assessor that abstains was used", modes=pick)
                    continue
                rec.check(len(j.seen) == len(scs) * len(res), "every estimator of every scenario is judged once", got=len(j.seen), modes=pick)
                n = 0
                for name, train, test, true in scs:
                    for cls in precise.all_estimators():
                        n += 1
                        cov, te, tc = j.seen[n - 1]
                        fails = j.mode == "raises" or (j.mode == "sometimes" and n % 3 == 0) or (j.mode == "value error" and n % 4 == 1)
                        want = -np.inf if fails else np.nan if j.mode == "nan" and n % 5 == 0 else -float(n)
                        got = res[cls.__name__][name].get(j.name)
                        rec.check(got is not None and (got == want or (np.isnan(want) and np.isnan(got))), "reported score", modes=pick, judge=j.mode,
                                  estimator=cls.__name__, scenario=name, got=got, want=want)
                        rec.check(np.array_equal(te, test) and np.array_equal(tc, true), "judged on the scenario's own test rows and truth", modes=pick)
                        if size == 1:
                            rec.check(np.allclose(cov, cls().fit(train).covariance_), "judged on the fitted training rows", estimator=cls.__name__)
            rec.trace()


def run_export(case, rec):
    """The exported tables walk to the same counts as the classifier, for every point of a grid."""
    tr = mod("train_recommender")
    from sklearn.tree import DecisionTreeClassifier

    classes = ["EwaCovariance", "HuberCovariance", "LedoitWolfCovariance", "OASCovariance"]
    g = np.array(list(itertools.product((0.0, 1.0, 2.0), repeat=3)))
    X = np.hstack([g, g[:, :1] * 2 + g[:, 1:2], g[:, ::-1]])
    for k in range(6):
        y = np.array([classes[(int(r[0]) * (k + 1) + int(r[1]) * k + int(r[2]) + (i % 2) * (k % 3)) % 4] for i, r in enumerate(X)])
        mean, std = X.mean(0), X.std(0) + 1e-9
        clf = DecisionTreeClassifier(max_depth=case["depth"], min_samples_leaf=2, random_state=0).fit((X - mean) / std, y)
        scratch = Path(tempfile.mkdtemp(prefix="vexport"))
        keep = tr._OUT
        tr._OUT = scratch / "_recommender_model.py"
        try:
            tr.export(clf, mean, std)
            ns = {}
            exec(tr._OUT.read_text(), ns)
        finally:
            tr._OUT = keep
            shutil.rmtree(scratch)
        proba = clf.predict_proba((X - mean) / std)
        leaf_of = clf.apply((X - mean) / std)
        size = collections.Counter(leaf_of)
        for x, pr, lf in zip(X, proba, leaf_of):
            node, close_ = 0, False
            while ns["LEFT"][node] != -1:
                j = ns["FEATURE"][node]
                z = (x[j] - ns["MEAN"][j]) / ns["STD"][j]
                close_ = close_ or abs(z - ns["THRESHOLD"][node]) < 1e-4
                node = ns["LEFT"][node] if z <= ns["THRESHOLD"][node] else ns["RIGHT"][node]
            if close_:
                rec.skip("on a threshold")
                continue
            v = np.array(ns["VALUE"][node], dtype=float)
            rec.trans()
            rec.state()
            rec.check(list(ns["CLASSES"]) == list(clf.classes_) and np.allclose(v, pr * size[lf], atol=0.51), "the exported tree is not the trained one",
                      x=x, got=v, want=pr * size[lf])
    rec.trace()
