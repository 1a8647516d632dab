"""C08: estimators share nothing.

Sequential interleavings: every merge of the operation sequences of two (or three) instances, for
all pairs of configurations, widths and parameters; templates shared by compositions; one saved
state given to two estimators. Concurrent interleavings: two threads, each driving its own
instance, under a controlled scheduler that preempts at CPython's switch points (all schedules with
one preemption; two preemptions for selected pairs). Oracle: the instance driven alone.
"""
from __future__ import annotations

import contextlib
import copy
import itertools
import json
import os
import pickle
import random
import subprocess
import sys
import threading

import numpy as np

from mc import core
from mc import machine as M
from mc import points
from mc import space as S

PROPERTY = "C08"
LEVEL = "model_checking"
ASSUMPTIONS = ["each estimator is used by one thread at a time (instances are not shared between threads)",
               "preemption points: function entries, backward jumps, after calls and operators of the package's code"]


def cases(tier):
    th = tier == "thorough"
    out = []
    cfgs = S.base_configs(0.3) + [["EwaCovariance", {"r": 0.3, "diff": True}],
                                  ["TylerCovariance", {"r": 0.5, "diff": True}]] + S.conditional_configs(0.3)[:3]
    for i, a in enumerate(cfgs):
        out.append({"kind": "merge", "a": a, "others": cfgs if th else [
            b for j, b in enumerate(cfgs) if j % 5 == i % 5 or b[0] == a[0]], "len": 3, "cost": 10})
        out.append({"kind": "self", "a": a, "cost": 6})
        out.append({"kind": "shared-state", "a": a, "cost": 1})
    for a in cfgs:
        partners = [a] if not th else [a, ["LedoitWolfCovariance", {"r": 0.3}], ["SchurCovariance", {"r": 0.3}]]
        for b in partners:
            for p, q in ((3, 3), (2, 4)):
                out.append({"kind": "preempt1", "a": a, "b": b, "p": p, "q": q, "k": 5, "cost": 4})
            out.append({"kind": "preempt1", "a": a, "b": b, "p": 3, "q": 3, "k": 0, "cost": 4})
    for a in (S.base_configs(0.3, extra=False) if th else S.base_configs(0.3, extra=False)[::3]):
        out.append({"kind": "preempt2", "a": a, "b": a, "p": 2, "q": 2, "k": 6, "max": 40000 if th else 1500, "stride": 1 if th else 4, "cost": 20})
    for t in S.base_configs(0.3, extra=False):
        out.append({"kind": "templates", "t": t, "cost": 5})
    for n in sorted({c[0] for c in S.base_configs(0.3, extra=False)}):
        out.append({"kind": "twins", "name": n, "k": 14 if th else 9, "cost": 4})
    out.append({"kind": "keyed", "cost": 5})
    out.append({"kind": "tools", "cost": 3})
    out.append({"kind": "globals"})
    for seed in range(12 if tier == "thorough" else 6):
        out.append({"kind": "process", "seed": seed})
    return out


# ------------------------------------------------------------ sequential interleavings
def apply(est, op, p, seed):
    if op == "row":
        est.partial_fit(S.row(est.n_samples_ + 1, p, seed))
    elif op == "batch":
        est.partial_fit(S.stream(4, p, seed + 1))
    elif op == "fit":
        est.fit(S.stream(7, p, seed + 2))
    elif op == "read":
        if est.n_samples_ >= 1:
            M.full_obs(est, S.stream(2, p, seed=8))
    elif op == "save":
        try:
            est.set_state(json.loads(json.dumps(est.get_state())))
        except NotImplementedError:
            pass


def alone(cfg, ops, p, seed, memo):
    key = (json.dumps(cfg), ops, p, seed)
    if key not in memo:
        est = S.make(cfg)
        for op in ops:
            apply(est, op, p, seed)
        memo[key] = M.full_obs(est, S.stream(2, p, seed=8))
    return memo[key]


SEQS = [("batch", "row", "read"), ("row", "batch", "row"), ("fit", "read", "row")]


def merges(n, m):
    for pos in itertools.combinations(range(n + m), n):
        w = ["B"] * (n + m)
        for i in pos:
            w[i] = "A"
        yield w


def run(case, rec):
    with points.enabled() if case["kind"].startswith("preempt") else contextlib.nullcontext():
        globals()["run_" + case["kind"].replace("-", "_")](case, rec)


def alone_all(cfg, todo, memo):
    """Fill the memo for one configuration from a process in which nothing else has run."""
    def go():
        fresh = {}
        for ops, p, seed in todo:
            alone(cfg, ops, p, seed, fresh)
        return fresh

    memo.update(core.pristine(go))


def run_merge(case, rec):
    memo = {}
    a = case["a"]
    for c in [a, *case["others"]]:
        alone_all(c, [(s, p, 21) for s in SEQS for p in (3, 2)] + [(s, q, 41) for s in SEQS[:2] for q in (3, 5)], memo)
    for b in case["others"]:
        for p, q in ((3, 3), (2, 5)):
            for sa, sb in itertools.product(SEQS, SEQS[:2]):
                for w in merges(len(sa), len(sb)):
                    ea, eb = S.make(a), S.make(b)
                    ia, ib = iter(sa), iter(sb)
                    for who in w:
                        rec.trans()
                        if who == "A":
                            apply(ea, next(ia), p, 21)
                        else:
                            apply(eb, next(ib), q, 41)
                    rec.state()
                    for nm, e, cfg, ops, pp, seed in (("first", ea, a, sa, p, 21), ("second", eb, b, sb, q, 41)):
                        d = M.same_full(alone(cfg, ops, pp, seed, memo), M.full_obs(e, S.stream(2, pp, seed=8)), 10)
                        rec.check(d is None, "an estimator was influenced by another", who=nm, other=b, merge="".join(w),
                                  ops=[sa, sb], diff=d)
                    rec.trace()
    rec.sample({"merge": "".join(w), "other": b})


def run_self(case, rec):
    """Three instances of one class, created at different moments, and copies of each other."""
    a = case["a"]
    memo = {}
    p = 3
    ops = ("batch", "row", "read", "row")
    for w in set(itertools.permutations("AABBCC")):
        for how in ("new", "deepcopy", "clone", "pickle"):
            insts = {}
            log = {"A": [], "B": [], "C": []}
            for who in w:
                rec.trans()
                if who not in insts:
                    if insts and how != "new":
                        src_name, src = sorted(insts.items())[-1]
                        if how == "clone":
                            insts[who] = type(src)(**src.get_params())
                        else:
                            insts[who] = copy.deepcopy(src) if how == "deepcopy" else pickle.loads(pickle.dumps(src))
                            log[who] = list(log[src_name])
                    else:
                        insts[who] = S.make(a)
                op = ops[len(log[who]) % len(ops)]
                # rows depend on the instance's own count only
                apply(insts[who], op, p, 21)
                log[who].append(op)
            rec.state()
            for who, e in insts.items():
                d = M.same_full(alone(a, tuple(log[who]), p, 21, memo), M.full_obs(e, S.stream(2, p, seed=8)), 10)
                rec.check(d is None, "an estimator was influenced by another of its class", who=who, order="".join(w),
                          how=how, diff=d)
            rec.trace()


VARIANTS = {"r": [0.3, 0.3002, 0.04], "diff": [False, True], "n_blocks": [2, 3], "max_r": [0.5, 0.5004], "delta": [0.1, 0.1003],
            "target": ["constant_correlation", "identity"], "gamma": [0.5, 0.5004], "interpolation": ["linear", "geodesic"],
            "c": [2.5, 2.5004, 0.9], "vol_r": [None, 0.3, 0.2], "k": [2, 1]}


def run_twins(case, rec):
    """Instances of one class whose parameters differ in one place (also by little), fed the very same rows in turn;
    then generations: each instance dropped before the next one, with other parameters, is made."""
    import precise

    cls = getattr(precise, case["name"])
    base = {k: (VARIANTS[k][0] if k in VARIANTS else v) for k, v in cls().get_params().items()}
    cfgs = [[case["name"], base]]
    for k in base:
        for v in VARIANTS.get(k, [])[1:]:
            if k in ("gamma",) and "interpolation" in base:
                cfgs.append([case["name"], {**base, k: v, "interpolation": "geodesic"}])
            cfgs.append([case["name"], {**base, k: v}])
    probe = S.stream(2, 4, seed=8)
    data = {p: S.stream(case["k"], p, seed=27) for p in (3, 4)}
    data["4b"] = S.stream(case["k"], 4, seed=28)

    def lone(cfg, d):
        def go():
            e, obs = S.make(cfg), []
            for x in data[d]:
                e.partial_fit(x)
                obs.append(M.full_obs(e, probe[:, :data[d].shape[1]]))
            return obs
        return core.pristine(go)

    want = {(i, d): lone(c, d) for i, c in enumerate(cfgs) for d in data}
    pairs = [(i, j) for i in range(len(cfgs)) for j in range(len(cfgs)) if i < j and (i == 0 or j == i + 1)]
    for i, j in pairs + [(i, i) for i in range(len(cfgs))]:
        for da, db in ((4, 4), (4, 3), (4, "4b")):
            for start in (0, 5):
                ea, eb = S.make(cfgs[i]), S.make(cfgs[j])
                for t in range(case["k"] + start):
                    if t < case["k"]:
                        ea.partial_fit(data[da][t])
                        rec.trans()
                    if t >= start:
                        eb.partial_fit(data[db][t - start])
                        rec.trans()
                    for who, e, c, d, n in (("first", ea, i, da, t), ("second", eb, j, db, t - start)):
                        if not 0 <= n < case["k"]:
                            continue
                        rec.state()
                        diff = M.same_full(want[c, d][n], M.full_obs(e, probe[:, :data[d].shape[1]]), 10)
                        rec.check(diff is None, "an estimator was influenced by a twin with other parameters", who=who,
                                  params=cfgs[c][1], other=cfgs[j if who == "first" else i][1], row=n, diff=diff)
                rec.trace()
    for rnd in range(3):
        for i in (range(len(cfgs)) if rnd != 1 else reversed(range(len(cfgs)))):
            d = (4, 3, "4b")[(rnd + i) % 3]
            e = S.make(cfgs[i]).partial_fit(data[d])
            rec.trans()
            diff = M.same_full(want[i, d][-1], M.full_obs(e, probe[:, :data[d].shape[1]]), 10)
            rec.check(diff is None, "an estimator was influenced by one that no longer exists", params=cfgs[i][1], diff=diff)
            del e
        rec.trace()


def run_shared_state(case, rec):
    """One saved state handed to two estimators; then both go on separately, in every order."""
    a = case["a"]
    p = 3
    for k in (1, 3, 5, 6, 9):
        src = S.make(a).partial_fit(S.stream(k, p, seed=22))
        try:
            st = src.get_state()
        except NotImplementedError:
            return
        frozen = json.dumps(st)
        for w in merges(3, 3):
            ea, eb = S.make(a), S.make(a)
            ea.set_state(st)
            eb.set_state(st)
            na, nb = 0, 0
            for who in w:
                rec.trans()
                if who == "A":
                    ea.partial_fit(S.row(na, p, 31))
                    na += 1
                else:
                    eb.partial_fit(S.row(nb, p, 32))
                    nb += 1
            rec.state()
            for e, seed in ((ea, 31), (eb, 32)):
                ref = S.make(a).partial_fit(S.stream(k, p, seed=22)).partial_fit(S.stream(3, p, seed=seed))
                d = S.same_obs(S.observe(ref), S.observe(e), 1e-8, 10)
                rec.check(d is None, "estimators given the same saved state influence one another", k=k, diff=d)
            rec.check(json.dumps(st) == frozen, "the saved state changed", k=k)
            rec.trace()


# ------------------------------------------------------------ concurrent interleavings
def job(cfg, k, p, seed):
    """(prepare, action): the action is what a thread does with its own instance."""
    X = S.stream(k + 2, p, seed=seed)

    def prepare():
        est = S.make(cfg)
        if k:
            est.partial_fit(X[:k])
        return est

    def action(est):
        est.partial_fit(X[k:])
        return est.covariance_

    return prepare, action


def judge(rec, case, who, est, cov, ref, refcov, extra):
    d = S.same_obs(S.observe(ref), S.observe(est), 1e-8, 10)
    if d is None and not S.close(cov, refcov, 1e-8, 1e-10):
        d = "covariance_ returned to the thread"
    rec.check(d is None, "concurrent use of separate estimators changed a result", who=who, diff=d, **extra)


def run_preempt1(case, rec):
    """A is preempted once, at every point; B runs to completion in between."""
    pa, aa = job(case["a"], case["k"], case["p"], 23)
    pb, ab = job(case["b"], case["k"], case["q"], 24)
    ra, rb = pa(), pb()
    ca, cb = aa(ra), ab(rb)
    ra, rb = pa(), pb()
    ca, cb = aa(ra), ab(rb)
    ea = pa()
    _, total = points.trace(lambda: aa(ea), lambda i: None)
    for at in range(1, total + 1):
        ea, eb = pa(), pb()
        box = []

        def hit(i):
            if i == at:
                with points.suspended():
                    box.append(ab(eb))

        res, n = points.trace(lambda: aa(ea), hit)
        rec.state()
        rec.trans(2)
        if not box:
            continue
        judge(rec, case, "preempted", ea, res, ra, ca, {"at": at, "of": total})
        judge(rec, case, "other", eb, box[0], rb, cb, {"at": at, "of": total})
        rec.trace()
    rec.sample({"points": total})


class Baton:
    """Exactly one of two real threads runs; it hands over at chosen points."""

    def __init__(self):
        self.cv = threading.Condition()
        self.turn = 0
        self.done = [False, False]

    def wait(self, me):
        with self.cv:
            self.cv.wait_for(lambda: self.turn == me or self.done[1 - me], timeout=30)

    def give(self, me):
        with self.cv:
            if not self.done[1 - me]:
                self.turn = 1 - me
                self.cv.notify_all()
                self.cv.wait_for(lambda: self.turn == me or self.done[1 - me], timeout=30)

    def finish(self, me):
        with self.cv:
            self.done[me] = True
            self.turn = 1 - me
            self.cv.notify_all()


def run_preempt2(case, rec):
    """A runs to point i, B to point j, A to its end, B to its end: all (i, j) on a grid."""
    pa, aa = job(case["a"], case["k"], case["p"], 23)
    pb, ab = job(case["b"], case["k"], case["q"], 24)
    ra, rb = pa(), pb()
    ca, cb = aa(ra), ab(rb)
    ea, eb = pa(), pb()
    _, na = points.trace(lambda: aa(ea), lambda i: None)
    _, nb = points.trace(lambda: ab(eb), lambda i: None)
    st = case["stride"]
    stop_a = list(range(1, na + 1, st))
    stop_b = list(range(1, nb + 1, st))
    if len(stop_a) * len(stop_b) > case.get('max', 3000):
        step = int(np.ceil((len(stop_a) * len(stop_b) / case.get('max', 3000)) ** 0.5))
        stop_a, stop_b = stop_a[::step], stop_b[::step]
    for i in stop_a:
        for j in stop_b:
            ea, eb = pa(), pb()
            baton = Baton()
            out = [None, None]

            def thread(me, est, act, stop):
                baton.wait(me)
                try:
                    out[me] = points.trace(lambda: act(est), lambda n: baton.give(me) if n == stop else None)[0]
                finally:
                    baton.finish(me)

            ts = [threading.Thread(target=thread, args=(0, ea, aa, i)), threading.Thread(target=thread, args=(1, eb, ab, j))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            rec.state()
            rec.trans(4)
            if out[0] is None or out[1] is None:
                rec.violate("a thread failed when interleaved", i=i, j=j)
                continue
            judge(rec, case, "A", ea, out[0], ra, ca, {"schedule": [i, j]})
            judge(rec, case, "B", eb, out[1], rb, cb, {"schedule": [i, j]})
            rec.trace()


# ------------------------------------------------------------ compositions, keyed, tools
def run_templates(case, rec):
    """One template estimator given to several compositions, trained itself in between."""
    import precise

    p = 3
    X = S.stream(14, p, seed=25)
    for tname, tpar in [case["t"]]:
        for role in ("corr", "vol", "both"):
            def fresh():
                return getattr(precise, tname)(**tpar)

            def conditional(t):
                kw = {}
                if role in ("corr", "both"):
                    kw["corr"] = t
                if role in ("vol", "both"):
                    kw["vol"] = t
                return precise.ConditionalCovariance(**kw)

            ref = conditional(fresh())
            for x in X[:8]:
                ref.partial_fit(x)
            want = S.observe(ref)
            lone = fresh().partial_fit(X[:8])
            for w in sorted(set(itertools.permutations("AABBTT"))):
                t = fresh()
                A, B = conditional(t), None
                k = {"A": 0, "B": 0, "T": 0}
                for who in w:
                    if who == "B" and B is None:
                        B = conditional(t)
                    obj = {"A": A, "B": B, "T": t}[who]
                    obj.partial_fit(X[k[who]:k[who] + 4])
                    k[who] += 4
                    rec.trans()
                rec.state()
                for nm, obj in (("A", A), ("B", B)):
                    d = S.same_obs(want, S.observe(obj), 1e-8, 10)
                    rec.check(d is None, "compositions sharing a template influence one another", who=nm, order="".join(w),
                              template=tname, role=role, diff=d)
                d = S.same_obs(S.observe(lone), S.observe(t), 1e-8, 10)
                rec.check(d is None, "a composition trained its template", template=tname, role=role, diff=d)
                rec.trace()


def run_keyed(case, rec):
    import precise

    rows = [{"a": x[0], "b": x[1], "c": x[2]} for x in S.stream(12, 3, seed=26)]
    part = [({"a": r["a"], "b": r["b"]} if i % 3 == 1 else {"b": r["b"], "c": r["c"], "d": r["a"]} if i % 3 == 2 else r)
            for i, r in enumerate(rows)]
    keylist = ["a", "b", "c"]

    def build(kind, t):
        if kind == "fixed":
            return precise.keyed(t)
        if kind == "fixed-keys":
            return precise.FixedUniverse(t, keys=keylist, impute="mean")
        if kind == "class":
            return precise.FixedUniverse(precise.EwaCovariance, r=0.3)
        return precise.keyed(t, dynamic=True)

    def view(k):
        cov, keys = k.cov_array(["a", "b", "c"])
        return np.array(cov), list(keys)

    kinds = ["fixed", "fixed-keys", "class", "dynamic"]
    for tname in ("EwaCovariance", "LedoitWolfCovariance", "TylerCovariance", "BlockCovariance", "FactorCovariance"):
        for ka, kb in itertools.product(kinds, kinds):
            def data(kind):
                return part if kind in ("dynamic", "fixed") else rows

            want = {}
            for kk in (ka, kb):
                o = build(kk, getattr(precise, tname)(r=0.3))
                for x in data(kk)[:9]:
                    o.learn_one(x)
                want[kk] = view(o)
            for w in merges(3, 3):
                t = getattr(precise, tname)(r=0.3)
                A, B = build(ka, t), build(kb, t)
                n = {"A": 0, "B": 0}
                for who in w:
                    o, kk = (A, ka) if who == "A" else (B, kb)
                    for x in data(kk)[n[who]:n[who] + 3]:
                        o.learn_one(x)
                    if (n[who] // 3) % 2 == 0:
                        view(o) if kk != "fixed" or True else None
                    n[who] += 3
                    rec.trans()
                rec.state()
                for nm, o, kk in (("A", A, ka), ("B", B, kb)):
                    got = view(o)
                    rec.check(S.close(want[kk][0], got[0], 1e-8, 1e-10) and got[1] == want[kk][1],
                              "keyed estimators influence one another", kinds=[ka, kb], merge="".join(w), who=nm,
                              template=tname)
                rec.check(t.n_samples_ == 0, "a keyed estimator trained its template", kinds=[ka, kb])
                rec.trace()
    rec.check(keylist == ["a", "b", "c"], "the caller's key list was changed")


def run_tools(case, rec):
    """Registries, assessors, suggest: results do not depend on what was called before."""
    import precise

    X = S.stream(20, 6, seed=27)
    Y = 0.01 * S.stream(9, 3, seed=28)
    E = precise.EwaCovariance(r=0.3).fit(X)
    E2 = precise.LedoitWolfCovariance(r=0.3).fit(Y)

    def scores(cov, data):
        out = {}
        for a in precise.all_assessors():
            out[a.name] = a.score(cov, X_test=data, true_cov=np.eye(len(cov)))
        return out

    acts = {
        "sx": lambda: [c.__name__ for c in precise.suggest(X, top=17)],
        "sy": lambda: [c.__name__ for c in precise.suggest(Y, top=17)],
        "fx": lambda: precise.covariance_features(X),
        "fy": lambda: precise.covariance_features(Y),
        "ax": lambda: scores(E.covariance_, X),
        "ay": lambda: scores(E2.covariance_, Y),
        "reg": lambda: (precise.all_estimators().reverse(), precise.estimator_names())[1],
        "regs": lambda: (precise.all_estimators().clear(), precise.estimator_names().clear(),
                         precise.all_assessors().clear(), [c.__name__ for c in precise.all_estimators()])[3],
        "mut": lambda: (precise.suggest(X).clear(), precise.covariance_features(X).clear(), 0)[2],
    }
    first = {k: f() for k, f in acts.items()}
    for w in itertools.permutations(acts, 4):
        for k in w:
            rec.trans()
            got = acts[k]()
            ok = got == first[k]
            if not ok and isinstance(got, dict):
                ok = got.keys() == first[k].keys() and all(S.close(got[z], first[k][z], 1e-9, 1e-12) for z in got)
            rec.check(ok, "a result depends on earlier calls", order=w, what=k, got=got, want=first[k])
        rec.state()
        rec.trace()


def run_globals(case, rec):
    """No operation alters process-wide numpy, random or warning settings."""
    import warnings

    import precise

    def snap():
        st = np.random.get_state()
        return (np.geterr(), random.getstate(), st[0], st[1].tobytes(), st[2:], tuple(map(str, warnings.filters)),
                str(np.get_printoptions()))

    X = S.stream(12, 4, seed=29)
    Z = X.copy()
    Z[:, 3] = Z[:, 0]
    odd = [np.ones((9, 3)), np.zeros((9, 2)), X[:1], np.c_[X[:, :2], np.full(12, 3.0)], Z, X * 1e-9, X * 1e9, np.arange(8.0)[:, None], np.full((7, 1), 2.0)]

    def every(make):
        for D in odd:
            est = make()
            for n, x in enumerate(D):
                est.partial_fit(x)
                if n in (1, 6, len(D) - 1) and est.n_samples_ > 0:
                    M.full_obs(est, D[:2])

    def keyed(dyn):
        k = precise.keyed(S.make(["EwaCovariance", {"r": 0.3}]), dynamic=dyn)
        for t in range(9):
            k.learn_one({z: float(v) for z, v in zip("abcd"[:3 + t % 2], [1.0, X[t, 0], X[t, 0], X[t, 1]])})
            k.correlation_, k.covariance_, k.to_frame(["a", "b", "c"])

    def judge():
        for A in (np.eye(4), np.ones((4, 4)), np.zeros((4, 4)), np.diag([1.0, 0, 1, -1]), np.eye(4) * 1e-30):
            for a in precise.all_assessors():
                try:
                    a.score(A, X_test=Z, true_cov=np.eye(4))
                except Exception:
                    pass

    shared = [("suggest", lambda: precise.suggest(X)), ("suggest odd", lambda: [precise.suggest(D) for D in odd]),
              ("features", lambda: [precise.covariance_features(D) for D in odd]),
              ("score", lambda: [a.score(np.eye(4), X_test=X, true_cov=np.eye(4)) for a in precise.all_assessors()]),
              ("score odd", judge), ("fixed universe", lambda: keyed(False)), ("dynamic universe", lambda: keyed(True))]
    warnings.showwarning = lambda *a, **k: None
    warnings.resetwarnings()
    warnings.simplefilter("always")   # a filter put in place by the code is then always seen
    for level in ("warn", "ignore"):
        np.seterr(all=level)
        acts = []
        for cfg in S.with_diff(S.base_configs(0.3)) + S.conditional_configs(0.3):
            acts += [(cfg, nm, f) for nm, f in (
                ("construct", lambda c=cfg: S.make(c)), ("fit", lambda c=cfg: S.make(c).fit(X)),
                ("stream", lambda c=cfg: [S.make(c).partial_fit(x) for x in X]),
                ("read", lambda c=cfg: M.full_obs(S.make(c).fit(X), X[:2])),
                ("copy", lambda c=cfg: pickle.loads(pickle.dumps(S.make(c).fit(X)))),
                ("degenerate", lambda c=cfg: every(lambda: S.make(c))))]
        for cfg, nm, f in acts + [(None, nm, f) for nm, f in shared]:
            before = snap()
            f()
            rec.trans()
            rec.state()
            rec.check(snap() == before, "process-wide settings were changed", cfg=cfg, act=nm, level=level)
            rec.trace()

    # Importing the package (in a pristine interpreter) changes nothing either.
    code = """
import random, sys, warnings
import numpy as np
def snap():
    return (np.geterr(), random.getstate(), np.random.get_state()[1].tobytes(), list(map(str, warnings.filters)), str(np.get_printoptions()), sys.getrecursionlimit())
a = snap()
import precise, precise.assessment, precise.keyed, precise.conditional, precise.recommend, precise.registry
precise.all_estimators(), precise.all_assessors(), precise.estimator_names()
sys.exit(0 if snap() == a else 7)
"""
    p = subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONPATH": str(core.REPO)}, capture_output=True, text=True)
    rec.trans()
    rec.state()
    rec.check(p.returncode != 7, "importing the package changes process-wide settings")


PROCESS = """
import sys, json
import numpy as np
sys.path[:0] = sys.argv[1:3]
from mc import space as S
import precise
out = {}
def put(name, v):
    out[name] = np.asarray(v, dtype=float).round(9).tolist() if not isinstance(v, str) else v
X = S.stream(30, 6, seed=33)
for cfg in S.base_configs(0.3) + S.conditional_configs(0.3):
    e = S.make(cfg)
    for x in X:
        e.partial_fit(x)
    nm = json.dumps(cfg)
    put(nm + " cov", e.covariance_ / np.abs(e.covariance_).max())
    put(nm + " repr", "" if "skater" in nm else repr(e))
names = ["spam", "eggs", ("t", 3), 7, "x", "Z"]
for dyn in (False, True):
    for wrap in (["EwaCovariance", {"r": 0.3}], ["BlockCovariance", {"r": 0.3, "n_blocks": 2}]):
        k = precise.keyed(S.make(wrap), dynamic=dyn, **({"max_universes": 3, "max_staleness": 4} if dyn else {}))
        for t in range(30):
            k.learn_one({n: float(X[t, (j + t) % 6]) for j, n in enumerate(names) if t < 2 or (j + t) % 5})
        for q in (None, names, names[::-1]):
            C, keys = k.cov_array(q)
            put(f"{dyn} {wrap[0]} {q} keys", str(keys))
            put(f"{dyn} {wrap[0]} {q} cov", C)
        put(f"{dyn} {wrap[0]} dict", str([list(v) for v in k.covariance_.values()]))
put("suggest", str([c.__name__ for c in precise.suggest(X, top=17)]))
put("features", str(sorted((a, round(float(b), 9)) for a, b in precise.covariance_features(X).items())))
put("names", str(precise.estimator_names()) + str([a.name for a in precise.all_assessors()]))
for a in precise.all_assessors():
    try:
        put("assessor " + a.name, a.score(np.cov(X.T), X_test=X, true_cov=np.eye(6)))
    except Exception as e:
        put("assessor " + a.name, type(e).__name__)
print(json.dumps(out))
"""


def run_process(case, rec):
    """The same calls give the same results in another process, whatever its hash seed, argument vector or working directory."""
    res = []
    for seed, cwd in (("0", "/"), (str(101 + case["seed"]), "/tmp")):
        p = subprocess.run([sys.executable, "-c", PROCESS, str(core.REPO), str(core.VERIF)], cwd=cwd, capture_output=True, text=True,
                           env={**os.environ, "PYTHONHASHSEED": seed})
        rec.trans()
        if p.returncode:
            rec.violate("the same calls fail in another process", seed=seed, error=p.stderr[-800:])
            return
        res.append(json.loads(p.stdout.splitlines()[-1]))
    a, b = res
    for nm in a:
        rec.state()
        same = a[nm] == b.get(nm) if isinstance(a[nm], str) else S.close(np.array(a[nm]), np.array(b.get(nm)), 1e-7, 1e-8)
        rec.check(same, "a result depends on the process (hash seed)", what=nm, got=b.get(nm), want=a[nm], seed=case["seed"])
    rec.trace()
