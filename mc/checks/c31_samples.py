"""C31: synthetic studies draw their data from the truth they score against.

The random generator is replaced by a finite design whose outcomes are enumerated: normals are +-sqrt(p) times
the axes (mean zero and identity covariance exactly), chi-squares take two values with the right mean inverse,
uniforms their ends. Over a full design the second moment of a sampler's output is then exactly its covariance.
Power studies run with recorded draws and judges whose verdicts follow every script of (better, tie, worse).
"""
from __future__ import annotations

import importlib
import itertools
import sys

import numpy as np

from mc import core
from mc import space as S

PROPERTY = "C31"
LEVEL = "model_checking"
ASSUMPTIONS = ["the truths that randomcov draws (from its own generator) are taken as they come", "a sampler using a kind of draw the design does not have is skipped (counted)"]
STUDIES = ("metric_power", "projection", "pseudo noisy", "pseudo clean", "proof", "schur")


def cases(tier):
    th = tier == "thorough"
    out = [{"kind": "sample", "p": p, "cost": 2} for p in ((1, 2, 3, 4, 5, 7) if th else (1, 2, 3, 5))]
    for p in (3, 4, 6, 11) if th else (3, 4, 7):
        out.append({"kind": "ensembles", "p": p})
    for d, n in ((4, 192), (3, 144), (5, 160), (12, 480)) if th else ((4, 192), (3, 144), (6, 192)):
        out.append({"kind": "scenarios", "d": d, "n": n})
    for s in STUDIES:
        for seed in range(3 if th else 1):
            out.append({"kind": "study", "study": s, "trials": 4 if th else 3, "seed": seed, "cost": 3})
            out.append({"kind": "study", "study": s, "trials": 120 if th else 40, "seed": seed, "close": True, "cost": 3})
    for k in range(6 if th else 3):
        out.append({"kind": "generate", "seed": k, "cost": 2})
    return out


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def mod(name):
    if str(core.REPO) not in sys.path:
        sys.path.insert(0, str(core.REPO))
    return importlib.import_module("research." + name)


class Unsupported(Exception):
    pass


class Design:
    """A generator whose draws are a finite design. `corner` picks the outcome of the uniforms."""

    def __init__(self, corner="low"):
        self.corner = corner
        self.truths = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(name)

    @staticmethod
    def _shape(size):
        return () if size is None else tuple(np.atleast_1d(size).astype(int))

    def standard_normal(self, size=None, **kw):
        s = self._shape(size)
        if len(s) == 2:
            n, p = s
            Z = np.zeros((n, p))
            for i in range(n):
                Z[i, (i // 2) % p] = np.sqrt(p) * (1 - 2 * (i % 2))
            return Z
        k = int(np.prod(s)) if s else 1
        z = np.array([1.0 - 2 * (i % 2) for i in range(k)])
        return z.reshape(s) if s else float(z[0])

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def multivariate_normal(self, mean, cov, size=None, **kw):
        cov = np.asarray(cov, dtype=float)
        w, V = np.linalg.eigh((cov + cov.T) / 2)
        L = V * np.sqrt(np.maximum(w, 0))
        self.truths.append(cov)
        return np.asarray(mean) + self.standard_normal((int(self._shape(size)[0]), len(cov))) @ L.T

    def chisquare(self, df, size=None):
        """Two values, one for each half of the draws: the mean of 1/chi2 is 1/(df-2)."""
        s = self._shape(size)
        k = int(np.prod(s))
        v = np.array([(df - 2) / (0.5 if i < k / 2 else 1.5) for i in range(k)], dtype=float)
        return v.reshape(s)

    def standard_gamma(self, a, size=None):
        return self.chisquare(2 * a, size) / 2

    def gamma(self, a, scale=1.0, size=None):
        return self.standard_gamma(a, size) * scale

    def uniform(self, low=0.0, high=1.0, size=None):
        s = self._shape(size)
        k = int(np.prod(s)) if s else 1
        f = {"low": [0.0], "high": [1.0 - 1e-12], "alternate": [0.0, 1.0 - 1e-12], "middle": [0.5, 0.3, 0.9, 0.1, 0.7]}[self.corner]
        u = low + (high - low) * np.array([f[i % len(f)] for i in range(k)])
        return u.reshape(s) if s else float(u[0])

    def random(self, size=None):
        s = self._shape(size)
        k = int(np.prod(s)) if s else 1
        u = (np.arange(k) * 7 % k + 0.5) / k
        return u.reshape(s) if s else float(u[0])


CORNERS = ("low", "high", "alternate", "middle")


def truths(p):
    """Covariances of every kind: correlated, scaled, nearly singular, anti-correlated."""
    i = np.arange(p)
    out = [np.eye(p), np.diag(10.0 ** (i - 1)), 0.6 * np.ones((p, p)) + 0.4 * np.eye(p), 0.7 ** np.abs(i[:, None] - i)]
    for seed in range(6):
        B = S.stream(p + 2, p, seed=160 + seed)
        out.append(B.T @ B * 10.0 ** (seed - 3))
    b = 1.0 + i
    return out + [np.outer(b, b) + 1e-4 * np.eye(p)]


def moments(X):
    return X.mean(axis=0), X.T @ X / len(X)


def run_sample(case, rec):
    p = case["p"]
    for C in truths(p):
        sd = np.sqrt(np.diag(C))
        for k in (1, 2, 3):
            n = 4 * p * k
            for where, heavy, f in samplers():
                keep = C.copy()
                try:
                    X = np.asarray(f(C, n, Design(), heavy))
                except Unsupported as e:
                    rec.skip(f"the design has no {e}")
                    continue
                rec.trans()
                rec.state()
                how = {"sampler": where, "heavy": heavy, "n": n, "truth": C}
                if not rec.check(X.shape == (n, p) and np.isfinite(X).all(), "the sample has another shape", got=np.shape(X), how=how):
                    continue
                m, M = moments(X / sd)
                rec.check(np.abs(m).max() < 1e-9, "a sample of a centred law has another mean", got=m, how=how)
                rec.check(S.close(M, C / np.outer(sd, sd), 1e-8), "the sample's covariance is not the truth", got=M * np.outer(sd, sd), how=how)
                rec.check(np.array_equal(C, keep), "the sampler changed the truth", how=how)
                r = np.sort(np.einsum("ij,ij->i", X / sd, np.linalg.solve(C / np.outer(sd, sd), (X / sd).T).T))
                if heavy:
                    rec.check(r[-1] > 2.5 * r[0], "heavy-tailed rows all have the same length", got=r[[0, -1]], how=how)
                else:
                    rec.check(S.close(r, np.full(n, float(p)), 1e-3), "Gaussian rows are scaled individually", got=r[[0, -1]], how=how)
        rec.trace()
    rec.sample({"p": p, "truths": len(truths(p))})


def samplers():
    oos, bake = mod("oos"), mod("bakeoff")
    yield "oos._sample", False, lambda C, n, g, h: oos._sample(C, n, g, h)
    yield "oos._sample", True, lambda C, n, g, h: oos._sample(C, n, g, h)
    if hasattr(bake, "_gaussian"):
        yield "bakeoff._gaussian", False, lambda C, n, g, h: bake._gaussian(C, n, g)
    if hasattr(bake, "_heavy_tailed"):
        for df in (3, 4, 5, 12):
            yield f"bakeoff._heavy_tailed df={df}", True, lambda C, n, g, h, df=df: bake._heavy_tailed(C, n, g, df=df)


def is_truth(C, p):
    C = np.asarray(C, dtype=float)
    if C.shape != (p, p) or not np.isfinite(C).all():
        return "shape or values"
    if not S.close(C, C.T, 1e-12):
        return "not symmetric"
    if np.linalg.eigvalsh((C + C.T) / 2)[0] <= 1e-9 * np.trace(C):
        return "not positive definite"
    return None


def run_ensembles(case, rec):
    """Every family of truths is a positive-definite covariance at the ends of everything it draws."""
    oos, mp, p = mod("oos"), mod("metric_power"), case["p"]
    fams = {k: g for k, (g, _) in oos.ENSEMBLES.items() if not k.startswith("randomcov")}
    if hasattr(mp, "_spd_factor"):
        fams["metric_power"] = mp._spd_factor
    for name, g in fams.items():
        seen = []
        for c in CORNERS:
            try:
                C = g(p, Design(c))
            except Unsupported as e:
                rec.skip(f"the design has no {e}")
                continue
            rec.state()
            rec.trans()
            bad = is_truth(C, p)
            rec.check(bad is None, "an ensemble draws what is no covariance", ensemble=name, corner=c, got=C, why=bad)
            seen.append(np.asarray(C, dtype=float))
        for s in range(3):
            C, D = g(p, np.random.default_rng(s)), g(p, np.random.default_rng(s))
            rec.check(is_truth(C, p) is None and np.array_equal(C, D), "an ensemble is not reproducible from its generator", ensemble=name, seed=s)
        # what the names promise
        for C in seen:
            d = np.sqrt(np.diag(C))
            R = C / np.outer(d, d)
            off = R[~np.eye(p, dtype=bool)]
            if name == "equicorr":
                rec.check(np.ptp(off) < 1e-12 and off[0] > 0.1, "equicorrelation is not equal", got=R)
            if name == "diag_hetero":
                rec.check(not off.any(), "the diagonal ensemble is not diagonal", got=C)
            if name.startswith("ar1"):
                rho = R[0, 1]
                rec.check(S.close(R, rho ** np.abs(np.arange(p)[:, None] - np.arange(p)), 1e-9), "AR(1) correlations are not powers", got=R)
        rec.trace()
    heavy = {k: h for k, (_, h) in oos.ENSEMBLES.items()}
    rec.check(all(bool(h) == ("heavy" in k) for k, h in heavy.items()), "the heavy-tailed ensembles", got=heavy)


def with_generator(make, f):
    keep = np.random.default_rng
    np.random.default_rng = make
    try:
        return f()
    finally:
        np.random.default_rng = keep


def run_scenarios(case, rec):
    """Bake-off: test rows have the stated truth; so do training rows, up to outliers and before the regime change."""
    bake = mod("bakeoff")
    d, n, nt = case["d"], case["n"], 960
    for c in CORNERS:
        made = []

        def make(seed=None):
            made.append(Design(c))
            return made[-1]

        try:
            scs = with_generator(make, lambda: bake.build_scenarios(d=d, n=n, n_test=nt, seed=3))
        except Unsupported as e:
            rec.skip(f"the design has no {e}")
            continue
        rec.check(len(scs) >= 7 and len({s[0] for s in scs}) == len(scs), "the scenarios are not distinct", got=[s[0] for s in scs])
        for name, train, test, truth in scs:
            p = len(truth)
            rec.state()
            rec.trans()
            how = {"scenario": name, "corner": c, "d": d, "n": n}
            bad = None if name.startswith("randomcov") else is_truth(truth, p)
            rec.check(bad is None, "the truth of a scenario is no covariance", why=bad, how=how)
            if not rec.check(np.shape(test) == (nt, p) and np.shape(train)[1:] == (p,), "the shapes of a scenario", got=(np.shape(train), np.shape(test)), how=how):
                continue
            if nt % (4 * p) == 0:
                m, M = moments(test)
                rec.check(S.close(M, truth, 1e-8) and np.abs(m).max() < 1e-8, "test rows do not have the scenario's truth", got=M, want=truth, how=how)
            else:
                rec.skip("the design is not complete")
            if name == "high_dim_low_n":
                rec.check(len(train) < 2 * p, "the high-dimensional scenario has many rows", got=np.shape(train))
                continue
            rec.check(len(train) == n, "the number of training rows", got=len(train), how=how)
            if name == "contaminated":
                w = np.einsum("ij,ij->i", train, np.linalg.solve(truth, train.T).T)
                clean = np.abs(w - p) < 1e-6 * p
                rec.check(0 < (~clean).sum() < 0.15 * n, "contaminated rows", got=int((~clean).sum()), how=how)
                continue
            part = train[n // 2:] if name == "regime_change" else train
            if len(part) % (4 * p if name == "heavy_tailed" else 2 * p) == 0:
                rec.check(S.close(moments(part)[1], truth, 1e-8), "training rows do not have the scenario's truth", how=how)
            else:
                rec.skip("the design is not complete")
            if name == "regime_change":
                rec.check(not S.close(moments(train[:n // 2])[1], truth, 0.05), "the regime does not change", how=how)
        rec.trace()


class Recorder:
    """The real generator, with its multivariate normal draws recorded."""

    def __init__(self, seed, log):
        self._g = REAL(seed)
        self._log = log

    def __getattr__(self, name):
        return getattr(self._g, name)

    def multivariate_normal(self, mean, cov, size=None, **kw):
        X = self._g.multivariate_normal(mean, cov, size=size, **kw)
        self._log.append((np.array(cov), X))
        return X


REAL = np.random.default_rng


def kl(T, C):
    M = np.linalg.solve(C, T)
    return 0.5 * (np.trace(M) - len(T) - np.linalg.slogdet(M)[1])


def bulk_error(T, C, bulk):
    w, V = np.linalg.eigh(T)
    V = V[:, -bulk:]
    return np.linalg.norm(np.einsum("ij,jk,ki->i", V.T, C, V) - w[-bulk:])


def block_error(T, C, gs):
    """Error of the mean correlation within blocks (known up to the order of the variables)."""
    inside = (np.abs(T) > 0.1) & ~np.eye(len(T), dtype=bool)
    return abs(C[inside].mean() - T[inside].mean())


CELLS = {  # judge -> what a call of it is about
    "_kproj_loglik": lambda C, X, subs: len(subs[0]),
    "_schur_loglik": lambda C, X, block_id, gamma: gamma,
    "block_pseudo_loglik": lambda C, X, b: b,
}


def run_study(case, rec):
    """Every script of verdicts: power is the fraction of trials in which the truly better estimate scores higher.

    The same script for every judge, then each judge (metric and test size, dimension, block size, gamma) with
    every script of its own while the others find the pair tied."""
    mp, study, trials = mod("metric_power"), case["study"], case["trials"]
    gap_floor = 0.0
    for pass_ in ("all pairs", "gaps") if study in ("metric_power", "projection") else ("all pairs",):
        close = {"eps_good": 0.3, "eps_bad": 0.31} if case.get("close") and study in ("metric_power", "projection", "pseudo clean") else {}
        first = play(mp, study, trials, case["seed"], gap_floor, None, rec, close)
        if first is None:
            return
        powers, gap, cells, pairs = first
        if pass_ == "gaps" and not rec.check(0 < len(pairs) < trials, "pairs that are tied in truth were judged", got=len(pairs), study=study):
            return
        better = [q[0][1] for q in pairs]
        want_gap = float(np.mean([abs(q[0][0] - q[1][0]) for q in pairs]))
        for odd in [None] if case.get("close") else [None] + cells:
            for script in scripts(len(pairs), case.get("close")):
                got = play(mp, study, trials, case["seed"], gap_floor, (better, script, odd), rec, close)
                if got is None:
                    return
                rec.state()
                want = sum(v > 0 for v in script) / len(pairs)
                for cell in cells:
                    w = want if odd is None or cell == odd else 0.0
                    rec.check(abs(got[0][cell] - w) < 1e-12, "power is not the fraction of trials the truly better estimate wins",
                              study=study, script=script, judge=cell, scripted=odd, got=got[0], want=w)
                if got[1] is not None:
                    rec.check(abs(got[1] - want_gap) < 1e-6 * (1 + want_gap), "the reported gap is not the mean true gap", got=got[1],
                              want=want_gap, study=study)
                rec.trace()
        gaps = sorted(abs(q[0][0] - q[1][0]) for q in pairs)
        gap_floor = (gaps[0] + gaps[-1]) / 2  # the next pass leaves out the smaller ones
    rec.sample({"study": study, "judges": len(cells), "scripts": (1 + len(cells)) * 3 ** trials})


def scripts(n, close):
    """Every script; of many trials (pairs so close that an approximate order would differ) each single win."""
    if not close:
        return itertools.product((1, 0, -1), repeat=n)
    return [tuple(int(i == t) for i in range(n)) for t in range(n)] + [(1,) * n]


def play(mp, study, trials, seed, min_gap, script, rec, more):
    """One run of a study under scripted judges: (power by cell, gap, cells, the pairs judged), None when out of reach."""
    log, calls, cells = [], [], []
    err = {"schur": lambda T, C: block_error(T, C, 2), "proof": lambda T, C: bulk_error(T, C, 3),
           "pseudo noisy": lambda T, C: bulk_error(T, C, 3)}.get(study, kl)

    def judge(cell, C, X):
        t = len(log) - 1
        if t < 0:
            raise Unsupported("the study draws its rows another way")
        T, base = log[t]
        if not (X.shape[1] == base.shape[1] and np.array_equal(X, base[:len(X)])):
            rec.violate("an estimate is judged on rows that were not drawn from this trial's truth", study=study, trial=t)
        if cell not in cells:
            cells.append(cell)
        calls.append((t, err(T, C), np.array(C)))
        rec.trans()
        if script is None:
            return 0.0
        better, verdicts, odd = script
        if odd is not None and cell != odd:
            return 0.0
        return float(verdicts[t]) if np.array_equal(C, better[t]) else 0.0

    def make(s=None):
        return Recorder(s, log)

    watch = {}
    try:
        if study == "metric_power":
            keep = dict(mp.METRICS)
            mp.METRICS.clear()
            mp.METRICS["first"] = lambda C, X, dirs: judge(("first", len(X)), C, X)
            mp.METRICS["second"] = lambda C, X, dirs: judge(("second", len(X)), C, X)
            try:
                res, gap, _ = with_generator(make, lambda: mp.run(p=4, n_grid=(9, 5), trials=trials, seed=seed, n_dirs=2, min_gap=min_gap, **more))
            finally:
                mp.METRICS.clear()
                mp.METRICS.update(keep)
            powers = {(m, n): v for m, d in res.items() for n, v in d.items()}
        else:
            names = {"projection": ["_kproj_loglik"], "schur": ["_loglik", "_schur_loglik"],
                     "proof": ["_loglik", "_kproj_loglik", "_stein", "_frobenius"]}.get(study, ["_loglik", "block_pseudo_loglik", "_frobenius"])
            if not all(hasattr(mp, nm) for nm in names):
                raise Unsupported("the judges have other names")
            for nm in names:
                watch[nm] = getattr(mp, nm)
                key = CELLS.get(nm, lambda C, X: None)
                setattr(mp, nm, lambda C, X, *rest, nm=nm, key=key: judge((nm, key(C, X, *rest)), C, X))
            kw = {"n_test": 11, "trials": trials, "seed": seed, **more}
            f = {"projection": lambda: mp.projection_power(p=4, k_list=(1, 3, None), min_gap=min_gap, **kw),
                 "schur": lambda: mp.schur_power(p=9, g=3, gammas=(0.0, 0.5), **kw),
                 "proof": lambda: mp.proof_high_dim(p=6, bulk=3, k_list=(2, None), **kw),
                 "pseudo noisy": lambda: mp.pseudo_likelihood_power(regime="noisy_tail", block_sizes=(2, None), p=6, bulk=3, **kw),
                 "pseudo clean": lambda: mp.pseudo_likelihood_power(regime="clean", block_sizes=(2, None), p=5, bulk=3, **kw)}[study]
            res = with_generator(make, f)
            res, gap = res if isinstance(res, tuple) else (res, None)
            p = log[0][1].shape[1] if log else 0
            powers = {cell_of(k, p, study): v for k, v in res.items()}
    except Unsupported as e:
        rec.skip(str(e))
        return None
    finally:
        for nm, g in watch.items():
            setattr(mp, nm, g)
    if not log or set(cells) != set(powers):
        rec.skip("a judge or a draw is out of reach")
        return None
    if script is not None:
        return powers, gap, cells, None
    pairs = []
    for t in range(len(log)):
        distinct = []
        for _, e, C in (c for c in calls if c[0] == t):
            if not any(np.array_equal(C, D) for _, D in distinct):
                distinct.append((e, C))
        if not rec.check(len(distinct) == 2, "a trial does not judge one pair of estimates", study=study, got=len(distinct)):
            return None
        if study == "schur" and abs(distinct[0][0] - distinct[1][0]) < 0.05:
            rec.skip("errors too close after the projection")
            return None
        pairs.append(sorted(distinct, key=lambda d: d[0]))
    return powers, gap, cells, pairs


def cell_of(k, p, study):
    """The judge that a line of a study's result reports."""
    if study == "projection":
        return "_kproj_loglik", p if k is None else k
    for head, nm, kind in (("proj_k", "_kproj_loglik", int), ("pll_b", "block_pseudo_loglik", int), ("gamma_", "_schur_loglik", float)):
        if k.startswith(head):
            return nm, kind(k[len(head):])
    return {"stein": "_stein", "frobenius": "_frobenius"}.get(k, "_loglik"), None


def run_generate(case, rec):
    """Training data of the recommender: features of the training window, label by the best score on other rows."""
    try:
        tr = mod("train_recommender")
    except ImportError:
        rec.skip("scikit-learn is not installed")
        return
    import precise

    names = ["EmpiricalCovariance", "DiagonalCovariance", "OASCovariance"]  # never equal
    for order, shift in itertools.product(itertools.permutations(range(3)), (0.0, 10.0, 1.5)):
        rank = dict(zip(names, order))
        draws, judged = [], []

        def sample(cov, n, rng, heavy):
            X = REAL(len(draws)).standard_normal((n, len(cov)))
            draws.append((np.array(cov), X, heavy))
            return X

        class Judge:
            def score(self, cov, *, X_test=None, true_cov=None):
                judged.append((np.array(cov), X_test))
                train = [d[1] for d in draws[-2:] if d[1] is not X_test]
                for nm in names:
                    if len(train) == 1 and S.close(getattr(precise, nm)().fit(train[0]).covariance_, cov, 1e-9):
                        return float(rank[nm] + 0.01 * len(draws) - shift)
                rec.violate("an estimate is not the estimator fitted to the training window", order=order)
                return -1.0

        keep = {k: getattr(tr, k, None) for k in ("_sample", "GMVVariance", "all_estimators", "ENSEMBLES")}
        if any(v is None for v in keep.values()):
            rec.skip("the module has other parts")
            return
        try:
            tr._sample, tr.GMVVariance = sample, Judge
            tr.all_estimators = lambda: [getattr(precise, nm) for nm in names]
            tr.ENSEMBLES = {"light": (lambda p, rng: np.eye(p), False), "heavy": (lambda p, rng: 2 * np.eye(p), True)}
            X, y, got_names = tr.generate(n_problems=8, seed=case["seed"])
        finally:
            for k, v in keep.items():
                setattr(tr, k, v)
        rec.state()
        rec.trans(len(judged))
        best = max(rank, key=rank.get)
        rec.check(list(got_names) == names and len(draws) == 16 and len(X) == len(y) == 8, "the number of problems", got=(len(X), len(draws)))
        rec.check(all(v == best for v in y), "a problem is not labelled by the best score", got=list(y), want=best)
        used = set()
        for k in range(8):
            (ca, A, ha), (cb, B, hb) = draws[2 * k:2 * k + 2]
            rec.check(np.array_equal(ca, cb) and ha == hb == (ca[0, 0] == 2), "the two samples of a problem have different laws", problem=k)
            used.add(bool(ha))
            f = precise.covariance_features(A)
            rec.check(np.allclose(X[k], [float(f[q]) for q in tr.FEATURES], rtol=1e-9), "features are not those of the training window", problem=k,
                      got=X[k], want=[f[q] for q in tr.FEATURES])
        rec.check(used == {True, False}, "only some ensembles are used", got=used)
        rec.trace()
