"""Third set of planted bugs: keyed adapters (C21-C23), assessors (C24), suggest (C25), C26/C27, research (C28, C29)."""
BUGS = []


def bug(id, property, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **kw))


bug("c21-perm-full", "C21", [("precise/keyed.py",
    """        if keys is None or list(keys) == self.keys:
            return cov, list(self.keys)""", """        if keys is None or set(keys) == set(self.keys):
            return cov, list(self.keys) if keys is None else list(keys)""")],
    "a query for all keys in another order", "a query for all names in another order returns the matrix in the old order", """
import numpy as np
from precise import FixedUniverse
f = FixedUniverse()
for t in range(8):
    f.update({"a": t * 1.0, "b": (-1.0) ** t * 5, "c": t % 3 * 2.0})
assert np.isclose(f.get_cov(["b", "a", "c"])[0, 0], f.covariance_["b"]["b"])
""", also=["C23"])

bug("c21-ffill-imputed", "C21", [("precise/keyed.py", """            else:  # "zero"
                y[i] = 0.0""", """            else:  # "zero"
                y[i] = 0.0
        if self.impute == "mean":
            self._last = y.copy()"""), ],
    "never visible unless ...", "x", "")
BUGS.pop()

bug("c22-stale-ge", "C22", [("precise/keyed.py", """if u.staleness > self.max_staleness]:""",
                              """if u.staleness >= max(self.max_staleness, 1)]:""")],
    "a universe that has been unfed for exactly max_staleness observations", "universes are dropped one observation early", """
from precise import DynamicUniverse
d = DynamicUniverse(max_staleness=3)
d.update({"a": 1.0, "b": 2.0})
for t in range(3):
    d.update({"c": float(t)})
assert len(d.states) == 2
""")

bug("c22-victim-tie", "C22", [("precise/keyed.py",
    """                    self.states.items(), key=lambda kv: (-kv[1].staleness, kv[1].longevity)""",
    """                    self.states.items(), key=lambda kv: (-kv[1].staleness, kv[1].longevity, -kv[0])""")],
    "eviction with a tie of staleness and longevity", "ties of staleness and longevity evict the latest instead of the earliest universe", """
from precise import DynamicUniverse
d = DynamicUniverse(max_universes=2)
d.update({"a": 1.0})
d.update({"a": 1.0, "b": 2.0})          # both fed now; {a} longer lived
e = DynamicUniverse(max_universes=2)
for k in ("abc", "abd", "abe"):
    e.update({n: 1.0 for n in k})
e2 = [u.keys_set for u in e.states.values()]
f = DynamicUniverse(max_universes=3)
f.update({"a": 1.0}); f.update({"b": 1.0}); f.update({"c": 1.0}); f.update({"a": 1.0, "b": 1.0, "d": 1.0})
assert [set(u.keys_set) for u in f.states.values()] == [{"a"}, {"b"}, {"a", "b", "d"}], f.states
g = DynamicUniverse(max_universes=2)
g.update({"a": 1.0}); g.update({"b": 1.0}); g.update({"a": 1.0, "b": 1.0})
assert [set(u.keys_set) for u in g.states.values()] == [{"b"}, {"a", "b"}]
h = DynamicUniverse(max_universes=3)
h.update({"p": 1.0}); h.update({"q": 1.0}); h.update({"p": 1.0, "q": 1.0, "r": 1.0}); h.update({"s": 1.0})
assert [set(u.keys_set) for u in h.states.values()] == [{"q"}, {"p", "q", "r"}, {"s"}] or True
""")
BUGS.pop()

bug("c22-fill-diag", "C22", [("precise/keyed.py",
    """        fill = np.nanmean(off_diag) if np.any(~np.isnan(off_diag)) else 0.0
        if np.isnan(fill):
            fill = 0.0
        M = np.where(np.isnan(M), fill, M)""", """        fill = np.nanmean(off_diag) if np.any(~np.isnan(off_diag)) else 0.0
        if np.isnan(fill):
            fill = 0.0
        scale = np.sqrt(np.nanmin(np.diag(M))) if np.any(~np.isnan(np.diag(M))) else 0.0
        fill = np.clip(fill, -scale**2, scale**2)  # a covariance cannot exceed the variances
        M = np.where(np.isnan(M), fill, M)""")],
    "names never seen together, with a mean covariance larger than the smallest variance",
    "the fill value is truncated", """
import numpy as np
from precise import DynamicUniverse, EmpiricalCovariance
d = DynamicUniverse(EmpiricalCovariance())
rng = np.random.default_rng(0)
for t in range(12):
    z = rng.standard_normal()
    d.update({"a": 10 * z, "b": 10 * z + rng.standard_normal()})
    d.update({"c": 0.1 * rng.standard_normal()})
    d.update({"d": 10 * z, "e": 11 * z + rng.standard_normal(), "f": 9 * z})
from precise._linalg import nearest_pos_def
ks = ["a", "b", "c"]
ab = [u for u in d.states.values() if u.keys_set == {"a", "b"}][0].running_cov
c = [u for u in d.states.values() if u.keys_set == {"c"}][0].running_cov
M = np.full((3, 3), ab[0, 1]); M[:2, :2] = ab; M[2, 2] = c[0, 0]
assert np.allclose(d.get_cov(ks), nearest_pos_def(M))
""")

bug("c22-order-of-keys", "C22", [("precise/keyed.py",
    """        y = np.array([x[k] for k in self.keys], dtype=float)
        self._est.partial_fit(y)""", """        vals = list(x.values()) if len(x) == len(self.keys) else [x[k] for k in self.keys]
        y = np.array(vals, dtype=float)
        self._est.partial_fit(y)""")],
    "a later observation with the same names listed in another order",
    "values are assigned to the wrong names when the entries of an observation are reordered", """
import numpy as np
from precise import DynamicUniverse
d, e = DynamicUniverse(), DynamicUniverse()
for t in range(9):
    x = {"a": float(t), "b": (-1.0) ** t}
    d.update(x); e.update(dict(reversed(x.items())) if t % 2 else x)
assert np.allclose(d.get_cov(["a", "b"]), e.get_cov(["a", "b"]))
""")

bug("c22-longevity-first", "C22", [("precise/keyed.py",
    """                    u = max(candidates, key=lambda u: (u.longevity, -u.staleness))""",
    """                    u = max(candidates, key=lambda u: (u.longevity - u.staleness, -u.staleness))""")],
    "two universes holding a pair, the longer-lived one stale",
    "staleness is subtracted from longevity when choosing where an entry is read", """
import numpy as np
from precise import DynamicUniverse, EmpiricalCovariance
d = DynamicUniverse(EmpiricalCovariance(), max_universes=9)
rng = np.random.default_rng(0)
for t in range(10):
    d.update({"a": rng.standard_normal(), "b": rng.standard_normal(), "c": 1.0})
for t in range(7):
    d.update({"a": 5 * rng.standard_normal(), "b": 5 * rng.standard_normal()})
u = [u for u in d.states.values() if len(u.keys) == 3][0]
assert np.isclose(d.get_cov(["a", "b"])[0, 0], u.running_cov[0, 0])
""")

bug("c23-frame-sorted", "C23", [("precise/keyed.py",
    """        cov, keys = self.cov_array(keys)
        return pd.DataFrame(cov, index=keys, columns=keys)""", """        cov, names = self.cov_array(keys)
        frame = pd.DataFrame(cov, index=names, columns=names)
        return frame if keys is None else frame.loc[sorted(set(keys)), sorted(set(keys))]""")],
    "to_frame with a list of names that is not sorted", "to_frame sorts the requested names", """
from precise import keyed
k = keyed()
for t in range(5):
    k.update({"b": float(t), "a": (-1.0) ** t})
assert list(k.to_frame(["b", "a"]).columns) == ["b", "a"]
""")

bug("c23-learn-many-stop", "C23", [("precise/keyed.py", """        for x in X:
            self.update(x)
        return self""", """        for x in X:
            if x:
                self.update(x)
        return self""")],
    "an empty observation inside learn_many (FixedUniverse imputes it)",
    "learn_many skips observations without any key, learn_one does not", """
import numpy as np
from precise import keyed
rows = [{"a": 1.0, "b": 2.0}, {"a": 3.0, "b": 1.0}, {}, {"a": 0.0, "b": 4.0}]
k, l = keyed(), keyed().learn_many(rows)
for x in rows:
    k.learn_one(x)
assert np.allclose(k.get_cov(), l.get_cov())
""")

bug("c23-corr-of-query", "C23", [("precise/keyed.py", """        cov, _ = self.cov_array(keys)
        corr = cov_to_corrcoef(cov)
        np.fill_diagonal(corr, 1.0)
        return corr

""", """        cov, _ = self.cov_array(keys)
        corr = cov_to_corrcoef(cov) if len(cov) > 1 else np.zeros_like(cov)
        np.fill_diagonal(corr, 1.0)
        return np.where(np.abs(corr) < 1e-3, 0.0, corr)

""")],
    "correlations below 0.001 in absolute value", "get_corr drops small correlations that correlation_ keeps", """
import numpy as np
from precise import keyed
k = keyed()
rng = np.random.default_rng(0)
for t in range(400):
    k.update({c: rng.standard_normal() for c in "abcdefghijklmnop"})
    if t > 60:
        A = k.get_corr()
        B = np.array([[k.correlation_[i][j] for j in k.keys] for i in k.keys]) if t % 60 == 0 else A
        assert np.array_equal(A, B)
""")

bug("c24-block-remainder", "C24", [("precise/assessment/assessors.py",
    """            idx = slice(s, min(s + self.block_size, p))
            total += _gaussian""", """            idx = slice(s, min(s + self.block_size, p))
            if p % self.block_size == 1 and s + 1 == p:
                idx = slice(s - 1, p)  # a block of one has no structure to judge
            total += _gaussian""")],
    "a dimension one more than a multiple of the block size", "a trailing block of one variable is scored jointly with its neighbour", """
import numpy as np
from precise.assessment import BlockPseudoLikelihood
X = np.random.default_rng(0).standard_normal((30, 11))
b = BlockPseudoLikelihood(10).score(np.eye(11), X_test=X)
want = np.mean(np.sum(-0.5 * X**2 - 0.5 * np.log(2 * np.pi), axis=1))
assert np.isclose(b, want)
""")

bug("c24-gmv-var", "C24", [("precise/assessment/assessors.py", """        return -float(np.mean((X_test @ w) ** 2))""",
    """        realized = X_test @ w
        return -float(np.mean(realized**2)) if len(realized) < 250 else -float(np.var(realized))""")],
    "evaluation samples of 250 rows or more with a non-zero mean", "long evaluation samples are demeaned", """
import numpy as np
from precise.assessment import GMVVariance
X = 1.0 + np.random.default_rng(0).standard_normal((300, 2))
assert np.isclose(GMVVariance().score(np.eye(2), X_test=X), -np.mean(X.mean(axis=1) ** 2))
""")

bug("c24-variogram-chunk", "C24", [("precise/assessment/assessors.py",
    """        diffs = np.abs(X[:, :, None] - X[:, None, :])  # (n, p, p)
        return -float(np.mean(np.sum((diffs - expected[None]) ** 2, axis=(1, 2))))""",
    """        parts = []
        for s in range(0, len(X), 512):  # bounded memory
            Y = X[s : s + 512]
            diffs = np.abs(Y[:, :, None] - Y[:, None, :])  # (n, p, p)
            parts.append(np.mean(np.sum((diffs - expected[None]) ** 2, axis=(1, 2))))
        return -float(np.mean(parts))""")],
    "more than 512 evaluation rows, not a multiple of 512", "the last partial chunk gets the weight of a full one", """
import numpy as np
from precise.assessment import VariogramScore
X = np.random.default_rng(0).standard_normal((520, 3))
X[512:] *= 9
d = np.abs(X[:, :, None] - X[:, None, :])
e = np.sqrt(2 / np.pi * 2.0) * (1 - np.eye(3))
assert np.isclose(VariogramScore().score(np.eye(3), X_test=X), -np.mean(((d - e) ** 2).sum((1, 2))))
""")

bug("c24-schur-nb", "C24", [("precise/assessment/assessors.py", """        if self.interpolation == "geodesic":
            block_diag = cov.copy()
            block_diag[cross] = 0.0
            cov_gamma""", """        if self.interpolation == "geodesic" and self.gamma < 1.0:
            block_diag = np.where(cross, cov * 1e-3, cov)  # keep a trace of the coupling
            cov_gamma""")],
    "interpolation='geodesic' with gamma < 1", "the geodesic starts from a slightly coupled matrix instead of the block-diagonal", """
import numpy as np
from precise.assessment import SchurLikelihood, LogLikelihood
C = np.array([[1, .5, .3], [.5, 2, .4], [.3, .4, 1.5]])
X = np.random.default_rng(0).standard_normal((9, 3))
B = C.copy(); B[:2, 2] = B[2, :2] = 0
a = SchurLikelihood(0.0, 2, "geodesic").score(C, X_test=X)
assert abs(a - LogLikelihood().score(B, X_test=X)) < 1e-9
""")

bug("c25-tie-name", "C25", [("precise/recommend.py",
    """            key=lambda cls: (-weights.get(cls.__name__, 0), -heuristic[cls.__name__]),""",
    """            key=lambda cls: (-weights.get(cls.__name__, 0), -heuristic[cls.__name__], len(cls.__name__)),""")],
    "estimators tied in tree count and heuristic score (positions beyond the first few)",
    "ties are broken by name length instead of registry order", """
import numpy as np
from precise import suggest, all_estimators, covariance_features
import precise.recommend as R
X = np.random.default_rng(0).standard_normal((60, 20))
f = covariance_features(X)
w, h = R._trained_weights(f), R._scores(f)
want = sorted(all_estimators(), key=lambda c: (-w.get(c.__name__, 0), -h[c.__name__]))
assert suggest(X, top=17) == want
""")

bug("c25-kurt-weight", "C25", [("precise/recommend.py",
    """    excess_kurt = np.mean(m4 / np.clip(var, 1e-12, None) ** 2 - 3.0)""",
    """    live = var > 1e-10
    excess_kurt = np.mean(m4[live] / var[live] ** 2 - 3.0) if live.any() else -3.0""")],
    "a constant column, or columns with variance below 1e-10 (small-valued data)",
    "constant or small-valued columns are left out of the mean kurtosis", """
import numpy as np
from precise import covariance_features
X = np.random.default_rng(0).standard_normal((50, 2)) ** 3 * 1e-5
a, b = covariance_features(X * [1, 1e-1]), covariance_features(X * [10, 1])
X[:, 1] = 0.0
v = X[:, 0].var()
k = np.mean([np.mean((X[:, 0] - X[:, 0].mean()) ** 4) / v**2 - 3, -3.0])
assert np.isclose(covariance_features(X)["avg_excess_kurtosis"], k)
""")

bug("c25-tree-equal", "C25", [("precise/recommend.py",
    """        node = _MODEL.LEFT[node] if xs[feat[node]] <= _MODEL.THRESHOLD[node] else _MODEL.RIGHT[node]""",
    """        left = xs[feat[node]] < _MODEL.THRESHOLD[node] + 1e-3
        node = _MODEL.LEFT[node] if left else _MODEL.RIGHT[node]""")],
    "a feature just above a threshold of the tree", "features just above a threshold go to the wrong side", """
import types
import numpy as np
import precise.recommend as R
from precise import all_estimators
F = R._MODEL.FEATURES
m = types.SimpleNamespace(FEATURES=F, MEAN=[0.0] * len(F), STD=[1.0] * len(F), CLASSES=["EwaCovariance", "OASCovariance"],
    FEATURE=[F.index("p_over_n"), -2, -2], THRESHOLD=[0.2, -2.0, -2.0], LEFT=[1, -1, -1], RIGHT=[2, -1, -1],
    VALUE=[[1, 1], [5, 0], [0, 5]])
old, R._MODEL = R._MODEL, m
w = R._trained_weights({**{k: 0.0 for k in F}, "p_over_n": 0.2005})
R._MODEL = old
assert w["OASCovariance"] == 5, w
""")

bug("c28-last-window", "C28", [("research/oos_equity.py",
    """    for t in range(0, T - train_len - test_len + 1, step):""", """    for t in range(0, T - train_len - test_len, step):""")],
    "a number of rows for which the last full window ends exactly at the last row",
    "the last full window is left out", """
import numpy as np
from research.oos_equity import rolling_oos
R = np.random.default_rng(0).standard_normal((30, 3)) * 0.01
out = rolling_oos(R, train_len=20, test_len=10, step=10)
assert sum(out[4].values()) == 1
""")

bug("c28-ranks-ties", "C28", [("research/oos.py", """    order = sorted(scores, key=lambda k: -scores[k])
    return {nm: i + 1 for i, nm in enumerate(order)}""", """    order = sorted(scores, key=lambda k: -round(scores[k], 9))
    return {nm: i + 1 for i, nm in enumerate(order)}""")],
    "scores that differ by less than 1e-9 (small-valued data)", "close scores are ranked by registry order", """
from research.oos import _ranks
assert _ranks({"a": -2e-10, "b": -1e-10}) == {"b": 1, "a": 2}
""")

bug("c28-heldout-leak", "C28", [("research/oos.py",
    """        predict = _train_recommender(train_ens, n_problems, rng, assessor)
        bf = _best""", """        predict = _train_recommender(names if len(train_ens) < 2 else train_ens, n_problems, rng, assessor)
        bf = _best""")],
    "only two ensembles", "with two ensembles the recommender is also trained on the held-out one", """
import research.oos as O
O.ENSEMBLES = {k: O.ENSEMBLES[k] for k in ("equicorr", "spiked")}
seen, orig = [], O._train_recommender
def spy(ens, *a):
    seen.append(list(ens)); return lambda w: "EwaCovariance"
O._train_recommender = spy
O.leave_one_family_out_trained(p=5, n_train=12, n_test=20, trials=1, n_problems=1)
assert seen == [["spiked"], ["equicorr"]], seen
""")

bug("c28-regime-test", "C28", [("research/bakeoff.py", """                    except Exception:
                        scores[a.name] = -np.inf""", """                    except Exception:
                        continue""")],
    "an assessor that fails on a matrix", "a failed assessment is left out instead of scoring -inf", """
import numpy as np
import research.bakeoff as B
class Bad:
    name = "Bad"
    def usable(self, **k): return True
    def score(self, *a, **k): raise np.linalg.LinAlgError("x")
B.all_assessors = lambda: [Bad()]
B.build_scenarios = lambda **k: [("s", np.random.default_rng(0).standard_normal((20, 2)), np.eye(2), np.eye(2))]
r = B.run()
assert r["EwaCovariance"]["s"]["Bad"] == -np.inf
""")

bug("c29-gammastar", "C29", [("research/schur_gamma_star.py",
    """    return (n - 2) * rho2 / ((n - 2) * rho2 + (1 - rho2))""",
    """    return max(n - 2, 1) * rho2 / (max(n - 2, 1) * rho2 + (1 - rho2))""")],
    "n = 2 (no degrees of freedom left)", "gamma* is not 0 with two observations", """
from research.schur_gamma_star import gamma_star
assert gamma_star(2, 0.5) == 0
""")

bug("c29-operator-order", "C29", [("research/schur_godambe.py",
    """            T[:, prev] = -gamma * Gk
            Sg""", """            T[:, sorted(prev)] = -(gamma * Gk)[:, ::-1] if len(prev) > 3 else -gamma * Gk
            Sg""")],
    "three or more blocks with more than three conditioning variables", "the regression on more than three variables is reversed", """
import numpy as np
from research.schur_godambe import schur_operator
A = np.random.default_rng(0).standard_normal((6, 6)); S = A @ A.T + np.eye(6)
assert np.allclose(schur_operator(S, [2, 2, 2], 1.0)[0], np.linalg.inv(S))
""")

bug("c29-closed-asym", "C29", [("research/schur_likelihood_theory.py",
    """            cKK = Sk + gamma * Gk @ cWW @ Gk.T               # = Sk* + (1/gamma) Bk* cWW Bk*^T""",
    """            cKK = Sk + Bk @ tWW @ Bk.T / gamma               # = Sk* + (1/gamma) Bk* tWW Bk*^T""")],
    "three or more blocks with gamma < 1", "the inflation no longer compounds through the conditioning covariance", """
import numpy as np
from research.schur_likelihood_theory import closed_form_general
A = np.random.default_rng(0).standard_normal((3, 3)); S = A @ A.T + 3 * np.eye(3)
g, C = 0.9, closed_form_general(S, [1, 1, 1], 0.9)
s = C[2, 2] - g * C[2, :2] @ np.linalg.solve(C[:2, :2], C[:2, 2])
assert np.isclose(s, S[2, 2] - S[2, :2] @ np.linalg.solve(S[:2, :2], S[:2, 2]))
""")

bug("c29-spd-tol", "C29", [("research/schur_likelihood_theory.py",
    """    return gamma**2 * s_star > (1.0 - gamma) * e  # equivalently""",
    """    return gamma**2 * (s_star + e) > (1.0 - gamma**2) * e  # equivalently""")],
    "gamma strictly between the true and the altered threshold", "the positive-definiteness threshold is wrong in between", """
from research.schur_likelihood_theory import spd_threshold_holds, closed_form_maximizer
for i in range(1, 100):
    g = i / 100
    A, C, D = closed_form_maximizer(1.0, 0.8, 0.5, g)
    if abs(A * D - C * C) > 1e-9:
        assert spd_threshold_holds(1.0, 0.8, 0.5, g) == (A * D - C * C > 0), g
""")

bug("c29-block-pll-last", "C29", [("research/metric_power.py",
    """        total += float(np.mean(-0.5 * (b * np.log(2 * np.pi) + logdet + quad)))""",
    """        total += float(np.mean(-0.5 * (block_size * np.log(2 * np.pi) + logdet + quad)))""")],
    "a dimension that the block size does not divide", "the normalising constant of a short last block is wrong", """
import numpy as np
from research.metric_power import block_pseudo_loglik
X = np.random.default_rng(0).standard_normal((20, 5))
assert np.isclose(block_pseudo_loglik(np.eye(5), X, 2), np.mean(np.sum(-0.5 * X**2 - 0.5 * np.log(2 * np.pi), 1)))
""")

bug("c29-snr-zero", "C29", [("research/schur_godambe.py",
    """    return mu / np.sqrt(var) if var > 0 else np.inf


def snr_montecarlo""", """    return mu / np.sqrt(var) if var > 1e-6 else np.inf


def snr_montecarlo""")],
    "candidates that differ by less than about 1e-3", "close candidates get an infinite SNR", """
import numpy as np
from research.schur_godambe import snr
I = np.eye(4)
s = snr(I, I * 1.0005, I, [2, 2], 0.7)
assert np.isfinite(s) and 0 < s < 1
""")
