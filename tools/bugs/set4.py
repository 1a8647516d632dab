"""Fourth set of planted bugs: states, templates, units, restarts, registries."""
BUGS = []


def bug(id, property, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **kw))


SK = """
class D:
    def __init__(self, mean, std):
        self.mean, self.std = mean, std

def skater(y, state):
    n, m, v = state or (0, 0.0, 1.0)
    n += 1
    g = max(1.0 / n, 0.1)
    d = y - m
    m, v = m + g * d, (1 - g) * v + g * d * d
    return [D(m, v ** 0.5)], (n, m, v)
"""

bug("c02-skater-state", "C02", [("precise/conditional.py", """        self._mean = float(d0.mean)
        self._var = float(d0.std) ** 2

    @property""", """        self._mean = float(d0.mean)
        self._var = float(d0.std) ** 2

    def __getstate__(self) -> dict:
        return {**self.__dict__, "_state": None}  # the skater's own state may not be picklable

    @property""")],
    "ConditionalCovariance with a skater as volatility model, pickled or deep-copied in mid-stream",
    "a restored ConditionalCovariance restarts its skaters from nothing", SK + """
import copy
import numpy as np
from precise import ConditionalCovariance, from_skater
X = np.random.default_rng(0).standard_normal((40, 2))
a = ConditionalCovariance(vol=from_skater(skater)).partial_fit(X[:20])
b = copy.deepcopy(a)
a.partial_fit(X[20:])
b.partial_fit(X[20:])
assert np.allclose(a.covariance_, b.covariance_)
""")

bug("c03-cond-corr-kept", "C03", [("precise/conditional.py", """                self._corr_model = _clone(self.corr)
""", """                if self._corr_model is None or self._corr_model.n_features_in_ != d:
                    self._corr_model = _clone(self.corr)
""")],
    "fit on a ConditionalCovariance that has already seen data of the same width",
    "a refitted ConditionalCovariance keeps the correlation of the earlier data", """
import numpy as np
from precise import ConditionalCovariance
g = np.random.default_rng(0)
X = g.standard_normal((30, 2)); Y = X + g.standard_normal((30, 1)) * 4
a = ConditionalCovariance().partial_fit(Y)
a.fit(X)
b = ConditionalCovariance().fit(X)
assert np.allclose(a.covariance_, b.covariance_)
""")

bug("c05-template-used", "C05", [("precise/conditional.py", """            return _PreciseVar(_clone(v))
""", """            return _PreciseVar(v if v.n_samples_ == 0 and self._corr_model is None else _clone(v))
""")],
    "the volatility template is reused by its owner or by a second ConditionalCovariance",
    "the first series consumes the caller's own template", """
import numpy as np
from precise import ConditionalCovariance, EwaCovariance
t = EwaCovariance(r=0.1)
a = ConditionalCovariance(vol=t).partial_fit(np.random.default_rng(0).standard_normal((9, 3)))
assert t.n_samples_ == 0
""", also=["C08", "C27"])

bug("c09-block-inplace", "C09", [("precise/block_covariance.py", """        subs = []
        for sub, (a, b) in zip(s["subs"], s["slices"]):
            sub = {**sub, "mean": np.asarray(sub["mean"], dtype=float),
                   "cov": np.asarray(sub["cov"], dtype=float)}
            subs.append(ewa_update(sub, x[a:b]))
        return {**s, "n_samples": s["n_samples"] + 1, "subs": subs}""", """        subs = s["subs"]
        for i, (a, b) in enumerate(s["slices"]):
            sub = {**subs[i], "mean": np.asarray(subs[i]["mean"], dtype=float),
                   "cov": np.asarray(subs[i]["cov"], dtype=float)}
            subs[i] = ewa_update(sub, x[a:b])
        return {**s, "n_samples": s["n_samples"] + 1}""")],
    "an exception between the blocks of one update", "an interrupted update has advanced some blocks and not others", """
import numpy as np
import precise.block_covariance as B
X = np.random.default_rng(0).standard_normal((8, 6))
a = B.BlockCovariance(n_blocks=3).partial_fit(X)
before = a.covariance_.copy()
real, calls = B.ewa_update, [0]
def boom(s, x):
    calls[0] += 1
    if calls[0] == 2:
        raise KeyboardInterrupt
    return real(s, x)
B.ewa_update = boom
try:
    a.partial_fit(np.ones(6))
except KeyboardInterrupt:
    pass
assert np.allclose(a.covariance_, before)
""")

bug("c12-adaptive-ridge", "C12", [("precise/adaptive.py", """        maha2 = float(dev @ try_invert(s["cov"]) @ dev)
""", """        cov = np.asarray(s["cov"], dtype=float)
        maha2 = float(dev @ try_invert(cov + 1e-6 * np.eye(p)) @ dev)  # a ridge for collinear data
""")],
    "data of small magnitude (daily returns of a low-volatility asset)", "surprise depends on the units of the data", """
import numpy as np
from precise import AdaptiveEwaCovariance
X = np.random.default_rng(0).standard_normal((80, 3))
X[60:] *= 4
a = AdaptiveEwaCovariance().partial_fit(X).covariance_
b = AdaptiveEwaCovariance().partial_fit(X * 1e-3).covariance_ * 1e6
assert np.allclose(a, b, rtol=1e-4)
""", also=["C16"])

bug("c13-raw-moments", "C13", [("precise/_state.py", """    weighted_delta = (x - mean) / count
    cov = s["cov"] * (count - 1) / count + np.outer(delta_prev, weighted_delta)
""", """    second = s["cov"] + np.outer(s["mean"], s["mean"])
    second = second + (np.outer(x, x) - second) / count
    cov = second - np.outer(mean, mean)
""")],
    "data far from the origin (prices, timestamps)", "the covariance is E[xx'] - mm', which cancels catastrophically", """
import numpy as np
from precise import EmpiricalCovariance
X = np.random.default_rng(0).standard_normal((50, 2)) + 1e7
assert np.allclose(EmpiricalCovariance().fit(X).covariance_, np.cov(X.T, bias=True), rtol=1e-4)
""", also=["C14", "C12"])

bug("c26-dynamic-retired", "C26", [("precise/keyed.py", """        for ndx in [n for n, u in self.states.items() if u.staleness > self.max_staleness]:
            del self.states[ndx]
""", """        for ndx in [n for n, u in self.states.items() if u.staleness > self.max_staleness]:
            self._retired[ndx] = self.states.pop(ndx)
"""), ("precise/keyed.py", """        self.x: dict | None = None
        self._counter = 0
""", """        self.x: dict | None = None
        self._counter = 0
        self._retired: dict[int, _Universe] = {}  # for inspection
""")],
    "universes that go stale", "universes dropped for staleness are kept in memory for ever", """
import gc
from precise import DynamicUniverse
from precise.keyed import _Universe
d = DynamicUniverse(max_staleness=2)
for t in range(60):
    d.update({f"n{t // 5}": float(t), "m": 1.0})
gc.collect()
assert sum(isinstance(o, _Universe) for o in gc.get_objects()) <= 12
""")

bug("c27-name-prefix", "C27", [("precise/registry.py", """        if cls.__name__ == name:
            return cls""", """        if name and cls.__name__.startswith(name):
            return cls""")],
    "a name that is a prefix of a registered one", "unknown names are resolved by prefix instead of raising KeyError", """
from precise import estimator_from_name
for name in ("Schur", "Ewa", "E", "LedoitWolf"):
    try:
        estimator_from_name(name)
    except KeyError:
        continue
    raise SystemExit(1)
""")

bug("c19-dcc-nburn", "C19", [("precise/dcc.py", """ewa_burn_n(min(s["r"], s["vol_r"]))""", """ewa_burn_n(max(s["r"], s["vol_r"]))""")],
    "vol_r different from r, before the longer burn-in ends", "the burn-in follows the faster of the two rates", """
import numpy as np
from precise import DCCCovariance
X = np.random.default_rng(0).standard_normal((12, 2))
a = DCCCovariance(r=0.05, vol_r=0.5).partial_fit(X)
assert np.allclose(a.location_, X.mean(0))
""")

bug("c10-three-d", "C10", [("precise/_conventions.py", """    if arr.ndim == 2:
        return arr
""", """    if arr.ndim == 2 or (arr.ndim == 3 and arr.shape[1] == 1):
        return arr.reshape(len(arr), -1)  # (n, 1, p): one row per window
""")],
    "a 3-d array with a middle axis of length one", "3-d input is silently accepted", """
import numpy as np
from precise import EwaCovariance
try:
    EwaCovariance().partial_fit(np.zeros((5, 1, 3)))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""")

bug("c06-oas-flat", "C06", [("precise/oas.py", """        rho = 1.0 if den <= 0 else min(max(num / den, 0.0), 1.0)""",
                             """        rho = min(max(num / den, 0.0), 1.0) if den >= 0 else 1.0""")],
    "a running covariance proportional to the identity (one variable, or constant data)", "covariance_ becomes NaN", """
import numpy as np
from precise import OASCovariance
a = OASCovariance().partial_fit(np.ones((6, 3)))
assert np.isfinite(a.covariance_).all()
""", also=["C15"])

bug("c06-block-floor", "C06", [("precise/block_covariance.py", """            out[a:b, a:b] = self._pd_block(sub)
        return out

    @property""", """            cov = np.asarray(sub["cov"], dtype=float)
            out[a:b, a:b] = cov if b - a == 1 else self._pd_block(sub)  # a variance needs no projection
        return out

    @property""")],
    "blocks of one variable that has been constant", "the covariance of a constant single-variable block is exactly singular while precision_ is not its inverse", """
import numpy as np
from precise import BlockCovariance
X = np.random.default_rng(0).standard_normal((9, 3)); X[:, 1] = 2.0
a = BlockCovariance(n_blocks=3).partial_fit(X)
assert np.allclose(a.covariance_ @ a.precision_, np.eye(3))
""", also=["C07", "C20"])

bug("c07-block-prec-diff", "C07", [("precise/block_covariance.py", """            out[a:b, a:b] = np.linalg.inv(self._pd_block(sub))""",
    """            out[a:b, a:b] = np.linalg.inv(to_symmetric(np.asarray(sub["cov"], dtype=float)) + 1e-8 * np.eye(b - a))""")],
    "data of small magnitude", "precision_ of a BlockCovariance is that of a ridged covariance", """
import numpy as np
from precise import BlockCovariance
X = np.random.default_rng(0).standard_normal((40, 4)) * 1e-3
a = BlockCovariance(n_blocks=2).partial_fit(X)
assert np.allclose(a.covariance_ @ a.precision_, np.eye(4), atol=1e-6)
""")

bug("c22-newest-order", "C22", [("precise/keyed.py", """            fresh = _Universe(keys=x.keys(), factory=self._make)
""", """            fresh = _Universe(keys=sorted(x.keys(), key=str), factory=self._make)
""")],
    "an estimator whose result depends on the order of its variables (blocks), names not in sorted order",
    "the columns of a universe are sorted instead of in the order of the creating observation", """
import numpy as np
from precise import BlockCovariance, DynamicUniverse
g = np.random.default_rng(0)
d = DynamicUniverse(BlockCovariance(n_blocks=2))
for t in range(20):
    c = g.standard_normal()
    d.update({"d": c, "a": c + 0.1 * g.standard_normal(), "c": g.standard_normal(), "b": g.standard_normal()})
assert abs(d.covariance_["d"]["a"]) > 0.1
""")

bug("c21-first-seen-nan", "C21", [("precise/keyed.py", """            self._last = np.zeros(len(self.keys))
""", """            self._last = np.array([float(x.get(k, np.mean(list(x.values())))) for k in self.keys])
""")],
    "a key absent from the first observation (keys given in advance)", "a never-seen key is imputed by the mean of the first observation", """
from precise import FixedUniverse
f = FixedUniverse(keys=["a", "b"])
for t in range(6):
    f.update({"a": 1.0 + t})
assert f._est.location_[1] == 0.0
""")

bug("c23-keys-alias", "C21", [("precise/keyed.py", """            return cov, list(self.keys)
        idx""", """            return cov, self.keys
        idx""")],
    "the caller edits the list of names that cov_array returned", "the names returned are the adapter's own list", """
from precise import FixedUniverse
f = FixedUniverse()
for t in range(6):
    f.update({"a": 1.0 + t, "b": t * t * 1.0})
_, names = f.cov_array()
names.reverse()
assert list(f.covariance_) == ["a", "b"]
""", also=["C23", "C04", "C05"])

bug("c25-features-ddof", "C25", [("precise/recommend.py", """    corr = S / np.sqrt(np.outer(var, var))
""", """    corr = np.clip(S / np.sqrt(np.outer(var, var)), -1.0, 1.0) if n > p else S / np.sqrt(np.outer(var, var)) * (n / max(n - 1, 1))
""")],
    "fewer rows than columns", "the mean correlation of short windows is inflated by n/(n-1)", """
import numpy as np
from precise import covariance_features
X = np.random.default_rng(0).standard_normal((5, 8))
R = np.corrcoef(X.T)
assert np.isclose(covariance_features(X)["mean_abs_offdiag_corr"], np.abs(R[~np.eye(8, dtype=bool)]).mean())
""")

bug("c24-stein-bias", "C24", [("precise/assessment/assessors.py", """        S = np.cov(X_test, rowvar=False, bias=True)
        M = try_invert(cov) @ np.atleast_2d(S)""", """        S = np.cov(X_test, rowvar=False, bias=len(X_test) > 2 * len(cov))
        M = try_invert(cov) @ np.atleast_2d(S)""")],
    "no more than twice as many evaluation rows as variables", "short evaluation windows use the unbiased divisor", """
import numpy as np
from precise.assessment import SteinLoss
X = np.random.default_rng(0).standard_normal((4, 3))
S = np.cov(X.T, bias=True)
assert np.isclose(SteinLoss().score(np.eye(3), X_test=X), -(np.trace(S) - np.linalg.slogdet(S)[1] - 3))
""")

bug("c08-cond-shared-corr", "C08", [("precise/conditional.py", """                self._corr_model = _clone(self.corr)
""", """                self._corr_model = self.corr if self.corr.n_samples_ == 0 else _clone(self.corr)
""")],
    "two ConditionalCovariance instances built from one corr template, the second first used before any data has reached the first",
    "the corr template is consumed", """
import numpy as np
from precise import ConditionalCovariance, EwaCovariance
t = EwaCovariance(r=0.1)
a = ConditionalCovariance(corr=t).partial_fit(np.random.default_rng(0).standard_normal((9, 3)))
assert t.n_samples_ == 0
""", also=["C05", "C27", "C03"])

bug("c28-trial-failure", "C28", [("research/oos.py", """            scores[cls.__name__] = assessor.score(cls().fit(train).covariance_, X_test=test)
        except Exception:
            scores[cls.__name__] = -np.inf
    if""", """            scores[cls.__name__] = assessor.score(cls().fit(train).covariance_, X_test=test)
        except Exception:
            scores[cls.__name__] = 0.0
    if""")],
    "an estimator or assessor that fails on a trial", "a failing estimator is scored 0, the best possible score of a loss", """
import numpy as np
import research.oos as o
class A:
    n = 0
    def score(self, cov, X_test=None, true_cov=None):
        A.n += 1
        if A.n == 3:
            raise ValueError
        return -float(A.n)
s, _ = o._trial(o._equicorr, False, 4, 12, 8, np.random.default_rng(0), A(), recommender=lambda w: "EwaCovariance")
assert min(s.values()) == -np.inf
""")

bug("c28-ranks-inplace", "C28", [("research/oos.py", """    for held in names:
        train_ens = [e for e in names if e != held]
        predict""", """    for i, held in enumerate(names):
        train_ens = names[:i] + names[i + 1:] if i else list(names)
        predict""")],
    "the first family held out", "the first held-out family is part of its own training set", """
import research.oos as o
seen = []
o._train_recommender = lambda ens, *a: (seen.append(list(ens)), (lambda w: "EwaCovariance"))[1]
o.ENSEMBLES = {k: o.ENSEMBLES[k] for k in list(o.ENSEMBLES)[:3]}
o.leave_one_family_out_trained(p=4, n_train=10, n_test=10, trials=1, n_problems=1)
assert all(h not in e for h, e in zip(o.ENSEMBLES, seen)), seen
""")

bug("c16-huber-floor", "C16", [("precise/huber.py", None, None)], "", "", "")
BUGS.pop()
