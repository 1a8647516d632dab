"""Fifth set of planted bugs: containers, long streams, extreme residuals, copies, in-place reads."""
BUGS = []


def bug(id, property, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **kw))


bug("c01-frame-columns", "C01", [("precise/_conventions.py", """    arr = np.asarray(X, dtype=float)
    if arr.ndim == 1:""", """    if hasattr(X, "columns"):  # frames of different origin may order their columns differently
        X = X[sorted(X.columns)]
    arr = np.asarray(X, dtype=float)
    if arr.ndim == 1:""")],
    "rows handed to partial_fit as a DataFrame whose columns are not in alphabetical order",
    "the columns of a DataFrame are silently reordered by partial_fit (and not by fit)", """
import numpy as np, pandas as pd
from precise import EwaCovariance
X = np.random.default_rng(0).standard_normal((20, 3)) * [1, 2, 3]
a = EwaCovariance().partial_fit(pd.DataFrame(X, columns=["z", "a", "m"]))
assert np.allclose(a.covariance_, EwaCovariance().partial_fit(X).covariance_)
""")

bug("c01-float32-kept", "C01", [("precise/_conventions.py", """    arr = np.asarray(X, dtype=float)
    if arr.ndim == 1:""", """    arr = np.asarray(X)
    if arr.dtype.kind != "f":
        arr = arr.astype(float)
    if arr.ndim == 1:""")],
    "diff=True with rows in single precision given to partial_fit",
    "first differences of single-precision rows are taken in single precision", """
import numpy as np
from precise import EwaCovariance
X = (1e4 + np.cumsum(np.random.default_rng(0).standard_normal((20, 2)), axis=0)).astype(np.float16)
a = EwaCovariance(diff=True).partial_fit(X)
b = EwaCovariance(diff=True).fit(X)
Y = (1.0 + np.random.default_rng(0).standard_normal((20, 2))).astype(np.float16)
c = EwaCovariance(diff=True).partial_fit(Y)
d = EwaCovariance(diff=True).fit(Y)
assert np.allclose(a.covariance_, b.covariance_, rtol=1e-10)
assert np.allclose(c.covariance_, d.covariance_, rtol=1e-10)
""")

bug("c13-gain-floor", "C13", [("precise/_state.py", """    mean = s["mean"] + delta_prev / count
    weighted_delta = (x - mean) / count
    cov = s["cov"] * (count - 1) / count + np.outer(delta_prev, weighted_delta)""",
"""    weight = min(count, 50_000)  # beyond this the increments are lost to rounding
    mean = s["mean"] + delta_prev / weight
    weighted_delta = (x - mean) / weight
    cov = s["cov"] * (weight - 1) / weight + np.outer(delta_prev, weighted_delta)""")],
    "an EmpiricalCovariance fed more than 50,000 rows",
    "the empirical estimator starts to forget after fifty thousand rows", """
import numpy as np
from precise import EmpiricalCovariance
X = np.random.default_rng(0).standard_normal((60_000, 1))
X[:10_000] += 3
e = EmpiricalCovariance().partial_fit(X)
assert np.allclose(e.covariance_, np.cov(X.T, bias=True), rtol=1e-8), e.covariance_
assert np.allclose(e.location_, X.mean(axis=0), rtol=1e-8)
""")

bug("c19-dcc-clip", "C19", [("precise/dcc.py", """        eps = dev / np.sqrt(np.maximum(h, 1e-12))  # standardized residual
""", """        eps = dev / np.sqrt(np.maximum(h, 1e-12))  # standardized residual
        eps = np.clip(eps, -8.0, 8.0)
""")],
    "a small decay rate and one observation many standard deviations out",
    "DCCCovariance truncates standardized residuals at eight", """
import numpy as np
from precise import DCCCovariance
X = np.random.default_rng(0).standard_normal((120, 2))
X[110] = [60.0, 2.0]
def ref(X, r):
    nb, h, Q, m = int(min(250, max(5, np.ceil(1 / r)))), np.ones(2), np.eye(2), np.zeros(2)
    for n, x in enumerate(X, 1):
        dev = x - m if n > 1 else np.zeros(2)
        g = 1 / n if n <= nb else r
        m = m + g * (x - m)
        h = h + g * (dev * dev - h)
        e = dev / np.sqrt(np.maximum(h, 1e-12))
        Q = Q + g * (np.outer(e, e) - Q)
    q = 1 / np.sqrt(np.diag(Q))
    return Q * np.outer(q, q) * np.outer(np.sqrt(h), np.sqrt(h))
assert np.allclose(DCCCovariance(r=0.01).fit(X).covariance_, ref(X, 0.01))
""")

bug("c19-cond-floor", "C19", [("precise/conditional.py", """            m = np.array([vm.mean for vm in models])
            v = np.array([vm.variance for vm in models])
""", """            m = np.array([vm.mean for vm in models])
            v = np.array([vm.variance for vm in models])
            v = np.maximum(v, 1e-6 * v.max())  # a series that is nearly still
""")],
    "series whose variances differ by more than six orders of magnitude",
    "the residuals of the smallest series are standardized by a floor set by the largest", """
import numpy as np
from precise import ConditionalCovariance
g = np.random.default_rng(0)
z = g.standard_normal((60, 1))
X = z + 0.3 * g.standard_normal((60, 2))
a = ConditionalCovariance().fit(X).correlation_
b = ConditionalCovariance().fit(X * [1.0, 1e5]).correlation_
assert np.allclose(a, b, atol=1e-9), (a, b)
""")

bug("c18-sorted", "C18", [("precise/factor.py", """            u = u - proj * vhat  # deflate so the next component finds the next direction
""", """            u = u - proj * vhat  # deflate so the next component finds the next direction
        V = V[np.argsort(-np.linalg.norm(V, axis=1), kind="stable")]  # leading direction first
""")],
    "two tracked directions whose strengths cross",
    "the factors of FactorCovariance are re-ordered, so that each is deflated by the wrong ones", """
import numpy as np
from precise import FactorCovariance
g = np.random.default_rng(0)
X = g.standard_normal((60, 3)) * [3.0, 1.0, 0.2]
X[25:] = g.standard_normal((35, 3)) * [0.2, 4.0, 1.0]
def ref(X, k, r):
    p = X.shape[1]; m = np.zeros(p); var = np.zeros(p); V = np.zeros((k, p))
    for n, x in enumerate(X, 1):
        dev = x - m if n > 1 else np.zeros(p)
        lr = 1 / n if n <= k + 1 else r
        m = m + lr * (x - m); var = var + lr * (dev * dev - var)
        u = dev.copy()
        for j in range(k):
            nrm = np.linalg.norm(V[j])
            if nrm < 1e-12:
                V[j] = np.linalg.norm(u) * u
                break
            h = V[j] / nrm; pr = u @ h
            V[j] = (1 - lr) * V[j] + lr * pr * u
            u = u - pr * h
    F = np.zeros((p, p))
    for v in V:
        nrm = np.linalg.norm(v)
        if nrm > 1e-12:
            F += np.outer(v, v) / nrm
    return F + np.diag(np.maximum(var - np.diag(F), 0))
assert np.allclose(FactorCovariance(k=2, r=0.1).fit(X).covariance_, ref(X, 2, 0.1))
""")

bug("c20-ridge-full", "C20", [("precise/schur_conditional.py", "n_eff, 0.0, 0.9))", "n_eff, 0.0, 1.0))")],
    "a conditioning block of at least 0.9 times the effective sample size",
    "the ridge of SchurConditionalCovariance removes the whole conditioning block's correlation", """
import numpy as np
from precise import SchurConditionalCovariance
g = np.random.default_rng(0)
X = g.standard_normal((8, 1)) + 0.4 * g.standard_normal((8, 12))
e = SchurConditionalCovariance(n_blocks=2).fit(X)
S = np.cov(X.T, bias=True); d = np.sqrt(np.diag(S)); R = S / np.outer(d, d)
n, h = 8, 6
c = R[:h, h:]
gamma = np.clip(c**2 - (1 + c**2) / n, 0, None).sum() / (c**2).sum()
ridge = min(h / n, 0.9)
assert ridge < 0.9
X = X[:6]; S = np.cov(X.T, bias=True); d = np.sqrt(np.diag(S)); R = S / np.outer(d, d)
n = 6; c = R[:h, h:]
gamma = np.clip(c**2 - (1 + c**2) / n, 0, None).sum() / (c**2).sum()
Rcc = R[:h, :h]
b = gamma * np.linalg.solve(0.1 * Rcc + 0.9 * np.eye(h) + 1e-10 * np.eye(h), c)
want = (b.T @ Rcc) * np.outer(d[h:], d[:h])
got = SchurConditionalCovariance(n_blocks=2).fit(X).covariance_[h:, :h]
assert np.allclose(got, want, atol=1e-5), abs(got - want).max()
""")

bug("c25-var-floor", "C25", [("precise/recommend.py", "    var = np.clip(np.diag(S), 1e-12, None)\n", "    var = np.clip(np.diag(S), 1e-9, None)\n")],
    "a variable whose variance lies between 1e-12 and 1e-9 (small units)",
    "correlations and kurtosis of small-valued columns are understated by covariance_features", """
import numpy as np
from precise.recommend import covariance_features
g = np.random.default_rng(0)
X = g.standard_normal((50, 1)) + 0.3 * g.standard_normal((50, 3))
a, b = covariance_features(X), covariance_features(X * 1e-5)
assert abs(a["mean_abs_offdiag_corr"] - b["mean_abs_offdiag_corr"]) < 1e-9
""")

bug("c25-top-capped", "C25", [("precise/recommend.py", "    return ranked[:top]\n", "    return ranked[: max(1, min(top, 10))]\n")],
    "suggest asked for none, or for more than ten, of the estimators",
    "suggest returns at least one and at most ten classes whatever top says", """
import numpy as np
from precise import suggest
from precise.registry import all_estimators
X = np.random.default_rng(0).standard_normal((30, 3))
assert suggest(X, top=0) == []
assert len(suggest(X, top=17)) == 17
assert set(suggest(X, top=100)) == set(all_estimators())
""")

bug("c26-score-history", "C26", [("precise/base.py", """        rows = as_rows(X)
        prec = self.precision_
        self._check_width(rows)
        centered = rows - self.location_
        return np.einsum("ij,jk,ik->i", centered, prec, centered)""", """        rows = as_rows(X)
        prec = self.precision_
        self._check_width(rows)
        centered = rows - self.location_
        quad = np.einsum("ij,jk,ik->i", centered, prec, centered)
        self._distances = [*getattr(self, "_distances", []), *quad]  # for a running calibration
        return quad""")],
    "mahalanobis or score called over and over on a long-lived estimator",
    "every distance ever computed is kept", """
import numpy as np, sys
from precise import EwaCovariance
X = np.random.default_rng(0).standard_normal((200, 2))
e = EwaCovariance().fit(X)
def size():
    seen, todo, tot = set(), [e.__dict__], 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o)); tot += sys.getsizeof(o)
        if isinstance(o, dict): todo += [*o.keys(), *o.values()]
        elif isinstance(o, (list, tuple)): todo += list(o)
    return tot
e.mahalanobis(X); a = size()
for _ in range(20): e.mahalanobis(X)
assert size() < a + 1000, (a, size())
""")

bug("c27-names-cached", "C27", [("precise/base.py", """        sig = inspect.signature(cls.__init__)
        return [p for p in sig.parameters if p != "self"]""", """        names = getattr(cls, "_params_", None)  # inspecting a signature is slow
        if names is None:
            names = cls._params_ = [p for p in inspect.signature(cls.__init__).parameters if p != "self"]
        return list(names)""")],
    "a user's subclass with a parameter of its own, used after its parent class was",
    "a subclass inherits the cached parameter names of its parent and loses its own parameters", """
from precise import EwaCovariance
EwaCovariance().get_params()
class Mine(EwaCovariance):
    def __init__(self, r=0.05, diff=False, extra=1):
        self.extra = extra
        super().__init__(r=r, diff=diff)
assert Mine(extra=3).get_params() == {"r": 0.05, "diff": False, "extra": 3}
""")

bug("c27-repr-digits", "C27", [("precise/base.py", """        params = ", ".join(f"{k}={getattr(self, k)!r}" for k in self._param_names())
        return f"{type(self).__name__}({params})\"""", """        def show(v):
            return f"{v:.6g}" if isinstance(v, float) else repr(v)

        params = ", ".join(f"{k}={show(getattr(self, k))}" for k in self._param_names())
        return f"{type(self).__name__}({params})\"""")],
    "a parameter with more than six significant digits",
    "the repr of an estimator no longer reproduces its parameters", """
import precise
from precise import EwaCovariance
e = EwaCovariance(r=1 / 3)
assert eval(repr(e), vars(precise)).get_params() == e.get_params()
""")

bug("c02-state-rounded", "C02", [("precise/base.py", """            k: (v.tolist() if isinstance(v, np.ndarray) else v)
            for k, v in self._state.items()""", """            k: (np.round(v, 15).tolist() if isinstance(v, np.ndarray) else v)
            for k, v in self._state.items()""")],
    "get_state on small-valued data (returns of an illiquid minute bar, say)",
    "a checkpoint keeps fifteen decimals, which is nothing for a covariance of small numbers", """
import numpy as np
from precise import EwaCovariance
X = np.random.default_rng(0).standard_normal((30, 2)) * 1e-7
a = EwaCovariance().fit(X)
b = EwaCovariance().set_state(a.get_state())
assert np.allclose(a.covariance_, b.covariance_, rtol=1e-9, atol=0)
""")

bug("c02-fixed-copy", "C02", [("precise/keyed.py", """    def __repr__(self) -> str:
        return f"FixedUniverse(""", """    def __deepcopy__(self, memo) -> FixedUniverse:
        twin = FixedUniverse.__new__(FixedUniverse)
        twin.__dict__.update(self.__dict__)
        twin._est = copy.deepcopy(self._est, memo)
        return twin

    def __repr__(self) -> str:
        return f"FixedUniverse("""), ("precise/keyed.py", "import numpy as np\n\nfrom precise._linalg", "import copy\n\nimport numpy as np\n\nfrom precise._linalg")],
    "a deep copy of a forward-filling FixedUniverse, with the original carried on and a key missing from the copy's next row",
    "a copy shares the last-seen values with the original", """
import copy
from precise import FixedUniverse
a = FixedUniverse()
for i in range(10):
    a.update({"x": float(i), "y": float(i * i)})
b = copy.deepcopy(a); c = copy.deepcopy(a)
a.update({"x": 1000.0, "y": 1000.0})
b.update({"x": 1.0})
d = FixedUniverse()
for i in range(10):
    d.update({"x": float(i), "y": float(i * i)})
d.update({"x": 1.0})
assert b.covariance_ == d.covariance_
""")

bug("c04-fixed-cache", "C04", [("precise/keyed.py", """        cov = self._est.covariance_
        if keys is None or list(keys) == self.keys:
            return cov, list(self.keys)""", """        n = self._est.n_samples_
        if getattr(self, "_cached", (None,))[0] != n:
            self._cached = (n, self._est.covariance_)
        cov = self._cached[1]
        if keys is None or list(keys) == self.keys:
            return cov, list(self.keys)""")],
    "writing into the matrix that cov_array returned, and reading again",
    "cov_array hands out the adapter's own cached matrix", """
from precise import FixedUniverse
a = FixedUniverse()
for i in range(10):
    a.update({"x": float(i), "y": float(i * i)})
m, _ = a.cov_array()
keep = m.copy()
m[:] = 0
assert (a.cov_array()[0] == keep).all()
""")

bug("c05-features-inplace", "C05", [("precise/recommend.py", """    centered = rows - rows.mean(axis=0)
""", """    centered = rows
    centered -= rows.mean(axis=0)
""")],
    "suggest called on a float64 array that the caller goes on using",
    "suggest centres the caller's data in place", """
import numpy as np
from precise import suggest
X = np.random.default_rng(0).standard_normal((30, 3)) + 5
Y = X.copy()
suggest(X)
assert (X == Y).all()
""")

bug("c07-score-logdet", "C07", [("precise/base.py", """        _, logdet = np.linalg.slogdet(prec)
        p = rows.shape[1]""", """        logdet = -np.linalg.slogdet(self.covariance_)[1]
        p = rows.shape[1]""")],
    "score under a singular covariance (fewer rows than variables), where the precision is a pseudo-inverse",
    "score is inconsistent with precision_ where the covariance is singular", """
import numpy as np
from precise import DiagonalCovariance
X = np.array([[1.0, 5.0], [2.0, 5.0], [4.0, 5.0]])
e = DiagonalCovariance().fit(X)
P = e.precision_
with np.errstate(all="ignore"):
    want = np.mean(0.5 * np.linalg.slogdet(P)[1] - 0.5 * e.mahalanobis(X) - np.log(2 * np.pi))
    got = e.score(X)
assert got == want or np.isclose(got, want), (got, want)
""")

bug("c11-unchanged-row", "C11", [("precise/base.py", """                x = x - self._prev_x
""", """                if np.array_equal(x, self._prev_x):
                    continue  # a repeated quote is not a new observation
                x = x - self._prev_x
""")],
    "diff=True with two consecutive rows that are equal",
    "a difference of zero is dropped", """
import numpy as np
from precise import EmpiricalCovariance
X = np.array([[1.0, 2.0], [2.0, 1.0], [2.0, 1.0], [5.0, 0.0]])
a = EmpiricalCovariance(diff=True).fit(X) if "diff" in EmpiricalCovariance().get_params() else None
if a is None:
    from precise import EwaCovariance
    a = EwaCovariance(diff=True).fit(X)
assert a.n_samples_ == 3
""")

bug("c10-fit-resets", "C10", [("precise/base.py", """        arr = np.asarray(X, dtype=float)
        if arr.ndim != 2:
            raise ValueError("fit expects a 2d array of shape (n_samples, n_features).")
        self._state = None
        self._prev_x = None
        self.n_features_in_ = None
        return self.partial_fit(arr)""", """        self._state = None
        self._prev_x = None
        self.n_features_in_ = None
        arr = np.asarray(X, dtype=float)
        if arr.ndim != 2:
            raise ValueError("fit expects a 2d array of shape (n_samples, n_features).")
        return self.partial_fit(arr)""")],
    "a rejected fit (a vector instead of a matrix) on an estimator that has an estimate",
    "a fit that raises loses the previous estimate", """
import numpy as np
from precise import EwaCovariance
e = EwaCovariance().fit(np.random.default_rng(0).standard_normal((10, 2)))
try:
    e.fit([1.0, 2.0])
except ValueError:
    pass
assert e.n_samples_ == 10
""")

bug("c22-empty-universe", "C22", [("precise/keyed.py", """        x_keys = set(x.keys())

        for universe""", """        x_keys = set(x.keys())
        if not any(u.keys_set & x_keys for u in self.states.values()):
            self.states.clear()  # nothing in common with what came before: a new world

        for universe""")],
    "an observation that shares no name with any universe held",
    "every universe is dropped when an observation has no name in common with them", """
from precise import DynamicUniverse
d = DynamicUniverse()
for i in range(10):
    d.update({"a": float(i), "b": float(i * i)})
v = d.get_cov(["a", "b"])
d.update({"c": 1.0, "e": 2.0})
assert (d.get_cov(["a", "b"]) == v).all()
""")

bug("c22-corr-shared", "C22", [("precise/keyed.py", """                    u = max(candidates, key=lambda u: (u.longevity, -u.staleness))
""", """                    u = max(candidates, key=lambda u: (min(u.longevity, 100), -u.staleness))
""")],
    "two universes that have both seen more than a hundred rows",
    "the longest-lived universe is no longer preferred once both are old", """
import numpy as np
from precise import DynamicUniverse, EmpiricalCovariance
d = DynamicUniverse(EmpiricalCovariance(), max_staleness=10_000)
g = np.random.default_rng(0)
for i in range(150):
    d.update({"a": g.standard_normal(), "b": g.standard_normal()})
for i in range(120):
    d.update({"b": 5 * g.standard_normal(), "c": g.standard_normal()})
long = [u for u in d.states.values() if u.keys_set == {"a", "b"}][0]
assert np.isclose(d.get_cov(["b"])[0, 0], long.running_cov[long.keys.index("b"), long.keys.index("b")], rtol=1e-3)
""")

bug("c30-corr-eps", "C30", [("precise/_linalg.py", """    return a / np.where(denominator == 0, EPS, denominator)""", """    return a / np.where(denominator < EPS, EPS, denominator)""")],
    "variables with a standard deviation product below 1e-12 (variances of micro-units)",
    "correlations of tiny-valued variables shrink to nothing", """
import numpy as np
from precise._linalg import cov_to_corrcoef
C = np.array([[2.0, 1.0], [1.0, 3.0]])
assert np.allclose(cov_to_corrcoef(C * 1e-14), cov_to_corrcoef(C))
""")

bug("c12-tyler-sumsq", "C12", [("precise/tyler.py", """        q = float(dev @ try_invert(C) @ dev)  # Mahalanobis under the current shape
        if q > 0:""", """        q = float(dev @ try_invert(C) @ dev)  # Mahalanobis under the current shape
        if q > 1e-16:""")],
    "data in very small units (values of the order of 1e-9)",
    "TylerCovariance ignores observations of small-valued data", """
import numpy as np
from precise import TylerCovariance
X = np.random.default_rng(0).standard_normal((30, 2))
X[:, 1] += X[:, 0]
assert np.allclose(TylerCovariance().fit(X).covariance_, TylerCovariance().fit(X * 1e-9).covariance_, atol=1e-6)
""")

bug("c15-shrunk-pairs", "C15", [("precise/shrunk.py", """            off = corr[~np.eye(p, dtype=bool)]
            rbar = float(np.mean(off)) if off.size else 0.0""", """            live = d > 0
            off = corr[np.ix_(live, live)][~np.eye(int(live.sum()), dtype=bool)]
            rbar = float(np.mean(off)) if off.size else 0.0""")],
    "a variable that has not moved among others that have",
    "the average correlation leaves out the pairs of a motionless variable", """
import numpy as np
from precise import ShrunkCovariance
X = np.random.default_rng(0).standard_normal((30, 3))
X[:, 1] += 2 * X[:, 0]
X[:, 2] = 0.0
S = ShrunkCovariance(delta=0.0).fit(X).covariance_
got = ShrunkCovariance(delta=1.0).fit(X).covariance_
d = np.sqrt(np.diag(S))
rbar = (S[0, 1] / d[0] / d[1]) / 3
assert np.isclose(got[0, 1], rbar * d[0] * d[1])
""")

bug("c06-tyler-unit", "C06", [("precise/dcc.py", """        q_inv = 1.0 / np.sqrt(np.maximum(np.diag(Q), 1e-12))
""", """        q_inv = 1.0 / np.sqrt(np.maximum(np.diag(Q), 1e-4))
""")],
    "a series whose quasi-correlation has decayed towards zero (motionless for a long time)",
    "the correlation of a long-motionless series is understated", """
import numpy as np
from precise import DCCCovariance
g = np.random.default_rng(0)
X = g.standard_normal((400, 2)); X[:, 1] += X[:, 0]
X[40:, 1] = 0.0
e = DCCCovariance(r=0.1, vol_r=0.5).fit(X[:40])
for x in np.zeros((200, 2)):
    e.partial_fit(x)
C = e.correlation_
cov = e.covariance_; d = np.sqrt(np.diag(cov))
s = e.get_state()
Q = np.array(s["Q"]); h = np.array(s["h"]); q = np.sqrt(np.maximum(np.diag(Q), 1e-12))
assert np.allclose(cov, Q / np.outer(q, q) * np.outer(np.sqrt(np.maximum(h, 1e-12)), np.sqrt(np.maximum(h, 1e-12))), rtol=1e-9)
""")

bug("c14-restart-gap", "C14", [("precise/_state.py", """    r = s["r"]
    delta = x - s["mean"]
    mean = (1 - r) * s["mean"] + r * x
    cov = (1 - r) * s["cov"] + r * np.outer(delta, delta)
    return {""", """    r = s["r"]
    delta = x - s["mean"]
    if not delta.any():
        return {**s, "n_samples": s["n_samples"] + 1}
    mean = (1 - r) * s["mean"] + r * x
    cov = (1 - r) * s["cov"] + r * np.outer(delta, delta)
    return {""")],
    "a row exactly equal to the running mean, after the burn-in (motionless data)",
    "the exponentially weighted covariance stops decaying while the data sits at its mean", """
import numpy as np
from precise import EwaCovariance
X = np.zeros((60, 2))
X[:20] = np.array([[1.0, 2.0], [-1.0, -2.0]] * 10)
e = EwaCovariance(r=0.05).fit(X[:20])
v = e.covariance_.copy()
e.partial_fit(np.zeros((40, 2)))
assert np.allclose(e.covariance_, v * 0.95**40)
""")

bug("c03-set-params-state", "C03", [("precise/base.py", """        self._state = None
        self._prev_x = None
        self.n_features_in_ = None
        return self.partial_fit(arr)""", """        self._state = None
        if self.n_features_in_ != arr.shape[1]:
            self._prev_x = None
        self.n_features_in_ = None
        return self.partial_fit(arr)""")],
    "diff=True and a second fit on data of the same width",
    "a second fit takes its first difference from the end of the earlier data", """
import numpy as np
from precise import EwaCovariance
g = np.random.default_rng(0)
X, Y = g.standard_normal((10, 2)), g.standard_normal((10, 2))
a = EwaCovariance(diff=True).fit(X).fit(Y)
assert a.n_samples_ == 9
""")
