"""First set of planted bugs: histories of one estimator (C01-C12, C26, C27)."""
BUGS = []


def bug(id, property, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **kw))


bug("c01-int-rows-diff", "C01", [("precise/_conventions.py", """    arr = np.asarray(X, dtype=float)
    if arr.ndim == 1:""", """    arr = np.asarray(X)
    if arr.dtype != np.float32:  # keep single precision streams in single precision
        arr = arr.astype(float)
    if arr.ndim == 1:""")],
    "float32 input, diff=True (differences are then rounded to single precision)",
    "a float32 stream no longer equals the same values given as float64",
    """
import numpy as np
from precise import EwaCovariance
X = (1000.1 + 0.01 * np.random.default_rng(0).standard_normal((40, 3)).cumsum(axis=0)).astype(np.float32)
a = EwaCovariance(r=0.1, diff=True).partial_fit(X)
b = EwaCovariance(r=0.1, diff=True).partial_fit(X.astype(float))
assert np.allclose(a.covariance_, b.covariance_, rtol=1e-9, atol=0), "float32 stream differs"
""")

bug("c01-block-slices-by-param", "C03", [("precise/block_covariance.py", """    def _slices(self, n_dim: int) -> list[tuple[int, int]]:
        nb = min(max(1, self.n_blocks), n_dim)
        return [(int(idx[0]), int(idx[-1]) + 1) for idx in np.array_split(np.arange(n_dim), nb)]
""", """    def _slices(self, n_dim: int) -> list[tuple[int, int]]:
        nb = min(max(1, self.n_blocks), n_dim)
        cached = getattr(self, "_slice_cache", None)
        if cached is None or cached[0] != nb:
            sl = [(int(i[0]), int(i[-1]) + 1) for i in np.array_split(np.arange(n_dim), nb)]
            self._slice_cache = cached = (nb, sl)
        return cached[1]
""")],
    "fit on one width, then fit again on a larger width with the same number of blocks",
    "refitting on a wider data set keeps the old block layout: trailing variables are ignored",
    """
import numpy as np
from precise import BlockCovariance
rng = np.random.default_rng(0)
e = BlockCovariance(r=0.1, n_blocks=2).fit(rng.standard_normal((30, 4)))
X = rng.standard_normal((30, 6))
assert np.allclose(e.fit(X).covariance_, BlockCovariance(r=0.1, n_blocks=2).fit(X).covariance_)
""")

bug("c01-welford-fast-second", "C13", [("precise/_state.py", """    cov = s["cov"] * (count - 1) / count + np.outer(delta_prev, weighted_delta)
    return {"n_dim": s["n_dim"]""", """    moment = s["cov"] + np.outer(s["mean"], s["mean"])
    moment = moment * (count - 1) / count + np.outer(x, x) / count
    cov = moment - np.outer(mean, mean) if count > 4096 else (
        s["cov"] * (count - 1) / count + np.outer(delta_prev, weighted_delta))
    return {"n_dim": s["n_dim"]""")],
    "more than 4096 observations with a mean large compared with the spread",
    "long streams fall back to raw second moments, which cancel catastrophically",
    """
import numpy as np
from precise import EmpiricalCovariance
X = 1e6 + np.random.default_rng(0).standard_normal((4300, 2))
C = EmpiricalCovariance().fit(X).covariance_
assert np.allclose(C, np.cov(X.T, bias=True), rtol=1e-6, atol=1e-8), C
""")

bug("c02-state-drops-sbar", "C02", [("precise/base.py", """        for k, v in state.items():
            restored[k] = np.array(v, dtype=float) if isinstance(v, list) else v
""", """        for k, v in state.items():
            restored[k] = np.array(v, dtype=float) if isinstance(v, list) else v
        if int(restored.get("n_samples", 0)) < int(restored.get("n_burn", 0)):
            # still warming up: the smoothed signals have not started
            for k in ("sbar", "pi_bar", "h"):
                if k in restored:
                    restored[k] = restored[k] * 0 + 1.0
""")],
    "restoring a DCC (volatilities) or LedoitWolf state inside the burn-in",
    "a checkpoint taken during the burn-in loses the running volatilities / dispersion",
    """
import json
import numpy as np
from precise import DCCCovariance
X = 3 * np.random.default_rng(0).standard_normal((30, 3))
a = DCCCovariance(r=0.1).partial_fit(X[:6])
b = DCCCovariance(r=0.1).set_state(json.loads(json.dumps(a.get_state())))
assert np.allclose(a.partial_fit(X[6:]).covariance_, b.partial_fit(X[6:]).covariance_)
""")

bug("c02-block-shares-cov", "C02", [("precise/block_covariance.py", """            "block_covs": [np.asarray(sub["cov"], dtype=float).tolist() for sub in s["subs"]],
""", """            "block_covs": [np.round(np.asarray(sub["cov"], dtype=float), 12).tolist()
                           for sub in s["subs"]],
""")],
    "data of small magnitude (covariances near 1e-12) saved and restored",
    "BlockCovariance checkpoints are rounded to 12 decimals, which erases small-scale covariances",
    """
import numpy as np
from precise import BlockCovariance
X = 1e-5 * np.random.default_rng(0).standard_normal((60, 4))
a = BlockCovariance(r=0.1, n_blocks=2).partial_fit(X)
b = BlockCovariance(r=0.1, n_blocks=2).set_state(a.get_state())
assert np.allclose(a.covariance_, b.covariance_, rtol=1e-9, atol=0)
""")

bug("c03-cov-cache-by-n", "C03", [("precise/ledoitwolf.py", """        S = np.asarray(state["cov"], dtype=float)
        p = state["n_dim"]
        mu = np.trace(S) / p
""", """        S = np.asarray(state["cov"], dtype=float)
        p = state["n_dim"]
        key = (state["n_samples"], p)
        if getattr(self, "_trace_key", None) != key:
            self._trace_key, self._trace = key, np.trace(S)
        mu = self._trace / p
""")],
    "read, then fit again on another data set with the same number of rows (and the same width), then read",
    "the cached trace of the previous fit is used: LedoitWolf shrinks to the wrong scale after a refit",
    """
import numpy as np
from precise import LedoitWolfCovariance
rng = np.random.default_rng(0)
A, B = rng.standard_normal((60, 3)), 5 * rng.standard_normal((60, 3))
e = LedoitWolfCovariance(r=0.1).fit(A)
e.covariance_
assert np.allclose(e.fit(B).covariance_, LedoitWolfCovariance(r=0.1).fit(B).covariance_)
""")

bug("c04-cov-view", "C04", [("precise/_linalg.py", """def to_symmetric(a: np.ndarray) -> np.ndarray:
    return (a + a.T) / 2.0
""", """def to_symmetric(a: np.ndarray) -> np.ndarray:
    if a.shape[0] == 1:  # nothing to average
        return a
    return (a + a.T) / 2.0
""")],
    "one variable only; the caller modifies the matrix it was given",
    "with a single variable covariance_ is the internal state itself, so editing the result edits the estimator",
    """
import numpy as np
from precise import EwaCovariance
e = EwaCovariance(r=0.1).partial_fit(np.random.default_rng(0).standard_normal((40, 1)))
before = float(e.covariance_[0, 0])
C = e.covariance_
C *= 100.0
assert float(e.covariance_[0, 0]) == before
""")

bug("c04-dcc-floor-inplace", "C04", [("precise/dcc.py", """        d = np.sqrt(np.maximum(h, 1e-12))
        return R * np.outer(d, d)  # H = D R D""", """        np.maximum(h, 1e-8, out=h)  # keep the volatilities away from zero
        d = np.sqrt(h)
        return R * np.outer(d, d)  # H = D R D""")],
    "reading the covariance while some series has variance below 1e-8, then continuing",
    "a read writes the floored volatilities back into the state, so reading changes later estimates",
    """
import numpy as np
from precise import DCCCovariance
X = 1e-5 * np.random.default_rng(0).standard_normal((40, 2))
a, b = DCCCovariance(r=0.1), DCCCovariance(r=0.1)
for x in X[:20]:
    a.partial_fit(x); b.partial_fit(x)
    a.covariance_
a.partial_fit(X[20:]); b.partial_fit(X[20:])
assert np.array_equal(a._state["h"], b._state["h"])
""")

bug("c05-schur-score-inplace", "C05", [("precise/assessment/assessors.py", """            cov_gamma = cov.copy()
            cov_gamma[cross] *= self.gamma""", """            cov_gamma = cov if 0 < self.gamma < 1 else cov.copy()
            cov_gamma[cross] *= self.gamma""")],
    "scoring the same matrix twice, or using it after scoring, with the linear interpolation",
    "SchurLikelihood damps the caller's covariance matrix in place",
    """
import numpy as np
from precise.assessment import SchurLikelihood
C = np.array([[1.0, 0.5], [0.5, 1.0]])
SchurLikelihood(gamma=0.5, n_blocks=2).score(C, X_test=np.ones((3, 2)))
assert C[0, 1] == 0.5, C
""", also=["C24"])

bug("c05-mahalanobis-inplace", "C05", [("precise/base.py", """        centered = rows - self.location_
        return np.einsum("ij,jk,ik->i", centered, prec, centered)""", """        centered = rows
        if rows.shape[0] > 64:  # avoid a second large buffer
            centered -= self.location_
        else:
            centered = rows - self.location_
        return np.einsum("ij,jk,ik->i", centered, prec, centered)""")],
    "scoring more than 64 rows held in a float array",
    "score/mahalanobis of a large batch centre the caller's array in place",
    """
import numpy as np
from precise import EwaCovariance
rng = np.random.default_rng(0)
e = EwaCovariance().fit(rng.standard_normal((50, 2)) + 3)
X = rng.standard_normal((100, 2)); Y = X.copy()
e.mahalanobis(X)
assert np.array_equal(X, Y)
""")

bug("c05-fixed-keeps-keys", "C05", [("precise/keyed.py", """        self.keys: list[str] | None = list(keys) if keys is not None else None
        self.impute = impute""", """        self.keys: list[str] | None = keys if isinstance(keys, list) or keys is None else list(keys)
        self.impute = impute""")],
    "the caller edits (or reuses for a second adapter) the list of names it passed as keys=",
    "FixedUniverse keeps the caller's key list: sorting or extending it later relabels the universe",
    """
import numpy as np
from precise import FixedUniverse
names = ["b", "a"]
k = FixedUniverse(keys=names)
for t in range(10):
    k.learn_one({"a": float(t % 3), "b": 10.0 * (t % 4)})
before = k.get_cov(["a", "b"])
names.sort()
assert np.allclose(k.get_cov(["a", "b"]), before)
""", also=["C21"])

bug("c06-factor-resid", "C06", [("precise/factor.py", """        resid = np.maximum(np.asarray(state["var"], dtype=float) - captured, 0.0)
        return factor + np.diag(resid)""", """        resid = np.asarray(state["var"], dtype=float) - captured
        if state["n_samples"] <= state["n_burn"]:
            resid = np.maximum(resid, 0.0)  # the start-up components overshoot
        return factor + np.diag(resid)""")],
    "after the warm-up, components that capture more than the tracked variance of some coordinate",
    "FactorCovariance returns an indefinite matrix when a component overshoots after the warm-up",
    """
import numpy as np
from precise import FactorCovariance
worst = 0.0
rng = np.random.default_rng(0)
for s in range(60):
    e = FactorCovariance(k=2, r=0.3)
    for x in rng.standard_normal((25, 4)) * np.array([1, 5, 1, 1]):
        e.partial_fit(x)
        worst = min(worst, np.linalg.eigvalsh(e.covariance_).min() / max(1e-9, np.trace(e.covariance_)))
assert worst > -1e-9, worst
""", also=["C18"])

bug("c06-adaptive-no-cap", "C16", [("precise/adaptive.py", """        r_eff = min(max(base * sbar, base), s["max_r"])""",
    """        r_eff = min(max(base * sbar, base), max(s["max_r"], base))""")],
    "max_r below the baseline rate r",
    "the cap max_r is ignored when it is smaller than r",
    """
import numpy as np
from precise import AdaptiveEwaCovariance
X = np.random.default_rng(0).standard_normal((40, 2))
a = AdaptiveEwaCovariance(r=0.3, max_r=0.1).partial_fit(X[:6])
m = a.location_
a.partial_fit(X[6])
assert np.allclose(a.location_, 0.9 * m + 0.1 * X[6])
""")

bug("c07-corr-floor", "C07", [("precise/base.py", """        return _linalg.cov_to_corrcoef(self.covariance_)""",
  """        cov = self.covariance_
        return _linalg.cov_to_corrcoef(cov + 1e-10 * np.eye(len(cov)))  # away from singularity""")],
    "a variable with a standard deviation below 1e-5 (but not zero)",
    "correlations of small-scale variables are deflated",
    """
import numpy as np
from precise import EwaCovariance
X = np.random.default_rng(0).standard_normal((60, 2)) @ np.array([[1.0, 0.9], [0.0, 0.4]])
a = EwaCovariance(r=0.1).fit(X).correlation_
b = EwaCovariance(r=0.1).fit(X * np.array([1.0, 1e-6])).correlation_
assert np.allclose(a, b, rtol=1e-6), (a, b)
""", also=["C12"])

bug("c07-score-p", "C07", [("precise/base.py", """        p = rows.shape[1]
        quad = self.mahalanobis(rows)""", """        p = np.linalg.matrix_rank(prec)  # dimensions actually estimated
        quad = self.mahalanobis(rows)""")],
    "variables on scales so different that the precision is numerically rank deficient",
    "the normalising constant of the log-likelihood counts too few dimensions",
    """
import numpy as np
from precise import EwaCovariance
rng = np.random.default_rng(0)
X = rng.standard_normal((60, 2)) * np.array([1e-4, 1e5])
e = EwaCovariance(r=0.1).fit(X)
Z = (X[:5] - e.location_)
C = e.covariance_
want = np.mean([-0.5 * np.linalg.slogdet(C)[1] - 0.5 * z @ np.linalg.solve(C, z) - np.log(2 * np.pi) for z in Z])
assert abs(e.score(X[:5]) - want) < 1e-6, (e.score(X[:5]), want)
""")

bug("c08-schur-mask-cache", "C08", [("precise/schur_ledoit_wolf.py", """    def _cross_mask(self, p: int) -> np.ndarray:
        nb = min(self.n_blocks, p)
        block_id = np.empty(p, dtype=int)
        for bi, idx in enumerate(np.array_split(np.arange(p), nb)):
            block_id[idx] = bi
        return block_id[:, None] != block_id[None, :]
""", """    _masks: dict = {}  # the partition depends on the width

    def _cross_mask(self, p: int) -> np.ndarray:
        if p not in self._masks:
            nb = min(self.n_blocks, p)
            block_id = np.empty(p, dtype=int)
            for bi, idx in enumerate(np.array_split(np.arange(p), nb)):
                block_id[idx] = bi
            self._masks[p] = block_id[:, None] != block_id[None, :]
        return self._masks[p]
""")],
    "two SchurLedoitWolf estimators of the same width with different n_blocks in one process",
    "the second estimator uses the first one's blocks (class-level cache keyed by width only)",
    """
import numpy as np
from precise import SchurLedoitWolfCovariance
X = np.random.default_rng(0).standard_normal((60, 6)) + np.arange(60)[:, None] / 20
alone = SchurLedoitWolfCovariance(r=0.1, n_blocks=1).fit(X).covariance_
SchurLedoitWolfCovariance._masks = {} if hasattr(SchurLedoitWolfCovariance, "_masks") else None
SchurLedoitWolfCovariance(r=0.1, n_blocks=3).fit(X).covariance_
assert np.allclose(SchurLedoitWolfCovariance(r=0.1, n_blocks=1).fit(X).covariance_, alone)
""", also=["C20"])

bug("c08-scratch-buffer", "C08", [("precise/_state.py", """def ewa_burn_n(r: float)""", """_BUFFERS: dict = {}


def _scratch(n: int) -> np.ndarray:
    if n not in _BUFFERS:
        _BUFFERS[n] = np.empty((n, n))
    return _BUFFERS[n]


def ewa_burn_n(r: float)"""), ("precise/_state.py", """    cov = (1 - r) * s["cov"] + r * np.outer(delta, delta)
    return {""", """    scatter = _scratch(s["n_dim"])
    np.outer(delta, delta, out=scatter)
    cov = _blend(s["cov"], scatter, r)
    return {"""), ("precise/_state.py", """def ewa_update(s: dict""", """def _blend(cov: np.ndarray, scatter: np.ndarray, r: float) -> np.ndarray:
    return (1 - r) * cov + r * scatter


def ewa_update(s: dict""")],
    "two threads updating different estimators of the same width, switching between filling and using the buffer",
    "a module-level scratch buffer is shared by all estimators: concurrent updates mix their observations",
    """
import sys, threading
import numpy as np
from precise import EwaCovariance, _state
X, Y = np.random.default_rng(0).standard_normal((2, 12, 2)) * np.array([1.0, 100.0]).reshape(2, 1, 1)
ref = EwaCovariance(r=0.2).partial_fit(X).covariance_
other = EwaCovariance(r=0.2).partial_fit(Y[:11])
bad = []
for where in range(400):                 # switch to the other thread at the where-th executed line
    est, count, done = EwaCovariance(r=0.2).partial_fit(X[:11]), [0], [False]
    def run_other():
        other.partial_fit(Y[11])
    def trace(frame, event, arg):
        if "precise" not in frame.f_code.co_filename:
            return None
        if event == "line":
            count[0] += 1
            if count[0] == where:
                t = threading.Thread(target=run_other); t.start(); t.join(); done[0] = True
        return trace
    sys.settrace(trace); est.partial_fit(X[11]); sys.settrace(None)
    if not np.allclose(est.covariance_, ref):
        bad.append(where)
    if not done[0] and where > 5:
        break
assert not bad, bad
""")

bug("c09-lw-inplace", "C09", [("precise/ledoitwolf.py", """        return {
            "n_dim": p,
            "n_samples": s["n_samples"] + 1,
            "mean": (1 - r) * s["mean"] + r * x,
            "cov": (1 - r) * s["cov"] + r * scatter,
            "r": r,
            "n_burn": s["n_burn"],
            "pi_bar": (1 - r) * s["pi_bar"] + r * q,
        }""", """        s["pi_bar"] = (1 - r) * s["pi_bar"] + r * q
        s["cov"] = (1 - r) * s["cov"] + r * scatter
        return {**s, "n_samples": s["n_samples"] + 1, "mean": (1 - r) * s["mean"] + r * x}""")],
    "an interrupt between the assignments of an update after the burn-in, then continuing",
    "an interrupted LedoitWolf update leaves the covariance advanced but not the mean and count",
    """
import sys
import numpy as np
from precise import LedoitWolfCovariance
X = np.random.default_rng(0).standard_normal((14, 2))
ok = [LedoitWolfCovariance(r=0.2).partial_fit(X[:n]).covariance_ for n in (13, 14)]
class Stop(BaseException): pass
for where in range(1, 60):
    e, count = LedoitWolfCovariance(r=0.2).partial_fit(X[:13]), [0]
    def trace(frame, event, arg):
        if "precise" not in frame.f_code.co_filename: return None
        if event == "line":
            count[0] += 1
            if count[0] == where: raise Stop
        return trace
    try:
        sys.settrace(trace); e.partial_fit(X[13])
    except Stop:
        pass
    finally:
        sys.settrace(None)
    assert any(np.allclose(e.covariance_, c) for c in ok), where
    if e.n_samples_ == 13:
        e.partial_fit(X[13])
    assert np.allclose(e.covariance_, ok[1]), where
""")

bug("c10-zero-d", "C10", [("precise/_conventions.py", """    if arr.ndim == 1:
        return arr[np.newaxis, :]""", """    if arr.ndim <= 1:
        return np.atleast_2d(arr)""")],
    "a scalar given instead of a vector to an estimator of one variable (or an unfitted one)",
    "a bare number is silently accepted as an observation instead of raising",
    """
import numpy as np
from precise import EwaCovariance
e = EwaCovariance()
try:
    e.partial_fit(3.0)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""")

bug("c11-diff-block", "C11", [("precise/base.py", """        use_diff = getattr(self, "diff", False)
        rows = as_rows(X)
""", """        use_diff = getattr(self, "diff", False)
        rows = as_rows(X)
        if use_diff and len(rows) > 1 and not np.any(np.diff(rows, axis=0)):
            rows = rows[:1]  # repeated quotes carry no information
""")],
    "a batch of several identical rows with diff=True",
    "zero differences inside a batch of repeated rows are dropped (one at a time they are counted)",
    """
import numpy as np
from precise import EwaCovariance
X = np.vstack([np.random.default_rng(0).standard_normal((8, 2)), np.ones((3, 2))])
a = EwaCovariance(r=0.2, diff=True).partial_fit(X[:8]).partial_fit(X[8:])
b = EwaCovariance(r=0.2, diff=True)
for x in X:
    b.partial_fit(x)
assert a.n_samples_ == b.n_samples_ and np.allclose(a.covariance_, b.covariance_)
""", also=["C01"])

bug("c12-factor-norm", "C12", [("precise/factor.py", """            norm = np.linalg.norm(V[j])
            if norm < 1e-12:""", """            norm = np.linalg.norm(V[j])
            if norm < 1e-6:""")],
    "data with standard deviations around 1e-3 (eigenvalues below 1e-6)",
    "components of small-scale data are treated as empty and re-seeded on every observation",
    """
import numpy as np
from precise import FactorCovariance
X = np.random.default_rng(0).standard_normal((60, 3))
a = FactorCovariance(k=1, r=0.1).fit(X).covariance_
b = FactorCovariance(k=1, r=0.1).fit(X * 2.0**-11).covariance_
assert np.allclose(a, b * 2.0**22, rtol=1e-8)
""", also=["C18"])

bug("c12-schurcond-clip", "C12", [("precise/schur_conditional.py", """            b = np.linalg.solve(Rcc_reg + 1e-10 * np.eye(pb - pa), Rck)   # robust (ridge) hedge""",
 """            jitter = 1e-10 * max(1.0, 1.0 / float(np.min(d)))             # keep the solve stable
            b = np.linalg.solve(Rcc_reg + jitter * np.eye(pb - pa), Rck)  # robust (ridge) hedge""")],
    "small-scale data (standard deviation 1e-5)",
    "the jitter of the conditional regression depends on the units of the data",
    """
import numpy as np
from precise import SchurConditionalCovariance
rng = np.random.default_rng(0)
X = rng.standard_normal((200, 4)) + rng.standard_normal((200, 1))
a = SchurConditionalCovariance(r=0.02, n_blocks=2).fit(X).covariance_
b = SchurConditionalCovariance(r=0.02, n_blocks=2).fit(X * 2.0**-12).covariance_
assert np.allclose(a, b * 2.0**24, rtol=1e-8)
""")

bug("c26-adaptive-window", "C26", [("precise/adaptive.py", """        r_eff = min(max(base * sbar, base), s["max_r"])
        return {""", """        r_eff = min(max(base * sbar, base), s["max_r"])
        self._surprises = [*getattr(self, "_surprises", [])[-4095:], ratio]  # for diagnostics
        return {""")],
    "a long stream (memory keeps growing for thousands of observations)",
    "AdaptiveEwa keeps a growing list of past surprises; each update copies it",
    """
import numpy as np
from precise import AdaptiveEwaCovariance
X = np.random.default_rng(0).standard_normal((400, 2))
e = AdaptiveEwaCovariance(r=0.2)
def size(o):
    if isinstance(o, dict): return sum(size(v) for v in o.values())
    if isinstance(o, (list, tuple)): return sum(size(v) for v in o)
    return getattr(o, "size", 1)
e.partial_fit(X[:50]); a = size(vars(e))
e.partial_fit(X[50:]); b = size(vars(e))
assert a == b, (a, b)
""")

bug("c27-set-params-none", "C27", [("precise/base.py", """        for key, value in params.items():
            setattr(self, key, value)""", """        for key, value in params.items():
            if value is not None:
                setattr(self, key, value)""")],
    "setting an optional parameter (DCC's vol_r) back to None",
    "set_params(vol_r=None) is ignored, so a set_params(**get_params()) round trip keeps the old value",
    """
from precise import DCCCovariance
e = DCCCovariance(vol_r=0.2).set_params(**DCCCovariance().get_params())
assert e.vol_r is None
""")

bug("c27-vol-r-zero", "C19", [("precise/dcc.py", """        s["n_burn"] = ewa_burn_n(min(s["r"], s["vol_r"]))""",
    """        s["n_burn"] = ewa_burn_n(s["r"])""")],
    "vol_r smaller than r: the burn-in must cover the slower of the two rates",
    "the burn-in of DCC ignores vol_r: slow volatilities start from too few observations",
    """
import numpy as np
from precise import DCCCovariance
e = DCCCovariance(r=0.2, vol_r=0.02)
X = np.random.default_rng(0).standard_normal((30, 2))
for x in X:
    e.partial_fit(x)
assert np.allclose(e.location_, X.mean(axis=0)), "still inside the burn-in of 50"
""")
