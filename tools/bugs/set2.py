"""Second set of planted bugs: formulas of the estimators (C14-C20), helpers (C30)."""
BUGS = []


def bug(id, property, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **kw))


bug("c14-burn-round", "C14", [("precise/_state.py", "    return int(min(250, max(5, math.ceil(1.0 / r))))",
                               "    return int(min(250, max(5, round(1.0 / r))))")],
    "a rate whose reciprocal is not an integer and rounds down (for instance r=0.08), n = n_burn",
    "burn-in length is rounded instead of taken up", """
import numpy as np
from precise import EwaCovariance
X = np.random.default_rng(0).standard_normal((13, 2))
C = EwaCovariance(r=0.08).fit(X).covariance_       # ceil(12.5) = 13 rows are still plain averages
assert np.allclose(C, np.cov(X.T, bias=True))
""")

bug("c15-lw-abs-floor", "C15", [("precise/ledoitwolf.py",
    """        if d2 <= 0 or state.get("pi_bar", 0.0) <= 0:""",
    """        if d2 <= 1e-16 or state.get("pi_bar", 0.0) <= 0:""")],
    "small-valued data (daily returns in some units: variances around 1e-9)",
    "the shrinkage is switched off for small-valued data", """
import numpy as np
from precise import LedoitWolfCovariance
X = np.random.default_rng(0).standard_normal((40, 5))
a = LedoitWolfCovariance(r=0.05).fit(X).covariance_
b = LedoitWolfCovariance(r=0.05).fit(X * 2.0**-15).covariance_
assert np.allclose(a, b * 2.0**30, rtol=1e-9, atol=0)
""", also=["C12"])

bug("c15-oas-burn-n", "C15", [("precise/oas.py", """        n = max(1.0 / state["r"], 2.0)""",
    """        n = max(min(1.0 / state["r"], state["n_samples"]), 2.0)""")],
    "a read while fewer than 1/r rows have been seen",
    "the OAS intensity uses the number of rows instead of the effective sample size early on", """
import numpy as np
from precise import OASCovariance
X = np.random.default_rng(0).standard_normal((8, 3)) * [1, 2, 5]
S = np.cov(X.T, bias=True)
p, n = 3, 20.0
tr, tr2 = np.trace(S), np.trace(S @ S)
rho = min(1.0, ((1 - 2 / p) * tr2 + tr**2) / ((n + 1 - 2 / p) * (tr2 - tr**2 / p)))
assert np.allclose(OASCovariance(r=0.05).fit(X).covariance_, (1 - rho) * S + rho * tr / p * np.eye(p))
""")

bug("c15-shrunk-negative", "C15", [("precise/shrunk.py",
    """            rbar = float(np.mean(off)) if off.size else 0.0""",
    """            rbar = max(float(np.mean(off)), -1.0 / p) if off.size else 0.0  # keep the target definite""")],
    "a negative mean correlation below -1/p (e.g. two nearly opposite series)",
    "strongly negative mean correlations are truncated", """
import numpy as np
from precise import ShrunkCovariance
x = np.random.default_rng(0).standard_normal(30)
X = np.c_[x, -x + 0.1 * np.random.default_rng(1).standard_normal(30)]
e = ShrunkCovariance(r=0.03, delta=0.5).fit(X)     # with two variables the target is S itself
assert np.allclose(e.covariance_, np.cov(X.T, bias=True))
""")

bug("c16-adaptive-order", "C16", [("precise/adaptive.py",
    """        r_eff = min(max(base * sbar, base), s["max_r"])""",
    """        r_eff = max(min(base * sbar, s["max_r"]), base)""")],
    "max_r below r",
    "max_r no longer caps the base rate", """
import numpy as np
from precise import AdaptiveEwaCovariance
X = np.random.default_rng(0).standard_normal((20, 2))
a = AdaptiveEwaCovariance(r=0.5, max_r=0.1)
a.fit(X[:5])
m = a.location_
a.partial_fit(X[5])
assert np.allclose(a.location_, m + 0.1 * (X[5] - m))
""")

bug("c16-huber-mean", "C16", [("precise/huber.py", """            "mean": s["mean"] + r * weighted,""",
    """            "mean": (1 - r) * s["mean"] + r * (x if w > 0.02 else s["mean"] + weighted),""")],
    "an outlier between c and 50 c standard deviations after the burn-in",
    "moderate outliers move the mean with full weight", """
import numpy as np
from precise import HuberCovariance
X = np.random.default_rng(0).standard_normal((21, 2))
e = HuberCovariance(r=0.05).fit(X[:20])
m, x = e.location_, np.array([9.0, -9.0])
d2 = e.mahalanobis(x[None])[0]
w = min(1.0, np.sqrt(2.5**2 * 2 / d2))
e.partial_fit(x)
assert np.allclose(e.location_, m + 0.05 * w * (x - m))
""")

bug("c17-tyler-tiny", "C17", [("precise/tyler.py",
    """        if q > 0:  # a zero deviation has no direction to contribute""",
    """        if q > 1e-12:  # a zero deviation has no direction to contribute""")],
    "deviations below 1e-6 (small-valued data, or quiet stretches)",
    "tiny deviations are taken for zero and contribute no direction", """
import numpy as np
from precise import TylerCovariance
X = np.random.default_rng(0).standard_normal((30, 2)) @ [[1, 0.8], [0, 0.6]]
a = TylerCovariance().fit(X).covariance_
b = TylerCovariance().fit(X * 1e-7).covariance_
assert np.allclose(a, b)
""", also=["C12"])

bug("c17-pm-switch", "C17", [("precise/partialmoments.py",
    """            if count <= s["n_burn"]:
                quadrants[q] = prev""", """            if count < s["n_burn"]:
                quadrants[q] = prev""")],
    "a rate whose reciprocal is not the burn-in length (r > 0.2), at the last row of the burn-in",
    "the quadrants leave the burn-in one row before the mean", """
import numpy as np
from precise import PartialMomentsCovariance
X = np.random.default_rng(0).standard_normal((5, 2))
M, m = np.zeros((2, 2)), X[0]
for n, x in enumerate(X[1:], 2):
    d = x - m
    M, m = M + (np.outer(d, d) - M) / n, m + d / n
assert np.allclose(PartialMomentsCovariance(r=0.9).fit(X).covariance_, M)
""")

bug("c17-geo-zero", "C17", [("precise/geodesic.py",
    """        cov = geodesic_step(s["cov"], rank_one, r)""",
    """        cov = geodesic_step(s["cov"], rank_one, r) if delta.all() else (1 - r) * s["cov"] + r * rank_one""")],
    "an observation that equals the running mean exactly in some coordinate, after the burn-in",
    "a coordinate without deviation switches the update to the Euclidean average", """
import numpy as np
from precise import GeodesicEwaCovariance
from precise._linalg import geodesic_step
X = np.random.default_rng(0).standard_normal((20, 2))
X[:, 1] = np.tile([1.0, -1.0], 10)
e = GeodesicEwaCovariance(r=0.05).fit(X)
C = e.covariance_
e.partial_fit([1.0, 0.0])
d = np.array([1.0, 0.0]) - X.mean(0)
assert np.allclose(e.covariance_, geodesic_step(C, np.outer(d, d), 0.05))
""")

bug("c18-nburn-unclipped", "C18", [("precise/factor.py", """            "n_burn": k + 1,""",
                                    """            "n_burn": self.k + 1,""")],
    "k greater than the number of variables",
    "the burn-in follows the requested k instead of the usable one", """
import numpy as np
from precise import FactorCovariance
X = np.random.default_rng(0).standard_normal((20, 2))
assert np.allclose(FactorCovariance(k=9).fit(X).covariance_, FactorCovariance(k=2).fit(X).covariance_)
""")

bug("c18-deflate-updated", "C18", [("precise/factor.py",
    """            V[j] = (1 - lr) * V[j] + lr * proj * u
            u = u - proj * vhat""", """            V[j] = (1 - lr) * V[j] + lr * proj * u
            u = u - proj * vhat if proj >= 0 else u - float(u @ V[j]) / float(V[j] @ V[j]) * V[j]""")],
    "an observation with a negative projection on an earlier component and at least two components",
    "the residual is deflated by the updated direction for negative projections: flipping signs changes it", """
import numpy as np
from precise import FactorCovariance
def oracle(X, k, r):
    m, var, V = np.zeros(X.shape[1]), np.zeros(X.shape[1]), np.zeros((k, X.shape[1]))
    for n, x in enumerate(X, 1):
        d = x - m if n > 1 else 0 * x
        lr = 1 / n if n <= k + 1 else r
        m = m + lr * (x - m); var = var + lr * (d * d - var); u = d
        for j in range(k):
            s = np.linalg.norm(V[j])
            if s < 1e-12:
                V[j] = np.linalg.norm(u) * u
                break
            h = V[j] / s; a = u @ h
            V[j] = (1 - lr) * V[j] + lr * a * u
            u = u - a * h
    C = sum(np.outer(v, v) / np.linalg.norm(v) for v in V if np.linalg.norm(v) > 1e-12)
    return C + np.diag(np.maximum(var - np.diag(C), 0))
X = np.random.default_rng(0).standard_normal((40, 4))
assert np.allclose(FactorCovariance(k=2, r=0.1).fit(X).covariance_, oracle(X, 2, 0.1))
""")

bug("c19-dcc-burn", "C19", [("precise/dcc.py", """        s["n_burn"] = ewa_burn_n(min(s["r"], s["vol_r"]))""",
                             """        s["n_burn"] = ewa_burn_n(min(s["r"], self.vol_r or s["r"] * 1.0001))""")],
    "vol_r not given, between 1/r/1.0001 and 1/r rows: no effect; kept only if it manifests", "x", """
import numpy as np
""")
BUGS.pop()

bug("c19-dcc-warm-vol", "C19", [("precise/dcc.py", """            mean = (1 - rv) * s["mean"] + rv * x
            h = (1 - rv) * s["h"] + rv * (dev * dev)""", """            mean = (1 - rv) * s["mean"] + rv * x
            h = (1 - rv) * s["h"] + rv * np.minimum(dev * dev, 1e4 * s["h"])""")],
    "a jump of more than 100 standard deviations in one series after the burn-in",
    "the volatility recursion is truncated at very large jumps", """
import numpy as np
from precise import DCCCovariance
X = np.random.default_rng(0).standard_normal((20, 2))
e = DCCCovariance(r=0.05).fit(X)
h, m = np.diag(e.covariance_), e.location_
x = np.array([500.0, 0.0])
e.partial_fit(x)
assert np.allclose(np.diag(e.covariance_), 0.95 * h + 0.05 * (x - m) ** 2)
""")

bug("c19-cond-mean-after", "C19", [("precise/conditional.py",
    """            self._corr_model.partial_fit(eps)
            for i, vm in enumerate(models):
                vm.push(float(x[i]))
""", """            for i, vm in enumerate(models):
                vm.push(float(x[i]))
                if has_scale[i] and abs(eps[i]) > 8.0:  # an extreme residual: use the updated scale
                    eps[i] = (x[i] - m[i]) / np.sqrt(max(vm.variance, 1e-12))
            self._corr_model.partial_fit(eps)
""")],
    "an observation more than 8 forecast standard deviations from its forecast",
    "an extreme observation is standardized by the volatility that already includes it (look-ahead)", """
import numpy as np
from precise import ConditionalCovariance, EwaCovariance
X = np.random.default_rng(0).standard_normal((40, 2))
X[30, 0] = 30.0
e = ConditionalCovariance(EwaCovariance(0.1), EwaCovariance(0.1)).fit(X)
vols, corr = [EwaCovariance(0.1), EwaCovariance(0.1)], EwaCovariance(0.1)
for t, x in enumerate(X):
    z = np.zeros(2)
    for i, v in enumerate(vols):
        if v.n_samples_ > 1 and v.covariance_[0, 0] > 1e-12:
            z[i] = (x[i] - v.location_[0]) / np.sqrt(v.covariance_[0, 0])
    corr.partial_fit(z)
    for i, v in enumerate(vols):
        v.partial_fit(x[i:i + 1])
assert np.allclose(e.correlation_, corr.correlation_)
""")

bug("c19-skater-mean", "C19", [("precise/conditional.py", """        self._mean = float(d0.mean)
        self._var = float(d0.std) ** 2""", """        self._mean = float(d0.mean)
        self._var = float(d0.std) ** 2 if d0.std < 1e3 else self._var  # ignore uninformative forecasts""")],
    "a skater whose forecast standard deviation is 1000 or more",
    "very uncertain skater forecasts are ignored", """
import numpy as np
from precise import ConditionalCovariance, EwaCovariance, from_skater
class D:
    def __init__(self, m, s): self.mean, self.std = m, s
def f(y, state):
    return [D(y, 1500.0 + abs(y))], None
e = ConditionalCovariance(from_skater(f), EwaCovariance()).fit(np.random.default_rng(0).standard_normal((9, 2)))
assert (np.diag(e.covariance_) > 1500.0**2).all()
""")

bug("c20-block-id-uneven", "C20", [("precise/schur_ledoit_wolf.py",
    """        for bi, idx in enumerate(np.array_split(np.arange(p), nb)):
            block_id[idx] = bi
        return block_id[:, None] != block_id[None, :]""",
    """        block_id = np.arange(p) * nb // p  # contiguous blocks
        return block_id[:, None] != block_id[None, :]""")],
    "a number of variables that n_blocks does not divide (e.g. 5 variables, 2 blocks: 2+3 instead of 3+2)",
    "uneven blocks put the larger block last", """
import numpy as np
from precise import SchurLedoitWolfCovariance, EwaCovariance
X = np.random.default_rng(0).standard_normal((40, 5))
S = EwaCovariance(r=0.3).fit(X).covariance_
e = SchurLedoitWolfCovariance(r=0.3, n_blocks=2).fit(X)
C, g = e.covariance_, e.gamma_
assert g < 0.999 and np.isclose(C[0, 2], S[0, 2]) and np.isclose(C[0, 3], g * S[0, 3])
""")

bug("c20-schurcond-neff", "C20", [("precise/schur_conditional.py",
    """        return max(2.0, min(float(state["n_samples"]), (2.0 - r) / r))""",
    """        n = float(state["n_samples"])
        return max(2.0, n if n < state["n_burn"] else (2.0 - r) / r)""")],
    "more rows than the burn-in but fewer than (2-r)/r",
    "the effective sample size jumps to its asymptotic value at the end of the burn-in", """
import numpy as np
from precise import SchurConditionalCovariance
X = np.random.default_rng(0).standard_normal((22, 4)) + np.random.default_rng(1).standard_normal((22, 1))
e = SchurConditionalCovariance(r=0.05, n_blocks=2).fit(X)
e.covariance_
from precise import EwaCovariance
R = EwaCovariance(r=0.05).fit(X).correlation_
rij = np.r_[R[:2, 2:].ravel(), R[2:, :2].ravel()]
n = 22.0
g = np.clip(np.clip(rij**2 - (1 + rij**2) / n, 0, None).sum() / (rij**2).sum(), 0, 1)
assert abs(e.gamma_ - g) < 1e-9, (e.gamma_, g)
""")

bug("c20-schur-geodesic-p", "C20", [("precise/schurcov.py",
    """            return geodesic_step(make_pos_def(block_diag), make_pos_def(cov), self.gamma)""",
    """            if not cross.any() or self.gamma >= 0.99:
                return make_pos_def(cov)
            return geodesic_step(make_pos_def(block_diag), make_pos_def(cov), self.gamma)""")],
    "interpolation='geodesic' with gamma strictly between 0.99 and 1",
    "gamma close to one is treated as one", """
import numpy as np
from precise import SchurCovariance
from precise._linalg import geodesic_step
X = np.random.default_rng(0).standard_normal((30, 2)) @ [[1, 0.9], [0, 0.3]]
S = np.cov(X.T, bias=True)
C = SchurCovariance(r=0.03, n_blocks=2, gamma=0.995, interpolation="geodesic").fit(X).covariance_
assert np.allclose(C, geodesic_step(np.diag(np.diag(S)), S, 0.995), rtol=1e-6)
""")

bug("c20-block-precision", "C07", [("precise/block_covariance.py",
    """            out[a:b, a:b] = np.linalg.inv(self._pd_block(sub))
        return out""", """            out[a:b, a:b] = np.linalg.inv(self._pd_block(sub) + 1e-9 * np.eye(b - a))
        return out""")],
    "small-valued data (variances around 1e-8)",
    "the block-wise precision is no longer the inverse of covariance_ for small-valued data", """
import numpy as np
from precise import BlockCovariance
X = np.random.default_rng(0).standard_normal((60, 4)) * 1e-4
e = BlockCovariance(n_blocks=2).fit(X)
assert np.allclose(e.precision_ @ e.covariance_, np.eye(4), atol=1e-6)
""", also=["C20"])

bug("c30-nearest-complex", "C30", [("precise/_linalg.py", """        a3 += identity * (-mineig * k**2 + spacing)
        k += 1""", """        a3 += identity * (abs(mineig) * 10.0**k + 1e-10 * np.linalg.norm(a))
        k += 1""")],
    "a matrix whose projection is singular (at least one negative eigenvalue)",
    "the diagonal correction is far larger than rounding", """
import numpy as np
from precise._linalg import nearest_pos_def
Q, _ = np.linalg.qr(np.random.default_rng(0).standard_normal((4, 4)))
A = (Q * [3.0, 1.0, -2.0, -0.5]) @ Q.T
A = (A + A.T) / 2
B = nearest_pos_def(A)
P = (Q * [3.0, 1.0, 0.0, 0.0]) @ Q.T
assert np.abs(B - P).max() < 1e-11
""")

bug("c30-invert-shrink", "C30", [("precise/_linalg.py", """    try:
        return np.linalg.inv(a)
    except np.linalg.LinAlgError:
        try:
            return np.linalg.pinv(a)""", """    try:
        return np.linalg.inv(a)
    except np.linalg.LinAlgError:
        try:
            return np.linalg.pinv(a, rcond=1e-4)""")],
    "an exactly singular matrix whose other eigenvalues span more than four orders of magnitude",
    "the pseudo-inverse drops genuine directions", """
import numpy as np
from precise._linalg import try_invert
A = np.diag([1.0, 1e-5, 0.0])
assert np.allclose(try_invert(A), np.diag([1.0, 1e5, 0.0]))
""", also=["C07"])

bug("c30-geodesic-clip", "C30", [("precise/_linalg.py", """    evals_m = np.clip(evals_m, 0.0, None) ** gamma""",
    """    evals_m = np.clip(evals_m, 1e-6, 1e6) ** gamma""")],
    "matrices whose relative eigenvalues exceed 1e6",
    "the geodesic is truncated between very different matrices", """
import numpy as np
from precise._linalg import geodesic_step
assert np.allclose(geodesic_step(np.diag([1.0, 1.0]), np.diag([1e8, 1.0]), 0.5), np.diag([1e4, 1.0]))
""", also=["C17"])
