"""Set 8: odd corners."""
BUGS = []


def B(id, property, edits, needs, what, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **k))


B("c19-skater-horizon", "C19",
  [("precise/conditional.py", "        d0 = dists[0]\n", "        d0 = dists[-1]\n")],
  "a skater that forecasts more than one step ahead", "the last horizon's forecast is used, not the next step's",
  """
import numpy as np
from types import SimpleNamespace as D
from precise import ConditionalCovariance, EwaCovariance, from_skater
def f(y, s):
    s = dict(s or {"v": 1.0})
    s["v"] = 0.9 * s["v"] + 0.1 * y * y
    return [D(mean=0.0, std=s["v"] ** 0.5), D(mean=5.0, std=10 * s["v"] ** 0.5)], s
e = ConditionalCovariance(vol=from_skater(f), corr=EwaCovariance(r=0.1)).fit(np.random.default_rng(0).standard_normal((50, 2)))
assert np.allclose(e.location_, 0.0) and e.covariance_[0, 0] < 10, (e.location_, e.covariance_)
""")

B("c19-skater-shared", "C19",
  [("precise/conditional.py", "        dists, self._state = self._f(float(y), self._state)\n", "        dists, state = self._f(float(y), self._state if self._state is not None else {})\n        self._state = state\n")],
  "a skater that tells its first call by state None", "it is started with an empty dict",
  """
import numpy as np
from types import SimpleNamespace as D
from precise import ConditionalCovariance, EwaCovariance, from_skater
def f(y, s):
    s = {"v": 1.0} if s is None else {"v": 0.9 * s.get("v", 50.0) + 0.1 * y * y}
    return [D(mean=0.0, std=s["v"] ** 0.5)], s
e = ConditionalCovariance(vol=from_skater(f), corr=EwaCovariance(r=0.1)).fit(np.random.default_rng(0).standard_normal((10, 2)))
assert e.covariance_[0, 0] < 5, e.covariance_
""")

B("c26-diag-dense", "C26",
  [("precise/diagonal.py", "            \"var\": np.zeros(n_dim),\n            \"r\"", "            \"var\": np.zeros(n_dim),\n            \"off\": np.zeros((n_dim, n_dim)),\n            \"r\""),
   ("precise/diagonal.py", "            \"var\": var,\n            \"r\": s[\"r\"],\n", "            \"var\": var,\n            \"off\": s[\"off\"],\n            \"r\": s[\"r\"],\n")],
  "many variables", "the state of the diagonal estimator is quadratic in their number",
  """
import numpy as np
from precise import DiagonalCovariance
e = DiagonalCovariance().fit(np.zeros((3, 300)))
assert sum(np.size(v) for v in e.get_state().values()) < 5000
""")

B("c08-registry-live", "C08",
  [("precise/registry.py", "    return list(_REGISTRY)\n", "    return _REGISTRY\n")],
  "a caller that edits the list all_estimators() gave it", "the registry itself is changed for everybody",
  """
from precise import all_estimators, estimator_names
n = len(estimator_names())
mine = all_estimators()
mine.reverse()
del mine[3:]
assert len(all_estimators()) == n and len(estimator_names()) == n
""")

B("c09-huber-inplace", "C09",
  [("precise/huber.py", "", "")], "", "", "")
BUGS.pop()

B("c06-dcc-floor", "C06",
  [("precise/dcc.py", "        q_inv = 1.0 / np.sqrt(np.maximum(np.diag(Q), 1e-12))\n", "        q_inv = 1.0 / np.sqrt(np.diag(Q))\n"),
   ("precise/dcc.py", "        eps = dev / np.sqrt(np.maximum(h, 1e-12))", "        eps = dev / np.sqrt(np.maximum(h, 1e-300))")],
  "a series that stays constant long enough (r=1) for its quasi-correlation to vanish", "the matrix becomes NaN",
  """
import numpy as np
from precise import DCCCovariance
X = np.random.default_rng(0).standard_normal((40, 2))
X[:, 1] = 3.0
C = DCCCovariance(r=1.0).fit(X).covariance_
assert np.isfinite(C).all(), C
""")

B("c22-fill-upper", "C22",
  [("precise/keyed.py", "        fill = np.nanmean(off_diag) if np.any(~np.isnan(off_diag)) else 0.0\n", "        fill = np.nanmedian(off_diag) if np.any(~np.isnan(off_diag)) else 0.0\n")],
  "three or more known pairs and an unknown one", "the median of the known entries fills the gap, not their mean",
  """
import numpy as np
from precise import DynamicUniverse, EmpiricalCovariance
d = DynamicUniverse(EmpiricalCovariance())
R = np.random.default_rng(0).standard_normal((30, 5)) @ np.random.default_rng(1).standard_normal((5, 5))
for x in R[:15]:
    d.learn_one(dict(zip("abcd", x)))
for x in R[15:]:
    d.learn_one(dict(zip("bcde", x)))
C, k = d.cov_array(list("abcde"))
known = [C[i, j] for i in range(5) for j in range(5) if i != j and {i, j} != {0, 4}]
assert abs(C[0, 4] - np.mean(known)) < 0.05 * np.std(known) or abs(C[0, 4] - np.median(known)) > abs(C[0, 4] - np.mean(known)), (C[0, 4], np.mean(known))
""")

B("c10-score-first", "C10",
  [("precise/recommend.py", "x", "x")], "", "", "")
BUGS.pop()

B("c03-set-none-width", "C03",
  [("precise/base.py", "        if state is None:\n            self._state = None\n            self.n_features_in_ = None\n            return self\n        restored = {}", "        if state is None:\n            self._state = None\n            return self\n        restored = {}")],
  "set_state(None) on a used estimator, then reading n_features_in_", "the width of the erased history stays",
  """
import numpy as np
from precise import EwaCovariance
e = EwaCovariance().fit(np.zeros((3, 4)))
e.set_state(None)
assert e.n_features_in_ is None, e.n_features_in_
""")

B("c28-annvol-each", "C28",
  [("research/oos_equity.py", "        return float(np.sqrt(252.0 * np.mean(v)))\n", "        return float(np.mean(np.sqrt(252.0 * np.asarray(v))))\n")],
  "windows whose realised variances differ", "volatilities are averaged, not variances",
  """
import numpy as np
from research.oos_equity import rolling_oos
R = np.random.default_rng(0).standard_normal((120, 3)) * np.r_[np.ones(81), np.full(39, 9.0)][:, None]
ew = rolling_oos(R, train_len=60, test_len=20, step=20)[3]
v = [np.mean(R[t:t + 20].mean(1) ** 2) for t in (60, 80, 100)]
assert abs(ew - np.sqrt(252 * np.mean(v))) < 1e-9 * ew, (ew, np.sqrt(252 * np.mean(v)))
""")

B("c25-heuristic-top", "C25",
  [("precise/recommend.py", "    return ranked[:top]", "    return ranked[: max(top, 1)]")],
  "suggest(X, top=0)", "one class is returned",
  """
import numpy as np
from precise import suggest
assert suggest(np.random.default_rng(0).standard_normal((60, 4)), top=0) == []
""")

B("c24-usable-truth", "C24",
  [("precise/assessment/base.py", "x", "x")], "", "", "")
BUGS.pop()

B("c30-affine-diag", "C30",
  [("precise/_linalg.py", "    mu = np.mean(np.diag(b))\n", "    mu = np.mean(np.diag(a))\n")],
  "affine_shrink with phi different from 1", "the mean of the unridged diagonal is shrunk to",
  """
import numpy as np
from precise._linalg import affine_shrink
a = np.diag([1.0, 3.0])
b = a * 1.5
assert np.allclose(affine_shrink(a, 1.5, 0.5), 0.5 * b + 0.5 * np.mean(np.diag(b)) * np.eye(2))
""")
