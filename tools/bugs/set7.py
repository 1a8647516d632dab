"""Set 7: written from the statements alone, once more."""
BUGS = []


def B(id, property, edits, needs, what, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **k))


B("c23-learn-many-list", "C23",
  [("precise/keyed.py", "        for x in X:\n            self.update(x)\n        return self\n", "        rows = list(X)\n        for x in rows:\n            self.update(x)\n        return self\n")],
  "learn_many over a generator that reuses one dict", "every observation is the last one",
  """
from precise import keyed, EmpiricalCovariance
def feed():
    d = {}
    for a, b in [(1.0, 2.0), (3.0, -1.0), (0.5, 0.25), (2.0, 2.0)]:
        d["a"], d["b"] = a, b
        yield d
one, many = keyed(EmpiricalCovariance()), keyed(EmpiricalCovariance())
for x in feed():
    one.learn_one(dict(x))
many.learn_many(feed())
assert one.covariance_ == many.covariance_, (one.covariance_, many.covariance_)
""")

B("c23-learn-many-batch", "C23",
  [("precise/keyed.py", "        for x in X:\n            self.update(x)\n        return self\n", "        last = None\n        for x in X:\n            if x is not last:\n                self.update(x)\n            last = x\n        return self\n")],
  "a stream in which the same dict object comes twice in a row", "the second is taken for a repeat and dropped",
  """
from precise import keyed, EmpiricalCovariance
a, b = {"u": 1.0, "v": 2.0}, {"u": -1.0, "v": 0.5}
one, many = keyed(EmpiricalCovariance()), keyed(EmpiricalCovariance())
for x in (a, a, b):
    one.learn_one(x)
many.learn_many([a, a, b])
assert one.covariance_ == many.covariance_
""")

B("c14-diag-max-rate", "C14",
  [("precise/diagonal.py", "        if n <= s[\"n_burn\"]:\n            mean", "        if n <= s[\"n_burn\"] or n * s[\"r\"] < 1.0:\n            mean")],
  "r below 1/250: the burn-in is cut at 250 rows", "the running averages go on until 1/r rows",
  """
import numpy as np
from precise import DiagonalCovariance
X = np.random.default_rng(0).standard_normal((400, 2))
e = DiagonalCovariance(r=0.002).fit(X)
m = X[:250].mean(0)
for x in X[250:]:
    m = m + 0.002 * (x - m)
assert np.allclose(e.location_, m, rtol=1e-9), (e.location_, m)
""")

B("c07-pinv-cond", "C07",
  [("precise/_linalg.py", "    try:\n        return np.linalg.inv(a)\n    except", "    try:\n        if np.linalg.cond(a) > 1e8:\n            return np.linalg.pinv(a, rcond=1e-8, hermitian=True)\n        return np.linalg.inv(a)\n    except")],
  "two nearly collinear series (condition number above 1e8)", "the precision drops the small direction and mahalanobis with it",
  """
import numpy as np
from precise import EmpiricalCovariance
rng = np.random.default_rng(0)
x = rng.standard_normal(200)
X = np.c_[x, x + 1e-5 * rng.standard_normal(200), rng.standard_normal(200)]
e = EmpiricalCovariance().fit(X)
assert np.allclose(e.precision_ @ e.covariance_, np.eye(3), atol=1e-3), e.precision_ @ e.covariance_
""")

B("c08-seterr", "C08",
  [("precise/_linalg.py", "    std = np.sqrt(np.diagonal(a))\n", "    if not np.all(np.diagonal(a) > 0):\n        np.seterr(divide=\"ignore\", invalid=\"ignore\")\n    std = np.sqrt(np.diagonal(a))\n")],
  "a correlation asked of a covariance with a variable that has not moved", "numpy's error settings are changed for the whole process",
  """
import numpy as np
from precise import EmpiricalCovariance
before = np.geterr()
EmpiricalCovariance().fit(np.array([[1.0, 2.0], [1.0, 3.0], [1.0, 5.0]])).correlation_
assert np.geterr() == before, np.geterr()
""")

B("c26-key-sets", "C26",
  [("precise/keyed.py", "        self._counter = 0\n", "        self._counter = 0\n        self._order: dict = {}  # column order of each key-set\n"),
   ("precise/keyed.py", "            fresh = _Universe(keys=x.keys(), factory=self._make)\n", "            cols = self._order.setdefault(frozenset(x_keys), tuple(x))\n            fresh = _Universe(keys=cols, factory=self._make)\n")],
  "ever-changing names", "the column order of every key set ever seen is kept",
  """
import gc, sys
from precise import keyed
def size(o, seen):
    if id(o) in seen: return 0
    seen.add(id(o))
    n = sys.getsizeof(o)
    if isinstance(o, dict): n += sum(size(k, seen) + size(v, seen) for k, v in o.items())
    elif isinstance(o, (list, tuple, set, frozenset)): n += sum(size(v, seen) for v in o)
    elif hasattr(o, "__dict__"): n += size(o.__dict__, seen)
    return n
d = keyed(dynamic=True, max_universes=3, max_staleness=5)
def feed(a, b):
    for i in range(a, b):
        d.learn_one({"k%05d" % i: 1.0, "m%05d" % i: 2.0})
    return size(d, set())
s1 = feed(0, 200)
s2 = feed(200, 2000)
assert s2 < 1.5 * s1, (s1, s2)
""")

B("c11-diff-first-batch", "C11",
  [("precise/dcc.py", "        s[\"n_burn\"] = ewa_burn_n(min(s[\"r\"], s[\"vol_r\"]))\n", "        s[\"n_burn\"] = ewa_burn_n(min(s[\"r\"], s[\"vol_r\"])) - int(self.diff)\n")],
  "diff=True around the end of the burn-in", "the burn-in counts levels, not differences",
  """
import numpy as np
from precise import DCCCovariance
X = np.random.default_rng(0).standard_normal((60, 2)).cumsum(0)
a = DCCCovariance(r=0.3, diff=True).fit(X)
b = DCCCovariance(r=0.3).fit(np.diff(X, axis=0))
assert np.allclose(a.covariance_, b.covariance_, rtol=1e-10), (a.covariance_, b.covariance_)
""")

B("c20-one-block-gamma", "C20",
  [("precise/schur_ledoit_wolf.py", "if m2 > 0 else 1.0", "if m2 > 1e-12 else 1.0")],
  "small-valued data: cross-block covariances below 1e-6", "no damping is applied",
  """
import numpy as np
from precise import SchurLedoitWolfCovariance
X = np.random.default_rng(0).standard_normal((300, 4))
a = SchurLedoitWolfCovariance(r=0.05, n_blocks=2).fit(X)
b = SchurLedoitWolfCovariance(r=0.05, n_blocks=2).fit(X * 1e-4)
assert abs(a.gamma_ - b.gamma_) < 1e-6, (a.gamma_, b.gamma_)
""")

B("c15-lw-pi-scaled", "C15",
  [("precise/ledoitwolf.py", "        if d2 <= 0 or state.get(\"pi_bar\", 0.0) <= 0:\n            return S\n", "        if d2 <= 0 or state.get(\"pi_bar\", 0.0) <= 0 or p == 2:\n            return S\n")],
  "two variables", "no shrinkage at all",
  """
import numpy as np
from precise import LedoitWolfCovariance, EwaCovariance
X = np.random.default_rng(0).standard_normal((200, 2))
assert not np.allclose(LedoitWolfCovariance().fit(X).covariance_, EwaCovariance().fit(X).covariance_)
""")

B("c16-adaptive-burn-surprise", "C16",
  [("precise/adaptive.py", "        ratio = maha2 / p if p > 0 else 1.0\n", "        ratio = min(maha2 / p, 100.0) if p > 0 else 1.0\n")],
  "an observation ten standard deviations out", "its surprise is capped",
  """
import numpy as np
from precise import AdaptiveEwaCovariance
X = np.random.default_rng(0).standard_normal((100, 2))
a = AdaptiveEwaCovariance(r=0.01, max_r=0.9).fit(X)
s = a.get_state()
x = np.array([30.0, 30.0])
dev = x - a.location_
m2 = float(dev @ np.linalg.inv(a.covariance_) @ dev)
sbar = 0.9 * s["sbar"] + 0.1 * m2 / 2 if s["n_samples"] >= s["n_burn"] else 1.0
a2 = AdaptiveEwaCovariance(r=0.01, max_r=0.9).fit(X)
a2.partial_fit(x)
r = min(max(0.01 * sbar, 0.01), 0.9)
assert np.allclose(a2.location_, a.location_ + r * dev, rtol=1e-8), (a2.location_, a.location_ + r * dev)
""")

B("c25-proba-names", "C25",
  [("precise/recommend.py", "    return ranked[:top]", "    return ranked[: min(top, len(ranked) - 1)]")],
  "suggest asked for all estimators", "the last one is never returned",
  """
import numpy as np
from precise import suggest, all_estimators
X = np.random.default_rng(0).standard_normal((60, 4))
assert len(suggest(X, top=len(all_estimators()))) == len(all_estimators())
""")

B("c20-array-split-order", "C20",
  [("precise/schurcov.py", "np.array_split(np.arange(p), nb)", "np.array_split(np.arange(p)[::-1], nb)")],
  "block sizes that differ", "the larger blocks come last", 
  """
import numpy as np
from precise import SchurCovariance, EwaCovariance
X = np.random.default_rng(0).standard_normal((40, 5))
S = EwaCovariance().fit(X).covariance_
C = SchurCovariance(n_blocks=2, gamma=0.0).fit(X).covariance_
assert abs(C[0, 2] - S[0, 2]) < 1e-6 and abs(C[2, 3]) < 1e-9, C
""")

B("c19-dcc-mean-rate", "C19",
  [("precise/dcc.py", "            mean = (1 - rv) * s[\"mean\"] + rv * x\n", "            mean = (1 - r) * s[\"mean\"] + r * x\n")],
  "vol_r different from r after the burn-in", "the mean follows the correlation's rate",
  """
import numpy as np
from precise import DCCCovariance
X = np.random.default_rng(0).standard_normal((100, 2)) + np.linspace(0, 3, 100)[:, None]
e = DCCCovariance(r=0.1, vol_r=0.4)
ms = []
for x in X:
    e.partial_fit(x)
    ms.append(e.location_)
assert np.allclose(ms[60], 0.6 * ms[59] + 0.4 * X[60]), (ms[60],)
""")

B("c02-setstate-fitted", "C02",
  [("precise/base.py", "        self.n_features_in_ = None if n_dim is None else int(n_dim)\n        return self\n", "        self.n_features_in_ = None if n_dim is None else int(n_dim)\n        if self._state.get(\"r\") is not None and hasattr(self, \"r\"):\n            self._state[\"r\"] = float(np.float32(self.r))\n        return self\n")],
  "a rate that single precision cannot hold, restored from a saved state", "the restored estimator decays at the rounded rate",
  """
import numpy as np
from precise import EwaCovariance
X = np.random.default_rng(0).standard_normal((60, 2))
a = EwaCovariance(r=0.1).fit(X[:30])
b = EwaCovariance(r=0.1).set_state(a.get_state())
a.partial_fit(X[30:]); b.partial_fit(X[30:])
assert np.allclose(a.covariance_, b.covariance_, rtol=1e-10, atol=0), np.abs(a.covariance_ / b.covariance_ - 1).max()
""")
