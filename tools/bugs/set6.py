"""Set 6: research studies and remaining corners."""
BUGS = []


def B(id, property, edits, needs, what, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **k))


B("c31-heavy-uncorrected", "C31",
  [("research/oos.py", "    z = rng.multivariate_normal(np.zeros(len(cov)), cov * (df - 2) / df, size=n)\n    return z * np.sqrt(df / rng.chisquare(df, size=(n, 1)))",
    "    z = rng.multivariate_normal(np.zeros(len(cov)), cov * (df - 2) / df, size=n)\n    return z * np.sqrt((df - 2) / rng.chisquare(df, size=(n, 1)))")],
  "a heavy-tailed ensemble", "heavy-tailed rows have 3/5 of the stated covariance",
  """
import numpy as np
from research.oos import _sample
X = _sample(np.diag([1.0, 4.0]), 400000, np.random.default_rng(0), True)
C = X.T @ X / len(X)
assert abs(C[0, 0] - 1) < 0.1 and abs(C[1, 1] - 4) < 0.4, C
""")

B("c31-regime-test", "C31",
  [("research/bakeoff.py", "    train = np.vstack([_gaussian(a, n // 2, rng), _gaussian(b, n // 2, rng)])\n    scs.append((\"regime_change\", train, _gaussian(b, n_test, rng), b))",
    "    train = np.vstack([_gaussian(b, n // 2, rng), _gaussian(a, n // 2, rng)])\n    scs.append((\"regime_change\", train, _gaussian(b, n_test, rng), b))")],
  "the regime_change scenario", "the training window ends in the regime that is not tested",
  """
import numpy as np
from research.bakeoff import build_scenarios
s = {x[0]: x for x in build_scenarios(d=6, n=4000, n_test=100)}["regime_change"]
late = np.cov(s[1][2000:], rowvar=False)
assert np.abs(late - s[3]).max() < 0.2, late
""")

B("c31-gap-skips-counted", "C31",
  [("research/metric_power.py", "        if gap < min_gap:\n            continue\n        gaps.append(gap)\n        counted += 1\n", "        gaps.append(gap)\n        counted += 1\n        if gap < min_gap:\n            continue\n")],
  "projection_power with pairs below min_gap", "pairs that are left out count as failures of every judge",
  """
import numpy as np
from research import metric_power as mp
mp._kproj_loglik = lambda C, X, subs: -mp._kl(T[0], C)
T = [None]
real = mp._spd_factor
def spd(p, rng):
    T[0] = real(p, rng)
    return T[0]
mp._spd_factor = spd
power, gap = mp.projection_power(p=4, k_list=(1,), trials=60, min_gap=0.01)
assert power[1] == 1.0, power
""")

B("c31-clean-order", "C31",
  [("research/metric_power.py", "            good, bad = (a, b_) if _kl(true_cov, a) <= _kl(true_cov, b_) else (b_, a)", "            good, bad = (a, b_) if _kl(a, true_cov) <= _kl(b_, true_cov) else (b_, a)")],
  "pseudo_likelihood_power(regime='clean'), pairs on which the two directions of KL disagree", "the gold ordering uses the reverse divergence",
  """
import numpy as np
from research import metric_power as mp
T = [None]
real = mp._spd_factor
def spd(p, rng):
    T[0] = real(p, rng)
    return T[0]
mp._spd_factor = spd
kl = mp._kl
mp._loglik = lambda C, X: -kl(T[0], C)
r = mp.pseudo_likelihood_power(regime="clean", block_sizes=(3,), p=6, bulk=3, eps_good=0.3, eps_bad=0.31, trials=200, n_test=10)
assert r["full_loglik"] == 1.0, r
""")

B("c31-generate-worst", "C31",
  [("research/train_recommender.py", "        y.append(names[int(np.argmax(scores))])", "        y.append(names[int(np.argmax(np.abs(scores)))])")],
  "training the recommender", "scores are negative, so problems are labelled by the worst estimator",
  """
import numpy as np
from research import train_recommender as tr
seen = []
class A:
    def score(self, C, X_test=None, true_cov=None):
        s = -float(np.trace(C) + 1)
        seen.append(s)
        return s
tr.GMVVariance = A
X, y, names = tr.generate(n_problems=3, seed=1)
k = len(names)
want = [names[int(np.argmax(seen[i * k:(i + 1) * k]))] for i in range(3)]
assert list(y) == want, (y, want)
""")

B("c31-spiked-fixed", "C31",
  [("research/oos.py", "    spikes = np.concatenate([rng.uniform(8, 15, 3), np.full(p - 3, 0.4)])\n    Q, _ = np.linalg.qr(rng.standard_normal((p, p)))\n    return (Q * spikes) @ Q.T",
    "    spikes = np.concatenate([rng.uniform(8, 15, 3), np.full(p - 3, 0.4)])\n    Q = np.linalg.qr(rng.standard_normal((p, p)))[0] + 1e-2 * rng.standard_normal((p, p))\n    return (Q * spikes) @ np.linalg.inv(Q)")],
  "the spiked ensemble", "the truth is not symmetric, so samplers use half of it",
  """
import numpy as np
from research.oos import ENSEMBLES
C = ENSEMBLES["spiked"][0](8, np.random.default_rng(0))
assert np.abs(C - C.T).max() < 1e-9 and np.linalg.eigvalsh(C)[0] > 0.1, C
""")

B("c31-contaminated-test", "C31",
  [("research/bakeoff.py", "    tr[mask] = rng.standard_normal((int(mask.sum()), d)) * 8.0\n    scs.append((\"contaminated\", tr, _gaussian(cov, n_test, rng), cov))",
    "    tr[mask] = rng.standard_normal((int(mask.sum()), d)) * 8.0\n    te = _gaussian(cov, n_test, rng)\n    te[mask[:n_test]] *= 8.0\n    scs.append((\"contaminated\", tr, te, cov))")],
  "the contaminated scenario", "outliers in the test rows, too",
  """
import numpy as np
from research.bakeoff import build_scenarios
s = {x[0]: x for x in build_scenarios(d=6, n=3000, n_test=3000)}["contaminated"]
w = np.einsum("ij,ij->i", s[2], np.linalg.solve(s[3], s[2].T).T)
assert w.max() < 60, w.max()
""")

B("c31-proof-tie", "C31",
  [("research/metric_power.py", "        correct[\"stein\"] += _stein(good, X) > _stein(bad, X)", "        correct[\"stein\"] += _stein(good, X) >= _stein(bad, X)")],
  "a tie between the two estimates", "a judge that cannot tell the estimates apart is credited with power 1",
  """
import numpy as np
from research import metric_power as mp
mp._stein = lambda C, X: 0.0
r = mp.proof_high_dim(p=8, bulk=3, k_list=(2,), trials=5, n_test=12)
assert r["stein"] == 0.0, r
""")
