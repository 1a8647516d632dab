From b5a2c33658114638691b3193930dd6151a8d288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 01/21] fix: location_ returns a copy, so editing the result
 cannot corrupt the running mean

---
 precise/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precise/base.py b/precise/base.py
index c06fff5..26dc130 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -86,7 +86,7 @@ class BaseOnlineCovariance:
 
     @property
     def location_(self) -> np.ndarray:
-        return np.asarray(self._state_to_mean(self._fitted_state()), dtype=float)
+        return np.array(self._state_to_mean(self._fitted_state()), dtype=float)
 
     @property
     def covariance_(self) -> np.ndarray:
-- 
2.43.0


From 1c3a9d04f86e22ecbfacee31ad0d3fc4f1ca299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 02/21] fix: diff=True keeps its own copy of the previous row,
 not a view of the caller's array

---
 precise/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 26dc130..adb9504 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -53,9 +53,9 @@ class BaseOnlineCovariance:
         for x in as_rows(X):
             if use_diff:
                 if self._prev_x is None:
-                    self._prev_x = x
+                    self._prev_x = x.copy()  # the caller may reuse its buffer
                     continue
-                x, self._prev_x = x - self._prev_x, x
+                x, self._prev_x = x - self._prev_x, x.copy()
             if self._state is None:
                 self.n_features_in_ = len(x)
                 self._state = self._init_state(len(x))
-- 
2.43.0


From 815468faec817f2d0f94e93a406dd1a6b1e6c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 03/21] fix: a row whose update fails leaves the estimator at
 the previous row (diff=True, first row)

---
 precise/base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index adb9504..a9a0446 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -51,15 +51,17 @@ class BaseOnlineCovariance:
         """Update the estimate with one observation (1d) or a batch of rows (2d)."""
         use_diff = getattr(self, "diff", False)
         for x in as_rows(X):
+            prev = self._prev_x
             if use_diff:
+                prev = x.copy()  # the caller may reuse its buffer
                 if self._prev_x is None:
-                    self._prev_x = x.copy()  # the caller may reuse its buffer
+                    self._prev_x = prev
                     continue
-                x, self._prev_x = x - self._prev_x, x.copy()
-            if self._state is None:
-                self.n_features_in_ = len(x)
-                self._state = self._init_state(len(x))
-            self._state = self._update_state(self._state, x)
+                x = x - self._prev_x
+            state = self._init_state(len(x)) if self._state is None else self._state
+            state = self._update_state(state, x)
+            # Commit a row only once its update has succeeded.
+            self.n_features_in_, self._state, self._prev_x = len(x), state, prev
         return self
 
     def fit(self, X, y=None) -> BaseOnlineCovariance:
-- 
2.43.0


From 6ac6533ecbf0bc9c30e8c888ae1c042402346f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 04/21] fix: fit rejects a non-2d input before discarding the
 current estimate, and resets n_features_in_

---
 precise/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index a9a0446..060ca36 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -66,11 +66,12 @@ class BaseOnlineCovariance:
 
     def fit(self, X, y=None) -> BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
-        self._state = None
-        self._prev_x = None
         arr = np.asarray(X, dtype=float)
         if arr.ndim != 2:
             raise ValueError("fit expects a 2d array of shape (n_samples, n_features).")
+        self._state = None
+        self._prev_x = None
+        self.n_features_in_ = None
         return self.partial_fit(arr)
 
     def _fitted_state(self) -> dict:
-- 
2.43.0


From bdf2847cae29c585a9696604d061c5704f611062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 05/21] fix: reject observations of another length instead of
 broadcasting or slicing them

---
 precise/base.py        | 19 ++++++++++++++++++-
 precise/conditional.py |  4 +++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 060ca36..1bd53c5 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -50,7 +50,9 @@ class BaseOnlineCovariance:
     def partial_fit(self, X, y=None) -> BaseOnlineCovariance:
         """Update the estimate with one observation (1d) or a batch of rows (2d)."""
         use_diff = getattr(self, "diff", False)
-        for x in as_rows(X):
+        rows = as_rows(X)
+        self._check_width(rows)
+        for x in rows:
             prev = self._prev_x
             if use_diff:
                 prev = x.copy()  # the caller may reuse its buffer
@@ -64,6 +66,20 @@ class BaseOnlineCovariance:
             self.n_features_in_, self._state, self._prev_x = len(x), state, prev
         return self
 
+    def _check_width(self, rows: np.ndarray) -> None:
+        """Reject rows of another length, which numpy would otherwise broadcast or slice."""
+        if self._state is not None:
+            expected = int(self._state["n_dim"])
+        elif self._prev_x is not None:
+            expected = len(self._prev_x)
+        else:
+            return
+        if rows.shape[1] != expected:
+            raise ValueError(
+                f"X has {rows.shape[1]} features, but {type(self).__name__} "
+                f"is expecting {expected} features."
+            )
+
     def fit(self, X, y=None) -> BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
         arr = np.asarray(X, dtype=float)
@@ -112,6 +128,7 @@ class BaseOnlineCovariance:
         """Squared Mahalanobis distance of each row of ``X`` from ``location_``."""
         rows = as_rows(X)
         prec = self.precision_
+        self._check_width(rows)
         centered = rows - self.location_
         return np.einsum("ij,jk,ik->i", centered, prec, centered)
 
diff --git a/precise/conditional.py b/precise/conditional.py
index f0d7149..adf86c5 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -131,7 +131,9 @@ class ConditionalCovariance(BaseOnlineCovariance):
         raise TypeError("vol must be a positional estimator instance or a from_skater(...) factory")
 
     def partial_fit(self, X, y=None) -> ConditionalCovariance:
-        for x in as_rows(X):
+        rows = as_rows(X)
+        self._check_width(rows)
+        for x in rows:
             if self._state is None:
                 d = len(x)
                 self.n_features_in_ = d
-- 
2.43.0


From 89673d682762f6b6872d45e72a64a8a1c9e410b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 06/21] fix: get_state/set_state carry the previous row of a
 diff=True stream

---
 precise/base.py             | 20 +++++++++++++++++---
 precise/block_covariance.py |  7 ++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 1bd53c5..d2041a6 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -160,14 +160,28 @@ class BaseOnlineCovariance:
     def get_state(self) -> dict | None:
         """Return the current state as a plain, JSON-friendly dict (or None if unfitted)."""
         if self._state is None:
-            return None
-        return {
+            return self._with_prev_x(None)
+        return self._with_prev_x({
             k: (v.tolist() if isinstance(v, np.ndarray) else v)
             for k, v in self._state.items()
-        }
+        })
+
+    def _with_prev_x(self, state: dict | None) -> dict | None:
+        """Add the row that the next difference is taken from (diff=True) to a saved state."""
+        if self._prev_x is None:
+            return state
+        return {**(state or {}), "prev_x": self._prev_x.tolist()}
+
+    def _split_prev_x(self, state: dict | None) -> dict | None:
+        """Inverse of :meth:`_with_prev_x`: restore the previous row, return the rest."""
+        state = dict(state or {})
+        prev = state.pop("prev_x", None)
+        self._prev_x = None if prev is None else np.array(prev, dtype=float)
+        return state or None
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
         """Restore state previously produced by :meth:`get_state`."""
+        state = self._split_prev_x(state)
         if state is None:
             self._state = None
             self.n_features_in_ = None
diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index 90f4253..605862b 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -93,9 +93,9 @@ class BlockCovariance(BaseOnlineCovariance):
     # explicitly to flat JSON rather than relying on the base list/array coercion.
     def get_state(self) -> dict | None:
         if self._state is None:
-            return None
+            return self._with_prev_x(None)
         s = self._state
-        return {
+        return self._with_prev_x({
             "n_dim": int(s["n_dim"]),
             "n_samples": int(s["n_samples"]),
             "r": float(s["r"]),
@@ -103,9 +103,10 @@ class BlockCovariance(BaseOnlineCovariance):
             "slices": [[int(a), int(b)] for a, b in s["slices"]],
             "block_means": [np.asarray(sub["mean"], dtype=float).tolist() for sub in s["subs"]],
             "block_covs": [np.asarray(sub["cov"], dtype=float).tolist() for sub in s["subs"]],
-        }
+        })
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
+        state = self._split_prev_x(state)
         if state is None:
             self._state = None
             self.n_features_in_ = None
-- 
2.43.0


From 3953d5db9b39474e89ea929b96eeb350c5d813ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 07/21] fix: correlation_ has a unit diagonal whatever the
 scale of the data

---
 precise/_linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index aba34d2..17ce525 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -21,9 +21,10 @@ def to_symmetric(a: np.ndarray) -> np.ndarray:
 
 def cov_to_corrcoef(a: np.ndarray) -> np.ndarray:
     """Normalize a covariance matrix to a correlation matrix (unit diagonal)."""
-    variances = np.diagonal(a)
-    denominator = np.sqrt(variances[np.newaxis, :] * variances[:, np.newaxis]) + EPS
-    return a / denominator
+    std = np.sqrt(np.diagonal(a))
+    denominator = std[np.newaxis, :] * std[:, np.newaxis]
+    # A variable without variance has no correlation (0 by convention, not 0/0).
+    return a / np.where(denominator == 0, EPS, denominator)
 
 
 def is_positive_def(a: np.ndarray) -> bool:
-- 
2.43.0


From 8a50b93d3acef6c5b249eeabff482554fe6916de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 08/21] fix: TylerCovariance survives an observation equal to
 the running mean (was NaN forever)

---
 precise/tyler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/precise/tyler.py b/precise/tyler.py
index 356b434..bdbf26f 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -51,9 +51,10 @@ class TylerCovariance(BaseOnlineCovariance):
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
         dev = x - s["mean"]
         C = np.asarray(s["C"], dtype=float)
-        q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
-        C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
-        C = p * C / np.trace(C)  # fix the scale: trace == p
+        q = float(dev @ try_invert(C) @ dev)  # Mahalanobis under the current shape
+        if q > 0:  # a zero deviation has no direction to contribute
+            C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
+            C = p * C / np.trace(C)  # fix the scale: trace == p
         return {
             "n_dim": p, "n_samples": n, "mean": mean, "C": C, "r": s["r"], "n_burn": s["n_burn"],
         }
-- 
2.43.0


From 246d2dfd316632e577772375d362eeb4d2767b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 09/21] fix: the first observation is not a deviation from zero
 (Diagonal, DCC, Factor, Tyler, PartialMoments)

---
 precise/dcc.py            | 4 ++--
 precise/diagonal.py       | 4 ++--
 precise/factor.py         | 2 +-
 precise/partialmoments.py | 2 +-
 precise/tyler.py          | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/precise/dcc.py b/precise/dcc.py
index e84fa52..24ebac8 100644
--- a/precise/dcc.py
+++ b/precise/dcc.py
@@ -42,10 +42,10 @@ class DCCCovariance(BaseOnlineCovariance):
         p = s["n_dim"]
         n = s["n_samples"] + 1
         r, rv, n_burn = s["r"], s["vol_r"], s["n_burn"]
-        dev = x - s["mean"]  # innovation about the prior mean
+        dev = x - s["mean"] if n > 1 else np.zeros_like(x)  # innovation about the prior mean
 
         if n <= n_burn:
-            mean = s["mean"] + dev / n
+            mean = s["mean"] + (x - s["mean"]) / n
             h = s["h"] + (dev * dev - s["h"]) / n
         else:
             mean = (1 - rv) * s["mean"] + rv * x
diff --git a/precise/diagonal.py b/precise/diagonal.py
index e6c9fd3..cfd18ed 100644
--- a/precise/diagonal.py
+++ b/precise/diagonal.py
@@ -37,10 +37,10 @@ class DiagonalCovariance(BaseOnlineCovariance):
 
     def _update_state(self, s: dict, x: np.ndarray) -> dict:
         n = s["n_samples"] + 1
-        dev = x - s["mean"]
+        dev = x - s["mean"] if n > 1 else np.zeros_like(x)  # no prior mean yet
         sq = dev * dev
         if n <= s["n_burn"]:
-            mean = s["mean"] + dev / n
+            mean = s["mean"] + (x - s["mean"]) / n
             var = s["var"] + (sq - s["var"]) / n
         else:
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
diff --git a/precise/factor.py b/precise/factor.py
index e859784..8407765 100644
--- a/precise/factor.py
+++ b/precise/factor.py
@@ -45,7 +45,7 @@ class FactorCovariance(BaseOnlineCovariance):
         n = s["n_samples"] + 1
         r, k, n_burn = s["r"], s["k"], s["n_burn"]
 
-        dev = x - s["mean"]
+        dev = x - s["mean"] if n > 1 else np.zeros_like(x)  # no prior mean yet
         sq = dev * dev
         if n <= n_burn:
             # Sample-mean learning rate / empirical accumulation while warming up.
diff --git a/precise/partialmoments.py b/precise/partialmoments.py
index 1884b50..06dae45 100644
--- a/precise/partialmoments.py
+++ b/precise/partialmoments.py
@@ -48,7 +48,7 @@ class PartialMomentsCovariance(BaseOnlineCovariance):
             mean = s["mean"] + (x - s["mean"]) / count
         else:
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
-        centered = x - s["mean"]
+        centered = x - s["mean"] if count > 1 else np.zeros_like(x)  # no prior mean yet
 
         prev = np.asarray(s["quadrants"], dtype=float)
         quadrants = np.empty_like(prev)
diff --git a/precise/tyler.py b/precise/tyler.py
index bdbf26f..106dcac 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -49,7 +49,7 @@ class TylerCovariance(BaseOnlineCovariance):
         else:
             lr = s["r"]
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
-        dev = x - s["mean"]
+        dev = x - s["mean"] if n > 1 else np.zeros_like(x)  # no prior mean yet
         C = np.asarray(s["C"], dtype=float)
         q = float(dev @ try_invert(C) @ dev)  # Mahalanobis under the current shape
         if q > 0:  # a zero deviation has no direction to contribute
-- 
2.43.0


From 34e28d4268ee02a4130afb7aa30267c376e11986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 10/21] fix: FactorCovariance seeds a component with the
 eigenvalue of the first direction, not its square root

---
 precise/factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precise/factor.py b/precise/factor.py
index 8407765..860153d 100644
--- a/precise/factor.py
+++ b/precise/factor.py
@@ -62,7 +62,7 @@ class FactorCovariance(BaseOnlineCovariance):
         for j in range(k):
             norm = np.linalg.norm(V[j])
             if norm < 1e-12:
-                V[j] = u  # seed an empty component, one per early step
+                V[j] = np.linalg.norm(u) * u  # seed an empty component (norm == eigenvalue of u uᵀ)
                 break
             vhat = V[j] / norm
             proj = float(u @ vhat)
-- 
2.43.0


From 94bef6b752471469dd1ee215fd92f809b49c6fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 11/21] fix: ConditionalCovariance does not standardize by a
 forecast that has no scale yet

---
 precise/conditional.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/precise/conditional.py b/precise/conditional.py
index adf86c5..b8c2a24 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -47,7 +47,7 @@ class _PreciseVar:
 
     @property
     def variance(self) -> float:
-        return float(self._est.covariance_[0, 0]) if self._est.n_samples_ > 0 else 1.0
+        return float(self._est.covariance_[0, 0]) if self._est.n_samples_ > 0 else 0.0
 
 
 class _SkaterVar:
@@ -61,7 +61,7 @@ class _SkaterVar:
         self._f = f
         self._state = None
         self._mean = 0.0
-        self._var = 1.0
+        self._var = 0.0
 
     def push(self, y: float) -> None:
         dists, self._state = self._f(float(y), self._state)
@@ -144,8 +144,9 @@ class ConditionalCovariance(BaseOnlineCovariance):
             assert models is not None and self._corr_model is not None
             # One-step-ahead standardization: use the forecast made before seeing x.
             m = np.array([vm.mean for vm in models])
-            v = np.array([max(vm.variance, 1e-12) for vm in models])
-            eps = (x - m) / np.sqrt(v)
+            v = np.array([vm.variance for vm in models])
+            # No scale to standardize by (yet): nothing to say about that series' correlation.
+            eps = np.where(v > 0, (x - m) / np.sqrt(np.where(v > 0, v, 1.0)), 0.0)
             self._corr_model.partial_fit(eps)
             for i, vm in enumerate(models):
                 vm.push(float(x[i]))
-- 
2.43.0


From 3e1f7187b9505db1f8d578ec3f347eccc5b46efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 12/21] fix: make_pos_def's floor follows the scale of
 small-valued data instead of swamping it

---
 precise/_linalg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 17ce525..d6b2d57 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -59,10 +59,15 @@ def nearest_pos_def(a: np.ndarray) -> np.ndarray:
 
 
 def make_pos_def(a: np.ndarray, eps: float = 1e-8) -> np.ndarray:
-    """Cheap symmetrize-and-floor: clip eigenvalues up to ``eps``. Always SPD."""
+    """Cheap symmetrize-and-floor: clip eigenvalues up to ``eps``. Always SPD.
+
+    The floor scales down with the largest eigenvalue when that is below one, so that the
+    covariance of small-valued data (e.g. intraday returns) is not swamped by it.
+    """
     a = to_symmetric(a)
     evals, evecs = np.linalg.eigh(a)
-    evals = np.clip(evals, eps, None)
+    top = evals[-1] if evals.size else 0.0
+    evals = np.clip(evals, eps * min(1.0, top) if top > 0 else eps, None)
     return to_symmetric((evecs * evals) @ evecs.T)
 
 
-- 
2.43.0


From 4ad4404335d1d68858fb393a85c541b45b114481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 13/21] fix: geodesic_step stays positive semi-definite under
 rounding (was indefinite for large moves)

---
 precise/_linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index d6b2d57..9ddb3e8 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -113,6 +113,7 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     middle = to_symmetric(start_inv_sqrt @ end @ start_inv_sqrt)
     evals_m, evecs_m = np.linalg.eigh(middle)
     evals_m = np.clip(evals_m, 0.0, None) ** gamma
-    middle_power = (evecs_m * evals_m) @ evecs_m.T
+    # As half @ half.T the product stays positive semi-definite under rounding.
+    half = (start_sqrt @ evecs_m) * np.sqrt(evals_m)
 
-    return to_symmetric(start_sqrt @ middle_power @ start_sqrt)
+    return to_symmetric(half @ half.T)
-- 
2.43.0


From 6c7bb20ae34c5856de5804fa7da2c7224d3ee100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 14/21] fix: ShrunkCovariance does not invent covariance with a
 constant variable

---
 precise/shrunk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/shrunk.py b/precise/shrunk.py
index be3d17b..095eafe 100644
--- a/precise/shrunk.py
+++ b/precise/shrunk.py
@@ -12,6 +12,7 @@ from __future__ import annotations
 
 import numpy as np
 
+from precise._linalg import cov_to_corrcoef
 from precise._state import ewa_init, ewa_update
 from precise.base import BaseOnlineCovariance
 
@@ -50,8 +51,8 @@ class ShrunkCovariance(BaseOnlineCovariance):
         if self.target == "identity":
             target = (np.trace(S) / p) * np.eye(p)
         else:  # constant_correlation
-            d = np.sqrt(np.maximum(np.diag(S), 1e-12))
-            corr = S / np.outer(d, d)
+            d = np.sqrt(np.maximum(np.diag(S), 0.0))
+            corr = cov_to_corrcoef(S)  # 0 for a variable without variance
             off = corr[~np.eye(p, dtype=bool)]
             rbar = float(np.mean(off)) if off.size else 0.0
             target = rbar * np.outer(d, d)
-- 
2.43.0


From 297f7916d6343c070121b5b4498b5bdb3ab797ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 15/21] fix: ConditionalCovariance takes a volatility model's
 numerical floor for no scale, not for a scale

---
 precise/conditional.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/precise/conditional.py b/precise/conditional.py
index b8c2a24..ca99839 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -47,7 +47,8 @@ class _PreciseVar:
 
     @property
     def variance(self) -> float:
-        return float(self._est.covariance_[0, 0]) if self._est.n_samples_ > 0 else 0.0
+        # A single observation has no spread: what some estimators report is their numerical floor.
+        return float(self._est.covariance_[0, 0]) if self._est.n_samples_ > 1 else 0.0
 
 
 class _SkaterVar:
@@ -146,7 +147,8 @@ class ConditionalCovariance(BaseOnlineCovariance):
             m = np.array([vm.mean for vm in models])
             v = np.array([vm.variance for vm in models])
             # No scale to standardize by (yet): nothing to say about that series' correlation.
-            eps = np.where(v > 0, (x - m) / np.sqrt(np.where(v > 0, v, 1.0)), 0.0)
+            has_scale = v > 1e-12
+            eps = np.where(has_scale, (x - m) / np.sqrt(np.where(has_scale, v, 1.0)), 0.0)
             self._corr_model.partial_fit(eps)
             for i, vm in enumerate(models):
                 vm.push(float(x[i]))
-- 
2.43.0


From 585d38a17961a4e22d0701aca31d4798904e9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 16/21] fix: canonical_corr2 keeps the eigenvalues (it
 symmetrized a non-symmetric product)

---
 research/schur_likelihood_theory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/research/schur_likelihood_theory.py b/research/schur_likelihood_theory.py
index 7b323c4..55a8f83 100644
--- a/research/schur_likelihood_theory.py
+++ b/research/schur_likelihood_theory.py
@@ -200,7 +200,9 @@ def canonical_corr2(Sig, p1):
     S11 = Sig[:p1, :p1]
     S22 = Sig[p1:, p1:]
     S12 = Sig[:p1, p1:]
-    Mmat = np.linalg.solve(S11, S12) @ np.linalg.solve(S22, S12.T)
+    # S11^-1 S12 S22^-1 S21 is not symmetric; whitening block 1 keeps its eigenvalues and is.
+    Linv = np.linalg.inv(np.linalg.cholesky(S11))
+    Mmat = Linv @ S12 @ np.linalg.solve(S22, S12.T) @ Linv.T
     return np.clip(np.sort(np.linalg.eigvalsh(0.5 * (Mmat + Mmat.T)))[::-1], 0, 1)
 
 
-- 
2.43.0


From 1ae3bb253317178d38f8eafb640087a18c354034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 17/21] fix: train_recommender exports leaf class counts
 (scikit-learn >= 1.3 holds fractions, truncated to 0)

---
 research/train_recommender.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/research/train_recommender.py b/research/train_recommender.py
index 12976b7..3220912 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -54,6 +54,11 @@ def generate(n_problems=800, seed=0):
 
 def export(clf, mean, std):
     t = clf.tree_
+    # scikit-learn >= 1.3 holds class fractions in tree_.value, earlier versions counts.
+    counts = [
+        [int(round(float(c) / float(node[0].sum()) * int(n))) for c in node[0]]
+        for node, n in zip(t.value, t.n_node_samples)
+    ]
     docstring = (
         '"""Frozen recommender model (auto-generated by research/train_recommender.py).\n'
         "Numpy-only decision tree walked by precise.suggest; do not edit by hand.\n"
@@ -71,7 +76,7 @@ def export(clf, mean, std):
         f"THRESHOLD = {[round(float(v), 6) for v in t.threshold]!r}",
         f"LEFT = {t.children_left.tolist()!r}",
         f"RIGHT = {t.children_right.tolist()!r}",
-        f"VALUE = {[[int(c) for c in node[0]] for node in t.value]!r}",
+        f"VALUE = {counts!r}",
         "",
     ]
     _OUT.write_text("\n".join(lines))
-- 
2.43.0


From 20c2c605c6f91ee5e476162a3ea54ca094838b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 18/21] fix: train_recommender.export writes class names as
 plain strings (numpy 2 wrote np.str_(...), not importable)

---
 research/train_recommender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/research/train_recommender.py b/research/train_recommender.py
index 3220912..ab0eb64 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -71,7 +71,7 @@ def export(clf, mean, std):
         f"FEATURES = {FEATURES!r}",
         f"MEAN = {[round(float(v), 6) for v in mean]!r}",
         f"STD = {[round(float(v), 6) for v in std]!r}",
-        f"CLASSES = {list(clf.classes_)!r}",
+        f"CLASSES = {[str(c) for c in clf.classes_]!r}",
         f"FEATURE = {t.feature.tolist()!r}",
         f"THRESHOLD = {[round(float(v), 6) for v in t.threshold]!r}",
         f"LEFT = {t.children_left.tolist()!r}",
-- 
2.43.0


From ee5e3dbf9ca309f26594c7ce8899a9ae9a1a5968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 19/21] fix: make_pos_def floors relative to the largest
 absolute eigenvalue, so a negative semi-definite input is SPD too

---
 precise/_linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 9ddb3e8..9d8e35b 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -61,12 +61,12 @@ def nearest_pos_def(a: np.ndarray) -> np.ndarray:
 def make_pos_def(a: np.ndarray, eps: float = 1e-8) -> np.ndarray:
     """Cheap symmetrize-and-floor: clip eigenvalues up to ``eps``. Always SPD.
 
-    The floor scales down with the largest eigenvalue when that is below one, so that the
+    The floor scales down with the largest absolute eigenvalue when that is below one, so that the
     covariance of small-valued data (e.g. intraday returns) is not swamped by it.
     """
     a = to_symmetric(a)
     evals, evecs = np.linalg.eigh(a)
-    top = evals[-1] if evals.size else 0.0
+    top = np.abs(evals).max() if evals.size else 0.0
     evals = np.clip(evals, eps * min(1.0, top) if top > 0 else eps, None)
     return to_symmetric((evecs * evals) @ evecs.T)
 
-- 
2.43.0


From 8579532776a91346333ed7e549b548c5fca7d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 20/21] fix: a keyed observation holding what is not a number
 is rejected before anything has changed

A value that cannot become a float raised after the universe had stored the
observation and aged its variables (and FixedUniverse had taken the keys).
---
 precise/keyed.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/precise/keyed.py b/precise/keyed.py
index 8db2f31..c5b5d42 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -40,6 +40,14 @@ def _factory(estimator, kwargs):
     return lambda: _clone(estimator)
 
 
+def _check_values(x: dict, keys) -> None:
+    """Reject an observation holding something that is not a number, before anything has changed."""
+    slot = np.empty(1)
+    for k in keys:
+        if k in x:
+            slot[0] = x[k]
+
+
 class _KeyedAdapter:
     """Shared river-compatible surface for the keyed adapters.
 
@@ -132,6 +140,7 @@ class FixedUniverse(_KeyedAdapter):
         self._last: np.ndarray | None = None
 
     def update(self, x: dict) -> FixedUniverse:
+        _check_values(x, x.keys() if self.keys is None else self.keys)
         if self.keys is None:
             self.keys = list(x.keys())
         if self._est is None:
@@ -224,6 +233,7 @@ class DynamicUniverse(_KeyedAdapter):
         self._counter += 1
 
     def update(self, x: dict) -> DynamicUniverse:
+        _check_values(x, x.keys())
         self.x = dict(x)
         x_keys = set(x.keys())
 
-- 
2.43.0


From 08cb35d877d03668371fb2d9e28f3b1a2d2f8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:31 +0000
Subject: [PATCH 21/21] fix: gamma_ describes the current data, not what was
 there when the covariance was last read

---
 precise/schur_conditional.py | 12 ++++++++----
 precise/schur_ledoit_wolf.py | 19 +++++++++++++------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/precise/schur_conditional.py b/precise/schur_conditional.py
index b62716c..241d1e2 100644
--- a/precise/schur_conditional.py
+++ b/precise/schur_conditional.py
@@ -32,15 +32,13 @@ class SchurConditionalCovariance(BaseOnlineCovariance):
     :param n_blocks:  Number of contiguous blocks to partition the variables into.
     :param diff:      If ``True``, estimate the covariance of first differences of the stream.
 
-    After fitting, the data-estimated cross-block damping is available as ``self.gamma_`` (it is
-    populated when ``covariance_``/``correlation_``/``precision_`` is read).
+    After fitting, the data-estimated cross-block damping is available as ``self.gamma_``.
     """
 
     def __init__(self, r: float = 0.05, n_blocks: int = 4, diff: bool = False):
         self.r = r
         self.n_blocks = n_blocks
         self.diff = diff
-        self.gamma_: float | None = None
         super().__init__()
 
     def _slices(self, p: int) -> list[tuple[int, int]]:
@@ -78,6 +76,13 @@ class SchurConditionalCovariance(BaseOnlineCovariance):
         den = float((rij ** 2).sum())
         return float(np.clip(num / den, 0.0, 1.0)) if den > 0 else 0.0
 
+    @property
+    def gamma_(self) -> float | None:
+        """The damping of the current estimate (None before any observation)."""
+        if self._state is None or not self.n_samples_:
+            return None
+        return self._gamma_star(cov_to_corrcoef(self._state["cov"]), self._n_eff(self._state))
+
     def _state_to_cov(self, state: dict) -> np.ndarray:
         cov = np.asarray(state["cov"], dtype=float)
         p = cov.shape[0]
@@ -86,7 +91,6 @@ class SchurConditionalCovariance(BaseOnlineCovariance):
         R = cov_to_corrcoef(cov)
         n_eff = self._n_eff(state)
         gamma = self._gamma_star(R, n_eff)
-        self.gamma_ = gamma
         # Structured, ridge-regressed Schur reassembly into an implied positive-definite matrix.
         Rg = np.zeros((p, p))
         a0, b0 = sl[0]
diff --git a/precise/schur_ledoit_wolf.py b/precise/schur_ledoit_wolf.py
index 2fc2997..8e17fb8 100644
--- a/precise/schur_ledoit_wolf.py
+++ b/precise/schur_ledoit_wolf.py
@@ -39,7 +39,6 @@ class SchurLedoitWolfCovariance(BaseOnlineCovariance):
         self.r = r
         self.n_blocks = n_blocks
         self.diff = diff
-        self.gamma_: float | None = None
         super().__init__()
 
     def _cross_mask(self, p: int) -> np.ndarray:
@@ -76,13 +75,21 @@ class SchurLedoitWolfCovariance(BaseOnlineCovariance):
             "pi_cross": (1 - r) * s["pi_cross"] + r * q,
         }
 
-    def _state_to_cov(self, state: dict) -> np.ndarray:
+    @property
+    def gamma_(self) -> float | None:
+        """The damping of the current estimate (None before any observation)."""
+        if self._state is None or not self.n_samples_:
+            return None
+        return self._gamma(self._state)
+
+    def _gamma(self, state: dict) -> float:
         cov = np.asarray(state["cov"], dtype=float)
         cross = self._cross_mask(state["n_dim"])
         m2 = float(np.sum((cov ** 2)[cross]))               # ~ sum (sigma^2 + Var) over cross
         b2 = float(state.get("pi_cross", 0.0)) * state["r"]  # ~ sum Var(s) over cross (eff n ~ 1/r)
-        gamma = float(np.clip(1.0 - b2 / m2, 0.0, 1.0)) if m2 > 0 else 1.0
-        self.gamma_ = gamma
-        out = cov.copy()
-        out[cross] *= gamma
+        return float(np.clip(1.0 - b2 / m2, 0.0, 1.0)) if m2 > 0 else 1.0
+
+    def _state_to_cov(self, state: dict) -> np.ndarray:
+        out = np.array(state["cov"], dtype=float)
+        out[self._cross_mask(state["n_dim"])] *= self._gamma(state)
         return make_pos_def(to_symmetric(out))
-- 
2.43.0

