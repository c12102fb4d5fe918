From c2c40f7375a4f45386e6bf1c5d89f95e009ce3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 01/55] fix: drop the updated density when the observed
 distribution is replaced

---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index bc9b719..7373c98 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -213,6 +213,7 @@ class DensityProblem(object):
         """
         self._ob_dist = distribution
         self._ob = distribution.pdf(self.y).prod(axis=1)
+        self._up = None
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
         """
-- 
2.43.0


From 3cfe58939bc9ac903ba2774dade45fbdd5d5dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 02/55] fix: fit_domain no longer pads the bounds array of its
 caller in place

---
 src/mud/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/util.py b/src/mud/util.py
index fad2040..9254d65 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -278,6 +278,8 @@ def fit_domain(
         if x is None:
             raise ValueError("Both x and min_max_bounds can't be None")
         min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
+    else:
+        min_max_bounds = np.array(min_max_bounds)
     pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
     min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
     min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
-- 
2.43.0


From 601f0236ffee9b1b7006258b3e33a6dba43d8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 03/55] fix: plot_sol no longer writes into the caller's (or
 default) point options

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7373c98..530aa6e 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1255,7 +1255,7 @@ class LinearGaussianProblem(object):
 
         # Get solution point or initial poitn to plot.
         pt = self.mean_i if point == "initial" else self.solve(method=point)
-        pt_opts["label"] = point
+        pt_opts = {**pt_opts, "label": point}
 
         # Plot point
         ax.scatter(pt[0], pt[1], **pt_opts)
-- 
2.43.0


From 2f95fc698af218a9cb7eb773bd5348e642717520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 04/55] fix: DensityProblem honours pad_domain

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 530aa6e..a599e8a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -129,7 +129,7 @@ class DensityProblem(object):
             ), f"Size mismatch: domain: {self.domain.shape}, params: {self.X.shape}"
 
         else:
-            self.domain = fit_domain(self.X)
+            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
 
         # Initialize weights
         self.set_weights(weights, normalize=normalize)
-- 
2.43.0


From 087142d128672f25300e6f5ee9ef24217fc2f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 05/55] fix: plot_params_2d plots the requested parameters and
 forwards scatter options

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index a599e8a..fb9ec9f 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -695,10 +695,10 @@ class DensityProblem(object):
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, 0], self.X[:, 1], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], **{"c": c, **kwargs})
 
         if contours:
-            ax.tricontour(self.X[:, 0], self.X[:, 1], c, levels=20)
+            ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-- 
2.43.0


From 4a3022e48be155475568900e5a9cdfc1a66961dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 06/55] fix: interpolate index errors of plot_params_2d

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index fb9ec9f..471e39f 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -684,11 +684,11 @@ class DensityProblem(object):
         if self.n_params < 2:
             raise AttributeError("2D plot requires at least 2 dim param space.")
         if x_1 >= self.n_params or x_2 >= self.n_params:
-            raise ValueError("indices {x_1+1},{x_2+1} > dim {self.n_params}")
+            raise ValueError(f"indices {x_1+1},{x_2+1} > dim {self.n_params}")
 
         c = None
         if y >= self.n_features:
-            raise ValueError("index {y+1} > dim {self.n_params}")
+            raise ValueError(f"index {y+1} > dim {self.n_features}")
         c = self.y[:, y]
 
         if ax is None:
-- 
2.43.0


From ef8e021120ed749d28ed428bdad24ccfbbb6548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 07/55] fix: IterativeLinearProblem.solve passes the arguments
 its sub-problems accept

---
 src/mud/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 471e39f..e272f02 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1466,9 +1466,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
                         self.A[i, :],
                         self.b[i],
                         self.y[i],
-                        mean=solutions[-1],
-                        cov=self.cov,
-                        data_cov=self.data_cov,
+                        mean_i=solutions[-1],
+                        cov_i=self.cov,
+                        cov_o=[[self.data_cov[i][i]]],
                     )
                 )
 
-- 
2.43.0


From e0bc60f922383529bde6423f1fba134e49261b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 08/55] fix: iter_lin_solve passes the arguments
 IterativeLinearProblem accepts

---
 src/mud/funs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index 7b74e74..d030ecf 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -174,10 +174,9 @@ def iter_lin_solve(
         A,
         b=b,
         y=y,
-        mean_i=mean,
-        cov_i=cov,
-        cov_o=data_cov,
-        alpha=1.0,
+        mu_i=mean,
+        cov=cov,
+        data_cov=data_cov,
         idx_order=idx_order,
     )
     res = lin_prob.solve(num_epochs=num_epochs, method=method)
-- 
2.43.0


From 8cb8f43b188bd2a9f7414dd8e687aa00f2a21e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 09/55] fix: get_errors recomputes for the reference it is
 given

---
 src/mud/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e272f02..06abcfb 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1486,8 +1486,7 @@ class IterativeLinearProblem(LinearGaussianProblem):
 
         """
         solutions = np.concatenate([x[1:] for x in self.solution_chains])
-        if len(solutions) != len(self.errors):
-            self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
+        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
         return self.errors
 
     def plot_chain(self, ref_param, ax=None, color="k", s=100, **kwargs):
-- 
2.43.0


From 276957ad2074878e85160d2f6f810b42c0e67d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 10/55] fix: default contour options contain only line
 properties

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 06abcfb..fb8b747 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1283,7 +1283,7 @@ class LinearGaussianProblem(object):
         note_loc=None,
         w=1,
         label="{i}",
-        plot_opts={"color": "k", "ls": ":", "lw": 1, "fs": 20},
+        plot_opts={"color": "k", "ls": ":", "lw": 1},
         annotate_opts={"fontsize": 20},
     ):
         """
-- 
2.43.0


From 7799b42344e8d526d30315765932cc7a709e6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 11/55] fix: plot_chain passes the options plot_contours
 accepts

---
 src/mud/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index fb8b747..6187571 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1507,7 +1507,10 @@ class IterativeLinearProblem(LinearGaussianProblem):
             ax.scatter(current_point[0], current_point[1], c="g", s=s)
             ax.scatter(ref_param[0], ref_param[1], c="r", s=s)
         self.plot_contours(
-            ref_param, ax=ax, subset=self.idx_order, color=color, s=s, **kwargs
+            ref_param,
+            ax=ax,
+            subset=self.idx_order,
+            **{"plot_opts": {"color": color, "ls": ":", "lw": 1}, **kwargs},
         )
 
     def plot_chain_error(
-- 
2.43.0


From 214adb3534dc84e293bb84fe1eb9032a55b40a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 12/55] fix: IterativeLinearProblem initialises the attributes
 its inherited methods read

---
 src/mud/base.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6187571..ba2e041 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1425,16 +1425,10 @@ class IterativeLinearProblem(LinearGaussianProblem):
     def __init__(
         self, A, b, y=None, mu_i=None, cov=None, data_cov=None, idx_order=None
     ):
-        # Make sure A is 2D array
-        self.A = A if A.ndim == 2 else A.reshape(1, -1)
-
-        # Initialize to defaults - Reshape everything into 2D arrays.
-        n_samples, dim_input = self.A.shape
-        self.data_cov = np.eye(n_samples) if data_cov is None else data_cov
-        self.cov = np.eye(dim_input) if cov is None else cov
-        self.mu_i = np.zeros((dim_input, 1)) if mu_i is None else mu_i.reshape(-1, 1)
-        self.b = np.zeros((n_samples, 1)) if b is None else b.reshape(-1, 1)
-        self.y = np.zeros(n_samples) if y is None else y.reshape(-1, 1)
+        super().__init__(A=A, b=b, y=y, mean_i=mu_i, cov_i=cov, cov_o=data_cov)
+        self.data_cov = self.cov_o
+        self.cov = self.cov_i
+        self.mu_i = self.mean_i
         self.idx_order = range(self.A.shape[0]) if idx_order is None else idx_order
 
         # Verify arguments?
-- 
2.43.0


From cd5227ac53aeee4656e1de5d235a1089ffac7a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 13/55] fix: name of the xarray availability flag

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index ba2e041..e09e032 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -16,7 +16,7 @@ from mud.util import add_noise, fit_domain, make_2d_unit_mesh, null_space, set_s
 try:
     import xarray as xr  # type: ignore
 
-    xr_avial = True
+    xr_avail = True
 except ModuleNotFoundError:
     xr_avail = False
     pass
-- 
2.43.0


From 397bffdf45ac410d24b42c3871ca3ac008aa1456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 14/55] fix: reference parameter is initialised and validated
 under its own name

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e09e032..6a9bffc 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1544,7 +1544,7 @@ class SpatioTemporalProblem(object):
         self._lam = None
         self._data = None
         self._measurements = None
-        self._true_lam = None
+        self._lam_ref = None
         self._true_vals = None
         self._sample_dist = None
         self.sensors = None
@@ -1831,7 +1831,7 @@ class SpatioTemporalProblem(object):
         if check_meas:
             req_attrs.append("measurements")
         if check_true:
-            req_attrs.append("true_lam")
+            req_attrs.append("lam_ref")
             req_attrs.append("true_vals")
 
         missing = [x for x in req_attrs if self.__getattribute__(x) is None]
-- 
2.43.0


From de4fa3d271ad5b0e99cd0037f350eefc784e4c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 15/55] fix: fitting a Bayesian problem without likelihood
 raises a ValueError

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6a9bffc..8dbb1e7 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -818,7 +818,7 @@ class BayesProblem(object):
         if self._pr is None:
             self.set_prior()
         if self._ll is None:
-            self.set_likelihood()
+            raise ValueError("Likelihood not set. Run set_likelihood() first.")
 
         if self._log:
             ps_pdf = np.add(np.log(self._pr), self._ll)
-- 
2.43.0


From b10cc01dda6fcd577fa4e9d502a40bbe63087e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 16/55] fix: domain setter checks the domain being set

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 8dbb1e7..8e2160c 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1629,7 +1629,7 @@ class SpatioTemporalProblem(object):
     def domain(self, domain):
         domain = np.reshape(domain, (-1, 2))
         if self.lam is not None:
-            if self.domain.shape[0] != self.lam.shape[1]:
+            if domain.shape[0] != self.lam.shape[1]:
                 raise ValueError("Domain and parameter array dimension mismatch.")
             min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
             if not all(
-- 
2.43.0


From a74a832456e11d25edbe1e6f60129e8a43c86c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 17/55] fix: unknown QoI map types raise

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 8e2160c..f9b74d0 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2019,7 +2019,7 @@ class SpatioTemporalProblem(object):
             self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
             qoi = residuals @ (v[0:num_components, :]).T
         else:
-            ValueError(f"Unrecognized QoI Map type {method}")
+            raise ValueError(f"Unrecognized QoI Map type {method}")
 
         # qoi = qoi.reshape(sub_n_samples, -1)
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
-- 
2.43.0


From 99fb2704f29bf0e51763f8bd07df38a41d48b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 18/55] fix: data weights apply per observation column of the
 selected data

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f9b74d0..f7fd259 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1992,8 +1992,8 @@ class SpatioTemporalProblem(object):
         sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
-            data_weights = np.reshape(data_weights, (-1, 1))
-            if data_weights.shape[0] != self.n_sensors * self.n_ts:
+            data_weights = np.reshape(data_weights, (1, -1))
+            if data_weights.shape[1] != residuals.shape[1]:
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
                 )
-- 
2.43.0


From f0a46e05378cc1efb7ce47b8cf0a6dc78768ea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 19/55] fix: data-constructed WME map divides by the root of
 the number of observations

---
 src/mud/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f7fd259..acf8057 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1989,7 +1989,6 @@ class SpatioTemporalProblem(object):
             sensors_mask=sensors_mask,
         )
         residuals = (sub_meas - sub_data) / self.std_dev
-        sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
             data_weights = np.reshape(data_weights, (1, -1))
@@ -2001,7 +2000,7 @@ class SpatioTemporalProblem(object):
             residuals = data_weights * residuals
 
         if method == "wme":
-            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_n_samples)
+            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
         elif method == "pca":
             # Learn qoi to use using PCA
             pca_res, X_train = pca(residuals, n_components=num_components)
@@ -2021,7 +2020,6 @@ class SpatioTemporalProblem(object):
         else:
             raise ValueError(f"Unrecognized QoI Map type {method}")
 
-        # qoi = qoi.reshape(sub_n_samples, -1)
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
         return d
-- 
2.43.0


From 4b454c363a4132cbbd9329d3b01754e355fc3313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 20/55] fix: rank_decomposition sums the leading singular
 components

---
 src/mud/util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index 9254d65..73376bd 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -231,11 +231,10 @@ def rank_decomposition(A: np.typing.ArrayLike) -> List[np.ndarray]:
     A = np.array(A)
     A_ranks = []
     rank_1_updates = []
-    u, s, v = np.linalg.svd(A)
-    A_ranks.append(s[0] * (u[:, 0].reshape(-1, 1)) @ v[:, 0].reshape(1, -1))
-    for i in range(1, A.shape[1]):
-        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ v[:, i].reshape(1, -1))
-        A_ranks.append(sum(rank_1_updates[0:i]))
+    u, s, vh = np.linalg.svd(A)
+    for i in range(min(A.shape)):
+        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
+        A_ranks.append(sum(rank_1_updates[0 : i + 1]))
 
     return A_ranks
 
-- 
2.43.0


From 54a29ef0effc8aa3f66f9ccfa40e9eb5e1595b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 21/55] fix: data mismatch functional uses Ax + b - y

---
 src/mud/base.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index acf8057..6e89dd5 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1090,15 +1090,12 @@ class LinearGaussianProblem(object):
         individual terms in functionals that are minimized to solve the
         linear gaussian problem.
         """
-        # Compute observed mean
-        mean_o = self.y - self.b
-
         # Define inner-producted induced by vector norm
         def ip(X, mat):
             return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
 
         # First compute data mismatch norm
-        data_term = ip((self.A @ X.T + self.b) - mean_o.T, self.cov_o)
+        data_term = ip(self.A @ X.T + self.b - self.y, self.cov_o)
         if terms == "data":
             return data_term
 
-- 
2.43.0


From d72ad2829542dadc41f44cb8eb3bf761d70f5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 22/55] fix: functionals scale the initial covariance by alpha,
 as the solutions do

---
 src/mud/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6e89dd5..4604363 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1100,14 +1100,13 @@ class LinearGaussianProblem(object):
             return data_term
 
         # Tikhonov Regularization Term
-        reg_term = self.alpha * ip((X - self.mean_i.T).T, self.cov_i)
+        a_cov_i = self.alpha * self.cov_i
+        reg_term = ip((X - self.mean_i.T).T, a_cov_i)
         if terms == "reg":
             return reg_term
 
         # Data-Consistent Term - "un-regularization" in data-informed directions
-        dc_term = self.alpha * ip(
-            self.A @ (X - self.mean_i.T).T, self.A @ self.cov_i @ self.A.T
-        )
+        dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ a_cov_i @ self.A.T)
         if terms == "dc_term":
             return dc_term
 
-- 
2.43.0


From 4dd60ea532b64201b60a153bdd3356e25858d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 23/55] fix: one-dimensional parameter input means samples of
 one parameter

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4604363..f0a7092 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -108,7 +108,7 @@ class DensityProblem(object):
         normalize: bool = False,
         pad_domain: float = 0.1,
     ):
-        self.X = set_shape(np.array(X), (1, -1))
+        self.X = set_shape(np.array(X), (-1, 1))
         self.y = set_shape(np.array(y), (-1, 1))
 
         # These will be updated in set_ and fit() functions
-- 
2.43.0


From 05da19ce6e5d72848a804e6a2fbb198395471074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 24/55] fix: density plots draw the updated distribution of the
 inputs in force

---
 src/mud/base.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f0a7092..2eea28b 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -508,10 +508,9 @@ class DensityProblem(object):
             )
         if up_opts is not None:
             uo.update(up_opts)
-            if self._r is not None:
-                up_kde = gkde(self.X.T, weights=self._r * self._weights)
-            else:
-                up_kde = gkde(self.X.T, weights=None)
+            if self._up is None:
+                self.fit()
+            up_kde = gkde(self.X.T, weights=self._r * self._weights)
             plot_dist(
                 up_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **uo
             )
@@ -611,10 +610,9 @@ class DensityProblem(object):
             fo.update(pf_opts)
 
             # Compute PF of updated
-            if self._r is not None:
-                pf_kde = gkde(self.y.T, weights=self._weights * self._r)
-            else:
-                pf_kde = gkde(self.y.T, weights=None)
+            if self._up is None:
+                self.fit()
+            pf_kde = gkde(self.y.T, weights=self._weights * self._r)
             plot_dist(pf_kde, y_range, idx=obs_idx, ax=ax, source="kde", aff=aff, **fo)
 
         return ax
-- 
2.43.0


From cc8cbca800dc4a7ddb4b9d9959f91cc5030ab318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 25/55] fix: observable-space plot fits first and accepts any
 predicted distribution

---
 src/mud/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 2eea28b..8cfbcc1 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -595,6 +595,8 @@ class DensityProblem(object):
             raise ValueError("Invalid domain dimension")
 
         assert self._ob_dist is not None, "Observed dist empty"
+        if self._up is None:
+            self.fit()
         if ob_opts:
             oo.update(ob_opts)
             plot_dist(
@@ -602,7 +604,7 @@ class DensityProblem(object):
             )
         if pr_opts:
             po.update(pr_opts)
-            source = "pdf" if isinstance(self._pr_dist, type(dist.uniform())) else "kde"
+            source = "kde" if isinstance(self._pr_dist, gkde) else "pdf"
             plot_dist(
                 self._pr_dist, y_range, idx=obs_idx, ax=ax, source=source, aff=aff, **po
             )
@@ -610,8 +612,6 @@ class DensityProblem(object):
             fo.update(pf_opts)
 
             # Compute PF of updated
-            if self._up is None:
-                self.fit()
             pf_kde = gkde(self.y.T, weights=self._weights * self._r)
             plot_dist(pf_kde, y_range, idx=obs_idx, ax=ax, source="kde", aff=aff, **fo)
 
-- 
2.43.0


From 462a1412a73a0fdba7a8680bd962870059ec9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 26/55] fix: Bayesian plots weight by the posterior itself also
 in log form

---
 src/mud/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 8cfbcc1..3e57d10 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -837,6 +837,12 @@ class BayesProblem(object):
     def estimate(self):
         return self.map_point()
 
+    def _ps_weights(self):
+        # Posterior values up to a constant, as needed for density weights
+        if self._log:
+            return np.exp(self._ps - np.max(self._ps))
+        return self._ps
+
     # TODO: Make changes similar to DensityProblem class
     def plot_param_space(
         self,
@@ -881,7 +887,7 @@ class BayesProblem(object):
         if ps_opts is not None:
             pso.update(ps_opts)
             self.estimate()
-            ps_kde = gkde(self.X.T, weights=self._ps)
+            ps_kde = gkde(self.X.T, weights=self._ps_weights())
             plot_dist(
                 ps_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **pso
             )
@@ -962,7 +968,8 @@ class BayesProblem(object):
             po.update(pf_opts)
 
             # Compute PF of posterior
-            pf_kde = gkde(self.y.T, weights=self._ps)
+            self.estimate()
+            pf_kde = gkde(self.y.T, weights=self._ps_weights())
             pf_p = margins(np.reshape(pf_kde(grid_points).T, XXX[0].shape))[
                 obs_idx
             ].reshape(-1)
-- 
2.43.0


From 377140130e87119c1a91b0981a371d14d37063fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 27/55] fix: Bayesian parameter-space plot sets the default
 prior it draws

---
 src/mud/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 3e57d10..1d4d566 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -871,6 +871,8 @@ class BayesProblem(object):
 
         # Default x_range to full domain of all parameters
         x_range = x_range if x_range is not None else self.domain
+        if self._pr is None:
+            self.set_prior()
 
         # Plot distributions for all not set to None
         if pr_opts is not None:
-- 
2.43.0


From 0f67add1420cb66bc0f732cec4199df15ad16783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 28/55] fix: marginals are taken along the requested index for
 any dimension

---
 src/mud/base.py | 3 ++-
 src/mud/plot.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 1d4d566..4e1b174 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -948,7 +948,8 @@ class BayesProblem(object):
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
 
         # Build grid of points over range to compute marginals
-        XXX = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in y_range])
+        axes = [np.linspace(i, j, aff)[:-1] for i, j in y_range]
+        XXX = np.meshgrid(*axes, indexing="ij")
         grid_points = np.vstack([x.ravel() for x in XXX])
         y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
 
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 5970521..b7428bc 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -194,7 +194,8 @@ def build_nd_mesh_grid(domain, aff=100):
 
     """
 
-    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain])
+    axes = [np.linspace(i, j, aff)[:-1] for i, j in domain]
+    mesh = np.meshgrid(*axes, indexing="ij")
     grid_points = np.vstack([x.ravel() for x in mesh])
 
     return (mesh, grid_points)
@@ -220,7 +221,7 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
         ].reshape(-1)
     elif source == "kde":
         # Compute observed distribution using kernel density estimate
-        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape).T)[idx].reshape(-1)
+        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
     else:
         raise ValueError("Source must be one of pdf or kde.")
 
-- 
2.43.0


From 5b654e2079df55d1a14c165900452a7d77537697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 29/55] fix: contour lines pass through the reference point

---
 src/mud/base.py | 4 ++--
 src/mud/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4e1b174..0e43faa 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1310,8 +1310,8 @@ class LinearGaussianProblem(object):
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
-            xloc = [ref[0] - w * AA[i, 0], ref[1] + w * AA[i, 0]]
-            yloc = [ref[0] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
+            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
+            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
             ax.plot(xloc, yloc, **plot_opts)
 
             # If annotate is set, then label line with given annotations
diff --git a/src/mud/plot.py b/src/mud/plot.py
index b7428bc..de64083 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -122,8 +122,8 @@ def plot_contours(
     numQoI = A.shape[0]
     AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
     for i, contour in enumerate(subset):
-        xloc = [ref_param[0] - w * AA[i, 0], ref_param[1] + w * AA[i, 0]]
-        yloc = [ref_param[0] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
+        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
+        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
         plt.plot(xloc, yloc, c=color, ls=ls, lw=lw, **kwds)
         plt.annotate("%d" % (contour + 1), (xloc[0], yloc[0]), fontsize=fs)
 
-- 
2.43.0


From eca056f1b2eeef9b89b5e0eff661dd9f0af7cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 30/55] fix: plots draw on the axes they are given

---
 src/mud/base.py | 13 +++++--------
 src/mud/plot.py |  2 +-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0e43faa..e8ecf9b 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -700,8 +700,7 @@ class DensityProblem(object):
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-            fig = plt.gcf()
-            fig.colorbar(sp)
+            ax.figure.colorbar(sp, ax=ax)
 
         ax.set_xlabel(rf"$\lambda_{x_1+1}$")
         ax.set_ylabel(rf"$\lambda_{x_2+1}$")
@@ -1899,8 +1898,7 @@ class SpatioTemporalProblem(object):
             tc = ax.tricontour(sensors[:, 0], sensors[:, 1], contours, **kwargs)
 
         if colorbar:
-            fig = plt.gcf()
-            fig.colorbar(tc)
+            ax.figure.colorbar(tc, ax=ax)
 
         return ax
 
@@ -1914,11 +1912,10 @@ class SpatioTemporalProblem(object):
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
 
-        sp = plt.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
+        sp = ax.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
 
         if colorbar and "c" in kwargs.keys():
-            fig = plt.gcf()
-            fig.colorbar(sp)
+            ax.figure.colorbar(sp, ax=ax)
 
         return ax
 
@@ -1955,7 +1952,7 @@ class SpatioTemporalProblem(object):
             "s": 2,
         }
         def_kwargs.update(meas_kwargs)
-        _ = plt.scatter(times, sub_meas, **def_kwargs)
+        _ = ax.scatter(times, sub_meas, **def_kwargs)
 
         # Plot simulated data time series
         def_sample_kwargs = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
diff --git a/src/mud/plot.py b/src/mud/plot.py
index de64083..fc9ebb5 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -154,7 +154,7 @@ def plot_1D_vecs(vecs, markers=None, ax=None, label=True, **kwargs):
     for i, v in enumerate(vecs):
         if markers is not None:
             kwargs["marker"] = markers[i]
-        plt.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
+        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
 
     if label:
         ax.set_xlabel("i")
-- 
2.43.0


From a7b238ef23287605e2fd935316f0a10f1c9042a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 31/55] fix: the latex probe at import touches no user figure
 and no file in the working directory

---
 src/mud/plot.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mud/plot.py b/src/mud/plot.py
index fc9ebb5..de21c25 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -8,11 +8,13 @@ Functions
 ---------
 
 """
+from io import BytesIO
 from logging import getLogger
 from pathlib import Path
 
 import numpy as np
 from matplotlib import pyplot as plt  # type: ignore
+from matplotlib.figure import Figure  # type: ignore
 from scipy.stats.contingency import margins  # type: ignore
 
 from mud.util import null_space
@@ -23,15 +25,13 @@ _logger = getLogger(__name__)
 def _check_latex():
     """check latex installation"""
     original_params = plt.rcParams.copy()
-    path = Path.cwd() / ".test_fig.png"
     try:  # minimal example to trip up matplotlib
         plt.rcParams.update({"text.usetex": True})
-        plt.plot([0], [1], label=r"$a_\text{foo} = \lambda$")
-        plt.plot([0, 1], [1, 2], label="Something")
-        plt.savefig(str(path), bbox_inches="tight")
-        # For Python 3.7 compatibility
-        if path.exists():
-            path.unlink()
+        fig = Figure()
+        ax = fig.add_subplot(1, 1, 1)
+        ax.plot([0], [1], label=r"$a_\text{foo} = \lambda$")
+        ax.plot([0, 1], [1, 2], label="Something")
+        fig.savefig(BytesIO(), bbox_inches="tight")
         _logger.info("USING TEX")
         return True
     except (RuntimeError, FileNotFoundError):
@@ -39,7 +39,6 @@ def _check_latex():
         return False
     finally:
         plt.rcParams.update(original_params)  # Restore the original parameters
-        plt.close("all")  # Close all figures to release any resources
 
 
 # # Matplotlib plotting options
-- 
2.43.0


From 69802106ba9d8ab61920033f407612ceb38f3a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 32/55] fix: wme accepts data as a column

---
 src/mud/funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index d030ecf..762e5f4 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -44,7 +44,7 @@ def wme(predictions, data, sd=None):
     if N != len(data):
         raise ValueError(f"Predictions and data dim mismatch {N} != {len(data)}")
 
-    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - data), axis=1)
+    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - np.ravel(data)), axis=1)
 
 
 def updated_cov(X, init_cov=None, data_cov=None):
-- 
2.43.0


From 8f3aa470f1ad2e69a9f7a7185f5342acc0e28fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 33/55] fix: explicit predicted densities multiply across
 outputs

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e8ecf9b..0dd5976 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -303,7 +303,9 @@ class DensityProblem(object):
             distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)
             pred_pdf_values = distribution.pdf(self.y.T).T
         else:
-            pred_pdf_values = distribution.pdf(self.y, **kwargs)
+            pred_pdf_values = np.asarray(distribution.pdf(self.y, **kwargs))
+            if pred_pdf_values.ndim > 1:
+                pred_pdf_values = pred_pdf_values.prod(axis=1)
 
         self._pr_dist = distribution
         self._pr = pred_pdf_values.ravel()
-- 
2.43.0


From 858a1bd9e463835442e5011bb925c7064bf13d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 34/55] fix: sensor selection keeps the sensors' own dimension

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0dd5976..1b3fd87 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1870,7 +1870,9 @@ class SpatioTemporalProblem(object):
             if sub_meas is not None:
                 sub_meas = sub_meas[:, times_mask]
         if sensors_mask is not None:
-            sub_sensors = np.reshape(self.sensors[sensors_mask], (-1, 2))
+            sub_sensors = np.reshape(
+                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
+            )
             sub_data = sub_data[:, sensors_mask, :]
             if sub_meas is not None:
                 sub_meas = sub_meas[sensors_mask, :]
-- 
2.43.0


From 78ffe4158ab75ea05eae79ce5948c466baafe05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 35/55] fix: reference values pass through their setter

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 1b3fd87..696718d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1754,7 +1754,7 @@ class SpatioTemporalProblem(object):
         Add noise to a reference solution.
         """
         if ref is not None:
-            self._true_vals = ref
+            self.true_vals = ref
         if std_dev is not None:
             self.std_dev = std_dev
         if self.true_vals is None or self.std_dev is None:
-- 
2.43.0


From a8d7f0bf276f86d632fc1d6b40bf5a47d7e611ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 36/55] fix: unknown linear solution methods are rejected

---
 src/mud/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 696718d..0d78733 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1139,6 +1139,9 @@ class LinearGaussianProblem(object):
         Explicitly solve linear problem using given method.
 
         """
+        if method not in ("mud", "mud_alt", "map", "ls", "all"):
+            raise ValueError(f"Unrecognized solution method {method}")
+
         # Reduce output dimension if desired
         od = self.A.shape[0] if output_dim is None else output_dim
         _A = self.A[:od, :]
-- 
2.43.0


From 7f77e9711b583fd415788cebc208497e14479cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 37/55] fix: time-series plot draws the randomly chosen samples

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0d78733..9c66af9 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1966,11 +1966,11 @@ class SpatioTemporalProblem(object):
         def_sample_kwargs.update(samples_kwargs)
         for i, idx in enumerate(np.random.choice(num_samples, max_plot)):
             if i != (max_plot - 1):
-                _ = ax.plot(times, sub_data[i, :], **def_sample_kwargs)
+                _ = ax.plot(times, sub_data[idx, :], **def_sample_kwargs)
             else:
                 _ = ax.plot(
                     times,
-                    sub_data[i, :],
+                    sub_data[idx, :],
                     "r-",
                     alpha=alpha,
                     label=f"Sensor {sensor_idx}",
-- 
2.43.0


From 8b33d33d4242a46de3afc1d04b3a3dad02187469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 38/55] fix: load reads custom keys, skips absent entries, sets
 lam and data before what depends on them

---
 src/mud/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 9c66af9..0b970ea 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1805,9 +1805,9 @@ class SpatioTemporalProblem(object):
             ds = df
 
         def get_set_val(f, v):
-            if f in ds.keys():
-                self.__setattr__(f, ds[v])
-            elif v is not None and not isinstance(v, str):
+            if isinstance(v, str):
+                v = ds[v] if v in ds.keys() else None
+            if v is not None:
                 self.__setattr__(f, v)
 
         field_names = {
@@ -1815,6 +1815,8 @@ class SpatioTemporalProblem(object):
             "domain": "domain",
             "sensors": "sensors",
             "times": "times",
+            "lam": lam,
+            "data": data,
             "lam_ref": "lam_ref",
             "std_dev": "std_dev",
             "true_vals": "true_vals",
@@ -1824,9 +1826,6 @@ class SpatioTemporalProblem(object):
         for f, v in field_names.items():
             get_set_val(f, v)
 
-        get_set_val("lam", lam)
-        get_set_val("data", data)
-
         return ds
 
     def validate(
-- 
2.43.0


From 975b0f5c0b6d17549d10359dab310a48cd0ea625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 39/55] fix: default sampling type of data_prob is one the
 problem class accepts

---
 src/mud/funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index 762e5f4..f845e47 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -216,7 +216,7 @@ def data_prob(
     qoi_true=None,
     measurements=None,
     std_dev=None,
-    sample_dist="uniform",
+    sample_dist="u",
     domain=None,
     lam_ref=None,
     times=None,
-- 
2.43.0


From 64207e3cda5e392e62f703cbec8ac7f65f831c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 40/55] fix: plotChain accepts the flat points that iterate
 returns

---
 src/mud/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/plot.py b/src/mud/plot.py
index de21c25..2698518 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -97,6 +97,7 @@ def save_figure(
 
 
 def plotChain(mud_chain, ref_param, color="k", s=100):
+    mud_chain = [np.reshape(point, (-1, 1)) for point in mud_chain]
     num_steps = len(mud_chain)
     current_point = mud_chain[0]
     plt.scatter(current_point[0], current_point[1], c="b", s=s)
-- 
2.43.0


From fcd4b643d34e4065e494c2d006eac3c3b734dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 41/55] fix: errors are measured against flat references too

---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0b970ea..e3fb055 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1488,6 +1488,7 @@ class IterativeLinearProblem(LinearGaussianProblem):
 
         """
         solutions = np.concatenate([x[1:] for x in self.solution_chains])
+        ref_param = np.reshape(ref_param, (-1, 1))
         self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
         return self.errors
 
-- 
2.43.0


From 8b4be901057ad324a63aa5d38f3a1e981ec187f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 42/55] fix: likelihood plot evaluates one grid point per row

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e3fb055..ec7228c 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -962,7 +962,7 @@ class BayesProblem(object):
 
             # Compute observed distribution using stored pdf
             ll_plot = margins(
-                np.reshape(self._ll_dist.pdf(grid_points).T.prod(axis=1), XXX[0].shape)
+                np.reshape(self._ll_dist.pdf(grid_points.T).prod(axis=1), XXX[0].shape)
             )[obs_idx].reshape(-1)
 
             # Plot pf of initial
-- 
2.43.0


From e217875d4f768ccb85df59d002b75f913a0fee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 43/55] fix: plot ranges may be lists, as documented

---
 src/mud/base.py | 1 +
 src/mud/plot.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index ec7228c..e706c9e 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -947,6 +947,7 @@ class BayesProblem(object):
         # Default range is (-1,1) over each observable variable
         if y_range is None:
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
+        y_range = np.reshape(y_range, (-1, 2))
 
         # Build grid of points over range to compute marginals
         axes = [np.linspace(i, j, aff)[:-1] for i, j in y_range]
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 2698518..43ad92d 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -209,6 +209,8 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
     # Create plot if one isn't passed in
     _, ax = plt.subplots(1, 1) if ax is None else (None, ax)
 
+    domain = np.reshape(domain, (-1, 2))
+
     # Mesh is a list of grids over n-dim space the distribution is defined over
     mesh, grid = build_nd_mesh_grid(domain, aff=aff)
     plot_x = np.linspace(domain[idx, 0], domain[idx, 1], aff)[: aff - 1]
-- 
2.43.0


From 5cfe88686488adef7a09d514a3fa1b03107cdd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 44/55] fix: data norm works for several outputs and for its
 default mean

---
 src/mud/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index 543badd..5b2e147 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -47,7 +47,7 @@ def norm_input(inputs, initial_mean, initial_cov):
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
     if isinstance(observed_cov, int) or isinstance(observed_cov, float):
         observed_cov = observed_cov * np.eye(len(data))
-    X = (operator @ inputs.T + data) - observed_mean.T
+    X = (inputs @ operator.T + np.ravel(data) - np.ravel(observed_mean)).T
     return inner_product(X, observed_cov)
 
 
-- 
2.43.0


From 54390ed3fda8fef7923898a800f7fea9e2a91061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 45/55] fix: negative deviations are rejected for distinct
 observations too

---
 src/mud/base.py | 2 +-
 src/mud/util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e706c9e..eb60f06 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1417,7 +1417,7 @@ class LinearWMEProblem(LinearGaussianProblem):
             if isinstance(std, (list, tuple)):
                 std = np.array(std)
             assert len(std) == num_observations, "Standard deviation shape mismatch"
-            assert 0 not in np.round(std, 14), "Std must be > 1E-14"
+            assert np.all(std > 1e-14), "Std must be > 1E-14"
             D = np.diag(1.0 / (std * np.sqrt(num_observations)))
             A = np.sum(D @ operator, axis=0)
         else:
diff --git a/src/mud/util.py b/src/mud/util.py
index 73376bd..a8ba808 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -59,7 +59,7 @@ def transform_linear_map(operator, data, std):
         if isinstance(std, (list, tuple)):
             std = np.array(std)
         assert len(std) == num_observations, "Standard deviation shape mismatch"
-        assert 0 not in np.round(std, 14), "Std must be > 1E-14"
+        assert np.all(std > 1e-14), "Std must be > 1E-14"
         D = np.diag(1.0 / (std * np.sqrt(num_observations)))
         A = np.sum(D @ operator, axis=0)
     else:
-- 
2.43.0


From 04323a6d44a2ebe8b8755f4083aa650d38ad0f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 46/55] fix: reference parameter must have the dimension of the
 domain

---
 src/mud/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index eb60f06..70f1b85 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1624,6 +1624,8 @@ class SpatioTemporalProblem(object):
         if self.domain is None:
             raise AttributeError("domain not yet set.")
         lam_ref = np.reshape(lam_ref, (-1))
+        if lam_ref.shape[0] != self.n_params:
+            raise ValueError("lam_ref dimension does not match domain specified.")
         for idx, lam in enumerate(lam_ref):
             if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
                 raise ValueError(
-- 
2.43.0


From f7974b52ec9f21fbf280910e70ce77c2ec3818da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 47/55] fix: svd forwards its extra options to numpy

---
 src/mud/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/preprocessing.py b/src/mud/preprocessing.py
index 64efd10..abb292d 100644
--- a/src/mud/preprocessing.py
+++ b/src/mud/preprocessing.py
@@ -167,6 +167,6 @@ def svd(data: ArrayLike, **kwargs) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
     # Standarize and perform SVD
     sc = StandardScaler()
     X = sc.fit_transform(data)
-    U, S, V = np.linalg.svd(X)
+    U, S, V = np.linalg.svd(X, **kwargs)
 
     return (U, S, V)
-- 
2.43.0


From d7f4f51e011660627d3e5e00c6b7e8774c8cbf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 48/55] fix: add_noise draws one value per entry of signals of
 any shape

---
 src/mud/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index a8ba808..8792281 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -221,7 +221,7 @@ def add_noise(signal: ArrayLike, sd: float = 0.05, seed: Optional[int] = None):
         np.random.seed(seed)
 
     # Populate qoi_true with noise
-    noise = np.random.randn(signal.size) * sd
+    noise = np.random.randn(*signal.shape) * sd
 
     return signal + noise
 
-- 
2.43.0


From 683d607bc467cedbe49cda3dbbcd1cb6b72d37ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 49/55] fix: compute_functionals rejects unknown terms instead
 of returning every term

---
 src/mud/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 70f1b85..2f792c3 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1100,6 +1100,9 @@ class LinearGaussianProblem(object):
         individual terms in functionals that are minimized to solve the
         linear gaussian problem.
         """
+        if terms not in ("all", "data", "reg", "dc_term", "reg_m", "bayes", "dc"):
+            raise ValueError(f"Unrecognized functional term {terms}")
+
         # Define inner-producted induced by vector norm
         def ip(X, mat):
             return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
-- 
2.43.0


From 51949d97e07ae4ee703af63ba856d5d7cdbd029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 50/55] fix: reject offsets whose length differs from the rows
 of the map

---
 src/mud/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 2f792c3..ce416ba 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1078,6 +1078,11 @@ class LinearGaussianProblem(object):
                 "Number of samples in X and y does not correspond:"
                 " %d != %d" % (ns, n_data)
             )
+        if self.b.shape[0] not in (1, ns):
+            raise ValueError(
+                "Number of rows in A and b does not correspond:"
+                " %d != %d" % (ns, self.b.shape[0])
+            )
 
         # Initialize to no solution
         self.sol = None
-- 
2.43.0


From 811c4f9550f7efe5ba65da794a35c069ebe1425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 51/55] fix: transform_linear_map returns its map as one row,
 as documented

---
 src/mud/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index 8792281..ae879ad 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -61,7 +61,7 @@ def transform_linear_map(operator, data, std):
         assert len(std) == num_observations, "Standard deviation shape mismatch"
         assert np.all(std > 1e-14), "Std must be > 1E-14"
         D = np.diag(1.0 / (std * np.sqrt(num_observations)))
-        A = np.sum(D @ operator, axis=0)
+        A = np.sum(D @ operator, axis=0, keepdims=True)
     else:
         if isinstance(std, (list, tuple, np.ndarray)):
             raise ValueError("For repeated measurements, pass a float for std")
-- 
2.43.0


From 906e65978a0e61568847e99ed64ea3ea133f20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:10 +0000
Subject: [PATCH 52/55] fix: mud_problem records the map whose columns n_qoi
 counts

---
 src/mud/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index ce416ba..0804260 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2039,6 +2039,9 @@ class SpatioTemporalProblem(object):
         else:
             raise ValueError(f"Unrecognized QoI Map type {method}")
 
+        # One column per component of the map
+        self.qoi = np.reshape(qoi, (residuals.shape[0], -1))
+
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
         return d
-- 
2.43.0


From 3953d42639cc171cb8fa34e5a320a6f04d83e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:00 +0000
Subject: [PATCH 53/55] fix: sensor_contour_plot colours masked sensors by
 their own data

---
 src/mud/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0804260..bd6afb9 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1908,7 +1908,11 @@ class SpatioTemporalProblem(object):
             ax = fig.add_subplot(1, 1, 1)
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
-        contours = c_vals if c_vals is not None else self.data[idx, :].ravel()
+        if c_vals is not None:
+            contours = c_vals
+        else:
+            contours = self.data[idx, :].ravel()
+            contours = contours[mask] if mask is not None else contours
 
         if fill:
             tc = ax.tricontourf(sensors[:, 0], sensors[:, 1], contours, **kwargs)
-- 
2.43.0


From c6fdfb2aef3d8e170a4d57326140651e0b4f7b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:44 +0000
Subject: [PATCH 54/55] fix: log posteriors that add up to zero were refused,
 vanishing ones accepted

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index bd6afb9..242e809 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -825,7 +825,9 @@ class BayesProblem(object):
             ps_pdf = np.multiply(self._pr, self._ll)
 
         assert ps_pdf.shape[0] == self.X.shape[0]
-        if np.sum(ps_pdf) == 0:
+        # A log posterior vanishes where it is minus infinity
+        no_mass = np.all(np.isneginf(ps_pdf)) if self._log else np.sum(ps_pdf) == 0
+        if no_mass:
             raise ValueError("Posterior numerically unstable.")
         self._ps = ps_pdf
 
-- 
2.43.0


From 06a461c9fc996f4d11a65beacac728302cf3830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:27 +0000
Subject: [PATCH 55/55] fix: iterative problems failed with an offset shared by
 all rows

---
 src/mud/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 242e809..40e82a4 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1477,7 +1477,8 @@ class IterativeLinearProblem(LinearGaussianProblem):
                 epoch.append(
                     LinearGaussianProblem(
                         self.A[i, :],
-                        self.b[i],
+                        # One offset may be shared by all rows
+                        self.b[i] if self.b.shape[0] > 1 else self.b[0],
                         self.y[i],
                         mean_i=solutions[-1],
                         cov_i=self.cov,
-- 
2.43.0

