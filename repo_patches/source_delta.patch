From 9e38f102be55aa929f8d938b06a9353ee3fc43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 01/31] fix: special functions no longer overwrite the caller's
 array

---
 copulae/special/_specfunc.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index cbdceda..1361899 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -82,7 +82,7 @@ cdef:
 def clausen(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -98,7 +98,7 @@ def clausen(x, bint threaded=True):
 def debye_1(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -114,7 +114,7 @@ def debye_1(x, bint threaded=True):
 def debye_2(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -130,7 +130,7 @@ def debye_2(x, bint threaded=True):
 def dilog(x, bint threaded):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -149,8 +149,8 @@ def dilog_complex(r, theta, bint threaded):
 
     cdef:
         ComplexResult c
-        cnp.ndarray[cnp.npy_float64, ndim=1] r_vec = r.ravel()
-        cnp.ndarray[cnp.npy_float64, ndim=1] i_vec = theta.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] r_vec = r.flatten()
+        cnp.ndarray[cnp.npy_float64, ndim=1] i_vec = theta.flatten()
         int n = r_vec.size
 
     assert r.shape == theta.shape, "Radius of complex vector must have same shape as the angled part"
-- 
2.43.0


From 01700bcd5080c0e04d49b0576387dedf0c1c4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 02/31] fix: parallel goodness-of-fit replicates draw from
 their own random streams

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index d5b46ac..7c8e5e7 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -101,8 +101,10 @@ class GofParametricBootstrap:
         t = self.t_stat(self.copula, self.data)
 
         if self.multiprocess:
+            # forked workers all inherit this process's random state, so every replicate gets a seed of its own
+            seeds = np.random.randint(0, 2 ** 32, size=(self.reps, 4), dtype=np.uint32)
             with ProcessPoolExecutor(os.cpu_count()) as P:
-                ts = np.array([f.result() for f in (P.submit(self._process_result) for _ in range(self.reps))])
+                ts = np.array([f.result() for f in [P.submit(self._process_result, seed) for seed in seeds]])
         else:
             ts = np.array([self._process_result() for _ in range(self.reps)])
 
@@ -111,7 +113,10 @@ class GofParametricBootstrap:
                        statistic=t,
                        pvalue=(sum(np.abs(ts) >= abs(t)) + 0.5) / (self.reps + 1))
 
-    def _process_result(self):
+    def _process_result(self, seed=None):
+        if seed is not None:
+            np.random.seed(seed)
+
         u = self.copula.random(self.data.n_row)
 
         if self.data.has_ties:
-- 
2.43.0


From e1833fdfdec2c0c61448204c8600afcdbd535e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 03/31] fix: exch_test leaves the process-wide random state
 alone

---
 copulae/gof/_exchangeability.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/gof/_exchangeability.pyx b/copulae/gof/_exchangeability.pyx
index be7c4b2..c268f96 100644
--- a/copulae/gof/_exchangeability.pyx
+++ b/copulae/gof/_exchangeability.pyx
@@ -155,10 +155,10 @@ def exch_test_cn(double[:, :] u, double[:, :] g, int n, int m, int N, int random
                                - (U[j] <= y) * (V[j] <= x)
                                + d1yx * (U[j] <= y) + d2yx * (V[j] <= x)) / sqrt(n)
 
-    np.random.seed(random_state)
+    rng = np.random.RandomState(random_state)
 
     for i in range(N):
-        random = np.random.normal(size=n)
+        random = rng.normal(size=n)
         mean = 0.0
         for j in range(n):
             mean += random[j] / n
-- 
2.43.0


From 8458f524a72947d6bc5283152fab7016daffd52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:39 +0000
Subject: [PATCH 04/31] fix: Frank sampling in three or more dimensions draws
 correct logarithmic series variates

---
 copulae/stats/log.py | 75 ++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 45 deletions(-)

diff --git a/copulae/stats/log.py b/copulae/stats/log.py
index 4d6864d..a7014b5 100644
--- a/copulae/stats/log.py
+++ b/copulae/stats/log.py
@@ -1,45 +1,30 @@
-import numpy as np
-
-from copulae.types import Numeric
-
-
-def random_log_series_ln1p(alpha: float, size: Numeric = 1):
-    """"""
-    if alpha < -3:
-        # random variate following the logarithmic (series) distribution Log(alpha)
-        p = - alpha / np.log(1 - np.expm1(alpha))
-        u = np.random.uniform(size=size)
-
-        up = u > p
-        x = 1
-        while np.any(up):
-            u[up] -= p
-            x += 1
-            p *= alpha * (x - 1) / x
-
-            up = u > p
-        return u
-    else:
-        # random variate following the logarithmic (series) distribution Log(1 - e^h)
-        e = -np.expm1(alpha)
-        u1 = np.random.uniform(size=size)
-        u2 = np.random.uniform(size=size)
-
-        h = u2 * alpha
-        q = -np.expm1(h)
-        log_q = np.where(h > -0.69314718055994530942, np.log(-np.expm1(h)), np.log1p(-np.exp(h)))
-
-        mask1 = u1 > e
-        mask2 = u1 < q * q
-        mask3 = mask2 & (log_q == 0)
-        mask4 = mask2 & (log_q != 0)
-        mask5 = ~mask2 & (u1 > q)
-        mask6 = ~mask2 & (u1 <= q)
-
-        u1[mask6] = 2
-        with np.errstate(invalid='ignore'):
-            u1[mask4] = 1 + np.floor(np.log(u1 / log_q))[mask4]
-        u1[mask3] = np.inf
-        u1[mask1 | mask5] = 1
-
-        return u1
+import numpy as np
+
+from copulae.types import Numeric
+
+
+def random_log_series_ln1p(alpha: float, size: Numeric = 1):
+    """"""
+    # random variate following the logarithmic (series) distribution Log(1 - e^h)
+    e = -np.expm1(alpha)
+    u1 = np.random.uniform(size=size)
+    u2 = np.random.uniform(size=size)
+
+    h = u2 * alpha
+    q = -np.expm1(h)
+    log_q = np.where(h > -0.69314718055994530942, np.log(-np.expm1(h)), np.log1p(-np.exp(h)))
+
+    mask1 = u1 > e
+    mask2 = u1 < q * q
+    mask3 = mask2 & (log_q == 0)
+    mask4 = mask2 & (log_q != 0)
+    mask5 = ~mask2 & (u1 > q)
+    mask6 = ~mask2 & (u1 <= q)
+
+    u1[mask6] = 2
+    with np.errstate(invalid='ignore', divide='ignore'):
+        u1[mask4] = 1 + np.floor(np.log(u1) / log_q)[mask4]
+    u1[mask3] = np.inf
+    u1[mask1 | mask5] = 1
+
+    return u1
-- 
2.43.0


From ff6ae201dcc7dfe5643d67a3156737876d839841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:31 +0000
Subject: [PATCH 05/31] fix: seeded sampling draws from its own generator, not
 the process-wide one

---
 copulae/archimedean/clayton.py   |  8 ++++----
 copulae/archimedean/frank.py     |  7 ++++---
 copulae/archimedean/gumbel.py    |  8 +++++---
 copulae/empirical/empirical.py   |  6 ++----
 copulae/mixtures/gmc/gmc.py      |  5 +----
 copulae/mixtures/gmc/random.py   | 15 +++++++++------
 copulae/stats/__init__.py        |  2 +-
 copulae/stats/_multivariate_t.py | 10 +++++-----
 copulae/stats/log.py             |  8 +++++---
 copulae/stats/stable/stable.py   | 10 ++++++----
 copulae/stats/uniform.py         | 13 +++++++++----
 11 files changed, 51 insertions(+), 41 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 4e6d950..a292453 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -1,11 +1,10 @@
 from typing import Literal
 
 import numpy as np
-import numpy.random as rng
 
 from copulae.copula import Summary, TailDep
 from copulae.core import EPS
-from copulae.stats import random_uniform
+from copulae.stats import random_generator, random_uniform
 from copulae.types import Array
 from copulae.utility.annotations import *
 from ._shared import valid_rows_in_u
@@ -147,10 +146,11 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         if np.isnan(theta):
             raise RuntimeError('Clayton copula parameter cannot be nan')
 
+        rng = random_generator(seed)
         if abs(theta) < 1e-7:
-            return random_uniform(n, self.dim, seed)
+            return random_uniform(n, self.dim, rng)
 
-        r = random_uniform(n, self.dim, seed)
+        r = random_uniform(n, self.dim, rng)
         if self.dim == 2:
             r[:, 1] = (r[:, 0] ** (-theta) * (r[:, 1] ** (-theta / (theta + 1)) - 1) + 1) ** (-1 / theta)
             return r
diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 83a6a02..6511c95 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -6,7 +6,7 @@ from copulae.copula import Summary, TailDep
 from copulae.special.debye import debye_1, debye_2
 from copulae.special.optimize import find_root
 from copulae.special.special_func import log1mexp, log1pexp, poly_log
-from copulae.stats import random_uniform
+from copulae.stats import random_generator, random_uniform
 from copulae.stats.log import random_log_series_ln1p
 from copulae.types import Array
 from copulae.utility.annotations import *
@@ -172,7 +172,8 @@ class FrankCopula(AbstractArchimedeanCopula):
 
     @cast_output
     def random(self, n: int, seed: int = None):
-        u = random_uniform(n, self.dim, seed)
+        rng = random_generator(seed)
+        u = random_uniform(n, self.dim, rng)
         if abs(self.params) < 1e-7:
             return u
 
@@ -187,7 +188,7 @@ class FrankCopula(AbstractArchimedeanCopula):
         if log1mexp(self.params) == 0:
             return np.ones((n, self.dim))
 
-        fr = random_log_series_ln1p(-self.params, n)[:, None]
+        fr = random_log_series_ln1p(-self.params, n, rng)[:, None]
         return self.psi(-np.log(u) / fr)
 
     @property
diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index c38cbfa..04badc0 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -8,7 +8,7 @@ from scipy.special import gammaln
 from copulae.copula import Summary, TailDep
 from copulae.special.special_func import polyn_eval, sign_ff, stirling_first_all, stirling_second_all
 from copulae.special.trig import cospi2
-from copulae.stats import poisson, random_uniform, skew_stable
+from copulae.stats import poisson, random_generator, random_uniform, skew_stable
 from copulae.types import Array, Numeric
 from copulae.utility.annotations import *
 from ._shared import valid_rows_in_u
@@ -229,7 +229,8 @@ class GumbelCopula(AbstractArchimedeanCopula):
         if np.isnan(self.params):
             raise RuntimeError('Clayton copula parameter cannot be nan')
 
-        u = random_uniform(n, self.dim, seed)
+        rng = random_generator(seed)
+        u = random_uniform(n, self.dim, rng)
         if self.params - 1 < 1e-7:
             return random_uniform(n, self.dim, seed)
 
@@ -237,7 +238,8 @@ class GumbelCopula(AbstractArchimedeanCopula):
             return u
 
         alpha = 1 / self.params
-        fr = skew_stable.rvs(alpha, beta=1, gamma=cospi2(alpha) ** self.params, pm=1, size=n)
+        fr = skew_stable.rvs(alpha, beta=1, gamma=cospi2(alpha) ** self.params, pm=1, size=n,
+                             random_state=rng)
 
         return self.psi(-np.log(u) / fr[:, None])
 
diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 9171d17..ba8f205 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -9,6 +9,7 @@ from copulae.copula import BaseCopula
 from copulae.copula import Summary
 from copulae.core import rank_data
 from copulae.special import log_sum
+from copulae.stats import random_generator
 from copulae.types import Array, EPSILON, Matrix, Ties
 from copulae.utility.annotations import *
 from .distribution import emp_dist_func
@@ -175,11 +176,8 @@ class EmpiricalCopula(BaseCopula[None]):
 
     @cast_output
     def random(self, n: int, seed: int = None):
-        if seed is not None:
-            np.random.seed(seed)
-
         data = np.asarray(self.data)
-        return self._format_output(data[np.random.randint(0, len(data), n)])
+        return self._format_output(data[random_generator(seed).randint(0, len(data), n)])
 
     @property
     def smoothing(self):
diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 541b46d..8f8fbe1 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -291,10 +291,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         np.ndarray
             array of generated observations
         """
-        if seed is not None:
-            np.random.seed(seed)
-
-        return random_gmcm(n, self.params)
+        return random_gmcm(n, self.params, seed)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
diff --git a/copulae/mixtures/gmc/random.py b/copulae/mixtures/gmc/random.py
index 561d029..70427a0 100644
--- a/copulae/mixtures/gmc/random.py
+++ b/copulae/mixtures/gmc/random.py
@@ -1,14 +1,14 @@
 import numpy as np
-from numpy.random import choice
 from scipy.stats import multivariate_normal as mvn
 
+from copulae.stats import random_generator
 from .marginals import gmm_marginal_cdf
 from .parameter import GMCParam
 
 __all__ = ['random_gmcm']
 
 
-def random_gmcm(n: int, param: GMCParam):
+def random_gmcm(n: int, param: GMCParam, seed=None):
     """
     Generates random variables from a Gaussian Mixture Copula Model
 
@@ -18,23 +18,26 @@ def random_gmcm(n: int, param: GMCParam):
         The number of instances to generate
     param : GMCParam
         The Gaussian Mixture Copula parameter
+    seed : int, optional
+        Seed for the random generator
 
     Returns
     -------
     np.ndarray
         An array of random variables
     """
-    z = random_gmm(n, param)  # latent realizations from Gaussian mixture model
+    z = random_gmm(n, param, seed)  # latent realizations from Gaussian mixture model
     return gmm_marginal_cdf(z, param)
 
 
-def random_gmm(n: int, param: GMCParam):
+def random_gmm(n: int, param: GMCParam, seed=None):
     """Generates random variables from a Gaussian Mixture Model"""
 
+    rng = random_generator(seed)
     output = np.empty((n, param.n_dim))
-    order = choice(range(param.n_clusters), n, p=param.prob)
+    order = rng.choice(range(param.n_clusters), n, p=param.prob)
     for i in range(param.n_clusters):
         k = sum(order == i)
-        output[order == i] = mvn.rvs(param.means[i], cov=param.covs[i], size=k)
+        output[order == i] = mvn.rvs(param.means[i], cov=param.covs[i], size=k, random_state=rng)
 
     return output
diff --git a/copulae/stats/__init__.py b/copulae/stats/__init__.py
index 32eee56..84030b3 100644
--- a/copulae/stats/__init__.py
+++ b/copulae/stats/__init__.py
@@ -2,4 +2,4 @@ from scipy.stats import *
 from ._multivariate_t import multivariate_t
 from .stable.stable import skew_stable
 from .correlation import *
-from .uniform import random_uniform
+from .uniform import random_generator, random_uniform
diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 228e058..bc43155 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -8,6 +8,7 @@ from scipy.stats import multivariate_normal as mvn
 
 from copulae.core import is_psd
 from copulae.types import Numeric, OptNumeric
+from .uniform import random_generator
 
 
 class multivariate_t:
@@ -167,9 +168,8 @@ class multivariate_t:
         elif df > cls._T_LIMIT:
             return np.asarray(mvn.rvs(mean, cov, size, random_state), dtype=float)
 
-        if random_state is not None:
-            np.random.seed(random_state)
-        d = np.sqrt(np.random.chisquare(df, size) / df)
+        rng = random_generator(random_state)
+        d = np.sqrt(rng.chisquare(df, size) / df)
 
         if isinstance(size, abc.Iterable):
             d = d.reshape(*size, -1)
@@ -183,13 +183,13 @@ class multivariate_t:
         dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
 
         if type_.casefold() == 'kshirsagar':
-            r = mvn.rvs(mean, cov, size, random_state)
+            r = mvn.rvs(mean, cov, size, rng)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
 
         elif type_.casefold() == 'shifted':
-            r = mvn.rvs(np.zeros(len(cov)), cov, size, random_state)
+            r = mvn.rvs(np.zeros(len(cov)), cov, size, rng)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
diff --git a/copulae/stats/log.py b/copulae/stats/log.py
index a7014b5..daa52e6 100644
--- a/copulae/stats/log.py
+++ b/copulae/stats/log.py
@@ -1,14 +1,16 @@
 import numpy as np
 
 from copulae.types import Numeric
+from .uniform import random_generator
 
 
-def random_log_series_ln1p(alpha: float, size: Numeric = 1):
+def random_log_series_ln1p(alpha: float, size: Numeric = 1, random_state=None):
     """"""
     # random variate following the logarithmic (series) distribution Log(1 - e^h)
+    rng = random_generator(random_state)
     e = -np.expm1(alpha)
-    u1 = np.random.uniform(size=size)
-    u2 = np.random.uniform(size=size)
+    u1 = rng.uniform(size=size)
+    u2 = rng.uniform(size=size)
 
     h = u2 * alpha
     q = -np.expm1(h)
diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 25b8c5a..c29397c 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -6,6 +6,7 @@ from scipy.stats import cauchy, norm
 
 from copulae.special.trig import tanpi2
 from copulae.stats.stable import pdf
+from copulae.stats.uniform import random_generator
 from copulae.types import Numeric
 
 __all__ = ['skew_stable']
@@ -145,15 +146,16 @@ class skew_stable:
         return cls.pdf(x, alpha, beta, gamma, delta, pm, log=True)
 
     @classmethod
-    def rvs(cls, alpha: float, beta: float, gamma=1., delta=0., pm=1, size: Numeric = 1):
+    def rvs(cls, alpha: float, beta: float, gamma=1., delta=0., pm=1, size: Numeric = 1, random_state=None):
+        rng = random_generator(random_state)
         cls._check_parameters(alpha, beta, gamma, pm)
         delta, gamma = cls._parameterize(alpha, delta, gamma, beta, pm)
 
         if np.isclose(alpha, 1) and np.isclose(beta, 0):
-            z = cauchy.rvs(size=size)
+            z = cauchy.rvs(size=size, random_state=rng)
         else:
-            theta = np.pi * (np.random.uniform(size=size) - 0.5)
-            w = np.random.standard_exponential(size)
+            theta = np.pi * (rng.uniform(size=size) - 0.5)
+            w = rng.standard_exponential(size)
 
             bt = beta * tanpi2(alpha)
             t0 = min(max(-PI2, np.arctan(bt) / alpha), PI2)
diff --git a/copulae/stats/uniform.py b/copulae/stats/uniform.py
index 27b9ed0..0172d8c 100644
--- a/copulae/stats/uniform.py
+++ b/copulae/stats/uniform.py
@@ -1,9 +1,14 @@
 import numpy as np
 
-__all__ = ['random_uniform']
+__all__ = ['random_generator', 'random_uniform']
+
+
+def random_generator(seed=None) -> np.random.RandomState:
+    """A generator for the seed, or the process-wide generator if there is no seed"""
+    if isinstance(seed, np.random.RandomState):
+        return seed
+    return np.random.mtrand._rand if seed is None else np.random.RandomState(seed)
 
 
 def random_uniform(n: int, dim: int, seed: int = None) -> np.ndarray:
-    if seed is not None:
-        np.random.seed(seed)
-    return np.random.uniform(size=(n, dim))
+    return random_generator(seed).uniform(size=(n, dim))
-- 
2.43.0


From 777191beb8d9d5cc5729934487b4edec73b448ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 06/31] fix: elliptical copulas keep their own copy of the
 parameters they are given

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 copulae/elliptical/gaussian.py             | 2 +-
 copulae/elliptical/student.py              | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 1536e65..2621b85 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -37,7 +37,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
             # itau and irho must fix degree of freedom
             copula.params = StudentParams(copula.params.df, estimate)
         else:
-            copula.params[:] = estimate
+            copula.params = estimate
 
     elif is_archimedean(copula):
         estimate = copula.params = np.mean(icor)
diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 7ea67f4..0e4784c 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -70,7 +70,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def params(self, params: Union[float, np.ndarray, Collection[float]]):
         if isinstance(params, (float, int)):
             params = np.repeat(params, len(self._rhos))
-        self._rhos = np.asarray(params)
+        self._rhos = np.array(params, dtype=float)
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 2e3b846..a06a466 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -153,9 +153,9 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     def params(self, params: Union[np.ndarray, StudentParams]):
         if isinstance(params, StudentParams):
             self._df = params.df
-            self._rhos = params.rho
+            self._rhos = np.array(params.rho, dtype=float)
         else:
-            params = np.asarray(params)
+            params = np.array(params, dtype=float)
             if len(params) != 1 + sum(range(self.dim)):
                 raise ValueError('Incompatible parameters for student copula')
 
-- 
2.43.0


From 510abb244e49aea52ebf5b9d58e1e4f78d6ee161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 07/31] fix: nan is rejected as a correlation value

---
 copulae/elliptical/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 802308f..d77ab10 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -81,7 +81,7 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
         d = self.dim
 
         if np.isscalar(value):
-            if value < -1 or value > 1:
+            if not -1 <= value <= 1:
                 raise ValueError("correlation value must be between -1 and 1")
         else:
             value = np.asarray(value)
-- 
2.43.0


From 7500488b2420c0e74172f268575c1271faee4710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 08/31] fix: a correlation edit that fails half way leaves the
 copula as it was

---
 copulae/elliptical/abstract.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index d77ab10..6504b95 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -95,8 +95,10 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
             self._rhos = value[tri_indices(d, 1, 'lower')]
             return
 
+        # work on a copy so that an edit which fails half way leaves the copula as it was
+        rhos = self._rhos.copy()
         if isinstance(index, int):
-            self._rhos[index] = value
+            rhos[index] = value
 
         else:
             index = tuple(index)
@@ -120,20 +122,20 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
                         continue
 
                     idx = _get_rho_index(d, idx)
-                    self._rhos[idx] = v
+                    rhos[idx] = v
             else:
                 # both are integers
                 idx = _get_rho_index(d, index)
-                self._rhos[idx] = float(value)
+                rhos[idx] = float(value)
 
-        self._force_psd()
+        self._force_psd(rhos)
 
-    def _force_psd(self):
+    def _force_psd(self, rhos: np.ndarray):
         """
         Forces covariance matrix to be positive semi-definite. This is useful when user is overwriting covariance
         parameters
         """
-        cov = near_psd(self.sigma)
+        cov = near_psd(create_cov_matrix(rhos))
         self._rhos = cov[tri_indices(self.dim, 1, 'lower')]
 
 
-- 
2.43.0


From b9c1b2c118864d54ef69c0b11c75a2c926be86e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 09/31] fix: the fit summary reports the unscaled log
 likelihood

---
 copulae/copula/estimator/max_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/max_likelihood.py b/copulae/copula/estimator/max_likelihood.py
index 9ae5d15..8bab675 100644
--- a/copulae/copula/estimator/max_likelihood.py
+++ b/copulae/copula/estimator/max_likelihood.py
@@ -65,4 +65,4 @@ def estimate_max_likelihood_params(copula, data: np.ndarray, x0: Union[np.ndarra
         estimate = res['x']
         copula.params = estimate
 
-    return FitSummary(estimate, "Maximum likelihood", -res['fun'], len(data), optim_options, res)
+    return FitSummary(estimate, "Maximum likelihood", -res['fun'] / scale, len(data), optim_options, res)
-- 
2.43.0


From 0375a1fee5d6edba2edf31d6eb50246a08554103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 10/31] fix: correlation inversion reports the log likelihood
 of the data it was fitted on

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 2621b85..41e3b94 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -45,7 +45,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
         raise NotImplementedError(f"Have not developed for '{copula.name} copula'")
 
     method = f"Inversion of {'Spearman Rho' if type_ == 'irho' else 'Kendall Tau'} Correlation"
-    return FitSummary(estimate, method, copula.log_lik(data), len(data))
+    return FitSummary(estimate, method, copula.log_lik(data, to_pobs=False), len(data))
 
 
 def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
-- 
2.43.0


From e8a5ec92b7ef21bd0fab34eaaaa68ef31ee17f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 11/31] fix: fit leaves the caller's optimizer options as they
 are

---
 copulae/copula/estimator/estimator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index e74545b..7479a80 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -148,6 +148,7 @@ def form_options(options: dict, verbose: int, data: np.ndarray, copula: Copula):
 
     max_iter = min(len(data) * 250, 20000)
     disp = verbose >= 2
+    options = {**options}  # leave the caller's options as they are
 
     if is_archimedean(copula):
         options.setdefault('method', 'Nelder-Mead')
-- 
2.43.0


From a787206f56b381a622c425120d1a6b1300531997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 12/31] fix: fix_df keeps the degrees of freedom of the copula
 being fitted

---
 copulae/elliptical/student.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index a06a466..96bf6a5 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -108,9 +108,12 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         if fix_df:
-            if optim_options is None:
-                optim_options = {'constraints': []}
-            optim_options['constraints'].append({'type': 'eq', 'fun': lambda x: x[0] - self._df})  # df doesn't change
+            df = self._df
+            optim_options = {**(optim_options or {})}
+            constraints = optim_options.get('constraints', [])
+            constraints = [constraints] if isinstance(constraints, dict) else [*constraints]
+            optim_options['constraints'] = [*constraints,
+                                            {'type': 'eq', 'fun': lambda x: x[0] - df}]  # df doesn't change
 
         return super().fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
 
-- 
2.43.0


From 70e11f868e9d8a34f9aaebb9eb878aee61b85a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 13/31] fix: generators, itau and marginal definitions leave
 the caller's values as they are

---
 copulae/archimedean/frank.py   | 2 +-
 copulae/archimedean/gumbel.py  | 2 +-
 copulae/marginal/univariate.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 6511c95..953f13c 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -155,7 +155,7 @@ class FrankCopula(AbstractArchimedeanCopula):
     def psi(self, s):
         assert not np.isnan(self.params), "Copula must have parameters to calculate psi"
 
-        s = np.asarray(s)
+        s = np.array(s)
         if self.params <= -36:
             return -log1pexp(-s - self.params) / self.params
         elif self.params < 0:
diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 04badc0..dbcd1ba 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -163,7 +163,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         else:
             if np.any(tau < 0):
                 warnings.warn(warning_message)
-                tau[tau < 0] = 0
+                tau = np.maximum(tau, 0)
         return 1 / (1 - tau)
 
     def lambda_(self):
diff --git a/copulae/marginal/univariate.py b/copulae/marginal/univariate.py
index c4ada04..f48298e 100644
--- a/copulae/marginal/univariate.py
+++ b/copulae/marginal/univariate.py
@@ -20,7 +20,7 @@ class DistDetail(TypedDict, total=False):
 
 def create_univariate(details: DistDetail) -> rv_frozen:
     dist = get_marginal_class(details)
-    parameters = details.get('parameters', {})
+    parameters = {**details.get('parameters', {})}
     for p in signature(getattr(dist, "_parse_args")).parameters.values():
         if p.default is Parameter.empty and p.name not in parameters:
             parameters[p.name] = 0.5
-- 
2.43.0


From 07b5e8f80ff510c1e9f7b10cd951365b106a079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 14/31] fix: the mixture copula keeps its own copy of the
 parameters it is given

---
 copulae/mixtures/gmc/gmc.py       |  3 ++-
 copulae/mixtures/gmc/parameter.py | 13 +++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 8f8fbe1..de2c5c7 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Collection, Literal, Optional, Union
 
 import numpy as np
@@ -235,7 +236,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
             if params.n_dim != self.dim or params.n_clusters != self.clusters:
                 raise GMCParamMismatchError(f"Expected {self.clusters} clusters and {self.dim} dimensions "
                                             f"but got {params.n_clusters} and {params.n_dim} respectively instead")
-            self._param = params
+            self._param = deepcopy(params)
         elif np.all(np.isreal(params)):
             self._param = GMCParam.from_vector(params, self.clusters, self.dim)
         else:
diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 0db3f55..78c38fe 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -38,12 +38,13 @@ class GMCParam:
         Converts GMCParam to a 1-D vector representation. Vector representation enables GMCParam to be
         updated via scipy's optimize module.
         """
-        self.prob[self.prob == 0] += 1e-5
-        self.prob[self.prob == 1] -= 1e-5
-        self.prob /= self.prob.sum()
+        prob = self.prob.copy()
+        prob[prob == 0] += 1e-5
+        prob[prob == 1] -= 1e-5
+        prob /= prob.sum()
 
         return np.array([
-            *np.log(self.prob / (1 - self.prob)),
+            *np.log(prob / (1 - prob)),
             *self.means.ravel(),
             *np.ravel([c[np.triu_indices(self.n_dim)] for c in self.covs])
         ])
@@ -85,7 +86,7 @@ class GMCParam:
 
     @prob.setter
     def prob(self, value: Union[C[float], np.ndarray]):
-        value = np.ravel(value)
+        value = np.array(value, dtype=float).ravel()
 
         if len(value) != self.n_clusters:
             raise GMCParamError(f"probability vector should have {self.n_clusters} components")
@@ -100,7 +101,7 @@ class GMCParam:
 
     @means.setter
     def means(self, value: Union[C[float], np.ndarray]):
-        value = np.asarray(value)
+        value = np.array(value)
 
         shape = self.n_clusters, self.n_dim
         if value.shape != shape:
-- 
2.43.0


From b101bb42ac25eaf2f66aa3c75589f0dad3eb8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 15/31] fix: evaluating a density leaves the process-wide
 warning filters alone

---
 copulae/archimedean/_shared.py | 11 ++++++++---
 copulae/archimedean/clayton.py |  3 ++-
 copulae/archimedean/frank.py   |  3 ++-
 copulae/archimedean/gumbel.py  |  3 ++-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/copulae/archimedean/_shared.py b/copulae/archimedean/_shared.py
index c3254cf..88ec27b 100644
--- a/copulae/archimedean/_shared.py
+++ b/copulae/archimedean/_shared.py
@@ -1,6 +1,12 @@
-import warnings
-
 import numpy as np
+import wrapt
+
+
+@wrapt.decorator
+def ignore_float_errors(method, _, args, kwargs):
+    """Silences numpy's floating point warnings inside the method, and only there"""
+    with np.errstate(all='ignore'):
+        return method(*args, **kwargs)
 
 
 def valid_rows_in_u(U: np.ndarray) -> np.ndarray:
@@ -13,5 +19,4 @@ def valid_rows_in_u(U: np.ndarray) -> np.ndarray:
         a boolean vector that indicates which rows are okay
     """
 
-    warnings.filterwarnings("ignore", category=RuntimeWarning)
     return (~np.isnan(U) & (0 <= U) & (U <= 1)).all(1)
diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index a292453..04c4583 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -7,7 +7,7 @@ from copulae.core import EPS
 from copulae.stats import random_generator, random_uniform
 from copulae.types import Array
 from copulae.utility.annotations import *
-from ._shared import valid_rows_in_u
+from ._shared import ignore_float_errors, valid_rows_in_u
 from .abstract import AbstractArchimedeanCopula
 
 
@@ -107,6 +107,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
     @squeeze_output
+    @ignore_float_errors
     def pdf(self, u: Array, log=False):
         assert not np.isnan(self.params), "Copula must have parameters to calculate parameters"
 
diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 953f13c..912f8b9 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -10,7 +10,7 @@ from copulae.stats import random_generator, random_uniform
 from copulae.stats.log import random_log_series_ln1p
 from copulae.types import Array
 from copulae.utility.annotations import *
-from ._shared import valid_rows_in_u
+from ._shared import ignore_float_errors, valid_rows_in_u
 from .abstract import AbstractArchimedeanCopula
 
 
@@ -128,6 +128,7 @@ class FrankCopula(AbstractArchimedeanCopula):
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
     @squeeze_output
+    @ignore_float_errors
     def pdf(self, u: Array, log=False):
         assert not np.isnan(self.params), "Copula must have parameters to calculate parameters"
 
diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index dbcd1ba..881b20e 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -11,7 +11,7 @@ from copulae.special.trig import cospi2
 from copulae.stats import poisson, random_generator, random_uniform, skew_stable
 from copulae.types import Array, Numeric
 from copulae.utility.annotations import *
-from ._shared import valid_rows_in_u
+from ._shared import ignore_float_errors, valid_rows_in_u
 from .abstract import AbstractArchimedeanCopula
 from .auxiliary import dsum_sibuya
 
@@ -185,6 +185,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
     @squeeze_output
+    @ignore_float_errors
     def pdf(self, u: np.ndarray, log=False):
         assert not np.isnan(self.params), "Copula must have parameters to calculate parameters"
 
-- 
2.43.0


From 5e0e637f84fad4c7888b6b168913fae34451524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 16/31] fix: the mixture fit reports the log likelihood of the
 parameters it returns

---
 copulae/mixtures/gmc/estimators/em.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/estimators/em.py b/copulae/mixtures/gmc/estimators/em.py
index a422980..ebbaecf 100644
--- a/copulae/mixtures/gmc/estimators/em.py
+++ b/copulae/mixtures/gmc/estimators/em.py
@@ -153,4 +153,7 @@ class LogLik:
 
     @property
     def best_log_lik(self):
-        return self._gmcm[-1]
+        if self.criteria in ('GMCM', 'LI'):
+            return self._gmcm[int(np.argmax(self._gmcm))]
+        else:
+            return self._gmcm[-1]
-- 
2.43.0


From 5aee79ec2c1cc7575a8768c1d7fc64586a5e1db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 17/31] fix: a single draw from an elliptical copula is a one
 row matrix

---
 copulae/elliptical/gaussian.py | 2 +-
 copulae/elliptical/student.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 0e4784c..c7d5868 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -84,7 +84,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvn.rvs(cov=self.sigma, size=n, random_state=seed)
-        return norm.cdf(r)
+        return norm.cdf(r).reshape(n, self.dim)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 96bf6a5..ae2949f 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -182,7 +182,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvt.rvs(cov=self.sigma, df=self._df, size=n, random_state=seed)
-        return t.cdf(r, self._df)
+        return t.cdf(r, self._df).reshape(n, self.dim)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
-- 
2.43.0


From 5e28d60f8ab77328183ca404142cc387fe50bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 18/31] fix: the empirical copula keeps its own copy of the
 data it is given

---
 copulae/empirical/empirical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index ba8f205..b3a38db 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -100,7 +100,7 @@ class EmpiricalCopula(BaseCopula[None]):
 
         columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
         super().__init__(data.shape[1], "Empirical", FitSummary(*data.shape), columns)
-        self._data = data
+        self._data = data.copy()
 
     @property
     def data(self):
-- 
2.43.0


From 1cb54cabb008ef22414e11fa986aefeb7b5f9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 19/31] fix: the html summary of a correlation inversion fit
 renders

---
 copulae/copula/estimator/summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/summary.py b/copulae/copula/estimator/summary.py
index e738059..03ed579 100644
--- a/copulae/copula/estimator/summary.py
+++ b/copulae/copula/estimator/summary.py
@@ -45,7 +45,7 @@ class FitSummary(SummaryType):
 
     def _repr_html_(self):
         portions = []
-        for s, r in zip_longest(self.setup.items(), self.results.items()):
+        for s, r in zip_longest((self.setup or {}).items(), (self.results or {}).items()):
             (sk, sv) = (None, None) if s is None else s
             (rk, rv) = (None, None) if r is None else r
             portions.append('<tr>' + ''.join(f"<td>{i}</td>" for i in (sk, sv, rk, rv)) + '</tr>')
-- 
2.43.0


From e5b04874520ea2c2f52ac284950e208d09c03120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 20/31] fix: a fit that fails or is interrupted leaves the
 copula as it was

---
 copulae/copula/base.py       | 23 +++++++++++++++----
 copulae/marginal/marginal.py | 15 ++++++------
 copulae/mixtures/gmc/gmc.py  | 44 +++++++++++++++++++-----------------
 3 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index aa5c40b..4b84f59 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from contextlib import contextmanager
 from numbers import Number
 from typing import Collection, Generic, List, Literal, NamedTuple, Protocol, Tuple, TypeVar, Union
 
@@ -16,6 +17,19 @@ __all__ = ["BaseCopula", "CopulaCorrProtocol", "Param", "EstimationMethod", "Tai
 Param = TypeVar("Param")
 
 
+@contextmanager
+def restore_on_error(*copulas: 'BaseCopula'):
+    """Puts the copulas back into the state they were in if the body fails or is interrupted"""
+    states = [(copula, dict(copula.__dict__)) for copula in copulas]
+    try:
+        yield
+    except BaseException:
+        for copula, state in states:
+            copula.__dict__.clear()
+            copula.__dict__.update(state)
+        raise
+
+
 class BaseCopula(ABC, Generic[Param]):
     """
     The base copula object. All implemented copulae should inherit this class as it creates a common API
@@ -131,11 +145,12 @@ class BaseCopula(ABC, Generic[Param]):
                                  'copulae to convert this automatically for you')
 
         x0 = np.asarray(x0) if x0 is not None and not isinstance(x0, np.ndarray) and isinstance(x0, Collection) else x0
-        self._fit_smry = fit_copula(self, data, x0, method, verbose, optim_options, scale)
+        with restore_on_error(self):
+            self._fit_smry = fit_copula(self, data, x0, method, verbose, optim_options, scale)
 
-        if isinstance(data, pd.DataFrame):
-            self._columns = list(data.columns)
-            print(data.describe())
+            if isinstance(data, pd.DataFrame):
+                self._columns = list(data.columns)
+                print(data.describe())
 
         return self
 
diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 3f71091..69011cb 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -4,6 +4,7 @@ import numpy as np
 import pandas as pd
 
 from copulae.copula import BaseCopula, Param
+from copulae.copula.base import restore_on_error
 from copulae.copula.exceptions import InputDataError
 from copulae.types import Array
 from copulae.utility.annotations import *
@@ -102,8 +103,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     def fit(self, data: Union[pd.DataFrame, np.ndarray], x0: Union[Collection[float], np.ndarray] = None, method='ml',
             verbose=1, optim_options: dict = None, ties='average', to_pobs=True, scale=1.0):
-        if isinstance(data, pd.DataFrame):
-            self._columns = list(data.columns)
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else self._columns
 
         data = np.asarray(data)
         if data.ndim != 2:
@@ -111,12 +111,13 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
         elif self.dim != data.shape[1]:
             raise InputDataError('Dimension of data does not match copula')
 
-        for i, m in enumerate(self._marginals):
-            self._marginals[i] = m.dist(*m.dist.fit(data[:, i]))
+        with restore_on_error(self, self._copula):
+            self._columns = columns
+            self._marginals = [m.dist(*m.dist.fit(data[:, i])) for i, m in enumerate(self._marginals)]
 
-        # writing it as such to get past the type-hints flags
-        self._copula.fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
-        self._fit_smry = self._copula._fit_smry
+            # writing it as such to get past the type-hints flags
+            self._copula.fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
+            self._fit_smry = self._copula._fit_smry
         return self
 
     @property
diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index de2c5c7..0e98e1a 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -6,6 +6,7 @@ import pandas as pd
 from scipy.stats import multivariate_normal as mvn
 
 from copulae.copula import BaseCopula
+from copulae.copula.base import restore_on_error
 from copulae.core import pseudo_obs
 from copulae.types import Array, Ties
 from copulae.utility.annotations import *
@@ -189,29 +190,30 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         """
         method = method.lower()
 
-        if x0 is None:
-            self._fit_smry = k_means(data, self.clusters, self.dim)
-            self.params = self._fit_smry.best_params
-        elif isinstance(x0, GMCParam):
-            self.params = x0
-        else:
-            self.params = GMCParam.from_vector(x0, self.clusters, self.dim)
-
-        if method == 'pem':
-            u = pseudo_obs(data, ties)
-            self._fit_smry = expectation_maximization(u, self.params, max_iter, criteria, verbose, eps)
-
-        elif method == 'sgd':
-            u = pseudo_obs(data, ties)
-            self._fit_smry = gradient_descent(u, self.params, max_iter=max_iter, **(optim_options or {}))
-        elif method == 'kmeans':
-            if x0 is not None:  # otherwise already fitted by default
+        with restore_on_error(self):
+            if x0 is None:
                 self._fit_smry = k_means(data, self.clusters, self.dim)
-        else:
-            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
+                self.params = self._fit_smry.best_params
+            elif isinstance(x0, GMCParam):
+                self.params = x0
+            else:
+                self.params = GMCParam.from_vector(x0, self.clusters, self.dim)
+
+            if method == 'pem':
+                u = pseudo_obs(data, ties)
+                self._fit_smry = expectation_maximization(u, self.params, max_iter, criteria, verbose, eps)
+
+            elif method == 'sgd':
+                u = pseudo_obs(data, ties)
+                self._fit_smry = gradient_descent(u, self.params, max_iter=max_iter, **(optim_options or {}))
+            elif method == 'kmeans':
+                if x0 is not None:  # otherwise already fitted by default
+                    self._fit_smry = k_means(data, self.clusters, self.dim)
+            else:
+                raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
 
-        self.params = self._fit_smry.best_params
-        self._fit_details["method"] = method
+            self.params = self._fit_smry.best_params
+            self._fit_details = {"method": method}
         return self
 
     @property
-- 
2.43.0


From db552f78870d385caa8174dfa444d2bd81063a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 21/31] fix: a refit on an unlabelled matrix forgets the column
 labels of the previous fit

---
 copulae/copula/base.py       | 2 +-
 copulae/marginal/marginal.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index 4b84f59..719f061 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -148,8 +148,8 @@ class BaseCopula(ABC, Generic[Param]):
         with restore_on_error(self):
             self._fit_smry = fit_copula(self, data, x0, method, verbose, optim_options, scale)
 
+            self._columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
             if isinstance(data, pd.DataFrame):
-                self._columns = list(data.columns)
                 print(data.describe())
 
         return self
diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 69011cb..5bffeda 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -103,7 +103,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     def fit(self, data: Union[pd.DataFrame, np.ndarray], x0: Union[Collection[float], np.ndarray] = None, method='ml',
             verbose=1, optim_options: dict = None, ties='average', to_pobs=True, scale=1.0):
-        columns = list(data.columns) if isinstance(data, pd.DataFrame) else self._columns
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
 
         data = np.asarray(data)
         if data.ndim != 2:
-- 
2.43.0


From 428754c27489bddf2774195c15ebe2d8da1a9b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 22/31] fix: goodness-of-fit replicates for tied data keep the
 dependence of the fitted copula

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index 7c8e5e7..6545e14 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -120,7 +120,7 @@ class GofParametricBootstrap:
         u = self.copula.random(self.data.n_row)
 
         if self.data.has_ties:
-            u = self._sort_data_by_column_inplace(u)
+            u = self._sort_data_by_column(u)
 
         data = GofData(u, self.data.ties, self.data.fit_ties)
         cop = self.new_copula()
@@ -134,14 +134,14 @@ class GofParametricBootstrap:
     def new_copula(self) -> Copula:
         return self._cop_factory(dim=self.data.n_dim)
 
-    def _sort_data_by_column_inplace(self, data: np.ndarray):
+    def _sort_data_by_column(self, data: np.ndarray):
         """
-        Use pre-calculated duplicate ranks array to sort random data with. This ensures that the
-        resulting data (column-by-column) is ordered from lowest to highest
+        Use pre-calculated duplicate ranks array to sort random data with. This gives every column of the random
+        data the ties of the original data. Whole rows are moved so that the dependence between the columns is kept
         """
         assert data.ndim == 2 and self.data.duplicated_ranks_array.shape == data.shape
-        data.sort(0)
         for i in range(data.shape[1]):
+            data = data[np.argsort(data[:, i])]
             data[:, i] = data[self.data.duplicated_ranks_array[:, i], i]
 
         return data
-- 
2.43.0


From f653228a005b8f75811487596aef6f05b942b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 23/31] fix: correlation inversion fits bivariate elliptical
 copulas

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 41e3b94..84735ad 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -79,6 +79,6 @@ def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
         raise ValueError("Correlation Inversion must be either 'itau' or 'irho'")
 
     if is_elliptical(copula):
-        theta = near_psd(create_cov_matrix(theta))[indices]
+        theta = near_psd(create_cov_matrix(np.atleast_1d(theta)))[indices]
 
     return theta
-- 
2.43.0


From 3db80a4de3043e9a8d2c726c2eaf2ca47e92a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 24/31] fix: a correlation matrix without a positive diagonal
 is rejected

---
 copulae/elliptical/abstract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 6504b95..2d1db1b 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -92,7 +92,10 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
             value = near_psd(value)
             if value.shape != (d, d):
                 raise ValueError(f"The value being set should be a matrix of dimension ({d}, {d})")
-            self._rhos = value[tri_indices(d, 1, 'lower')]
+            rhos = value[tri_indices(d, 1, 'lower')]
+            if not np.all(np.isfinite(rhos)):  # i.e. zeros along the diagonal
+                raise ValueError("The value being set is not a correlation matrix")
+            self._rhos = rhos
             return
 
         # work on a copy so that an edit which fails half way leaves the copula as it was
-- 
2.43.0


From ef78d6436bcb083baffc59b7f4049c01f81fe67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:28 +0000
Subject: [PATCH 25/31] fix: correlations set from integers do not truncate
 later edits

---
 copulae/elliptical/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 2d1db1b..64ad89d 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -84,7 +84,7 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
             if not -1 <= value <= 1:
                 raise ValueError("correlation value must be between -1 and 1")
         else:
-            value = np.asarray(value)
+            value = np.asarray(value, dtype=float)
             if not np.all((value >= -1 - EPS) & (value <= 1 + EPS)):
                 raise ValueError("correlation value must be between -1 and 1")
 
-- 
2.43.0


From 153a5a7765e93a53cf6dfdcc4eacda7db103efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 26/31] fix: the summary of a marginal copula does not change
 with a later fit

---
 copulae/marginal/summary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/marginal/summary.py b/copulae/marginal/summary.py
index 5203922..5aa99ad 100644
--- a/copulae/marginal/summary.py
+++ b/copulae/marginal/summary.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import List
 
 from scipy.stats.distributions import rv_frozen
@@ -12,7 +13,7 @@ class Summary(SummaryType):
         self.name = name
         self.dim = dim
         self.marginals = [get_marginal_detail(m) for m in marginals]
-        self.joint_copula = joint_copula
+        self.joint_copula = deepcopy(joint_copula)
 
     def _repr_html_(self):
         def create_marginal_div(marginal: dict):
-- 
2.43.0


From 8eb408268f4076e1d8822c8a5f0912d689a6d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 27/31] fix: a Student copula fitted with fix_df can be pickled

---
 copulae/elliptical/student.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index ae2949f..439534a 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -113,7 +113,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
             constraints = optim_options.get('constraints', [])
             constraints = [constraints] if isinstance(constraints, dict) else [*constraints]
             optim_options['constraints'] = [*constraints,
-                                            {'type': 'eq', 'fun': lambda x: x[0] - df}]  # df doesn't change
+                                            {'type': 'eq', 'fun': _df_change, 'args': (df,)}]  # df doesn't change
 
         return super().fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
 
@@ -190,3 +190,8 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
             'Degree of Freedom': self.params.df,
             'Correlation Matrix': self.sigma
         })
+
+
+def _df_change(x: np.ndarray, df: float) -> float:
+    # a named function so that the fitted copula, which keeps its optimizer setup, can still be pickled
+    return x[0] - df
-- 
2.43.0


From 225c1ff5bee0095eaaa81941986490f496ffed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:02 +0000
Subject: [PATCH 28/31] fix: fit with verbose=0 prints nothing for a DataFrame

---
 copulae/copula/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index 719f061..8c89e44 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -149,7 +149,7 @@ class BaseCopula(ABC, Generic[Param]):
             self._fit_smry = fit_copula(self, data, x0, method, verbose, optim_options, scale)
 
             self._columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
-            if isinstance(data, pd.DataFrame):
+            if verbose >= 1 and isinstance(data, pd.DataFrame):
                 print(data.describe())
 
         return self
-- 
2.43.0


From c03660660dc30ef942f793d45f47b26fb2e9726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:09 +0000
Subject: [PATCH 29/31] fix: an empirical distribution is evaluated at
 read-only points

---
 copulae/empirical/_distribution.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/empirical/_distribution.pyx b/copulae/empirical/_distribution.pyx
index 7d9797b..efaa0f7 100644
--- a/copulae/empirical/_distribution.pyx
+++ b/copulae/empirical/_distribution.pyx
@@ -32,8 +32,8 @@ def emp_copula_dist(cnp.ndarray[cnp.npy_float64, ndim=2] X,
     return np.asarray(res)
 
 
-cdef double multivariate_emp_cop_dist_func(double[::1] X,
-                                           double[::1] Y,
+cdef double multivariate_emp_cop_dist_func(const double[::1] X,
+                                           const double[::1] Y,
                                            int nrow_X,
                                            int nrow_Y,
                                            int ncol,
-- 
2.43.0


From fe513420be66ade9fc81f5b6150d15c6459437b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 30/31] fix: samples of a Frank copula with a large parameter
 lie in the unit interval

---
 copulae/special/special_func.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 1754d3a..3853219 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -88,7 +88,9 @@ def log1mexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 - np.exp(-x))
+    # 1 - exp(-x) rounds to 1 for large x and loses digits for small x
+    x = np.asarray(x)
+    return np.where(x > np.log(2), np.log1p(-np.exp(-x)), np.log(-np.expm1(-x)))[()]
 
 
 def log1pexp(x):
-- 
2.43.0


From 4f8084d8bf25da2414549da374a5765211438fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:38 +0000
Subject: [PATCH 31/31] fix: rounding does not carry samples of a Frank copula
 out of the unit interval

---
 copulae/archimedean/frank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 912f8b9..3c9d330 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -182,7 +182,7 @@ class FrankCopula(AbstractArchimedeanCopula):
             v = u[:, 1]
             a = -abs(self.params)
             v = -1 / a * np.log1p(-v * np.expm1(-a) / (np.exp(-a * u[:, 0]) * (v - 1) - v))
-            u[:, 1] = 1 - v if self.params > 0 else v
+            u[:, 1] = np.clip(1 - v if self.params > 0 else v, 0, 1)
             return u
 
         # alpha too large
@@ -190,7 +190,7 @@ class FrankCopula(AbstractArchimedeanCopula):
             return np.ones((n, self.dim))
 
         fr = random_log_series_ln1p(-self.params, n, rng)[:, None]
-        return self.psi(-np.log(u) / fr)
+        return np.clip(self.psi(-np.log(u) / fr), 0, 1)
 
     @property
     def rho(self):
-- 
2.43.0

