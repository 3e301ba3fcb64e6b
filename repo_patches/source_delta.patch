From 878aae88a9038f83c5b7bb20beb746971559ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:12 +0000
Subject: [PATCH 01/42] fix: PxMALA transition density must be that of the
 proposal it makes

chain_step proposes N(X + delta*grad, 2*delta*I); calc_logtransition evaluated a
different (and not even Gaussian) function, so accept/reject did not satisfy
detailed balance.
---
 pxmcmc/mcmc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 45cf316..4e9b0a1 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -283,9 +283,8 @@ class PxMALA(MYULA):
         Calculates the transition probability of stepping from model X1 to model X2 i.e. q(X2|X1).
         """
         gradlogpiX1 = -((X1 - proxf) / self.lmda) - gradg
-        return (
-            -(1 / 2 * self.delta)
-            * np.sum((X2 - X1 - (self.delta / 2) * gradlogpiX1) ** 2) ** 2
+        return -np.sum(np.abs(X2 - X1 - self.delta * gradlogpiX1) ** 2) / (
+            4 * self.delta
         )
 
 
-- 
2.43.0


From c8bc7a3cc65c0165e5e904729e4ea91b665b809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:12 +0000
Subject: [PATCH 02/42] fix: PxMALA records the current state when a proposal
 is rejected

Metropolis-Hastings repeats the current state on rejection; saving accepted moves
only biased the chain and broke the documented thinning (ngap iterations between
saved samples).
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 4e9b0a1..76db5d1 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -260,7 +260,7 @@ class PxMALA(MYULA):
                 self.deltas_trace.append(self.delta)
 
             if i >= self.nburn:
-                if (self.ngap == 0 or (i - self.nburn) % self.ngap == 0) and accept:
+                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:
                     self._tracking(j, X_curr, curr_preds, logpiXc, L2Xc, priorXc)
                     j += 1
             if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-- 
2.43.0


From 0a70c149957c3516be4c330aece445d4286e1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:12 +0000
Subject: [PATCH 03/42] fix: log-posterior uses the Gaussian data fidelity
 whose gradient is sampled

calc_gradg is the gradient of L2/2; logpi reported (and PxMALA accepted with) -L2.
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 76db5d1..89fc5f6 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -78,7 +78,7 @@ class PxMCMC:
         diff = self.forward.data - preds
         L2 = np.vdot(diff, self.forward.invcov @ diff)
         prior = self.prior.prior(X)
-        logPi = -self.mu * prior - L2
+        logPi = -self.mu * prior - L2 / 2
         return logPi, L2, prior
 
     def _gradlogpi(self, X, preds=None):
-- 
2.43.0


From 9808527959cfa0f9a4a657144786f2779af20dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:12 +0000
Subject: [PATCH 04/42] fix: data covariance and misfit are real for complex
 data

The variance was multiplied by (1+1j)/sqrt(2), making the misfit and log-posterior
complex and rotating the gradient by 45 degrees.
---
 pxmcmc/forward.py | 2 --
 pxmcmc/mcmc.py    | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 3f3bbd3..2d1a111 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -78,8 +78,6 @@ class ForwardOperator:
             return sparse.linalg.inv(sig_d)
 
         var = sig_d ** 2
-        if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-            var = var / np.sqrt(2) * (1 + 1j)
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
             return sparse.identity(len(self.data)).dot(1 / var)
         elif var.size == len(self.data) and len(var.shape) == 1:
diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 89fc5f6..a543627 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -76,7 +76,7 @@ class PxMCMC:
         :param preds: vector of data predictions from model X
         """
         diff = self.forward.data - preds
-        L2 = np.vdot(diff, self.forward.invcov @ diff)
+        L2 = np.vdot(diff, self.forward.invcov @ diff).real
         prior = self.prior.prior(X)
         logPi = -self.mu * prior - L2 / 2
         return logPi, L2, prior
-- 
2.43.0


From 43363881c5d327fee55053ce804baefbdb12a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 05/42] fix: chains of real parameters stay real with complex
 data or operators

With complex=False and complex data the gradient is complex, so the chain left the
real parameter space: recorded samples were the real part of the state while the
recorded log-posterior, misfit and predictions belonged to the complex state.
---
 pxmcmc/mcmc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index a543627..77e14ea 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -86,7 +86,11 @@ class PxMCMC:
         if preds is None:
             preds = self.forward.forward(X)
         gradg = self.forward.calc_gradg(preds)
-        return -gradf - gradg
+        return self._to_param_space(-gradf - gradg)
+
+    def _to_param_space(self, X):
+        # steps of real parameters are real, even if the operators are complex
+        return X if self.complex else np.real(X)
 
     def _print_progress(self, i, logpi, **kwargs):
         print(
@@ -193,7 +197,7 @@ class MYULA(PxMCMC):
         w = np.random.randn(self.forward.nparams)
         if self.complex:
             w = w + np.random.randn(self.forward.nparams) * 1j
-        return (
+        return self._to_param_space(
             (1 - self.delta / self.lmda) * X
             + (self.delta / self.lmda) * proxf
             - self.delta * gradg
@@ -282,7 +286,7 @@ class PxMALA(MYULA):
         """
         Calculates the transition probability of stepping from model X1 to model X2 i.e. q(X2|X1).
         """
-        gradlogpiX1 = -((X1 - proxf) / self.lmda) - gradg
+        gradlogpiX1 = self._to_param_space(-((X1 - proxf) / self.lmda) - gradg)
         return -np.sum(np.abs(X2 - X1 - self.delta * gradlogpiX1) ** 2) / (
             4 * self.delta
         )
-- 
2.43.0


From cdfc0d6089b41a4469c9e4aad8094167564939a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 06/42] fix: keep the imaginary part of tracked predictions of
 complex data

---
 pxmcmc/mcmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 77e14ea..6ccad5f 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -119,7 +119,10 @@ class PxMCMC:
             self.logPi = np.zeros(self.nsamples)
         if "predictions" in self.track:
             self.preds = np.zeros(
-                (self.nsamples, len(self.forward.data)), dtype=float
+                (self.nsamples, len(self.forward.data)),
+                dtype=complex
+                if self.complex or np.iscomplexobj(self.forward.data)
+                else float,
             )
         if "chain" in self.track:
             self.chain = np.zeros(
-- 
2.43.0


From 41a7f83483be90f1fdf20f983db4f9a40cb75630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 07/42] fix: SKROCK recursion for s >= 2

K_j = mu_j*delta*grad(K_{j-1}) + nu_j*K_{j-1} + k_j*K_{j-2} with nu_j, mu_j built
from T_{j-1}(omega_0)/T_j(omega_0) and k_j = 1 - nu_j (Pereyra et al. 2020).
---
 pxmcmc/mcmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 6ccad5f..910a8c3 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -369,8 +369,7 @@ class SKROCK(PxMCMC):
                 * self.delta
                 * self._gradlogpi(self._K_recursion(X, s - 1, Z))
                 + self.nus[s] * self._K_recursion(X, s - 1, Z)
-                + self.ks[s]
-                - self._K_recursion(X, s - 2, Z)
+                + self.ks[s] * self._K_recursion(X, s - 2, Z)
             )
 
     def _recursion_coefs(self):
@@ -383,7 +382,7 @@ class SKROCK(PxMCMC):
         self.ks[1] = self.s * self.omega_1 / self.omega_0
 
         for j in range(2, self.s + 1):
-            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_1, j)
+            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_0, j)
             self.mus[j] = 2 * self.omega_1 * cheb_ratio
             self.nus[j] = 2 * self.omega_0 * cheb_ratio
-            self.ks[j] = 1 - self.nus[0]
+            self.ks[j] = 1 - self.nus[j]
-- 
2.43.0


From 95e5cba21a1c3be4e94755fd733624f9f4200a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 08/42] fix: accept a covariance matrix as data error, as
 documented

scipy.sparse.linalg.inv rejects dense arrays, so every 2D sig_d raised TypeError.
---
 pxmcmc/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 2d1a111..c836116 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -75,7 +75,7 @@ class ForwardOperator:
         if isinstance(sig_d, np.ndarray) and len(sig_d.shape) == 2:
             if sig_d.shape[0] != sig_d.shape[1]:
                 raise ValueError("Covariance matrix should be square")
-            return sparse.linalg.inv(sig_d)
+            return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
-- 
2.43.0


From ce8af0ca71df2c9753d09f6be666b2d8669e58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 09/42] fix: progress output must not need every statistic to
 be tracked

MYULA and SKROCK crashed with AttributeError when verbosity > 0 and track left out
logposterior, L2 or prior.
---
 pxmcmc/mcmc.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 910a8c3..c32ca9d 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -176,12 +176,7 @@ class MYULA(PxMCMC):
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                    self._print_progress(
-                        j - 1,
-                        self.logPi[j - 1],
-                        L2=self.L2s[j - 1],
-                        prior=self.priors[j - 1],
-                    )
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
             else:
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
                     print("Burning in...")
@@ -330,13 +325,11 @@ class SKROCK(PxMCMC):
                     logPi, L2, prior = self.logpi(X_curr, curr_preds)
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
-            if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                self._print_progress(
-                    j - 1,
-                    self.logPi[j - 1],
-                    L2=self.L2s[j - 1],
-                    prior=self.priors[j - 1],
-                )
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
+            else:
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    print("Burning in...")
             i += 1
 
         print("\nDONE")
-- 
2.43.0


From 8e247b63376fa14e9e1f626e64b112860b063ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 10/42] fix: power-weighted wavelet prior and its prox use the
 same weights, once

prior() applied the weights twice and proxf() thresholded with the product of the
quadrature and power weights, so proxf was not the proximal map of the prior.
---
 pxmcmc/prior.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 661011d..bf20c0a 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -105,10 +105,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             self._get_weights()
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
-
-    def prior(self, X):
-        return super().prior(self.map_weights * X)
+        self.T = T * self.map_weights
 
     def _get_weights(self):
         scaling_weights = self._calculate_scaling_weights()
-- 
2.43.0


From c48c80c6989520d3ccc42b0d179329fe3a8218e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 11/42] fix: analysis L1 prior is the norm whose prox is
 computed

In the analysis setting proxf thresholds adj(X), i.e. the prior is |adj(X)|_1, but
prior() returned |X|_1 whatever the setting.
---
 pxmcmc/prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index bf20c0a..151758c 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -32,6 +32,8 @@ class L1:
         :param X: MCMC sample
         :return: log prior
         """
+        if self.setting == "analysis":
+            X = self.adj(X)
         return sum(abs(X))
 
     def proxf(self, X):
-- 
2.43.0


From b87b739e8016db621e0c03ccd3a4bfe6879276f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 12/42] fix: hard thresholding that keeps no element keeps none

X_srt[-0] is the smallest value, so fractions below 1/len(X) kept everything.
---
 pxmcmc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 5af11de..ef0bc91 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -76,7 +76,7 @@ def hard(X, T=0.1):
     """
     X_srt = np.sort(abs(X))
     thresh_ind = int(T * len(X))
-    thresh_val = X_srt[-thresh_ind]
+    thresh_val = X_srt[-thresh_ind] if thresh_ind > 0 else np.inf
     X[abs(X) < thresh_val] = 0
     return X
 
-- 
2.43.0


From d47f79e7377972bc9b904482dd3d8ed06d650e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 13/42] fix: a mask of the wrong shape raises the documented
 ValueError

The shape was checked only after the mask had been used as an index (IndexError).
---
 pxmcmc/measurements.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 207b88f..993ed7f 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -197,15 +197,15 @@ class WeakLensing(WeakLensingHarmonic):
         else:
             self.mask = mask.astype(bool)
 
+        if self.mask.shape != self.shape:
+            raise ValueError("Shape of mask map is incorrect!")
+
         # Define observational covariance
         if ngal is None:
             self.inv_cov = self.mask_forward(np.ones(self.shape))
         else:
             self.inv_cov = self.ngal_to_inv_cov(ngal)
 
-        if self.mask.shape != self.shape:
-            raise ValueError("Shape of mask map is incorrect!")
-
     def forward(self, kappa):
         """Spherical weak lensing measurement operator
 
-- 
2.43.0


From fa6e2742d4c1ff6c62bfa65c1f7ce90cc5f16a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 14/42] fix: masking NaN signals raises the documented
 ValueError

'f is not f' is never true for an array.
---
 pxmcmc/measurements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 993ed7f..8f740d7 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -252,7 +252,7 @@ class WeakLensing(WeakLensingHarmonic):
                 ValueError: Raised if signal is of incorrect shape.
 
         """
-        if f is not f:
+        if np.any(np.isnan(f)):
             raise ValueError("Signal is NaN.")
 
         if f.shape != self.shape:
@@ -272,7 +272,7 @@ class WeakLensing(WeakLensingHarmonic):
                 ValueError: Raised if signal is nan
 
         """
-        if x is not x:
+        if np.any(np.isnan(x)):
             raise ValueError("Signal is NaN.")
 
         f = np.zeros(self.shape, dtype=complex)
-- 
2.43.0


From 4918b4658f931a50b9c34ce649491bc5cd4f2d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 15/42] fix: the credible region holds the samples of highest
 log-posterior

The threshold and comparison selected the 1-alpha fraction of lowest log-posterior,
excluding the MAP.
---
 pxmcmc/uncertainty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/uncertainty.py b/pxmcmc/uncertainty.py
index 36297d5..6e08ff6 100644
--- a/pxmcmc/uncertainty.py
+++ b/pxmcmc/uncertainty.py
@@ -48,9 +48,9 @@ def credible_region_threshold(logpis, alpha=0.05):
     :param float `alpha`: confidence level
     :return: log posterior threshold
     """
-    return np.quantile(logpis, 1 - alpha)
+    return np.quantile(logpis, alpha)
 
 
 def in_credible_region(logpi, threshold):
     """:meta private:"""
-    return True if logpi <= threshold else False
+    return True if logpi >= threshold else False
-- 
2.43.0


From 0b8e79bb717b93ecdf9233b9e2d5c664ab7b38b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 16/42] fix: count coefficients of the harmonic wavelet
 transform in harmonic space

ncoefs/nscal were those of the pixel transform, so inverse() split the scaling and
wavelet coefficients in the wrong place.
---
 pxmcmc/transforms.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pxmcmc/transforms.py b/pxmcmc/transforms.py
index ec288b3..9db5950 100644
--- a/pxmcmc/transforms.py
+++ b/pxmcmc/transforms.py
@@ -97,7 +97,7 @@ class SphericalWaveletTransform(Transform):
             self.inv = pys2let.synthesis_wav2px
             self.inv_adj = pys2let.synthesis_adjoint_px2wav
 
-        self._get_ncoefs()
+        self._get_ncoefs(self.L ** 2 if harmonic else pyssht.sample_length(self.L))
 
     def forward(self, X):
         """
@@ -153,14 +153,12 @@ class SphericalWaveletTransform(Transform):
         X = self.fwd_adj(wav, scal, **self.params)
         return X
 
-    def _get_ncoefs(self):
+    def _get_ncoefs(self, npix):
         """
         Counts the number of wavelet and scaling coefs for
         the multiresolution algorithm
-
-        TODO: CHECK THIS FOR HARMONIC
         """
-        f_mw = np.empty(pyssht.sample_length(self.L), dtype=complex)
-        f_wav, f_scal = pys2let.analysis_px2wav(f_mw, **self.params)
+        f = np.zeros(npix, dtype=complex)
+        f_wav, f_scal = self.fwd(f, **self.params)
         self.nwav, self.nscal = (f_wav.shape[0], f_scal.shape[0])
         self.ncoefs = self.nwav + self.nscal
-- 
2.43.0


From 390a42c0f34d5ee1c78b779b53af911a1183cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 17/42] fix: plot_map works with the matplotlib versions
 pyproject.toml allows

matplotlib.cm.get_cmap was removed in matplotlib 3.9.
---
 pxmcmc/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index de70c24..d587e45 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -1,7 +1,6 @@
 import numpy as np
 import healpy as hp
 import matplotlib.pyplot as plt
-from matplotlib import cm
 import copy
 import pyssht
 import pys2let
@@ -44,7 +43,7 @@ def plot_map(
 
     :return: matplotlib figure
     """
-    cmap = copy.copy(cm.get_cmap(cmap))
+    cmap = copy.copy(plt.get_cmap(cmap))
     cmap.set_bad(alpha=0)
 
     if oversample:
-- 
2.43.0


From 1f6025bfe647ef9757d7e61be6af2b55f4cd4da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 18/42] fix: plot_map does not write NaNs into the caller's map

Without oversampling the mask was applied in place.
---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index d587e45..5900444 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -58,7 +58,7 @@ def plot_map(
         vmin = -cbar_end
 
     if mask is not None:
-        f[mask] = np.nan
+        f = np.where(mask, np.nan, f)
     f_plt, _ = pyssht.mollweide_projection(f, L)
     fig = plt.figure(figsize=(20, 10))
     if not cbar:
-- 
2.43.0


From 6ecd232671a3dfb9157689fe816cd9b99b3cb3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 19/42] fix: plot_evolution with several samples of equal
 highest log-posterior

axvline needs one position; PxMALA repeats samples.
---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 5900444..579a0f7 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -146,7 +146,7 @@ def plot_evolution(logposteriors, L2s, L1s, figsize=(10, 8)):
 
     :return: matplotlib figure
     """
-    MAP_idx = np.where(logposteriors == max(logposteriors))
+    MAP_idx = np.argmax(logposteriors)
     fig = plt.figure(figsize=figsize)
     plt.subplot(3, 1, 1)
     plt.plot(-logposteriors)
-- 
2.43.0


From cd418c9468beff794dfc338082ee732a7ba5e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 20/42] fix: plot_wavelet_maps without oversampling

The coefficients are complex arrays; pyssht's Mollweide projection then returns
two maps instead of one.
---
 pxmcmc/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 579a0f7..950a79c 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -102,6 +102,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     f_wav, f_scal = pys2let.analysis_px2wav(
         f.flatten().astype(complex), B, L, J_min, dirs, spin, upsample=0
     )
+    f_wav, f_scal = f_wav.real.copy(), f_scal.real.copy()
     figs = []
     if "title" in map_args:
         base_title = map_args["title"]
-- 
2.43.0


From 16eb73a6b0892777409c42f593d1cc49542c1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 21/42] fix: save attributes larger than 64kB

Saving e.g. the noise map of the earthtopography example at L >= 65 raised OSError.
---
 pxmcmc/saving.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/saving.py b/pxmcmc/saving.py
index 4e619f2..84f2c64 100644
--- a/pxmcmc/saving.py
+++ b/pxmcmc/saving.py
@@ -14,7 +14,10 @@ def save_mcmc(
     :param string filename: filename without extension.
     :param \**kwargs: additional bits users want to save.
     """
-    with h5py.File(os.path.join(outpath, f"{filename}.hdf5"), "w") as f:
+    # libver >= v108 lifts the 64kB limit on the size of attributes
+    with h5py.File(
+        os.path.join(outpath, f"{filename}.hdf5"), "w", libver="v108"
+    ) as f:
         if hasattr(mcmc, "logPi"):
             f.create_dataset("logposterior", data=mcmc.logPi)
         if hasattr(mcmc, "preds"):
-- 
2.43.0


From 3e6003867f94f4ae7c157cad94e88a5737b1a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 22/42] fix: power-weighted wavelet prior returns numbers when
 all scales have one size

---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 151758c..78b43f2 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -113,7 +113,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
         scaling_weights = self._calculate_scaling_weights()
         s = scaling_weights.flatten()
         wavelet_weights = self._calculate_wavelet_weights()
-        w = np.concatenate([w.flatten() for w in wavelet_weights])
+        w = np.concatenate([w.flatten() for w in wavelet_weights]).astype(float)
         self.map_weights = np.concatenate([s, w])
 
     def _calculate_scaling_weights(self):
-- 
2.43.0


From f1b35e3661a58bf1f8a3cf80ab7ec2503045d516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:51 +0000
Subject: [PATCH 23/42] fix: wavelet maps on the same colour scale share both
 ends of it

---
 pxmcmc/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 950a79c..8fd7046 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -113,6 +113,8 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
 
     if same_scale:
         map_args["vmax"] = np.max(f_wav).real
+        if map_args.get("vmin") is None:
+            map_args["vmin"] = np.min(f_wav).real
 
     scale_start = 0
     for i, bl in enumerate(bls[1:], 1):
-- 
2.43.0


From 5d1982d3152f8833aaf5ed62ceaff587bc759c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:36 +0000
Subject: [PATCH 24/42] fix: build_mask at bandlimits where the south pole
 rounds beyond 180 degrees

---
 pxmcmc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index ef0bc91..b440995 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -335,7 +335,7 @@ def build_mask(L, size=20):
                 mask[i, j] = 0
 
     thetaarray, phiarray = pyssht.sample_positions(L, Grid=True)
-    thetaarray = np.degrees(thetaarray) - 90
+    thetaarray = np.clip(np.degrees(thetaarray) - 90, -90, 90)
     phiarray = np.degrees(phiarray) - 180
 
     c = SkyCoord(phiarray, thetaarray, unit="deg")
-- 
2.43.0


From fe48852ebc0b14ca2d9363a53623916a2125ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:26 +0000
Subject: [PATCH 25/42] fix: path integration accepts the documented array, not
 only sparse matrices

---
 pxmcmc/measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 8f740d7..c5f4ea3 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -68,7 +68,7 @@ class PathIntegral(Measurement):
 
     def __init__(self, path_matrix):
         self.path_matrix = path_matrix
-        self.path_matrix_adj = self.path_matrix.getH()
+        self.path_matrix_adj = self.path_matrix.conj().T
 
         self.ndata, self.npix = path_matrix.shape
 
-- 
2.43.0


From 86d0ca390156a199d3e9e5490b28e770c2255739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:26 +0000
Subject: [PATCH 26/42] fix: mollview draws in a figure of its own and leaves
 numpy's random state alone

---
 pxmcmc/plotting.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 8fd7046..6eeb426 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -128,12 +128,9 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
 
 
 def mollview(image, figsize=(10, 8), **kwargs):
-    i = np.random.randint(1000)
-    fig = plt.figure(
-        num=i, figsize=figsize
-    )  # this figure number thing is a bit hacky...
+    fig = plt.figure(figsize=figsize)
     with suppress_stdout():
-        hp.mollview(image, fig=i, **kwargs)
+        hp.mollview(image, fig=fig.number, **kwargs)
         hp.graticule(30)
     return fig
 
-- 
2.43.0


From 3750f8afcec05c5a45075c73ed7b64ae47970875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:26 +0000
Subject: [PATCH 27/42] fix: plot_map of maps finer than the oversampled
 bandlimit

---
 pxmcmc/plotting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 6eeb426..f70a4f1 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -46,11 +46,10 @@ def plot_map(
     cmap = copy.copy(plt.get_cmap(cmap))
     cmap.set_bad(alpha=0)
 
-    if oversample:
+    L = f.shape[0]
+    if oversample and L < 256:
         L = 256
         f = _oversample(f, L)
-    else:
-        L = f.shape[0]
 
     if centre0:
         cbar_end = max([f.max(), abs(f.min())])
-- 
2.43.0


From d57643169d3d63c45b55b030a712660f3f42f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:13 +0000
Subject: [PATCH 28/42] fix: weak lensing of convergence maps that are not
 contiguous in memory

---
 pxmcmc/measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index c5f4ea3..7099a72 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -219,7 +219,7 @@ class WeakLensing(WeakLensingHarmonic):
         return self._adjoint(gamma, masking=True, cov_weighting=True)
 
     def _forward(self, kappa, masking=False, cov_weighting=False):
-        kappa = kappa.reshape(self.shape)
+        kappa = np.ascontiguousarray(kappa.reshape(self.shape))
         klm = pyssht.forward(kappa, self.L, Spin=0)
         glm = super().forward(klm)
         gamma = pyssht.inverse(glm, self.L, Spin=2)
-- 
2.43.0


From 1724dc4ea2dfdbf937b1c921668a3e8d77896393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:25 +0000
Subject: [PATCH 29/42] fix: negative integer decay exponents in the
 power-weighted wavelet prior

---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 78b43f2..bfba5de 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -141,7 +141,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
         all_weights = []
         for effective_L, power, peak_l in zip(bls[1:], wavelet_powers, peak_ls):
             nsamples = pyssht.sample_length(effective_L)
-            weights = np.full(pyssht.sample_shape(effective_L), (2 * np.pi ** 2) * (peak_l ** self.eta) / (power * nsamples))
+            weights = np.full(pyssht.sample_shape(effective_L), (2 * np.pi ** 2) * (float(peak_l) ** self.eta) / (power * nsamples))
             thetas, _ = pyssht.sample_positions(effective_L)
             weights = (weights.T * np.sin(thetas)).T
             all_weights.append(weights)
-- 
2.43.0


From b3a22f3bf0c4f14619dcab2b7949da3318c21382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:35 +0000
Subject: [PATCH 30/42] fix: data errors given as vectors of small integer
 types

---
 pxmcmc/forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index c836116..5f23a12 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -77,6 +77,8 @@ class ForwardOperator:
                 raise ValueError("Covariance matrix should be square")
             return sparse.csr_matrix(np.linalg.inv(sig_d))
 
+        if isinstance(sig_d, np.ndarray) and sig_d.dtype.kind in "iu":
+            sig_d = sig_d.astype(float)  # squares overflow small integer types
         var = sig_d ** 2
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
             return sparse.identity(len(self.data)).dot(1 / var)
-- 
2.43.0


From a34d99aadcdaf2b0c7335d2fe3043519f76068ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 31/42] fix: wavelet priors scale the caller's array of
 thresholds in place

---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index bfba5de..f9ae535 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -80,7 +80,7 @@ class S2_Wavelets_L1(L1):
             self.map_weights = np.concatenate([mw_map_weights(el) for el in bls])
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
+        self.T = T * self.map_weights
 
     def prior(self, X):
         return super().prior(self.map_weights * X)
-- 
2.43.0


From eaf27db94a45ad48f8585e3c628700a1b270120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 32/42] fix: Chebyshev polynomials overflow at points of
 integer type

---
 pxmcmc/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index b440995..01d4733 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -148,7 +148,7 @@ def chebyshev1(X, order):
     elif order == 1:
         return X
     else:
-        return 2 * X * chebyshev1(X, order - 1) - chebyshev1(X, order - 2)
+        return 2.0 * X * chebyshev1(X, order - 1) - chebyshev1(X, order - 2)
 
 
 def chebyshev2(X, order):
@@ -172,9 +172,9 @@ def chebyshev2(X, order):
     elif order == 0:
         return 1
     elif order == 1:
-        return 2 * X
+        return 2.0 * X
     else:
-        return 2 * X * chebyshev2(X, order - 1) - chebyshev2(X, order - 2)
+        return 2.0 * X * chebyshev2(X, order - 1) - chebyshev2(X, order - 2)
 
 
 def cheb1der(X, order):
-- 
2.43.0


From 393605b304a7e730453e7fb1a7012a34c91b854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 33/42] fix: lensing operators broadcast signals of the wrong
 shape

---
 pxmcmc/measurements.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 7099a72..87f0955 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -166,6 +166,9 @@ class WeakLensingHarmonic(Measurement):
                 flm (complex array): harmonic coefficients.
 
         """
+        if flm.shape != self.harmonic_kernel.shape:
+            raise ValueError("Signal shape is incorrect for the bandlimit")
+
         out = flm * self.harmonic_kernel
         out[:4] = 0
         return out
@@ -177,6 +180,9 @@ class WeakLensingHarmonic(Measurement):
                 flm (complex array): harmonic coefficients.
 
         """
+        if flm.shape != self.harmonic_kernel.shape:
+            raise ValueError("Signal shape is incorrect for the bandlimit")
+
         out = flm / self.harmonic_kernel
         out[:4] = 0
         return out
@@ -275,6 +281,9 @@ class WeakLensing(WeakLensingHarmonic):
         if np.any(np.isnan(x)):
             raise ValueError("Signal is NaN.")
 
+        if x.shape != (np.count_nonzero(self.mask),):
+            raise ValueError("Signal shape is incorrect for the mask")
+
         f = np.zeros(self.shape, dtype=complex)
         f[self.mask] = x
         return f
@@ -301,4 +310,7 @@ class WeakLensing(WeakLensingHarmonic):
                 x (array): pixel space map to be inverse covariance weighted.
 
         """
+        if x.shape != self.inv_cov.shape:
+            raise ValueError("Signal shape is incorrect for the mask")
+
         return x * self.inv_cov
-- 
2.43.0


From 211f29df42c94f22dce1da6b4c9a2575066db49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 34/42] fix: parameter objects share their list of tracked
 variables

---
 pxmcmc/mcmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index c32ca9d..f7c642c 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 import numpy as np
 from scipy.stats import laplace
 from pxmcmc.utils import chebyshev1, cheb1der
@@ -40,7 +42,7 @@ class PxMCMCParams:
         self.ngap = ngap
         self.complex = complex
         self.verbosity = verbosity
-        self.track = track
+        self.track = copy(track)
 
 
 class PxMCMC:
-- 
2.43.0


From 1f02abbcc9b05eadd05f9faf260e83c90f711e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 35/42] fix: Chebyshev polynomials take time exponential in the
 order

The recursion calls itself twice, so orders above about 35 never finish.
---
 pxmcmc/utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 01d4733..2d1620b 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -145,10 +145,10 @@ def chebyshev1(X, order):
         raise ValueError("order must be >= 0")
     elif order == 0:
         return 1
-    elif order == 1:
-        return X
-    else:
-        return 2.0 * X * chebyshev1(X, order - 1) - chebyshev1(X, order - 2)
+    previous, current = 1, X
+    for _ in range(order - 1):
+        previous, current = current, 2.0 * X * current - previous
+    return current
 
 
 def chebyshev2(X, order):
@@ -171,10 +171,10 @@ def chebyshev2(X, order):
         raise ValueError("order must be >= 0")
     elif order == 0:
         return 1
-    elif order == 1:
-        return 2.0 * X
-    else:
-        return 2.0 * X * chebyshev2(X, order - 1) - chebyshev2(X, order - 2)
+    previous, current = 1, 2.0 * X
+    for _ in range(order - 1):
+        previous, current = current, 2.0 * X * current - previous
+    return current
 
 
 def cheb1der(X, order):
-- 
2.43.0


From 194713fc52c90d1266b22bbaa5c4ba0751ba35ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 36/42] fix: a SKROCK step evaluates a number of gradients
 exponential in s

The recursion computed every lower stage again (6726 gradients for the s=10 of
the experiments); a step needs s of them.
---
 pxmcmc/mcmc.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index f7c642c..718a29f 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -350,22 +350,22 @@ class SKROCK(PxMCMC):
     def _K_recursion(self, X, s, Z):
         if s == 0:
             return X
-        elif s == 1:
-            return (
-                X
-                + self.mus[1]
-                * self.delta
-                * self._gradlogpi(X + self.nus[1] * np.sqrt(2 * self.delta) * Z)
-                + self.ks[1] * np.sqrt(2 * self.delta) * Z
-            )
-        else:
-            return (
-                self.mus[s]
-                * self.delta
-                * self._gradlogpi(self._K_recursion(X, s - 1, Z))
-                + self.nus[s] * self._K_recursion(X, s - 1, Z)
-                + self.ks[s] * self._K_recursion(X, s - 2, Z)
+        K_prev = X
+        K = (
+            X
+            + self.mus[1]
+            * self.delta
+            * self._gradlogpi(X + self.nus[1] * np.sqrt(2 * self.delta) * Z)
+            + self.ks[1] * np.sqrt(2 * self.delta) * Z
+        )
+        for j in range(2, s + 1):
+            K_next = (
+                self.mus[j] * self.delta * self._gradlogpi(K)
+                + self.nus[j] * K
+                + self.ks[j] * K_prev
             )
+            K_prev, K = K, K_next
+        return K
 
     def _recursion_coefs(self):
         self.mus = np.zeros(self.s + 1)
-- 
2.43.0


From 466b3c1c1a926104e89070a150e3c0163a3c7ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 37/42] fix: earthtopography experiment crashes on MW input
 files

The operators take the map as a vector.
---
 experiments/earthtopography/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/earthtopography/main.py b/experiments/earthtopography/main.py
index c751227..b59e493 100644
--- a/experiments/earthtopography/main.py
+++ b/experiments/earthtopography/main.py
@@ -82,7 +82,7 @@ if "_hpx_" in args.infile:
     topo_d = pys2let.alm2map_mw(pys2let.lm_hp2lm(topo_d_lm, L), L, 0)
 elif "_mw_" in args.infile:
     topo = np.load(args.infile)
-    topo_d = topo.reshape((L, 2 * L - 1))
+    topo_d = topo.flatten()
 else:
     raise ValueError("Check filename")
 
-- 
2.43.0


From ec1f5fe632f73afcc3d6078086f6ecda74aff72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 38/42] fix: earthtopography plots crash with added noise or
 --save_npy

---
 experiments/earthtopography/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/earthtopography/plot.py b/experiments/earthtopography/plot.py
index aa92ed7..5f8ea76 100644
--- a/experiments/earthtopography/plot.py
+++ b/experiments/earthtopography/plot.py
@@ -37,8 +37,8 @@ parser.add_argument(
 args = parser.parse_args()
 
 
-def filename(name):
-    return f"{args.directory}/{name}{args.suffix}.png"
+def filename(name, ext="png"):
+    return f"{args.directory}/{name}{args.suffix}.{ext}"
 
 
 # Load results file and extract global parameters
@@ -135,7 +135,7 @@ diffpmean = plotting.plot_map(
 diffpmean.savefig(filename("diff_mean"))
 
 # If noise was added, plot it
-if "noise" in params and params["noise"]:
+if "noise" in params and np.any(params["noise"]):
     noise = params["noise"].reshape((L, 2 * L - 1)) / 1000
     noise_map = plotting.plot_map(
         noise, title="Added noise", cmap="binary", oversample=False
-- 
2.43.0


From acfb2bd0d59e0fb74329c7faa52364d6f66fea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 39/42] fix: weaklensing plots crash taking quantiles of
 complex images

The chain and the wavelets are real, so are the images.
---
 experiments/weaklensing/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/weaklensing/plot.py b/experiments/weaklensing/plot.py
index 6c0b571..e9950ef 100644
--- a/experiments/weaklensing/plot.py
+++ b/experiments/weaklensing/plot.py
@@ -135,7 +135,7 @@ for i, sample in enumerate(file["chain"][args.burn :]):
         chain_pix[i] = np.copy(sample)
 
 # Get and plot the uncertainty
-ci_range = uncertainty.credible_interval_range(chain_pix).reshape(mw_shape)
+ci_range = uncertainty.credible_interval_range(chain_pix.real).reshape(mw_shape)
 ci_map = plotting.plot_map(
     np.ascontiguousarray(ci_range.real),
     title="95% credible interval range",
-- 
2.43.0


From 1b98d234eddebcd493671981d9bec22cd0050b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 40/42] fix: importing the weaklensing experiment runs part of
 it and crashes

---
 experiments/weaklensing/main.py | 62 ++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/experiments/weaklensing/main.py b/experiments/weaklensing/main.py
index 538117c..14585c5 100644
--- a/experiments/weaklensing/main.py
+++ b/experiments/weaklensing/main.py
@@ -129,34 +129,34 @@ if __name__ == "__main__":
         J_min=J_min,
     )
 
-print(f"Number of data points: {gammas_truth.size}")
-print(f"Number of model parameters: {forward_operator.nparams}")
-
-# Choose PxMCMC algorithm
-if args.algo == "myula":
-    mcmc = MYULA(forward_operator, prior, params)
-elif args.algo == "pxmala":
-    mcmc = PxMALA(forward_operator, prior, params, tune_delta=True)
-elif args.algo == "skrock":
-    mcmc = SKROCK(forward_operator, prior, params)
-else:
-    raise ValueError
-
-# RUN
-NOW = datetime.datetime.now()
-mcmc.run()
-
-# Save
-filename = f"{args.algo}_{args.setting}_{NOW.strftime('%d%m%y_%H%M%S')}_{args.jobid}"
-save_mcmc(
-    mcmc,
-    params,
-    args.outdir,
-    filename=filename,
-    L=L,
-    B=B,
-    J_min=J_min,
-    nparams=forward_operator.nparams,
-    setting=setting,
-    time=str(datetime.datetime.now() - NOW),
-)
+    print(f"Number of data points: {gammas_truth.size}")
+    print(f"Number of model parameters: {forward_operator.nparams}")
+
+    # Choose PxMCMC algorithm
+    if args.algo == "myula":
+        mcmc = MYULA(forward_operator, prior, params)
+    elif args.algo == "pxmala":
+        mcmc = PxMALA(forward_operator, prior, params, tune_delta=True)
+    elif args.algo == "skrock":
+        mcmc = SKROCK(forward_operator, prior, params)
+    else:
+        raise ValueError
+
+    # RUN
+    NOW = datetime.datetime.now()
+    mcmc.run()
+
+    # Save
+    filename = f"{args.algo}_{args.setting}_{NOW.strftime('%d%m%y_%H%M%S')}_{args.jobid}"
+    save_mcmc(
+        mcmc,
+        params,
+        args.outdir,
+        filename=filename,
+        L=L,
+        B=B,
+        J_min=J_min,
+        nparams=forward_operator.nparams,
+        setting=setting,
+        time=str(datetime.datetime.now() - NOW),
+    )
-- 
2.43.0


From 573d51a283e858a892a6872fb675ec72ba51e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 41/42] fix: phasevel experiment crashes on a data file with a
 single path

---
 experiments/phasevel/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/phasevel/main.py b/experiments/phasevel/main.py
index 01a26c0..e1f7026 100644
--- a/experiments/phasevel/main.py
+++ b/experiments/phasevel/main.py
@@ -27,7 +27,7 @@ def read_datafile(datafile):
     Coordinates given in degrees
     """
     start_lat, start_lon, stop_lat, stop_lon, data, sig_d, mima, nsim = np.loadtxt(
-        datafile, unpack=True
+        datafile, unpack=True, ndmin=2
     )
     start = np.stack([start_lat, start_lon], axis=1)
     stop = np.stack([stop_lat, stop_lon], axis=1)
-- 
2.43.0


From 5a58f6de30bfda4857e7de60c90e3a1aeeb0f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 42/42] fix: label the phase velocity credible intervals with
 their level

---
 experiments/phasevel/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/phasevel/plot.py b/experiments/phasevel/plot.py
index e516077..67f2665 100644
--- a/experiments/phasevel/plot.py
+++ b/experiments/phasevel/plot.py
@@ -109,7 +109,7 @@ in_ci = (truth.flatten() >= quantiles[0]) & (truth.flatten() <= quantiles[1])
 ci_range = np.diff(quantiles, axis=0)[0].reshape(mw_shape)
 ci_map = plotting.plot_map(
     np.ascontiguousarray(ci_range),
-    title="95% credible interval range",
+    title=f"{100 * (1 - alpha):.0f}% credible interval range",
     cmap="viridis",
     vmin=0,
 )
-- 
2.43.0

