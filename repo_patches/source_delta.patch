From f8ec39850c53b47b48420309e6843b795e86aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 01/38] fix: KuTa12 sampler pivots on the largest entry, not on
 a round-off residue

---
 dppy/exact_sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 7adc95d..8d5a6b3 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -651,8 +651,9 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
             break
 
         # Cancel the contribution of e_i to the remaining vectors that is, find the subspace of V that is orthogonal to \{e_i ; i \in Y\}
-        # Take the index of a vector that has a non null contribution on e_j
-        k = np.where(V[j, :] != 0)[0][0]
+        # Take the index of the vector with the largest contribution on e_j
+        # (a contribution at round-off level must not be used as a pivot)
+        k = np.argmax(np.abs(V[j, :]))
         # Cancel the contribution of the remaining vectors on e_j, but stay in the subspace spanned by V i.e. get the subspace of V orthogonal to \{e_i ; i \in Y\}
         V -= np.outer(V[:, k] / V[j, k], V[j, :])
         # V_:j is set to 0 so we delete it and we can derive an orthononormal basis of the subspace under consideration
-- 
2.43.0


From 99eafafb2855f09d71e9ae8b25399a9a15c9b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 02/38] fix: vfx precomputation accepts the documented
 sampling-loop parameters (q_func, max_iter, ...)

---
 dppy/intermediate_sampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 7844c50..2c38d5d 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -131,7 +131,8 @@ def vfx_sampling_precompute_constants(X_data,
                                       rls_oversample_dppvfx=4.0,
                                       rls_oversample_bless=4.0,
                                       nb_iter_bless=None,
-                                      verbose=True):
+                                      verbose=True,
+                                      **kwargs):
     """Pre-compute quantities necessary for the vfx rejection sampling loop, such as the inner Nystrom approximation,
     and the RLS of all elements in L.
 
@@ -179,6 +180,8 @@ def vfx_sampling_precompute_constants(X_data,
             - m: current size of the dictionary (number of centers contained)
             - m_expected: expected size of the dictionary before sampling
             - probs_dist: (mean, max, min) of the approximate rlss at the current iteration
+        :param dict kwargs: we add a unused catch all kwargs argument to make sure that the user can pass the
+        same set of parameters to both vfx_sampling_precompute_constants and vfx_sampling_do_sampling_loop.
 
         :return: Pre-computed information necessary for the vfx rejection sampling loop with fields
         - result.alpha_star: appropriate rescaling such that the expected sample size of DPP(alpha_star * L) is equal
-- 
2.43.0


From 612cfca223ec6c7520290a2e5aaab5289acc438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 03/38] fix: vfx sampler draws the intermediate sample size
 with the exact Poisson intensity

---
 dppy/intermediate_sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 2c38d5d..a7805b7 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -370,8 +370,9 @@ def vfx_sampling_do_sampling_loop(X_data,
     with get_progress_bar(disable=not verbose) as prog_bar:
         for rej_iter in range(max_iter):
             # sample t
-            lam = np.ceil(pc_state.q * np.exp(pc_state.s / pc_state.q))
-            t = rng.poisson(lam=lam.astype('int'))
+            # the intensity must not be rounded, otherwise the accepted samples
+            # are distributed according to a rescaled likelihood kernel
+            t = rng.poisson(lam=pc_state.q * np.exp(pc_state.s / pc_state.q))
 
             # sample sigma subset
             sigma = rng.choice(n,
-- 
2.43.0


From 1c99a2e52ae28671ac4860e538c1e62ee1c3d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 04/38] fix: acceptance ratio of the delete move of the
 add-exchange-delete sampler was inverted

---
 dppy/mcmc_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 5dba753..dd3d6da 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -223,7 +223,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             del S1[s_ind]  # S0 - s
             # Accept_reject the move
             det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < det_S1 / det_S0 * size_S0 / (N - (size_S0 - 1)):
+            if rng.rand() < det_S1 / det_S0 * (N - (size_S0 - 1)) / size_S0:
                 S0, det_S0 = S1, det_S1
                 chain.append(S1)
                 size_S0 -= 1
-- 
2.43.0


From c930c88cb618da9cdac98499b0ab7a88677fc92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 05/38] fix: MCMC samplers no longer crash when the current
 sample is the whole ground set

---
 dppy/mcmc_sampling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index dd3d6da..c4749bf 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -187,8 +187,9 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
         S1 = S0.copy()  # S1 = S0
         # Pick one element s in S_0 by index uniformly at random
         s_ind = rng.choice(size_S0 if size_S0 else N)  # , size=1)[0]
-        # Unif t in [N]-S0
-        t = rng.choice(np.delete(ground_set, S0))
+        # Unif t in [N]-S0, not used when S0 = [N] (only Delete is possible)
+        if size_S0 < N:
+            t = rng.choice(np.delete(ground_set, S0))
 
         U = rng.rand()
         ratio = size_S0 / N  # Proportion of items in current sample
@@ -381,8 +382,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
 
     for it in range(1, nb_iter):
 
-        # With proba 1/2 try to swap 2 elements
-        if rng.rand() < 0.5:
+        # With proba 1/2 try to swap 2 elements (if there is something to swap)
+        if rng.rand() < 0.5 and 0 < size < N:
 
             # Perform the potential exchange move S1 = S0 - s + t
             S1 = S0.copy()  # S1 = S0
-- 
2.43.0


From 8e2f6c07d736d790a85702d930a0ced1c567297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 06/38] fix: T_max stops the MCMC samplers once the time is
 elapsed, not before, without padding the chain

---
 dppy/mcmc_sampling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index c4749bf..3557b86 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -235,7 +235,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start >= T_max:
                 break
 
     return chain
@@ -318,7 +318,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start >= T_max:
                 break
 
     return chain
@@ -407,7 +407,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain[it] = S0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start >= T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
@@ -609,7 +610,8 @@ def zonotope_sampler(A_zono, **params):
                 chain[it] = B_x0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start >= T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
-- 
2.43.0


From 5a8d33a73f34999752ba10abc71cfcccaea22bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 07/38] fix: MCMC initialisation accepts a valid initial set
 found at the last trial

---
 dppy/mcmc_sampling.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 3557b86..4159bff 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -81,12 +81,11 @@ def initialize_AED_sampler(kernel, random_state=None):
     tol = 1e-9
 
     for _ in range(nb_trials):
+        T = rng.choice(2 * N, size=N, replace=False)
+        S0 = np.intersect1d(T, ground_set, assume_unique=True)
+        det_S0 = det_ST(kernel, S0)
         if det_S0 > tol:
             break
-        else:
-            T = rng.choice(2 * N, size=N, replace=False)
-            S0 = np.intersect1d(T, ground_set, assume_unique=True)
-            det_S0 = det_ST(kernel, S0)
     else:
         err_str = ['Initialization terminated unsuccessfully.',
                    'After {} random trials, no initial set S0 satisfies det L_S0 > {}.'.format(nb_trials, tol),
@@ -114,13 +113,12 @@ def initialize_AD_and_E_sampler(kernel, size=None, random_state=None):
     tol = 1e-9
 
     for _ in range(nb_trials):
+        S0 = rng.choice(N,
+                        size=size if size else rng.randint(1, N + 1),
+                        replace=False)
+        det_S0 = det_ST(kernel, S0)
         if det_S0 > tol:
             break
-        else:
-            S0 = rng.choice(N,
-                            size=size if size else rng.randint(1, N + 1),
-                            replace=False)
-            det_S0 = det_ST(kernel, S0)
     else:
         err_str = ['Initialization terminated unsuccessfully.',
                    'After {} random trials, no initial set S0 satisfies det L_S0 > {}.'.format(nb_trials, tol),
-- 
2.43.0


From 716adcaa73c68e99859d67786610514d9ad17010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 08/38] fix: vfx and alpha samplers reuse a precomputation only
 for the law it was made for

---
 dppy/finite_dpps.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 9330e2b..18a95de 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -164,7 +164,9 @@ class FiniteDPP:
         # eval_L(X, Y) = L(X, Y)
         # eval_L(X) = L(X, X)
         self.eval_L, self.X_data = params.get('L_eval_X_data', [None, None])
-        self.intermediate_sample_info = None
+        # one precomputation per rejection sampler and target law,
+        # they are not interchangeable
+        self.intermediate_sample_info = {}
 
         if self.eval_L is not None:
             if not callable(self.eval_L):
@@ -357,12 +359,14 @@ class FiniteDPP:
                 raise ValueError('The vfx sampler is currently only available with '
                                  '{"L_eval_X_data": (L_eval, X_data)} representation.')
 
+            info_key = (self.sampling_mode, 'dpp',
+                        params.get('desired_expected_size'))
             r_state_outer = None
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
 
-            sampl, self.intermediate_sample_info = dpp_vfx_sampler(
-                                                self.intermediate_sample_info,
+            sampl, self.intermediate_sample_info[info_key] = dpp_vfx_sampler(
+                                                self.intermediate_sample_info.get(info_key),
                                                 self.X_data,
                                                 self.eval_L,
                                                 random_state=rng,
@@ -375,12 +379,14 @@ class FiniteDPP:
                 raise ValueError('The alpha sampler is currently only available with '
                                  '{"L_eval_X_data": (L_eval, X_data)} representation.')
 
+            info_key = (self.sampling_mode, 'dpp',
+                        params.get('desired_expected_size'))
             r_state_outer = None
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
 
-            sampl, self.intermediate_sample_info = alpha_dpp_sampler(
-                                                self.intermediate_sample_info,
+            sampl, self.intermediate_sample_info[info_key] = alpha_dpp_sampler(
+                                                self.intermediate_sample_info.get(info_key),
                                                 self.X_data,
                                                 self.eval_L,
                                                 random_state=rng,
@@ -553,13 +559,14 @@ class FiniteDPP:
             if self.eval_L is None or self.X_data is None:
                 raise ValueError("The vfx sampler is currently only available for the 'L_eval_X_data' representation.")
 
+            info_key = (self.sampling_mode, 'k-dpp', size)
             r_state_outer = None
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
 
-            sampl, self.intermediate_sample_info = k_dpp_vfx_sampler(
+            sampl, self.intermediate_sample_info[info_key] = k_dpp_vfx_sampler(
                                                 size,
-                                                self.intermediate_sample_info,
+                                                self.intermediate_sample_info.get(info_key),
                                                 self.X_data,
                                                 self.eval_L,
                                                 random_state=rng,
@@ -572,13 +579,14 @@ class FiniteDPP:
             if self.eval_L is None or self.X_data is None:
                 raise ValueError("The alpha sampler is currently only available for the 'L_eval_X_data' representation.")
 
+            info_key = (self.sampling_mode, 'k-dpp', size)
             r_state_outer = None
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
 
-            sampl, self.intermediate_sample_info = alpha_k_dpp_sampler(
+            sampl, self.intermediate_sample_info[info_key] = alpha_k_dpp_sampler(
                                                 size,
-                                                self.intermediate_sample_info,
+                                                self.intermediate_sample_info.get(info_key),
                                                 self.X_data,
                                                 self.eval_L,
                                                 random_state=rng,
-- 
2.43.0


From d7bb1663eed2f3d0dcef3fd675cad7324d45a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 09/38] fix: k-DPP sampling recomputes the elementary symmetric
 polynomials when k grows

---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 18a95de..2d00b43 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -655,7 +655,7 @@ class FiniteDPP:
 
             # Phase 1
             # Precompute elementary symmetric polynomials
-            if self.E_poly is None or self.size_k_dpp < size:
+            if self.E_poly is None or self.E_poly.shape[0] <= size:
                 self.E_poly = elementary_symmetric_polynomials(self.L_eig_vals,
                                                                size)
             # Select eigenvectors
-- 
2.43.0


From ca8cf69a07636f43d6248f573b639c8bf1f6eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 10/38] fix: rank deficient feature matrices no longer give NaN
 eigenvectors

---
 dppy/finite_dpps.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 2d00b43..cb0f584 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -426,10 +426,7 @@ class FiniteDPP:
             # L_dual = Phi Phi.T = W Theta W.T
             # L = Phi.T Phi = V Gamma V
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
-            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = np.maximum(is_geq_0(self.L_eig_vals), 0.0)
-            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            self.__compute_eig_dec_from_L_dual()
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -679,10 +676,7 @@ class FiniteDPP:
             # L_dual = Phi Phi.T = W Theta W.T
             # L = Phi.T Phi = V Gamma V.T
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
-            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
-            self.eig_vecs =self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            self.__compute_eig_dec_from_L_dual()
             return self.sample_exact_k_dpp(size, mode=self.sampling_mode,
                                            random_state=rng)
 
@@ -824,6 +818,20 @@ class FiniteDPP:
 
         return self.sample_mcmc(self.sampling_mode, **params)
 
+    def __compute_eig_dec_from_L_dual(self):
+        # L' = Phi Phi.T = W Theta W.T
+        # L = Phi.T Phi = V Gamma V.T, Gamma = Theta and V = Phi.T W Theta^{-1/2}
+        # restricted to the non zero eigenvalues
+        eig_vals, eig_vecs = la.eigh(self.L_dual)
+        eig_vals = is_geq_0(eig_vals)
+
+        tol = np.max(eig_vals) * self.L_gram_factor.shape[1] * np.finfo(float).eps
+        non_zero = eig_vals > tol
+
+        self.L_eig_vals = eig_vals[non_zero]
+        self.eig_vecs = self.L_gram_factor.T.dot(eig_vecs[:, non_zero]
+                                                 / np.sqrt(self.L_eig_vals))
+
     def compute_K(self, msg=False):
         """ Compute the correlation kernel :math:`\\mathbf{K}` from the original parametrization of the :class:`FiniteDPP` object.
 
-- 
2.43.0


From b156afc23a6710f39374dea1a28d5e679240da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 11/38] fix: do not change numpy's global floating point error
 handling

---
 dppy/finite_dpps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index cb0f584..3b75c46 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -666,8 +666,8 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
-            np.seterr(divide='raise')
-            self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+            with np.errstate(divide='raise'):
+                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -931,8 +931,8 @@ class FiniteDPP:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
                     msg = '- eig_L = eig_K/(1-eig_K)'
                     print(msg)
-                    np.seterr(divide='raise')
-                    self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+                    with np.errstate(divide='raise'):
+                        self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
                     self.compute_L(msg=True)
                 except FloatingPointError:
                     err_print = ['Eigenvalues of L kernel cannot be computed',
-- 
2.43.0


From cbd0e1df57bcef8932c135234b18445f2929b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 12/38] fix: Chol and Schur k-DPP modes of projection
 likelihood kernels stay available after other calls

---
 dppy/finite_dpps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 3b75c46..c3163ef 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -632,7 +632,10 @@ class FiniteDPP:
                                                     random_state=rng)
 
             else:  # self.kernel_type == 'likelihood':
-                if self.L_eig_vals is not None:
+                # 'Chol' and 'Schur' work on the kernel, whether or not a
+                # previous call has computed its eigendecomposition
+                if (self.L_eig_vals is not None
+                        and self.sampling_mode not in ('Chol', 'Schur')):
                     # L_eig_vals > 0.5 below to get indices where e_vals = 1
                     sampl = proj_dpp_sampler_eig(
                             eig_vecs=self.eig_vecs[:, self.L_eig_vals > 0.5],
-- 
2.43.0


From 16c8576f51914af26fad8c63358c1663d46e18c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 13/38] fix: an invalid sampling mode is rejected whatever the
 number of selected eigenvectors

---
 dppy/exact_sampling.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 8d5a6b3..200e9b3 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -415,6 +415,14 @@ def proj_dpp_sampler_eig(eig_vecs, mode='GS', size=None,
 
     rng = check_random_state(random_state)
 
+    if mode not in ('GS', 'GS_bis', 'KuTa12'):
+        str_list = ['Invalid sampling mode, choose among:',
+                    '- "GS" (default)',
+                    '- "GS_bis"',
+                    '- "KuTa12"',
+                    'Given "{}"'.format(mode)]
+        raise ValueError('\n'.join(str_list))
+
     if eig_vecs.shape[1]:
         # Phase 2: Sample from projection kernel VV.T
         # Chain rule, conditionals are updated using:
@@ -424,16 +432,8 @@ def proj_dpp_sampler_eig(eig_vecs, mode='GS', size=None,
         elif mode == 'GS_bis':  # Slight modif of 'GS'
             sampl = proj_dpp_sampler_eig_GS_bis(eig_vecs, size, rng)
 
-        elif mode == 'KuTa12':  # cf Kulesza-Taskar
+        else:  # mode == 'KuTa12', cf Kulesza-Taskar
             sampl = proj_dpp_sampler_eig_KuTa12(eig_vecs, size, rng)
-
-        else:
-            str_list = ['Invalid sampling mode, choose among:',
-                        '- "GS" (default)',
-                        '- "GS_bis"',
-                        '- "KuTa12"',
-                        'Given "{}"'.format(mode)]
-            raise ValueError('\n'.join(str_list))
     else:
         sampl = []
 
-- 
2.43.0


From 82ccabf168f8cc7604b52858a2659736ac9fa891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 14/38] fix: spanning tree samplers start at the requested root

---
 dppy/exotic_dpps.py      | 2 ++
 dppy/exotic_dpps_core.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index c0ab69e..4b42296 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -558,10 +558,12 @@ class UST:
         if self.sampling_mode in self._sampling_modes['markov-chain']:
             if self.sampling_mode == 'Wilson':
                 sampl = ust_sampler_wilson(self.neighbors,
+                                           root=root,
                                            random_state=rng)
 
             elif self.sampling_mode == 'Aldous-Broder':
                 sampl = ust_sampler_aldous_broder(self.neighbors,
+                                                  root=root,
                                                   random_state=rng)
 
         elif self.sampling_mode in self._sampling_modes['spectral-method']:
diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index ee0f80f..bd02a2b 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -48,7 +48,7 @@ def ust_sampler_wilson(list_of_neighbors, root=None,
     nb_nodes = len(list_of_neighbors)
 
     # Initialize the root, if root not specified start from any node
-    n0 = root if root else rng.choice(nb_nodes)  # size=1)[0]
+    n0 = rng.choice(nb_nodes) if root is None else root  # size=1)[0]
     # -1 = not visited / 0 = in path / 1 = in tree
     state = -np.ones(nb_nodes, dtype=int)
     state[n0] = 1
@@ -113,7 +113,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     nb_nodes = len(list_of_neighbors)
 
     # Initialize the root, if root not specified start from any node
-    n0 = root if root else rng.choice(nb_nodes)  # size=1)[0]
+    n0 = rng.choice(nb_nodes) if root is None else root  # size=1)[0]
     visited = np.zeros(nb_nodes, dtype=bool)
     visited[n0] = True
     nb_nodes_in_tree = 1
-- 
2.43.0


From f30b1f4d20f4ea3e4b0b204798999eee71e96830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 15/38] fix: Aldous-Broder sampler no longer uses the removed
 np.int

---
 dppy/exotic_dpps_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index bd02a2b..99fc9dc 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -118,7 +118,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     visited[n0] = True
     nb_nodes_in_tree = 1
 
-    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=np.int)
+    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=int)
 
     while nb_nodes_in_tree < nb_nodes:
 
-- 
2.43.0


From 18796bdcb417b756d3acd12328d3d2589c942f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 16/38] fix: UST.sample raises ValueError on an invalid mode

---
 dppy/exotic_dpps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 4b42296..23f60a7 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -587,11 +587,11 @@ class UST:
             sampl.add_edges_from([self.edges[e] for e in dpp_sample])
 
         else:
-            err_print = '\n'.join(
+            err_print = '\n'.join([
                 'Invalid sampling mode',
                 'Chose from: {}'.format(self._sampling_modes.values()),
-                'Given {}'.format(mode))
-            raise ValueError()
+                'Given {}'.format(mode)])
+            raise ValueError(err_print)
 
         self.list_of_samples.append(sampl)
 
-- 
2.43.0


From bd38e6d3e9af6ee8c5c8982c40b5e8bc6ade9392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 17/38] fix: UST.sample accepts the documented GS_bis and
 KuTa12 modes

---
 dppy/exotic_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 23f60a7..a411a5d 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -490,7 +490,7 @@ class UST:
 
         self.sampling_mode = 'Wilson'  # Default (avoid eig_vecs computation)
         self._sampling_modes = {'markov-chain': ['Wilson', 'Aldous-Broder'],
-                                'spectral-method': ['GS'],
+                                'spectral-method': ['GS', 'GS_bis', 'KuTa12'],
                                 'projection-K-kernel': ['Schur', 'Chol']}
         self.list_of_samples = []
 
-- 
2.43.0


From 878fe0f95a01975a959c85b198aa0f7021bdbeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 18/38] fix: virtual descent process fixes each point with
 probability x_0, so that its intensity is (1 - x_0^2)/2

---
 dppy/exotic_dpps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index a411a5d..e292de0 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -263,12 +263,13 @@ class VirtualDescentProcess(Descent):
         rng = check_random_state(random_state)
 
         self.size = size
+        # Record the fixed points, each point is fixed with probability x_0
+        Y = rng.binomial(n=1, p=self.x_0, size=self.size + 1) == 1
+
         sigma = uniform_permutation(self.size + 1, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        Y = rng.binomial(n=2, p=self.x_0, size=self.size + 1) != 1
-
         descent = [i for i in range(self.size)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
-- 
2.43.0


From a1123f0f761ecce85c8fa83c54a35952947870d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 19/38] fix: a negative beta raises ValueError as documented

---
 dppy/beta_ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 09d3fd9..c5731ae 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -50,7 +50,7 @@ class BetaEnsemble(metaclass=ABCMeta):
     def __init__(self, beta=2):
 
         if not (beta >= 0):
-            raise ValueError('`beta` must be >=0. Given: {}'.format(self.beta))
+            raise ValueError('`beta` must be >=0. Given: {}'.format(beta))
         self.beta = beta
 
         # Split object name at uppercase
-- 
2.43.0


From a51fba7646c1ca271145171b82b7ed98d8b7427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 20/38] fix: normalize_points leaves the points it is given,
 e.g. a recorded sample, unchanged

---
 dppy/beta_ensembles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index c5731ae..4dfd2cf 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -260,14 +260,14 @@ class HermiteEnsemble(BetaEnsemble):
 
         if self.sampling_mode == 'banded':
             # Normalize to fit N(0,2) ref measure of the full matrix model
-            points -= self.params['loc']
-            points /= np.sqrt(0.5) * self.params['scale']
+            points = np.subtract(points, self.params['loc'])
+            points = points / (np.sqrt(0.5) * self.params['scale'])
         else:  # 'full'
             pass
 
         if self.beta > 0:
             # Normalize to fit the semi-circle distribution
-            points /= np.sqrt(self.beta * self.params['size_N'])
+            points = np.divide(points, np.sqrt(self.beta * self.params['size_N']))
         else:
             pass
 
@@ -590,13 +590,13 @@ class LaguerreEnsemble(BetaEnsemble):
 
         if self.sampling_mode == 'banded':
             # Normalize to fit Gamma(*,2) refe measure of the full matrix model
-            points /= 0.5 * self.params['scale']
+            points = np.divide(points, 0.5 * self.params['scale'])
         else:  # self.sampling_mode == 'full':
             pass
 
         if self.beta > 0:
             # Normalize to fit the Marcenko-Pastur distribution
-            points /= self.beta * self.params['size_M']
+            points = np.divide(points, self.beta * self.params['size_M'])
         else:
             pass
             # set a warning, won't concentrate as semi-circle, they are i.i.d.
-- 
2.43.0


From f982d8def633d25b4dcc0c282af666f6b117c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 21/38] fix: full matrix models with beta=4 return the N points
 of the ensemble once

---
 dppy/random_matrices.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 0b7db3f..5b2428b 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -44,7 +44,10 @@ def hermite_sampler_full(N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+    eig_vals = la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+
+    # quaternionic case: each of the N points is an eigenvalue of multiplicity 2
+    return eig_vals[::2] if beta == 4 else eig_vals
 
 
 def semi_circle_law(x, R=2.0):
@@ -110,7 +113,10 @@ def laguerre_sampler_full(M, N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A.dot(A.conj().T))
+    eig_vals = la.eigvalsh(A.dot(A.conj().T))
+
+    # quaternionic case: each of the N points is an eigenvalue of multiplicity 2
+    return eig_vals[::2] if beta == 4 else eig_vals
 
 
 def marcenko_pastur_law(x, M, N, sigma=1.0):
@@ -193,7 +199,10 @@ def jacobi_sampler_full(M_1, M_2, N, beta=2,
     X_tmp = X.dot(X.conj().T)
     Y_tmp = Y.dot(Y.conj().T)
 
-    return la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+    eig_vals = la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+
+    # quaternionic case: each of the N points is an eigenvalue of multiplicity 2
+    return np.sort(eig_vals)[::2] if beta == 4 else eig_vals
 
 
 def wachter_law(x, M_1, M_2, N):
-- 
2.43.0


From 71a06cff87ce3db83373a00bc54d672b54a59116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 22/38] fix: haar_mode Hermite draws the phases of the
 eigenvectors so that the matrix follows the Haar measure

---
 dppy/random_matrices.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 5b2428b..a6c366a 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -301,6 +301,25 @@ def circular_sampler_full(N, beta=2, haar_mode='QR',
 
         _, U = la.eigh(A + A.conj().T)
 
+        # Eigenvectors are defined up to a unit scalar, the choice made by eigh
+        # is not uniform: draw it so that U follows the Haar measure
+        if beta == 1:
+            U = U * np.sign(rng.randn(N))
+
+        elif beta == 2:
+            z = rng.randn(N) + 1j * rng.randn(N)
+            U = U * (z / np.abs(z))
+
+        else:  # beta == 4, eigenvectors come by pairs (x, y), (-y^*, x^*)
+            def pair(V):
+                return np.vstack([-V[N:].conj(), V[:N].conj()])
+
+            z = rng.randn(2, N) + 1j * rng.randn(2, N)
+            z /= np.sqrt(np.sum(np.abs(z)**2, axis=0))
+            V = U[:, ::2]
+            V = V * z[0] + pair(V) * z[1]
+            U = np.hstack([V, pair(V)])
+
     elif haar_mode == 'QR':
 
         if beta == 1:  # COE
-- 
2.43.0


From acc68d9ebf279ec903c90e2857d4f1323d972b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 23/38] fix: a non boolean projection argument raises
 ValueError, not AttributeError

---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index c3163ef..9d61d78 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -197,7 +197,7 @@ class FiniteDPP:
 
         if not isinstance(self.projection, bool):
             err_print = ['`projection` argument is not boolean',
-                         'Given: {}'.format(self.is_projection)]
+                         'Given: {}'.format(self.projection)]
             raise ValueError('\n'.join(err_print))
 
         K_type, K_params = 'correlation', {'K', 'K_eig_dec', 'A_zono'}
-- 
2.43.0


From 4b4373de958fd6f4d5824d0ea6f15e06613d3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 24/38] fix: eigenvalues are validated before they are stored

An invalid kernel was refused by the first call and used by the next one.
---
 dppy/finite_dpps.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 9d61d78..eed607d 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -437,14 +437,14 @@ class FiniteDPP:
                                             random_state=rng)
 
         elif self.K is not None:
-            self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-            self.K_eig_vals = is_in_01(self.K_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.K)
+            self.K_eig_vals, self.eig_vecs = is_in_01(eig_vals), eig_vecs
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
         elif self.L is not None:
-            self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.L)
+            self.L_eig_vals, self.eig_vecs = is_geq_0(eig_vals), eig_vecs
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -684,14 +684,14 @@ class FiniteDPP:
                                            random_state=rng)
 
         elif self.L is not None:
-            self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.L)
+            self.L_eig_vals, self.eig_vecs = is_geq_0(eig_vals), eig_vecs
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
         elif self.K is not None:
-            self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-            self.K_eig_vals = is_in_01(self.K_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.K)
+            self.K_eig_vals, self.eig_vecs = is_in_01(eig_vals), eig_vecs
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -877,8 +877,8 @@ class FiniteDPP:
             elif self.L is not None:
                 msg = '- eigendecomposition of L'
                 print(msg)
-                self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-                self.L_eig_vals = is_geq_0(self.L_eig_vals)
+                eig_vals, eig_vecs = la.eigh(self.L)
+                self.L_eig_vals, self.eig_vecs = is_geq_0(eig_vals), eig_vecs
                 self.compute_K(msg=True)
 
             else:
@@ -947,8 +947,8 @@ class FiniteDPP:
             elif self.K is not None:
                 msg = '- eigendecomposition of K'
                 print(msg)
-                self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-                self.K_eig_vals = is_in_01(self.K_eig_vals)
+                eig_vals, eig_vecs = la.eigh(self.K)
+                self.K_eig_vals, self.eig_vecs = is_in_01(eig_vals), eig_vecs
                 self.compute_L(msg=True)
 
             else:
-- 
2.43.0


From b824e31e7a9f8f7ca2063ca96de1da7c1d77018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 25/38] fix: exact samplers work on a floating point copy of
 the kernel

Integer typed kernels and eigenvectors made the in-place updates fail.
---
 dppy/exact_sampling.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 200e9b3..eee943d 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -107,7 +107,7 @@ def proj_dpp_sampler_kernel_Chol(K, size=None, random_state=None):
         size = rank
     # else: k-DPP with k = size
 
-    A = K.copy()
+    A = K.astype(np.result_type(K, float))
     d = np.diagonal(A).astype(float)
 
     orig_indices = np.arange(N)
@@ -200,7 +200,7 @@ def proj_dpp_sampler_kernel_GS(K, size=None, random_state=None):
     avail = np.ones(N, dtype=bool)  # available items
 
     c = np.zeros((N, size))
-    norm_2 = K.diagonal().copy()  # residual norm^2
+    norm_2 = K.diagonal().astype(float)  # residual norm^2
 
     for it in range(size):
         j = rng.choice(ground_set[avail],
@@ -264,7 +264,7 @@ def proj_dpp_sampler_kernel_Schur(K, size=None, random_state=None):
     avail = np.ones(N, dtype=bool)  # available items
 
     # Schur complement list i.e. residual norm^2
-    schur_comp = K.diagonal().copy()
+    schur_comp = K.diagonal().astype(float)
     K_inv = np.zeros((size, size))
 
     for it in range(size):
@@ -340,7 +340,7 @@ def dpp_sampler_generic_kernel(K, random_state=None):
 
     rng = check_random_state(random_state)
 
-    A = K.copy()
+    A = K.astype(np.result_type(K, float))
     sample = []
 
     for j in range(len(A)):
@@ -484,7 +484,7 @@ def proj_dpp_sampler_eig_GS(eig_vecs, size=None,
     # Use Gram-Schmidt recursion to compute the Vol^2 of the parallelepiped spanned by the feature vectors associated to the sample
 
     c = np.zeros((N, size))
-    norms_2 = inner1d(V, axis=1)  # ||V_i:||^2
+    norms_2 = 1.0 * inner1d(V, axis=1)  # ||V_i:||^2
 
     for it in range(size):
         # Pick an item \propto this squred distance
@@ -528,7 +528,7 @@ def proj_dpp_sampler_eig_GS_bis(eig_vecs, size=None, random_state=None):
     rng = check_random_state(random_state)
 
     # Initialization
-    V = eig_vecs.copy()
+    V = eig_vecs.astype(np.result_type(eig_vecs, float))
 
     N, rank = V.shape  # ground set size / rank(K)
     if size is None:  # full projection DPP
@@ -627,7 +627,7 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
     rng = check_random_state(random_state)
 
     # Initialization
-    V = eig_vecs.copy()
+    V = eig_vecs.astype(np.result_type(eig_vecs, float))
 
     N, rank = V.shape  # ground set size / rank(K)
     if size is None:  # full projection DPP
-- 
2.43.0


From a5951ff5ea20980fbfa4520a6ee3b08db60b8e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 26/38] fix: alpha-dpp RLS estimation does not write into the
 output of eval_L

It failed on integer data and overwrote matrices kept by eval_L.
---
 dppy/intermediate_sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index a7805b7..1a5b77a 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -109,8 +109,7 @@ def estimate_rls_from_weighted_dict_eigendecomp(X_to_estimate,
         raise ValueError('Input eigendecomposition has wrong shape: {} {} {}'.format(m, eigvec.shape, eigvals.shape))
 
     diag_L_to_estimate = evaluate_L_diagonal(eval_L, X_to_estimate)
-    L_DX = eval_L(dict_alphadpp.X, X_to_estimate)
-    L_DX *= W_sqrt
+    L_DX = W_sqrt * eval_L(dict_alphadpp.X, X_to_estimate)
     E = eigvec.T.dot(L_DX)
     E *= np.sqrt(1.0 / (alpha_hat * eigvals + 1.0)).reshape(-1, 1)
 
-- 
2.43.0


From 1c48e6c9e135c5ff9dcdab20a3052cc6abfc4e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 27/38] fix: the constant of the potential is reset on a copy,
 not on the caller's polynomial

---
 dppy/beta_ensemble_polynomial_potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 4dd5275..774a7cc 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -46,7 +46,7 @@ class BetaEnsemblePolynomialPotential(object):
 
         if self.V[0] != 0:
             print('Weird thing to introduce a constant V = ... + g_0={}. Reset g_0 = 0'.format(self.V[0]))
-            self.V[0] = 0
+            self.V = self.V - self.V[0]
 
         self._V_ClItKr10 = np.poly1d([1 / 20, -4 / 15, 1 / 5, 8 / 5, 0])
 
-- 
2.43.0


From 7e19e8386229a84e9ae1cc33ff599f74ec75feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:52 +0000
Subject: [PATCH 28/38] fix: Jacobi rejection bounds are finite when a
 parameter equals -1/2

0 * log(0) made the bound of the constant polynomial nan: every proposal was
refused and the last one, not distributed as stated, was returned.
---
 dppy/multivariate_jacobi_ope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 1f844d2..50b7bac 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -12,7 +12,7 @@ import numpy as np
 import itertools as itt
 
 from scipy import stats
-from scipy.special import beta, betaln, factorial, gamma, gammaln
+from scipy.special import beta, betaln, factorial, gamma, gammaln, xlogy
 from scipy.special import eval_jacobi
 # from scipy.special import logsumexp
 import matplotlib.pyplot as plt
@@ -890,8 +890,8 @@ def compute_rejection_bounds(jacobi_params, ordering, log_scale=True):
                 (a + b + 1) * np.log(2) + betaln(a + 1, b + 1)
             bounds[0, non_arcsine] =\
                 np.log(np.pi)\
-                + (0.5 + a) * np.log(1 - mode)\
-                + (0.5 + b) * np.log(1 + mode)\
+                + xlogy(0.5 + a, 1 - mode)\
+                + xlogy(0.5 + b, 1 + mode)\
                 - log_square_norm_P_0
         else:
             square_norm_P_0 = 2**(a + b + 1) * beta(a + 1, b + 1)
-- 
2.43.0


From 013fc6131b35f15611c2cef38c98ec2a65dfa0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:52 +0000
Subject: [PATCH 29/38] fix: compute_ordering does not overflow 16-bit integers

---
 dppy/multivariate_jacobi_ope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 50b7bac..ace2609 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -661,7 +661,7 @@ def compute_ordering(N, d):
 
         - :cite:`BaHa16` Section 2.1.3
     """
-    layer_max = np.floor(N**(1.0 / d)).astype(np.int16)
+    layer_max = int(np.floor(N**(1.0 / d)))
 
     ordering = itt.chain.from_iterable(
                 filter(lambda x: m in x,
-- 
2.43.0


From a421f4262234a22326b1b0fd3e053f6bc6aadfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:52 +0000
Subject: [PATCH 30/38] fix: MultivariateJacobiOPE.plot works in dimension 1

---
 dppy/multivariate_jacobi_ope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index ace2609..292eb10 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -457,7 +457,7 @@ class MultivariateJacobiOPE:
 
         tols = 5e-2 * np.ones_like(self.jacobi_params)
         tols = np.zeros_like(self.jacobi_params)
-        tols[1, 0] = 8e-2
+        tols[1:2, 0] = 8e-2
 
         weights = np.ones(len(sample))
 
-- 
2.43.0


From 5f457b7bb5588f9cd0ed775f6fa45f8422b1aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 31/38] fix: conditional laws of the off-diagonal coefficients
 with shape <= 1 or not log-concave

The truncated Gaussian and gamma proposals were used with a cubic term left out
(potentials of degree 6), with a negative or zero linear term, or beyond Dev12's
log-concave setting: b_i was then drawn from another law, or 1/0 and scale < 0.
---
 ...beta_ensemble_polynomial_potential_core.py | 55 +++++++++++--------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index f162505..c16bf28 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -148,23 +148,35 @@ def trunc_gaussian_sampler(b, mu, var, random_state=None):
 
 
 def gen_gamma_alpha_lt_1_sampler(shape, P, random_state=None):
+    """Rejection sampler for
+
+    .. math::
+
+        \\pi(x) \\propto x^{\\alpha-1} \\exp^{-P(x)}, \\quad x > 0
+
+    where :math:`P` is any polynomial with positive leading coefficient. Proposals are Gamma variables with rate :math:`r` chosen to have mean :math:`m` s.t. :math:`m P'(m) = \\alpha`, and :math:`r x - P(x)` is bounded above.
+    """
 
     rng = check_random_state(random_state)
 
-    it_max = int(1e2)
-    for it in range(1, it_max + 1):
+    X_pol = np.poly1d([1, 0])
+
+    roots = (X_pol * P.deriv(m=1) - shape).roots
+    rate = shape / np.max(roots[np.isreal(roots)].real)
 
-        X = rng.gamma(shape=shape, scale=1 / P[1], size=1)
+    Q = P - rate * X_pol
+    roots = Q.deriv(m=1).roots
+    roots = roots[np.isreal(roots)].real
+    min_Q = np.min(Q(np.append(roots[roots > 0], 0.0)))
+
+    it = 0
+    while True:
+        it += 1
+        X = rng.gamma(shape=shape, scale=1 / rate)
         U = rng.rand()
-        if np.log(U) < -P[2] * X**2:
+        if np.log(U) < min_Q - Q(X):
             break
 
-    else:
-        print('gen_gamma with alpha<1 not accepted\
-                after {} iterations'.format(it))
-        pass
-        # X = ...
-
     return X, it
 
 
@@ -206,20 +218,19 @@ def sampler_exact_convex_quartic(P, shape=None, random_state=None):
 
     else:  # x^(shape-1) exp(-(beta x^2 + gamma x))
 
-        if not P[2]:  # x^(shape-1) exp(- gamma x))
+        if P.order == 1:  # x^(shape-1) exp(- gamma x))
             return rng.gamma(shape, 1 / P[1]), 0
 
-        else:
-            if shape < 1.0:  # x^(shape-1) exp(-(beta x^2 + gamma x)): no mode
-                return gen_gamma_alpha_lt_1_sampler(shape, P,
-                                                    random_state=rng)
-
-            elif shape == 1.0 and P[2]:
-                # x^0 exp(-(beta x^2 + gamma x)) = truncated Gaussian [0, oo]
-                return trunc_gaussian_sampler(b=0.0,
-                                              mu=-0.5 * P[1] / P[2],
-                                              var=0.5 / P[2],
-                                              random_state=rng)
+        elif shape == 1.0 and P.order == 2 and P[1] >= 0:
+            # x^0 exp(-(beta x^2 + gamma x)) = truncated Gaussian [0, oo]
+            return trunc_gaussian_sampler(b=0.0,
+                                          mu=-0.5 * P[1] / P[2],
+                                          var=0.5 / P[2],
+                                          random_state=rng)
+
+        elif shape <= 1.0 or P[2] < 0:  # no mode, or not log-concave
+            return gen_gamma_alpha_lt_1_sampler(shape, P,
+                                                random_state=rng)
 
         # else there exists a mode, use [Dev12] domination
         mode = find_mode_convex_gen_gamma(shape, P)
-- 
2.43.0


From d53416a89b9e33b1305153167690f6e536a28942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:15 +0000
Subject: [PATCH 32/38] fix: sign of the proposal ratio in the Metropolis
 adjusted Langevin step

The ratio q(y, x) / q(x, y) entered the acceptance probability upside down, so the
step did not leave exp(-V) invariant.
---
 dppy/beta_ensemble_polynomial_potential_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index c16bf28..f521ca5 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -339,8 +339,8 @@ def sampler_mala(x, V, sigma=0.01, nb_steps=20, random_state=None):
         acceptance = Vx - Vy\
                     + 0.5\
                         / sigma**2\
-                        * ((x_ - y + 0.5 * sigma**2 * grad_Vy)**2
-                            - (y - x_ + 0.5 * sigma**2 * grad_Vx)**2)
+                        * ((y - x_ + 0.5 * sigma**2 * grad_Vx)**2
+                            - (x_ - y + 0.5 * sigma**2 * grad_Vy)**2)
 
         if np.log(rng.rand()) < acceptance:
             x_ = y
-- 
2.43.0


From ac1019ece05656c582b3b4e61507e0956876eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:26 +0000
Subject: [PATCH 33/38] fix: equilibrium distribution functions overwrote the
 points they were given

---
 dppy/beta_ensemble_polynomial_potential_core.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index f521ca5..c988c59 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -544,9 +544,7 @@ def cdf_equilibrium_x2_x4(g_2, g_4):
 
     def cdf(x):
 
-        x[x < -a] = -a
-        x[x > a] = a
-        X = np.arcsin(x / a)
+        X = np.arcsin(np.clip(x, -a, a) / a)
         # return g_4 * a2 / (8 * np.pi) * ((X + np.pi) * (a2 + 4 * b2) / 4
         #                                  - a2 * np.sin(4 * X) / 8
         #                                  + b2 * np.sin(2 * X))
@@ -623,9 +621,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     if m == 2:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
-            X = np.arcsin(x / a)
+            X = np.arcsin(np.clip(x, -a, a) / a)
             return m * t * a**4 / (8 * np.pi) \
                    * (3 * (X + np.pi / 2)
                       + np.sin(2 * X)
@@ -634,9 +630,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     elif m == 3:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
-            X = np.arcsin(x / a)
+            X = np.arcsin(np.clip(x, -a, a) / a)
             return m * t * a**6 / (16 * np.pi) \
                    * (5 * (X + np.pi / 2)
                       + 5 / 4 * np.sin(2 * X)
-- 
2.43.0


From d8f8990bc886d7d9aa1130df33a7a5c518c7c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 34/38] fix: equilibrium distribution function of the quartic
 potential with two cuts

---
 dppy/beta_ensemble_polynomial_potential_core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index c988c59..a0ba131 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -537,6 +537,17 @@ def cdf_equilibrium_x2_x4(g_2, g_4):
         V(x) = V_t(x) = \\frac{g_2}{2} x^2 + \\frac{g_4}{4} x^4
     """
 
+    if g_2 <= -4 * np.sqrt(g_4 / 4):
+        # two cuts: x^2 has a semi-circle distribution, see equilibrium_x2_x4
+        mean, radius = -g_2 / g_4, 2 / np.sqrt(g_4)
+
+        def cdf(x):
+            u = np.clip((np.square(x) - mean) / radius, -1, 1)
+            mass = 0.5 + (u * np.sqrt(1 - u**2) + np.arcsin(u)) / np.pi
+            return 0.5 + 0.5 * np.sign(x) * mass
+
+        return cdf, np.sqrt(mean + radius) * np.array([-1, 1])
+
     a2 = 2 / (3 * g_4) * (np.sqrt(g_2**2 + 12 * g_4) - g_2)
     a = np.sqrt(a2)
 
-- 
2.43.0


From 129a39c1d16eb9adf12263d1604dc620aee0316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:44 +0000
Subject: [PATCH 35/38] fix: draw the empty sample of a Poissonized Plancherel
 measure

---
 dppy/exotic_dpps.py      | 4 ++--
 dppy/exotic_dpps_core.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index e292de0..c06afd5 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -362,7 +362,7 @@ class PoissonizedPlancherel:
         ax.spines['right'].set_visible(False)
 
         # Ticks options
-        x_max = np.max(np.abs(sampl)) + 0.5
+        x_max = np.max(np.abs(sampl), initial=0.0) + 0.5
         minor_ticks = np.arange(-x_max, x_max + 1)
         major_ticks = np.arange(-100, 100 + 1, 10)
         ax.set_xticks(major_ticks)
@@ -404,7 +404,7 @@ class PoissonizedPlancherel:
         y_diag = self.list_of_young_diag[-1]
         sampl = self.list_of_samples[-1].copy()
 
-        x_max = 1.1 * max(y_diag.size, y_diag[0])
+        x_max = 1.1 * max(1, y_diag.size, *y_diag[:1])
         xy_young = xy_young_ru(y_diag)
 
         if normalization:
diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index 99fc9dc..8f91f6a 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -233,7 +233,7 @@ def xy_young_ru(young_diag):
 
     # vertical lines
     uniq, ind = np.unique(young_diag[::-1], return_index=True)
-    gaps = np.ediff1d(uniq, to_begin=young_diag[-1])
+    gaps = np.ediff1d(uniq, to_begin=young_diag[-1:])
 
     x_vert = np.repeat(np.arange(1, 1 + gaps.sum()), repeats=2)
     y_vert = np.repeat(young_diag.size - ind, repeats=gaps)
-- 
2.43.0


From 6fe2315d36d8934786944d52c4ac50a743704377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:24 +0000
Subject: [PATCH 36/38] fix: Wilson's walk that takes a self-loop at the root
 first grafts no branch

The first walk starts at the root; when its first step is a self-loop the
branch is empty, the next walk was taken for the initial branch and attached
to the root by an edge the graph may not have.
---
 dppy/exotic_dpps_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index 8f91f6a..eb33cc3 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -75,7 +75,7 @@ def ust_sampler_wilson(list_of_neighbors, root=None,
             state[nodes_loop] = -1  # mark loopy nodes as not visited
             n0 = n1  # continue the walk
 
-        elif state[n1] == 1:  # hits the tree => new branch
+        elif path:  # hits the tree => new branch (a self-loop at the root adds none)
 
             if nb_nodes_in_tree == 1:
                 branches.append([n1] + path)  # initial branch of the tree
-- 
2.43.0


From 0064caa6701049c16a65726f35075d89a1f1c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:23 +0000
Subject: [PATCH 37/38] fix: bless on small data sets

With rls_oversample_param * n <= 10 the search of the first regularisation
never ended; it could also end below the regularisation asked, which the next
step refused, and with two data points the regularisation asked was ignored.
---
 dppy/bless.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 329f52c..647cc4a 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -220,13 +220,13 @@ def bless(X_data,
     n, d = X_data.shape
 
     if nb_iter_bless is None:
-        nb_iter_bless = np.ceil(np.log(n)).astype('int')
+        nb_iter_bless = max(2, np.ceil(np.log(n)).astype('int'))
 
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
-    lam_init = n
+    lam_init = max(n, lam_final)
     ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
-    while ucb_init.sum() <= 10:
-        lam_init /= 1.25
+    while ucb_init.sum() <= 10 and lam_init > lam_final:
+        lam_init = max(lam_init / 1.25, lam_final)
         ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
 
     rng = check_random_state(random_state)
@@ -243,7 +243,8 @@ def bless(X_data,
                 lam=lam_init,
                 rls_oversample=rls_oversample_param)
 
-    lam_sequence = list(np.geomspace(lam_final, lam_init, nb_iter_bless))
+    lam_sequence = list(np.clip(np.geomspace(lam_final, lam_init, nb_iter_bless),
+                                lam_final, lam_init))
 
     # discard lam_init from the list, we already used it to initialize
     lam_sequence.pop()
-- 
2.43.0


From 89a38e9038f4ce16a7b1d16e2b6d54bf4d6dd032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:20 +0000
Subject: [PATCH 38/38] fix: alpha k-DPP of one item

bless_size divided by size - 1: the alpha sampler could not draw one item.
---
 dppy/bless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 647cc4a..141c5d7 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -346,7 +346,7 @@ def bless_size(X_data,
 
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
 
-    lam_init = diag_norm.sum() / (size_final - 1.0)
+    lam_init = diag_norm.sum() / max(size_final - 1.0, size_final / 2.0)
     lam_max = lam_init
 
     lam_final = 1
-- 
2.43.0

