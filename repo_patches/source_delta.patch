From 9dde0568b6477c61d2b610466de009835ce70bed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:52:34 +0000
Subject: [PATCH 01/79] fix: HSMM compute_Tpi returned the first series' fixed
 T and pi for every series

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 23ac6f7..e7d24a6 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1589,7 +1589,7 @@ class HSMMFamily(GSMMFamily):
             ps = []
 
             for series in range(n_series):
-                T, pi = series_Tpi(
+                Ts, pis = series_Tpi(
                     series,
                     [
                         y_split[series] if y_split is not None else None
@@ -1601,7 +1601,7 @@ class HSMMFamily(GSMMFamily):
                     ],
                 )
 
-                ps.append([T, pi])
+                ps.append([Ts, pis])
 
         else:  # Compute in parallel
 
-- 
2.43.0


From 043e9ef256f806ff2cf29aa3ee205bef730e99a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:15 +0000
Subject: [PATCH 02/79] fix: HSMM gradient of initial-state coefficients
 ignored time-varying durations

---
 src/mssm/src/cpp/hsmm/llk.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/llk.cpp b/src/mssm/src/cpp/hsmm/llk.cpp
index 4539235..4704d02 100644
--- a/src/mssm/src/cpp/hsmm/llk.cpp
+++ b/src/mssm/src/cpp/hsmm/llk.cpp
@@ -1392,7 +1392,9 @@ py::array_t<
                         
                         // Only need deriv of (\sum_{i \in S/j} lam(t-1,1,i)*T(i,j)) * bs(t,j)*
                         // ds(d,j) - same as before:
-                        psi(t1,d,j,tci) += tpg*bs(t,j)*ds(d,(starts_with_first) ? j : j + n_S);
+                        psi(t1,d,j,tci) += tpg*bs(t,j)*((tvdtpi) ?
+                                                        ds(d,(starts_with_first) ? j : j + n_S,t):
+                                                        ds(d,(starts_with_first) ? j : j + n_S));
 
                         tci += 1;
                     }
-- 
2.43.0


From f1d378986cfab1d3fe3353407c27af4fa54c003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:29 +0000
Subject: [PATCH 03/79] fix: multivariate Gaussian gradients ignored the link
 functions of the means

---
 src/mssm/src/python/exp_fam.py | 2 +-
 src/mssm/src/python/hsmm.py    | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index eca423d..49ca08f 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4820,7 +4820,7 @@ class MultiGauss(GSMMFamily):
         # shown by WPS (2016)
         for mui in range(self.n_par):
 
-            yRmui = RRy[mui, :]
+            yRmui = RRy[mui, :] / self.links[mui].dy1(mus[:, mui])
 
             grad[total_idx : total_idx + Xfix[mui].shape[1]] = (  # noqa: E203
                 Xfix[mui] * yRmui[:, None]
diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index e7d24a6..2d27910 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -3352,7 +3352,10 @@ class HSMMFamily(GSMMFamily):
                                 # RRy is of shape m * n
                                 RRy = R.T @ yR.T
 
-                                yRmui = RRy[par, :]
+                                # Partial with respect to eta also involves the link
+                                yRmui = RRy[par, :] / jmbFam.links[par].dy1(
+                                    musbjm[:, par]
+                                )
                                 grad_par = Xsj[par] * yRmui[:, None]
                             else:
                                 grad_par = d1eta[par] * Xsj[par]
-- 
2.43.0


From d5e72a492ff4a34dcbbda9e9dde3c5bf57366ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:25 +0000
Subject: [PATCH 04/79] fix: HSMM bump durations had the wrong shape for
 time-varying event-template models

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 2d27910..117ca53 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -692,7 +692,7 @@ def _compute_series_probs(
                 lpd[int(event_width - 1)] = 0
 
                 if tvdtpi:
-                    lpd = [lpd for _ in range(D - 1)]
+                    lpd = [np.repeat(lpdd, n_T) for lpdd in lpd]
             else:
                 raise ValueError(f"Need distribution duration family for state {j}.")
 
@@ -3693,7 +3693,7 @@ class HSMMFamily(GSMMFamily):
                         lpd[int(event_width - 1)] = 0
 
                         if tvdtpi:
-                            lpd = [lpd for _ in range(D - 1)]
+                            lpd = [np.repeat(lpdd, n_T) for lpdd in lpd]
                     else:
                         raise ValueError(
                             f"Need distribution duration family for state {j}."
-- 
2.43.0


From 96ae74de92e361adda38309a7118c20a6d73c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:53 +0000
Subject: [PATCH 05/79] fix: HSMM posterior samples used the duration
 distribution of the wrong sample when time-varying

---
 src/mssm/src/cpp/hsmm/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index d602a2c..a084faf 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -525,7 +525,7 @@ std::tuple<
                     state_probs[i] = lam(t-1,0,i) *
                                         ((tvdtpi) ? T(i,tmp_j,t-1): T(i,tmp_j)) *
                                         ((tvdtpi) ?
-                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t-1)
+                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t)
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
-- 
2.43.0


From e4baf953dc1bc76ae27669b6c17a4d44f25109e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:53 +0000
Subject: [PATCH 06/79] fix: HSMM posterior samples of event-template models
 ignored the ar1 carry-over into flats

---
 src/mssm/src/cpp/hsmm/decode.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index a084faf..93b0f5a 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -514,6 +514,11 @@ std::tuple<
                     if ((tmp_ed + 1) <= (D - 2))
                     {
                         state_probs[i] = lam(t-1,tmp_ed+1,i);
+                        if (hmp_code != 0 && tmp_j % 2 == 0)
+                        {
+                            // Obs prob of flats differs between first and later samples (ar1)
+                            state_probs[i] *= bs(t,0,tmp_j);
+                        }
                     }
                     else
                     {
@@ -529,6 +534,10 @@ std::tuple<
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
+                    if (hmp_code != 0 && tmp_j % 2 == 0)
+                    {
+                        state_probs[i] *= bs(t,1,tmp_j);
+                    }
                 }
             }
             
-- 
2.43.0


From ccca453e5c3a8c3046ca9432c96adfd159b04279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:39 +0000
Subject: [PATCH 07/79] fix: HSMM predictive residuals indexed the means of
 newly entered states without the signal

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 162576c..3e15e2e 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -502,7 +502,7 @@ py::array_t<
                         {   
                             // Expected value for signal m
 
-                            elam(t,m,d,j) += tp * mus(t,j) *
+                            elam(t,m,d,j) += tp * mus(t,m,j) *
                                             ((tvdtpi) ? ds(d,(starts_with_first) ? j : j + n_S,t):
                                                         ds(d,(starts_with_first) ? j : j + n_S));
 
-- 
2.43.0


From 06dd366ebda970a00075aac9dc70885f365aadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:39 +0000
Subject: [PATCH 08/79] fix: HSMM predictive residuals read before the first
 state for the ar1 carry-over into the first flat

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 3e15e2e..722777b 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -476,7 +476,7 @@ py::array_t<
                                                  ds(d,(starts_with_first) ? j : j + n_S,t):
                                                  ds(d,(starts_with_first) ? j : j + n_S));
                             }
-                            else if (rho < 999)
+                            else if (rho < 999 && j > 0)
                             {
                                 // Lag of previous bump carries over
                                 ebump = d1 * weights(event_width-1) * mus(t-1,m,j-1);
-- 
2.43.0


From d3b06b56454b5e901f9cac1a5af2de8b0b6023c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 09/79] fix: HSMM duration residuals used the wrong sample's
 (or the wrong visit's) duration distribution

---
 src/mssm/src/python/hsmm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 117ca53..2792532 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1040,6 +1040,7 @@ def _compute_dur_res_series(
     j = states[0]
     transitions = 0
     t = 0
+    t_entry = 0  # Sample at which current state was entered
 
     for s in states:
         if s == j:
@@ -1054,24 +1055,25 @@ def _compute_dur_res_series(
             else:
                 d_res = d_fams[(dj_idx)].get_resid(
                     np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-                )[t if tvdtpi else 0, 0]
+                )[t_entry if tvdtpi else 0, 0]
 
                 # And collect
                 res[j].append(d_res)
             j = s
             d = 1
+            t_entry = t
             transitions += 1
         t += 1
 
     # Catch dur from last state
-    dj_idx = j if (starts_with_first is True) else j + n_S
+    dj_idx = j if (transitions == 0 or starts_with_first is True) else j + n_S
 
     if mus_d[dj_idx] is None:
         res[j] = None
     else:
         d_res = d_fams[(dj_idx)].get_resid(
             np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-        )[t - 1 if tvdtpi else 0, 0]
+        )[t_entry if tvdtpi else 0, 0]
 
         res[j].append(d_res)
 
-- 
2.43.0


From db1b6a7044a34854db7f9961226ecc5f963aeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 10/79] fix: HSMM duration residuals decoded every series with
 the first series' fixed T and pi and applied the ar1 model twice

---
 src/mssm/src/python/hsmm.py | 45 +++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 2792532..e12b053 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -2655,19 +2655,8 @@ class HSMMFamily(GSMMFamily):
 
             elif resid_type == "viterbi_dur":
 
-                # Decode viterbi path
-                viterbi = self.decode_viterbi(
-                    coef,
-                    coef_split_idx,
-                    ys,
-                    Xs,
-                    sid=np.array([0]),
-                    tid=np.array([0]),
-                    n_cores=1,
-                )
-
                 res_sep = _compute_dur_res_series(
-                    viterbi[0][1], n_S, mus_d, d_fams, starts_with_first, tvdtpi
+                    viterbi[series][1], n_S, mus_d, d_fams, starts_with_first, tvdtpi
                 )
 
                 # Compute residual of duration MAP under model for stage durations
@@ -2683,25 +2672,13 @@ class HSMMFamily(GSMMFamily):
                 res = res.reshape(1, -1)
 
             elif resid_type == "posterior_dur":
-                state_samples = self.sample_posterior_states(
-                    coef,
-                    coef_split_idx,
-                    ys,
-                    Xs,
-                    n_samples=n_samples,
-                    seed=seed,
-                    sid=np.array([0]),
-                    tid=np.array([0]),
-                    n_cores=1,
-                )
-
                 res = np.zeros((1, n_S, n_samples))
 
                 for s in range(n_samples):
 
                     # Extract durations given sampled series
                     res_sep = _compute_dur_res_series(
-                        state_samples[0][1][:, s],
+                        state_samples[series][1][:, s],
                         n_S,
                         mus_d,
                         d_fams,
@@ -2779,6 +2756,24 @@ class HSMMFamily(GSMMFamily):
             Lrhoi,
         )
 
+        # Decode/sample states of all series - here, so that series-specific T, pi, and the ar1 model
+        # apply to the right series
+        if resid_type == "viterbi_dur":
+            viterbi = self.decode_viterbi(
+                coef, coef_split_idx, ys, Xs, sid=sid, tid=tid
+            )
+        elif resid_type == "posterior_dur":
+            state_samples = self.sample_posterior_states(
+                coef,
+                coef_split_idx,
+                ys,
+                Xs,
+                n_samples=n_samples,
+                seed=seed,
+                sid=sid,
+                tid=tid,
+            )
+
         # Now compute llk for every individual series and then sum up
         res = []
         if n_cores == 1 or HAS_MP is False:
-- 
2.43.0


From e1c710f9f0b533d6be35de9e0403bc27be04402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:14 +0000
Subject: [PATCH 11/79] fix: HSMM predictions used the transition matrix of the
 wrong sample when time-varying

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index e12b053..99e080f 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1798,7 +1798,7 @@ class HSMMFamily(GSMMFamily):
                         else:
                             state = np_gen.choice(
                                 state_vals,
-                                p=Ts[state, :, t] if tvdtpi else Ts[state, :],
+                                p=Ts[state, :, t - 1] if tvdtpi else Ts[state, :],
                             )
 
                             dur = np_gen.choice(
-- 
2.43.0


From 3d2ec95ec79d6486e207a6b8ca3cb87e245f6393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:49 +0000
Subject: [PATCH 12/79] fix: MultiGauss.rvs failed for one-dimensional models

---
 src/mssm/src/python/exp_fam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 49ca08f..aa9762a 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -5231,7 +5231,7 @@ class MultiGauss(GSMMFamily):
                 mean=mus[mui, :],
                 cov=cov,
                 random_state=seed,
-            )
+            ).reshape(size, self.n_par)
 
             # Update seed
             if seed is not None:
-- 
2.43.0


From ee261f841455aeb2ed498752ac50f36dde7babd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 13/79] fix: HSMM predictions reused the noise of one state's
 samples for the next state (multivariate Gaussian)

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 99e080f..c24337c 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -958,7 +958,7 @@ def _sample_series_emissions(
             ).T
 
             if seed is not None:
-                seed += 1
+                seed += n_T  # One seed per time-point has been used
 
             # Update theta index
             theta_idx += jmbFam.extra_coef
-- 
2.43.0


From 10974eec83cd7d145b620e75d22446825be2806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 14/79] fix: time-varying transition matrix of two-state HSMMs
 had one dimension too many, so predictions failed

---
 src/mssm/src/python/hsmm.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index c24337c..fcf2164 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -760,9 +760,6 @@ def _compute_series_probs(
             T[0, 1] = 1
             T[1, 0] = 1
 
-            if tvdtpi:
-                T = np.stack([T for _ in range(n_T)], axis=2)
-
         if log:
             T = np.log(T)
 
-- 
2.43.0


From e5becd833983e20e8e215247dffe5d638ae5f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:17 +0000
Subject: [PATCH 15/79] fix: Binomial log-probability was -inf whenever
 proportion times size was off by a rounding error

---
 src/mssm/src/python/exp_fam.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index aa9762a..3c716df 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -887,8 +887,11 @@ class Binomial(Family):
             under the current model.
         :rtype: np.ndarray
         """
-        # y is observed proportion of success
-        return scp.stats.binom.logpmf(k=y * self.n, p=mu, n=self.n)
+        # y is observed proportion of success - recover counts exactly, since the pmf is zero for
+        # counts that are off by a rounding error
+        k = y * self.n
+        k = np.where(np.isclose(k, np.rint(k)), np.rint(k), k)
+        return scp.stats.binom.logpmf(k=k, p=mu, n=self.n)
 
     def llk(self, y: np.ndarray, mu: np.ndarray) -> float:
         """
-- 
2.43.0


From e51148ea736ff1e7761de5faaaea2363ad16d48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:48 +0000
Subject: [PATCH 16/79] fix: inverse logit link was nan for linear predictors
 above 709

---
 src/mssm/src/python/exp_fam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 3c716df..f88c312 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -141,7 +141,7 @@ class Logit(Link):
         """
         with warnings.catch_warnings():  # Overflow
             warnings.simplefilter("ignore")
-            mu = np.exp(eta) / (1 + np.exp(eta))
+            mu = 1 / (1 + np.exp(-eta))
 
         return mu
 
-- 
2.43.0


From 60db9099523057f63edd30ef96246babf7188a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:26 +0000
Subject: [PATCH 17/79] fix: cpp_solve_LXX called a function the native module
 does not have

---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4fa8b46..4bf6294 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -395,7 +395,7 @@ def cpp_solve_LXX(
         success
     :rtype: tuple[scp.sparse.csc_array,list[int],int]
     """
-    return eigen_solvers.cpp_solve_LXX(*map_csc_to_eigen(A))
+    return eigen_solvers.solve_LXX(*map_csc_to_eigen(A))
 
 
 def cpp_solve_tr(
-- 
2.43.0


From 69322f9f0344ac2dc42b4ff5a33c8a26276af287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:28 +0000
Subject: [PATCH 18/79] fix: compute_B missed levels of null-space penalties
 whose term does not start the coefficient vector

---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4bf6294..cf431ff 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -667,7 +667,7 @@ def compute_B(
 
             D_idx = np.arange(
                 lTerm.start_index + NULL_idx,
-                lTerm.S_J.shape[1] * (lTerm.rep_sj + 1),
+                lTerm.start_index + (lTerm.S_J.shape[1] * lTerm.rep_sj),
                 lTerm.S_J.shape[1],
             )
 
-- 
2.43.0


From 38230dc5e9b4762da4f1f03efb41c04ab86e5447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:57 +0000
Subject: [PATCH 19/79] fix: te smooths of re-parameterised marginals did not
 sum to zero over the data

---
 src/mssm/src/python/formula.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 23f312d..16dbd82 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1645,6 +1645,11 @@ class Formula:
                     )
 
                 if sterm.te:
+                    # The constraint is absorbed into the tensor basis of the (re-parameterized)
+                    # marginals - so it has to be computed from the latter
+                    if sterm.should_rp > 0:
+                        matrix_term_v = matrix_term_v @ sterm.RP[vi].C
+
                     if vi == 0:
                         matrix_term = matrix_term_v
                     else:
-- 
2.43.0


From a453f3fffb3ac8014a93777106f0377e3f7b83b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:20 +0000
Subject: [PATCH 20/79] fix: smooths with coefficients dropped because of
 nesting kept the wrong basis columns

---
 src/mssm/src/python/terms.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index cabc121..36a5187 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -1348,10 +1348,18 @@ class f(GammTerm):
         if n_coef != f_cols:
             raise KeyError("Not all model matrix columns were created.")
 
+        # Basis column associated with every coefficient that was not dropped
+        drop_coef = [] if self.drop_coef is None else self.drop_coef
+        m_colidx = [
+            m_coli % m_cols
+            for m_coli in range(f_cols + len(drop_coef))
+            if m_coli not in drop_coef
+        ]
+
         # Find basis elements > 0 and collect correspondings elements and row indices
         for m_coli in range(f_cols):
             final_ridx = term_ridx[m_coli]
-            final_col = matrix_term[final_ridx, m_coli % m_cols]
+            final_col = matrix_term[final_ridx, m_colidx[m_coli]]
 
             # Tolerance row index for this columns
             cidx = abs(final_col) > tol
-- 
2.43.0


From 0828b49417a1c08dfaae3b5da0478f69388de639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:20 +0000
Subject: [PATCH 21/79] fix: impulse response terms with a by keyword had too
 many coefficient names

---
 src/mssm/src/python/terms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index 36a5187..d99bc9d 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -2216,13 +2216,14 @@ class irf(GammTerm):
 
         if self.by is not None:
             by_levels = factor_levels[self.by]
-            n_coef *= len(by_levels)
 
             for by_level in by_levels:
                 coef_names.extend(
                     [f"irf_{ti}_{var_label}_{ink}_{by_level}" for ink in range(n_coef)]
                 )
 
+            n_coef *= len(by_levels)
+
         else:
             coef_names.extend([f"irf_{ti}_{var_label}_{ink}" for ink in range(n_coef)])
 
-- 
2.43.0


From b50bacae04926338102d1bb447014cff1613ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:14 +0000
Subject: [PATCH 22/79] fix: formulas whose only smooth terms are factor
 smooths could not be built

---
 src/mssm/src/python/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 16dbd82..e5492f9 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1691,7 +1691,7 @@ class Formula:
 
         term_var = [self.terms[ti].variables for ti in sti]
         n_term_var = [len(tvar) for tvar in term_var]
-        max_var = np.max(n_term_var)
+        max_var = np.max(n_term_var, initial=1)
 
         # Check if we have terms with multiple variables
         if max_var == 1:
-- 
2.43.0


From 8bd1cd641084fe0c20826b1975ce2b77b3da67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:14 +0000
Subject: [PATCH 23/79] fix: generalised inverse of the total penalty ignored
 unpenalised coefficients between blocks

---
 src/mssm/src/python/gamm_solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 20d31fa..3722d15 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -286,6 +286,9 @@ def compute_S_emb_pinv_det(
         # Now handle all pinv calculations because all penalties
         # associated with a term have been collected in SJ
 
+        # Blocks of different formulas can be separated by un-penalized coefficients
+        cIndexPinv = SJ_idx[SJi]
+
         if SJ_terms[SJi] == 1:
 
             if root:
-- 
2.43.0


From 30a60924965266bf3ff81c6b138b16e1efeb8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:51 +0000
Subject: [PATCH 24/79] fix: reparameterisation of terms whose largest penalty
 spans the range of all penalties dropped the other penalties

---
 src/mssm/src/python/repara.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/repara.py b/src/mssm/src/python/repara.py
index f8ee9cf..22a1188 100644
--- a/src/mssm/src/python/repara.py
+++ b/src/mssm/src/python/repara.py
@@ -592,7 +592,10 @@ def reparam(
 
             if S_rep is None:  # Fix r==Q in first iteration
                 S_rep = SJbar[0] * LJgroup[0]
-                Q_rep = scp.sparse.eye(r, format="csc")
+                for j in range(1, len(SJbar)):
+                    S_rep += SJbar[j] * LJgroup[j]
+
+                Q_rep = scp.sparse.eye(normed_S.shape[1], format="csc")
 
             S_reps.append(scp.sparse.csc_array(S_rep))
 
-- 
2.43.0


From 4c0d09698514d515483553a21589d2f2b0932b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:25 +0000
Subject: [PATCH 25/79] fix: root of event-distance penalties was the penalty
 itself

---
 src/mssm/src/python/penalties.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index d0ee801..1533777 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -633,15 +633,18 @@ class IdentityPenalty(Penalty):
                 elements[i] = f(i + 1)
             idx[i] = i
 
+        # Root of a diagonal matrix; I' @ I = I
+        root_elements = [el**0.5 for el in elements]
+
         return (
             elements,
             idx,
             idx,
-            elements,
+            root_elements,
             idx,
             idx,
             n,
-        )  # I' @ I = I; also identity is full rank
+        )  # identity is full rank
 
 
 def TP_pen(
-- 
2.43.0


From 0bde31b144e7d395247f01a2a89ce07d2d4dff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:03 +0000
Subject: [PATCH 26/79] fix: penalties with an id of their own were counted
 twice when other terms shared an id

---
 src/mssm/src/python/penalties.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index 1533777..a8d032c 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -43,7 +43,10 @@ def create_id_dict(penalties: list[LambdaTerm]) -> dict | None:
             else:
                 id_dict[pen.id] = [peni]
 
-    if len(id_dict) > 0 and max([len(v) for v in id_dict.values()]) > 1:
+    # Only ids of more than one penalty are shared
+    id_dict = {id: idx for id, idx in id_dict.items() if len(idx) > 1}
+
+    if len(id_dict) > 0:
         return id_dict
 
     return None
-- 
2.43.0


From 4bfed2d56c182239c3200fd796f33557bd195a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:45 +0000
Subject: [PATCH 27/79] fix: ar1 model did not reset for series whose first
 observation is missing

---
 src/mssm/src/python/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cf64053..4afb636 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -78,7 +78,9 @@ def computeAr1Chol(formula: Formula, rho: float) -> tuple[scp.sparse.csc_array,
     if formula.series_id is not None:
         start = np.tile(False, len(formula.y_flat))
         start[formula.sid] = True
-        start = start[formula.NOT_NA_flat]
+        # First row of a series might be NA, in that case the next row in series is the start
+        series = np.cumsum(start)[formula.NOT_NA_flat]
+        start = np.concatenate(([True], series[1:] != series[:-1]))
         sid0 = np.where(start)[0]
         sid1 = sid0[1:] - 1
 
-- 
2.43.0


From cf82e30addf530e4f52c6f0a388c1a774da2df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:45 +0000
Subject: [PATCH 28/79] fix: models with a single coefficient were reported as
 ill-conditioned and not converged

---
 src/mssm/src/python/matrix_solvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index cf431ff..13db60a 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -473,6 +473,10 @@ def est_condition(
 
     # Now get estimates of largest and smallest singular values of A
     # from norms of L and Linv (Cline et al. 1979)
+    if L.shape[1] == 1:
+        # svds requires at least two columns, but a scalar is its own singular value
+        return 1.0, abs(L.toarray()[0, 0]), 1 / abs(Linv.toarray()[0, 0]), 0
+
     try:
         min_sing = scp.sparse.linalg.svds(
             Linv, k=1, return_singular_vectors=False, random_state=seed
-- 
2.43.0


From 31a207c211a0cefaf70dd1e817f2a97eb30d2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:45 +0000
Subject: [PATCH 29/79] fix: penalized log-likelihood did not relate the
 penalty to the scale

---
 src/mssm/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 33f5a1e..4011241 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -2717,6 +2717,10 @@ class GAMM(GAMMLSS):
 
             y = self.get_ys()
 
+            if penalized and self.family.twopar:
+                # Penalty enters relative to the scale
+                pen /= self.scale if ext_scale is None else ext_scale
+
             if self.rho is not None:
                 # Need to correct for the "weights" of the covariance matrix of the ar1 model,
                 # as done in the bam function in
-- 
2.43.0


From b993a092d580a911cd15a3d2c90cb8d80c7523e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:45 +0000
Subject: [PATCH 30/79] fix: offset failed for additive models of integer
 responses

---
 src/mssm/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 4011241..02c0988 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3176,7 +3176,7 @@ class GAMM(GAMMLSS):
                 ):
                     self.offset = offset
                 else:
-                    y_flat -= offset
+                    y_flat = y_flat - offset
 
             if y_flat.shape[0] != self.formulas[0].y_flat.shape[0] and progress_bar:
                 print("NAs were excluded for fitting.")
@@ -3322,8 +3322,8 @@ class GAMM(GAMMLSS):
                 if offset is not None:
                     # Assign correct offset and re-adjust y_flat + eta
                     self.offset = offset
-                    y_flat += offset
-                    eta += offset
+                    y_flat = y_flat + offset
+                    eta = eta + offset
 
         else:
             # Iteratively build model matrix.
-- 
2.43.0


From c7aaf61f095af4712c4dcf78222910fc5e1602c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:09 +0000
Subject: [PATCH 31/79] fix: working residuals and scale of generalized models
 ignored the offset

---
 src/mssm/src/python/gamm_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 3722d15..f1388a2 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1513,7 +1513,7 @@ def update_coef_and_scale(
     wres, InvCholXXS, total_edf, term_edfs, Bs, scale = update_scale_edf(
         y,
         z,
-        eta,
+        eta - offset,
         Wr,
         rowsX,
         colsX,
@@ -2322,7 +2322,7 @@ def correct_lambda_step(
             wres, InvCholXXS, total_edf, term_edfs, Bs, scale = update_scale_edf(
                 y,
                 z,
-                eta,
+                eta - offset,
                 Wr,
                 rowsX,
                 colsX,
@@ -3147,7 +3147,7 @@ def solve_gamm_sparse(
             Lrhoi is not None
         ):  # Need to return ar-corrected and "normal" working residuals
             wres2 = Wr @ (
-                z[inval == False] - eta[inval == False]  # noqa: E712
+                z[inval == False] - (eta - offset)[inval == False]  # noqa: E712
             ).reshape(-1, 1)
 
         if inval_check:
-- 
2.43.0


From a8315aa772101e749f1275c7332535b7a771f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:09 +0000
Subject: [PATCH 32/79] fix: root weights were rooted twice when observations
 were excluded

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index f1388a2..d163eee 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3156,7 +3156,7 @@ def solve_gamm_sparse(
             w = w_full
 
             # Re-compute weight matrix
-            Wr = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+            Wr = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
 
             # Adjust working residuals
             wres_full = np.zeros_like(eta)
-- 
2.43.0


From a1d8534bd66bd9f405e33ca244e2d1f5aa0b776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:09 +0000
Subject: [PATCH 33/79] fix: edf of models without penalties counted dropped
 coefficients

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index d163eee..f3ac7c4 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1218,7 +1218,7 @@ def update_scale_edf(
             None,
         )
     else:
-        total_edf = colsX
+        total_edf = colsX - (len(drop) if drop is not None else 0)
         term_edfs = None
         Bs = None
 
-- 
2.43.0


From 4307b3878a4d8ffa2b24b0c0bacb112d0a9fc1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:09 +0000
Subject: [PATCH 34/79] fix: REML score counted the unpenalised dimensions of
 repeated penalties once

---
 src/mssm/src/python/repara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/repara.py b/src/mssm/src/python/repara.py
index 22a1188..ef062d1 100644
--- a/src/mssm/src/python/repara.py
+++ b/src/mssm/src/python/repara.py
@@ -378,7 +378,7 @@ def reparam(
 
             Ur = U[:, D > max(D) * eps]
             r = Ur.shape[1]  # Range dimension
-            Mp += normed_S.shape[1] - r
+            Mp += (normed_S.shape[1] - r) * Sj_reps[grp_idx[0]].rep_sj
 
             # Initial re-parameterization as discussed by Wood (2011)
             if r < normed_S.shape[1]:
-- 
2.43.0


From a4b70da65b8fac1a6dc00eb249afc4fd996acb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:17 +0000
Subject: [PATCH 35/79] fix: warning about badly conditioned models raised a
 TypeError

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index f3ac7c4..a6a5c1d 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3209,7 +3209,7 @@ def solve_gamm_sparse(
                 )
             )
         if method != "Chol" and Kcode == 2:
-            raise warnings.warn(
+            warnings.warn(
                 (
                     f"Condition number ({K2}) of matrix A, where A.T@A=X.T@X + S_\\lambda, is "
                     "larger than 1/u, where u is half the machine precision. The model estimates "
-- 
2.43.0


From 8e6609b86190424b5639e023143a5e5404b6aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:42 +0000
Subject: [PATCH 36/79] fix: file loading arguments were ignored when
 accumulating the model from files

---
 src/mssm/src/python/gamm_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index a6a5c1d..6297182 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3458,7 +3458,7 @@ def read_XTX(
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     y_flat_file, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(
@@ -3720,7 +3720,7 @@ def read_eta(file, formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     _, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
@@ -3962,7 +3962,7 @@ def solve_gamm_sparse2(
 
         for fi, file in enumerate(iterator):
             # Read file
-            file_dat = pd.read_csv(file)
+            file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
             # Encode data in this file
             y_flat_file, _, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
-- 
2.43.0


From b8ee8e2f038f742ad211b7614a1c20a47ee0e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:42 +0000
Subject: [PATCH 37/79] fix: order of factor levels read from files depended on
 the hash seed

---
 src/mssm/src/python/file_loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index cfb8ae4..43ca98b 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -51,7 +51,7 @@ def read_unique(
 
     unq.update(*unq_cov)
 
-    return np.array(list(unq))
+    return np.array(sorted(unq))
 
 
 def read_cor_cov_single(
-- 
2.43.0


From 9fb20c347dd7a55ef46d6c2bc678cb20a428cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:50 +0000
Subject: [PATCH 38/79] fix: whole-function interval ignored coefficients whose
 columns sum to zero

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 4afb636..04b9d83 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1610,7 +1610,7 @@ def adjust_CI(
         # If we have many random factor levels, but want to make predictions only
         # for fixed effects, it's wasteful to sample all coefficients from posterior.
         # The code below performs a selection of the coefficients to be sampled.
-        use_post = predi_mat.sum(axis=0) != 0
+        use_post = abs(predi_mat).sum(axis=0) != 0
         use_post = np.arange(0, predi_mat.shape[1])[use_post]
 
     # Sample deviations [*coef - coef] from posterior of model
-- 
2.43.0


From b3556155b88c86e53f83e1658bdfb7f576c8f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:50 +0000
Subject: [PATCH 39/79] fix: whole-function interval was nan when any row has
 no uncertainty

---
 src/mssm/src/python/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 04b9d83..c460143 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1626,7 +1626,10 @@ def adjust_CI(
         fpost = np.abs(predi_mat[:, use_post] @ post)
 
     # Compute ratio between abs(predi_mat@[*coef - coef])/b for every sample.
-    fpost = fpost / b[:, None]
+    # Rows without uncertainty (b=0) do not require any adjustment.
+    fpost = np.divide(
+        fpost, b[:, None], out=np.zeros_like(fpost), where=b[:, None] > 0
+    )
 
     # Then compute max of this ratio, over rows of predi_mat, for every sample. np.max(fpost,axis=0)
     # now is a vector with n_ps elements, holding for each sample the multiplicative adjustment a,
-- 
2.43.0


From 7fd94fb095a6d9b17a31841292a3d6feff77fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:18 +0000
Subject: [PATCH 40/79] fix: survival between event times used the hazard of
 the next event time

---
 src/mssm/src/python/exp_fam.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index f88c312..e73df91 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4539,29 +4539,28 @@ class PropHaz(GSMMFamily):
         eta = x @ coef
         # print(eta)
 
-        # Find nearest larger time-point
-        if t not in ut:
-            t = min(ut[ut > t])
-
-        # Find index in h corresponding to t
-        ti = ut == t
-        tiv = np.arange(len(ut))[ti][0]
-        # print(t,tiv)
+        # Cumulative baseline hazard is a step function (see WPS, 2016): find latest
+        # time-point not later than t. No hazard has been accumulated before the first one.
+        if np.any(ut <= t):
+            tiv = np.argmax(ut <= t)
+            h, q, av = self.__hs[tiv], self.__qs[tiv], self.__avs[tiv]
+        else:
+            h, q, av = 0.0, 0.0, np.zeros_like(self.__avs[-1])
 
         # Compute (log) survival
-        lS = -self.__hs[ti] * np.exp(eta)
+        lS = -h * np.exp(eta)
         S = np.exp(lS)
 
         varS = None
         if compute_var:
             # Compute variance
-            v = -self.__hs[ti] * x + self.__avs[tiv]
+            v = -h * x + av
 
             varS = (
                 np.exp(eta)
                 * S
                 * np.power(
-                    self.__qs[ti] + np.sum(v @ V * v, axis=1).reshape(-1, 1), 0.5
+                    q + np.sum(v @ V * v, axis=1).reshape(-1, 1), 0.5
                 )
             )
         return S, varS
-- 
2.43.0


From 35a2a2ea0ff299af73b21533b5ce30e007206270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:58 +0000
Subject: [PATCH 41/79] fix: baseline hazard and survival of earlier
 coefficients returned for new ones

---
 src/mssm/src/python/exp_fam.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index e73df91..46d234a 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4016,6 +4016,7 @@ class PropHaz(GSMMFamily):
         super().__init__(1, [Identity()])
         self.ut = ut
         self.r = r
+        self.__prepared = None  # Input for which hs, qs, and avs have been computed
         self.__hs = None
         self.__qs = None
         self.__avs = None
@@ -4270,6 +4271,17 @@ class PropHaz(GSMMFamily):
         ut = self.ut
         nt = len(ut)
         X = Xs[0]
+
+        # Nothing to do in case last call was for the same input
+        if self.__prepared is not None:
+            pcoef, pdelta, pX = self.__prepared
+            if (
+                np.array_equal(coef, pcoef)
+                and np.array_equal(delta, pdelta)
+                and (X is pX or (X.shape == pX.shape and (X != pX).nnz == 0))
+            ):
+                return
+
         eta = X @ coef
 
         with warnings.catch_warnings():  # Overflow
@@ -4328,6 +4340,7 @@ class PropHaz(GSMMFamily):
         self.__hs = hs
         self.__qs = qs
         self.__avs = avs
+        self.__prepared = (np.array(coef), np.array(delta), X)
 
     def get_baseline_hazard(
         self, coef: np.ndarray, delta: np.ndarray, Xs: list[scp.sparse.csc_array]
@@ -4393,8 +4406,7 @@ class PropHaz(GSMMFamily):
         :rtype: np.ndarray
         """
 
-        if self.__hs is None:
-            self.__prepare_predictions(coef, delta, Xs)
+        self.__prepare_predictions(coef, delta, Xs)
 
         return self.__hs
 
@@ -4531,8 +4543,7 @@ class PropHaz(GSMMFamily):
         :rtype: tuple[np.ndarray, np.ndarray | None]
         """
 
-        if self.__hs is None:
-            self.__prepare_predictions(coef, delta, Xs)
+        self.__prepare_predictions(coef, delta, Xs)
 
         # Extract and define all variables defined by WPS (2016)
         ut = self.ut
-- 
2.43.0


From f76737907dc55c31e6b2b02927fec70f1b464430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:58 +0000
Subject: [PATCH 42/79] fix: Hessian of multivariate Gaussian wrong for
 off-diagonal covariance coefficients

---
 src/mssm/src/python/exp_fam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 46d234a..6522e16 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4987,7 +4987,8 @@ class MultiGauss(GSMMFamily):
                     d2 = np.sum(xbarjmui * RiRpRRiymui)
                 else:
                     d2 = (ymu @ Rpj.T) * (ymu @ Rpi.T)
-                    if (mr == theta_idx[0]) and (mc == theta_idx[1]):
+                    # Only diagonal elements (i.e., exp(theta)) have second partials
+                    if is_diag and (mr == theta_idx[0]) and (mc == theta_idx[1]):
                         d2 += (ymu @ R.T) * (ymu @ Rpj.T)
                     d2 = -np.sum(d2)
 
-- 
2.43.0


From de6d48599a1bfd3e0f459ff095bd546f372e78a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:58 +0000
Subject: [PATCH 43/79] fix: Hessian of multivariate Gaussian ignored link
 functions

---
 src/mssm/src/python/exp_fam.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 6522e16..cb0ec45 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4928,6 +4928,8 @@ class MultiGauss(GSMMFamily):
         ymu = y - mus
         # RR is of shape m * m
         RR = R.T @ R
+        # Account for links: partials of means with respect to linear predictors
+        dmu = [1 / self.links[mui].dy1(mus[:, mui]) for mui in range(self.n_par)]
 
         # Compute column j of the hessian
         Hj = []
@@ -4945,7 +4947,7 @@ class MultiGauss(GSMMFamily):
             coef_j_idx = j if parj_idx == 0 else j - par_n_coef[parj_idx - 1]
             xbarj = scp.sparse.csc_array(
                 (
-                    Xfix[parj_idx][:, coef_j_idx].toarray(),
+                    Xfix[parj_idx][:, coef_j_idx].toarray() * dmu[parj_idx],
                     (np.tile(parj_idx, n_obs), np.arange(n_obs)),
                 ),
                 shape=(self.n_par, n_obs),
@@ -4965,10 +4967,14 @@ class MultiGauss(GSMMFamily):
         # Now iterate over means
         for mui in range(self.n_par):
             if is_coef:
-                RRxbarjmui = RRxbarj[mui, :]
+                RRxbarjmui = RRxbarj[mui, :] * dmu[mui]
+                if mui == parj_idx:
+                    # Second partial of mean with respect to linear predictor
+                    d2mu = -self.links[mui].dy2(mus[:, mui]) * np.power(dmu[mui], 2)
+                    RRxbarjmui -= xbarj[mui, :] * d2mu * (RR @ ymu.T)[mui, :]
                 d2 = -np.sum(Xfix[mui] * RRxbarjmui[:, None], axis=0)
             else:
-                RJRpRRJymui = RJRpRRJy[mui, :]
+                RJRpRRJymui = RJRpRRJy[mui, :] * dmu[mui]
                 d2 = (Xfix[mui] * RJRpRRJymui[:, None]).sum(axis=0)
             Hj.extend(d2)
 
-- 
2.43.0


From 161300140f63547de6220e9c6d95d4ba87559fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:22 +0000
Subject: [PATCH 44/79] fix: proportional hazard model refused event indicators
 stored as floats

---
 src/mssm/src/python/exp_fam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index cb0ec45..cbfe21a 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4069,7 +4069,7 @@ class PropHaz(GSMMFamily):
 
             # Now compute first sum here and second sum in c
             llk = np.sum(delta * eta) + hazard.llk2(
-                nt, gamma.flatten(), delta.flatten(), self.__ris
+                nt, gamma.flatten(), delta.flatten().astype(np.int64), self.__ris
             )
 
         return llk
@@ -4117,7 +4117,7 @@ class PropHaz(GSMMFamily):
 
             # Now compute first sum here and second in c
             g = (delta.T @ X).T + hazard.grad2(
-                nt, gamma.flatten(), delta.flatten(), self.__ris, X
+                nt, gamma.flatten(), delta.flatten().astype(np.int64), self.__ris, X
             ).reshape(-1, 1)
 
         return g
@@ -4163,7 +4163,7 @@ class PropHaz(GSMMFamily):
             gamma = np.exp(eta)
 
             # Compute hessian in cpp
-            H = hazard.hessian(nt, gamma.flatten(), delta.flatten(), self.__ris, X)
+            H = hazard.hessian(nt, gamma.flatten(), delta.flatten().astype(np.int64), self.__ris, X)
 
         return scp.sparse.csc_array(H)
 
-- 
2.43.0


From 52f2849c370e99c070ee53090defe37439ce1725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:22 +0000
Subject: [PATCH 45/79] fix: gradient of extended families with non-identity
 link in general models

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index c460143..9e83fb0 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -340,7 +340,7 @@ class GAMLSSGSMMFamily(GSMMFamily):
                 mu = gammlss_family.link.fi(Xs[0] @ coef[:-n_theta])
                 theta = coef[-n_theta:]
                 d1 = gammlss_family.dDdmu(y, mu, theta=theta)
-                ld1 = gammlss_family.link.dy1(d1)
+                ld1 = gammlss_family.link.dy1(mu)
                 grad_coef = -0.5 * ((d1 / ld1).T @ Xs[0]).T
                 grad_theta = gammlss_family.gradientLTheta(y, mu, theta=theta)
                 grad = np.concatenate((grad_coef, grad_theta), axis=0)
-- 
2.43.0


From 75aae1d0c5b28303d69d85e800037db80c00d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:45 +0000
Subject: [PATCH 46/79] fix: edf of multi-parameter models without penalties
 counted dropped coefficients

---
 src/mssm/src/python/gamm_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 6297182..2c393c0 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -6424,7 +6424,7 @@ def solve_gammlss_sparse(
         term_edfs = calculate_term_edf(gamlss_pen, term_edfs)
     else:
         term_edfs = None
-        total_edf = n_coef
+        total_edf = n_coef - (len(drop) if drop is not None else 0)
 
     return (
         coef,
@@ -9596,7 +9596,7 @@ def solve_generalSmooth_sparse(
         term_edfs = calculate_term_edf(smooth_pen, term_edfs)
     else:
         term_edfs = None
-        total_edf = n_coef
+        total_edf = n_coef - (len(drop) if drop is not None else 0)
 
     LV_linop = None
     if method == "qEFS":
-- 
2.43.0


From aaf7770a3324164b26fbf94ceeb108877df096e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:57 +0000
Subject: [PATCH 47/79] fix: dropping coefficients of general models with extra
 coefficients failed

---
 src/mssm/src/python/gamm_solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 2c393c0..f393794 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -6609,7 +6609,7 @@ def check_drop_valid_gensmooth(
     rXs, rcoef_split_idx = drop_terms_X(Xs, keep)
 
     # Deal with any extra coefficients when checking for the drop
-    if family.extra_coef is not None:
+    if family.extra_coef is not None and len(rXs) > 1:
         rcoef_split_idx.append(rXs[-1].shape[1] + rcoef_split_idx[-1])
 
     # ... and from S_emb
@@ -6805,6 +6805,10 @@ def handle_drop_gsmm(
     rXs, rcoef_split_idx = drop_terms_X(Xs, keep)
     # print(rXs)
 
+    # Deal with any extra coefficients
+    if family.extra_coef is not None and len(rXs) > 1:
+        rcoef_split_idx.append(rXs[-1].shape[1] + rcoef_split_idx[-1])
+
     # ... and from S_emb
     rS_emb = S_emb[keep, :]
     rS_emb = rS_emb[:, keep]
-- 
2.43.0


From beafde5c8265dfe176622d3be07aec8567699088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:10 +0000
Subject: [PATCH 48/79] fix: multi-parameter models failed when a random
 factor's last level had no data

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index f393794..ce7d9be 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -4462,7 +4462,7 @@ def deriv_transform_eta_beta(
             hc_idx += Xs[etaj].shape[1]
         hr_idx += Xs[etai].shape[1]
 
-    hessian = scp.sparse.csc_array((h_vals, (h_rows, h_cols)))
+    hessian = scp.sparse.csc_array((h_vals, (h_rows, h_cols)), shape=(hr_idx, hr_idx))
     return np.array(grad).reshape(-1, 1), hessian
 
 
-- 
2.43.0


From 45158e70764ca97a5991ff0990b4d33c15c1563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:27 +0000
Subject: [PATCH 49/79] fix: rank deficiency search dropped identifiable
 coefficients when svds missed the null vector

---
 src/mssm/src/python/gamm_solvers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index ce7d9be..f56c3c5 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -4864,7 +4864,7 @@ def identify_drop(
 
         # Find approximate Null-vector w of nH (See Foster, 1986)
         try:
-            _, _, vh = scp.sparse.linalg.svds(
+            _, sv, vh = scp.sparse.linalg.svds(
                 R,
                 k=1,
                 return_singular_vectors=True,
@@ -4874,7 +4874,7 @@ def identify_drop(
             )
         except:  # noqa: E722
             try:
-                _, _, vh = scp.sparse.linalg.svds(
+                _, sv, vh = scp.sparse.linalg.svds(
                     R,
                     k=1,
                     return_singular_vectors=True,
@@ -4889,6 +4889,11 @@ def identify_drop(
                 keep = np.sort(keep)
                 return keep, drop
 
+        # Iterative solvers can converge to another singular value when R is exactly singular,
+        # so make sure that vh really is an approximate Null-vector.
+        if sv[0] > np.sqrt(np.finfo(float).eps):
+            vh = scp.linalg.svd(R.toarray())[2][-1:, :]
+
         # w needs to be of original shape!
         w = np.zeros(H.shape[1])
 
-- 
2.43.0


From 7a6c0972e649382ecf1e1d9f68b755bf6704b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:23 +0000
Subject: [PATCH 50/79] fix: p-values of smooths failed for more than 1e5
 observations

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 9e83fb0..423710a 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1277,7 +1277,7 @@ def approx_smooth_p_values(
 
                 if X_b_j.shape[0] > n_sel:
                     # Select subset of rows randomly as suggested by Wood (2013)
-                    sel = np_gen.choice(X_b_j.shape[0], size=n_sel, replace=False)
+                    sel = np_gen.choice(X_b_j.shape[0], size=int(n_sel), replace=False)
                     X_b_j = X_b_j[sel, :]
 
                 R = np.linalg.qr(X_b_j.toarray(), mode="r")
-- 
2.43.0


From a95b5be00e33f441e5c4fffb2ad74aa70061f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:23 +0000
Subject: [PATCH 51/79] fix: p-values of smooths averaged over arbitrary signs
 of eigenvectors

---
 src/mssm/src/python/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 423710a..8ba8e5f 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1304,6 +1304,7 @@ def approx_smooth_p_values(
                         )
 
                         sign = np.sign(U[0, :])
+                        sign[sign == 0] = 1
                         U *= sign
                         RVRI1 = U @ S @ U.T
 
@@ -1337,6 +1338,7 @@ def approx_smooth_p_values(
                         # Fix sign of Eigen-vectors to sign of first row
                         # (based on testStat function in mgcv)
                         sign = np.sign(U[0, :])
+                        sign[sign == 0] = 1
                         U *= sign
 
                         # Now we can reform the diagonal matrix needed for inverting RVR
@@ -1360,7 +1362,7 @@ def approx_smooth_p_values(
 
                         # Also compute inverse for alternative version of Eigen-vectors
                         # (see Wood, 2017):
-                        U *= sign
+                        U[:, k - 1] *= -1
                         RVRI2 = U @ S @ U.T
 
                         # And the test statistic defined in Wood (2012)
-- 
2.43.0


From 60d491cd3e0bd45ab202e38172fcc1d662d6ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:57 +0000
Subject: [PATCH 52/79] fix: bias corrected edf (and p-values) of a model
 fitted again were those of the first fit

---
 src/mssm/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 02c0988..c92fd08 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1202,7 +1202,9 @@ class GSMM:
         self.overall_penalties = smooth_pen
         self.coef = coef
         self.edf = total_edf
+        self.edf1 = None
         self.term_edf = term_edfs
+        self.term_edf1 = None
         self.penalty = penalty
         self.coef_split_idx = coef_split_idx
         self.lvi = LV
@@ -2113,7 +2115,9 @@ class GAMMLSS(GSMM):
         self.mus = mus
         self.res = wres
         self.edf = total_edf
+        self.edf1 = None
         self.term_edf = term_edfs
+        self.term_edf1 = None
         self.penalty = penalty
         self.coef_split_idx = coef_split_idx
         self.lvi = LV
@@ -3375,7 +3379,9 @@ class GAMM(GAMMLSS):
         self.mus = [self.family.link.fi(eta)]
         self.res = wres
         self.edf = edf
+        self.edf1 = None
         self.term_edf = term_edf
+        self.term_edf1 = None
         self.penalty = penalty
         self.info = fit_info
         self.lvi = LVI
-- 
2.43.0


From 3326ef9829e9d7c2b1ca81b7103a25424b58cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:09 +0000
Subject: [PATCH 53/79] fix: bias corrected edf counted dropped coefficients
 and left out extra coefficients

---
 src/mssm/src/python/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 8ba8e5f..1419a0b 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1055,18 +1055,19 @@ def compute_bias_corrected_edf(model, overwrite: bool = False) -> None:
             nH = -1 * model.hessian
             F = model.lvi.T @ model.lvi @ (nH * scale)
 
-            edf1 += model.formulas[0].unpenalized_coef
-
         else:
 
             # Start with forming F matrix
             nH = -1 * model.hessian
             F = model.lvi.T @ model.lvi @ nH
 
-            edf1 += np.sum([form.unpenalized_coef for form in model.formulas])
-
         F_diag = F.diagonal()
 
+        # Every unpenalized coefficient that was not dropped adds one to the edf
+        unpen = np.ones(F.shape[1], dtype=bool)
+        if model.info.dropped is not None:
+            unpen[model.info.dropped] = False
+
         prev_start_idx = -1
 
         # edf are best computed on term-pecific penalties
@@ -1087,11 +1088,12 @@ def compute_bias_corrected_edf(model, overwrite: bool = False) -> None:
                 t_edf1 = 2 * np.sum(Fjd) - Fjtrace
                 term_edf1.append(t_edf1)
                 edf1 += t_edf1
+                unpen[S_start:S_end] = False
 
                 # Update current start index
                 prev_start_idx = pen.start_index
 
-        model.edf1 = edf1
+        model.edf1 = edf1 + np.sum(unpen)
         model.term_edf1 = term_edf1
 
 
-- 
2.43.0


From 1e1c1ddc73bbe2bbc11f9baed4b89a04296309fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:22 +0000
Subject: [PATCH 54/79] fix: edf and p-values of smooths were shifted by
 unpenalised smooths and impulse response terms

---
 src/mssm/src/python/utils.py | 111 ++++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 53 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 1419a0b..197806c 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -31,7 +31,7 @@ from ..python.gamm_solvers import (
     updateTheta,
     compute_omega,
 )
-from ..python.terms import fs, rs
+from ..python.terms import fs, ri, rs
 
 try:
     import multiprocess as mp
@@ -813,6 +813,54 @@ def print_parametric_terms(model, par: int = 0) -> None:
         print("\nNote: p < 0.001: ***, p < 0.01: **, p < 0.05: *, p < 0.1: .")
 
 
+def align_term_edf(
+    model, form: Formula, term_edf: list[float], par: int = 0
+) -> list[float]:
+    """Collects the edf of all smooth and random terms (or, where they have separate penalties, of
+    their levels) of a formula in the order in which the terms are printed. Terms without penalty
+    have as many edf as coefficients.
+
+    :param model: GSMM, GAMMLSS, or GAMM model
+    :type model: mssm.models.GSMM | mssm.models.GAMMLSS | mssm.models.GAMM
+    :param form: The formula
+    :type form: Formula
+    :param term_edf: Term-wise edf of the model
+    :type term_edf: list[float]
+    :param par: Index of the formula. Ignored when ``model`` is a GAMM. Defaults to 0
+    :type par: int, optional
+    :return: List of edf
+    :rtype: list[float]
+    """
+    first = 0
+    if par > 0 and isinstance(model.family, Family) is False:
+        first = model.coef_split_idx[par - 1]
+
+    # edf are best computed on term-pecific penalties
+    starts = []
+    for pen in split_shared_penalties(model.overall_penalties):
+        if len(starts) == 0 or pen.start_index > starts[-1]:
+            starts.append(pen.start_index)
+
+    edf_start = dict(zip(starts, term_edf))
+
+    edfs = []
+    for ti in [*form.get_smooth_term_idx(), *form.get_random_term_idx()]:
+        term = form.terms[ti]
+
+        n_levels = 1
+        if isinstance(term, ri) is False and term.by is not None:
+            if isinstance(term, rs) or term.id is None:
+                n_levels = len(form.get_factor_levels()[term.by])
+
+        n_coef = int(form.coef_per_term[ti] / n_levels)
+        start = first + form.coef_idx_per_term[ti][0]
+
+        for li in range(n_levels):
+            edfs.append(min(edf_start.get(start + li * n_coef, n_coef), n_coef))
+
+    return edfs
+
+
 def print_smooth_terms(
     model,
     par: int = 0,
@@ -863,7 +911,7 @@ def print_smooth_terms(
         if model.coef is None:
             term_edf = None
         else:
-            term_edf = model.term_edf
+            term_edf = align_term_edf(model, form, model.term_edf)
     else:
         # GAMMLSS or GSMM case
         form = model.formulas[par]
@@ -872,23 +920,7 @@ def print_smooth_terms(
         if model.coef is None:
             term_edf = None
         else:
-            term_edf = []
-            prev_start_idx = -1
-            prev_edf_idx = 0
-            # edf are best computed on term-pecific penalties
-            penalties = split_shared_penalties(model.overall_penalties)
-            for pen in penalties:
-
-                if pen.dist_param > par:
-                    break
-
-                if pen.start_index > prev_start_idx:
-                    if pen.dist_param == par:
-                        term_edf.append(model.term_edf[prev_edf_idx])
-
-                    # Keep track of start idx (coef idx) and edf idx.
-                    prev_start_idx = pen.start_index
-                    prev_edf_idx += 1
+            term_edf = align_term_edf(model, form, model.term_edf, par)
 
     term_names = np.array(form.get_term_names())
     smooth_names = [
@@ -1190,7 +1222,6 @@ def approx_smooth_p_values(
         coef = model.coef.flatten()
         lvi = model.lvi
         scale = model.scale
-        term_edf = model.term_edf1 if edf1 else model.term_edf
         rs_df = X.shape[0] - model.edf
 
     else:
@@ -1206,40 +1237,11 @@ def approx_smooth_p_values(
         coef = np.ndarray.flatten(split_coef[par])
         lvi = model.lvi[:, split_idx]
         scale = 1
-        term_edf = []
         rs_df = None
 
-        prev_start_idx = -1
-        prev_edf_idx = 0
-
-        # edf are best computed on term-pecific penalties
-        penalties = split_shared_penalties(model.overall_penalties)
-
-        for pen in penalties:
-            if pen.start_index > prev_start_idx:
-
-                if pen.dist_param > par:
-                    break
-
-                if pen.dist_param == par:  # Collect only those belonging to this par
-                    if edf1:
-                        term_edf.append(
-                            min(
-                                model.term_edf1[prev_edf_idx],
-                                pen.rep_sj * pen.S_J.shape[1],
-                            )
-                        )
-                    else:
-                        term_edf.append(
-                            min(
-                                model.term_edf[prev_edf_idx],
-                                pen.rep_sj * pen.S_J.shape[1],
-                            )
-                        )
-
-                # Keep track of start idx (coef idx) and edf idx.
-                prev_start_idx = pen.start_index
-                prev_edf_idx += 1
+    term_edf = align_term_edf(
+        model, form, model.term_edf1 if edf1 else model.term_edf, par
+    )
 
     terms = form.get_terms()
 
@@ -1251,7 +1253,10 @@ def approx_smooth_p_values(
     Trs = []
 
     # Loop over smooth terms
-    start_coef = form.unpenalized_coef  # Start indexing V_b after un-penalized coef
+    start_coef = sum(  # Start indexing V_b after linear and impulse response terms
+        form.coef_per_term[ti]
+        for ti in [*form.get_linear_term_idx(), *form.get_ir_smooth_term_idx()]
+    )
     edf_idx = 0
     for sti in st_idx:
         if isinstance(terms[sti], fs) is False:
-- 
2.43.0


From 0b812eda254b9e3854939cd77eb8e2646813990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:22 +0000
Subject: [PATCH 55/79] fix: unpenalised impulse response terms shifted the
 penalties of all other terms

---
 src/mssm/src/python/formula.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index e5492f9..48946a8 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -2125,7 +2125,6 @@ def build_penalties(formula) -> list[LambdaTerm]:
                 if irsterm.by is not None:
                     added_not_penalized *= len(by_levels)
                 start_idx += added_not_penalized
-                cur_pen_idx = start_idx
 
                 if formula.print_warn:
                     warnings.warn(
-- 
2.43.0


From e6c99d2232194188f75c03a8c1f9310137a056c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:21 +0000
Subject: [PATCH 56/79] fix: do not invert eigenvalues that are zero up to
 rounding in the covariance of log smoothing parameters

---
 src/mssm/src/python/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 197806c..1812513 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2562,9 +2562,10 @@ def estimateVp(
             eig, U = scp.linalg.eigh(nHp)
             ire = np.zeros_like(eig)
             # fmt: off
-            # Only compute inverse for eig values larger than zero, setting rem. ones to zero
+            # Only compute inverse for eig values (numerically) larger than zero, setting rem. ones to zero
             # yields generalized invserse.
-            ire[eig > 0] = 1 / np.sqrt(eig[eig > 0])
+            pos = eig > np.power(np.finfo(float).eps, 0.5) * np.max(np.abs(eig))
+            ire[pos] = 1 / np.sqrt(eig[pos])
             # fmt: on
             Ri = np.diag(ire) @ U.T  # Root of Vp
 
@@ -3296,9 +3297,10 @@ def compute_Vp_WPS(
     ire = np.zeros_like(eig)
 
     # fmt: off
-    # Only compute inverse for eig values larger than zero, setting rem. ones to zero yields
+    # Only compute inverse for eig values (numerically) larger than zero, setting rem. ones to zero yields
     # generalized invserse.
-    ire[eig > 0] = 1 / np.sqrt(eig[eig > 0])
+    pos = eig > np.power(np.finfo(float).eps, 0.5) * np.max(np.abs(eig))
+    ire[pos] = 1 / np.sqrt(eig[pos])
     # fmt: on
 
     Ri = np.diag(ire) @ U.T  # Root of Vp
-- 
2.43.0


From e9460903af8ce988ab436fbd78416c160feb1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:21 +0000
Subject: [PATCH 57/79] fix: bias correction of the upper bound changed the
 reported edf per coefficient in correct_VB

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 1812513..6b1873a 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4741,7 +4741,7 @@ def correct_VB(
     # Enforce upper bound
     if total_edf > total_edf2:
         total_edf = total_edf2
-        edf = edf2
+        edf = edf2.copy()
 
     # Compute uncertainty corrected smoothness bias corrected edf (t1 in section 6.1.2 of Wood,
     # 2017)
-- 
2.43.0


From 77e9ed6388aa0956723e9d4b81092cac7cb63a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:51 +0000
Subject: [PATCH 58/79] fix: REML score of smoothing parameter candidates
 ignored the offset of additive models

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 6b1873a..8483609 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1728,7 +1728,7 @@ def compute_reml_candidate_GAMM(
         if isinstance(family, Gaussian) and isinstance(family.link, Identity):
             # AMM - directly solve for coef
             eta, mu, coef, Pr, _, LP, keep, drop = update_coef(
-                y - offset, X, X, family, S_emb, S_root, n_c, None, 0
+                y - offset, X, X, family, S_emb, S_root, n_c, None, offset
             )
             nH = (X.T @ X).tocsc()
         else:
-- 
2.43.0


From db0ee0cec8dc04ab53fdadae21811a8788d26f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:51 +0000
Subject: [PATCH 59/79] fix: make_valid of uniform log smoothing parameter
 priors left values outside the support

---
 src/mssm/src/python/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 8483609..7b04a96 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -3559,8 +3559,8 @@ class MVUniformRhoPrior(RhoPrior):
         b = self.kwargs["b"]
 
         crho = copy.deepcopy(rho)
-        crho[crho < a] = 0.9 * a
-        crho[crho > b] = 0.9 * b
+        crho[crho < a] = a + 0.05 * (b - a)
+        crho[crho > b] = b - 0.05 * (b - a)
         return crho
 
 
@@ -3637,8 +3637,8 @@ class CenteredUniformRhoPriors(RhoPrior):
             invala = crho[:, rhoi] < a[rhoi]
             invalb = crho[:, rhoi] > b[rhoi]
 
-            crho[invala, rhoi] = 0.9 * a[rhoi]
-            crho[invalb, rhoi] = 0.9 * b[rhoi]
+            crho[invala, rhoi] = a[rhoi] + 0.05 * (b[rhoi] - a[rhoi])
+            crho[invalb, rhoi] = b[rhoi] - 0.05 * (b[rhoi] - a[rhoi])
 
         return crho
 
-- 
2.43.0


From ac49c06d69fe9c3f54eb07a0096e5ba1e32df6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:40 +0000
Subject: [PATCH 60/79] fix: scale of smoothing parameter candidates of
 generalized models with an offset

---
 src/mssm/src/python/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 7b04a96..c0fa17e 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1852,7 +1852,7 @@ def compute_reml_candidate_GAMM(
         _, _, edf, _, _, scale = update_scale_edf(
             y,
             z,
-            eta,
+            eta if z is None else eta - offset,
             Wr,
             X.shape[0],
             X.shape[1],
@@ -4460,7 +4460,7 @@ def correct_VB(
                 _, _, _, _, _, scale = update_scale_edf(
                     y,
                     z,
-                    eta,
+                    eta if z is None else eta - model.offset,
                     Wr,
                     X.shape[0],
                     X.shape[1],
-- 
2.43.0


From 9859bb9f28c984bd4529e5f470a4da4f15d70df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:40 +0000
Subject: [PATCH 61/79] fix: expected edf of the Monte Carlo correction
 depended on the number of processes

---
 src/mssm/src/python/utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index c0fa17e..f9cc4fc 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4170,6 +4170,11 @@ def correct_VB(
                     scales.extend(list(sample_scales))
                     coefs.extend(list(sample_coefs))
                     remls.extend(list(sample_remls))
+                    if only_expected_edf:
+                        # Based on original Hessian - as in all other cases
+                        sample_edfs = [
+                            e * s / orig_scale for e, s in zip(sample_edfs, sample_scales)
+                        ]
                     edfs.extend(list(sample_edfs))
                     llks.extend(list(sample_llks))
                     rGrid = p_sample
@@ -4293,6 +4298,13 @@ def correct_VB(
                     axis=0,
                 )
 
+            # Expected edf is based on original Hessian, as when parallelizing
+            origNH = None
+            if only_expected_edf:
+                origNH = -1 * model.hessian
+                if isinstance(family, Gaussian) and isinstance(family.link, Identity):
+                    origNH = orig_scale
+
             for ps in p_sample:
                 for ridx, rc in enumerate(ps):
                     rPen[ridx].lam = rc
@@ -4308,6 +4320,7 @@ def correct_VB(
                             model.offset,
                             method=method,
                             compute_inv=True,
+                            origNH=origNH,
                         )
                     )
                     # coef = coef.reshape(-1,1)
@@ -4332,6 +4345,7 @@ def correct_VB(
                             n_c=n_c,
                             method=method,
                             bfgs_options=bfgs_options,
+                            origNH=origNH,
                             keep_drop=keep_drop,
                         )
                     except:  # noqa: E722
-- 
2.43.0


From d8313e0f462e6461deddd8b3032c6d23add833fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:39 +0000
Subject: [PATCH 62/79] fix: prior precision of models with a scale parameter
 when sampling only coefficients

---
 src/mssm/src/python/mcmc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index fec74a0..9309fe4 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -732,6 +732,11 @@ def sample_mssm(
         MLT = scp.sparse.block_array([[MLT, None], [None, Re_theta]], format="csc")
         Minv = scp.sparse.block_array([[Minv, None], [None, inH_theta]], format="csc")
 
+    # Correct penalties for scaling for GAMMs: lambda/scale is the precision of the prior
+    if isinstance(family, Family) and family.twopar is True:
+        for pidx in range(len(r_pen)):
+            r_pen[pidx].lam /= orig_scale
+
     # Modify covariance matrix to account for log lambda parameters
     if sample_rho:
 
@@ -739,9 +744,6 @@ def sample_mssm(
         if isinstance(family, Family) and family.twopar is True:
             ep = np.log(np.exp(ep) / orig_scale)
 
-            for pidx in range(len(r_pen)):
-                r_pen[pidx].lam = np.exp(ep[pidx])
-
         eig, U = scp.linalg.eigh(Vpreg)
 
         # fmt: off
-- 
2.43.0


From f82f9a5fd73a93ba139fe359ef5f745c3e815214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:39 +0000
Subject: [PATCH 63/79] fix: sampler ignored the offset of a GAMM

---
 src/mssm/src/python/mcmc.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 9309fe4..f811cd3 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -595,6 +595,7 @@ def sample_mssm(
     n_theta = 0
     orig_scale = 1
     orig_theta = None
+    has_offset = False
     n_lam = len(model.overall_penalties)
     r_pen = copy.deepcopy(model.overall_penalties)
 
@@ -616,6 +617,14 @@ def sample_mssm(
 
         deriv_fam = GAMLSSGSMMFamily(1, family)
 
+        # Account for offset via an extra column that has a fixed coefficient of one
+        if np.any(model.offset != 0):
+            has_offset = True
+            offset = np.broadcast_to(
+                np.asarray(model.offset, dtype=float).reshape(-1, 1), (len(y), 1)
+            )
+            Xs = [scp.sparse.hstack([Xs[0], offset], format="csc")]
+
     else:
         if isinstance(family, GAMLSSFamily):
             y = model.get_ys()
@@ -646,6 +655,12 @@ def sample_mssm(
             )
             keep_drop = (keep, model.info.dropped)  # noqa
 
+    def add_offset_coef(coef: np.ndarray) -> np.ndarray:
+        # Add fixed coefficient for the offset column (if any) after the coefficients of the model
+        if has_offset is False:
+            return coef
+        return np.insert(coef, n_coef, 1, axis=0)
+
     # Can now start building Minv and MLT so that MLT.T@MLT = inv(Minv)
     Minv = (model.lvi.T @ model.lvi).tocsc() * orig_scale
 
@@ -670,7 +685,9 @@ def sample_mssm(
     if n_scale > 0:
 
         # Get negative 2nd partial of scale
-        nH_scale = -1 * family.d2llkd2lscale(model.coef, ys[0], Xs[0], scale=orig_scale)
+        nH_scale = -1 * family.d2llkd2lscale(
+            add_offset_coef(model.coef), ys[0], Xs[0], scale=orig_scale
+        )
 
         # Enforce PD
         if nH_scale <= 0:
@@ -700,7 +717,7 @@ def sample_mssm(
     if n_theta > 0:
 
         # Get (regularized) negative hessian block with respect to theta
-        mu = family.link.fi(Xs[0] @ model.coef)
+        mu = family.link.fi(Xs[0] @ add_offset_coef(model.coef))
         nH_theta = (-1 * family.hessianLTheta(ys[0], mu, theta=orig_theta)) + (
             np.identity(n_theta) * 0.1
         )
@@ -948,7 +965,7 @@ def sample_mssm(
         coef = c[: n_coef + n_scale + n_theta]
 
         # Compute log-likelihood
-        c_llk = deriv_fam.llk(coef, coef_split_idx, ys, Xs)
+        c_llk = deriv_fam.llk(add_offset_coef(coef), coef_split_idx, ys, Xs)
 
         if sample_rho:
             rho = c[n_coef + n_scale + n_theta :]  # noqa: E203
@@ -1016,7 +1033,11 @@ def sample_mssm(
         coef = c[: n_coef + n_scale + n_theta]
 
         # Compute gradient
-        grad = deriv_fam.gradient(coef, coef_split_idx, ys, Xs)
+        grad = deriv_fam.gradient(add_offset_coef(coef), coef_split_idx, ys, Xs)
+
+        if has_offset:
+            # Coefficient of offset is fixed
+            grad = np.delete(grad, n_coef, axis=0)
 
         if sample_rho:
             rho = c[n_coef + n_scale + n_theta :]  # noqa: E203
-- 
2.43.0


From 22b11d7bcaa0235dabb5e839fc7516243fb71fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:39 +0000
Subject: [PATCH 64/79] fix: sampler ignored the ar1 model of the residuals

---
 src/mssm/src/python/mcmc.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index f811cd3..c25cb5f 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -12,7 +12,14 @@ from ..python.gamm_solvers import (
 )
 
 from .custom_types import SamplerResult
-from .utils import sample_MVN, estimateVp, GAMLSSGSMMFamily, RhoPrior, MVUniformRhoPrior
+from .utils import (
+    sample_MVN,
+    estimateVp,
+    GAMLSSGSMMFamily,
+    RhoPrior,
+    MVUniformRhoPrior,
+    computeAr1Chol,
+)
 
 from ...models import (
     GAMM,
@@ -21,6 +28,8 @@ from ...models import (
     Family,
     ExtendedFamily,
     GAMLSSFamily,
+    Gaussian,
+    Identity,
     fs,
     embed_shared_penalties,
     build_penalties,
@@ -625,6 +634,16 @@ def sample_mssm(
             )
             Xs = [scp.sparse.hstack([Xs[0], offset], format="csc")]
 
+        # Account for ar1 model of the residuals of strictly additive models
+        if (
+            model.rho is not None
+            and isinstance(family, Gaussian)
+            and isinstance(family.link, Identity)
+        ):
+            Lrhoi, _ = computeAr1Chol(formulas[0], model.rho)
+            ys = [Lrhoi.T @ y]
+            Xs = [(Lrhoi.T @ Xs[0]).tocsc()]
+
     else:
         if isinstance(family, GAMLSSFamily):
             y = model.get_ys()
-- 
2.43.0


From 698521238ff473fd658989b7760ed36565cacace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:39 +0000
Subject: [PATCH 65/79] fix: convergence check skipped columns of the model
 matrix with negative sum

---
 src/mssm/src/python/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index c25cb5f..3826eca 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -181,7 +181,7 @@ def check_convergence(
                 par=fidx,
             )
 
-            fcidx = np.arange(fixedX.shape[1])[fixedX.sum(axis=0) > 0]
+            fcidx = np.arange(fixedX.shape[1])[np.abs(fixedX).sum(axis=0) > 0]
 
             ess_sel.extend(split_ess[fidx][fcidx])
             rhat_sel.extend(split_rhat[fidx][fcidx])
-- 
2.43.0


From 365c28db6abb5fdcee1fce4c84b6cf0e361c98a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:39 +0000
Subject: [PATCH 66/79] fix: vague null-space priors added to terms that
 already have a null-space penalty

---
 src/mssm/src/python/mcmc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 3826eca..0663c0b 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -966,8 +966,7 @@ def sample_mssm(
 
         for pen in NP_pen:
             if (
-                pen.dist_param in NP_fidx
-                and pen.term in NP_tidx
+                (pen.dist_param, pen.term) in zip(NP_fidx, NP_tidx)
                 and pen.type == PenType.NULL
             ):
 
-- 
2.43.0


From 2796d66bc65f93bf404e9b7a1cff5f22d6162d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:43 +0000
Subject: [PATCH 67/79] fix: sampling the scale failed for terms sharing a
 smoothing parameter

---
 src/mssm/src/python/mcmc.py      | 4 ++++
 src/mssm/src/python/penalties.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 0663c0b..6ee8107 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -37,6 +37,7 @@ from ...models import (
 )
 
 from ..python.repara import reparam
+from ..python.penalties import combine_shared_penalties, split_shared_penalties
 from collections.abc import Callable
 
 import mcmc
@@ -885,9 +886,12 @@ def sample_mssm(
         # Note that scales and thetas are added to coef vector when working with ``deriv_fam``,
         # so from now on treat ``coef`` as having dimension n_coef + n_scale + n_theta
 
+        # Penalties sharing a lambda have to be embedded individually
+        r_pen = split_shared_penalties(r_pen)
         r_pen = embed_shared_penalties([r_pen], formulas, deriv_fam.extra_coef)
         r_pen = [sp for sp in r_pen if len(sp) > 0]
         r_pen = [pen for pens in r_pen for pen in pens]
+        r_pen = combine_shared_penalties(r_pen)
 
     # Get initial penalty matrix
     S_emb, _, _, _ = compute_S_emb_pinv_det(n_coef + n_scale + n_theta, r_pen, "svd")
diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index a8d032c..7127073 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -19,7 +19,7 @@ def sort_penalties(penalties: list[LambdaTerm]) -> list[LambdaTerm]:
     """
 
     idx = [pen.start_index for pen in penalties]
-    sort_idx = np.argsort(idx)
+    sort_idx = np.argsort(idx, kind="stable")
     return [penalties[sidx] for sidx in sort_idx]
 
 
-- 
2.43.0


From 0bf3a62092646c5cbc5b5d1ac34b0aa39e9db6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:43 +0000
Subject: [PATCH 68/79] fix: sampler rejected a list of prior precisions for
 the scale

---
 src/mssm/src/python/mcmc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 6ee8107..136be4b 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -717,7 +717,11 @@ def sample_mssm(
         nH_scale += 0.1
 
         if make_proper:
-            nH_scale += phi_theta_lambda_0
+            nH_scale += (
+                phi_theta_lambda_0[0]
+                if isinstance(phi_theta_lambda_0, list)
+                else phi_theta_lambda_0
+            )
 
         # Finally, scale
         nH_scale /= scale_cov_phi_theta
-- 
2.43.0


From ae97da3b382c0ec3745e7c33215ccc3deda1d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:55 +0000
Subject: [PATCH 69/79] fix: impulse response terms of one variable shared
 their coefficient names

---
 src/mssm/src/python/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 48946a8..0cce1be 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -824,7 +824,7 @@ class Formula:
             irsterm = terms[irsti]
 
             t_total_coef, t_unpenalized_coef, t_coef_names = irsterm.get_coef_info(
-                self.has_intercept, factor_levels
+                irsti, factor_levels
             )
 
             self.coef_names.extend(t_coef_names)
-- 
2.43.0


From 00d9b42fd49d37c510f0bf91b3d58785db52d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:55 +0000
Subject: [PATCH 70/79] fix: limits and levels of variables read from files
 with missing values

---
 src/mssm/src/python/file_loading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index 43ca98b..18af209 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -22,7 +22,8 @@ def read_unique_single(x: str, file: str, file_loading_kwargs: dict) -> np.ndarr
     """
 
     dat = pd.read_csv(file, **file_loading_kwargs)
-    unq_dat = np.unique(dat[x].values)
+    unq_dat = dat[x].values
+    unq_dat = np.unique(unq_dat[~pd.isnull(unq_dat)])
 
     return unq_dat
 
-- 
2.43.0


From b6e0e5bde7a702789667957ff72d7f26cff32bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:55 +0000
Subject: [PATCH 71/79] fix: levels of by-factors were mislabelled when a
 codebook reorders them

---
 src/mssm/src/python/formula.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 0cce1be..129fab4 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -754,6 +754,12 @@ class Formula:
                         # print(len(rf_fac[sub_fac == by_subgroup[1]]))
                         levels = np.unique(rf_fac[sub_fac == by_subgroup[1]])
 
+                if codebook is not None and var in codebook:
+                    # Level k has code k everywhere else
+                    levels = np.array(
+                        sorted(levels, key=lambda c: codebook[var][c]), dtype=levels.dtype
+                    )
+
                 self.factor_codings[var] = {}
                 self.coding_factors[var] = {}
                 self.factor_levels[var] = levels
-- 
2.43.0


From e9221bd8bb02f44ea4629f2963a7682bb20e5d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:55 +0000
Subject: [PATCH 72/79] fix: covariates shared columns when clustering series
 by more than two covariates

---
 src/mssm/src/python/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 129fab4..9f796c1 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1263,7 +1263,7 @@ class Formula:
                     )
 
                     if vari > 0:
-                        dig_var_flat_unq_memb += dig_cov_unq_counts[-1]
+                        dig_var_flat_unq_memb += sum(dig_cov_unq_counts)
 
                     # Collect number of bins per covariate. This becomes equal to 1 if we
                     # sum over bins (i.e., collapse a variable to the number of observations).
-- 
2.43.0


From 6933b41956b49624143b7d7156a04cf5af9eff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:55 +0000
Subject: [PATCH 73/79] fix: clustering series of a sub-group failed with
 several factors to split by

---
 src/mssm/src/python/formula.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 9f796c1..a1cfc2d 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1179,9 +1179,8 @@ class Formula:
             )
         else:
             unq_fact_comb, unq_fact_comb_memb = np.unique(
-                self.cov_flat[
-                    sub_lvl_idx,
-                    [var_map[fact] for fact in self.discretize[sti]["split_by"]],
+                self.cov_flat[sub_lvl_idx, :][
+                    :, [var_map[fact] for fact in self.discretize[sti]["split_by"]]
                 ],
                 axis=0,
                 return_inverse=True,
-- 
2.43.0


From 7f92fd2355c39be0496b9326bd76b9cbcbfae13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:07 +0000
Subject: [PATCH 74/79] fix: smooths by different factors with a common level
 name were taken for nested

---
 src/mssm/src/python/formula.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index a1cfc2d..677943c 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1718,7 +1718,9 @@ class Formula:
                 if sterm.by is not None:
 
                     by_levels = self.factor_levels[sterm.by]
-                    ext_vars.extend([var + "_" + str(lvl) for lvl in by_levels])
+                    ext_vars.extend(
+                        [var + "_" + sterm.by + "_" + str(lvl) for lvl in by_levels]
+                    )
                 else:
                     ext_vars.append(var)
 
-- 
2.43.0


From 87e9f222b8409e4643c2d7969411e6cfbf76d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:07 +0000
Subject: [PATCH 75/79] fix: levels of sub-group smooths differed between files
 and memory when responses are missing

---
 src/mssm/src/python/formula.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 677943c..b6405c8 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -736,23 +736,22 @@ class Formula:
                             self.file_loading_kwargs,
                         )
                     else:
-                        rf_fac = read_cov(
-                            self.lhs.variable,
+                        rf_fac = read_cov_no_cor(
                             _org_var,
                             self.file_paths,
                             self.file_loading_nc,
                             self.file_loading_kwargs,
                         )
                         # print(len(rf_fac))
-                        sub_fac = read_cov(
-                            self.lhs.variable,
+                        sub_fac = read_cov_no_cor(
                             by_subgroup[0],
                             self.file_paths,
                             self.file_loading_nc,
                             self.file_loading_kwargs,
                         )
                         # print(len(rf_fac[sub_fac == by_subgroup[1]]))
-                        levels = np.unique(rf_fac[sub_fac == by_subgroup[1]])
+                        rf_fac = rf_fac[sub_fac == by_subgroup[1]]
+                        levels = np.unique(rf_fac[~pd.isnull(rf_fac)])
 
                 if codebook is not None and var in codebook:
                     # Level k has code k everywhere else
-- 
2.43.0


From d67a5cb5f860825390d50e419c0ee06e8e8af52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:10 +0000
Subject: [PATCH 76/79] fix: reading data failed when all responses of a file
 are missing

---
 src/mssm/src/python/smooths.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/mssm/src/python/smooths.py b/src/mssm/src/python/smooths.py
index 9e86301..374bbfe 100644
--- a/src/mssm/src/python/smooths.py
+++ b/src/mssm/src/python/smooths.py
@@ -137,14 +137,8 @@ def B_spline_basis(
     # Eilers, P. H. C., & Marx, B. D. (1996). Flexible smoothing with B-splines and penalties.
     # https://doi.org/10.1214/ss/1038425655
 
-    xl = min(cov)
-    xr = max(cov)
-
-    if max_c is not None:
-        xr = max_c
-
-    if min_c is not None:
-        xl = min_c
+    xr = max(cov) if max_c is None else max_c
+    xl = min(cov) if min_c is None else min_c
 
     # ndx is equal to n in Eilers & Marx (2011)
     # So there will be n-1 knots (without expansion)
-- 
2.43.0


From 56dee3343c24904b068c4719be50824c523b3e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:28 +0000
Subject: [PATCH 77/79] fix: a single Monte Carlo sample for a model with a
 single smoothing parameter

---
 src/mssm/src/python/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index f9cc4fc..275c395 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2629,7 +2629,7 @@ def estimateVp(
         p_sample = scp.stats.multivariate_t.rvs(
             loc=np.ndarray.flatten(ep), shape=Vpr, df=df, size=n_est, random_state=seed
         )
-        p_sample = np.exp(p_sample)
+        p_sample = np.atleast_1d(np.exp(p_sample))
         p_sample[np.isinf(p_sample)] = b
 
         if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -2821,7 +2821,7 @@ def estimateVp(
         p_sample = scp.stats.multivariate_t.rvs(
             loc=np.ndarray.flatten(ep), shape=Vpr, df=df, size=n_est, random_state=seed
         )
-        p_sample = np.exp(p_sample)
+        p_sample = np.atleast_1d(np.exp(p_sample))
         p_sample[np.isinf(p_sample)] = b
 
         if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -4039,7 +4039,7 @@ def correct_VB(
                 size=n_est,
                 random_state=seed,
             )
-            p_sample = np.exp(p_sample)
+            p_sample = np.atleast_1d(np.exp(p_sample))
             p_sample[np.isinf(p_sample)] = b
 
             if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -4268,7 +4268,7 @@ def correct_VB(
                 size=n_est,
                 random_state=seed,
             )
-            p_sample = np.exp(p_sample)
+            p_sample = np.atleast_1d(np.exp(p_sample))
             p_sample[np.isinf(p_sample)] = b
 
             if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
-- 
2.43.0


From f444d4fa675be86ddb76c384881dafa8cf8bc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:54 +0000
Subject: [PATCH 78/79] fix: Hessian-vector products as sampling method of the
 quasi-Newton update

---
 src/mssm/src/python/gamm_solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index f56c3c5..47b905e 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -7140,6 +7140,12 @@ def sample_ys_qefs(
 
     elif method == 1:
 
+        # Only pass on keyword arguments meant for scipy
+        sample_kwargs = dict(sample_kwargs)
+        maxcor = sample_kwargs.pop("n_samples", maxcor)
+        for key in ["init_r", "adapt_r", "add_pen", "T", "Madapt", "delta", "H0"]:
+            sample_kwargs.pop(key, None)
+
         for _ in range(maxcor):
 
             # Sample random pertubation
-- 
2.43.0


From 6fef3236f577d5b1f006c7fd629b98e807921fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:02 +0000
Subject: [PATCH 79/79] fix: fits that share model matrices (build_mat) with
 the default of repara

---
 src/mssm/models.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index c92fd08..b83c785 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -964,6 +964,17 @@ class GSMM:
             )
             repara = False
 
+        if build_mat is not None and not all(build_mat):
+            # Matrices not built cannot be transformed separately for every parameter.
+            if repara:
+                warnings.warn(
+                    (
+                        "Ignoring argument ``repara``, which is currently not supported when some "
+                        "model matrices are not built (see argument ``build_mat``)."
+                    )
+                )
+            repara = False
+
         if repara is None:
             repara = True if method != "qEFS" else False
 
-- 
2.43.0

