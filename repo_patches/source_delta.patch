From e0ee8acbb460a8c54109ce124566237325d8e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 01/40] fix: StructureFunction without q=2 sets H to None, as
 documented

It raised IndexError. That also broke every p-leader analysis with p != 2,
since eta_p is estimated with a structure function for q=[p] only.
---
 pymultifracs/structurefunction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 53ac51b..83e3130 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -123,6 +123,10 @@ class StructureFunction(MultiResolutionQuantityBase):
             self.intercept[ind_q] = intercept
 
     def _get_H(self):
+
+        if 2 not in self.q:
+            return None
+
         return (self.zeta[self.q == 2][0] / 2) - self.gamint
 
     def get_intercept(self):
-- 
2.43.0


From 133098203ec6c559e1b882b5c76d246d1b396fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 02/40] fix: StructureFunction keeps the documented values
 attribute

compute_hurst, and so Signal.hurst, read it and always raised AttributeError.
---
 pymultifracs/structurefunction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 83e3130..3f13897 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -67,6 +67,7 @@ class StructureFunction(MultiResolutionQuantityBase):
     j2: int
     weighted: bool
     j: np.array = field(init=False)
+    values: np.array = field(init=False)
     logvalues: np.array = field(init=False)
     zeta: np.array = field(init=False)
     H: np.array = field(init=False)
@@ -97,6 +98,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             values[:, ind_j, :] = s_j
 
+        self.values = values
         self.logvalues = np.log2(values)
 
     def _compute_zeta(self, mrq):
-- 
2.43.0


From e4c9ce6dd0df5f2d8d0e55643f8a3d0f2664e2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 03/40] fix: minimal analysis with a list of q, and without
 wavelet leaders

minimal=True raised with q=None or a list of q (compared as a list), and with
the default p_exp=None (no leaders).
---
 pymultifracs/mfa.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/mfa.py b/pymultifracs/mfa.py
index 697053c..949bc2b 100644
--- a/pymultifracs/mfa.py
+++ b/pymultifracs/mfa.py
@@ -154,6 +154,9 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     if q is None:
         q = [2]
 
+    if isinstance(q, list):
+        q = np.array(q)
+
     parameters = {
         'q': q,
         'n_cumul': n_cumul,
@@ -165,8 +168,11 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     dwt_struct = StructureFunction.from_dict({'mrq': wt_coefs, **parameters})
     dwt = MFractalVar(dwt_struct, None, None, None)
 
-    lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
-    lwt = MFractalVar(None, lwt_cumul, None, None)
+    if wt_leaders is not None:
+        lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
+        lwt = MFractalVar(None, lwt_cumul, None, None)
+    else:
+        lwt = None
 
     return MFractalData(dwt, lwt)
 
-- 
2.43.0


From 883d8725a0b54cf23f72cfde1d7c8d804f195bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 04/40] fix: p-leader analysis raised TypeError instead of
 warning when eta_p <= 0

---
 pymultifracs/wavelet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/wavelet.py b/pymultifracs/wavelet.py
index 661f6c9..5a67f37 100644
--- a/pymultifracs/wavelet.py
+++ b/pymultifracs/wavelet.py
@@ -52,7 +52,7 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
         warnings.warn(f"eta(p) = {eta_p} <= 0, p-Leaders correction was not\
                         applied. A smaller value of p (or larger value of\
                         gamint) should be selected.")
-        return wt_leaders
+        return wt_leaders, eta_p
 
     JJ = np.arange(1, max_level + 1)
     J1LF = 1
-- 
2.43.0


From a6bad10e8f5a86c4c3b19d682c439cb095b5da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 05/40] fix: one realisation with eta_p <= 0 does not change
 the p-leaders of others

The p-leader correction was skipped for every realisation as soon as one of
them had eta_p <= 0, so the results of a realisation depended on the others.
---
 pymultifracs/wavelet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymultifracs/wavelet.py b/pymultifracs/wavelet.py
index 5a67f37..09cb917 100644
--- a/pymultifracs/wavelet.py
+++ b/pymultifracs/wavelet.py
@@ -52,6 +52,8 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
         warnings.warn(f"eta(p) = {eta_p} <= 0, p-Leaders correction was not\
                         applied. A smaller value of p (or larger value of\
                         gamint) should be selected.")
+
+    if eta_p.max() <= 0:
         return wt_leaders, eta_p
 
     JJ = np.arange(1, max_level + 1)
@@ -65,6 +67,9 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
                        / (1 - np.power(2., -eta_p[:, None])))
     ZPJCorr = np.power(2, (-1.0 / p_exp) * zqhqcorr)
 
+    # The correction only makes sense for the realisations where eta_p > 0
+    ZPJCorr = np.where(eta_p[:, None] <= 0, 1., ZPJCorr)
+
     # ZPJCorr shape (n_rep, n_level)
 
     for ind_j, j in enumerate(JJ):
-- 
2.43.0


From 75ff5a4068900fb9e2538d1cbeafbcb58f4d7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 06/40] fix: bivariate analysis without wavelet leaders returns
 lwt=None

It raised UnboundLocalError with the default p_exp=None.
---
 pymultifracs/bivariate/bimfa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 7c983b1..0259264 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -38,6 +38,10 @@ def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
         lwt = MFractalBiVar(lwt_bisf, lwt_bicm)
 
+    else:
+
+        lwt = None
+
     return MFractalData(dwt, lwt)
 
 
-- 
2.43.0


From 0e727a03b0fd4aeb27b538a089d6604068713e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 07/40] fix: bivariate analysis with the default q1=None,
 q2=None, or with lists

The defaults raised TypeError, and lists of exponents IndexError.
---
 pymultifracs/bivariate/bimfa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 0259264..ff492e1 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -1,5 +1,7 @@
 from collections import namedtuple
 
+import numpy as np
+
 from ..mfa import MFractalData
 from ..wavelet import wavelet_analysis
 from .bivariate_cumulants import BiCumulants
@@ -12,6 +14,10 @@ def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
     j2 = min(WT1.j2_eff, WT2.j2_eff)
 
+    # In case no value of q is specified, use the ones needed by the coherence
+    q1, q2 = (np.array([0, 1, 2]) if q is None else np.asarray(q)
+              for q in (q1, q2))
+
     parameters = {
         'q1': q1,
         'q2': q2,
-- 
2.43.0


From 172f58e6b32959dff0e674b244feea964d314cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 08/40] fix: bivariate structure functions for exponents other
 than 0, 1 and 2

IndexError was raised unless both q1 and q2 contained 0, 1 and 2, which only
the coherence needs. It is None when it cannot be computed, like H.
---
 pymultifracs/bivariate/bivariate_structurefunction.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index e9b5169..260f83c 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -65,9 +65,13 @@ class BiStructureFunction(MultiResolutionQuantityBase):
                         np.nanmean(fast_power(np.abs(mrq1.values[j]), q1)
                                    * fast_power(np.abs(mrq2.values[j]), q2))
 
-        self.coherence = (values[self.q1 == 1, self.q2 == 1][0]
-                          / np.sqrt((values[self.q1 == 2, self.q2 == 0])
-                                    * (values[self.q1 == 0, self.q2 == 2])))[0]
+        if {0, 1, 2}.issubset(self.q1) and {0, 1, 2}.issubset(self.q2):
+            self.coherence = (values[self.q1 == 1, self.q2 == 1][0]
+                              / np.sqrt((values[self.q1 == 2, self.q2 == 0])
+                                        * (values[self.q1 == 0,
+                                                  self.q2 == 2])))[0]
+        else:
+            self.coherence = None
 
         self.logvalues = np.log2(abs_values)
 
-- 
2.43.0


From c4ed221cbc91855e6d0df6b938810dfe413e2fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 09/40] fix: Cholesky synthesis did not have the specified
 covariance

scipy.linalg.cholesky returns the upper factor U with cov = U^T U by default,
so U z had covariance U U^T.
---
 pymultifracs/simul/pzutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/pzutils.py b/pymultifracs/simul/pzutils.py
index 6f620d6..50bd86e 100644
--- a/pymultifracs/simul/pzutils.py
+++ b/pymultifracs/simul/pzutils.py
@@ -51,6 +51,6 @@ def gaussian_chol(cov, N, R, z=None):
     '''
     if z is None:
         z = np.random.randn(N, R)
-    L = spla.cholesky(spla.toeplitz(cov))
+    L = spla.cholesky(spla.toeplitz(cov), lower=True)
     x = L @ z
     return x
-- 
2.43.0


From 6cdf7ea8b0351c654aa7b12f123f48f76bdbdf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 10/40] fix: fgn ignored the initial noise z0 with the default
 method

mrw passes z0 to both of its Gaussian components; only the one without
fgn used it.
---
 pymultifracs/simul/fbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/fbm.py b/pymultifracs/simul/fbm.py
index 4921210..813614a 100644
--- a/pymultifracs/simul/fbm.py
+++ b/pymultifracs/simul/fbm.py
@@ -65,7 +65,7 @@ def fgn(shape, H, sigma=1, dt=None, method='cme', z0=None):
     # fbm = np.cumsum(x[:N, :], axis=0)
 
     if method == 'cme':
-        fgn = gaussian_cme(r, N, R)
+        fgn = gaussian_cme(r, N, R, z0)
     elif method == 'chol':
         fgn = gaussian_chol(r, N, R, z0)
     else:
-- 
2.43.0


From 3d0378594189432c229591650f17a4e977ce1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 11/40] fix: mrw with an unknown method raises ValueError, like
 fgn

It raised UnboundLocalError.
---
 pymultifracs/simul/mrw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index f70fc4d..5f0d9fc 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -173,6 +173,8 @@ def gaussian_w(N, R, L, lam, dt=1, method='cme', z0=None):
         w = gaussian_cme(cov, N, R, z0)
     elif method == 'chol':
         w = gaussian_chol(cov, N, R, z0)
+    else:
+        raise ValueError('Unknown synthesis method')
 
     return w
 
-- 
2.43.0


From e67e04009be76462b7238e974d5f4d617eccaa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 12/40] fix: skewed_mrw always raised ValueError

skewness_convolution expects a noise of length 2N; it was given 2N + 1.
---
 pymultifracs/simul/mrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 5f0d9fc..9454921 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -137,7 +137,7 @@ def skewed_mrw(shape, H, lam, L,  K0=1, alpha=1, sigma=1, dt=1, beta=1,
     w = w - np.mean(w, axis=0) - r * lam**2 * np.log(L / dt)
 
     # 2) fGn e
-    e = fgn((2*N + 1, R), H, sigma, dt)
+    e = fgn((2*N, R), H, sigma, dt)
 
     # 3) Correlate components
     past = skewness_convolution(e, K0, alpha, beta, dt)
-- 
2.43.0


From bf5d171d5911e75a42fa89dc6f08ebbef204af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 13/40] fix: estimate_beta raised IndexError when the band
 includes f = 0

Welch estimates start at f = 0, which is meant to be left out before taking
logarithms.
---
 pymultifracs/fractal_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index af1b8a4..2ea2afa 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -127,7 +127,7 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
     # Band-pass the PSD
 
     support = np.logical_and(freq_band[0] <= freq, freq <= freq_band[1])
-    freq = freq[support].reshape(-1, 1)
+    freq = freq[support]
     psd = psd[support]
 
 # Move this input sanitization to the megfractal package instead
@@ -137,6 +137,7 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
 
     # Log the values
     freq, psd = _log_psd(freq, psd, log)
+    freq = freq.reshape(-1, 1)
 
     # Fit ridge regressor
     # regressor = Ridge()
-- 
2.43.0


From 7ad8bc6b56d4bf673f993809a50299de303b3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 14/40] fix: plot_fractal always raised TypeError, formatting
 beta as a scalar

---
 pymultifracs/fractal_analysis.py | 2 +-
 pymultifracs/signal.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index 2ea2afa..f688429 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -59,7 +59,7 @@ def plot_fractal(signal, s_freq, log='log2', freq_band=(0.01, 2), n_moments=2,
     # Plot
     freq = [freq_fourier, freq_wavelet]
     psd = [psd_fourier, psd_wavelet]
-    legend = ['Fourier', 'Wavelet', f'Slope: {slope.beta:.2f}']
+    legend = ['Fourier', 'Wavelet', f'Slope: {slope.beta[0]:.2f}']
 
     log_plot(freq, psd, legend, slope=[(slope.freq, psd_slope)], log=log,
              lowpass_freq=lowpass_freq)
diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 53cde98..350f753 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -156,7 +156,7 @@ class Signal:
 
         log_plot([self.welch_psd.freq, self.wt_psd.freq],
                  [self.welch_psd.psd, self.wt_psd.psd],
-                 ['Fourier', 'Wavelet', f'Slope: {self.fractal.beta:.2f}'],
+                 ['Fourier', 'Wavelet', f'Slope: {self.fractal.beta[0]:.2f}'],
                  slope=[(self.fractal.freq, psd_slope)],
                  log=self.log)
 
-- 
2.43.0


From 41ccebe524ecb876609a9a5f8addee55e5bf3bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 15/40] fix: frequencies of welch_estimation for an odd n_fft

The last bin is then below the Nyquist frequency.
---
 pymultifracs/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 174c06f..9879950 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -207,7 +207,7 @@ def welch_estimation(signal, fs, n_fft=4096, seg_size=None):
         n_fft = seg_size
 
     # Frequency
-    freq = fs * np.linspace(0, 0.5, n_fft // 2 + 1)
+    freq = fs * np.arange(n_fft // 2 + 1) / n_fft
 
     # PSD
     _, psd = welch(signal,
-- 
2.43.0


From 4262527c8b888a3bd98626c3338a742b50c463b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 16/40] fix: StructureFunction.plot ran out of axes when q=0 is
 left out

The skipped q=0 still took an axis: plotting q=[-2, -1, 0, 1, 2] raised
IndexError with the default number of rows.
---
 pymultifracs/structurefunction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 3f13897..a6cceda 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -145,8 +145,8 @@ class StructureFunction(MultiResolutionQuantityBase):
         Plots the structure functions.
         """
 
-        nrow = min(nrow, len(self.q))
         nq = len(self.q) + (-1 if 0.0 in self.q and ignore_q0 else 0)
+        nrow = max(1, min(nrow, nq))
 
         if nq > 1:
             plot_dim_1 = nrow
@@ -166,6 +166,7 @@ class StructureFunction(MultiResolutionQuantityBase):
                      r' - structure functions $\log_2(S(j,q))$')
 
         x = self.j
+        ind_ax = 0
         for ind_q, q in enumerate(self.q):
 
             if q == 0.0 and ignore_q0:
@@ -173,7 +174,8 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             y = self.logvalues[ind_q, :]
 
-            ax = axes[ind_q % nrow][ind_q // nrow]
+            ax = axes[ind_ax % nrow][ind_ax // nrow]
+            ind_ax += 1
             ax.plot(x, y, 'r--.')
             ax.set_xlabel('j')
             ax.set_ylabel(f'q = {q:.3f}')
@@ -192,7 +194,7 @@ class StructureFunction(MultiResolutionQuantityBase):
                         linestyle='-', linewidth=2, label=legend)
                 ax.legend()
 
-        for j in range(ind_q + 1, len(axes.flat)):
+        for j in range(ind_ax, len(axes.flat)):
             fig.delaxes(axes[j % nrow][j // nrow])
         plt.draw()
 
-- 
2.43.0


From c28742f1f5ba1061d101c8ba961216c09e3606a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 17/40] fix: plot_hmin always raised ValueError

It did not ask for the values to plot, and formatted hmin as a scalar.
---
 pymultifracs/estimation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/estimation.py b/pymultifracs/estimation.py
index a4f7b89..9157111 100644
--- a/pymultifracs/estimation.py
+++ b/pymultifracs/estimation.py
@@ -52,7 +52,8 @@ def estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn=True,
 
 def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
-    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn)
+    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn,
+                                       return_y=True)
     x = np.arange(j1, j2_eff+1)
 
     # plot log_sup_coeffs
@@ -68,9 +69,9 @@ def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
     # plot regression line
     reg_x = [j1, j2_eff]
-    reg_y = map(lambda x: hmin*x + intercept, reg_x)
+    reg_y = [hmin*x + intercept for x in reg_x]
 
-    legend = f'$h_\\mathrm{min}$ = {hmin:.5f}'
+    legend = f'$h_\\mathrm{{min}}$ = {hmin[0]:.5f}'
     plt.plot(reg_x, reg_y, color='k', linestyle='-', linewidth=2, label=legend)
     plt.legend()
     plt.draw()
-- 
2.43.0


From b4d34d8df9b624ea5060a76ccdddaf8746e2db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 18/40] fix: plot_legendre raised TypeError with matplotlib >=
 3.6

Figure.gca no longer takes a projection.
---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 6190d66..2c724b9 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -245,7 +245,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         cmap = cmap or plt.cm.coolwarm  # pylint: disable=no-member
 
         fig = plt.figure(figsize=(10, 10))
-        ax = fig.gca(projection='3d')
+        ax = fig.add_subplot(projection='3d')
 
         h_x = h[L.max(axis=0) >= 0]
         h_y = h[L.max(axis=1) >= 0]
-- 
2.43.0


From c75500ca31e40faaae72706b2ee23d11db8f6ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 19/40] fix: Signal.estimate_wavelet_psd overwrote the wavelet
 analysis parameters

It stored its parameters in wt_param instead of wt_psd_param, so that hmin,
hurst and mf_analysis failed after it, and the PSD was never reused.
---
 pymultifracs/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 350f753..0133174 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -113,7 +113,7 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_param = param
+            self.wt_psd_param = param
 
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
-- 
2.43.0


From 0806d0b29ca1065dd3e4b00f020380c6901b34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 20/40] fix: comparing parameters of Signal with other numbers
 of exponents

same_params raised ValueError for arrays of q of other lengths, and for an
array after a list.
---
 pymultifracs/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 0133174..e53bb6a 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -39,9 +39,9 @@ def same_params(old_params, new_params):
         new_param = getattr(new_params, param)
 
         if (isinstance(old_param, np.ndarray)
-           or isinstance(new_params, np.ndarray)):
+           or isinstance(new_param, np.ndarray)):
 
-            same = (old_param == new_param).all()
+            same = np.array_equal(old_param, new_param)
 
         else:
 
-- 
2.43.0


From 71fa668e4922da283dee700098ff0c8e2523fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 21/40] fix: Signal.mf_analysis always raised

It passed p_exp and eta_p, which mfa.mf_analysis does not take, and on
reusing a stored result returned an unbound variable.
---
 pymultifracs/signal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index e53bb6a..28622dc 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -234,8 +234,9 @@ class Signal:
             self.mf_param = new_param
 
             multi_fractal = mf_analysis(
-                **self.wt_transform._asdict(),
-                p_exp=self.wt_param.p_exp,
+                wt_coefs=self.wt_transform.wt_coefs,
+                wt_leaders=self.wt_transform.wt_leaders,
+                j2_eff=self.wt_transform.j2_eff,
                 j1=self.wt_param.j1,
                 weighted=self.wt_param.weighted,
                 q=q,
@@ -245,7 +246,9 @@ class Signal:
             if save:
                 self.multi_fractal = multi_fractal
 
-        return multi_fractal
+            return multi_fractal
+
+        return self.multi_fractal
 
     def hurst(self):
         # TODO store Hurst exponent
-- 
2.43.0


From 0409df3eef62c89ef9f5e092fd24432be7fa82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 22/40] fix: Signal.mf_analysis after a call with save=False
 returned a stale result

The parameters of the unsaved call were stored as those of the saved result.
---
 pymultifracs/signal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 28622dc..5235b46 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -231,8 +231,6 @@ class Signal:
         if self.multi_fractal is None or not(same_params(self.mf_param,
                                                          new_param)):
 
-            self.mf_param = new_param
-
             multi_fractal = mf_analysis(
                 wt_coefs=self.wt_transform.wt_coefs,
                 wt_leaders=self.wt_transform.wt_leaders,
@@ -244,6 +242,7 @@ class Signal:
             )
 
             if save:
+                self.mf_param = new_param
                 self.multi_fractal = multi_fractal
 
             return multi_fractal
-- 
2.43.0


From 34ec505a9c54f5ded49136290cb140086da4a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 23/40] fix: Signal.mf_analysis returned results of an earlier
 wavelet analysis

A stored result was reused as long as q and n_cumul were the same, even when
the wavelet transform had been computed again with other parameters.
---
 pymultifracs/signal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 5235b46..224cb9b 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -179,6 +179,10 @@ class Signal:
             self.wt_transform = wavelet_analysis(self.data,
                                                  **self.wt_param._asdict())
 
+            # Computed from the previous wavelet transform
+            self.mf_param = None
+            self.multi_fractal = None
+
         return self.wt_transform
 
     def wavelet_analysis(self, j1, j2, normalization, gamint, weighted,
-- 
2.43.0


From b4100cfbc3e9e1514b505d7abd7e8503d97371ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 24/40] fix: plot_legendre passed edgecolors twice to
 matplotlib

plot_surface forwards its own edgecolor along with edgecolors: TypeError.
---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 2c724b9..5ed65bd 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -264,7 +264,7 @@ class BiCumulants(MultiResolutionQuantityBase):
                                vmin=0, vmax=1,
                                rstride=1, cstride=1,
                                facecolors=colors, shade=False, linestyle='-',
-                               edgecolors='black', zorder=1)
+                               edgecolor='black', zorder=1)
         ax.set_zlim(0, 1)
         ax.view_init(elev=45)
 
-- 
2.43.0


From 6e6c4b2fed60ce137d72a139691cc3147459ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 25/40] fix: mrw2D log-weights had a variance N**2 times too
 small

---
 pymultifracs/simul/mrw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 9454921..1592551 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -262,7 +262,9 @@ def mrw2D(shape, H, lam, L,  sigma=1):
     L = np.fft.fft2(corr)
 
     z1 = np.random.randn(N, N, R) + 1j * np.random.randn(N, N, R)
-    w = np.exp(np.real(np.fft.ifft2(z1 * np.sqrt(L[..., None]), axes=(0, 1))))
+    # ifft2 divides by N ** 2, the square root of the covariance only by N
+    w = np.exp(N * np.real(np.fft.ifft2(z1 * np.sqrt(L[..., None]),
+                                        axes=(0, 1))))
 
     # Increment process:
     X = np.random.randn(N, N, R) * w
-- 
2.43.0


From bf39444075be589faa861fa003cd53b2cee33bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 26/40] fix: fgn with H=0 was identically zero

---
 pymultifracs/simul/fbm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/simul/fbm.py b/pymultifracs/simul/fbm.py
index 813614a..1000f59 100644
--- a/pymultifracs/simul/fbm.py
+++ b/pymultifracs/simul/fbm.py
@@ -44,9 +44,9 @@ def fgn(shape, H, sigma=1, dt=None, method='cme', z0=None):
         dt = 1 / N
 
     # Create covariance of fGn
-    n = np.arange(N)
-    r = dt**(2*H) * sigma**2 / 2 * (np.abs(n+1)**(2*H) + np.abs(n-1)**(2*H)
-                                    - 2 * np.abs(n)**(2*H))
+    n = np.arange(-1, N+1)
+    v = np.where(n == 0, 0., np.abs(n)**(2*H))   # 0 for H = 0 as well: not 0**0
+    r = dt**(2*H) * sigma**2 / 2 * (v[2:] + v[:-2] - 2 * v[1:-1])
     # # Circulant matrix embedding: fft of periodized autocovariance:
     # r = np.concatenate((r, np.flip(r[1:-1])), axis=0)
     # L = np.fft.fft(r)[:, None]
-- 
2.43.0


From 12e7acf6daa0ee8cc97da5ed69855b5e9e7f3b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 27/40] fix: Signal.mf_analysis was stale after the caller
 modified its own q

---
 pymultifracs/signal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 224cb9b..9e80777 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -3,6 +3,7 @@ Authors: Merlin Dumeur <merlin@dumeur.net>
 """
 from dataclasses import dataclass
 from collections import namedtuple
+from copy import copy
 
 import numpy as np
 
@@ -230,6 +231,9 @@ class Signal:
 
         self._check_wt_transform()
 
+        # The caller may modify its own q later on
+        q = copy(q)
+
         new_param = MFParameters(q, n_cumul)
 
         if self.multi_fractal is None or not(same_params(self.mf_param,
-- 
2.43.0


From ec1bc959d075eba60f769785ddf4e6240357a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 28/40] fix: mrw2D ignored sigma

---
 pymultifracs/simul/mrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 1592551..d89ab2b 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -267,7 +267,7 @@ def mrw2D(shape, H, lam, L,  sigma=1):
                                         axes=(0, 1))))
 
     # Increment process:
-    X = np.random.randn(N, N, R) * w
+    X = sigma * np.random.randn(N, N, R) * w
 
     # Fractional integration to produce motion:
     BX = fract_int_2d(X, H + 1)
-- 
2.43.0


From 1ac84059f83ce702deed52c1afcf90e2a6f43201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 29/40] fix: scale2freq raised ValueError for arrays of integer
 scales

---
 pymultifracs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index 2f9dcd9..3ba564d 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -11,7 +11,7 @@ import numpy as np
 
 
 def scale2freq(scale, sfreq):
-    return (3/4) * sfreq * (2 ** -scale)
+    return (3/4) * sfreq * (2. ** -scale)
 
 
 def freq2scale(freq, sfreq):
-- 
2.43.0


From 05ca8d65fda9999f1bf4686fb1fbc902eda57373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 30/40] fix: BiCumulants.plot labelled c11 with the slope in
 base 2, not the log-cumulant

---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 5ed65bd..2d63177 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -187,7 +187,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         plt.plot(j_support, ((j_support * self.slope[1, 1])
                              + self.intercept[1, 1]),
                  **slope_param,
-                 label=f'c11: {self.slope[1, 1]:.2f}')
+                 label=f'c11: {self.log_cumulants[1, 1]:.2f}')
         plt.legend()
         plt.ylabel('$C11$(j)', size='large')
         plt.xlabel('j', size='large')
-- 
2.43.0


From e43202e37f971d2a8a57c0c28f685095be153b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 31/40] fix: BiCumulants.plot raised IndexError with one
 cumulant

---
 pymultifracs/bivariate/bivariate_cumulants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 2d63177..a334fd0 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -142,7 +142,8 @@ class BiCumulants(MultiResolutionQuantityBase):
 
     def plot(self):
 
-        fig_m, ax = plt.subplots(self.n_cumul, 2, sharex=True, figsize=(12, 7))
+        fig_m, ax = plt.subplots(self.n_cumul, 2, sharex=True, figsize=(12, 7),
+                                 squeeze=False)
 
         j_support = np.arange(self.j1, self.j2 + 1)
 
-- 
2.43.0


From 85efb97ea2bc9ebc31c27eaeae5b3f3a5ddeaa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 32/40] fix: plot_legendre ignored h_support

---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index a334fd0..2e6bd2b 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -232,7 +232,7 @@ class BiCumulants(MultiResolutionQuantityBase):
     def plot_legendre(self, h_support=(0, 1.5), resolution=30,
                       figsize=(10, 10), cmap=None):
 
-        h, L = self.compute_legendre(h_support=(0, 1.5),
+        h, L = self.compute_legendre(h_support=h_support,
                                      resolution=200)
 
         h_x = h[L.max(axis=0) >= 0]
-- 
2.43.0


From 3df5c481d30b1e3505f72fc3e3c63fae752bd625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 33/40] fix: plot_legendre ignored figsize

---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 2e6bd2b..ece3312 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -245,7 +245,7 @@ class BiCumulants(MultiResolutionQuantityBase):
 
         cmap = cmap or plt.cm.coolwarm  # pylint: disable=no-member
 
-        fig = plt.figure(figsize=(10, 10))
+        fig = plt.figure(figsize=figsize)
         ax = fig.add_subplot(projection='3d')
 
         h_x = h[L.max(axis=0) >= 0]
-- 
2.43.0


From 6d964e1f3aa73370b603226f6b9ddd2820159547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 34/40] fix: BiStructureFunction.plot raised with a single
 exponent

---
 pymultifracs/bivariate/bivariate_structurefunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index 260f83c..fe4ced5 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -103,6 +103,7 @@ class BiStructureFunction(MultiResolutionQuantityBase):
     def plot(self):
 
         fig, ax = plt.subplots(len(self.q1), len(self.q2), sharex=True,
+                               squeeze=False,
                                figsize=(len(self.q1) * 5 + 2,
                                         len(self.q2) * 3 + 2))
 
-- 
2.43.0


From 7b678d193a30021820e33415645430c4f1573e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 35/40] fix: Signal answered with an earlier result after a
 refused request

---
 pymultifracs/signal.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 9e80777..c3f4ac3 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -114,12 +114,12 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_psd_param = param
-
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
                                              j2=j2)
 
+            self.wt_psd_param = param
+
         return self.wt_psd
 
     def estimate_welch_psd(self, n_fft=4096, seg_size=None):
@@ -128,12 +128,12 @@ class Signal:
 
         if self.welch_psd is None or self.welch_param != param:
 
-            self.welch_param = param
-
             self.welch_psd = welch_estimation(self.data, self.fs,
                                               n_fft=n_fft,
                                               seg_size=seg_size)
 
+            self.welch_param = param
+
         return self.welch_psd
 
     def plot_psd(self, n_fft=4096, seg_size=None, n_moments=2, j2=None):
@@ -176,9 +176,9 @@ class Signal:
 
         if self.wt_param is None or self.wt_param != new_param:
 
-            self.wt_param = new_param
             self.wt_transform = wavelet_analysis(self.data,
-                                                 **self.wt_param._asdict())
+                                                 **new_param._asdict())
+            self.wt_param = new_param
 
             # Computed from the previous wavelet transform
             self.mf_param = None
-- 
2.43.0


From 937afe3626a3333ac37170e3c21b6aadb51deff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 36/40] fix: plot_legendre_pv labelled the axes of h1 and h2
 the wrong way round

---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index ece3312..1d8b80e 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -307,6 +307,6 @@ class BiCumulants(MultiResolutionQuantityBase):
 
         p = pv.Plotter()
         p.add_mesh(clipped, scalars=clipped.points[:, 2])
-        p.show_grid(xlabel='h1', ylabel='h2', zlabel='L(h1, h2)',
+        p.show_grid(xlabel='h2', ylabel='h1', zlabel='L(h1, h2)',
                     bounds=bounds)
         p.show(use_ipyvtk=use_ipyvtk)
-- 
2.43.0


From dbfbb74ba9674c6ebf1bcb09efd8dfb67d82a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 37/40] fix: log_plot with frequency ticks raised for spectra
 that contain the null frequency

---
 pymultifracs/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 9879950..5fcfd1c 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -155,7 +155,7 @@ def log_plot(freq_list, psd_list, legend=None, fmt=None, color=None, slope=[],
         if xticks is not None and i == len(freq_list) - 1:
             ax.set_xticks(log_freq)
             ax.set_xticklabels([f'{fr:.2f}' if fr < 1 else f'{fr:.1f}'
-                                for fr in freq])
+                                for fr in freq if fr != 0])
             # plt.xticks(log_freq, [f'{fr:.2f}' for fr in freq])
 
     if color is None:
-- 
2.43.0


From 8ebad5afb316be7a6d57d2d5aa27ce45532e8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:47 +0000
Subject: [PATCH 38/40] fix: BiCumulants of leaders raised IndexError with a
 single cumulant

---
 pymultifracs/bivariate/bivariate_cumulants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 1d8b80e..8905bab 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -133,7 +133,8 @@ class BiCumulants(MultiResolutionQuantityBase):
 
     def _compute_rho(self):
 
-        if self.formalism == 'wavelet coef':
+        # C11, C20 and C02 are not available with less than two cumulants
+        if self.formalism == 'wavelet coef' or self.n_cumul < 2:
             self.RHO_MF = None
             self.rho_mf = None
         else:
-- 
2.43.0


From 970629b29264aeb15204d6c5d5a7511d39a8efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:31 +0000
Subject: [PATCH 39/40] fix: StructureFunction did not set the documented
 attribute nj

---
 pymultifracs/structurefunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index a6cceda..3710c6d 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -77,6 +77,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
         self.formalism = mrq.formalism
         self.gamint = mrq.gamint
+        self.nj = mrq.nj
         self.nrep = mrq.nrep
         self.j = np.array(list(mrq.values))
 
-- 
2.43.0


From 70160f764fc3239c75e2e1f9edd52aa185c55c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:43 +0000
Subject: [PATCH 40/40] fix: MultiResolutionQuantity had no n_scales, a
 documented attribute

---
 pymultifracs/multiresquantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymultifracs/multiresquantity.py b/pymultifracs/multiresquantity.py
index 3c45421..36f4660 100644
--- a/pymultifracs/multiresquantity.py
+++ b/pymultifracs/multiresquantity.py
@@ -115,4 +115,7 @@ class MultiResolutionQuantity(MultiResolutionQuantityBase):
             if len(self.values) > 0:
                 return self.values[[*self.values][0]].shape[1]
 
+        if name == 'n_scales':
+            return len(self.values)
+
         return self.__getattribute__(name)
-- 
2.43.0

