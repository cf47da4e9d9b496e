From 5214c9f87d7193847e47b7f3cfec851873720538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 01/10] fix: make all public functions usable when torch is not
 installed

The placeholder for the torch backend lacked most of the function names that
the dispatching code looks up, so that sdr_pit_loss and all the si_* functions
raised AttributeError on numpy arrays in a numpy-only environment.
---
 fast_bss_eval/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fast_bss_eval/__init__.py b/fast_bss_eval/__init__.py
index 5a62d0d..32f2859 100644
--- a/fast_bss_eval/__init__.py
+++ b/fast_bss_eval/__init__.py
@@ -292,6 +292,11 @@ except ImportError:
         bss_eval_sources = None
         sdr = None
         sdr_loss = None
+        sdr_pit_loss = None
+        si_bss_eval_sources = None
+        si_sdr = None
+        si_sdr_loss = None
+        si_sdr_pit_loss = None
 
 
 from . import numpy as numpy
-- 
2.43.0


From 597cd0b6aba753cd3fe0568d5df7315e5386b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 02/10] fix: solve the permutation when all metrics are
 infinite

The replacement value for infinite entries was derived from the finite ones,
and failed with an unrelated error when there are none, e.g., for a single
source whose SIR is infinite by definition, or for a silent estimate.
---
 fast_bss_eval/numpy/helpers.py | 5 +++--
 fast_bss_eval/torch/helpers.py | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 0519398..af67b3d 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -133,8 +133,9 @@ def _linear_sum_assignment_with_inf(
     if min_inf or max_inf:
         cost_matrix = cost_matrix.copy()
         values = cost_matrix[~np.isinf(cost_matrix)]
-        m = values.min()
-        M = values.max()
+        # when all entries are infinite, all the assignments are equivalent
+        m = values.min() if values.size > 0 else 0.0
+        M = values.max() if values.size > 0 else 0.0
         n = min(cost_matrix.shape)
         # strictly positive constant even when added
         # to elements of the cost matrix
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 6e32e05..ed24e6b 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -139,6 +139,9 @@ def _linear_sum_assignment_with_inf(
         if min_inf or max_inf:
             cost_matrix = cost_matrix.clone()
             values = cost_matrix[~torch.isinf(cost_matrix)]
+            if values.numel() == 0:
+                # when all entries are infinite, all the assignments are equivalent
+                values = cost_matrix.new_zeros(1)
             m = values.min()
             M = values.max()
             n = min(cost_matrix.shape)
-- 
2.43.0


From 726b091c97d17b7e579d86c13e2f78cc2ecb3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 03/10] fix: honor the upper limit of clamp_db in single
 precision

1 - eps is rounded to 1 in float32 for clamp_db larger than about 72 dB and
infinite values were returned.
---
 fast_bss_eval/numpy/helpers.py | 4 +++-
 fast_bss_eval/torch/helpers.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index af67b3d..eaf1009 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -63,7 +63,9 @@ def _coherence_to_neg_sdr(
         eps = 0.0
     coh = clamp(coh, min=eps, max=1 - eps)
 
-    ratio = (1 - coh) / coh
+    # the upper limit 1 - eps may not be representable in single precision,
+    # so that the numerator also has to be clamped
+    ratio = clamp(1 - coh, min=eps) / coh
 
     # apply the SDR mapping
     return 10.0 * np.log10(ratio)
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index ed24e6b..6d98376 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -57,7 +57,9 @@ def _coherence_to_neg_sdr(
         eps = 0.0
     coh = torch.clamp(coh, min=eps, max=1 - eps)
 
-    ratio = (1 - coh) / coh
+    # the upper limit 1 - eps may not be representable in single precision,
+    # so that the numerator also has to be clamped
+    ratio = torch.clamp(1 - coh, min=eps) / coh
 
     # apply the SDR mapping
     return 10.0 * torch.log10(ratio)
-- 
2.43.0


From 88d98f853a17afa130aa2ad2ebd7bc64e88dbba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 04/10] fix: preserve single precision with use_cg_iter and
 load_diag in numpy

float32 inputs yielded float64 metrics with the iterative solver, and for the
SIR and SAR with load_diag and filter_length=1.
---
 fast_bss_eval/numpy/cgd.py     | 3 +++
 fast_bss_eval/numpy/metrics.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/fast_bss_eval/numpy/cgd.py b/fast_bss_eval/numpy/cgd.py
index c0df900..708cfce 100644
--- a/fast_bss_eval/numpy/cgd.py
+++ b/fast_bss_eval/numpy/cgd.py
@@ -354,6 +354,9 @@ def conjugate_gradient(
         if x_true is not None:
             errors.append(np.mean(np.linalg.norm(x - x_true, axis=-2)))
 
+    # numpy.fft always computes in double precision
+    x = x.astype(b.dtype, copy=False)
+
     if add_axis:
         x = x[..., 0]
 
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index ac9dcd5..d46e50d 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -65,7 +65,7 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = np.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + np.eye(acm.shape[-1]) * load_diag
+            acm = acm + np.eye(acm.shape[-1], dtype=acm.dtype) * load_diag
         sol = np.linalg.solve(acm, xcorr)
         coh_sar = np.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From 1226ad25dcaa0c8000580263c5bb79f1a0552d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 05/10] fix: use the dtype and device of the input for the
 torch constants

These were created with the default dtype (and device), so that float32 inputs
failed when the default dtype is float64, with use_cg_iter or load_diag.
---
 fast_bss_eval/torch/cgd.py     | 4 ++--
 fast_bss_eval/torch/metrics.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/fast_bss_eval/torch/cgd.py b/fast_bss_eval/torch/cgd.py
index 80e10d1..0a91808 100644
--- a/fast_bss_eval/torch/cgd.py
+++ b/fast_bss_eval/torch/cgd.py
@@ -35,7 +35,7 @@ def optimal_symmetric_circulant_precond_column(
     Froebenius norm
     """
     n = col_toeplitz.shape[-1]
-    b = torch.arange(1, n, device=col_toeplitz.device) / float(n)
+    b = torch.arange(1, n, dtype=col_toeplitz.dtype, device=col_toeplitz.device) / n
     w = col_toeplitz[..., 1:] * b.flip(dims=(-1,))
     col_circ = torch.cat((col_toeplitz[..., :1], w + w.flip(dims=(-1,))), dim=-1)
     return col_circ
@@ -63,7 +63,7 @@ def optimal_nonsymmetric_circulant_precond_column(
     if n is None:
         n = (r.shape[-1] + 1) // 2
 
-    b = torch.arange(1, n, device=r.device) / float(n)
+    b = torch.arange(1, n, dtype=r.dtype, device=r.device) / n
 
     # s2 = r[..., 1:n]
     # s1 = r[..., -n + 1 :]
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 003e274..b0db775 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -60,7 +60,8 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = torch.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + torch.eye(acm.shape[-1]) * load_diag
+            eye = torch.eye(acm.shape[-1], dtype=acm.dtype, device=acm.device)
+            acm = acm + eye * load_diag
         sol = solve(acm, xcorr)
         coh_sar = torch.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From ab573f7b2944833b20e6e4ae34d16d331044edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 06/10] fix: avoid circular aliasing when the filter is longer
 than the signals

The FFT was only long enough for filters up to the length of the signals, and
the correlations wrapped around for longer ones. With the default filter_length
of 512, signals of 256 samples all had an SDR of about 150 dB.
---
 fast_bss_eval/numpy/metrics.py | 4 ++--
 fast_bss_eval/torch/metrics.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index d46e50d..9b4339f 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -113,7 +113,7 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
@@ -163,7 +163,7 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index b0db775..f8103f0 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -109,7 +109,7 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
@@ -160,7 +160,7 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
-- 
2.43.0


From fc04d0c43159df0ac3289602382710a7219da17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 07/10] fix: apply load_diag to the SDR when filter_length is
 one

The option was silently ignored by sdr, sdr_loss and sdr_pit_loss. In
bss_eval_sources it was applied to the SAR only, so that the SAR could be less
than the SDR, and the SIR infinite.
---
 fast_bss_eval/numpy/metrics.py | 4 +++-
 fast_bss_eval/torch/metrics.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 9b4339f..6757da7 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -61,6 +61,8 @@ def square_cosine_metrics_length_one_filter(
     else:
         coh_sdr = np.einsum("...n,...n->...", ref, est)
     coh_sdr = np.square(coh_sdr)
+    if load_diag is not None:
+        coh_sdr = coh_sdr / (1.0 + load_diag)
 
     if with_coh_sar:
         acm = np.einsum("...cn,...dn->...cd", ref, ref)
@@ -240,7 +242,7 @@ def sdr_loss(
             ref,
             est,
             zero_mean=zero_mean,
-            load_diag=None,
+            load_diag=load_diag,
             pairwise=pairwise,
             with_coh_sar=False,
         )
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index f8103f0..dfde32d 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -56,6 +56,8 @@ def square_cosine_metrics_length_one_filter(
     else:
         coh_sdr = torch.einsum("...n,...n->...", ref, est)
     coh_sdr = coh_sdr**2
+    if load_diag is not None:
+        coh_sdr = coh_sdr / (1.0 + load_diag)
 
     if with_coh_sar:
         acm = torch.einsum("...cn,...dn->...cd", ref, ref)
@@ -237,7 +239,7 @@ def sdr_loss(
             ref,
             est,
             zero_mean=zero_mean,
-            load_diag=None,
+            load_diag=load_diag,
             pairwise=pairwise,
             with_coh_sar=False,
         )
-- 
2.43.0


From 1a103af5563f8e7e57f2aadf9be05ec6e52f2165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 08/10] fix: remove a stray print from the torch permutation
 solver

---
 fast_bss_eval/torch/helpers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 6d98376..d92b43e 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -135,7 +135,6 @@ def _linear_sum_assignment_with_inf(
             max_inf = torch.isinf(torch.clamp(cost_matrix, min=0.0)).any()
 
         if min_inf and max_inf:
-            print(cost_matrix)
             raise ValueError("matrix contains both inf and -inf")
 
         if min_inf or max_inf:
-- 
2.43.0


From 4e179d80c9bb41149dde431cdb47f476b57f33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 09/10] fix: support numpy 2 when the metrics are not computed
 pairwise

numpy.linalg.solve has become strict about the right-hand side, and sdr_loss
and bss_eval_sources(compute_permutation=False) failed.
---
 fast_bss_eval/numpy/linalg.py  | 13 +++++++++++++
 fast_bss_eval/numpy/metrics.py | 10 +++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/fast_bss_eval/numpy/linalg.py b/fast_bss_eval/numpy/linalg.py
index f12d6a2..556616e 100644
--- a/fast_bss_eval/numpy/linalg.py
+++ b/fast_bss_eval/numpy/linalg.py
@@ -39,6 +39,19 @@ def toeplitz(x):
     return T
 
 
+def solve(A, b):
+    """
+    solve for a batch of either vectors or matrices on the right-hand side
+
+    (from version 2, numpy.linalg.solve takes b with more than one dimension as
+    a batch of matrices)
+    """
+    if b.ndim == A.ndim - 1:
+        return np.linalg.solve(A, b[..., None])[..., 0]
+    else:
+        return np.linalg.solve(A, b)
+
+
 def block_toeplitz(x, n=None):
     """
     Create a block matrix where the blocks have a Toeplitz structure
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 6757da7..78f3223 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -31,7 +31,7 @@ from .helpers import (
     _remove_mean,
     _solve_permutation,
 )
-from .linalg import toeplitz, block_toeplitz
+from .linalg import toeplitz, block_toeplitz, solve
 
 
 def square_cosine_metrics_length_one_filter(
@@ -68,7 +68,7 @@ def square_cosine_metrics_length_one_filter(
         acm = np.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
             acm = acm + np.eye(acm.shape[-1], dtype=acm.dtype) * load_diag
-        sol = np.linalg.solve(acm, xcorr)
+        sol = solve(acm, xcorr)
         coh_sar = np.einsum("...lc,...lc->...c", xcorr, sol)
 
         if pairwise:
@@ -269,7 +269,7 @@ def sdr_loss(
         if use_cg_iter is None:
             # regular matrix solver
             R_mat = toeplitz(acf)
-            sol = np.linalg.solve(R_mat, xcorr)
+            sol = solve(R_mat, xcorr)
         else:
             # use preconditioned conjugate gradient
             sol = toeplitz_conjugate_gradient(acf, xcorr, n_iter=use_cg_iter)
@@ -544,7 +544,7 @@ def square_cosine_metrics(
     if use_cg_iter is None:
         # regular matrix solver
         R_mat = toeplitz(acf_sdr)
-        sol = np.linalg.solve(R_mat, xcorr_sdr)
+        sol = solve(R_mat, xcorr_sdr)
     else:
         # use preconditioned conjugate gradient
         sol = toeplitz_conjugate_gradient(acf_sdr, xcorr_sdr, n_iter=use_cg_iter)
@@ -559,7 +559,7 @@ def square_cosine_metrics(
     xcorr = xcorr.reshape(xcorr.shape[:-3] + (-1,) + xcorr.shape[-1:])
     if use_cg_iter is None:
         R_mat = block_toeplitz(acf)
-        sol = np.linalg.solve(R_mat, xcorr)
+        sol = solve(R_mat, xcorr)
     else:
         if pairwise:
             x0 = sol
-- 
2.43.0


From 8112cb075715d2a808a56eb703ed225f0bda00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:24 +0000
Subject: [PATCH 10/10] fix: numpy scalars as clamp_db or load_diag do not
 promote single-precision scores

---
 fast_bss_eval/numpy/helpers.py | 3 ++-
 fast_bss_eval/numpy/metrics.py | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index eaf1009..c724420 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -47,7 +47,8 @@ def _normalize(
 
 
 def _db_clamp_eps(db_max: float) -> float:
-    e = 10.0 ** (-db_max / 10.0)
+    # a numpy scalar would promote the precision of the scores with numpy>=2
+    e = 10.0 ** (-float(db_max) / 10.0)
     eps = e / (1.0 + e)
     return eps
 
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 78f3223..24e4d32 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -46,6 +46,10 @@ def square_cosine_metrics_length_one_filter(
     Special case of computing cosine metrics with filter length of 1
     """
 
+    if load_diag is not None:
+        # a numpy scalar would promote the precision of the scores with numpy>=2
+        load_diag = float(load_diag)
+
     if zero_mean:
         ref = _remove_mean(ref, axis=-1)
         est = _remove_mean(est, axis=-1)
-- 
2.43.0

