From 5d80a4a694840111d21e9a37c544acbe537f5cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 01/56] fix: icwt added `x_mean` twice with 'log-piecewise'
 scales

---
 ssqueezepy/_cwt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index fc1a663..b05b6c9 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -420,11 +420,12 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
     # `nv` must be left unspecified so it's inferred automatically from `scales`
     # in `process_scales` for each piecewise case
     if scaletype == 'log-piecewise':
-        kw = dict(wavelet=wavelet, one_int=one_int, x_len=x_len, x_mean=x_mean,
+        # `x_mean` is added only once, by the first call
+        kw = dict(wavelet=wavelet, one_int=one_int, x_len=x_len,
                   padtype=padtype, rpadded=rpadded, l1_norm=l1_norm)
 
         idx = logscale_transition_idx(scales)
-        x  = icwt(Wx[..., :idx, :], scales=scales[:idx], **kw)
+        x  = icwt(Wx[..., :idx, :], scales=scales[:idx], x_mean=x_mean, **kw)
         x += icwt(Wx[..., idx:, :], scales=scales[idx:], **kw)
         return x
     ##########################################################################
-- 
2.43.0


From 8116993b38f194f19572d3ba14c39409385a655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 02/56] fix: icwt failed to add per-input `x_mean` to batched
 `Wx`

---
 ssqueezepy/_cwt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index b05b6c9..20ecec2 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -450,7 +450,8 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
         # unclear why the `pi/4` here but it improves inversion
         x *= (2 / Cpsi) * np.pi / 4
 
-    x += x_mean  # CWT doesn't capture mean (infinite scale)
+    # CWT doesn't capture mean (infinite scale)
+    x += np.reshape(x_mean, (-1, 1)) if Wx.ndim == 3 else x_mean
     return x
 
 
-- 
2.43.0


From 98233e00876c4fd136ee57dd91bc6b86397fe0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 03/56] fix: extract_ridges didn't remove ridges lying within
 `bw` of first row

---
 ssqueezepy/ridge_extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 2fbbf93..6fb37f3 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -140,7 +140,8 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
         for time_idx in range(n_timeshifts):
             ridx = ridge_idxs[time_idx, i]
-            energy[int(ridx - bw):int(ridx + bw), time_idx] = 0
+            # `max` as negative start would index from the opposite end
+            energy[max(int(ridx - bw), 0):int(ridx + bw), time_idx] = 0
 
     return ((ridge_idxs, ridge_f, ridge_e) if get_params else
             ridge_idxs)
-- 
2.43.0


From c1be9169e7a00d9d2224f1db441a64ba1f92493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 04/56] fix: extract_ridges' forward ridge wrapped around with
 n_freqs > n_timeshifts

---
 ssqueezepy/ridge_extraction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 6fb37f3..1669846 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -162,8 +162,7 @@ def _accumulated_penalty_energy_fw(energy_to_track, penalty_matrix, parallel):
     fn = (__accumulated_penalty_energy_fwp if parallel else
           __accumulated_penalty_energy_fw)
     fn(penalized_energy, penalty_matrix)
-    ridge_idxs = np.unravel_index(np.argmin(penalized_energy, axis=0),
-                                  penalized_energy.shape)[1]
+    ridge_idxs = np.argmin(penalized_energy, axis=0)
     return penalized_energy, ridge_idxs
 
 
-- 
2.43.0


From 1a0b11197f829209572afcd399c5a25f05577f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 05/56] fix: data race in extract_ridges' parallel backward
 pass

---
 ssqueezepy/ridge_extraction.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 1669846..ca152ea 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -219,6 +219,7 @@ def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw,
                                      eps):
     # adding `prange` to `tidx` makes whole computation much faster (x3-4),
     # but breaks it on *some* inputs (unpredictably)
+    match_idxs = np.zeros(e.shape[0], dtype=np.int64)
     for tidx in range(e.shape[1] - 1):
         # `prange` only supports a step size of 1, so we use a trick
         # actually can't `prange` `tidx`, not thread-safe
@@ -228,5 +229,12 @@ def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw,
         for idx_freq in prange(e.shape[0]):
             new_penalty = penalty_matrix[ridge_idxs_fw[idx_time + 1], idx_freq]
 
+            # threads write to different elements, so no race condition
             if abs(val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps:
-                ridge_idxs_fw[idx_time] = idx_freq
+                match_idxs[idx_freq] = idx_freq
+            else:
+                match_idxs[idx_freq] = -1
+        # greatest match, same as non-parallel
+        idx_match = match_idxs.max()
+        if idx_match >= 0:
+            ridge_idxs_fw[idx_time] = idx_match
-- 
2.43.0


From 33706964306911742fb784c68450d8333136c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 06/56] fix: integer overflow & out of bounds write in linear
 ssqueezing of large `w`

---
 ssqueezepy/algos.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 770589a..6e7b96a 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -233,7 +233,7 @@ def _indexed_sum_lin(Wx, w, out, const, vmin, dv, omax, flipud=False):
         for j in range(Wx.shape[1]):
             if np.isinf(w[i, j]):
                 continue
-            k = int(min(round(max((w[i, j] - vmin) / dv, 0)), omax))
+            k = int(round(min(max((w[i, j] - vmin) / dv, 0), omax)))
             if flipud:
                 k = omax - k
             out[k, j] += Wx[i, j] * const[i]
@@ -244,7 +244,7 @@ def _indexed_sum_lin_par(Wx, w, out, const, vmin, dv, omax, flipud=False):
         for i in range(Wx.shape[0]):
             if np.isinf(w[i, j]):
                 continue
-            k = int(min(round(max((w[i, j] - vmin) / dv, 0)), omax))
+            k = int(round(min(max((w[i, j] - vmin) / dv, 0), omax)))
             if flipud:
                 k = omax - k
             out[k, j] += Wx[i, j] * const[i]
@@ -933,7 +933,7 @@ def _ssq_cwt_lin(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -947,7 +947,7 @@ def _ssq_cwt_lin_par(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -963,7 +963,7 @@ def _ssq_stft(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False):
                 w_ij = abs(
                     Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -978,7 +978,7 @@ def _ssq_stft_par(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False)
                 w_ij = abs(
                     Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
-- 
2.43.0


From fa4a1f3fab874006eafdda66361913960fff32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 07/56] fix: find_closest clipped indices to `len(a) - 1`
 instead of `len(v) - 1`

---
 ssqueezepy/algos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 6e7b96a..75fe1dc 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -376,7 +376,7 @@ def _get_params_find_closest_log(v):
 def find_closest_log(a, v, parallel=True):
     idx, params = _get_params_find_closest_log(v)
     out = np.zeros(a.shape, dtype=np.int32)
-    params['omax'] = len(out) - 1
+    params['omax'] = len(v) - 1
 
     if idx is None:
         fn = _find_closest_log_par if parallel else _find_closest_log
@@ -433,7 +433,7 @@ def find_closest_lin(a, v, parallel=True):
     out = np.zeros(a.shape, dtype=np.int32)
 
     fn = _find_closest_lin_par if parallel else _find_closest_lin
-    fn(a, out, vmin, dv, omax=len(out) - 1)
+    fn(a, out, vmin, dv, omax=len(v) - 1)
     return out
 
 @jit(nopython=True, cache=True)
-- 
2.43.0


From cd7721f72e2ea22cc9e4a6254044d4a8c5d2c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 08/56] fix: find_closest mapped large and infinite values to
 wrong indices

---
 ssqueezepy/algos.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 75fe1dc..77aef36 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -391,13 +391,13 @@ def find_closest_log(a, v, parallel=True):
 def _find_closest_log(a, out, vlmin, dvl, omax):
     for i in range(a.shape[0]):
         for j in range(a.shape[1]):
-            out[i, j] = min(round(max((np.log2(a[i, j]) - vlmin) / dvl, 0)), omax)
+            out[i, j] = round(min(max((np.log2(a[i, j]) - vlmin) / dvl, 0), omax))
 
 @jit(nopython=True, cache=True, parallel=True)
 def _find_closest_log_par(a, out, vlmin, dvl, omax):
     for i in prange(a.shape[0]):
         for j in prange(a.shape[1]):
-            out[i, j] = min(round(max((np.log2(a[i, j]) - vlmin) / dvl, 0)), omax)
+            out[i, j] = round(min(max((np.log2(a[i, j]) - vlmin) / dvl, 0), omax))
 
 
 @jit(nopython=True, cache=True)
@@ -407,7 +407,7 @@ def _find_closest_log_piecewise(a, out, vlmin0, vlmin1, dvl0, dvl1, idx1,
         for j in range(a.shape[1]):
             al = np.log2(a[i, j])
             if al > vlmin1:
-                out[i, j] = min(round((al - vlmin1) / dvl1) + idx1, omax)
+                out[i, j] = round(min((al - vlmin1) / dvl1, omax - idx1)) + idx1
             else:
                 out[i, j] = round(max((al - vlmin0) / dvl0, 0))
 
@@ -418,11 +418,9 @@ def _find_closest_log_piecewise_par(a, out, vlmin0, vlmin1, dvl0, dvl1, idx1,
     # of `vlmin`, `dvl`, and `idx`, which generalizes to any number of transitions
     for i in prange(a.shape[0]):
         for j in prange(a.shape[1]):
-            if np.isinf(a[i, j]):
-                continue
             al = np.log2(a[i, j])
             if al > vlmin1:
-                out[i, j] = min(round((al - vlmin1) / dvl1) + idx1, omax)
+                out[i, j] = round(min((al - vlmin1) / dvl1, omax - idx1)) + idx1
             else:
                 out[i, j] = round(max((al - vlmin0) / dvl0, 0))
 
@@ -440,13 +438,13 @@ def find_closest_lin(a, v, parallel=True):
 def _find_closest_lin(a, out, vmin, dv, omax):
     for i in range(a.shape[0]):
         for j in range(a.shape[1]):
-            out[i, j] = min(round(max((a[i, j] - vmin) / dv, 0)), omax)
+            out[i, j] = round(min(max((a[i, j] - vmin) / dv, 0), omax))
 
 @jit(nopython=True, cache=True, parallel=True)
 def _find_closest_lin_par(a, out, vmin, dv, omax):
     for i in prange(a.shape[0]):
         for j in prange(a.shape[1]):
-            out[i, j] = min(round(max((a[i, j] - vmin) / dv, 0)), omax)
+            out[i, j] = round(min(max((a[i, j] - vmin) / dv, 0), omax))
 
 #### Replacers ###############################################################
 def _process_replace_fn_args(x, ref):
-- 
2.43.0


From 0490c4dad7f177aa0763f7de2c92e275c942100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 09/56] fix: ssqueeze returned flipped `ssq_freqs` with
 `flipud=False` for CWT

---
 ssqueezepy/ssqueezing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 1dd7ce9..c781d76 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -213,8 +213,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         for _Tx, _w, _Wx, _dWx in zip(Tx, w, Wx, dWx):
             _ssqueeze(_Tx, _w, _Wx, _dWx, *args)
 
-    # `scales` go high -> low
-    if (transform == 'cwt' and not flipud) or flipud:
+    # match the order of rows of `Tx`
+    if flipud:
         if not isinstance(ssq_freqs, np.ndarray):
             import torch
             ssq_freqs = torch.flip(ssq_freqs, (0,))
-- 
2.43.0


From 66cdc4c55b15362c63d3a951e81270f906e9e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 10/56] fix: ssqueeze's 'lebesgue' normalized batched input by
 number of inputs

---
 ssqueezepy/ssqueezing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index c781d76..b0dd5b9 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -197,7 +197,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
     if isinstance(squeezing, FunctionType):
         Wx = squeezing(Wx)
     elif squeezing == 'lebesgue':  # from reference [3]
-        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / len(Wx)
+        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / Wx.shape[-2]
     elif squeezing == 'abs':
         Wx = Q.abs(Wx)
 
-- 
2.43.0


From 5d6fb194a5eda52effa391f53ed996e1b3b7d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 11/56] fix: ssqueeze computed phase from transformed `Wx` with
 `squeezing != 'sum'`

---
 ssqueezepy/ssqueezing.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index b0dd5b9..305b4f7 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -2,6 +2,7 @@
 import numpy as np
 from types import FunctionType
 from .algos import indexed_sum_onfly, ssqueeze_fast
+from .algos import phase_cwt_cpu, phase_cwt_gpu, phase_stft_cpu, phase_stft_gpu
 from .utils import p2up, process_scales, infer_scaletype, _process_fs_and_t
 from .utils import NOTE, pi, logscale_transition_idx, assert_is_one_of
 from .utils.backend import Q
@@ -193,6 +194,10 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
     else:
         ssq_scaletype, _ = infer_scaletype(ssq_freqs)
 
+    # `w` is of the original `Wx`, so must compute it before transforming
+    if w is None and squeezing != 'sum':
+        w = _compute_phase_transform(Wx, dWx, Sfs, gamma, transform)
+
     # transform `Wx` if needed
     if isinstance(squeezing, FunctionType):
         Wx = squeezing(Wx)
@@ -225,6 +230,18 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
 
 
 #### `ssqueeze` utils ########################################################
+def _compute_phase_transform(Wx, dWx, Sfs, gamma, transform):
+    if Wx.ndim == 3:
+        return [_compute_phase_transform(_Wx, _dWx, Sfs, gamma, transform)
+                for _Wx, _dWx in zip(Wx, dWx)]
+    gpu = S.is_tensor(Wx)
+    if transform == 'cwt':
+        fn = phase_cwt_gpu if gpu else phase_cwt_cpu
+        return fn(Wx, dWx, gamma)
+    fn = phase_stft_gpu if gpu else phase_stft_cpu
+    return fn(Wx, dWx, Sfs, gamma)
+
+
 def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
     if isinstance(maprange, tuple):
         fm, fM = maprange
-- 
2.43.0


From ede2e205aa214d902c634eb1edd7a734d099d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 12/56] fix: ssqueeze crashed with `maprange` passed as list

---
 ssqueezepy/ssqueezing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 305b4f7..5179305 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -179,7 +179,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
             # default to same scheme used by `scales`
             ssq_scaletype = cwt_scaletype
 
-        if ((maprange == 'maximal' or isinstance(maprange, tuple)) and
+        if ((maprange == 'maximal' or isinstance(maprange, (tuple, list))) and
                 ssq_scaletype == 'log-piecewise'):
             raise ValueError("can't have `ssq_scaletype = log-piecewise` or "
                              "tuple with `maprange = 'maximal'` "
@@ -243,7 +243,7 @@ def _compute_phase_transform(Wx, dWx, Sfs, gamma, transform):
 
 
 def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
-    if isinstance(maprange, tuple):
+    if isinstance(maprange, (tuple, list)):
         fm, fM = maprange
     elif maprange == 'maximal':
         dT = dt * N
-- 
2.43.0


From ffc551bec3c4c8d0ffdf47410cf00069e2b1b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 13/56] fix: rows of `Tx` didn't match custom `ssq_freqs` with
 len != n_scales

---
 ssqueezepy/ssqueezing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 5179305..f319fb4 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -206,8 +206,10 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
     elif squeezing == 'abs':
         Wx = Q.abs(Wx)
 
-    # synchrosqueeze
-    Tx = S.zeros(Wx.shape, dtype=Wx.dtype)
+    # synchrosqueeze; rows of `Tx` correspond to `ssq_freqs`
+    Tx_shape = (Wx.shape if S.is_tensor(Wx) else
+                (*Wx.shape[:-2], len(ssq_freqs), Wx.shape[-1]))
+    Tx = S.zeros(Tx_shape, dtype=Wx.dtype)
     args = (nv, ssq_freqs, scales, transform, ssq_scaletype,
             cwt_scaletype, flipud, gamma, Sfs)
     if Wx.ndim == 2:
-- 
2.43.0


From 033d17893dd6cb135d394a002d80684c1dbb7e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 14/56] fix: stft derivative wasn't scaled by `fs` with
 `modulated=False`

---
 ssqueezepy/_stft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 63728a0..c536144 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -132,7 +132,9 @@ def stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=None,
         if modulated:
             window = ifftshift(window, astensor=True)
             if derivative:
-                diff_window = ifftshift(diff_window, astensor=True) * fs
+                diff_window = ifftshift(diff_window, astensor=True)
+        if derivative:
+            diff_window = diff_window * fs
 
         reshape = (-1, 1) if xp.ndim == 1 else (1, -1, 1)
         Sx *= window.reshape(*reshape)
-- 
2.43.0


From 73942e927ab5839a09db0626735d641ca8bcc86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 15/56] fix: istft returned empty output with `n_fft <= 2`

---
 ssqueezepy/_stft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index c536144..4a3961d 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -253,7 +253,7 @@ def istft(Sx, window=None, n_fft=None, win_len=None, hop_len=1, N=None,
         x /= wn
 
     # unpad
-    x = x[n_fft//2 : -((n_fft - 1)//2)]
+    x = x[n_fft//2 : n_fft//2 + N]
 
     return x
 
-- 
2.43.0


From 219c356737a38656a83fbc5cf1678098a7326eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 16/56] fix: cwt & icwt modified caller's GMW options dict

---
 ssqueezepy/_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 20ecec2..4cb3948 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -505,8 +505,8 @@ def _process_gmw_wavelet(wavelet, l1_norm):
 
     elif isinstance(wavelet, tuple) and wavelet[0].lower()[:3] == 'gmw':
         wavelet, wavopts = wavelet
-        wavopts['norm'] = wavopts.get('norm', norm)
-        wavelet = (wavelet, wavopts)
+        # don't modify caller's dict
+        wavelet = (wavelet, {**wavopts, 'norm': wavopts.get('norm', norm)})
 
     elif isinstance(wavelet, Wavelet):
         if wavelet.name == 'GMW L2' and l1_norm:
-- 
2.43.0


From 04ced7c547808c813831a389179a7602a82dbc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 17/56] fix: cwt zeroed NaN & inf in caller's input array
 in-place

---
 ssqueezepy/_cwt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 4cb3948..2229c46 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -212,7 +212,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
                 raise ValueError("`nan_checks=True` requires NumPy input.")
             elif np.isnan(x.max()) or np.isinf(x.max()) or np.isinf(x.min()):
                 WARN("found NaN or inf values in `x`; will zero")
-                replace_at_inf_or_nan(x, replacement=0.)
+                x = replace_at_inf_or_nan(x.copy(), replacement=0.)
 
         if cache_wavelet:
             if isinstance(wavelet, (str, tuple)):
@@ -233,7 +233,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         N = x.shape[-1]
         dt, *_ = _process_fs_and_t(fs, t, N=N)
         is_2D = (x.ndim == 2)
-        return N, nv, dt, is_2D, cache_wavelet
+        return x, N, nv, dt, is_2D, cache_wavelet
 
     if isinstance(order, (tuple, list, range)) or order > 0:
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, t=t, nv=nv,
@@ -243,7 +243,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         return cwt_higher_order(x, order=order, average=average,
                                 astensor=astensor, **kw)
 
-    (N, nv, dt, is_2D, cache_wavelet
+    (x, N, nv, dt, is_2D, cache_wavelet
      ) = _process_args(x, scales, nv, fs, t, nan_checks, wavelet, cache_wavelet)
 
     # process `wavelet`, get its `dtype`
-- 
2.43.0


From 71ea679c39bf41ae63ddd1f465ddbe38ee1b4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 18/56] fix: cwt didn't restore `wavelet.N` &
 `FFT_GLOBAL.patience` upon exceptions

---
 ssqueezepy/_cwt.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 2229c46..d42f04d 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -276,19 +276,20 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
 
     # temporarily adjust `wavelet.N` & `FFT_GLOBAL.patience`
     wavelet_N_orig = wavelet.N
-    wavelet.N = xp.shape[-1]
     patience_orig = (FFT_GLOBAL.patience, FFT_GLOBAL.planning_timelimit)
-    FFT_GLOBAL.patience = patience
+    try:
+        wavelet.N = xp.shape[-1]
+        FFT_GLOBAL.patience = patience
 
-    # take CWT
-    if vectorized:
-        Wx, dWx = _vectorized(xh, scales, wavelet, derivative, cache_wavelet)
-    else:
-        Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
-
-    # restore
-    wavelet.N = wavelet_N_orig
-    FFT_GLOBAL.patience = patience_orig
+        # take CWT
+        if vectorized:
+            Wx, dWx = _vectorized(xh, scales, wavelet, derivative, cache_wavelet)
+        else:
+            Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
+    finally:
+        # restore
+        wavelet.N = wavelet_N_orig
+        FFT_GLOBAL.patience = patience_orig
 
     # handle unpadding, normalization
     if not rpadded and padtype is not None:
-- 
2.43.0


From 1b6916069731924013714c8cc437bc60a180a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 19/56] fix: Wavelet.Psih returned cached result of different
 `nohalf` or `scale`

---
 ssqueezepy/wavelets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 72564bb..1d0fdcb 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -142,10 +142,12 @@ class Wavelet():
         """
         pN = getattr(self, '_Psih_N', S.array([-1]))
         ps = getattr(self, '_Psih_scale', S.array([-1]))
+        ph = getattr(self, '_Psih_nohalf', None)
         N_is_None = N is None
         N = N or self.N
         if ((scale is None and N_is_None) or
-                (N == pN and (len(scale) == len(ps) and S.allclose(scale, ps)))):
+                (N == pN and nohalf == ph and
+                 scale.shape == ps.shape and bool((scale == ps).all()))):
             return self._Psih
 
         # first empty existing to free memory
@@ -155,6 +157,7 @@ class Wavelet():
 
         self._Psih = self(scale=scale, N=N, nohalf=nohalf)
         self._Psih_N = N
+        self._Psih_nohalf = nohalf
         # store independent of external copy
         self._Psih_scale = scale.clone() if S.is_tensor(scale) else scale.copy()
         return self._Psih
-- 
2.43.0


From 45482daa09813225a6f4c333181dbc1856dec910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 20/56] fix: Wavelet.__call__ dropped non-negligible imaginary
 part if its sum is < 0

---
 ssqueezepy/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 1d0fdcb..d325e2f 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -79,7 +79,7 @@ class Wavelet():
             psih = self._halve_nyquist(psih)
         if (S.is_dtype(psih, ('complex64', 'complex128')) and
                 (imag_th is not None) and
-                (psih.imag.sum() / psih.real.sum() < imag_th)):
+                (abs(psih.imag).sum() / abs(psih.real).sum() < imag_th)):
             psih = psih.real
         return psih
 
-- 
2.43.0


From dcde1cdbfd571f660768d262fee6a530634dfc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 21/56] fix: GMWs zeroed negative frequencies in caller's input
 array in-place

---
 ssqueezepy/_gmw.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 6997d77..5533864 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -205,7 +205,7 @@ def _gmw_l1(w, gamma, beta, wc, wcl):
     # NOTE: numba.jit, unlike numpy & torch, will promote to float64 with
     # array float32 and scalar float64
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return 2 * np.exp(- beta * wcl + wc**gamma
                       + beta * np.log(w) - w**gamma) * w_nonneg
 
@@ -214,13 +214,13 @@ def _gmw_l1_par(w, gamma, beta, wc, wcl):
     # NOTE: numba.jit, unlike numpy & torch, will promote to float64 with
     # array float32 and scalar float64
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return 2 * np.exp(- beta * wcl + wc**gamma
                       + beta * np.log(w) - w**gamma) * w_nonneg
 
 def _gmw_l1_gpu(w, gamma, beta, wc, wcl):
     w_nonneg = (w >= 0)
-    w *= w_nonneg
+    w = w * w_nonneg
     return 2 * torch.exp(- beta * wcl + wc**gamma
                          + beta * torch.log(w) - w**gamma) * w_nonneg
 
@@ -246,20 +246,20 @@ def gmw_l2(gamma=3., beta=60., centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l2(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
                    ) * w**beta * np.exp(-w**gamma) * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_par(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
                    ) * w**beta * np.exp(-w**gamma) * w_nonneg
 
 def _gmw_l2_gpu(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return torch.sqrt(2.*pi * gamma * 2.**r / rgamma
                       ) * w**beta * torch.exp(-w**gamma) * w_nonneg
 
@@ -285,7 +285,7 @@ def gmw_l1_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l1_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -296,7 +296,7 @@ def _gmw_l1_k(w, gamma, beta, wc, k_consts):
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -306,7 +306,7 @@ def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
 
 def _gmw_l1_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
@@ -336,7 +336,7 @@ def gmw_l2_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l2_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -346,7 +346,7 @@ def _gmw_l2_k(w, gamma, beta, wc, k_consts):
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -355,7 +355,7 @@ def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
 
 def _gmw_l2_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
-- 
2.43.0


From 809ac251e37f14489652efb3848d2f8bd4898b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 22/56] fix: cached FFT objects were reused across forward &
 inverse transforms

---
 ssqueezepy/utils/fft_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 7ae6656..e0620c2 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -237,7 +237,9 @@ class FFT():
 
     def get_fft_object(self, x, axis, patience=1, real=False, inverse=False,
                        n=None):
-        combo = (x.shape, x.dtype, axis, real, n)
+        if not isinstance(patience, tuple):
+            patience = (patience, self.planning_timelimit)
+        combo = (x.shape, x.dtype, axis, real, inverse, patience, n)
         if self.cache_fft_objects and combo in self._input_history:
             fft_object = self._input_history[combo]
         else:
-- 
2.43.0


From 7de02433d9fee8fb90981433519f4627b0f0a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 23/56] fix: cached FFT objects overwrote previously returned
 outputs

---
 ssqueezepy/utils/fft_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index e0620c2..8815ab9 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -164,7 +164,7 @@ class FFT():
             return sfft(x, axis=axis, workers=self.threads)
 
         fft_object = self._get_save_fill(x, axis, patience, real=False)
-        return fft_object()
+        return self._execute(fft_object)
 
     def rfft(self, x, axis=-1, patience=None, astensor=False):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -177,7 +177,7 @@ class FFT():
             return srfft(x, axis=axis, workers=self.threads)
 
         fft_object = self._get_save_fill(x, axis, patience, real=True)
-        return fft_object()
+        return self._execute(fft_object)
 
     def ifft(self, x, axis=-1, patience=None, astensor=False):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -191,7 +191,7 @@ class FFT():
 
         fft_object = self._get_save_fill(x, axis, patience, real=False,
                                          inverse=True)
-        return fft_object()
+        return self._execute(fft_object)
 
     def irfft(self, x, axis=-1, patience=None, astensor=False, n=None):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -205,7 +205,7 @@ class FFT():
 
         fft_object = self._get_save_fill(x, axis, patience, real=True,
                                          inverse=True, n=n)
-        return fft_object()
+        return self._execute(fft_object)
 
     def fftshift(self, x, axes=-1, astensor=False):
         out = self._maybe_gpu('fftshift', x, dim=axes, astensor=astensor)
@@ -235,6 +235,11 @@ class FFT():
         fft_object.input_array[:] = x
         return fft_object
 
+    def _execute(self, fft_object):
+        out = fft_object()
+        # cached object's output array is overwritten in its next execution
+        return out.copy() if self.cache_fft_objects else out
+
     def get_fft_object(self, x, axis, patience=1, real=False, inverse=False,
                        n=None):
         if not isinstance(patience, tuple):
-- 
2.43.0


From 08d25748231ff7653105f45fb7c8bd0faddac46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 24/56] fix: padsignal's 'symmetric' returned wrong length with
 pad length 0 or > len(x)

---
 ssqueezepy/utils/common.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index ea68fe6..e5227d2 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -143,10 +143,7 @@ def padsignal(x, padtype='reflect', padlength=None, get_params=False):
             xp = np.pad(x, pad_width, mode='wrap')
         elif padtype == 'symmetric':
             # [1,2,3,4] -> [4,3,2,1, 1,2,3,4, 4,3,2]
-            if x.ndim == 1:
-                xp = np.hstack([x[::-1][-n1:], x, x[::-1][:n2]])
-            elif x.ndim == 2:
-                xp = np.hstack([x[:, ::-1][:, -n1:], x, x[:, ::-1][:, :n2]])
+            xp = np.pad(x, pad_width, mode='symmetric')
     else:
         import torch
         mode = 'constant' if padtype == 'zero' else 'reflect'
-- 
2.43.0


From 128f1e4e65ddbc3667d798ac0bef728e79a1da55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 25/56] fix: trigdiff unpadded to padded instead of original
 length

---
 ssqueezepy/utils/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index e5227d2..ecb0fb5 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -208,6 +208,8 @@ def trigdiff(A, fs=1., padtype=None, rpadded=None, N=None, n1=None, window=None,
 
     rpadded, padtype = _process_args(A, rpadded, padtype, N, transform, window)
 
+    if N is None:
+        N = A.shape[-1]  # unpadded length
     if padtype is not None:
         A, _, n1, *_ = padsignal(A, padtype, get_params=True)
 
@@ -230,8 +232,6 @@ def trigdiff(A, fs=1., padtype=None, rpadded=None, N=None, n1=None, window=None,
         pass
 
     if rpadded or padtype is not None:
-        if N is None:
-            N = A.shape[-1]
         if n1 is None:
             _, n1, _ = p2up(N)
         idx = ((slice(None), slice(n1, n1 + N)) if A.ndim == 2 else
-- 
2.43.0


From dae5232a101960a042722aaac3405727ef6f201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 26/56] fix: cwt_higher_order took number of inputs as signal
 length with batched input

---
 ssqueezepy/_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index d42f04d..bd6f5d2 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -576,7 +576,7 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         scales = kw.get('scales', 'log-piecewise')
         if isinstance(scales, str):
             wav = Wavelet(('gmw', dict(order=0, **wavopts)))
-            scales = process_scales(scales, len(x), wavelet=wav,
+            scales = process_scales(scales, x.shape[-1], wavelet=wav,
                                     nv=kw.get('nv', 32))
             scales = S.asarray(scales, wav.dtype)
         kw['scales'] = scales
-- 
2.43.0


From 5c0c99b68e4a7673b7274ce5afb5ed7e6bb1dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 27/56] fix: ssq_cwt with order > 0 unpadded wrong axis if
 batched, or if padtype=None

---
 ssqueezepy/_ssq_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 43cb021..370fa30 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -231,12 +231,12 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                   l1_norm=True, derivative=False, padtype=padtype, rpadded=True,
                   vectorized=vectorized, astensor=True,
                   cache_wavelet=cache_wavelet, nan_checks=nan_checks)
-        _, n1, _ = p2up(N)
+        n1 = p2up(N)[1] if padtype is not None else 0
         average = isinstance(order, (tuple, list, range))
 
         Wx, scales = cwt(x, order=order, average=average, **kw)
         dWx = trigdiff(Wx, fs, rpadded=True, N=N, n1=n1)
-        Wx = Wx[:, n1:n1 + N]
+        Wx = Wx[..., n1:n1 + N]
         if S.is_tensor(Wx):
             Wx = Wx.contiguous()
 
-- 
2.43.0


From 0aea616dfe32116fbca76602aa2ffaba8f232f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 28/56] fix: icwt crashed with one_int=False, rpadded=True

---
 ssqueezepy/_cwt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index bd6f5d2..c3b03d9 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -2,7 +2,7 @@
 import numpy as np
 from .utils import fft, ifft, ifftshift, FFT_GLOBAL
 from .utils import WARN, adm_cwt, adm_ssq, _process_fs_and_t, is_array_or_tensor
-from .utils import padsignal, process_scales, logscale_transition_idx
+from .utils import padsignal, p2up, process_scales, logscale_transition_idx
 from .utils import backend as S
 from .utils.backend import Q
 from .algos import replace_at_inf_or_nan
@@ -462,6 +462,9 @@ def _icwt_2int(Wx, scales, scaletype, l1_norm, wavelet, x_len,
     # add CWT padding if it doesn't exist
     if not rpadded:
         Wx, n_up, n1, _ = padsignal(Wx, padtype=padtype, get_params=True)
+    else:
+        n_up = Wx.shape[-1]
+        n1 = p2up(x_len)[1] if n_up > x_len else 0
 
     # see help(cwt) on `norm` and `pn`
     norm = _icwt_norm(scaletype, l1_norm)
-- 
2.43.0


From e690cdf28a2b41eab4d244f7758556c2ccebea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 29/56] fix: ssq_cwt with difftype='numeric' returned padded
 `Wx`, and failed if padtype=None

---
 ssqueezepy/_ssq_cwt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 370fa30..6fed90c 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -214,8 +214,9 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
         elif difftype == 'numeric':
             # !!! tested to be very inaccurate for small scales
             # calculate derivative numerically
-            _, n1, _ = p2up(N)
-            Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
+            if padtype is not None:
+                _, n1, _ = p2up(N)
+                Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
             w = phase_cwt_num(Wx, dt, difforder, gamma)
         return Wx, w
 
@@ -289,8 +290,10 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                              flipud=flipud, dWx=_dWx, transform='cwt')
 
     # postprocessing & return
-    if difftype == 'numeric':
-        Wx = Wx[:, 4:-4]
+    if difftype == 'numeric' and padtype is not None:
+        _, n1, _ = p2up(N)
+        Wx = Wx[:, n1:n1 + N]
+        dWx = dWx[:, n1:n1 + N] if dWx is not None else None
         Tx = Tx[:, 4:-4]
         w  = w[:,  4:-4] if w is not None else None
 
-- 
2.43.0


From 1c5b61eb703211433a2ae7129759874fc372fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 30/56] fix: icwt crashed with 'log-piecewise' scales having
 two downsampled scales

---
 ssqueezepy/utils/cwt_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index d005c0d..32828e6 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -277,7 +277,9 @@ def infer_scaletype(scales):
     th_log = 4e-15 if scales.dtype == np.float64 else 8e-7
     th_lin = th_log * 1e3  # less accurate for some reason
 
-    if np.mean(np.abs(np.diff(np.log(scales), 2, axis=0))) < th_log:
+    # two scales are always exponential (e.g. end segment of 'log-piecewise')
+    if (len(scales) == 2 or
+            np.mean(np.abs(np.diff(np.log(scales), 2, axis=0))) < th_log):
         scaletype = 'log'
         # ceil to avoid faulty float-int roundoffs
         nv = int(np.round(1 / np.diff(np.log2(scales), axis=0)[0].squeeze()))
-- 
2.43.0


From 004dec5936df1725ec518672a764545914b48e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 31/56] fix: zero_denormals had no effect on non-contiguous
 arrays

---
 ssqueezepy/algos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 77aef36..530b0ce 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -596,7 +596,11 @@ def zero_denormals(x, parallel=None):
     parallel = parallel if parallel is not None else IS_PARALLEL()
     tiny = 1000 * np.finfo(x.dtype).tiny
     fn = _zero_denormals_par if parallel else _zero_denormals
-    fn(x.ravel(), tiny)
+    xr = x.ravel()
+    fn(xr, tiny)
+    if not np.shares_memory(xr, x):
+        # `x` isn't contiguous, so `ravel` made a copy
+        x[...] = xr.reshape(x.shape)
 
 @jit(nopython=True, cache=True)
 def _zero_denormals(x, tiny):
-- 
2.43.0


From 4453b2280923aa21b76facbd7562c68c1d909398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 32/56] fix: undefined float to int conversion of log2(0) in
 log-piecewise ssqueezing

---
 ssqueezepy/algos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 530b0ce..4d484ff 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -872,7 +872,7 @@ def _ssq_cwt_log_piecewise(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 if wl > vlmin1:
                     k = int(min(round((wl - vlmin1) / dvl1) + idx1, omax))
                 else:
-                    k = int(max(round((wl - vlmin0) / dvl0), 0))
+                    k = int(round(max((wl - vlmin0) / dvl0, 0)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -891,7 +891,7 @@ def _ssq_cwt_log_piecewise_par(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 if wl > vlmin1:
                     k = int(min(round((wl - vlmin1) / dvl1) + idx1, omax))
                 else:
-                    k = int(max(round((wl - vlmin0) / dvl0), 0))
+                    k = int(round(max((wl - vlmin0) / dvl0, 0)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
-- 
2.43.0


From 180d5aab1cde6695a28468843234d44af6106d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 33/56] fix: logscale_transition_idx crashed on two scales or
 frequencies

---
 ssqueezepy/utils/cwt_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 32828e6..b180210 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -378,6 +378,9 @@ def logscale_transition_idx(scales):
     """Returns `idx` that splits `scales` as `[scales[:idx], scales[idx:]]`.
     """
     scales = asnumpy(scales)
+    if len(scales) < 3:
+        # no room for a transition
+        return None
     scales_diff2 = np.abs(np.diff(np.log(scales), 2, axis=0))
     idx = np.argmax(scales_diff2) + 2
     diff2_max = scales_diff2.max()
-- 
2.43.0


From 8240224f76e11ccf286d2b590f5c4a76297a5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 34/56] fix: afftshift & aifftshift were swapped for odd
 lengths

---
 ssqueezepy/wavelets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index d325e2f..1dc6b62 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -939,7 +939,7 @@ def afftshift(xh):
     """
     if len(xh) % 2 == 0:
         return _afftshift_even(xh, np.zeros(len(xh), dtype=xh.dtype))
-    return fftshift(xh)
+    return ifftshift(xh)
 
 @jit(nopython=True, cache=True)
 def _afftshift_even(xh, xhs):
@@ -955,7 +955,7 @@ def aifftshift(xh):
     """Inversion also different; moves left N//2+1 bins to right."""
     if len(xh) % 2 == 0:
         return _aifftshift_even(xh, np.zeros(len(xh), dtype=xh.dtype))
-    return ifftshift(xh)
+    return fftshift(xh)
 
 @jit(nopython=True, cache=True)
 def _aifftshift_even(xh, xhs):
-- 
2.43.0


From 5d7c14ec47c7de90a4a2457867844b648ac29591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 35/56] fix: morsewave crashed with negative frequencies

---
 ssqueezepy/_gmw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 5533864..57591b7 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -473,8 +473,8 @@ def morsewave(N, freqs, gamma=3, beta=60, K=1, norm='bandpass'):
         psif[:, n:n+1, :], psi[:, n:n+1, :] = _morsewave1(N, abs(f), gamma, beta,
                                                           K, norm)
         if f < 0:
-            psi[:,   n:n+1, :] = psi[:, n, :].conj()
-            psif[1:, n:n+1, :] = np.flip(psif[1:, n, :], axis=0)
+            psi[:,   n, :] = psi[:, n, :].conj()
+            psif[1:, n, :] = np.flip(psif[1:, n, :], axis=0)
 
     psi = psi.squeeze()
     psif = psif.squeeze()
-- 
2.43.0


From a8e7d0d80b952b25d719d3bcd1af7a7b7dd4daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 36/56] fix: morsefreq & morsewave with beta=0

---
 ssqueezepy/_gmw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 57591b7..1e8bae0 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -635,7 +635,8 @@ def morsefreq(gamma, beta, n_out=1):
         v1.6.9, http://www.jmlilly.net/jmlsoft.html
         https://github.com/jonathanlilly/jLab/blob/master/jWavelet/morsefreq.m
     """
-    wm = (beta / gamma)**(1 / gamma)
+    wm = ((beta / gamma)**(1 / gamma) if beta != 0 else
+          np.log(2)**(1 / gamma))
 
     if n_out > 1:
         we = (1 / 2**(1 / gamma)) * (gamma_fn((2*beta + 2) / gamma) /
-- 
2.43.0


From 802e9430ed8ef62e6c70b60355e62baf71d54fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 37/56] fix: extract_ridges' backward pass missed the
 minimizing path due to rounding error

---
 ssqueezepy/ridge_extraction.py | 42 ++++++++++++++++------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index ca152ea..bd53f7a 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -89,7 +89,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
         dist_matrix = penalty * np.subtract.outer(scales, scales)**2
         return dist_matrix.squeeze()
 
-    def fw_bw_ridge_tracking(energy_to_track, penalty_matrix, eps):
+    def fw_bw_ridge_tracking(energy_to_track, penalty_matrix):
         """Calculates acummulated penalty in forward (t=end...0) followed by
         backward (t=end...0) direction
 
@@ -106,7 +106,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
         # backward calculation of frequency ridge (min log negative energy)
         ridge_idxs_fw_bw = _accumulated_penalty_energy_bw(
             energy_to_track, penalty_matrix, penalized_energy_fw,
-            ridge_idxs_fw, eps, parallel)
+            ridge_idxs_fw, parallel)
 
         return ridge_idxs_fw_bw
 
@@ -133,7 +133,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
         energy_neg_log_norm = -np.log(energy / energy_max + eps)
 
         ridge_idxs[:, i] = fw_bw_ridge_tracking(energy_neg_log_norm,
-                                                penalty_matrix, eps)
+                                                penalty_matrix)
         if get_params:
             ridge_f[:, i] = scales_orig[ridge_idxs[:, i]]
             ridge_e[:, i] = energy[     ridge_idxs[:, i], range(n_timeshifts)]
@@ -185,7 +185,7 @@ def __accumulated_penalty_energy_fwp(penalized_energy, penalty_matrix):
 
 def _accumulated_penalty_energy_bw(energy_to_track, penalty_matrix,
                                    penalized_energy_fw, ridge_idxs_fw,
-                                   eps, parallel):
+                                   parallel):
     """Calculates acummulated penalty in backward direction (t=end...0)
 
     `energy_to_track`: squared abs time-frequency transform
@@ -199,42 +199,40 @@ def _accumulated_penalty_energy_bw(energy_to_track, penalty_matrix,
     e = energy_to_track
     fn = (__accumulated_penalty_energy_bwp if parallel else
           __accumulated_penalty_energy_bw)
-    fn(e, penalty_matrix, pen_e, ridge_idxs_fw, eps)
+    fn(e, penalty_matrix, pen_e, ridge_idxs_fw)
     return np.asarray(ridge_idxs_fw).astype(int)
 
 
 @jit(nopython=True, cache=True)
-def __accumulated_penalty_energy_bw(e, penalty_matrix, pen_e, ridge_idxs_fw, eps):
+def __accumulated_penalty_energy_bw(e, penalty_matrix, pen_e, ridge_idxs_fw):
     for idx_time in range(e.shape[1] - 2, -1, -1):
-        val = (pen_e[ridge_idxs_fw[idx_time + 1], idx_time + 1] -
-               e[    ridge_idxs_fw[idx_time + 1], idx_time + 1])
+        # minimize instead of matching `(pen_e - e)[:, idx_time + 1]` to within a
+        # tolerance, as rounding error of accumulated energy may exceed it
+        val = np.inf
         for idx_freq in range(e.shape[0]):
             new_penalty = penalty_matrix[ridge_idxs_fw[idx_time + 1], idx_freq]
 
-            if abs(val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps:
+            if pen_e[idx_freq, idx_time] + new_penalty <= val:
+                val = pen_e[idx_freq, idx_time] + new_penalty
                 ridge_idxs_fw[idx_time] = idx_freq
 
 @jit(nopython=True, cache=True, parallel=True)
-def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw,
-                                     eps):
+def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw):
     # adding `prange` to `tidx` makes whole computation much faster (x3-4),
     # but breaks it on *some* inputs (unpredictably)
-    match_idxs = np.zeros(e.shape[0], dtype=np.int64)
+    vals = np.zeros(e.shape[0], dtype=pen_e.dtype)
     for tidx in range(e.shape[1] - 1):
         # `prange` only supports a step size of 1, so we use a trick
         # actually can't `prange` `tidx`, not thread-safe
         idx_time = (e.shape[1] - 2) - tidx
-        val = (pen_e[ridge_idxs_fw[idx_time + 1], idx_time + 1] -
-               e[    ridge_idxs_fw[idx_time + 1], idx_time + 1])
         for idx_freq in prange(e.shape[0]):
             new_penalty = penalty_matrix[ridge_idxs_fw[idx_time + 1], idx_freq]
 
             # threads write to different elements, so no race condition
-            if abs(val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps:
-                match_idxs[idx_freq] = idx_freq
-            else:
-                match_idxs[idx_freq] = -1
-        # greatest match, same as non-parallel
-        idx_match = match_idxs.max()
-        if idx_match >= 0:
-            ridge_idxs_fw[idx_time] = idx_match
+            vals[idx_freq] = pen_e[idx_freq, idx_time] + new_penalty
+        # greatest minimizer, same as non-parallel
+        val = np.inf
+        for idx_freq in range(e.shape[0]):
+            if vals[idx_freq] <= val:
+                val = vals[idx_freq]
+                ridge_idxs_fw[idx_time] = idx_freq
-- 
2.43.0


From 856b5ab830a25602ca1da82d31deaf45dbd71525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 38/56] fix: ssq_freqs of 'log-piecewise' depended on fs,
 overflowed or had NaN

---
 ssqueezepy/ssqueezing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index f319fb4..535c4bb 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -312,9 +312,8 @@ def _compute_associated_frequencies(scales, N, wavelet, ssq_scaletype, maprange,
 
 def _exp_fm(t, fmin, fmax):
     tmin, tmax = t.min(), t.max()
-    a = (fmin**tmax / fmax**tmin) ** (1/(tmax - tmin))
-    b = fmax**(1/tmax) * (1/a)**(1/tmax)
-    return a*b**t
+    # normalize `t` as raising frequencies to 1/tmax may overflow or underflow
+    return fmin * (fmax/fmin)**((t - tmin) / (tmax - tmin))
 
 
 def _get_center_frequency(wavelet, N, maprange, dt, scale, was_padded):
-- 
2.43.0


From 2b8309426ae828672eba5852a4056f67762fa541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 39/56] fix: extract_ridges' ridge was lost after a timeshift
 with zero energy

---
 ssqueezepy/ridge_extraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index bd53f7a..1fea405 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -130,6 +130,8 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
     for i in range(n_ridges):
         energy_max = energy.max(axis=0)
+        # avoid NaN from timeshifts with no energy (left)
+        energy_max[energy_max == 0] = 1
         energy_neg_log_norm = -np.log(energy / energy_max + eps)
 
         ridge_idxs[:, i] = fw_bw_ridge_tracking(energy_neg_log_norm,
-- 
2.43.0


From 32df8cca33699c4a62731b7e38b87cc6c1260da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 40/56] fix: center_frequency ignored force_int=False

---
 ssqueezepy/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 1dc6b62..fdbc9be 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -741,7 +741,7 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
 
     wavelet = Wavelet._init_if_not_isinstance(wavelet)
     if kind == 'energy':
-        force_int = force_int or True
+        force_int = True if (force_int is None) else force_int
         wc, params = _energy_wc(wavelet, scale, N, force_int)
     elif kind == 'peak':
         wc, params = _peak_wc(wavelet, scale, N)
-- 
2.43.0


From cde727b60e448fac6e22eb3d16e407627357b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 41/56] fix: freq_resolution used center frequency of N=1024
 for all N

---
 ssqueezepy/wavelets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index fdbc9be..d226f9c 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -795,7 +795,8 @@ def freq_resolution(wavelet, scale=10, N=1024, nondim=True, force_int=True,
 
     w = aifftshift(_xifn(1, N))
     psih = asnumpy(wavelet(scale * w))
-    wce = center_frequency(wavelet, scale, force_int=force_int, kind='energy')
+    wce = center_frequency(wavelet, scale, N=N, force_int=force_int,
+                           kind='energy')
 
     apsih2 = np.abs(psih)**2
     var_w = (integrate.trapezoid((w - wce)**2 * apsih2, w) /
@@ -806,7 +807,7 @@ def freq_resolution(wavelet, scale=10, N=1024, nondim=True, force_int=True,
         std_w *= (scale / scale_orig)
         scale = scale_orig
     if nondim:
-        wcp = center_frequency(wavelet, scale, kind='peak')
+        wcp = center_frequency(wavelet, scale, N=N, kind='peak')
         std_w /= wcp
     if viz:
         _viz()
-- 
2.43.0


From 96b8a8b79127fbf77492042cdad356593dfa8ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 42/56] fix: logscale_transition_idx found a transition in
 short one-slope vectors

---
 ssqueezepy/utils/cwt_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index b180210..ed50595 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -389,7 +389,7 @@ def logscale_transition_idx(scales):
 
     th = 1e-14 if scales.dtype == np.float64 else 1e-6
 
-    if not np.any(diff2_max > 100*np.abs(scales_diff2).mean()):
+    if diff2_max < th or not np.any(diff2_max > 100*np.abs(scales_diff2).mean()):
         # everything's zero, i.e. no transition detected
         return None
     elif not np.all(np.abs(scales_diff2) < th):
-- 
2.43.0


From a5622042e67446fed110d81eec4a3132912a11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 43/56] fix: TestSignals.echirp failed with tmax=0

---
 ssqueezepy/_test_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 4071b77..f815981 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -212,13 +212,13 @@ class TestSignals():
         >>> f(t)   = a*b^t
         >>> phi(t) = (a/ln(b)) * (b^t - b^tmin)
         >>> a = (fmin^tmax / fmax^tmin) ^ 1/(tmax - tmin)
-            b = fmax^(1/tmax) * (1/a)^(1/tmax)
+            b = (fmax/fmin) ^ 1/(tmax - tmin)
         """
         return self._generate(self._echirp_fn, N, fmin, fmax, **tkw)
 
     def _echirp_fn(self, t, tmin, tmax, fmin, fmax, get_w=False):
         a = (fmin**tmax / fmax**tmin) ** (1/(tmax - tmin))
-        b = fmax**(1/tmax) * (1/a)**(1/tmax)
+        b = (fmax / fmin) ** (1/(tmax - tmin))
 
         phi = (a/np.log(b)) * (b**t - b**tmin)
         phi *= (2*pi)
-- 
2.43.0


From cd93293aa0e41655ab775a18eb3c1783d530c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 44/56] fix: par_*chirp ignored fmax2 if fmax1 was not given

---
 ssqueezepy/_test_signals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index f815981..e06cb52 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -295,7 +295,7 @@ class TestSignals():
             fmin2 = fmin1 + fdiff_default
         if fmax2 is None or fmax1 is None:
             if fmax1 is None:
-                fmax2 = N/2
+                fmax2 = N/2 if (fmax2 is None) else fmax2
                 fmax1 = fmax2 - fdiff_default
             else:
                 fmax2 = min(N/2, fmax1 + fdiff_default)
@@ -319,7 +319,7 @@ class TestSignals():
             fmin2 = fmin1 * fratio_default
         if fmax2 is None or fmax1 is None:
             if fmax1 is None:
-                fmax2 = N/2
+                fmax2 = N/2 if (fmax2 is None) else fmax2
                 fmax1 = fmax2 / fratio_default
             else:
                 fmax2 = min(N/2, fmax1 * fratio_default)
@@ -343,7 +343,7 @@ class TestSignals():
             fmin2 = fmin1 * fratio_default
         if fmax2 is None or fmax1 is None:
             if fmax1 is None:
-                fmax2 = N/2
+                fmax2 = N/2 if (fmax2 is None) else fmax2
                 fmax1 = fmax2 / fratio_default
             else:
                 fmax2 = min(N/2, fmax1 * fratio_default)
-- 
2.43.0


From 6471f5e53d1321fc9ee8ae7b0c1546c07bcfa11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 45/56] fix: TestSignals modified passed-in default_args,
 default_tkw, and signal parameters

---
 ssqueezepy/_test_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index e06cb52..23213ab 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -142,8 +142,8 @@ class TestSignals():
                  warn_alias=True, seed=None):
         self.N = N    or DEFAULT_N
         self.snr = snr or DEFAULT_SNR
-        self.default_args = default_args or DEFAULT_ARGS
-        self.default_tkw  = default_tkw  or DEFAULT_TKW
+        self.default_args = dict(default_args or DEFAULT_ARGS)
+        self.default_tkw  = dict(default_tkw  or DEFAULT_TKW)
         self.warn_alias   = warn_alias
         self.seed = seed or DEFAULT_SEED
 
@@ -731,6 +731,8 @@ class TestSignals():
                     fparams, aparams = params, {}
             else:
                 name, fparams, aparams = signal, {}, {}
+            # don't modify what user passed
+            fparams, aparams = dict(fparams), dict(aparams)
 
             if name[0] == '#':
                 add_reversed = True
-- 
2.43.0


From e8c9417402dd3a863e2d9b27919b591990a99747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 46/56] fix: TestSignals ignored seed=0 and snr=0

---
 ssqueezepy/_test_signals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 23213ab..b961ea1 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -141,11 +141,11 @@ class TestSignals():
     def __init__(self, N=None, snr=None, default_args=None, default_tkw=None,
                  warn_alias=True, seed=None):
         self.N = N    or DEFAULT_N
-        self.snr = snr or DEFAULT_SNR
+        self.snr = snr if (snr is not None) else DEFAULT_SNR
         self.default_args = dict(default_args or DEFAULT_ARGS)
         self.default_tkw  = dict(default_tkw  or DEFAULT_TKW)
         self.warn_alias   = warn_alias
-        self.seed = seed or DEFAULT_SEED
+        self.seed = seed if (seed is not None) else DEFAULT_SEED
 
         # set defaults on unspecified
         for k, v in DEFAULT_ARGS.items():
@@ -572,7 +572,7 @@ class TestSignals():
 
             if name[0] == '#':
                 x += x[::-1]
-            if snr:
+            if snr is not None:
                 noise_var = x.var() / 10**(snr/10)
                 if self.seed is not None:
                     np.random.seed(self.seed)
@@ -595,7 +595,7 @@ class TestSignals():
         fparams = self._process_varname_alias(signal, N, fparams)
         snr = fparams.pop('snr', None)
 
-        if snr:
+        if snr is not None:
             snr = "{:.1f}dB".format(snr)
             fparams = dict(N=N, SNR=snr, **fparams)
         else:
-- 
2.43.0


From e636040025d3853ddb4a6fb1accc4825ba9fecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 47/56] fix: energy-normalized gmw was NaN at large frequencies
 due to overflow

---
 ssqueezepy/_gmw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 1e8bae0..51684f4 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -248,20 +248,20 @@ def _gmw_l2(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
-                   ) * w**beta * np.exp(-w**gamma) * w_nonneg
+                   ) * np.exp(beta * np.log(w) - w**gamma) * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_par(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
-                   ) * w**beta * np.exp(-w**gamma) * w_nonneg
+                   ) * np.exp(beta * np.log(w) - w**gamma) * w_nonneg
 
 def _gmw_l2_gpu(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
     return torch.sqrt(2.*pi * gamma * 2.**r / rgamma
-                      ) * w**beta * torch.exp(-w**gamma) * w_nonneg
+                      ) * torch.exp(beta * torch.log(w) - w**gamma) * w_nonneg
 
 
 def gmw_l1_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
-- 
2.43.0


From b1ee2e31e16ba55426f543e36a5a404e18f64602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 48/56] fix: find_downsampling_scale with fewer scales than a
 group

---
 ssqueezepy/utils/cwt_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index ed50595..e8b2fe0 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -540,6 +540,9 @@ def find_downsampling_scale(wavelet, scales, span=5, tol=3, method='sum',
               "({}, {}, {})".format(i, distances, joint_peak), flush=True)
 
     assert_is_one_of(method, 'method', ('any', 'all', 'sum'))
+    if len(scales) < span + 2:
+        # too few scales to compare a group
+        return None
     if not isinstance(wavelet, np.ndarray):
         wavelet = Wavelet._init_if_not_isinstance(wavelet)
 
-- 
2.43.0


From b8b7da56f5a76ca44741fa5cce475a5e74b8b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 49/56] fix: make_signals failed with time parameters passed to
 the modulator

---
 ssqueezepy/_test_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index b961ea1..d1c5b50 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -568,7 +568,7 @@ class TestSignals():
             snr = fparams.pop('snr', self.snr)
 
             x, t = fn(N, **fparams)
-            x *= afn(len(x), **aparams, **tkw)[0]
+            x *= afn(len(x), **{**aparams, **tkw})[0]
 
             if name[0] == '#':
                 x += x[::-1]
-- 
2.43.0


From 24e4bc7fc39081457e5f9ea571f894a37b333018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:27 +0000
Subject: [PATCH 50/56] fix: Wavelet.Psih returned None after a failed call

---
 ssqueezepy/wavelets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index d226f9c..9c62c91 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -153,6 +153,7 @@ class Wavelet():
         # first empty existing to free memory
         if getattr(self, '_Psih', None) is not None:
             self._Psih = None
+            self._Psih_nohalf = None  # in case computing below fails
             gc.collect()
 
         self._Psih = self(scale=scale, N=N, nohalf=nohalf)
-- 
2.43.0


From bf5a33ac4a40ec8d324167ecf42c611514de279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:28 +0000
Subject: [PATCH 51/56] fix: cwt ignored nan_checks with order > 0

---
 ssqueezepy/_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index c3b03d9..66b8a23 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -239,7 +239,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, t=t, nv=nv,
                   l1_norm=l1_norm, derivative=derivative, padtype=padtype,
                   rpadded=rpadded, vectorized=vectorized, patience=patience,
-                  cache_wavelet=cache_wavelet)
+                  cache_wavelet=cache_wavelet, nan_checks=nan_checks)
         return cwt_higher_order(x, order=order, average=average,
                                 astensor=astensor, **kw)
 
-- 
2.43.0


From b409cea7f0798672be6fa533488335646f2ea14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:28 +0000
Subject: [PATCH 52/56] fix: decreasing or constant t was accepted, yielding
 negative or infinite fs

---
 ssqueezepy/utils/cwt_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index e8b2fe0..a99f94d 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -716,6 +716,8 @@ def _process_fs_and_t(fs, t, N):
                             "(%s != %s)" % (len(t), N))
         elif not np.mean(np.abs(np.diff(t, 2, axis=0))) < 1e-7:  # float32 thr.
             raise Exception("Time vector `t` must be uniformly sampled.")
+        elif not t[1] > t[0]:
+            raise ValueError("Time vector `t` must be increasing.")
         fs = 1 / (t[1] - t[0])
     else:
         if fs is None:
-- 
2.43.0


From 2fe937a56b8f387cafe8ec9cb167a43dfc7f38c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:28 +0000
Subject: [PATCH 53/56] fix: any t with steps well below 1e-7 was accepted as
 uniform

---
 ssqueezepy/utils/cwt_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index a99f94d..10abe92 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -714,9 +714,11 @@ def _process_fs_and_t(fs, t, N):
             # not explicitly used anywhere but ensures wrong `t` wasn't supplied
             raise Exception("`t` must be of same length as `x` "
                             "(%s != %s)" % (len(t), N))
-        elif not np.mean(np.abs(np.diff(t, 2, axis=0))) < 1e-7:  # float32 thr.
+        # float32 thr.; relative if `t` is small, else anything would pass
+        th = 1e-7 * min(1, np.max(np.abs(t)))
+        if not np.mean(np.abs(np.diff(t, 2, axis=0))) < th:
             raise Exception("Time vector `t` must be uniformly sampled.")
-        elif not t[1] > t[0]:
+        if not t[1] > t[0]:
             raise ValueError("Time vector `t` must be increasing.")
         fs = 1 / (t[1] - t[0])
     else:
-- 
2.43.0


From e387fe4dc3a142a68a8de661ad758d22d5139032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:28 +0000
Subject: [PATCH 54/56] fix: parallel=False was ignored in squeezing, phase
 transforms and buffer

---
 ssqueezepy/algos.py            | 6 +++---
 ssqueezepy/utils/stft_utils.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 4d484ff..6643b59 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -45,7 +45,7 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
                         gamma, parallel, complex_out=True, Sfs=None):
     S.warn_if_tensor_and_par(Wx, parallel)
     gpu = S.is_tensor(Wx)
-    parallel = (parallel or IS_PARALLEL()) and not gpu
+    parallel = (parallel if parallel is not None else IS_PARALLEL()) and not gpu
 
     # process `Wx`, `w_or_dWx`, `out`
     if out is None:
@@ -714,7 +714,7 @@ def phase_cwt_cpu(Wx, dWx, gamma, parallel=None):
     out = np.zeros(Wx.shape, dtype=dtype)
     gamma = np.asarray(gamma, dtype=dtype)
 
-    parallel = parallel or IS_PARALLEL()
+    parallel = parallel if parallel is not None else IS_PARALLEL()
     fn = _phase_cwt_par if parallel else _phase_cwt
     fn(Wx, dWx, out, gamma)
     return out
@@ -788,7 +788,7 @@ def phase_stft_cpu(Wx, dWx, Sfs, gamma, parallel=None):
     out = np.zeros(Wx.shape, dtype=dtype)
     gamma = np.asarray(gamma, dtype=dtype)
 
-    parallel = parallel or IS_PARALLEL()
+    parallel = parallel if parallel is not None else IS_PARALLEL()
     fn = _phase_stft_par if parallel else _phase_stft
     fn(Wx, dWx, Sfs, out, gamma)
     return out
diff --git a/ssqueezepy/utils/stft_utils.py b/ssqueezepy/utils/stft_utils.py
index 208d424..743e68f 100644
--- a/ssqueezepy/utils/stft_utils.py
+++ b/ssqueezepy/utils/stft_utils.py
@@ -52,7 +52,7 @@ def buffer(x, seg_len, n_overlap, modulated=False, parallel=None):
             for _x, _out in zip(x, out):
                 _buffer_gpu(_x,  *args, out=_out)
     else:
-        parallel = parallel or IS_PARALLEL()
+        parallel = parallel if parallel is not None else IS_PARALLEL()
         fn = _buffer_par if parallel else _buffer
 
         if x.ndim == 1:
-- 
2.43.0


From 58613bd1e66842d8f4ca46c26ead029a12d171c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:28 +0000
Subject: [PATCH 55/56] fix: l1_norm=False was ignored or failed with order > 0

---
 ssqueezepy/_cwt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 66b8a23..90b1aee 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -555,6 +555,7 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         OlhedeWaldenGenMorse.pdf
     """
     def _process_wavelet(wavelet, order):
+        wavelet = _process_gmw_wavelet(wavelet, kw.get('l1_norm', True))
         wavelet = Wavelet._init_if_not_isinstance(wavelet)
         if not wavelet.name.lower().startswith('gmw'):
             raise ValueError("`wavelet` must be GMW for higher-order transforms "
-- 
2.43.0


From 016909c175c68c9aeef84849d11e624a0a9a53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:28 +0000
Subject: [PATCH 56/56] fix: higher-order GMW with the other norm than l1_norm
 was accepted

---
 ssqueezepy/_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 90b1aee..a3b4acd 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -513,9 +513,9 @@ def _process_gmw_wavelet(wavelet, l1_norm):
         wavelet = (wavelet, {**wavopts, 'norm': wavopts.get('norm', norm)})
 
     elif isinstance(wavelet, Wavelet):
-        if wavelet.name == 'GMW L2' and l1_norm:
+        if wavelet.name.startswith('GMW L2') and l1_norm:
             raise ValueError("using GMW L2 wavelet with `l1_norm=True`")
-        elif wavelet.name == 'GMW L1' and not l1_norm:
+        elif wavelet.name.startswith('GMW L1') and not l1_norm:
             raise ValueError("using GMW L1 wavelet with `l1_norm=False`")
     return wavelet
 
-- 
2.43.0

