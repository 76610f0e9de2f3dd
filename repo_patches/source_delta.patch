From 83b5cb4df33cdf54b44d0a8783e69d89ec5b011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 01/45] fix: padsignal 'symmetric' mis-sized output with zero
 or over-long left pad

---
 ssqueezepy/utils/common.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index ea68fe6..e5227d2 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -143,10 +143,7 @@ def padsignal(x, padtype='reflect', padlength=None, get_params=False):
             xp = np.pad(x, pad_width, mode='wrap')
         elif padtype == 'symmetric':
             # [1,2,3,4] -> [4,3,2,1, 1,2,3,4, 4,3,2]
-            if x.ndim == 1:
-                xp = np.hstack([x[::-1][-n1:], x, x[::-1][:n2]])
-            elif x.ndim == 2:
-                xp = np.hstack([x[:, ::-1][:, -n1:], x, x[:, ::-1][:, :n2]])
+            xp = np.pad(x, pad_width, mode='symmetric')
     else:
         import torch
         mode = 'constant' if padtype == 'zero' else 'reflect'
-- 
2.43.0


From 60e9625a217dd4c92457e2f866f6ebbda662211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 02/45] fix: ssqueeze returned reversed ssq_freqs for CWT with
 flipud=False

---
 ssqueezepy/ssqueezing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 1dd7ce9..a267b6c 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -213,8 +213,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         for _Tx, _w, _Wx, _dWx in zip(Tx, w, Wx, dWx):
             _ssqueeze(_Tx, _w, _Wx, _dWx, *args)
 
-    # `scales` go high -> low
-    if (transform == 'cwt' and not flipud) or flipud:
+    # `ssq_freqs` go low -> high; match the order of rows of `Tx`
+    if flipud:
         if not isinstance(ssq_freqs, np.ndarray):
             import torch
             ssq_freqs = torch.flip(ssq_freqs, (0,))
-- 
2.43.0


From 2418123a4de73988e10b4ddc8341a840ebd95dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 03/45] fix: one-pass squeezing modes used phase of transformed
 Wx; lebesgue scaled by batch size

---
 ssqueezepy/ssqueezing.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index a267b6c..4cc7620 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -2,6 +2,7 @@
 import numpy as np
 from types import FunctionType
 from .algos import indexed_sum_onfly, ssqueeze_fast
+from .algos import phase_cwt_cpu, phase_cwt_gpu, phase_stft_cpu, phase_stft_gpu
 from .utils import p2up, process_scales, infer_scaletype, _process_fs_and_t
 from .utils import NOTE, pi, logscale_transition_idx, assert_is_one_of
 from .utils.backend import Q
@@ -194,10 +195,13 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         ssq_scaletype, _ = infer_scaletype(ssq_freqs)
 
     # transform `Wx` if needed
+    if squeezing != 'sum' and w is None:
+        # phase transform must be of original `Wx`
+        w, dWx = _phase_transform(Wx, dWx, Sfs, gamma), None
     if isinstance(squeezing, FunctionType):
         Wx = squeezing(Wx)
     elif squeezing == 'lebesgue':  # from reference [3]
-        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / len(Wx)
+        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / Wx.shape[-2]
     elif squeezing == 'abs':
         Wx = Q.abs(Wx)
 
@@ -225,6 +229,17 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
 
 
 #### `ssqueeze` utils ########################################################
+def _phase_transform(Wx, dWx, Sfs, gamma):
+    if Wx.ndim == 3:
+        return Q.stack([_phase_transform(_Wx, _dWx, Sfs, gamma)
+                        for _Wx, _dWx in zip(Wx, dWx)])
+    if Sfs is None:
+        fn = phase_cwt_gpu if S.is_tensor(Wx) else phase_cwt_cpu
+        return fn(Wx, dWx, gamma)
+    fn = phase_stft_gpu if S.is_tensor(Wx) else phase_stft_cpu
+    return fn(Wx, dWx, Sfs, gamma)
+
+
 def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
     if isinstance(maprange, tuple):
         fm, fM = maprange
-- 
2.43.0


From 63164e9c19f58e98b8a37bb11429bff445bd28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 04/45] fix: phase transforms divided by zero at |Wx| == gamma,
 unlike one-pass squeezing

---
 ssqueezepy/algos.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 770589a..96af2ae 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -705,7 +705,7 @@ def find_first_occurrence(fn, value, step_size=1e-3, steps_per_search=1e4,
 
 def phase_cwt_cpu(Wx, dWx, gamma, parallel=None):
     """Computes only the imaginary part of `dWx / Wx` while dividing by 2*pi
-    in same operation; doesn't compute division at all if `abs(Wx) < gamma`.
+    in same operation; doesn't compute division at all if `abs(Wx) <= gamma`.
     Less memory & less computation than `(dWx / Wx).imag / (2*pi)`, same result.
     """
     dtype = 'float32' if Wx.dtype == np.complex64 else 'float64'
@@ -721,7 +721,7 @@ def phase_cwt_cpu(Wx, dWx, gamma, parallel=None):
 def _phase_cwt(Wx, dWx, out, gamma):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
                 A, B = dWx[i, j].real, dWx[i, j].imag
@@ -732,7 +732,7 @@ def _phase_cwt(Wx, dWx, out, gamma):
 def _phase_cwt_par(Wx, dWx, out, gamma):
     for i in prange(Wx.shape[0]):
         for j in prange(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
                 A, B = dWx[i, j].real, dWx[i, j].imag
@@ -753,7 +753,7 @@ def phase_cwt_gpu(Wx, dWx, gamma):
         if (i >= ${M} || j >= ${N})
             return;
 
-        if (norm${f}(2, Wx[i][j]) < *gamma){
+        if (norm${f}(2, Wx[i][j]) <= *gamma){
           out[i][j] = 1.0/0.0;
           return;
         }
@@ -795,7 +795,7 @@ def phase_stft_cpu(Wx, dWx, Sfs, gamma, parallel=None):
 def _phase_stft(Wx, dWx, Sfs, out, gamma):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
                 A, B = dWx[i, j].real, dWx[i, j].imag
@@ -807,7 +807,7 @@ def _phase_stft(Wx, dWx, Sfs, out, gamma):
 def _phase_stft_par(Wx, dWx, Sfs, out, gamma):
     for i in prange(Wx.shape[0]):
         for j in prange(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
                 A, B = dWx[i, j].real, dWx[i, j].imag
@@ -828,7 +828,7 @@ def phase_stft_gpu(Wx, dWx, Sfs, gamma):
         if (i >= ${M} || j >= ${N})
             return;
 
-        if (norm${f}(2, Wx[i][j]) < *gamma){
+        if (norm${f}(2, Wx[i][j]) <= *gamma){
           out[i][j] = 1.0/0.0;
           return;
         }
@@ -1278,7 +1278,7 @@ _kernel_codes = dict(
         if (i >= ${M} || j >= ${N})
             return;
 
-        if (norm${f}(2, Wx[i][j]) < *gamma){
+        if (norm${f}(2, Wx[i][j]) <= *gamma){
           out[i][j] = 1.0/0.0;
           return;
         }
-- 
2.43.0


From 0991e317ca1cea0eac847f8146bedbb7949be4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 05/45] fix: explicit parallel=False was overridden by the
 configured default

---
 ssqueezepy/algos.py            | 7 ++++---
 ssqueezepy/utils/stft_utils.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 96af2ae..abf0fa7 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -45,7 +45,8 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
                         gamma, parallel, complex_out=True, Sfs=None):
     S.warn_if_tensor_and_par(Wx, parallel)
     gpu = S.is_tensor(Wx)
-    parallel = (parallel or IS_PARALLEL()) and not gpu
+    parallel = ((parallel or (parallel is None and IS_PARALLEL())) and
+                not gpu)
 
     # process `Wx`, `w_or_dWx`, `out`
     if out is None:
@@ -712,7 +713,7 @@ def phase_cwt_cpu(Wx, dWx, gamma, parallel=None):
     out = np.zeros(Wx.shape, dtype=dtype)
     gamma = np.asarray(gamma, dtype=dtype)
 
-    parallel = parallel or IS_PARALLEL()
+    parallel = parallel or (parallel is None and IS_PARALLEL())
     fn = _phase_cwt_par if parallel else _phase_cwt
     fn(Wx, dWx, out, gamma)
     return out
@@ -786,7 +787,7 @@ def phase_stft_cpu(Wx, dWx, Sfs, gamma, parallel=None):
     out = np.zeros(Wx.shape, dtype=dtype)
     gamma = np.asarray(gamma, dtype=dtype)
 
-    parallel = parallel or IS_PARALLEL()
+    parallel = parallel or (parallel is None and IS_PARALLEL())
     fn = _phase_stft_par if parallel else _phase_stft
     fn(Wx, dWx, Sfs, out, gamma)
     return out
diff --git a/ssqueezepy/utils/stft_utils.py b/ssqueezepy/utils/stft_utils.py
index 208d424..6238f57 100644
--- a/ssqueezepy/utils/stft_utils.py
+++ b/ssqueezepy/utils/stft_utils.py
@@ -52,7 +52,7 @@ def buffer(x, seg_len, n_overlap, modulated=False, parallel=None):
             for _x, _out in zip(x, out):
                 _buffer_gpu(_x,  *args, out=_out)
     else:
-        parallel = parallel or IS_PARALLEL()
+        parallel = parallel or (parallel is None and IS_PARALLEL())
         fn = _buffer_par if parallel else _buffer
 
         if x.ndim == 1:
-- 
2.43.0


From af54912a96205077122d6da0a548ff9b212b8ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 06/45] fix: stft derivative was not scaled by fs with
 modulated=False

---
 ssqueezepy/_stft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 63728a0..799c7ed 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -132,12 +132,12 @@ def stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=None,
         if modulated:
             window = ifftshift(window, astensor=True)
             if derivative:
-                diff_window = ifftshift(diff_window, astensor=True) * fs
+                diff_window = ifftshift(diff_window, astensor=True)
 
         reshape = (-1, 1) if xp.ndim == 1 else (1, -1, 1)
         Sx *= window.reshape(*reshape)
         if derivative:
-            dSx *= (diff_window.reshape(*reshape))
+            dSx *= (diff_window.reshape(*reshape) * fs)
 
         # keep only positive frequencies (Hermitian symmetry assuming real `x`)
         axis = 0 if xp.ndim == 1 else 1
-- 
2.43.0


From 1791f13fe303056f7ce6c7df430959be37617728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 07/45] fix: istft returned an empty signal for n_fft of 1 or 2

---
 ssqueezepy/_stft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 799c7ed..afecbb9 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -251,7 +251,7 @@ def istft(Sx, window=None, n_fft=None, win_len=None, hop_len=1, N=None,
         x /= wn
 
     # unpad
-    x = x[n_fft//2 : -((n_fft - 1)//2)]
+    x = x[n_fft//2 : n_fft//2 + N]
 
     return x
 
-- 
2.43.0


From 6dce460cfb824252205dd7236ed2c54d239060a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 08/45] fix: find_closest clipped to number of rows of input
 rather than of entries to search

---
 ssqueezepy/algos.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index abf0fa7..6bac707 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -377,7 +377,7 @@ def _get_params_find_closest_log(v):
 def find_closest_log(a, v, parallel=True):
     idx, params = _get_params_find_closest_log(v)
     out = np.zeros(a.shape, dtype=np.int32)
-    params['omax'] = len(out) - 1
+    params['omax'] = len(v) - 1
 
     if idx is None:
         fn = _find_closest_log_par if parallel else _find_closest_log
@@ -406,6 +406,8 @@ def _find_closest_log_piecewise(a, out, vlmin0, vlmin1, dvl0, dvl1, idx1,
                                 omax):
     for i in range(a.shape[0]):
         for j in range(a.shape[1]):
+            if np.isinf(a[i, j]):
+                continue
             al = np.log2(a[i, j])
             if al > vlmin1:
                 out[i, j] = min(round((al - vlmin1) / dvl1) + idx1, omax)
@@ -434,7 +436,7 @@ def find_closest_lin(a, v, parallel=True):
     out = np.zeros(a.shape, dtype=np.int32)
 
     fn = _find_closest_lin_par if parallel else _find_closest_lin
-    fn(a, out, vmin, dv, omax=len(out) - 1)
+    fn(a, out, vmin, dv, omax=len(v) - 1)
     return out
 
 @jit(nopython=True, cache=True)
-- 
2.43.0


From 53b0ee189a7b09fb996031655eadbcbca9e58b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 09/45] fix: synchrosqueezed output had as many rows as the
 transform, not as ssq_freqs

---
 ssqueezepy/algos.py      | 52 +++++++++++++++++++++-------------------
 ssqueezepy/ssqueezing.py |  3 ++-
 2 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 6bac707..c58e4eb 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -50,7 +50,9 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
 
     # process `Wx`, `w_or_dWx`, `out`
     if out is None:
-        out_shape = (*Wx.shape, 2) if (gpu and complex_out) else Wx.shape
+        out_shape = (len(ssq_freqs), Wx.shape[1])
+        if gpu and complex_out:
+            out_shape = (*out_shape, 2)
         if gpu:
             out_dtype = (torch.float32 if Wx.dtype == torch.complex64 else
                          torch.float64)
@@ -91,9 +93,9 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
         # process kernel params
         (blockspergrid, threadsperblock, kernel_kw, str_dtype
          ) = _get_kernel_params(Wx, dim=1)
-        M = kernel_kw['M']
-        kernel_kw.update(dict(f='f' if kernel_kw['dtype'] == 'float' else '',
-                              extra=f"k = {M} - 1 - k;" if flipud else ""))
+        K = len(out)
+        kernel_kw.update(dict(f='f' if kernel_kw['dtype'] == 'float' else '', K=K,
+                              extra=f"k = {K} - 1 - k;" if flipud else ""))
 
         # collect tensors & constants
         if 'idx1' in params:
@@ -1012,7 +1014,7 @@ _kernel_codes = dict(
     extern "C" __global__
     void ssq_cwt_log_piecewise(${dtype} Wx[${M}][${N}][2],
                                ${dtype} dWx[${M}][${N}][2],
-                               ${dtype} out[${M}][${N}][2],
+                               ${dtype} out[${K}][${N}][2],
                                ${dtype} const_arr[${M}],
                                ${dtype} *gamma,
                                double vlmin0, double vlmin1,
@@ -1038,8 +1040,8 @@ _kernel_codes = dict(
             wl = log2${f}(w_ij);
             if (wl > vlmin1){
                 k = (int)round((wl - vlmin1) / dvl1) + idx1;
-                if (k >= ${M})
-                    k = ${M} - 1;
+                if (k >= ${K})
+                    k = ${K} - 1;
             } else {
                 k = (int)round((wl - vlmin0) / dvl0);
                 if (k < 0)
@@ -1058,7 +1060,7 @@ _kernel_codes = dict(
     extern "C" __global__
     void ssq_cwt_log(${dtype} Wx[${M}][${N}][2],
                      ${dtype} dWx[${M}][${N}][2],
-                     ${dtype} out[${M}][${N}][2],
+                     ${dtype} out[${K}][${N}][2],
                      ${dtype} const_arr[${M}],
                      ${dtype} *gamma,
                      double vlmin, double dvl) {
@@ -1079,8 +1081,8 @@ _kernel_codes = dict(
             w_ij = abs((B*C - A*D) / ((C*C + D*D) * 6.283185307179586));
 
             k = (int)round(((double)log2${f}(w_ij) - vlmin) / dvl);
-            if (k >= ${M})
-                k = ${M} - 1;
+            if (k >= ${K})
+                k = ${K} - 1;
             else if (k < 0)
                 k = 0;
             ${extra}
@@ -1096,7 +1098,7 @@ _kernel_codes = dict(
     extern "C" __global__
     void ssq_cwt_lin(${dtype} Wx[${M}][${N}][2],
                      ${dtype} dWx[${M}][${N}][2],
-                     ${dtype} out[${M}][${N}][2],
+                     ${dtype} out[${K}][${N}][2],
                      ${dtype} const_arr[${M}],
                      ${dtype} *gamma,
                      double vmin, double dv) {
@@ -1117,8 +1119,8 @@ _kernel_codes = dict(
             w_ij = abs((B*C - A*D) / ((C*C + D*D) * 6.283185307179586));
 
             k = (int)round(((double)w_ij - vmin) / dv);
-            if (k >= ${M})
-                k = ${M} - 1;
+            if (k >= ${K})
+                k = ${K} - 1;
             else if (k < 0)
                 k = 0;
             ${extra}
@@ -1135,7 +1137,7 @@ _kernel_codes = dict(
     void ssq_stft(${dtype} Wx[${M}][${N}][2],
                   ${dtype} dWx[${M}][${N}][2],
                   ${dtype} Sfs[${M}],
-                  ${dtype} out[${M}][${N}][2],
+                  ${dtype} out[${K}][${N}][2],
                   ${dtype} const_arr[${M}],
                   ${dtype} *gamma,
                   double vmin, double dv) {
@@ -1156,8 +1158,8 @@ _kernel_codes = dict(
             w_ij = abs(Sfs[i] - (B*C - A*D) / ((C*C + D*D) * 6.283185307179586));
 
             k = (int)round(((double)w_ij - vmin) / dv);
-            if (k >= ${M})
-                k = ${M} - 1;
+            if (k >= ${K})
+                k = ${K} - 1;
             else if (k < 0)
                 k = 0;
             ${extra}
@@ -1173,7 +1175,7 @@ _kernel_codes = dict(
     extern "C" __global__
     void indexed_sum_log_piecewise(${dtype} Wx[${M}][${N}][2],
                                    ${dtype} w[${M}][${N}],
-                                   ${dtype} out[${M}][${N}][2],
+                                   ${dtype} out[${K}][${N}][2],
                                    ${dtype} const_arr[${M}],
                                    double vlmin0, double vlmin1,
                                    double dvl0, double dvl1,
@@ -1192,8 +1194,8 @@ _kernel_codes = dict(
 
           if (wl > vlmin1){
               k = (int)round((wl - vlmin1) / dvl1) + idx1;
-              if (k >= ${M})
-                  k = ${M} - 1;
+              if (k >= ${K})
+                  k = ${K} - 1;
           } else {
               k = (int)round((wl - vlmin0) / dvl0);
               if (k < 0)
@@ -1212,7 +1214,7 @@ _kernel_codes = dict(
     extern "C" __global__
     void indexed_sum_log(${dtype} Wx[${M}][${N}][2],
                          ${dtype} w[${M}][${N}],
-                         ${dtype} out[${M}][${N}][2],
+                         ${dtype} out[${K}][${N}][2],
                          ${dtype} const_arr[${M}],
                          double vlmin, double dvl)
     {
@@ -1226,8 +1228,8 @@ _kernel_codes = dict(
         if (!isinf(w[i][j])){
           k = (int)round(((double)log2${f}(w[i][j]) - vlmin) / dvl);
 
-          if (k >= ${M})
-              k = ${M} - 1;
+          if (k >= ${K})
+              k = ${K} - 1;
           else if (k < 0)
               k = 0;
           ${extra}
@@ -1243,7 +1245,7 @@ _kernel_codes = dict(
     extern "C" __global__
     void indexed_sum_lin(${dtype} Wx[${M}][${N}][2],
                          ${dtype} w[${M}][${N}],
-                         ${dtype} out[${M}][${N}][2],
+                         ${dtype} out[${K}][${N}][2],
                          ${dtype} const_arr[${M}],
                          double vmin, double dv)
     {
@@ -1257,8 +1259,8 @@ _kernel_codes = dict(
         if (!isinf(w[i][j])){
           k = (int)round(((double)(w[i][j]) - vmin) / dv);
 
-          if (k >= ${M})
-              k = ${M} - 1;
+          if (k >= ${K})
+              k = ${K} - 1;
           else if (k < 0)
               k = 0;
           ${extra}
diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 4cc7620..1543a8c 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -206,7 +206,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         Wx = Q.abs(Wx)
 
     # synchrosqueeze
-    Tx = S.zeros(Wx.shape, dtype=Wx.dtype)
+    out_shape = (*Wx.shape[:-2], len(ssq_freqs), Wx.shape[-1])
+    Tx = S.zeros(out_shape, dtype=Wx.dtype)
     args = (nv, ssq_freqs, scales, transform, ssq_scaletype,
             cwt_scaletype, flipud, gamma, Sfs)
     if Wx.ndim == 2:
-- 
2.43.0


From 405c5c9ffe77471638fa43705336d26694230281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 10/45] fix: ssq_stft output scaled with fs, breaking issq_stft
 for fs != 1

---
 ssqueezepy/_ssq_stft.py  | 2 +-
 ssqueezepy/ssqueezing.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index 05b6fc9..e8cb8ec 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -119,7 +119,7 @@ def ssq_stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=Non
         ssq_freqs = Sfs
     Tx, ssq_freqs = ssqueeze(_Sx, w, squeezing=squeezing, ssq_freqs=ssq_freqs,
                              Sfs=Sfs, flipud=flipud, gamma=gamma, dWx=_dSx,
-                             maprange='maximal', transform='stft')
+                             fs=fs, maprange='maximal', transform='stft')
     # return
     if not astensor and S.is_tensor(Tx):
         Tx, Sx, ssq_freqs, Sfs, w, dSx = [
diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 1543a8c..b5880d4 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -132,7 +132,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
                 # omit /dw since it's cancelled by *dw in inversion anyway
                 const = ((scales[1] - scales[0]) / scales).squeeze()
         elif transform == 'stft':
-            const = (ssq_freqs[1] - ssq_freqs[0])  # 'alpha' from [3]
+            # 'alpha' from [3], normalized by `fs` as inversion sums over bins
+            const = (ssq_freqs[1] - ssq_freqs[0]) * dt
 
         ssq_logscale = ssq_scaletype.startswith('log')
         # do squeezing by finding which frequency bin each phase transform point
-- 
2.43.0


From 66f9e686134d38165816126f6ab07e33f780a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 11/45] fix: forward ridge indices were wrong with more
 frequencies than timeshifts

---
 ssqueezepy/ridge_extraction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 2fbbf93..c7232d3 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -161,8 +161,7 @@ def _accumulated_penalty_energy_fw(energy_to_track, penalty_matrix, parallel):
     fn = (__accumulated_penalty_energy_fwp if parallel else
           __accumulated_penalty_energy_fw)
     fn(penalized_energy, penalty_matrix)
-    ridge_idxs = np.unravel_index(np.argmin(penalized_energy, axis=0),
-                                  penalized_energy.shape)[1]
+    ridge_idxs = np.argmin(penalized_energy, axis=0)
     return penalized_energy, ridge_idxs
 
 
-- 
2.43.0


From a8240cd1be353e6076e1ea30bd676f1c92a4a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 12/45] fix: ridge within `bw` of the first row was not removed
 before finding the next

---
 ssqueezepy/ridge_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index c7232d3..9e08f07 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -140,7 +140,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
         for time_idx in range(n_timeshifts):
             ridx = ridge_idxs[time_idx, i]
-            energy[int(ridx - bw):int(ridx + bw), time_idx] = 0
+            energy[max(int(ridx - bw), 0):int(ridx + bw), time_idx] = 0
 
     return ((ridge_idxs, ridge_f, ridge_e) if get_params else
             ridge_idxs)
-- 
2.43.0


From aa84c3a5268898788d4aea545d5353e304d3d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 13/45] fix: data race in parallel backward ridge tracking

---
 ssqueezepy/ridge_extraction.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 9e08f07..dd66cd2 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -224,8 +224,13 @@ def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw,
         idx_time = (e.shape[1] - 2) - tidx
         val = (pen_e[ridge_idxs_fw[idx_time + 1], idx_time + 1] -
                e[    ridge_idxs_fw[idx_time + 1], idx_time + 1])
+        matches = np.zeros(e.shape[0], dtype=np.bool_)
         for idx_freq in prange(e.shape[0]):
             new_penalty = penalty_matrix[ridge_idxs_fw[idx_time + 1], idx_freq]
+            matches[idx_freq] = abs(
+                val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps
 
-            if abs(val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps:
+        # not in `prange`, multiple matches are possible
+        for idx_freq in range(e.shape[0]):
+            if matches[idx_freq]:
                 ridge_idxs_fw[idx_time] = idx_freq
-- 
2.43.0


From 8c6ad03e17f8220386a2b6e2a0154fbe9342f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 14/45] fix: icwt added x_mean twice for log-piecewise scales

---
 ssqueezepy/_cwt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index fc1a663..214252f 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -425,6 +425,7 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
 
         idx = logscale_transition_idx(scales)
         x  = icwt(Wx[..., :idx, :], scales=scales[:idx], **kw)
+        kw['x_mean'] = 0  # add only once
         x += icwt(Wx[..., idx:, :], scales=scales[idx:], **kw)
         return x
     ##########################################################################
-- 
2.43.0


From eb8675b81706b1e03ec6754178949effaf29c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 15/45] fix: higher-order cwt made scales for the number of
 inputs if batched

---
 ssqueezepy/_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 214252f..41215e8 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -574,7 +574,7 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         scales = kw.get('scales', 'log-piecewise')
         if isinstance(scales, str):
             wav = Wavelet(('gmw', dict(order=0, **wavopts)))
-            scales = process_scales(scales, len(x), wavelet=wav,
+            scales = process_scales(scales, x.shape[-1], wavelet=wav,
                                     nv=kw.get('nv', 32))
             scales = S.asarray(scales, wav.dtype)
         kw['scales'] = scales
-- 
2.43.0


From 4203f05dabd04bc3af084507a2a935317057e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 16/45] fix: higher-order ssq_cwt unpadded along wrong axis if
 batched, and unpadded with padtype=None

---
 ssqueezepy/_ssq_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 43cb021..370fa30 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -231,12 +231,12 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                   l1_norm=True, derivative=False, padtype=padtype, rpadded=True,
                   vectorized=vectorized, astensor=True,
                   cache_wavelet=cache_wavelet, nan_checks=nan_checks)
-        _, n1, _ = p2up(N)
+        n1 = p2up(N)[1] if padtype is not None else 0
         average = isinstance(order, (tuple, list, range))
 
         Wx, scales = cwt(x, order=order, average=average, **kw)
         dWx = trigdiff(Wx, fs, rpadded=True, N=N, n1=n1)
-        Wx = Wx[:, n1:n1 + N]
+        Wx = Wx[..., n1:n1 + N]
         if S.is_tensor(Wx):
             Wx = Wx.contiguous()
 
-- 
2.43.0


From 1e4a8483b7ebe571d3aca3ad99ef1e461beffa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 17/45] fix: trigdiff with padtype returned part of the padding

---
 ssqueezepy/utils/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index e5227d2..f0bfab8 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -209,6 +209,7 @@ def trigdiff(A, fs=1., padtype=None, rpadded=None, N=None, n1=None, window=None,
     rpadded, padtype = _process_args(A, rpadded, padtype, N, transform, window)
 
     if padtype is not None:
+        N = A.shape[-1]
         A, _, n1, *_ = padsignal(A, padtype, get_params=True)
 
     if transform == 'cwt':
-- 
2.43.0


From e199ca1851e3fe8f3e1c2891463bdcc4995cd737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 18/45] fix: ssq_cwt returned padded Wx, dWx with
 difftype='numeric'

---
 ssqueezepy/_ssq_cwt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 370fa30..c332647 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -290,7 +290,9 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
 
     # postprocessing & return
     if difftype == 'numeric':
-        Wx = Wx[:, 4:-4]
+        _, n1, _ = p2up(N)
+        Wx = Wx[:, n1:n1 + N]
+        dWx = dWx[:, n1:n1 + N] if dWx is not None else None
         Tx = Tx[:, 4:-4]
         w  = w[:,  4:-4] if w is not None else None
 
-- 
2.43.0


From c2147b4771681a45ec8248828dae196ce2809085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 19/45] fix: cwt, icwt wrote `norm` into the passed wavelet
 options, affecting later calls

---
 ssqueezepy/_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 41215e8..73e97f1 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -504,7 +504,7 @@ def _process_gmw_wavelet(wavelet, l1_norm):
 
     elif isinstance(wavelet, tuple) and wavelet[0].lower()[:3] == 'gmw':
         wavelet, wavopts = wavelet
-        wavopts['norm'] = wavopts.get('norm', norm)
+        wavopts = dict(wavopts, norm=wavopts.get('norm', norm))
         wavelet = (wavelet, wavopts)
 
     elif isinstance(wavelet, Wavelet):
-- 
2.43.0


From e24a75f0b0832a203682bac28cc347440d6251ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 20/45] fix: cwt overwrote NaN and inf values of the caller's
 array

---
 ssqueezepy/_cwt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 73e97f1..4b46e56 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -212,7 +212,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
                 raise ValueError("`nan_checks=True` requires NumPy input.")
             elif np.isnan(x.max()) or np.isinf(x.max()) or np.isinf(x.min()):
                 WARN("found NaN or inf values in `x`; will zero")
-                replace_at_inf_or_nan(x, replacement=0.)
+                x = replace_at_inf_or_nan(x.copy(), replacement=0.)
 
         if cache_wavelet:
             if isinstance(wavelet, (str, tuple)):
@@ -233,7 +233,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         N = x.shape[-1]
         dt, *_ = _process_fs_and_t(fs, t, N=N)
         is_2D = (x.ndim == 2)
-        return N, nv, dt, is_2D, cache_wavelet
+        return x, N, nv, dt, is_2D, cache_wavelet
 
     if isinstance(order, (tuple, list, range)) or order > 0:
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, t=t, nv=nv,
@@ -243,7 +243,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         return cwt_higher_order(x, order=order, average=average,
                                 astensor=astensor, **kw)
 
-    (N, nv, dt, is_2D, cache_wavelet
+    (x, N, nv, dt, is_2D, cache_wavelet
      ) = _process_args(x, scales, nv, fs, t, nan_checks, wavelet, cache_wavelet)
 
     # process `wavelet`, get its `dtype`
-- 
2.43.0


From 29a3e12777e140938cfe131a935cbbaf27a7f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 21/45] fix: evaluating a GMW zeroed negative frequencies of
 the caller's array

---
 ssqueezepy/_gmw.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 6997d77..5533864 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -205,7 +205,7 @@ def _gmw_l1(w, gamma, beta, wc, wcl):
     # NOTE: numba.jit, unlike numpy & torch, will promote to float64 with
     # array float32 and scalar float64
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return 2 * np.exp(- beta * wcl + wc**gamma
                       + beta * np.log(w) - w**gamma) * w_nonneg
 
@@ -214,13 +214,13 @@ def _gmw_l1_par(w, gamma, beta, wc, wcl):
     # NOTE: numba.jit, unlike numpy & torch, will promote to float64 with
     # array float32 and scalar float64
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return 2 * np.exp(- beta * wcl + wc**gamma
                       + beta * np.log(w) - w**gamma) * w_nonneg
 
 def _gmw_l1_gpu(w, gamma, beta, wc, wcl):
     w_nonneg = (w >= 0)
-    w *= w_nonneg
+    w = w * w_nonneg
     return 2 * torch.exp(- beta * wcl + wc**gamma
                          + beta * torch.log(w) - w**gamma) * w_nonneg
 
@@ -246,20 +246,20 @@ def gmw_l2(gamma=3., beta=60., centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l2(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
                    ) * w**beta * np.exp(-w**gamma) * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_par(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
                    ) * w**beta * np.exp(-w**gamma) * w_nonneg
 
 def _gmw_l2_gpu(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return torch.sqrt(2.*pi * gamma * 2.**r / rgamma
                       ) * w**beta * torch.exp(-w**gamma) * w_nonneg
 
@@ -285,7 +285,7 @@ def gmw_l1_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l1_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -296,7 +296,7 @@ def _gmw_l1_k(w, gamma, beta, wc, k_consts):
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -306,7 +306,7 @@ def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
 
 def _gmw_l1_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
@@ -336,7 +336,7 @@ def gmw_l2_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l2_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -346,7 +346,7 @@ def _gmw_l2_k(w, gamma, beta, wc, k_consts):
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -355,7 +355,7 @@ def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
 
 def _gmw_l2_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
-- 
2.43.0


From 407cb369d6cf64b856a14a91e5c46e5aacb797f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 22/45] fix: Wavelet.Psih returned values cached for another
 `nohalf`

---
 ssqueezepy/wavelets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 72564bb..7dce767 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -145,7 +145,8 @@ class Wavelet():
         N_is_None = N is None
         N = N or self.N
         if ((scale is None and N_is_None) or
-                (N == pN and (len(scale) == len(ps) and S.allclose(scale, ps)))):
+                (N == pN and nohalf == getattr(self, '_Psih_nohalf', None) and
+                 (len(scale) == len(ps) and S.allclose(scale, ps)))):
             return self._Psih
 
         # first empty existing to free memory
@@ -155,6 +156,7 @@ class Wavelet():
 
         self._Psih = self(scale=scale, N=N, nohalf=nohalf)
         self._Psih_N = N
+        self._Psih_nohalf = nohalf
         # store independent of external copy
         self._Psih_scale = scale.clone() if S.is_tensor(scale) else scale.copy()
         return self._Psih
-- 
2.43.0


From b1587662ec12890206a15d2f87d3923ac2e42e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 23/45] fix: cached FFT objects mixed up forward & inverse, and
 overwrote earlier outputs

---
 ssqueezepy/utils/fft_utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 7ae6656..e55aea1 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -164,7 +164,7 @@ class FFT():
             return sfft(x, axis=axis, workers=self.threads)
 
         fft_object = self._get_save_fill(x, axis, patience, real=False)
-        return fft_object()
+        return self._execute(fft_object)
 
     def rfft(self, x, axis=-1, patience=None, astensor=False):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -177,7 +177,7 @@ class FFT():
             return srfft(x, axis=axis, workers=self.threads)
 
         fft_object = self._get_save_fill(x, axis, patience, real=True)
-        return fft_object()
+        return self._execute(fft_object)
 
     def ifft(self, x, axis=-1, patience=None, astensor=False):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -191,7 +191,7 @@ class FFT():
 
         fft_object = self._get_save_fill(x, axis, patience, real=False,
                                          inverse=True)
-        return fft_object()
+        return self._execute(fft_object)
 
     def irfft(self, x, axis=-1, patience=None, astensor=False, n=None):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -205,7 +205,7 @@ class FFT():
 
         fft_object = self._get_save_fill(x, axis, patience, real=True,
                                          inverse=True, n=n)
-        return fft_object()
+        return self._execute(fft_object)
 
     def fftshift(self, x, axes=-1, astensor=False):
         out = self._maybe_gpu('fftshift', x, dim=axes, astensor=astensor)
@@ -235,9 +235,15 @@ class FFT():
         fft_object.input_array[:] = x
         return fft_object
 
+    def _execute(self, fft_object):
+        out = fft_object()
+        # cached object will reuse its output array
+        return out.copy() if self.cache_fft_objects else out
+
     def get_fft_object(self, x, axis, patience=1, real=False, inverse=False,
                        n=None):
-        combo = (x.shape, x.dtype, axis, real, n)
+        combo = (x.shape, x.dtype, axis, real, n, inverse, patience,
+                 self.planning_timelimit)
         if self.cache_fft_objects and combo in self._input_history:
             fft_object = self._input_history[combo]
         else:
-- 
2.43.0


From 564fb58014117e10243d8d75397b44019ccd458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 24/45] fix: two-integral icwt failed with rpadded=True

---
 ssqueezepy/_cwt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 4b46e56..53dff1a 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -2,7 +2,7 @@
 import numpy as np
 from .utils import fft, ifft, ifftshift, FFT_GLOBAL
 from .utils import WARN, adm_cwt, adm_ssq, _process_fs_and_t, is_array_or_tensor
-from .utils import padsignal, process_scales, logscale_transition_idx
+from .utils import padsignal, p2up, process_scales, logscale_transition_idx
 from .utils import backend as S
 from .utils.backend import Q
 from .algos import replace_at_inf_or_nan
@@ -460,6 +460,8 @@ def _icwt_2int(Wx, scales, scaletype, l1_norm, wavelet, x_len,
     # add CWT padding if it doesn't exist
     if not rpadded:
         Wx, n_up, n1, _ = padsignal(Wx, padtype=padtype, get_params=True)
+    else:
+        n_up, n1, _ = p2up(x_len)
 
     # see help(cwt) on `norm` and `pn`
     norm = _icwt_norm(scaletype, l1_norm)
-- 
2.43.0


From 445d86e792ed2ce25ba503a103d2b1cd8a3cddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 25/45] fix: difftype='numeric' sliced as if padded with
 padtype=None or order > 0

---
 ssqueezepy/_ssq_cwt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index c332647..a3e9347 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -214,8 +214,9 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
         elif difftype == 'numeric':
             # !!! tested to be very inaccurate for small scales
             # calculate derivative numerically
-            _, n1, _ = p2up(N)
-            Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
+            if rpadded:
+                _, n1, _ = p2up(N)
+                Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
             w = phase_cwt_num(Wx, dt, difforder, gamma)
         return Wx, w
 
@@ -243,10 +244,10 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
     scales, cwt_scaletype, *_ = process_scales(scales, N, wavelet, nv=nv,
                                                get_params=True)
     # regular CWT
+    rpadded = bool(difftype == 'numeric' and padtype is not None and order == 0)
     if order == 0:
         # l1_norm=True to spare a multiplication; for SSQ_CWT L1 & L2 are exactly
         # same anyway since we're inverting CWT over time-frequency plane
-        rpadded = (difftype == 'numeric')
         Wx, scales, dWx = cwt(x, wavelet, scales=scales, fs=fs, nv=nv,
                               l1_norm=True, derivative=True, padtype=padtype,
                               rpadded=rpadded, vectorized=vectorized,
@@ -289,7 +290,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                              flipud=flipud, dWx=_dWx, transform='cwt')
 
     # postprocessing & return
-    if difftype == 'numeric':
+    if rpadded:
         _, n1, _ = p2up(N)
         Wx = Wx[:, n1:n1 + N]
         dWx = dWx[:, n1:n1 + N] if dWx is not None else None
-- 
2.43.0


From 0e69d5a8da84bafd9e1e6475465885a5764ff4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 26/45] fix: decreasing or constant time vectors were accepted,
 unlike non-positive fs

---
 ssqueezepy/utils/cwt_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index d005c0d..f4e0736 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -708,6 +708,8 @@ def _process_fs_and_t(fs, t, N):
                             "(%s != %s)" % (len(t), N))
         elif not np.mean(np.abs(np.diff(t, 2, axis=0))) < 1e-7:  # float32 thr.
             raise Exception("Time vector `t` must be uniformly sampled.")
+        elif t[1] <= t[0]:
+            raise ValueError("Time vector `t` must be increasing.")
         fs = 1 / (t[1] - t[0])
     else:
         if fs is None:
-- 
2.43.0


From 05c6fbe2e8938fe02c603cb3f0e95ca40e36380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 27/45] fix: clip before rounding in the one-pass log-piecewise
 kernels

The phase transform may be exactly zero, whose log2 is -inf; rounding that
to an integer is undefined (raises OverflowError without jit).
---
 ssqueezepy/algos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index c58e4eb..419e985 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -875,7 +875,7 @@ def _ssq_cwt_log_piecewise(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 if wl > vlmin1:
                     k = int(min(round((wl - vlmin1) / dvl1) + idx1, omax))
                 else:
-                    k = int(max(round((wl - vlmin0) / dvl0), 0))
+                    k = int(round(max((wl - vlmin0) / dvl0, 0)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -894,7 +894,7 @@ def _ssq_cwt_log_piecewise_par(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 if wl > vlmin1:
                     k = int(min(round((wl - vlmin1) / dvl1) + idx1, omax))
                 else:
-                    k = int(max(round((wl - vlmin0) / dvl0), 0))
+                    k = int(round(max((wl - vlmin0) / dvl0, 0)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
-- 
2.43.0


From 1ee506865b81c9e9e5e3e1b0f38e57d2f3ed3644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 28/45] fix: istft: divide by the window norm where it is
 negative

---
 ssqueezepy/_stft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index afecbb9..ca84ade 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -244,8 +244,8 @@ def istft(Sx, window=None, n_fft=None, win_len=None, hop_len=1, N=None,
     # window norm, control for float precision
     wn = window_norm(window, hop_len, n_fft, N, win_exp)
     th = np.finfo(x.dtype).tiny
-    if wn.min() < th:
-        approx_nonzero_idxs = wn > th
+    if np.abs(wn).min() < th:
+        approx_nonzero_idxs = np.abs(wn) > th
         x[approx_nonzero_idxs] /= wn[approx_nonzero_idxs]
     else:
         x /= wn
-- 
2.43.0


From cea348b8c5b4841e682b61a721685397b8e9d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 29/45] fix: istft, issq_stft: default win_len to len(window)
 for array windows, as in stft

---
 ssqueezepy/_ssq_stft.py | 3 ++-
 ssqueezepy/_stft.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index e8cb8ec..4a285dc 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -176,7 +176,8 @@ def issq_stft(Tx, window=None, cc=None, cw=None, n_fft=None, win_len=None,
         cc, cw, full_inverse = _process_component_inversion_args(cc, cw)
 
         n_fft = n_fft or (Tx.shape[0] - 1) * 2
-        win_len = win_len or n_fft
+        win_len = win_len or (len(window) if isinstance(window, np.ndarray) else
+                              n_fft)
 
         window = get_window(window, win_len, n_fft=n_fft)
         _check_NOLA(window, hop_len)
diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index ca84ade..8ca5aba 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -227,7 +227,8 @@ def istft(Sx, window=None, n_fft=None, win_len=None, hop_len=1, N=None,
     """
     ### process args #####################################
     n_fft = n_fft or (Sx.shape[0] - 1) * 2
-    win_len = win_len or n_fft
+    win_len = win_len or (len(window) if isinstance(window, np.ndarray) else
+                          n_fft)
     N = N or hop_len * Sx.shape[1]  # assume largest possible N if not given
     dtype = 'float32' if str(Sx.dtype) == 'complex64' else 'float64'
 
-- 
2.43.0


From 21c339528aec7be401887ead40f2c053ef3f0911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 30/45] fix: Wavelet: keep the imaginary part of complex
 wavelets when its sum is negative

---
 ssqueezepy/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 7dce767..b0e5b00 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -79,7 +79,7 @@ class Wavelet():
             psih = self._halve_nyquist(psih)
         if (S.is_dtype(psih, ('complex64', 'complex128')) and
                 (imag_th is not None) and
-                (psih.imag.sum() / psih.real.sum() < imag_th)):
+                (abs(psih.imag).sum() / abs(psih.real).sum() < imag_th)):
             psih = psih.real
         return psih
 
-- 
2.43.0


From 56730d579bdaad71b11a9715d9cbbae1112f4727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 31/45] fix: find_downsampling_scale: return None when there
 are too few scales to group

---
 ssqueezepy/utils/cwt_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index f4e0736..33adff6 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -552,6 +552,7 @@ def find_downsampling_scale(wavelet, scales, span=5, tol=3, method='sum',
     n_scales = len(Psih)
     n_groups = n_scales - span - 1
     psihs_peaks = None
+    i = 0
 
     for i in range(n_groups):
         psihs = Psih[i:i + span]
-- 
2.43.0


From a773205e47779677be792d027a029bec93882abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 32/45] fix: icwt: 1D `x_mean` of batched `Wx` was not
 broadcast along time

---
 ssqueezepy/_cwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 53dff1a..4d3a175 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -450,6 +450,8 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
         # unclear why the `pi/4` here but it improves inversion
         x *= (2 / Cpsi) * np.pi / 4
 
+    if Wx.ndim == 3 and getattr(x_mean, 'ndim', 0) == 1:
+        x_mean = x_mean[:, None]  # one per input; broadcast along samples
     x += x_mean  # CWT doesn't capture mean (infinite scale)
     return x
 
-- 
2.43.0


From 2f58abf5c581a22e030457aaf427111617e169e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 33/45] fix: icwt: 'log-piecewise' scales with no (or a short)
 downsampled part doubled the result (or raised)

---
 ssqueezepy/_cwt.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 4d3a175..eebc712 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -2,7 +2,7 @@
 import numpy as np
 from .utils import fft, ifft, ifftshift, FFT_GLOBAL
 from .utils import WARN, adm_cwt, adm_ssq, _process_fs_and_t, is_array_or_tensor
-from .utils import padsignal, p2up, process_scales, logscale_transition_idx
+from .utils import padsignal, p2up, process_scales, nv_from_scales
 from .utils import backend as S
 from .utils.backend import Q
 from .algos import replace_at_inf_or_nan
@@ -417,17 +417,11 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
     assert (len(scales) == na), "%s != %s" % (len(scales), na)
 
     #### Handle piecewise scales case ########################################
-    # `nv` must be left unspecified so it's inferred automatically from `scales`
-    # in `process_scales` for each piecewise case
+    # each row is weighted by its own `nv`, whichever side of the transition (if
+    # any) it's on; either side may be too short to infer `nv` from it alone
     if scaletype == 'log-piecewise':
-        kw = dict(wavelet=wavelet, one_int=one_int, x_len=x_len, x_mean=x_mean,
-                  padtype=padtype, rpadded=rpadded, l1_norm=l1_norm)
-
-        idx = logscale_transition_idx(scales)
-        x  = icwt(Wx[..., :idx, :], scales=scales[:idx], **kw)
-        kw['x_mean'] = 0  # add only once
-        x += icwt(Wx[..., idx:, :], scales=scales[idx:], **kw)
-        return x
+        Wx = Wx / S.asarray(nv_from_scales(scales), Wx.real.dtype)
+        scaletype, nv = 'log', 1
     ##########################################################################
 
     #### Invert ##############################################################
-- 
2.43.0


From 07530181f43511166efe3875ef1ba982f9657a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 34/45] fix: ssq_freqs: overflow for log-piecewise scales with
 few downsampled rows and small or large fs

---
 ssqueezepy/ssqueezing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index b5880d4..ee519f8 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -310,9 +310,8 @@ def _compute_associated_frequencies(scales, N, wavelet, ssq_scaletype, maprange,
 
 def _exp_fm(t, fmin, fmax):
     tmin, tmax = t.min(), t.max()
-    a = (fmin**tmax / fmax**tmin) ** (1/(tmax - tmin))
-    b = fmax**(1/tmax) * (1/a)**(1/tmax)
-    return a*b**t
+    # avoid powers of `1/tmax`, which overflow for few rows & extreme `fmin, fmax`
+    return fmin * (fmax / fmin)**((t - tmin)/(tmax - tmin))
 
 
 def _get_center_frequency(wavelet, N, maprange, dt, scale, was_padded):
-- 
2.43.0


From dba7e061b9043f8d02358b745c873bec53ef6438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 35/45] fix: parallel one-pass STFT synchrosqueezing kernel was
 never used

---
 ssqueezepy/algos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 419e985..a66f784 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -133,8 +133,9 @@ def ssqueeze_fast(Wx, dWx, ssq_freqs, const, logscale=False, flipud=False,
     `help(algos.find_closest)` on how `k` is computed.
     """
     def fn_name(transform, ssq_scaletype):
-        return ('ssq_stft' if transform == 'stft' else
-                f'ssq_cwt_{ssq_scaletype}')
+        if transform == 'stft':
+            return 'ssq_stft' + ('_par' if ssq_scaletype.endswith('_par') else '')
+        return f'ssq_cwt_{ssq_scaletype}'
 
     outs = _process_ssq_params(Wx, dWx, ssq_freqs, const, logscale, flipud, out,
                                gamma, parallel, complex_out=True, Sfs=Sfs)
-- 
2.43.0


From 94d6d501fdcab56fe63651ad45118a8204e6ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 36/45] fix: nonzero GMW 'order' configured in configs.ini
 raised TypeError

---
 ssqueezepy/_gmw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 5533864..3516ffe 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -118,7 +118,7 @@ def gmw(gamma=None, beta=None, norm=None, order=None, centered_scale=None,
     _check_args(gamma=gamma, beta=beta, norm=norm, order=order)
     kw = gdefaults('_gmw.gmw', gamma=gamma, beta=beta, norm=norm, order=order,
                    centered_scale=centered_scale, dtype=dtype, as_dict=True)
-    norm, k = kw.pop('norm'), kw.pop('order')
+    norm, k = kw.pop('norm'), int(kw.pop('order'))
     if norm == 'energy'and dtype in ('float32', np.float32):
         raise ValueError("`norm='energy'` w/ `dtype='float32'` is unsupported; "
                          "use 'float64' instead.")
-- 
2.43.0


From a05d37144a76a8d8d47c3fa8b496bf5b6f1cde1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 37/45] fix: ridges were stuck at first row after an all-zero
 column

---
 ssqueezepy/ridge_extraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index dd66cd2..3a4863c 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -130,6 +130,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
     for i in range(n_ridges):
         energy_max = energy.max(axis=0)
+        energy_max[energy_max == 0] = 1  # all-zero: no preference, avoid 0/0
         energy_neg_log_norm = -np.log(energy / energy_max + eps)
 
         ridge_idxs[:, i] = fw_bw_ridge_tracking(energy_neg_log_norm,
-- 
2.43.0


From 190eb081feb37ccbf07d3c971632d86aa8110325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 38/45] fix: difftype='phase' phase transform was in
 cycles/sample, not Hz

---
 ssqueezepy/_ssq_cwt.py     | 1 +
 ssqueezepy/experimental.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index a3e9347..232b3fa 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -211,6 +211,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
             # !!! bad; yields negatives, and forcing abs(w) doesn't help
             # calculate inst. freq. from unwrapped phase of CWT
             w = phase_cwt(Wx, None, difftype, gamma)
+            w /= dt  # cycles/sample -> Hz
         elif difftype == 'numeric':
             # !!! tested to be very inaccurate for small scales
             # calculate derivative numerically
diff --git a/ssqueezepy/experimental.py b/ssqueezepy/experimental.py
index e6eec3b..897e05c 100644
--- a/ssqueezepy/experimental.py
+++ b/ssqueezepy/experimental.py
@@ -216,6 +216,7 @@ def phase_transform(Wx, dWx=None, difftype='trig', difforder=4, gamma=None,
                 # !!! bad; yields negatives, and forcing abs(w) doesn't help
                 # calculate inst. freq. from unwrapped phase of CWT
                 w = phase_cwt(Wx, None, difftype, gamma)
+                w *= fs  # cycles/sample -> Hz
             elif difftype == 'numeric':
                 # !!! tested to be very inaccurate for small scales
                 # calculate derivative numericly
-- 
2.43.0


From 003874686dff3bf44c0e010fa7b369bc71168acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 39/45] fix: phase_ssqueeze ignored `t` in its phase transform

---
 ssqueezepy/experimental.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/experimental.py b/ssqueezepy/experimental.py
index 897e05c..aea6d50 100644
--- a/ssqueezepy/experimental.py
+++ b/ssqueezepy/experimental.py
@@ -2,7 +2,7 @@
 import warnings
 import numpy as np
 from .wavelets import Wavelet, center_frequency
-from .utils import backend as S, cwt_scalebounds, p2up
+from .utils import backend as S, cwt_scalebounds, p2up, _process_fs_and_t
 from .utils.common import EPS32, EPS64, trigdiff
 from .ssqueezing import ssqueeze
 from ._ssq_cwt import phase_cwt, phase_cwt_num
@@ -174,6 +174,9 @@ def phase_ssqueeze(Wx, dWx=None, ssq_freqs=None, scales=None, Sfs=None, fs=1.,
     # Returns:
         Tx, Wx, ssq_freqs, scales, Sfs, w, dWx
     """
+    if t is not None:
+        _, fs, _ = _process_fs_and_t(fs, t, Wx.shape[-1] if N is None else N)
+
     w, Wx, dWx, Sfs, gamma = phase_transform(
         Wx, dWx, difftype, difforder=difforder, gamma=gamma, rpadded=rpadded,
         padtype=padtype, N=N, n1=n1, get_w=get_w, fs=fs, transform=transform)
@@ -183,7 +186,7 @@ def phase_ssqueeze(Wx, dWx=None, ssq_freqs=None, scales=None, Sfs=None, fs=1.,
 
     if maprange is None:
         maprange = 'peak' if transform == 'cwt' else 'maximal'
-    Tx, ssq_freqs = ssqueeze(Wx, w, ssq_freqs, scales, Sfs, fs=fs, t=t,
+    Tx, ssq_freqs = ssqueeze(Wx, w, ssq_freqs, scales, Sfs, fs=fs,
                              squeezing=squeezing, maprange=maprange,
                              wavelet=wavelet, gamma=gamma, was_padded=was_padded,
                              flipud=flipud, dWx=dWx, transform=transform)
-- 
2.43.0


From d8d066affe74ceae5e106898799eab2d5a577752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 40/45] fix: cwt left wavelet.N and FFT settings changed after
 an exception

---
 ssqueezepy/_cwt.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index eebc712..e5f5e7e 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -276,19 +276,20 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
 
     # temporarily adjust `wavelet.N` & `FFT_GLOBAL.patience`
     wavelet_N_orig = wavelet.N
-    wavelet.N = xp.shape[-1]
     patience_orig = (FFT_GLOBAL.patience, FFT_GLOBAL.planning_timelimit)
-    FFT_GLOBAL.patience = patience
+    try:
+        wavelet.N = xp.shape[-1]
+        FFT_GLOBAL.patience = patience
 
-    # take CWT
-    if vectorized:
-        Wx, dWx = _vectorized(xh, scales, wavelet, derivative, cache_wavelet)
-    else:
-        Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
-
-    # restore
-    wavelet.N = wavelet_N_orig
-    FFT_GLOBAL.patience = patience_orig
+        # take CWT
+        if vectorized:
+            Wx, dWx = _vectorized(xh, scales, wavelet, derivative, cache_wavelet)
+        else:
+            Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
+    finally:
+        # restore
+        wavelet.N = wavelet_N_orig
+        FFT_GLOBAL.patience = patience_orig
 
     # handle unpadding, normalization
     if not rpadded and padtype is not None:
-- 
2.43.0


From 760db5fa3ceb2e341b7e78d30601c8c200a321d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 41/45] fix: list `maprange` raised UnboundLocalError

---
 ssqueezepy/ssqueezing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index ee519f8..87075b2 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -180,7 +180,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
             # default to same scheme used by `scales`
             ssq_scaletype = cwt_scaletype
 
-        if ((maprange == 'maximal' or isinstance(maprange, tuple)) and
+        if ((maprange == 'maximal' or isinstance(maprange, (tuple, list))) and
                 ssq_scaletype == 'log-piecewise'):
             raise ValueError("can't have `ssq_scaletype = log-piecewise` or "
                              "tuple with `maprange = 'maximal'` "
@@ -243,7 +243,7 @@ def _phase_transform(Wx, dWx, Sfs, gamma):
 
 
 def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
-    if isinstance(maprange, tuple):
+    if isinstance(maprange, (tuple, list)):
         fm, fM = maprange
     elif maprange == 'maximal':
         dT = dt * N
-- 
2.43.0


From 6e4fdb3cc49ffef780a3fbf459fb4efa68907e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 42/45] fix: phase_ssqueeze default difftype raised with
 get_w=True

---
 ssqueezepy/experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/experimental.py b/ssqueezepy/experimental.py
index aea6d50..4132666 100644
--- a/ssqueezepy/experimental.py
+++ b/ssqueezepy/experimental.py
@@ -146,7 +146,7 @@ def phase_ssqueeze(Wx, dWx=None, ssq_freqs=None, scales=None, Sfs=None, fs=1.,
                    t=None, squeezing='sum', maprange=None, wavelet=None,
                    gamma=None, was_padded=True, flipud=False,
                    rpadded=False, padtype=None, N=None, n1=None,
-                   difftype=None, difforder=None,
+                   difftype='trig', difforder=4,
                    get_w=False, get_dWx=False, transform='cwt'):
     """Take `phase_transform` then `ssqueeze`. Can be used on an arbitrary
     CWT/STFT-like time-frequency transform `Wx`.
-- 
2.43.0


From d8148562be8b2685e2f7046b58b5d5fcaad1a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 43/45] fix: morsewave raised for negative frequencies

---
 ssqueezepy/_gmw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 3516ffe..d737691 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -473,8 +473,8 @@ def morsewave(N, freqs, gamma=3, beta=60, K=1, norm='bandpass'):
         psif[:, n:n+1, :], psi[:, n:n+1, :] = _morsewave1(N, abs(f), gamma, beta,
                                                           K, norm)
         if f < 0:
-            psi[:,   n:n+1, :] = psi[:, n, :].conj()
-            psif[1:, n:n+1, :] = np.flip(psif[1:, n, :], axis=0)
+            psi[:,   n, :] = psi[:, n, :].conj()
+            psif[1:, n, :] = np.flip(psif[1:, n, :], axis=0)
 
     psi = psi.squeeze()
     psif = psif.squeeze()
-- 
2.43.0


From 5dc79cc6f8f2bd428a943445afe1aeeffdede046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 44/45] fix: morsewave with beta=0 divided by zero; half-power
 frequency as documented

---
 ssqueezepy/_gmw.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index d737691..eb1b236 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -635,7 +635,10 @@ def morsefreq(gamma, beta, n_out=1):
         v1.6.9, http://www.jmlilly.net/jmlsoft.html
         https://github.com/jonathanlilly/jLab/blob/master/jWavelet/morsefreq.m
     """
-    wm = (beta / gamma)**(1 / gamma)
+    if beta == 0:
+        wm = (np.log(2) / 2)**(1 / gamma)  # half-power point
+    else:
+        wm = (beta / gamma)**(1 / gamma)
 
     if n_out > 1:
         we = (1 / 2**(1 / gamma)) * (gamma_fn((2*beta + 2) / gamma) /
-- 
2.43.0


From e55419838c3ae680a94e9b5c658aaf47674a15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 45/45] fix: squeezing='abs' (or a real-valued function) raised
 with GPU tensors

---
 ssqueezepy/ssqueezing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 87075b2..2d245f7 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -205,6 +205,10 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         Wx = S.ones(Wx.shape, dtype=Wx.dtype) / Wx.shape[-2]
     elif squeezing == 'abs':
         Wx = Q.abs(Wx)
+    # GPU kernels take complex `Wx`
+    gpu_real = S.is_tensor(Wx) and not Wx.is_complex()
+    if gpu_real:
+        Wx = Wx + 0j
 
     # synchrosqueeze
     out_shape = (*Wx.shape[:-2], len(ssq_freqs), Wx.shape[-1])
@@ -218,6 +222,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
                   for g in (w, dWx)]
         for _Tx, _w, _Wx, _dWx in zip(Tx, w, Wx, dWx):
             _ssqueeze(_Tx, _w, _Wx, _dWx, *args)
+    if gpu_real:
+        Tx = Tx.real.contiguous()
 
     # `ssq_freqs` go low -> high; match the order of rows of `Tx`
     if flipud:
-- 
2.43.0

