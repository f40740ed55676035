From 9a153e67593ca5acb989c82e7b5e45ed05c77a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:33 +0000
Subject: [PATCH 1/3] fix: do not swallow interrupts and memory errors while
 normalising gammatone filters

---
 spafe/fbanks/gammatone_fbanks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/fbanks/gammatone_fbanks.py b/spafe/fbanks/gammatone_fbanks.py
index d8b827b..1e37f63 100644
--- a/spafe/fbanks/gammatone_fbanks.py
+++ b/spafe/fbanks/gammatone_fbanks.py
@@ -222,7 +222,7 @@ def gammatone_filter_banks(
     try:
         fbank = np.array([f / np.max(f) for f in fbank[:, range(maxlen)]])
 
-    except BaseException:
+    except (FloatingPointError, RuntimeWarning):
         fbank = fbank[:, idx]
 
     # compute scaling
-- 
2.43.0


From 07f20d001a584d041b355e9496713babce9aae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:43 +0000
Subject: [PATCH 2/3] fix: reject multi-channel and row signals instead of
 striding out of bounds

---
 spafe/utils/exceptions.py    | 1 +
 spafe/utils/preprocessing.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/spafe/utils/exceptions.py b/spafe/utils/exceptions.py
index 892bae0..472f2c2 100644
--- a/spafe/utils/exceptions.py
+++ b/spafe/utils/exceptions.py
@@ -13,6 +13,7 @@ ErrorMsgs = {
     "nfft": "size of the FFT must be an integer.",
     "nfilts": "number of filters must be bigger than number of cepstrums",
     "win_len_win_hop_comparison": "window's length has to be larger than the window's hop",
+    "sig_shape": "signal must be mono: a one-dimensional (N) or column (Nx1) array.",
 }
 
 
diff --git a/spafe/utils/preprocessing.py b/spafe/utils/preprocessing.py
index eef8d6a..846caf6 100644
--- a/spafe/utils/preprocessing.py
+++ b/spafe/utils/preprocessing.py
@@ -89,6 +89,11 @@ def stride_trick(a: np.ndarray, stride_length: int, stride_step: int) -> np.ndar
         https://numpy.org/doc/stable/reference/generated/numpy.lib.stride_tricks.sliding_window_view.html
     """
     a = np.array(a)
+
+    # only one sample per row can be strided over without leaving the array
+    if a.size != a.shape[0]:
+        raise ParameterError(ErrorMsgs["sig_shape"])
+
     nrows = ((a.size - stride_length) // stride_step) + 1
     n = a.strides[0]
     return np.lib.stride_tricks.as_strided(
-- 
2.43.0


From 5ebf712772f1672feb228a883d1a334b9a0e791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:21 +0000
Subject: [PATCH 3/3] fix: reject a negative hop instead of striding out of the
 signal

---
 spafe/utils/exceptions.py    | 1 +
 spafe/utils/preprocessing.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/spafe/utils/exceptions.py b/spafe/utils/exceptions.py
index 472f2c2..8015dcf 100644
--- a/spafe/utils/exceptions.py
+++ b/spafe/utils/exceptions.py
@@ -13,6 +13,7 @@ ErrorMsgs = {
     "nfft": "size of the FFT must be an integer.",
     "nfilts": "number of filters must be bigger than number of cepstrums",
     "win_len_win_hop_comparison": "window's length has to be larger than the window's hop",
+    "win_hop": "window's hop cannot be less than zero.",
     "sig_shape": "signal must be mono: a one-dimensional (N) or column (Nx1) array.",
 }
 
diff --git a/spafe/utils/preprocessing.py b/spafe/utils/preprocessing.py
index 846caf6..a160c40 100644
--- a/spafe/utils/preprocessing.py
+++ b/spafe/utils/preprocessing.py
@@ -94,6 +94,10 @@ def stride_trick(a: np.ndarray, stride_length: int, stride_step: int) -> np.ndar
     if a.size != a.shape[0]:
         raise ParameterError(ErrorMsgs["sig_shape"])
 
+    # a negative step would walk out of the array through its beginning
+    if stride_step < 0:
+        raise ParameterError(ErrorMsgs["win_hop"])
+
     nrows = ((a.size - stride_length) // stride_step) + 1
     n = a.strides[0]
     return np.lib.stride_tricks.as_strided(
-- 
2.43.0

