From 2ce77e5757cf87d3b142f7e48a34c2a7d8b2c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 01/48] fix: AuxIVA_IP honours n_src=None (all channels)
 instead of crashing

---
 torchiva/auxiva_ip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index f583edf..86803b3 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -221,6 +221,9 @@ class AuxIVA_IP(DRBSSBase):
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
+        if n_src is None:
+            n_src = n_chan
+
         # for now, only supports determined case
         assert callable(model)
 
-- 
2.43.0


From 4a6014fcbe7bfd109a7dbb0f6c8f563a6e15f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 02/48] fix: AuxIVA_IP projection back onto a microphone >=
 n_src returned extra dimensions

---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index 86803b3..fcb8de6 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -96,7 +96,7 @@ def projection_back_from_demixing_matrix(
             e1 = C[..., [ref_mic - n_src], :].transpose(-2, -1)
 
         WW = A + B @ C
-        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape)
+        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape[-2:])
         a = solve_loaded_general(WW.transpose(-2, -1), e1)
         a = a.transpose(-3, -2)
 
-- 
2.43.0


From bed7c4bf4afa5c5fe252c62d5f236b3b6cb352e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 03/48] fix: T_ISS projection back onto a microphone >= n_src
 crashed on batched input

---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 7e38484..1e2a14f 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -287,7 +287,7 @@ def projection_back_weights(W, J=None, ref_mic=0, eps=1e-6):
             rhs = eye[:, [ref_mic]]
         else:
             rhs = J[..., [ref_mic - n_src], :, :]
-            rhs = rhs.permute([-2, -1, -3])
+            rhs = rhs.moveaxis(-3, -1)
 
         lhs = torch.einsum("...sfc->...fcs", B)
 
-- 
2.43.0


From 7afeacc1b7a6bd7ee3594211e8935923db4915a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 04/48] fix: sign of the dereverberation term in the background
 update of over-determined T_ISS

---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 1e2a14f..5d95e0e 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -202,7 +202,7 @@ def background_update(W, H, C_XX, C_XbarX, eps=1e-5):
 
     A1 = torch.einsum("...sfc,...cfd->...fsd", W, C_XX)
     A2 = torch.einsum("...sfdt,...dtfc->...fsc", H, C_XbarX)
-    A = A1 + A2  # (..., n_freq, n_src, n_chan)
+    A = A1 - A2  # (..., n_freq, n_src, n_chan), because Y = W X - H X_bar
 
     mat = A[..., :n_src]
     rhs = A[..., n_src:]
-- 
2.43.0


From e97717a325f3650c418a6fab9289aa5f54889649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 05/48] fix: FIVE with proj_back_mic=None returns the unscaled
 source as documented

---
 torchiva/five.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 677c2ad..dad3da9 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -193,7 +193,8 @@ class FIVE(DRBSSBase):
 
         # we keep the row of Q^{-1} corresponding to the reference mic for the
         # normalization
-        Qinv_ref = Qinv[..., proj_back_mic, :]
+        if proj_back_mic is not None:
+            Qinv_ref = Qinv[..., proj_back_mic, :]
         # Qinv_ref = e_vec[..., proj_back_mic, None, :] * e_val_sqrt[..., None, :]
 
         # keep the input for scaling
@@ -235,8 +236,11 @@ class FIVE(DRBSSBase):
                 )
 
             # projection back
-            z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
-            w = eigenvector * torch.conj(z[..., None])
+            if proj_back_mic is not None:
+                z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
+                w = eigenvector * torch.conj(z[..., None])
+            else:
+                w = eigenvector
 
             # the new output
             Y = torch.einsum("...fc,...cfn->...fn", w.conj(), X)
-- 
2.43.0


From 026722ee45186434b4d6298db131780958fb0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 06/48] fix: FIVE conjugation in the projection back of the
 initial estimate

---
 torchiva/five.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index dad3da9..4262fc0 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -211,7 +211,7 @@ class FIVE(DRBSSBase):
 
         # projection back
         if proj_back_mic is not None:
-            z = Q[..., 0, None, :] @ Cx[..., proj_back_mic, None]
+            z = torch.conj(Q[..., 0, None, :] @ Cx[..., proj_back_mic, None])
             z = z.transpose(-3, -2)
             Y = z[..., 0, :, :] * Y
 
-- 
2.43.0


From 54018bce32f1b7a1e4251ba4c3801448df3f94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 07/48] fix: FIVE with a single power iteration used an
 undefined eigenvalue and unnormalized vector

---
 torchiva/five.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 4262fc0..e8beb16 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -59,7 +59,8 @@ def smallest_eigenvector_power_method(V, n_iter=10):
 
     # initial point x0 = [1, 0, ..., 0]
     x = V_inv[..., :, 0]
-    x = normalize(x)
+    ev = torch.linalg.norm(x, dim=-1)
+    x = x / ev[..., None]
 
     for epoch in range(n_iter - 1):
         x = torch.einsum("...fcd,...fd->...fc", V_inv, x)
-- 
2.43.0


From 66888c6a7772ca6c4450804647d06affe2252f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 08/48] fix: STFT accepts custom windows given as an array or
 tensor

---
 torchiva/stft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchiva/stft.py b/torchiva/stft.py
index 083be5a..43b9e09 100644
--- a/torchiva/stft.py
+++ b/torchiva/stft.py
@@ -51,14 +51,16 @@ class STFT(torch.nn.Module):
             self._window_type = window
             window = get_window(window, self._n_fft)
         else:
-            self.window_type = "custom"
+            self._window_type = "custom"
 
         if isinstance(window, np.ndarray):
             window = torch.from_numpy(window)
 
         # assign proper type, check dimension, and register as buffer
-        window = window.to(self.dtype)
         assert isinstance(window, torch.Tensor)
+        if self.dtype is None:
+            self.dtype = window.dtype
+        window = window.to(self.dtype)
         assert window.ndim == 1 and window.shape[0] == self._n_fft
         self.register_buffer("_window", window)
 
-- 
2.43.0


From 1786fafab71b23b866f8924b66c28d67901442f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 09/48] fix: WPE resets the source model for every new signal
 like the other algorithms

---
 torchiva/wpe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/wpe.py b/torchiva/wpe.py
index e710278..82a8b40 100644
--- a/torchiva/wpe.py
+++ b/torchiva/wpe.py
@@ -154,6 +154,9 @@ class WPE(DRBSSBase):
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
+        # initialize source model if it has an internal state
+        self._reset(model)
+
         # shape (..., n_chan, n_freq, n_taps + n_delay + 1, block_size)
         X_pad = torch.nn.functional.pad(X, (n_taps + n_delay, 0))
         X_hankel = hankel_view(X_pad, n_taps + n_delay + 1)
-- 
2.43.0


From 298888b2ba6a2ef0dce65615e8f740b70fc54998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 10/48] fix: mixed-norm weights of minimum_distortion for 1 < q
 < 2

---
 torchiva/scaling.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 2aa3553..87ea98b 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -221,8 +221,7 @@ def lpq_norm(E, p=1, q=2, axis=0) -> pt.Tensor:
     assert p > 0 and q >= p and q <= 2.0
 
     E = E.abs() + 1e-5
-    E = E.pow(q) + 1e-5
-    rn = pt.sum(E, dim=axis, keepdim=True).pow(1 - p / q)
-    qfn = pt.abs(E).pow(2 - q)
+    rn = pt.sum(E.pow(q) + 1e-5, dim=axis, keepdim=True).pow(1 - p / q)
+    qfn = E.pow(2 - q)
     weights = p / pt.clamp(2.0 * rn * qfn, min=eps_scaling["gmdp"])
     return weights
-- 
2.43.0


From dd99ac2e59bd58b673cffbe2b20a3d8fd023de16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 11/48] fix: generalized eigh_2x2 keeps double precision
 eigenvalues

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 56775a1..c6425e9 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -197,7 +197,7 @@ def eigh_2x2(
         delta = pt.clamp(delta, min=eps)
 
         # fill the eigenvectors in ascending order
-        eigenvalues = pt.zeros(A.shape[:-1], device=A.device)
+        eigenvalues = b.new_zeros(A.shape[:-1])
         eigenvalues[..., 0] = 0.5 * (b - pt.sqrt(delta))  # small eigenvalue
         eigenvalues[..., 1] = 0.5 * (b + pt.sqrt(delta))  # large eigenvalue
 
-- 
2.43.0


From 904f710db3b13347eb834b63bd0a64f9bd330693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 12/48] fix: eigh of 2x2 complex matrices returned conjugated
 eigenvectors

---
 torchiva/linalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index c6425e9..23b5338 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -281,6 +281,9 @@ def eigh(
 
     # for 2x2, use specialized routine
     if A.shape[-1] == 2:
+        if B is None:
+            # eigh_2x2 returns the eigenvectors of the transpose in this case
+            A = A.transpose(-2, -1)
         return eigh_2x2(A, B=B, eps=eps)
 
     if B is not None:
-- 
2.43.0


From fa71c592905a29c6746e5704bc3f7efb3e405b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 13/48] fix: eigh_2x2 returned null eigenvectors for diagonal
 or degenerate matrices

---
 torchiva/linalg.py | 52 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 23b5338..c0c7892 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -149,6 +149,18 @@ def diagonal_loading(A: pt.Tensor, d: pt.Tensor):
     return A + D
 
 
+def null_vector_2x2(m11: pt.Tensor, m12: pt.Tensor, m22: pt.Tensor) -> pt.Tensor:
+    """
+    A vector of the null space of the singular hermitian matrices
+    ``[[m11, m12], [m12.conj(), m22]]``.  Both rows give the same direction,
+    but one of them may vanish, so that we use the largest one.
+    """
+    use_row_1 = abs(m11) >= abs(m22)
+    v1 = pt.where(use_row_1, -m12, m22)
+    v2 = pt.where(use_row_1, m11, -pt.conj(m12))
+    return pt.stack((v1, v2), dim=-1)
+
+
 def eigh_2x2(
     A: pt.Tensor, B: Optional[pt.Tensor] = None, eps: Optional[float] = 0.0
 ) -> Tuple[pt.Tensor, pt.Tensor]:
@@ -191,6 +203,9 @@ def eigh_2x2(
         # discrimant of secular equation
         delta = pt.square(b) - 4 * c
 
+        # when both eigenvalues are the same, any B-orthogonal basis will do
+        is_degenerate = delta <= eps
+
         # we clamp to zero to avoid numerical inaccuracies
         # we know the minimum is zero because A and B should
         # be symmetric or hermitian symmetric
@@ -211,11 +226,19 @@ def eigh_2x2(
         # now fill the eigenvectors
         eigenvectors = A.new_zeros(A.shape)
         # vector corresponding to small eigenvalue
-        eigenvectors[..., 0, 0] = multiply(ev1, b12) - a12
-        eigenvectors[..., 1, 0] = a11 - ev1 * b11
+        eigenvectors[..., :, 0] = null_vector_2x2(
+            a11 - ev1 * b11, a12 - multiply(ev1, b12), a22 - ev1 * b22
+        )
         # vector corresponding to large eigenvalue
-        eigenvectors[..., 0, 1] = multiply(ev2, b12) - a12
-        eigenvectors[..., 1, 1] = a11 - ev2 * b11
+        eigenvectors[..., :, 1] = null_vector_2x2(
+            a11 - ev2 * b11, a12 - multiply(ev2, b12), a22 - ev2 * b22
+        )
+
+        # a B-orthogonal basis for the degenerate case
+        basis = A.new_zeros(A.shape)
+        basis[..., 0, 0] = 1.0
+        basis[..., 0, 1] = -b12
+        basis[..., 1, 1] = b11
 
     else:
         # Do the EVD
@@ -228,6 +251,9 @@ def eigh_2x2(
         # discrimant of secular equation
         delta = pt.square(trace) - 4 * det
 
+        # when both eigenvalues are the same, any orthogonal basis will do
+        is_degenerate = delta <= eps
+
         # we clamp to zero to avoid numerical inaccuracies
         # we know the minimum is zero because A and B should
         # be symmetric or hermitian symmetric
@@ -241,11 +267,21 @@ def eigh_2x2(
         # now fill the eigenvectors
         eigenvectors = A.new_zeros(A.shape)
         # vector corresponding to small eigenvalue
-        eigenvectors[..., 1, 0] = A[..., 0, 1]
-        eigenvectors[..., 0, 0] = eigenvalues[..., 0] - A[..., 1, 1]
+        eigenvectors[..., :, 0] = null_vector_2x2(
+            A[..., 0, 0] - eigenvalues[..., 0],
+            A[..., 1, 0],
+            A[..., 1, 1] - eigenvalues[..., 0],
+        )
         # vector corresponding to large eigenvalue
-        eigenvectors[..., 1, 1] = eigenvalues[..., 1] - A[..., 0, 0]
-        eigenvectors[..., 0, 1] = A[..., 1, 0]
+        eigenvectors[..., :, 1] = null_vector_2x2(
+            A[..., 0, 0] - eigenvalues[..., 1],
+            A[..., 1, 0],
+            A[..., 1, 1] - eigenvalues[..., 1],
+        )
+
+        basis = pt.broadcast_to(pt.eye(2).type_as(A), A.shape)
+
+    eigenvectors = pt.where(is_degenerate[..., None, None], basis, eigenvectors)
 
     norm = pt.sqrt(pt.sum(mag_sq(eigenvectors), dim=-2, keepdim=True))
     eigenvectors = divide(eigenvectors, norm, eps=eps)
-- 
2.43.0


From e2c9df4185fe3825e613620f5bb3c7b849800bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 14/48] fix: diagonal_loading used an undefined variable

---
 torchiva/linalg.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index c0c7892..25bbae7 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -144,9 +144,7 @@ def diagonal_loading(A: pt.Tensor, d: pt.Tensor):
     """
     Load the diagonal of A with the vector d
     """
-    D = pt.diag(pt.arange(A.shape[-1], device=A.device) * eps)
-    D = D.reshape(pt.Size([1] * (len(A.shape) - 2)) + A.shape[-2:])
-    return A + D
+    return A + pt.diag_embed(d)
 
 
 def null_vector_2x2(m11: pt.Tensor, m12: pt.Tensor, m22: pt.Tensor) -> pt.Tensor:
-- 
2.43.0


From 919d4efc3b60e5901a0c7459a43f865e468e0f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 15/48] fix: separate command ignored --n_iter for the
 non-neural source models

---
 torchiva/separate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index e134e04..1a9b930 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -195,6 +195,7 @@ def main(args):
 
         separator = torchiva.nn.BSSSeparator(
             n_fft=args.nfft,
+            n_iter=args.n_iter,
             hop_length=args.hop,
             window=args.win,
             n_taps=args.taps,
-- 
2.43.0


From 807ddf67f93cc0cb1d035f5557c8a8f5309336c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 16/48] fix: separate command dropped the channels beyond the
 number of sources

---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 1a9b930..07ce77b 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -48,7 +48,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
         mix = mix[..., :n_chan, :]
 
     with torch.no_grad():
-        y = separator(mix[..., :n_src, :])
+        y = separator(mix)
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-- 
2.43.0


From e77fa2fb445339169414c67446fab946b6eadfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 17/48] fix: separate command crashed when selecting the most
 energetic sources

---
 torchiva/separate.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 07ce77b..0b1a53b 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -52,9 +52,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-            y = torchiva.select_most_energetic(
-                y, num=ref.shape[-2], dim=-2, dim_reduc=-1
-            )
+            y = torchiva.select_most_energetic(y, num=n_src, dim=-2, dim_reduc=-1)
 
         # make same size as input
         pad_len = mix.shape[-1] - y.shape[-1]
-- 
2.43.0


From 5169bdde26caf47b49cabc154bdf5d4d4572d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 18/48] fix: separate command could overwrite its own input

---
 torchiva/separate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 0b1a53b..747b4df 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -213,7 +213,7 @@ def main(args):
         args.output.mkdir(exist_ok=True, parents=True)
         if not args.output.is_dir():
             raise ValueError(f"{args.output} is not a folder")
-        if args.output == args.input:
+        if args.output.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different folders")
 
         for path_in in args.input.rglob("*.wav"):
@@ -234,7 +234,7 @@ def main(args):
         else:
             path_out = args.output
 
-        if args.output == args.input:
+        if path_out.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different files")
 
         separate_one_file(
-- 
2.43.0


From 46744432f28964620ac16c706eab4f7469b717ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 19/48] fix: separate command kept only one of the files
 sharing a name in different folders

---
 torchiva/separate.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 747b4df..0904762 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -216,8 +216,18 @@ def main(args):
         if args.output.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different folders")
 
-        for path_in in args.input.rglob("*.wav"):
-            path_out = args.output / path_in.name
+        # list the files first so that the outputs are never taken for inputs
+        output = args.output.resolve()
+        files = [
+            path
+            for path in sorted(args.input.rglob("*.wav"))
+            if output not in path.resolve().parents
+        ]
+
+        for path_in in files:
+            # keep the folder structure, files in different folders may share a name
+            path_out = args.output / path_in.relative_to(args.input)
+            path_out.parent.mkdir(exist_ok=True, parents=True)
             separate_one_file(
                 separator, path_in, path_out, args.src, args.mic, args.device
             )
-- 
2.43.0


From 83326bac94ae525be9fb86cf525f6a6ffe16c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 20/48] fix: an interrupted download left a truncated model in
 the cache

---
 torchiva/loader.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 45fca96..9099c24 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,4 +1,5 @@
 import os
+import tempfile
 from pathlib import Path
 from typing import Union, Optional
 
@@ -40,7 +41,16 @@ def get_model_from_url(url):
 
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
         if not fn.exists():
-            urlretrieve(url, filename=fn)
+            # download to a temporary file first, so that a partial download is
+            # never taken for the model
+            fd, tmp_fn = tempfile.mkstemp(dir=fn.parent, suffix=".part")
+            os.close(fd)
+            try:
+                urlretrieve(url, filename=tmp_fn)
+                os.replace(tmp_fn, fn)
+            except BaseException:
+                os.unlink(tmp_fn)
+                raise
 
     return ckpt_fn, yaml_fn
 
-- 
2.43.0


From 09e3d0edfc8679cda9f74a2ada4e8410beee2852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 21/48] fix: models with the same name at different URLs shared
 a cache entry

---
 torchiva/loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 9099c24..c3a4dcc 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,3 +1,4 @@
+import hashlib
 import os
 import tempfile
 from pathlib import Path
@@ -34,7 +35,10 @@ def get_model_from_url(url):
     print(yaml_url)
     print(ckpt_url)
 
-    model_path = Path.home() / f".torchiva_models/{model_name}"
+    # models from different locations can have the same name
+    url_hash = hashlib.sha256(url.strip("/").encode()).hexdigest()[:16]
+
+    model_path = Path.home() / f".torchiva_models/{model_name}-{url_hash}"
     ckpt_fn, yaml_fn = get_model_filenames(model_path)
 
     ckpt_fn.parent.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From 72014533f0b210931765380d9bd0fb4780a3eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:13 +0000
Subject: [PATCH 22/48] fix: MVDR from the covariance matrices crashed on
 silent frequencies

---
 torchiva/beamformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index 1cc4be7..a2d9ad0 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -129,8 +129,9 @@ def compute_mvdr_bf2(
     eps: Optional[float] = 1e-5,
 ) -> torch.Tensor:
 
-    num = torch.linalg.solve(covmat_noise, covmat_target)
+    num = solve_loaded(covmat_noise, covmat_target, load=1e-7)
     denom = torch.sum(torch.diagonal(num, dim1=-2, dim2=-1), dim=-1)
+    denom = torch.clamp(denom.real, min=eps)  # real because both covmat are PSD
     w = num / denom[..., None, None]
 
     return w[..., ref_mic]
-- 
2.43.0


From 1320ac84b350d9620578c0483b3a206aa09e3f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:13 +0000
Subject: [PATCH 23/48] fix: generalized eigh_2x2 of null matrices returned a
 null eigenvector

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 25bbae7..31acf9b 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -236,7 +236,7 @@ def eigh_2x2(
         basis = A.new_zeros(A.shape)
         basis[..., 0, 0] = 1.0
         basis[..., 0, 1] = -b12
-        basis[..., 1, 1] = b11
+        basis[..., 1, 1] = pt.where(mag_sq(b11) > 0, b11, pt.ones_like(b11))
 
     else:
         # Do the EVD
-- 
2.43.0


From 943b647302757f4a913604b291c353dbecd95027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:36 +0000
Subject: [PATCH 24/48] fix: IP2 separation depended on the signal level and
 diverged in single precision

The generalized eigendecomposition of eigh_2x2 compared quantities of the
order of the fourth power of the signal to an absolute threshold, and lost
all precision by cancellation for correlated channels.
---
 torchiva/auxiva_ip2.py |  2 +-
 torchiva/linalg.py     | 99 +++++++++++++++---------------------------
 2 files changed, 36 insertions(+), 65 deletions(-)

diff --git a/torchiva/auxiva_ip2.py b/torchiva/auxiva_ip2.py
index 620a76a..be378a1 100644
--- a/torchiva/auxiva_ip2.py
+++ b/torchiva/auxiva_ip2.py
@@ -66,7 +66,7 @@ def spatial_model_update_ip2(
     # we use the custom 2x2 eigenvalue decomposition solver. It is probably
     # not always faster than torch, but should be more stable for gradient
     # computation
-    eigval, eigvec = eigh_2x2(V[1], V[0], eps=eps)
+    eigval, eigvec = eigh_2x2(V[1], V[0], eps=1e-15)
 
     # reverse order of eigenvectors
     eigvec = torch.flip(eigvec, dims=(-1,))
diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 31acf9b..adefc96 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -147,6 +147,14 @@ def diagonal_loading(A: pt.Tensor, d: pt.Tensor):
     return A + pt.diag_embed(d)
 
 
+def matrix_scale(A: pt.Tensor) -> pt.Tensor:
+    """
+    The largest magnitude in a matrix, or 1 if the matrix is null
+    """
+    scale = abs(A.detach()).amax(dim=(-2, -1), keepdim=True)
+    return pt.where(scale > 0, scale, pt.ones_like(scale))
+
+
 def null_vector_2x2(m11: pt.Tensor, m12: pt.Tensor, m22: pt.Tensor) -> pt.Tensor:
     """
     A vector of the null space of the singular hermitian matrices
@@ -177,77 +185,39 @@ def eigh_2x2(
         # broadcast
         A, B = pt.broadcast_tensors(A, B)
 
-        # notation
-        a11 = A[..., 0, 0]
-        a12 = A[..., 0, 1]
-        a22 = A[..., 1, 1]
-        b11 = B[..., 0, 0]
-        b12 = B[..., 0, 1]
-        b22 = B[..., 1, 1]
-
-        # coefficient of secular equation: x - b * x + c
-        a11b22 = a11.real * b22.real
-        a22b11 = a22.real * b11.real
-        if is_complex_type(a12) and is_complex_type(b12):
-            re_a12b12c = a12.real * b12.real + a12.imag * b12.imag
-        else:
-            re_a12b12c = a12.real * b12.real
-        b = a11b22 + a22b11 - 2.0 * re_a12b12c
-
-        det_A = a11.real * a22.real - mag_sq(a12)
-        det_B = b11.real * b22.real - mag_sq(b12)
-        c = det_A * det_B
-
-        # discrimant of secular equation
-        delta = pt.square(b) - 4 * c
-
-        # when both eigenvalues are the same, any B-orthogonal basis will do
-        is_degenerate = delta <= eps
-
-        # we clamp to zero to avoid numerical inaccuracies
-        # we know the minimum is zero because A and B should
-        # be symmetric or hermitian symmetric
-        delta = pt.clamp(delta, min=eps)
-
-        # fill the eigenvectors in ascending order
-        eigenvalues = b.new_zeros(A.shape[:-1])
-        eigenvalues[..., 0] = 0.5 * (b - pt.sqrt(delta))  # small eigenvalue
-        eigenvalues[..., 1] = 0.5 * (b + pt.sqrt(delta))  # large eigenvalue
-
-        # normalize the eigenvalues
-        eigenvalues = eigenvalues / pt.clamp(det_B[..., None], min=eps)
-
-        # notation
-        ev1 = eigenvalues[..., 0]
-        ev2 = eigenvalues[..., 1]
-
-        # now fill the eigenvectors
-        eigenvectors = A.new_zeros(A.shape)
-        # vector corresponding to small eigenvalue
-        eigenvectors[..., :, 0] = null_vector_2x2(
-            a11 - ev1 * b11, a12 - multiply(ev1, b12), a22 - ev1 * b22
-        )
-        # vector corresponding to large eigenvalue
-        eigenvectors[..., :, 1] = null_vector_2x2(
-            a11 - ev2 * b11, a12 - multiply(ev2, b12), a22 - ev2 * b22
-        )
-
-        # a B-orthogonal basis for the degenerate case
-        basis = A.new_zeros(A.shape)
-        basis[..., 0, 0] = 1.0
-        basis[..., 0, 1] = -b12
-        basis[..., 1, 1] = pt.where(mag_sq(b11) > 0, b11, pt.ones_like(b11))
+        # the solution does not depend on the scale of B
+        scale_B = matrix_scale(B)
+        B = B / scale_B
+
+        # inverse of the Cholesky factor of B
+        min_val = max(eps, pt.finfo(B.dtype).eps)
+        b11 = pt.clamp(B[..., 0, 0].real, min=min_val)
+        t = B[..., 1, 0] / b11
+        l22 = pt.sqrt(pt.clamp(B[..., 1, 1].real - mag_sq(t) * b11, min=min_val))
+        L_inv = B.new_zeros(B.shape)
+        L_inv[..., 0, 0] = 1.0 / pt.sqrt(b11)
+        L_inv[..., 1, 0] = -t / l22
+        L_inv[..., 1, 1] = 1.0 / l22
+
+        # whitening by B yields a regular EVD (eigh_2x2 expects the transpose)
+        C = L_inv @ (A / scale_B) @ hermite(L_inv)
+        eigenvalues, eigenvectors = eigh_2x2(C.transpose(-2, -1), eps=eps)
+        eigenvectors = hermite(L_inv) @ eigenvectors
 
     else:
         # Do the EVD
 
+        # the eigenvectors do not depend on the scale of A
+        scale_A = matrix_scale(A)
+        A = A / scale_A
+
         # secular equation: a * lambda^2 - b * lambda + c
         # where lambda is the eigenvalue
         trace = A[..., 0, 0].real + A[..., 1, 1].real  # trace
-        det = A[..., 0, 0].real * A[..., 1, 1].real - mag_sq(A[..., 0, 1])  # det
 
-        # discrimant of secular equation
-        delta = pt.square(trace) - 4 * det
+        # discrimant of secular equation, i.e. trace^2 - 4 * det
+        delta = pt.square(A[..., 0, 0].real - A[..., 1, 1].real)
+        delta = delta + 4 * mag_sq(A[..., 0, 1])
 
         # when both eigenvalues are the same, any orthogonal basis will do
         is_degenerate = delta <= eps
@@ -278,8 +248,9 @@ def eigh_2x2(
         )
 
         basis = pt.broadcast_to(pt.eye(2).type_as(A), A.shape)
+        eigenvectors = pt.where(is_degenerate[..., None, None], basis, eigenvectors)
 
-    eigenvectors = pt.where(is_degenerate[..., None, None], basis, eigenvectors)
+        eigenvalues = eigenvalues * scale_A[..., 0]
 
     norm = pt.sqrt(pt.sum(mag_sq(eigenvectors), dim=-2, keepdim=True))
     eigenvectors = divide(eigenvectors, norm, eps=eps)
-- 
2.43.0


From 97e00010184210f0a8aa5570acb9096e317c57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:51 +0000
Subject: [PATCH 25/48] fix: MVDR beamformer was not distortionless for loud or
 long signals

The denominator is of the order of the inverse of the noise covariance,
which was compared to an absolute threshold.
---
 torchiva/beamformer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index a2d9ad0..e5e4e1f 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -20,7 +20,7 @@
 
 from typing import Optional
 import torch
-from .linalg import eigh, solve_loaded, bmm, hermite, multiply
+from .linalg import eigh, solve_loaded, bmm, hermite, matrix_scale, multiply
 from .base import BFBase
 
 
@@ -115,6 +115,9 @@ def compute_mvdr_bf(
     eps: Optional[float] = 1e-5,
 ) -> torch.Tensor:
 
+    # the weights do not depend on the scale of the noise covariance matrix
+    covmat_noise = covmat_noise / matrix_scale(covmat_noise)
+
     a = solve_loaded(covmat_noise, steering_vector, load=eps)
     denom = torch.einsum("...c,...c->...", steering_vector.conj(), a)
     denom = denom.real  # because covmat is PSD
-- 
2.43.0


From c835424243c4705a88fff3a7f732be1f63c7f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:34 +0000
Subject: [PATCH 26/48] fix: MVDR beamformer returned NaN when the reference
 response vanishes

---
 torchiva/beamformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index e5e4e1f..d68ad80 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -104,6 +104,7 @@ def compute_mvdr_rtf_eigh(
 
     # normalize reference component
     scale = steering_vector[..., [ref_mic]]
+    scale = torch.where(abs(scale) > 0, scale, torch.ones_like(scale))
     steering_vector = steering_vector / scale
 
     return steering_vector
-- 
2.43.0


From 53f2742909fb6c70dd8fb13873b83be3db11fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:47 +0000
Subject: [PATCH 27/48] fix: eigenvectors of nearly degenerate 2x2 matrices
 were not orthogonal in single precision

---
 torchiva/linalg.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index adefc96..5b12847 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -234,18 +234,16 @@ def eigh_2x2(
 
         # now fill the eigenvectors
         eigenvectors = A.new_zeros(A.shape)
-        # vector corresponding to small eigenvalue
-        eigenvectors[..., :, 0] = null_vector_2x2(
-            A[..., 0, 0] - eigenvalues[..., 0],
-            A[..., 1, 0],
-            A[..., 1, 1] - eigenvalues[..., 0],
-        )
         # vector corresponding to large eigenvalue
-        eigenvectors[..., :, 1] = null_vector_2x2(
+        v = null_vector_2x2(
             A[..., 0, 0] - eigenvalues[..., 1],
             A[..., 1, 0],
             A[..., 1, 1] - eigenvalues[..., 1],
         )
+        eigenvectors[..., :, 1] = v
+        # vector corresponding to small eigenvalue is orthogonal to it
+        eigenvectors[..., 0, 0] = -pt.conj(v[..., 1])
+        eigenvectors[..., 1, 0] = pt.conj(v[..., 0])
 
         basis = pt.broadcast_to(pt.eye(2).type_as(A), A.shape)
         eigenvectors = pt.where(is_degenerate[..., None, None], basis, eigenvectors)
-- 
2.43.0


From afa03b641a9f035b2854354d5d81b5256789b4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:03 +0000
Subject: [PATCH 28/48] fix: separate command ran the neural models in training
 mode

The output was random because of the dropout, and the normalization
statistics of the model changed with every file.
---
 torchiva/separate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 0904762..aa89dda 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -206,6 +206,9 @@ def main(args):
             eps=args.eps,
         )
 
+    # no dropout, and the files should not change the model
+    separator.eval()
+
     if args.device is not None:
         separator = separator.to(args.device)
 
-- 
2.43.0


From 039935d6d1277251ab8a168dd04374bf9cb10f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:12 +0000
Subject: [PATCH 29/48] fix: load_separator ignored a window given as extra
 parameter

---
 torchiva/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index c3a4dcc..0bcb429 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -94,6 +94,9 @@ def load_separator_model(
 
     state_dict = torch.load(ckpt_path)
     separator = BSSSeparator(**model_config)
+    if "window" in kwargs:
+        # the requested window replaces the one stored with the weights
+        state_dict["stft._window"] = separator.stft.window
     separator.load_state_dict(state_dict)
 
     return separator
-- 
2.43.0


From 66430476da1f36405e5fefb4f25c42b9270bcb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:44 +0000
Subject: [PATCH 30/48] fix: inv_2x2 of a single matrix returned an extra
 dimension

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 5b12847..1e4990c 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -129,7 +129,7 @@ def inv_2x2(W: pt.Tensor, eps=1e-6):
     det = W11 * W22 - W12 * W21
 
     # complex clamp
-    det = pt.where(abs(det) < eps, eps * det.new_ones(1), det)
+    det = pt.where(abs(det) < eps, eps * pt.ones_like(det), det)
 
     adjoint = pt.stack(
         (pt.stack((W22, -W21), dim=-1), pt.stack((-W12, W11), dim=-1)), dim=-1
-- 
2.43.0


From 8a435287f73b125aecf95e999a1443afbf49edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:44 +0000
Subject: [PATCH 31/48] fix: bmm and multiply crashed on conjugated tensors

---
 torchiva/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 1e4990c..0a3a9b9 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -48,7 +48,8 @@ def multiply(tensor1: pt.Tensor, tensor2: pt.Tensor):
             tensor1, tensor2 = tensor2, tensor1
 
         # tensor1 is real, tensor2 is complex
-        return pt.view_as_complex(pt.view_as_real(tensor2) * tensor1[..., None])
+        tensor2 = pt.view_as_real(tensor2.resolve_conj())
+        return pt.view_as_complex(tensor2 * tensor1[..., None])
 
 
 def mag_sq(x: pt.Tensor):
@@ -63,8 +64,8 @@ def mag(x: pt.Tensor):
 
 
 def bmm(input: pt.Tensor, mat2: pt.Tensor) -> pt.Tensor:
-    m1 = pt.view_as_real(input)
-    m2 = pt.view_as_real(mat2)
+    m1 = pt.view_as_real(input.resolve_conj())
+    m2 = pt.view_as_real(mat2.resolve_conj())
     real_part = m1[..., 0] @ m2[..., 0] - m1[..., 1] @ m2[..., 1]
     imag_part = m1[..., 0] @ m2[..., 1] + m1[..., 1] @ m2[..., 0]
     out = pt.cat((real_part[..., None], imag_part[..., None]), dim=-1)
-- 
2.43.0


From bfa7256b19fe556940b9f6e6eef251098b7b8295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:48 +0000
Subject: [PATCH 32/48] fix: T_ISS could not be copied after a call with
 gradients

---
 torchiva/t_iss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 5d95e0e..9ed5b43 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -533,7 +533,8 @@ class T_ISS(DRBSSBase):
             a = projection_back_weights(W, J=J, eps=eps, ref_mic=proj_back_mic)
             Y = a * Y
 
-        self.W = W
-        self.J = J
+        # do not keep the computation graph alive in the object
+        self.W = W.detach()
+        self.J = J.detach() if J is not None else None
 
         return Y
-- 
2.43.0


From 74c97820c40c971563e8006616ff109fd0be55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:48 +0000
Subject: [PATCH 33/48] fix: BLSTMMask on real and imaginary parts crashed on
 conjugated tensors

---
 torchiva/models/blstm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/models/blstm.py b/torchiva/models/blstm.py
index 4b42698..6a43ed4 100644
--- a/torchiva/models/blstm.py
+++ b/torchiva/models/blstm.py
@@ -64,7 +64,7 @@ class BLSTMMask(nn.Module):
                 X = torch.log(X + 1e-7)
         else:
             # reduce to mel-spectrogram
-            X = torch.view_as_real(X)
+            X = torch.view_as_real(X.resolve_conj())
             Xr = self.mel_layer(X[..., 0])
             Xi = self.mel_layer(X[..., 1])
 
-- 
2.43.0


From d7c4d8b970f3aa3469655dc0b3c44fe73d2d7c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:22 +0000
Subject: [PATCH 34/48] fix: MVDR from the covariance matrices crashed on
 identical channels in single precision

---
 torchiva/beamformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index d68ad80..937876d 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -133,7 +133,9 @@ def compute_mvdr_bf2(
     eps: Optional[float] = 1e-5,
 ) -> torch.Tensor:
 
-    num = solve_loaded(covmat_noise, covmat_target, load=1e-7)
+    # the load should not vanish in the rounding errors
+    load = max(1e-7, 10 * torch.finfo(covmat_noise.dtype).eps)
+    num = solve_loaded(covmat_noise, covmat_target, load=load)
     denom = torch.sum(torch.diagonal(num, dim1=-2, dim2=-1), dim=-1)
     denom = torch.clamp(denom.real, min=eps)  # real because both covmat are PSD
     w = num / denom[..., None, None]
-- 
2.43.0


From 454b59d614d9315b84b9a4e9fe44f78c1d1fc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:56 +0000
Subject: [PATCH 35/48] fix: minimum_distortion with a model of the weights
 crashed or mixed the batch items

---
 torchiva/scaling.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 87ea98b..573d188 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -181,7 +181,6 @@ def minimum_distortion(
         error = ref[..., :, None, :] - c[..., :, :, None] * Y
         if model is not None:
             weights = model(error.transpose(-3, -2)).transpose(-3, -2)
-            weights = weights[..., 0, 0, :, :]
 
             # let us normalize the weights along the time axis
             norm = pt.sum(weights, dim=-1, keepdim=True)
-- 
2.43.0


From bb394b2f35d39bc53ca8451bbd41001e1ca177a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:17 +0000
Subject: [PATCH 36/48] fix: AuxIVA_IP with verbose crashed on batched input

---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index fcb8de6..71e6a9b 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -106,7 +106,7 @@ def projection_back_from_demixing_matrix(
 
 
 def cost(model, Y, W, J=None, g=None):
-    n_freq, n_src, n_chan = W.shape
+    n_src, n_chan = W.shape[-2:]
     n_frames = Y.shape[-1]
 
     if J is not None:
-- 
2.43.0


From 69e5aa4a6b98fafa3b18df5ff35f95b29c9051c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:31 +0000
Subject: [PATCH 37/48] fix: gradient of the Laplace model was NaN for silent
 frames

---
 torchiva/models/classic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchiva/models/classic.py b/torchiva/models/classic.py
index a5b1b3e..e2458c8 100644
--- a/torchiva/models/classic.py
+++ b/torchiva/models/classic.py
@@ -36,7 +36,10 @@ class LaplaceModel(pt.nn.Module):
             mag_sq = X.real.square() + X.imag.square()
         else:
             mag_sq = X.square()
-        denom = 2.0 * pt.sqrt(mag_sq.sum(dim=-2, keepdim=True))
+        # the square root is not differentiable at zero, i.e. for silent frames, so
+        # that the regularization is also applied before it
+        power = pt.clamp(mag_sq.sum(dim=-2, keepdim=True), min=(0.5 * self._eps) ** 2)
+        denom = 2.0 * pt.sqrt(power)
         r = pt.broadcast_to(denom, X.shape)
 
         r_inv = 1.0 / pt.clamp(r, min=self._eps)
-- 
2.43.0


From 11eb27392d752fd21db4ec95994ed438100bc4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:31 +0000
Subject: [PATCH 38/48] fix: gradient of the NMF model was NaN for silent
 frames

---
 torchiva/models/classic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/torchiva/models/classic.py b/torchiva/models/classic.py
index e2458c8..ff83bed 100644
--- a/torchiva/models/classic.py
+++ b/torchiva/models/classic.py
@@ -133,9 +133,9 @@ class NMFModel(pt.nn.Module):
         self._init_state(P)
 
         # The basis matrix update
-        self.T = self.T * pt.sqrt(
-            pt.bmm(P * pt.square(self.iR), self.V) / pt.bmm(self.iR, self.V)
-        )
+        # (the square root is not differentiable at zero)
+        ratio = pt.bmm(P * pt.square(self.iR), self.V) / pt.bmm(self.iR, self.V)
+        self.T = self.T * pt.sqrt(pt.clamp(ratio, min=pt.finfo(P.dtype).tiny))
         self.T = pt.clamp(self.T, min=self._eps)
 
         # recompute R = dot(T, V) and its reciprocal
@@ -144,9 +144,8 @@ class NMFModel(pt.nn.Module):
         # The activation matrix update
         iR_T = self.iR.transpose(-2, -1)
         P_T = P.transpose(-2, -1)
-        self.V = self.V * pt.sqrt(
-            pt.bmm(P_T * pt.square(iR_T), self.T) / pt.bmm(iR_T, self.T)
-        )
+        ratio = pt.bmm(P_T * pt.square(iR_T), self.T) / pt.bmm(iR_T, self.T)
+        self.V = self.V * pt.sqrt(pt.clamp(ratio, min=pt.finfo(P.dtype).tiny))
         self.V = pt.clamp(self.V, min=self._eps)
 
         # recompute R = dot(T, V) and its reciprocal
-- 
2.43.0


From 7217dc3ab42cd26c67533c8e23b3580a33fdb4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:31 +0000
Subject: [PATCH 39/48] fix: gradient of minimum_distortion was NaN for silent
 frames when p > 1

---
 torchiva/scaling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 573d188..5a11748 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -212,7 +212,11 @@ def minimum_distortion(
 
 def lp_norm(E: pt.Tensor, p: Optional[int] = 1) -> pt.Tensor:
     assert p > 0 and p < 2
-    weights = p / pt.clamp(2.0 * E.abs().pow(2 - p), min=eps_scaling["gmdp"])
+    # the power is not always differentiable at zero, so that the regularization is
+    # also applied before it
+    eps = eps_scaling["gmdp"]
+    E = pt.clamp(E.abs(), min=(0.5 * eps) ** (1.0 / (2 - p)))
+    weights = p / pt.clamp(2.0 * E.pow(2 - p), min=eps)
     return weights
 
 
-- 
2.43.0


From 3ee8a3c8b1acffd2aa05bb02259964d5cd97d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:06 +0000
Subject: [PATCH 40/48] fix: generalized eigenvalue decomposition was wrong for
 small matrices B of size above 2

---
 torchiva/linalg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 0a3a9b9..e3b6522 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -294,11 +294,16 @@ def eigh(
         assert A.shape == B.shape, "A and B should have the same size"
 
         # generalized eigenvalue decomposition
+        # (the solution does not depend on the scale of B)
+        scale_B = matrix_scale(B)
+        B = B / scale_B
         Bval, Bvec = eigh_wrapper(B, use_cpu=use_eigh_cpu)
-        Bval_sqrt = pt.sqrt(pt.clamp(Bval, min=1e-5))
+        min_val = 1e-5 / pt.clamp(scale_B[..., 0], min=1.0)
+        min_val = pt.clamp(min_val, min=pt.finfo(Bval.dtype).eps)
+        Bval_sqrt = pt.sqrt(pt.maximum(Bval, min_val))
         B_sqrt_inv = Bvec @ (pt.reciprocal(Bval_sqrt[..., :, None]) * hermite(Bvec))
 
-        Linv_A_LHinv = B_sqrt_inv @ A @ hermite(B_sqrt_inv)
+        Linv_A_LHinv = B_sqrt_inv @ (A / scale_B) @ hermite(B_sqrt_inv)
 
         eigenvalues, eigenvectors = eigh_wrapper(Linv_A_LHinv, use_cpu=use_eigh_cpu)
 
-- 
2.43.0


From ceadf503ab1be76d4d393bb91f8cad48906f0da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 41/48] fix: items of a batch stopped the iterations of
 minimum_distortion for each other

---
 torchiva/scaling.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 5a11748..9b93dbf 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -171,6 +171,8 @@ def minimum_distortion(
     c = Y.new_ones(Y.shape[:-1])
 
     prev_c = None
+    # the items of a batch stop independently of each other
+    is_done = pt.zeros(Y.shape[:-3] + (1, 1), dtype=pt.bool, device=Y.device)
 
     epoch = 0
     while epoch < max_iter:
@@ -201,10 +203,14 @@ def minimum_distortion(
             prev_c = c
             continue
 
+        c = pt.where(is_done, prev_c, c)
+
         # relative step length
-        delta = (c - prev_c).abs().norm() / (prev_c).abs().norm()
+        delta = (c - prev_c).abs().norm(dim=(-2, -1), keepdim=True)
+        delta = delta / prev_c.abs().norm(dim=(-2, -1), keepdim=True)
         prev_c = c
-        if delta < rtol:
+        is_done = is_done | (delta < rtol)
+        if is_done.all():
             break
 
     return Y_bak * c[..., None].transpose(-3, -2)
-- 
2.43.0


From 9196ebe77e26a6872c46dc546e4592eff0a0ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:17 +0000
Subject: [PATCH 42/48] fix: projection back of AuxIVA_IP2 failed for loud
 signals

---
 torchiva/linalg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index e3b6522..e3325c7 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -129,8 +129,11 @@ def inv_2x2(W: pt.Tensor, eps=1e-6):
 
     det = W11 * W22 - W12 * W21
 
-    # complex clamp
-    det = pt.where(abs(det) < eps, eps * pt.ones_like(det), det)
+    # complex clamp, relative to the terms of the determinant so that the scale
+    # of the matrix does not matter
+    det_min = eps * (abs(W11 * W22) + abs(W12 * W21)).detach()
+    det_min = pt.where(det_min > 0, det_min, eps * pt.ones_like(det_min))
+    det = pt.where(abs(det) < det_min, det_min.type_as(det), det)
 
     adjoint = pt.stack(
         (pt.stack((W22, -W21), dim=-1), pt.stack((-W12, W11), dim=-1)), dim=-1
-- 
2.43.0


From e0ffbe59c2e567dbfa2e448612b012133c0321b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:17 +0000
Subject: [PATCH 43/48] fix: number of iterations set on BSSSeparator had no
 effect

---
 torchiva/nn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torchiva/nn.py b/torchiva/nn.py
index d1247fc..d105158 100644
--- a/torchiva/nn.py
+++ b/torchiva/nn.py
@@ -161,8 +161,13 @@ class BSSSeparator(nn.Module):
         # STFT
         X = self.stft(x)  # copy for back projection (numpy/torch compatible)
 
-        # Separation
-        Y = self.separator(X)
+        # Separation (the attributes may have changed since construction)
+        params = {}
+        if self.algo in ("tiss", "ip2", "five"):
+            params["n_iter"] = self.n_iter
+        if self.algo == "tiss":
+            params["n_src"] = self.n_src
+        Y = self.separator(X, **params)
 
         # iSTFT
         y = self.stft.inv(Y)  # (n_samples, n_channels)
-- 
2.43.0


From fb5e3fce99947f4de05a25038de168a4f4086c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 44/48] fix: separate command missed or overwrote inputs for
 some positions of the output folder

Nothing was processed when the output folder contained the input folder,
results written over other inputs (also through links) replaced them, and
a folder named like a wav file stopped the command.
---
 torchiva/separate.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index aa89dda..f764491 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -63,6 +63,14 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
     torchaudio.save(path_out, y, fs)
 
 
+def file_id(path):
+    # identifies an existing file, whatever the links that lead to it
+    if not path.exists():
+        return None
+    stat = path.stat()
+    return stat.st_dev, stat.st_ino
+
+
 def device_type(device):
     if device.isnumeric():
         return f"cuda:{device}"
@@ -221,12 +229,20 @@ def main(args):
 
         # list the files first so that the outputs are never taken for inputs
         output = args.output.resolve()
+        is_nested = args.input.resolve() in output.parents
         files = [
             path
             for path in sorted(args.input.rglob("*.wav"))
-            if output not in path.resolve().parents
+            if path.is_file()
+            and not (is_nested and output in path.resolve().parents)
         ]
 
+        input_ids = {file_id(path) for path in files}
+        for path_in in files:
+            path_out = args.output / path_in.relative_to(args.input)
+            if file_id(path_out) in input_ids:
+                raise ValueError(f"The output {path_out} is one of the inputs")
+
         for path_in in files:
             # keep the folder structure, files in different folders may share a name
             path_out = args.output / path_in.relative_to(args.input)
@@ -247,7 +263,7 @@ def main(args):
         else:
             path_out = args.output
 
-        if path_out.resolve() == args.input.resolve():
+        if path_out.exists() and file_id(path_out) == file_id(args.input):
             raise ValueError("Input and output should be different files")
 
         separate_one_file(
-- 
2.43.0


From fed2864db2c490eaa23e8b7c40f6d0feedbfe638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 45/48] fix: STFT shared the memory of the window given as
 array or tensor

---
 torchiva/stft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/stft.py b/torchiva/stft.py
index 43b9e09..40ca1ae 100644
--- a/torchiva/stft.py
+++ b/torchiva/stft.py
@@ -60,7 +60,8 @@ class STFT(torch.nn.Module):
         assert isinstance(window, torch.Tensor)
         if self.dtype is None:
             self.dtype = window.dtype
-        window = window.to(self.dtype)
+        # a copy, so that the window does not share memory with the argument
+        window = window.to(self.dtype, copy=True)
         assert window.ndim == 1 and window.shape[0] == self._n_fft
         self.register_buffer("_window", window)
 
-- 
2.43.0


From 438da3f2c2928ace4e8162f4611049becbd82235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:37 +0000
Subject: [PATCH 46/48] fix: FIVE returned silence when a channel is silent or
 repeated

---
 torchiva/five.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index e8beb16..94d0d68 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -24,7 +24,17 @@ from typing import List, Optional
 import torch
 
 from .base import SourceModelBase, DRBSSBase
-from .linalg import bmm, divide, eigh, hermite, mag, mag_sq, multiply, inv_loaded
+from .linalg import (
+    bmm,
+    diagonal_loading,
+    divide,
+    eigh,
+    hermite,
+    inv_loaded,
+    mag,
+    mag_sq,
+    multiply,
+)
 from .models import LaplaceModel
 from .parameters import eps_models
 
@@ -192,6 +202,12 @@ class FIVE(DRBSSBase):
         Q = torch.reciprocal(e_val_sqrt[..., :, None]) * hermite(e_vec)
         Qinv = e_vec * e_val_sqrt[..., None, :]
 
+        # the null space of the input (e.g. a silent or repeated channel) contains no
+        # source: load it so that it is never the smallest eigenvector
+        tol = 10 * torch.finfo(e_val.dtype).eps
+        null_load = (e_val <= tol * e_val[..., :1]).type_as(e_val)
+        null_load = null_load * torch.arange(1, n_chan + 1).type_as(e_val)
+
         # we keep the row of Q^{-1} corresponding to the reference mic for the
         # normalization
         if proj_back_mic is not None:
@@ -225,6 +241,8 @@ class FIVE(DRBSSBase):
             # compute the weighted spatial covariance matrix
             V = torch.einsum("...fn,...cfn,...dfn->...fcd", weights, X, X.conj())
             V = 0.5 * (V + hermite(V))
+            trace = torch.diagonal(V.detach(), dim1=-2, dim2=-1).real.sum(-1)
+            V = diagonal_loading(V, null_load * trace[..., None])
 
             # now compute the demixing vector
             # inv_eigenvalue (..., n_freq)
-- 
2.43.0


From efb6468dac78afdc5e919cc74526344275bddfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:37 +0000
Subject: [PATCH 47/48] fix: power iterations of the MVDR beamformer started
 from the first microphone whatever the reference

---
 torchiva/beamformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index 937876d..1a98393 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -95,7 +95,7 @@ def compute_mvdr_rtf_eigh(
     else:
         # use power iteration to compute dominant eigenvector
         Phi = solve_loaded(covmat_noise, covmat_target, load=1e-5)
-        v = Phi[..., :, 0]
+        v = Phi[..., :, ref_mic]
         for epoch in range(power_iterations - 1):
             v = torch.einsum("...cd,...d->...c", Phi, v)
             v = torch.nn.functional.normalize(v, dim=-1)
-- 
2.43.0


From 9e69a4535cc8abe65b5616aec8eea007860a0410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:28 +0000
Subject: [PATCH 48/48] fix: NMF model could not be copied after a call with
 gradients

---
 torchiva/models/classic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/torchiva/models/classic.py b/torchiva/models/classic.py
index ff83bed..537f989 100644
--- a/torchiva/models/classic.py
+++ b/torchiva/models/classic.py
@@ -90,6 +90,14 @@ class NMFModel(pt.nn.Module):
         self.V = None
         self.iR = None
 
+    def __getstate__(self):
+        # a copy is not part of the computation graph of the last update
+        state = self.__dict__.copy()
+        for name in ("T", "V", "R", "iR"):
+            if isinstance(state.get(name), pt.Tensor):
+                state[name] = state[name].detach()
+        return state
+
     def _init_state(self, P):
 
         if not self._is_initialized:
-- 
2.43.0

