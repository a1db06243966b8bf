From ba3ee797709a211caf0ddaf459c8c5f52368a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:58 +0000
Subject: [PATCH 01/29] fix: transpose the Jacobian in the generic jTmjp for
 diagonal arguments and results

The diag->full, full->diag and diag->diag formulas used J instead of J^T on the left,
so a custom layer with a non-symmetric Jacobian got wrong values or a shape error.
---
 nnj/abstract_jacobian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 61bb8b1..44c6376 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -223,13 +223,13 @@ class AbstractJacobian:
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
         elif from_diag and not to_diag:
             # diag -> full
-            return torch.einsum("bij,bj,bjl->bil", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bjl->bil", jacobian, matrix, jacobian)
         elif not from_diag and to_diag:
             # full -> diag
-            return torch.einsum("bij,bjk,bki->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bjk,bki->bi", jacobian, matrix, jacobian)
         elif from_diag and to_diag:
             # diag -> diag
-            return torch.einsum("bij,bj,bji->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bji->bi", jacobian, matrix, jacobian)
 
     @torch.no_grad()
     def get_weight(self) -> Tensor:
-- 
2.43.0


From aabd5a36059a6d77cb809d292fcd81e84ae8ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:58 +0000
Subject: [PATCH 02/29] fix: exact Jacobian of L2Norm

The eps in the denominator was also put into the derivative of the norm; the error is
large whenever eps is not negligible compared with the norm of the input.
---
 nnj/l2norm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index 634acbb..17dd617 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -37,7 +37,9 @@ class L2Norm(AbstractJacobian, nn.Module):
             b, d = x.shape
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
-            jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
+            # derivative of the norm; as for torch.norm, zero in zero
+            norm_grad = torch.einsum("b,bi->bi", torch.where(norm > 0, 1.0 / norm, torch.zeros_like(norm)), x)
+            jacobian = torch.einsum("bi,bj->bij", normalized_x, norm_grad)
             jacobian = torch.diag(torch.ones(d, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
-- 
2.43.0


From 74bdc1b9c2626b221be0c25c4a1e11ceeb6d3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:58 +0000
Subject: [PATCH 03/29] fix: Jacobian of Softplus above its threshold

torch.nn.Softplus is linear for beta * x > threshold, so its derivative there is 1.
---
 nnj/softplus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnj/softplus.py b/nnj/softplus.py
index 1275a45..852ef48 100644
--- a/nnj/softplus.py
+++ b/nnj/softplus.py
@@ -23,7 +23,10 @@ class Softplus(AbstractDiagonalJacobian, nn.Softplus):
         if wrt == "input":
             if val is None:
                 val = self.forward(x)
-            diag_jacobian = (torch.sigmoid(self.beta * x)).reshape(val.shape[0], -1)
+            diag_jacobian = torch.sigmoid(self.beta * x)
+            # above the threshold the function is linear
+            diag_jacobian = torch.where(self.beta * x > self.threshold, torch.ones_like(x), diag_jacobian)
+            diag_jacobian = diag_jacobian.reshape(val.shape[0], -1)
             if diag:
                 return diag_jacobian
             else:
-- 
2.43.0


From f5a40e5a6fffc9ed751122e2672398dafd84658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:26 +0000
Subject: [PATCH 04/29] fix: accumulate in the backward passes of MaxPool2d
 with overlapping windows

An input that is the maximum of several windows contributes once per window, but the
backward passes kept only one of the contributions.
---
 nnj/maxpool2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 7258f04..baeefec 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -173,7 +173,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
-            vector_J[arange_repeated, idx] = vector
+            vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
             return vector_J
@@ -212,7 +212,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
-            matrix_J[arange_repeated, idx] = matrix
+            matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
             return matrix_J
@@ -263,7 +263,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 )
 
                 Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
-                Jt_matrix_J[arange_repeated, idx_row, idx_col] = matrix
+                Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
                     .movedim(-2, -3)
@@ -296,7 +296,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
-                Jt_matrix_J[arange_repeated, idx] = matrix.reshape(b * c2, h2 * w2)
+                Jt_matrix_J.index_put_((arange_repeated, idx), matrix.reshape(b * c2, h2 * w2), accumulate=True)
 
                 return Jt_matrix_J.reshape(b, c1 * h1 * w1)
         elif wrt == "weight":
-- 
2.43.0


From fcc55ce9637cfbfcedfc81c97986154d6828fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:26 +0000
Subject: [PATCH 05/29] fix: MaxPool2d.jmp for any number of columns

Only square matrices were accepted.
---
 nnj/maxpool2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index baeefec..e5d69a7 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -96,10 +96,10 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             assert matrix_orig_shape[0] == b
             assert matrix_orig_shape[1] == c1 * h1 * w1
 
-            matrix = matrix.reshape(b * c1, h1 * w1, c1, h1, w1)
+            matrix = matrix.reshape(b * c1, h1 * w1, matrix_orig_shape[2])
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
             idx = self.idx.reshape(-1)
-            matrix = matrix[arange_repeated, idx, :, :, :].reshape(*val.shape, c1, h1, w1)
+            matrix = matrix[arange_repeated, idx, :]
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
             return matrix
         elif wrt == "weight":
-- 
2.43.0


From 5e0899b7a360e877a8ebfbe7b30146865962f574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:26 +0000
Subject: [PATCH 06/29] fix: build buffers in the dtype of the input

Identities, zeros and box filters were always float32, so that models in double precision
got a dtype error or a float32 result from convolution, pooling and upsampling.
---
 nnj/conv2d.py    | 10 +++++-----
 nnj/l2norm.py    |  2 +-
 nnj/maxpool2d.py | 10 +++++-----
 nnj/upsample.py  | 10 +++++-----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 2cc3290..f9387a3 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -51,7 +51,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         b, c2, h2, w2 = val.shape
-        identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+        identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
         identity = torch.diag_embed(identity)
         j = self.mjp(x, val, identity, wrt=wrt)
         return j
@@ -218,7 +218,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 vector = vector.movedim(0, 1)
 
-                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -328,7 +328,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 matrixT_cols = matrixT_cols.movedim(0, 1)
 
-                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, device=x.device)
+                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -503,7 +503,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                     Jt_matrix_J = vmap(single_batch_fun)(x, matrix)
 
                 else:
-                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, dtype=x.dtype, device=x.device)
                     for i in range(b):
                         # set the weight to the convolution
                         input_single_batch = x[i : i + 1, :, :, :]
@@ -625,7 +625,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 else:
                     # switch batch size and output channel
                     matrix = matrix.movedim(0, 1)
-                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                     flip_squared_input = flip_squared_input.movedim(0, 1)
 
                     for i in range(b):
diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index 17dd617..ee22a3b 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -40,7 +40,7 @@ class L2Norm(AbstractJacobian, nn.Module):
             # derivative of the norm; as for torch.norm, zero in zero
             norm_grad = torch.einsum("b,bi->bi", torch.where(norm > 0, 1.0 / norm, torch.zeros_like(norm)), x)
             jacobian = torch.einsum("bi,bj->bij", normalized_x, norm_grad)
-            jacobian = torch.diag(torch.ones(d, device=x.device)).expand(b, d, d) - jacobian
+            jacobian = torch.diag(torch.ones(d, dtype=x.dtype, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
         elif wrt == "weight":
diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index e5d69a7..63e2a5f 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -40,11 +40,11 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
-            # identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+            # identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
             # identity = torch.diag_embed(identity)
             # j = self.mjp(x, val, identity, wrt="input")
 
-            identity = torch.ones(b, c1 * h1 * w1, device=x.device)
+            identity = torch.ones(b, c1 * h1 * w1, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.jmp(x, val, identity, wrt="input")
             # print(j.shape)
@@ -172,7 +172,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # indexes for col
             idx = self.idx.reshape(b * c2, h2 * w2)
 
-            vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
+            vector_J = torch.zeros((b * c2, h1 * w1), dtype=x.dtype, device=vector.device)
             vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
@@ -211,7 +211,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
-            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
+            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), dtype=x.dtype, device=matrix.device)
             matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
@@ -262,7 +262,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
                 )
 
-                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
+                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), dtype=x.dtype, device=matrix.device)
                 Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
diff --git a/nnj/upsample.py b/nnj/upsample.py
index 898360a..297579a 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -26,7 +26,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
-            identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+            identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.mjp(x, val, identity, wrt="input")
             return j
@@ -133,7 +133,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert c1 == c2
             assert vector.shape == (b, c2 * h2 * w2)
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
             vector_J = F.conv2d(
                 vector.reshape(b * c2, 1, h2, w2),
@@ -172,7 +172,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2
             n_rows = matrix.shape[1]
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
             matrix_J = F.conv2d(
                 matrix.reshape(b * n_rows * c2, 1, h2, w2),
@@ -219,7 +219,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             if not from_diag and not to_diag:
                 # full -> full
 
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
                 matrix = matrix.reshape(b, c2, h2 * w2, c2, h2 * w2)
                 matrix = matrix.movedim(2, 3)
@@ -268,7 +268,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
                 )
             elif from_diag and to_diag:
                 # diag -> diag
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
                 matrix = F.conv2d(
                     matrix.reshape(b * c2, 1, h2, w2),
-- 
2.43.0


From 6897c2daaa4cd25c8b1ce246836e1620cc48acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:07 +0000
Subject: [PATCH 07/29] fix: store the feature maps of Sequential in its own
 forward

They were collected by hooks on the layers. A deep copy shared the hooks of the original,
a layer used twice was hooked twice, and calling a single layer added to the feature maps:
in all cases the backward passes read the wrong feature maps.
---
 nnj/sequential.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 5d3721c..8656346 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -20,18 +20,14 @@ class Sequential(AbstractJacobian, nn.Sequential):
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
-            self.handles = []
-
-            for k in range(len(self._modules)):
-                self.handles.append(
-                    self._modules_list[k].register_forward_hook(lambda m, i, o: self.feature_maps.append(o.detach()))
-                )
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
             self.feature_maps = [x]
         for module in self._modules.values():
             val = module(x)
+            if self.add_hooks:
+                self.feature_maps.append(val.detach())
             x = val
         return x
 
-- 
2.43.0


From 947c844d060dc8c7a6ce10abdcf1b9e6e1733116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:07 +0000
Subject: [PATCH 08/29] fix: backward passes must not use the state of another
 forward pass

Given x and val, Sequential and MaxPool2d used the feature maps and indexes of whichever
input was forwarded last.
---
 nnj/maxpool2d.py  | 15 +++++----------
 nnj/sequential.py | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 63e2a5f..ace6541 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -35,8 +35,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
     ) -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # updates the indexes of the maxima
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -88,8 +87,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # updates the indexes of the maxima
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             matrix_orig_shape = matrix.shape
@@ -158,8 +156,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         vector jacobian product
         """
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # updates the indexes of the maxima
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -195,8 +192,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # updates the indexes of the maxima
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -234,8 +230,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
-        if val is None:
-            val = self.forward(x)
+        val = self.forward(x)  # updates the indexes of the maxima
         b, c1, h1, w1 = x.shape
         _, c2, h2, w2 = val.shape
         assert c1 == c2
diff --git a/nnj/sequential.py b/nnj/sequential.py
index 8656346..914b78b 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -31,6 +31,16 @@ class Sequential(AbstractJacobian, nn.Sequential):
             x = val
         return x
 
+    def _update_feature_maps(self, x: Tensor, val: Tensor) -> None:
+        """Makes sure that the stored feature maps are the ones of x"""
+
+        def same(a, b):
+            return a is b or (a.shape == b.shape and a.dtype == b.dtype and a.device == b.device and torch.equal(a, b))
+
+        stored = self.feature_maps
+        if len(stored) == 0 or not same(stored[0], x) or not same(stored[-1], val):
+            self.forward(x)
+
     @torch.no_grad()
     def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Tensor:
         """Returns the Jacobian matrix"""
@@ -136,6 +146,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         # forward pass
         if val is None:
             val = self.forward(x)
+        else:
+            self._update_feature_maps(x, val)
         if wrt == "input":
             if matrix is None:
                 matrix = torch.ones_like(x)
@@ -227,6 +239,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         # forward pass for computing hook values
         if val is None:
             val = self.forward(x)
+        else:
+            self._update_feature_maps(x, val)
 
         # backward pass
         vs = []
@@ -262,6 +276,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         # forward pass
         if val is None:
             val = self.forward(x)
+        else:
+            self._update_feature_maps(x, val)
         if matrix is None:
             vs = val.shape
             matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
@@ -300,6 +316,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         # forward pass
         if val is None:
             val = self.forward(x)
+        else:
+            self._update_feature_maps(x, val)
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
             from_diag = True
-- 
2.43.0


From ecf36f3357b4770fc165f023fe063ce1ac18d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 09/29] fix: pass the output of the inner network in
 SkipConnection

val is not flattened, so that the slice has to start from the number of channels. jacobian
passed the output of the whole layer.
---
 nnj/skipconnection.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 610da31..af2b258 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -25,11 +25,9 @@ class SkipConnection(nn.Module, AbstractJacobian):
         wrt: Literal["input", "weight"] = "input",
     ) -> Tensor:
         """Returns the Jacobian matrix"""
-        jac = self._F.jacobian(x, val, wrt=wrt)
+        jac = self._F.jacobian(x, None if val is None else val[:, x.shape[1] :], wrt=wrt)
         b = x.shape[0]
         l = x[0].numel()
-        if val is None:
-            val = self.forward(x)
         if wrt == "input":
             identity = torch.diag_embed(torch.ones_like(x).reshape(b, l))
             return torch.cat([identity, jac], dim=1)
@@ -54,7 +52,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         b = x.shape[0]
         l = x[0].numel()
-        jvp = self._F.jvp(x, None if val is None else val[:, l:], vector, wrt=wrt)
+        jvp = self._F.jvp(x, None if val is None else val[:, x.shape[1] :], vector, wrt=wrt)
         if wrt == "input":
             return torch.cat([vector, jvp], dim=1)
         elif wrt == "weight":
@@ -76,7 +74,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
             return self.jacobian(x, val, wrt=wrt)
         b = x.shape[0]
         l = x[0].numel()
-        jmp = self._F.jmp(x, None if val is None else val[:, l:], matrix, wrt=wrt)
+        jmp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix, wrt=wrt)
         if wrt == "input":
             return torch.cat([matrix, jmp], dim=1)
         elif wrt == "weight":
@@ -104,7 +102,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         l1, l2 = x[0].numel(), val[0].numel()
         jmjTp = self._F.jmjTp(
             x,
-            None if val is None else val[:, l1:],
+            None if val is None else val[:, x.shape[1] :],
             matrix,
             wrt=wrt,
             from_diag=from_diag,
@@ -119,12 +117,12 @@ class SkipConnection(nn.Module, AbstractJacobian):
                     return torch.cat([torch.einsum("bii->bi", matrix), jmjTp], dim=1)
             if from_diag:
                 matrix = torch.diag_embed(matrix)
-                jmp = self._F.jmp(x, None if val is None else val[:, l1:], matrix, wrt=wrt)
+                jmp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix, wrt=wrt)
                 return torch.cat(
                     [torch.cat([matrix, jmp.transpose(1, 2)], dim=2), torch.cat([jmp, jmjTp], dim=2)], dim=1
                 )
-            jmp = self._F.jmp(x, None if val is None else val[:, l1:], matrix, wrt=wrt)
-            mjTp = self._F.jmp(x, None if val is None else val[:, l1:], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)
+            jmp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix, wrt=wrt)
+            mjTp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)
             return torch.cat([torch.cat([matrix, mjTp], dim=2), torch.cat([jmp, jmjTp], dim=2)], dim=1)
         elif wrt == "weight":
             if to_diag:
@@ -149,7 +147,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         vector jacobian product
         """
         l = x[0].numel()
-        vjp = self._F.vjp(x, None if val is None else val[:, l:], vector[:, l:], wrt=wrt)
+        vjp = self._F.vjp(x, None if val is None else val[:, x.shape[1] :], vector[:, l:], wrt=wrt)
         if wrt == "input":
             return vector[:, :l] + vjp
         elif wrt == "weight":
@@ -169,7 +167,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         l = x[0].numel()
-        mjp = self._F.mjp(x, None if val is None else val[:, l:], matrix[:, :, l:], wrt=wrt)
+        mjp = self._F.mjp(x, None if val is None else val[:, x.shape[1] :], matrix[:, :, l:], wrt=wrt)
         if wrt == "input":
             return matrix[:, :, :l] + mjp
         elif wrt == "weight":
@@ -198,7 +196,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         l = x[0].numel()
         jTmjp = self._F.jTmjp(
             x,
-            None if val is None else val[:, l:],
+            None if val is None else val[:, x.shape[1] :],
             matrix[:, l:, l:] if not from_diag else matrix[:, l:],
             wrt=wrt,
             from_diag=from_diag,
@@ -210,9 +208,9 @@ class SkipConnection(nn.Module, AbstractJacobian):
                 return jTmjp + matrix[:, :l]
             if from_diag:
                 return jTmjp + torch.diag_embed(matrix[:, :l])
-            mjp = self._F.mjp(x, None if val is None else val[:, l:], matrix[:, :l, l:], wrt=wrt)
+            mjp = self._F.mjp(x, None if val is None else val[:, x.shape[1] :], matrix[:, :l, l:], wrt=wrt)
             jTmp = self._F.mjp(
-                x, None if val is None else val[:, l:], matrix[:, l:, :l].transpose(1, 2), wrt=wrt
+                x, None if val is None else val[:, x.shape[1] :], matrix[:, l:, :l].transpose(1, 2), wrt=wrt
             ).transpose(1, 2)
             if to_diag:
                 return (
-- 
2.43.0


From 6907e1946a97260b7e2d51c6cb64868d60b7a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 10/29] fix: SkipConnection without parameters returns None for
 wrt="weight"

This is what every other layer returns; instead it raised an error. The annotations of
Sequential and SkipConnection say so.
---
 nnj/sequential.py     |  8 ++++----
 nnj/skipconnection.py | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 914b78b..578f9cf 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -42,7 +42,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
             self.forward(x)
 
     @torch.no_grad()
-    def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Tensor:
+    def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         return self.mjp(x, val, None, wrt=wrt)
 
@@ -57,7 +57,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val: Union[Tensor, None],
         vector: Tensor,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian vector product
         """
@@ -94,7 +94,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val: Union[Tensor, None],
         matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix product
         """
@@ -136,7 +136,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         from_diag: bool = False,
         to_diag: bool = False,
         diag_backprop: bool = False,
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix jacobian.T product
         """
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index af2b258..494c2fb 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -23,9 +23,11 @@ class SkipConnection(nn.Module, AbstractJacobian):
         x: Tensor,
         val: Union[Tensor, None] = None,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         jac = self._F.jacobian(x, None if val is None else val[:, x.shape[1] :], wrt=wrt)
+        if jac is None:  # non parametric layer
+            return None
         b = x.shape[0]
         l = x[0].numel()
         if wrt == "input":
@@ -46,13 +48,15 @@ class SkipConnection(nn.Module, AbstractJacobian):
         val: Union[Tensor, None],
         vector: Tensor,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian vector product
         """
         b = x.shape[0]
         l = x[0].numel()
         jvp = self._F.jvp(x, None if val is None else val[:, x.shape[1] :], vector, wrt=wrt)
+        if jvp is None:  # non parametric layer
+            return None
         if wrt == "input":
             return torch.cat([vector, jvp], dim=1)
         elif wrt == "weight":
@@ -66,7 +70,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         val: Union[Tensor, None],
         matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix product
         """
@@ -75,6 +79,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         b = x.shape[0]
         l = x[0].numel()
         jmp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix, wrt=wrt)
+        if jmp is None:  # non parametric layer
+            return None
         if wrt == "input":
             return torch.cat([matrix, jmp], dim=1)
         elif wrt == "weight":
@@ -91,7 +97,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         from_diag: bool = False,
         to_diag: bool = False,
         diag_backprop: bool = False,
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix jacobian.T product
         """
@@ -125,6 +131,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
             mjTp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)
             return torch.cat([torch.cat([matrix, mjTp], dim=2), torch.cat([jmp, jmjTp], dim=2)], dim=1)
         elif wrt == "weight":
+            if jmjTp is None:  # non parametric layer
+                return None
             if to_diag:
                 return torch.cat([torch.zeros_like(x).reshape(b, l1), jmjTp], dim=1)
             zeros = torch.zeros(b, l2 - l1, l1, device=x.device, dtype=x.dtype)
-- 
2.43.0


From 1c7c16592ba32f78988a72dd5d0c6544b66dcd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 11/29] fix: None stands for the flattened identity, also for
 images and in the fast mode

Sequential, SkipConnection and Conv2d built an identity of the shape of the image, or none
at all, and refused diag_backprop with None, as in the example of the README, unless
from_diag was passed.
---
 nnj/conv2d.py         | 2 +-
 nnj/sequential.py     | 9 +++++----
 nnj/skipconnection.py | 9 ++++++---
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index f9387a3..b7692c7 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -380,7 +380,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         if wrt == "input":
             if not from_diag and not to_diag:
diff --git a/nnj/sequential.py b/nnj/sequential.py
index 578f9cf..3019136 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -141,6 +141,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian matrix jacobian.T product
         """
 
+        if matrix is None:
+            from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
         # forward pass
@@ -150,8 +152,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
             self._update_feature_maps(x, val)
         if wrt == "input":
             if matrix is None:
-                matrix = torch.ones_like(x)
-                from_diag = True
+                matrix = torch.ones_like(x).reshape(x.shape[0], -1)
             # forward pass again
             for k in range(len(self._modules_list)):
                 # propagate through the input
@@ -168,7 +169,6 @@ class Sequential(AbstractJacobian, nn.Sequential):
         elif wrt == "weight":
             if matrix is None:
                 matrix = torch.ones((x.shape[0], self._n_params), dtype=x.dtype, device=x.device)
-                from_diag = True
             if not isinstance(matrix, list):
                 new_matrix = []
                 p = 0
@@ -312,6 +312,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         jacobian.T matrix jacobian product
         """
+        if matrix is None:
+            from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         # forward pass
         if val is None:
@@ -320,7 +322,6 @@ class Sequential(AbstractJacobian, nn.Sequential):
             self._update_feature_maps(x, val)
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
-            from_diag = True
         # backward pass
         ms = []
         for k in range(len(self._modules_list) - 1, -1, -1):
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 494c2fb..83da4a9 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -101,11 +101,14 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian matrix jacobian.T product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         if val is None:
             val = self.forward(x)
         b = x.shape[0]
         l1, l2 = x[0].numel(), val[0].numel()
+        if matrix is None:
+            matrix = torch.ones(b, l1 if wrt == "input" else self._n_params, device=x.device, dtype=x.dtype)
+            from_diag = True
+        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         jmjTp = self._F.jmjTp(
             x,
             None if val is None else val[:, x.shape[1] :],
@@ -195,12 +198,12 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
+        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         l = x[0].numel()
         jTmjp = self._F.jTmjp(
             x,
-- 
2.43.0


From 9958d9b41af8a5819fa0aec5426be5a101825915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 12/29] fix: accept the default aggregate_batch="return all" of
 the log-likelihoods

The default was refused, and None, which was accepted instead, returned None everywhere.
---
 nnj/log_likelihoods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 3e57db9..64d9b18 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -15,7 +15,9 @@ class LogLikelihood(nn.Module):
     ):
         super().__init__()
 
-        assert aggregate_batch in (None, "sum", "average")
+        if aggregate_batch is None:
+            aggregate_batch = "return all"
+        assert aggregate_batch in ("return all", "sum", "average")
         assert metric_shape in ("full", "diag")
         assert metric_backprop in ("exact", "approx")
 
-- 
2.43.0


From 8c7cacbcb97410472992ce6215d9a068cc6768ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 13/29] fix: no overflow in gradient and ggn of the Bernoulli
 log-likelihoods

Logits above 88 gave nan, while the log-likelihood itself is finite.
---
 nnj/log_likelihoods.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 64d9b18..0fad146 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -127,7 +127,7 @@ class LogBinaryBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        binary_bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        binary_bernoulli_prob = torch.sigmoid(val)
         residual = (target - binary_bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
@@ -149,7 +149,7 @@ class LogBinaryBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
 
-        bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        bernoulli_prob = torch.sigmoid(val)
         log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
         log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, -1)
 
@@ -202,9 +202,7 @@ class LogBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
 
         residual = (target - bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
@@ -229,9 +227,7 @@ class LogBernoulli(LogLikelihood):
         c = val.shape[-1]
         l = val[0].numel() / c
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
         diag = torch.diag_embed(bernoulli_prob)
         outer = torch.einsum("...i,...j->...ij", bernoulli_prob, bernoulli_prob)
         log_bernoulli_hessian = outer - diag
-- 
2.43.0


From a7fe6d01a56af8346c3bf43ea0fff96ae4691d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 14/29] fix: LogBernoulli.ggn of outputs with several positions

The number of positions was a float, which reshape refuses.
---
 nnj/log_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 0fad146..23ce31e 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -225,7 +225,7 @@ class LogBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
-        l = val[0].numel() / c
+        l = val[0].numel() // c
 
         bernoulli_prob = torch.softmax(val, dim=-1)
         diag = torch.diag_embed(bernoulli_prob)
-- 
2.43.0


From 80c657e80eb652a15e607280a499bae7c96728ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 15/29] fix: LogBernoulli.ggn with metric_backprop="approx"

It passed a full matrix to a propagation that only takes diagonals, which is refused.
---
 nnj/log_likelihoods.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 23ce31e..d1925df 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -231,7 +231,10 @@ class LogBernoulli(LogLikelihood):
         diag = torch.diag_embed(bernoulli_prob)
         outer = torch.einsum("...i,...j->...ij", bernoulli_prob, bernoulli_prob)
         log_bernoulli_hessian = outer - diag
-        if l == 1:
+        approx = self.metric_backprop == "approx"
+        if approx:  # the approximation propagates diagonals only
+            log_bernoulli_hessian = torch.diagonal(log_bernoulli_hessian, dim1=-2, dim2=-1).reshape(b, -1)
+        elif l == 1:
             log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, c, c)
         else:
             log_bernoulli_hessian = (
@@ -246,9 +249,9 @@ class LogBernoulli(LogLikelihood):
             val,
             log_bernoulli_hessian,
             wrt=wrt,
-            from_diag=False,
+            from_diag=approx,
             to_diag=self.metric_shape == "diag",
-            diag_backprop=self.metric_backprop == "approx",
+            diag_backprop=approx,
         )
 
         if self.aggregate_batch == "return all":
-- 
2.43.0


From 001afdc9b3b8f1ab9cd7e7f5d52d74960d361dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 16/29] fix: aggregate the full ggn block by block

Sequential returns a list with one block for each layer, which sum and mean refuse.
---
 nnj/log_likelihoods.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index d1925df..d47b34e 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -6,6 +6,13 @@ from torch import nn, Tensor
 from nnj.abstract_jacobian import AbstractJacobian
 
 
+def _aggregate(JtHJ: Union[torch.Tensor, list], function) -> Union[torch.Tensor, list]:
+    """Aggregates along the batch a matrix, or each block of a list of blocks"""
+    if isinstance(JtHJ, list):
+        return [_aggregate(block, function) for block in JtHJ]
+    return function(JtHJ, dim=0)
+
+
 class LogLikelihood(nn.Module):
     def __init__(
         self,
@@ -72,7 +79,7 @@ class LogGaussian(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, list]:
         b = x.shape[0]
         val = model(x)
 
@@ -90,9 +97,9 @@ class LogGaussian(LogLikelihood):
         if self.aggregate_batch == "return all":
             return JtHJ
         elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
+            return _aggregate(JtHJ, torch.sum)
         elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+            return _aggregate(JtHJ, torch.mean)
 
 
 class LogBinaryBernoulli(LogLikelihood):
@@ -145,7 +152,7 @@ class LogBinaryBernoulli(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, list]:
         b = x.shape[0]
         val = model(x)
 
@@ -166,9 +173,9 @@ class LogBinaryBernoulli(LogLikelihood):
         if self.aggregate_batch == "return all":
             return JtHJ
         elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
+            return _aggregate(JtHJ, torch.sum)
         elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+            return _aggregate(JtHJ, torch.mean)
 
 
 class LogBernoulli(LogLikelihood):
@@ -221,7 +228,7 @@ class LogBernoulli(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, list]:
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
@@ -257,6 +264,6 @@ class LogBernoulli(LogLikelihood):
         if self.aggregate_batch == "return all":
             return JtHJ
         elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
+            return _aggregate(JtHJ, torch.sum)
         elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+            return _aggregate(JtHJ, torch.mean)
-- 
2.43.0


From 9e1577e0664b16b0ce07725fdb20cfd1f0806124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 17/29] fix: convert_to_nnj keeps the configuration of the
 layers

Stride, padding, dilation, groups, ceil_mode, beta, threshold and the absence of a bias were
dropped, so that the converted model computed another function; Upsample and nested
Sequential lost their arguments and layers.
---
 nnj/utils.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 8a0efb6..a898d4e 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -14,21 +14,45 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_features=layer.in_features,
                 out_features=layer.out_features,
+                bias=layer.bias is not None,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif layer.__class__.__name__ == "Conv2d":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_channels=layer.in_channels,
                 out_channels=layer.out_channels,
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                groups=layer.groups,
+                bias=layer.bias is not None,
+                padding_mode=layer.padding_mode,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif "Pool" in layer.__class__.__name__:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                ceil_mode=layer.ceil_mode,
             )
+        elif layer.__class__.__name__ == "Softplus":
+            nnj_layer = nnj.Softplus(beta=layer.beta, threshold=layer.threshold)
+        elif layer.__class__.__name__ == "Upsample":
+            nnj_layer = nnj.Upsample(
+                size=layer.size,
+                scale_factor=layer.scale_factor,
+                mode=layer.mode,
+                align_corners=layer.align_corners,
+            )
+        elif layer.__class__.__name__ == "Sequential":
+            nnj_layer = convert_to_nnj(layer)
         else:
             nnj_layer = getattr(nnj, layer.__class__.__name__)()
 
-- 
2.43.0


From d51b1435f4129336dfe219d7b903f1350f00beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 18/29] fix: invert_block_diagonal inverts the matrix

cholesky_inverse expects the Cholesky factor, it was given the matrix itself.
---
 nnj/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index a898d4e..6736c24 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -66,4 +66,4 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
 def invert_block_diagonal(matrix):
     if isinstance(matrix, list):
         return [invert_block_diagonal(m) for m in matrix]
-    return torch.cholesky_inverse(matrix)
+    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
-- 
2.43.0


From 1566d66b5d85b68224b0698f0f8dc04e3b5bd9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:43 +0000
Subject: [PATCH 19/29] fix: refuse padding modes of Conv2d other than zeros

As for the stride: the Jacobian products assume zeros and were silently wrong.
---
 nnj/conv2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index b7692c7..9ef4162 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -39,6 +39,8 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
             raise ValueError(
                 f"I can't handle stride = {self.stride}, sorry. Only stride 1 is supported (until pytorch extends the conv class)"
             )
+        if self.padding_mode != "zeros":
+            raise ValueError(f"I can't handle padding_mode = {self.padding_mode}, sorry. Only zeros is supported")
 
     @torch.no_grad()
     def jacobian(
-- 
2.43.0


From 7cf946e3e85b4b830844b64ce97e98b82e2bfa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:43 +0000
Subject: [PATCH 20/29] fix: refuse modes of Upsample other than nearest and
 fractional scale factors

The Jacobian products assume square boxes of equal pixels and were silently wrong.
---
 nnj/upsample.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nnj/upsample.py b/nnj/upsample.py
index 297579a..85d8ce5 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -11,6 +11,10 @@ class Upsample(nn.Upsample, AbstractJacobian):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self._n_params = 0
+        if self.mode not in ("nearest", "nearest-exact"):
+            raise ValueError(f"I can't handle mode = {self.mode}, sorry. Only nearest is supported")
+        if isinstance(self.scale_factor, float) and not self.scale_factor.is_integer():
+            raise ValueError(f"I can't handle scale_factor = {self.scale_factor}, sorry. Only integers are supported")
 
     @torch.no_grad()
     def jacobian(
-- 
2.43.0


From 6ea19bb8776a6bdd31b18f08b5cd3fd9ab0838fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:43 +0000
Subject: [PATCH 21/29] fix: convert_to_nnj refuses to convert a partial
 Flatten

It was silently replaced by a full one.
---
 nnj/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nnj/utils.py b/nnj/utils.py
index 6736c24..36f44ba 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -53,6 +53,8 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
             )
         elif layer.__class__.__name__ == "Sequential":
             nnj_layer = convert_to_nnj(layer)
+        elif isinstance(layer, nn.Flatten) and (layer.start_dim, layer.end_dim) != (1, -1):
+            raise ValueError(f"I can't convert {layer}, sorry. Only the flattening of all dimensions is supported")
         else:
             nnj_layer = getattr(nnj, layer.__class__.__name__)()
 
-- 
2.43.0


From b9704dd0f5df5460a494dfa9e2a4fa1fe4332903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:12 +0000
Subject: [PATCH 22/29] fix: Linear.jacobian returns values, not a view of the
 weights

The Jacobian with respect to the input was a view of the weight parameter: it
required grad, changed with the next in-place update of the weights, and could
raise afterwards.
---
 nnj/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/linear.py b/nnj/linear.py
index fc19c8a..954888b 100644
--- a/nnj/linear.py
+++ b/nnj/linear.py
@@ -21,7 +21,7 @@ class Linear(nn.Linear, AbstractJacobian):
         """Returns the Jacobian matrix"""
         b, c1 = x.shape
         if wrt == "input":
-            return self.weight.unsqueeze(0).expand(b, *self.weight.shape)
+            return self.weight.detach().repeat(b, 1, 1)
         elif wrt == "weight":
             if val is None:
                 val = self.forward(x)
-- 
2.43.0


From e40b1d6df7e58bd90dd7de56f59436c6a1fe21d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:50 +0000
Subject: [PATCH 23/29] fix: store the input of Sequential detached

A model with nested Sequentials kept the non-leaf inputs of the inner ones, so
that it could not be deep-copied after a forward pass.
---
 nnj/sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 3019136..e720401 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -23,7 +23,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
-            self.feature_maps = [x]
+            self.feature_maps = [x.detach()]
         for module in self._modules.values():
             val = module(x)
             if self.add_hooks:
-- 
2.43.0


From 92dd76883cb8e5ba30b01341475e1548b059c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:02 +0000
Subject: [PATCH 24/29] fix: always recompute the feature maps of Sequential

Comparing the stored input and output with x and val cannot tell that the stored feature maps belong
to other weights, or that x was changed in place since, when the output happens to be the same.
---
 nnj/sequential.py | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index e720401..25b4de2 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -31,16 +31,6 @@ class Sequential(AbstractJacobian, nn.Sequential):
             x = val
         return x
 
-    def _update_feature_maps(self, x: Tensor, val: Tensor) -> None:
-        """Makes sure that the stored feature maps are the ones of x"""
-
-        def same(a, b):
-            return a is b or (a.shape == b.shape and a.dtype == b.dtype and a.device == b.device and torch.equal(a, b))
-
-        stored = self.feature_maps
-        if len(stored) == 0 or not same(stored[0], x) or not same(stored[-1], val):
-            self.forward(x)
-
     @torch.no_grad()
     def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
@@ -146,10 +136,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
         # forward pass
-        if val is None:
-            val = self.forward(x)
-        else:
-            self._update_feature_maps(x, val)
+        val = self.forward(x)  # updates the feature maps
         if wrt == "input":
             if matrix is None:
                 matrix = torch.ones_like(x).reshape(x.shape[0], -1)
@@ -237,10 +224,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass for computing hook values
-        if val is None:
-            val = self.forward(x)
-        else:
-            self._update_feature_maps(x, val)
+        val = self.forward(x)  # updates the feature maps
 
         # backward pass
         vs = []
@@ -274,10 +258,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass
-        if val is None:
-            val = self.forward(x)
-        else:
-            self._update_feature_maps(x, val)
+        val = self.forward(x)  # updates the feature maps
         if matrix is None:
             vs = val.shape
             matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
@@ -316,10 +297,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
             from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         # forward pass
-        if val is None:
-            val = self.forward(x)
-        else:
-            self._update_feature_maps(x, val)
+        val = self.forward(x)  # updates the feature maps
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
         # backward pass
-- 
2.43.0


From ad10305680f840870ec6fb917524a584f7259089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:32 +0000
Subject: [PATCH 25/29] fix: refuse inputs of more than two dimensions in the
 products of Linear

einsum broadcasts dimensions of size one, so with one output (or input) feature
vjp, mjp and the metric passes of a Linear applied to (batch, n, features)
returned values of the wrong shape instead of raising as jacobian does.
---
 nnj/linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nnj/linear.py b/nnj/linear.py
index 954888b..40ea5e0 100644
--- a/nnj/linear.py
+++ b/nnj/linear.py
@@ -47,6 +47,7 @@ class Linear(nn.Linear, AbstractJacobian):
         """
         jacobian vector product
         """
+        assert x.dim() == 2
         if wrt == "input":
             return torch.einsum("kj,bj->bk", self.weight, vector)
         elif wrt == "weight":
@@ -71,6 +72,7 @@ class Linear(nn.Linear, AbstractJacobian):
         """
         jacobian matrix product
         """
+        assert x.dim() == 2
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
@@ -103,6 +105,7 @@ class Linear(nn.Linear, AbstractJacobian):
         """
         jacobian matrix jacobian.T product
         """
+        assert x.dim() == 2
         if val is None:
             val = self.forward(x)
         if wrt == "input":
@@ -178,6 +181,7 @@ class Linear(nn.Linear, AbstractJacobian):
         """
         vector jacobian product
         """
+        assert x.dim() == 2
         if wrt == "input":
             return torch.einsum("bj,jk->bk", vector, self.weight)
         elif wrt == "weight":
@@ -198,6 +202,7 @@ class Linear(nn.Linear, AbstractJacobian):
         """
         matrix jacobian product
         """
+        assert x.dim() == 2
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
@@ -225,6 +230,7 @@ class Linear(nn.Linear, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
+        assert x.dim() == 2
         if val is None:
             val = self.forward(x)
         if matrix is None:
-- 
2.43.0


From 38f3563f86808bc4d816fe99d3a15dc6eac3e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:32 +0000
Subject: [PATCH 26/29] fix: set_weight copies the vector instead of keeping
 views of it

---
 nnj/abstract_jacobian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 44c6376..30a723e 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -243,4 +243,7 @@ class AbstractJacobian:
         """
         Sets the weight of the module.
         """
+        # vector_to_parameters makes the parameters views of its argument, which has to be a copy: otherwise training the
+        # module would change the vector of the caller, and changing that vector would change the module
+        weight = weight.clone()
         torch.nn.utils.vector_to_parameters(weight, self.parameters())
-- 
2.43.0


From ad450714788079bfaebd21e7749b1bd06a2f40dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:40 +0000
Subject: [PATCH 27/29] fix: get_weight raised for parameters that are not
 contiguous (convolutions in channels_last)

---
 nnj/abstract_jacobian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 30a723e..37b85cb 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -236,7 +236,7 @@ class AbstractJacobian:
         """
         Returns the weight of the module.
         """
-        return torch.nn.utils.parameters_to_vector(self.parameters())
+        return torch.nn.utils.parameters_to_vector(p.contiguous() for p in self.parameters())
 
     @torch.no_grad()
     def set_weight(self, weight: Tensor) -> None:
-- 
2.43.0


From d216628f6deb86db397173615543f1c02073e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 28/29] fix: Sequential follows changes of its members after
 construction

The list of members and the number of parameters were recorded by the
constructor; after m[i] = layer, append, insert, extend, del or pop the
products silently used the old ones.
---
 nnj/sequential.py     | 19 ++++++++++++-------
 nnj/skipconnection.py |  5 ++++-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 25b4de2..b88a1d8 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -9,18 +9,23 @@ from nnj.abstract_jacobian import AbstractJacobian
 class Sequential(AbstractJacobian, nn.Sequential):
     def __init__(self, *args, add_hooks: bool = True):
         super().__init__(*args)
-        self._modules_list = list(self._modules.values())
-
-        self._n_params = 0
-        # for k in range(len(self._modules)):
-        #    self._n_params += self._modules_list[k]._n_params
-        for layer in self._modules_list:
-            self._n_params += layer._n_params
+        for layer in self._modules.values():
+            _ = layer._n_params  # raises for members that are no layers of this library
 
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
 
+    # members can be replaced, added and removed at any time
+
+    @property
+    def _modules_list(self) -> List[AbstractJacobian]:
+        return list(self._modules.values())
+
+    @property
+    def _n_params(self) -> int:
+        return sum(layer._n_params for layer in self._modules.values())
+
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
             self.feature_maps = [x.detach()]
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 83da4a9..81f280c 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -12,7 +12,10 @@ class SkipConnection(nn.Module, AbstractJacobian):
         super().__init__()
 
         self._F = Sequential(*args, add_hooks=add_hooks)
-        self._n_params = self._F._n_params
+
+    @property
+    def _n_params(self) -> int:
+        return self._F._n_params
 
     def forward(self, x: Tensor):
         return torch.cat([x, self._F(x)], dim=1)
-- 
2.43.0


From d65c595a53a02a490046a43812a83947a5c08f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 29/29] fix: max pooling makes its indices on the device of its
 input

---
 nnj/maxpool2d.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index ace6541..a016024 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -95,7 +95,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             assert matrix_orig_shape[1] == c1 * h1 * w1
 
             matrix = matrix.reshape(b * c1, h1 * w1, matrix_orig_shape[2])
-            arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
+            arange_repeated = torch.repeat_interleave(torch.arange(b * c1, device=x.device), h2 * w2).long()
             idx = self.idx.reshape(-1)
             matrix = matrix[arange_repeated, idx, :]
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
@@ -164,7 +164,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
             vector = vector.reshape(b * c2, h2 * w2)
             # indexes for batch and channel
-            arange_repeated = torch.repeat_interleave(torch.arange(b * c2), h2 * w2).long()
+            arange_repeated = torch.repeat_interleave(torch.arange(b * c2, device=x.device), h2 * w2).long()
             arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
             # indexes for col
             idx = self.idx.reshape(b * c2, h2 * w2)
@@ -201,7 +201,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             matrix = matrix.reshape(b * n_rows * c2, h2 * w2)
 
             # indexes for batch, channel and row
-            arange_repeated = torch.repeat_interleave(torch.arange(b * n_rows * c2), h2 * w2).long()
+            arange_repeated = torch.repeat_interleave(torch.arange(b * n_rows * c2, device=x.device), h2 * w2).long()
             arange_repeated = arange_repeated.reshape(b * n_rows * c2, h2 * w2)
             # indexes for col
             idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
@@ -248,7 +248,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                     matrix.reshape(b, c1, h2 * w2, c1, h2 * w2).movedim(-2, -3).reshape(b * c1 * c1, h2 * w2, h2 * w2)
                 )
                 # indexes for batch and channel
-                arange_repeated = torch.repeat_interleave(torch.arange(b * c1 * c1), h2 * w2 * h2 * w2).long()
+                arange_repeated = torch.repeat_interleave(torch.arange(b * c1 * c1, device=x.device), h2 * w2 * h2 * w2).long()
                 arange_repeated = arange_repeated.reshape(b * c1 * c1, h2 * w2, h2 * w2)
                 # indexes for height and width
                 idx = self.idx.reshape(b, c1, h2 * w2).unsqueeze(2).expand(-1, -1, h2 * w2, -1)
@@ -284,7 +284,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 # diag -> diag
 
                 # indexes for batch and channel
-                arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
+                arange_repeated = torch.repeat_interleave(torch.arange(b * c1, device=x.device), h2 * w2).long()
                 arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
                 # indexes for height and width
                 idx = self.idx.reshape(b * c2, h2 * w2)
-- 
2.43.0

