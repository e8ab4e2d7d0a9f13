From b41dbba594fe3f4eb663d972e04084ee17262e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 01/38] fix: SO2 nearest neighbour distance ignores the element
 itself

The distance of every element to itself was included, so the default
sampling width was 0 and SE2/E2 group kernels sampled NaN weights.
---
 gconv/geometry/groups/so2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index e4c352b..00a916d 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -237,4 +237,4 @@ def nearest_neighbour_distance(grid: Tensor) -> Tensor:
     Arguments:
         grid: tensor of shape (N, 1) of rotation angles.
     """
-    return (geodesic_distance(grid[:, None], grid)).min(-1)[0]
+    return geodesic_distance(grid[:, None], grid).sort()[0][:, 1]
-- 
2.43.0


From 6145051e7b6ea45f4b29e3cef363436fe073daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 02/38] fix: E3 sampling widths are computed from rotations

The 10 dimensional O3 vectors were passed as if they were quaternions.
---
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index 3f754ed..bba4ac0 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -126,13 +126,17 @@ class GSeparableKernelE3(GSeparableKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         sample_H_kwargs = {
@@ -220,13 +224,17 @@ class GKernelE3(GKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         sample_H_kwargs = {
-- 
2.43.0


From 6d4593fb2d3e55264d1f6e3ce2c775b52fd0808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 03/38] fix: separable and subgroup kernels keep (out, in)
 element order

left_apply_to_H(out^-1, in) has shape (out, in); viewing it as (in, out)
mixed up elements whenever the two grids differ in size.
---
 gconv/gnn/kernels/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93cabc6..93202f9 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -274,8 +274,8 @@ class GSeparableKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.weight_dims,
@@ -364,8 +364,8 @@ class GSubgroupKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.kernel_size,
-- 
2.43.0


From 0e5ee7e2f493e7d429497a385bde609810265172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 04/38] fix: separable convolution applies stride and padding
 once

The 1x1 subgroup convolution also used the stride, padding and padding
mode of the spatial convolution.
---
 gconv/gnn/modules/gconv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 2bdf7ff..ed2830d 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -298,14 +298,15 @@ class GSeparableConvNd(GroupConvNd):
         weight_H, weight = self.kernel(in_H, out_H)
 
         # subgroup conv
-        input = self._conv_forward(
+        conv = F.conv2d if len(input_dims) == 2 else F.conv3d
+        input = conv(
             input.reshape(N, self.in_channels * num_in_H, *input_dims),
             weight_H.reshape(
                 self.out_channels * num_out_H,
                 (self.in_channels // self.groups) * num_in_H,
                 *weight_H.shape[4:],
             ),
-            self.groups,
+            groups=self.groups,
         )
 
         # spatial conv
-- 
2.43.0


From 5ee4052a6910633f3b4cbf841470fd26d3443b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 05/38] fix: kernels are scaled by the absolute determinant

The signed determinant flipped the sign of kernels of improper elements,
breaking equivariance under reflections.
---
 gconv/gnn/kernels/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93202f9..e248a81 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -190,7 +190,7 @@ class GLiftingKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(H).abs().view(-1, 1, *self.weight_dims)
 
         return weight
 
@@ -300,7 +300,7 @@ class GSeparableKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(out_H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(out_H).abs().view(-1, 1, *self.weight_dims)
 
         return weight_H, weight
 
@@ -479,6 +479,6 @@ class GKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(out_H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(out_H).abs().view(-1, 1, *self.weight_dims)
 
         return weight
-- 
2.43.0


From eb57267dd2477f83629d5b330d808a91dabd3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 06/38] fix: SE2 kernels honour mask=False

---
 gconv/gnn/kernels/kernel_sen/kernel_se2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se2.py b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
index 0c66f67..517019a 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se2.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
@@ -42,7 +42,7 @@ class GLiftingKernelSE2(GLiftingKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         sample_Rn_kwargs = {
             "mode": sampling_mode,
@@ -117,7 +117,7 @@ class GSeparableKernelSE2(GSeparableKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
@@ -190,7 +190,7 @@ class GKernelSE2(GKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
-- 
2.43.0


From b75b377f66488fdf2f3c13a899d802d1eab80eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 07/38] fix: spatial pooling keeps the spatial axes

---
 gconv/gnn/modules/pooling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 560c8e6..84952e1 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -10,7 +10,7 @@ class GMaxSpatialPool2d(nn.MaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxSpatialPool3d(nn.MaxPool3d):
@@ -19,7 +19,7 @@ class GMaxSpatialPool3d(nn.MaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxGroupPool(nn.Module):
@@ -46,7 +46,7 @@ class GAvgSpatialPool2d(nn.AvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgSpatialPool3d(nn.AvgPool3d):
@@ -55,7 +55,7 @@ class GAvgSpatialPool3d(nn.AvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgGroupPool(nn.Module):
@@ -82,7 +82,7 @@ class GAdaptiveMaxSpatialPool2d(nn.AdaptiveMaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
@@ -91,7 +91,7 @@ class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
@@ -100,7 +100,7 @@ class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
@@ -109,4 +109,4 @@ class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
-- 
2.43.0


From 397072611ec06c76cab2579ee529f8b775c1697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 08/38] fix: max group and global pooling return a tensor

---
 gconv/gnn/modules/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 84952e1..36d8a34 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -28,7 +28,7 @@ class GMaxGroupPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.max(dim=2)
+        return x.max(dim=2)[0]
 
 
 class GMaxGlobalPool(nn.Module):
@@ -37,7 +37,7 @@ class GMaxGlobalPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.flatten(2, -1).max(-1, keepdim=True)
+        return x.flatten(2, -1).max(-1, keepdim=True)[0]
 
 
 class GAvgSpatialPool2d(nn.AvgPool2d):
-- 
2.43.0


From a140bfb5f823f7fadc9357337d22c1af0d215634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 09/38] fix: GWrap initialises nn.Module

---
 gconv/gnn/modules/wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gconv/gnn/modules/wrappers.py b/gconv/gnn/modules/wrappers.py
index 6388146..a98b8d6 100644
--- a/gconv/gnn/modules/wrappers.py
+++ b/gconv/gnn/modules/wrappers.py
@@ -13,6 +13,7 @@ class GWrap(nn.Module):
         Arguments:
             - module: nn.Module.
         """
+        super().__init__()
         self.module = module
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-- 
2.43.0


From 2f07fe18b8d6447a5b4c6eaa3068c4ba71fbfd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 10/38] fix: left_apply_quat computes the quaternion product

---
 gconv/geometry/groups/so3.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 2ebe2ab..a28d64f 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -184,9 +184,9 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
     Returns:
         - Tensor of shape `(..., 4)`.
     """
-    q = q1.new_empty(q1.shape)
+    q = q1.new_empty(torch.broadcast_shapes(q1.shape, q2.shape))
 
-    cross = torch.cross(q1[..., 1:], q2[..., 1:])
+    cross = torch.linalg.cross(q1[..., 1:], q2[..., 1:])
 
     q[..., 0] = (
         q1[..., 0] * q2[..., 0]
@@ -194,9 +194,9 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
         - q1[..., 2] * q2[..., 2]
         - q1[..., 3] * q2[..., 3]
     )
-    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0], q1[..., 1] + cross[..., 0]
-    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0], q1[..., 2] + cross[..., 1]
-    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0], q1[..., 3] + cross[..., 2]
+    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0] * q1[..., 1] + cross[..., 0]
+    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0] * q1[..., 2] + cross[..., 1]
+    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0] * q1[..., 3] + cross[..., 2]
 
     return q
 
-- 
2.43.0


From 2a7c5a1b552be31fcc1167ee31f042577be5dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 11/38] fix: grid cache hands out copies and stores the
 requested parameterization

Callers shared the cached tensor, so loading a checkpoint or modifying a
grid changed the table. Optimised grids were cached as Euler angles under
any parameterization, and caching Euler grids raised KeyError.
---
 gconv/geometry/groups/_grid_cache.py | 5 +++--
 gconv/geometry/groups/so3.py         | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 58ddc6c..feed6b0 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -19,11 +19,12 @@ def save_grid(
             pass
         else:
             return
-    _grid_cache[grid_type.lower()][parameterization.lower()][grid.shape[0]] = grid
+    grids = _grid_cache.setdefault(grid_type.lower(), {})
+    grids.setdefault(parameterization.lower(), {})[grid.shape[0]] = grid.clone()
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
-    return _grid_cache[grid_type.lower()][parameterization.lower()][size]
+    return _grid_cache[grid_type.lower()][parameterization.lower()][size].clone()
 
 
 _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index a28d64f..96481a5 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -604,10 +604,12 @@ def uniform_grid(
         in_place=True,
     )
 
+    grid = param_fn(grid)
+
     if cache_grid:
         _grid_cache.save_grid(grid, "so3", parameterization)
 
-    return param_fn(grid)
+    return grid
 
 
 def quaternion_log(q: Tensor) -> Tensor:
-- 
2.43.0


From 8cddee443250c201b31750567d5274373e03fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 12/38] fix: matrix_to_quat and matrix_to_euler accept any
 leading shape

---
 gconv/geometry/groups/so3.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 96481a5..e6152d1 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -263,7 +263,7 @@ def matrix_to_quat(r: Tensor) -> Tensor:
     """
     q = r.new_empty(*r.shape[:-2], 4)
 
-    decision = torch.diagonal(r, 0, dim1=1, dim2=2)
+    decision = torch.diagonal(r, 0, dim1=-2, dim2=-1)
     decision = torch.cat((decision, torch.sum(decision, dim=-1, keepdim=True)), dim=-1)
 
     i = torch.argmax(decision, dim=-1)
@@ -316,38 +316,38 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     matrix_trans = torch.matmul(res, c.T)
 
     # step 4
-    matrix_trans[:, 2, 2] = torch.clamp(matrix_trans[:, 2, 2], -1, 1)
+    matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
 
-    g[:, 1] = torch.acos(matrix_trans[:, 2, 2])
+    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
 
     # step 5, 6
-    safe1 = torch.abs(g[:, 1]) >= eps
-    safe2 = torch.abs(g[:, 1] - pi) >= eps
+    safe1 = torch.abs(g[..., 1]) >= eps
+    safe2 = torch.abs(g[..., 1] - pi) >= eps
     safe = safe1 & safe2
 
     not_safe1 = ~safe1
     not_safe2 = ~safe2
 
     # step 5b
-    g[safe, 2] = torch.atan2(matrix_trans[safe, 0, 2], -matrix_trans[safe, 1, 2])
-    g[safe, 0] = torch.atan2(matrix_trans[safe, 2, 0], matrix_trans[safe, 2, 1])
+    g[..., 2][safe] = torch.atan2(matrix_trans[..., 0, 2][safe], -matrix_trans[..., 1, 2][safe])
+    g[..., 0][safe] = torch.atan2(matrix_trans[..., 2, 0][safe], matrix_trans[..., 2, 1][safe])
 
-    g[~safe, 2] = 0
-    g[not_safe1, 0] = torch.atan2(
-        matrix_trans[not_safe1, 1, 0] - matrix_trans[not_safe1, 0, 1],
-        matrix_trans[not_safe1, 0, 0] + matrix_trans[not_safe1, 1, 1],
+    g[..., 2][~safe] = 0
+    g[..., 0][not_safe1] = torch.atan2(
+        matrix_trans[..., 1, 0][not_safe1] - matrix_trans[..., 0, 1][not_safe1],
+        matrix_trans[..., 0, 0][not_safe1] + matrix_trans[..., 1, 1][not_safe1],
     )
-    g[not_safe2, 0] = -torch.atan2(
-        matrix_trans[not_safe2, 1, 0] + matrix_trans[not_safe2, 0, 1],
-        matrix_trans[not_safe2, 0, 0] - matrix_trans[not_safe2, 1, 1],
+    g[..., 0][not_safe2] = -torch.atan2(
+        matrix_trans[..., 1, 0][not_safe2] + matrix_trans[..., 0, 1][not_safe2],
+        matrix_trans[..., 0, 0][not_safe2] - matrix_trans[..., 1, 1][not_safe2],
     )
 
     # step 7
-    adjust_and_safe = ((g[:, 1] < 0) | (g[:, 1] > pi)) & safe
+    adjust_and_safe = ((g[..., 1] < 0) | (g[..., 1] > pi)) & safe
 
-    g[adjust_and_safe, 0] -= pi
-    g[adjust_and_safe, 1] *= -1
-    g[adjust_and_safe, 2] += pi
+    g[..., 0][adjust_and_safe] -= pi
+    g[..., 1][adjust_and_safe] *= -1
+    g[..., 2][adjust_and_safe] += pi
 
     g[g < -pi] += 2 * pi
     g[g >= pi] -= 2 * pi
-- 
2.43.0


From 29225c7526d659c542a74fcbb1c7642d0604e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 13/38] fix: matrix_to_euler is accurate at and near gimbal
 lock

acos resolves only 3e-4 near 0 and pi in single precision, so half turns
and rotations around z (e.g. of the octahedral group) were taken as regular
and converted to unrelated rotations.
---
 gconv/geometry/groups/so3.py | 51 +++++++++---------------------------
 1 file changed, 12 insertions(+), 39 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index e6152d1..b37c717 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -295,8 +295,6 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     detected, the third euler angle (gamma) will be set to zero. Note
     that this will still result in the correct rotation.
 
-    Adapted from 'scipy.spatial.transform._rotation.pyx/_euler_from_matrix'.
-
     Arguments:
         - r: Tensor of shape `(..., 3, 3)`.
         - eps: Float for preventing numerical instabilities.
@@ -308,51 +306,26 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     """
     g = r.new_empty((*r.shape[:-2], 3))
 
-    # step 1, 2
-    c = r.new_tensor([[0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 0.0, 1.0]])
-
-    # step 3
-    res = torch.matmul(c, r)
-    matrix_trans = torch.matmul(res, c.T)
-
-    # step 4
-    matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
-
-    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
+    # atan2 instead of acos, which is inaccurate near a gimbal lock
+    sin_beta = torch.hypot(r[..., 0, 2], r[..., 1, 2])
+    g[..., 1] = torch.atan2(sin_beta, r[..., 2, 2])
 
-    # step 5, 6
-    safe1 = torch.abs(g[..., 1]) >= eps
-    safe2 = torch.abs(g[..., 1] - pi) >= eps
-    safe = safe1 & safe2
+    safe = sin_beta >= eps
 
-    not_safe1 = ~safe1
-    not_safe2 = ~safe2
+    gamma = torch.atan2(r[..., 1, 2], r[..., 0, 2])
+    g[..., 2] = torch.where(safe, gamma, torch.zeros_like(gamma))
 
-    # step 5b
-    g[..., 2][safe] = torch.atan2(matrix_trans[..., 0, 2][safe], -matrix_trans[..., 1, 2][safe])
-    g[..., 0][safe] = torch.atan2(matrix_trans[..., 2, 0][safe], matrix_trans[..., 2, 1][safe])
-
-    g[..., 2][~safe] = 0
-    g[..., 0][not_safe1] = torch.atan2(
-        matrix_trans[..., 1, 0][not_safe1] - matrix_trans[..., 0, 1][not_safe1],
-        matrix_trans[..., 0, 0][not_safe1] + matrix_trans[..., 1, 1][not_safe1],
-    )
-    g[..., 0][not_safe2] = -torch.atan2(
-        matrix_trans[..., 1, 0][not_safe2] + matrix_trans[..., 0, 1][not_safe2],
-        matrix_trans[..., 0, 0][not_safe2] - matrix_trans[..., 1, 1][not_safe2],
+    # alpha from R_z(-gamma) R = R_y(beta) R_z(alpha)
+    sin_gamma, cos_gamma = torch.sin(g[..., 2]), torch.cos(g[..., 2])
+    g[..., 0] = torch.atan2(
+        cos_gamma * r[..., 1, 0] - sin_gamma * r[..., 0, 0],
+        cos_gamma * r[..., 1, 1] - sin_gamma * r[..., 0, 1],
     )
 
-    # step 7
-    adjust_and_safe = ((g[..., 1] < 0) | (g[..., 1] > pi)) & safe
-
-    g[..., 0][adjust_and_safe] -= pi
-    g[..., 1][adjust_and_safe] *= -1
-    g[..., 2][adjust_and_safe] += pi
-
     g[g < -pi] += 2 * pi
     g[g >= pi] -= 2 * pi
 
-    if not no_warn and not torch.any(safe):
+    if not no_warn and not torch.all(safe):
         warnings.warn(
             "Gimbal lock detected. Setting third angle to zero "
             "since it is not possible to uniquely determine "
-- 
2.43.0


From 3b09d40937d48c66732002a540c74db19688ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 14/38] fix: so3_log is right for half turns

The logarithm of a half turn was zero, and inaccurate near half turns and
the identity.
---
 gconv/geometry/groups/so3.py | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index b37c717..e3fe20c 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -429,8 +429,6 @@ def so3_log(R: Tensor, eps: float = 1e-7) -> Tensor:
     """
     Calculates the riemannnian logarithm of each matrix in `R`.
 
-    Adapted from https://github.com/haguettaz/ChebLieNet/blob/main/cheblienet/geometry/so.py.
-
     Arguments:
         - r: Tensor of shape `(..., 3, 3)`.
         - eps: Float for preventing numerical instabilities.
@@ -438,34 +436,16 @@ def so3_log(R: Tensor, eps: float = 1e-7) -> Tensor:
     Returns:
         - Tensor of shape (..., 3).
     """
-    # clamping to prevent numerical instabilities
-    theta = torch.acos(
-        torch.clamp(
-            ((R[..., 0, 0] + R[..., 1, 1] + R[..., 2, 2]) - 1) / 2, -1 + eps, 1 - eps
-        )
-    )
-
-    theta_sin_inv = 0.5 * theta / torch.sin(theta)
-
-    c1 = theta_sin_inv * (R[..., 2, 1] - R[..., 1, 2])
-    c2 = theta_sin_inv * (R[..., 0, 2] - R[..., 2, 0])
-    c3 = theta_sin_inv * (R[..., 1, 0] - R[..., 0, 1])
-
-    mask = theta == 0.0
-
-    c1[mask] = 0.5 * R[mask, 2, 1] - R[mask, 1, 2]
-    c2[mask] = 0.5 * R[mask, 0, 2] - R[mask, 2, 0]
-    c3[mask] = 0.5 * R[mask, 1, 0] - R[mask, 0, 1]
-
-    mask = theta == pi
+    q = matrix_to_quat(R)
+    q = torch.where(q[..., :1] < 0, -q, q)
 
-    c1[mask] = pi
-    c2[mask] = 0.0
-    c3[mask] = 0.0
+    # q = (cos(theta / 2), sin(theta / 2) * axis)
+    sin_theta = torch.linalg.norm(q[..., 1:], dim=-1, keepdim=True)
+    theta = 2 * torch.atan2(sin_theta, q[..., :1])
 
-    c = torch.stack((c1, c2, c3), dim=-1)
+    scale = torch.where(sin_theta > eps, theta / sin_theta.clamp_min(eps), 2.0)
 
-    return c
+    return scale * q[..., 1:]
 
 
 def random_quat(shape: tuple[int] | int, device: Optional[str] = None) -> Tensor:
-- 
2.43.0


From ea39ae9af8f6b0e4bfb597a4fc187324f3164c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 15/38] fix: coordinate grids of size 1 are centred

The single position was put in a corner, so the mask zeroed 1x1 kernels.
---
 gconv/gnn/functional/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gconv/gnn/functional/grid.py b/gconv/gnn/functional/grid.py
index 9fcdee6..15992cc 100644
--- a/gconv/gnn/functional/grid.py
+++ b/gconv/gnn/functional/grid.py
@@ -18,6 +18,8 @@ def create_grid_R3(size: int, device: str | None = None) -> Tensor:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
     x = torch.linspace(-1, 1, size, device=device)
+    if size == 1:
+        x = torch.zeros_like(x)
     X, Y, Z = torch.meshgrid(x, x, x, indexing="ij")
 
     return torch.stack((Z, Y, X), dim=-1)
@@ -36,6 +38,8 @@ def create_grid_R2(size: int, device: str | None = None) -> Tensor:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
     x = torch.linspace(-1, 1, size, device=device)
+    if size == 1:
+        x = torch.zeros_like(x)
     X, Y = torch.meshgrid((x, x), indexing="xy")
 
     return torch.stack((Y, X), dim=-1)
-- 
2.43.0


From e7ad5f03ad6d791a7cf25e98882839ee94ea61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 16/38] fix: create_grid_R2 yields (x, y) coordinates

The axes were swapped with respect to grid_sample (and to the R3 grid), so
sampled kernels were transposed.
---
 gconv/gnn/functional/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/gnn/functional/grid.py b/gconv/gnn/functional/grid.py
index 15992cc..56c6fa7 100644
--- a/gconv/gnn/functional/grid.py
+++ b/gconv/gnn/functional/grid.py
@@ -42,4 +42,4 @@ def create_grid_R2(size: int, device: str | None = None) -> Tensor:
         x = torch.zeros_like(x)
     X, Y = torch.meshgrid((x, x), indexing="xy")
 
-    return torch.stack((Y, X), dim=-1)
+    return torch.stack((X, Y), dim=-1)
-- 
2.43.0


From 3dcebec9508d5688bb0e0154ac4c5f784572e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 17/38] fix: grids and groups are created on the requested
 device

Empty SO3 grids also get the shape of the requested parameterization.
---
 gconv/geometry/groups/o2.py  |  2 +-
 gconv/geometry/groups/o3.py  |  2 +-
 gconv/geometry/groups/so3.py | 23 ++++++++++++-----------
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/gconv/geometry/groups/o2.py b/gconv/geometry/groups/o2.py
index e10a908..b1fa299 100644
--- a/gconv/geometry/groups/o2.py
+++ b/gconv/geometry/groups/o2.py
@@ -54,7 +54,7 @@ def random_grid(size: int, device: str | None = None) -> Tensor:
     """
     angles = so2.random_grid(size, device=device)
 
-    coeffs = (2 * (torch.rand(size, 1) > 0.5)) - 1
+    coeffs = (2 * (torch.rand(size, 1, device=device) > 0.5)) - 1
 
     return torch.cat((coeffs, angles), dim=-1)
 
diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index 9f226e7..aaf2870 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -55,7 +55,7 @@ def random_grid(size: int | tuple, device: Optional[str] = None) -> Tensor:
         Tensor of shape size of random O3 elements.
     """
     R = so3.random_matrix(size, device=device).flatten(-2, -1)
-    coeffs = ((torch.rand(size, 1) > 0.5) * 2) - 1
+    coeffs = ((torch.rand(size, 1, device=device) > 0.5) * 2) - 1
 
     return torch.cat((coeffs, R), dim=-1)
 
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index e3fe20c..0cd8e59 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -524,10 +524,8 @@ def uniform_grid(
     Returns:
         - Tensor containing uniform grid on SO3.
     """
-    if size == 0:
-        return torch.Tensor([], device=device)
     try:
-        return _grid_cache.load_grid(size, "so3", parameterization)
+        return _grid_cache.load_grid(size, "so3", parameterization).to(device)
     except KeyError:
         pass
 
@@ -541,6 +539,9 @@ def uniform_grid(
     else:
         raise ValueError(f"Parameterization must be in {_PARAMETERIZATION}.")
 
+    if size == 0:
+        return param_fn(torch.empty(0, 3, device=device))
+
     step_size = step_size if step_size is not None else size ** (1 / 3)
 
     grid = random_euler(size, device=device)
@@ -686,7 +687,7 @@ def identity(device: Optional[str] = None) -> Tensor:
     Returns:
        - Tensor containing group elements.
     """
-    return torch.Tensor([[1.0, 0.0, 0.0, 0.0]], device=device)
+    return torch.tensor([[1.0, 0.0, 0.0, 0.0]], device=device)
 
 
 def klein_group(device: Optional[str] = None) -> Tensor:
@@ -699,7 +700,7 @@ def klein_group(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [1.0, 0.0, 0.0, 0.0],
             [0.0, 0.0, 0.0, 1.0],
@@ -720,7 +721,7 @@ def tetrahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -749,7 +750,7 @@ def octahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -790,7 +791,7 @@ def icosahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -868,7 +869,7 @@ def cyclic_x(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_x(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_x(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic_y(n: int, device: Optional[str] = None) -> Tensor:
@@ -882,7 +883,7 @@ def cyclic_y(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_y(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_y(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic_z(n: int, device: Optional[str] = None) -> Tensor:
@@ -896,7 +897,7 @@ def cyclic_z(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_z(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_z(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic(n: int, axis: str, device: Optional[str] = None) -> Tensor:
-- 
2.43.0


From 6e00481258072304a9db739b046235524523381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 18/38] fix: SE3 and E3 layers permute double precision grids

---
 gconv/gnn/modules/gconv_en/gconv_e3.py   | 6 +++---
 gconv/gnn/modules/gconv_sen/gconv_se3.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gconv/gnn/modules/gconv_en/gconv_e3.py b/gconv/gnn/modules/gconv_en/gconv_e3.py
index 5f708fa..95af34c 100644
--- a/gconv/gnn/modules/gconv_en/gconv_e3.py
+++ b/gconv/gnn/modules/gconv_en/gconv_e3.py
@@ -89,7 +89,7 @@ class GLiftingConvE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = o3.left_apply_O3(o3.random_grid(1, device=input.device), H)
+            H = o3.left_apply_O3(o3.random_grid(1, device=input.device).to(H), H)
 
         return super().forward(input, H)
 
@@ -187,7 +187,7 @@ class GSeparableConvE3(GSeparableConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device).to(H_out), H_out)
 
         return super().forward(input, H_in, H_out)
 
@@ -285,6 +285,6 @@ class GConvE3(GConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device).to(H_out), H_out)
 
         return super().forward(input, H_in, H_out)
diff --git a/gconv/gnn/modules/gconv_sen/gconv_se3.py b/gconv/gnn/modules/gconv_sen/gconv_se3.py
index b104c7c..9878e76 100644
--- a/gconv/gnn/modules/gconv_sen/gconv_se3.py
+++ b/gconv/gnn/modules/gconv_sen/gconv_se3.py
@@ -84,7 +84,7 @@ class GLiftingConvSE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = so3.left_apply_matrix(so3.random_matrix(1, device=input.device), H)
+            H = so3.left_apply_matrix(so3.random_matrix(1, device=input.device).to(H), H)
 
         return super().forward(input, H)
 
@@ -178,7 +178,7 @@ class GSeparableConvSE3(GSeparableConv3d):
 
         if self.permute_output_grid:
             out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
+                so3.random_matrix(1, device=input.device).to(out_H), out_H
             )
 
         return super().forward(input, in_H, out_H)
@@ -273,7 +273,7 @@ class GConvSE3(GConv3d):
 
         if self.permute_output_grid:
             out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
+                so3.random_matrix(1, device=input.device).to(out_H), out_H
             )
 
         return super().forward(input, in_H, out_H)
-- 
2.43.0


From 1510112bbf5328432ed4ccb84ae45dedc3a98707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 19/38] fix: O3 operations and norms accept non-contiguous
 tensors

---
 gconv/geometry/groups/o3.py        | 10 +++++-----
 gconv/gnn/modules/normalization.py | 12 ++++--------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index aaf2870..19f5bfa 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -96,8 +96,8 @@ def left_apply_to_O3(H1: Tensor, H2: Tensor) -> Tensor:
     Returns:
         Tensor of shape (N, M, 10).
     """
-    R1 = H1[:, 1:].view(-1, 3, 3)
-    R2 = H2[:, 1:].view(-1, 3, 3)
+    R1 = H1[:, 1:].unflatten(-1, (3, 3))
+    R2 = H2[:, 1:].unflatten(-1, (3, 3))
 
     coeff1 = H1[:, 0].unsqueeze(-1)
     coeff2 = H2[:, 0].unsqueeze(-1)
@@ -181,13 +181,13 @@ def grid_sample(
     """
     n_rotations, n_reflections = signal_grid_size
 
-    coeffs, R = grid[:, 0], grid[:, 1:].view(-1, 3, 3)
+    coeffs, R = grid[:, 0], grid[:, 1:].unflatten(-1, (3, 3))
 
     so3_signal = signal[:n_rotations]
-    so3_signal_grid = signal_grid[:n_rotations, 1:].view(-1, 3, 3)
+    so3_signal_grid = signal_grid[:n_rotations, 1:].unflatten(-1, (3, 3))
 
     r_signal = signal[n_rotations:]
-    r_signal_grid = signal_grid[n_rotations:, 1:].view(-1, 3, 3)
+    r_signal_grid = signal_grid[n_rotations:, 1:].unflatten(-1, (3, 3))
 
     # find rotations and reflections
     so3_idx = torch.where(coeffs == 1)[0]
diff --git a/gconv/gnn/modules/normalization.py b/gconv/gnn/modules/normalization.py
index fb514ea..78bc292 100644
--- a/gconv/gnn/modules/normalization.py
+++ b/gconv/gnn/modules/normalization.py
@@ -5,14 +5,12 @@ from torch import Tensor
 
 class GBatchNorm2d(nn.BatchNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.flatten(2, 3)).unflatten(2, x.shape[2:4]), H
 
 
 class GBatchNorm3d(nn.BatchNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.flatten(2, 3)).unflatten(2, x.shape[2:4]), H
 
 
 class GLayerNorm(nn.LayerNorm):
@@ -22,11 +20,9 @@ class GLayerNorm(nn.LayerNorm):
 
 class GInstanceNorm2d(nn.InstanceNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.flatten(2, 3)).unflatten(2, x.shape[2:4]), H
 
 
 class GInstanceNorm3d(nn.InstanceNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.flatten(2, 3)).unflatten(2, x.shape[2:4]), H
-- 
2.43.0


From dee72f9c42a9d7b54e833e1e8e59f072d1ef7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 20/38] fix: o3.random_grid accepts tuples

---
 gconv/geometry/groups/o3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index 19f5bfa..68d3570 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -55,7 +55,7 @@ def random_grid(size: int | tuple, device: Optional[str] = None) -> Tensor:
         Tensor of shape size of random O3 elements.
     """
     R = so3.random_matrix(size, device=device).flatten(-2, -1)
-    coeffs = ((torch.rand(size, 1, device=device) > 0.5) * 2) - 1
+    coeffs = ((torch.rand(*R.shape[:-1], 1, device=device) > 0.5) * 2) - 1
 
     return torch.cat((coeffs, R), dim=-1)
 
-- 
2.43.0


From 3cd112cd082e08b054b8342359b29298525fee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 21/38] fix: gconv module needs no matplotlib and exports its
 classes

---
 gconv/gnn/modules/gconv.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index ed2830d..62636df 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -5,8 +5,6 @@ Implements group convolution base modules.
 """
 from __future__ import annotations
 
-from matplotlib import pyplot as plt
-
 from gconv.gnn.kernels import (
     GroupKernel,
     GLiftingKernel,
@@ -27,10 +25,10 @@ from torch import Tensor
 from torch.nn.modules.utils import _reverse_repeat_tuple, _pair, _triple
 
 __all__ = [
-    "GConvLifting2d",
-    "GConvLifting3d",
-    "GConvSeparable2d",
-    "GConvSeparable3d",
+    "GLiftingConv2d",
+    "GLiftingConv3d",
+    "GSeparableConv2d",
+    "GSeparableConv3d",
     "GConv2d",
     "GConv3d",
 ]
-- 
2.43.0


From 06acc3307ce2a9866a00f150a0bf9fdc2a2ea49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 22/38] fix: spherical_to_euler_neg_gamma and poles of
 euclid_to_spherical

The angle was neither negated nor a column, and rounding beyond the poles
gave NaN.
---
 gconv/geometry/groups/s2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index e1ee67b..cfc3740 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -43,7 +43,7 @@ def euclid_to_spherical(x: Tensor) -> Tensor:
     """
     g = x.new_empty((*x.shape[:-1], 2))
 
-    g[..., 0] = torch.acos(x[..., 2])
+    g[..., 0] = torch.acos(torch.clamp(x[..., 2], -1, 1))
     g[..., 1] = torch.atan2(x[..., 1], x[..., 0])
 
     return g
@@ -75,7 +75,7 @@ def spherical_to_euler(g: Tensor) -> Tensor:
 
 
 def spherical_to_euler_neg_gamma(g: Tensor) -> Tensor:
-    minus_gamma = g[:, 1]
+    minus_gamma = -g[:, 1:2]
     return torch.hstack((minus_gamma, g))
 
 
-- 
2.43.0


From d1da5c38e4c3b9e3afb96c577135c7f4510bfa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 23/38] fix: reference grids of E2 and E3 kernels overwrite
 group_kernel_size

As documented, and as the SE2 and SE3 kernels do.
---
 gconv/gnn/kernels/kernel_en/kernel_e2.py | 9 +++++++++
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index f3ba390..9076980 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -48,6 +48,9 @@ class GLiftingKernelE2(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -120,6 +123,9 @@ class GSeparableKernelE2(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -218,6 +224,9 @@ class GKernelE2(GKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index bba4ac0..b79f8b0 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -48,6 +48,9 @@ class GLiftingKernelE3(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -120,6 +123,9 @@ class GSeparableKernelE3(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -218,6 +224,9 @@ class GKernelE3(GKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-- 
2.43.0


From 0fb86e9506eee7accd541137ca8ed59e6d9080bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 24/38] fix: group kernels with at most one rotation or
 reflection

The validation allows such sizes, but the density of the reference grid
raised IndexError, and elements without reference were dropped.
---
 gconv/geometry/groups/o2.py  | 4 ++++
 gconv/geometry/groups/o3.py  | 4 ++++
 gconv/geometry/groups/so2.py | 3 +++
 gconv/geometry/groups/so3.py | 3 +++
 4 files changed, 14 insertions(+)

diff --git a/gconv/geometry/groups/o2.py b/gconv/geometry/groups/o2.py
index b1fa299..3c61018 100644
--- a/gconv/geometry/groups/o2.py
+++ b/gconv/geometry/groups/o2.py
@@ -189,11 +189,15 @@ def grid_sample(
         so2_signal = so2.grid_sample(
             R[so2_idx], so2_signal, so2_signal_grid, mode=mode, width=rotation_width
         )
+    else:
+        so2_signal = signal.new_zeros(so2_idx.shape[0], signal.shape[1])
 
     if n_reflections:
         r_signal = so2.grid_sample(
             R[r_idx], r_signal, r_signal_grid, mode=mode, width=reflection_width
         )
+    else:
+        r_signal = signal.new_zeros(r_idx.shape[0], signal.shape[1])
 
     sampled_signal = torch.cat((so2_signal, r_signal), dim=0)
 
diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index 68d3570..4d5a0a4 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -198,11 +198,15 @@ def grid_sample(
         so3_signal = so3.grid_sample(
             R[so3_idx], so3_signal, so3_signal_grid, mode=mode, width=rotation_width
         )
+    else:
+        so3_signal = signal.new_zeros(so3_idx.shape[0], signal.shape[1])
 
     if n_reflections:
         r_signal = so3.grid_sample(
             R[r_idx], r_signal, r_signal_grid, mode=mode, width=reflection_width
         )
+    else:
+        r_signal = signal.new_zeros(r_idx.shape[0], signal.shape[1])
 
     sampled_signal = torch.cat((so3_signal, r_signal), dim=0)
 
diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index 00a916d..cee6c7a 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -237,4 +237,7 @@ def nearest_neighbour_distance(grid: Tensor) -> Tensor:
     Arguments:
         grid: tensor of shape (N, 1) of rotation angles.
     """
+    if grid.shape[0] < 2:
+        return grid.new_full((grid.shape[0],), torch.inf)
+
     return geodesic_distance(grid[:, None], grid).sort()[0][:, 1]
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 0cd8e59..6d0f71e 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -623,6 +623,9 @@ def nearest_neighbour_distance(q: Tensor) -> Tensor:
     if q.ndim == 3:
         q = matrix_to_quat(q)
 
+    if q.shape[0] < 2:
+        return q.new_full((q.shape[0],), torch.inf)
+
     return geodesic_distance(q[:, None], q).sort()[0][:, 1]
 
 
-- 
2.43.0


From c5a0bdba7058a12134ee0c18b095d89d9346d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 25/38] fix: non-positive int group_kernel_size is rejected

---
 gconv/gnn/modules/gconv.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 62636df..f5a5119 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -22,7 +22,7 @@ import math
 
 from torch import Tensor
 
-from torch.nn.modules.utils import _reverse_repeat_tuple, _pair, _triple
+from torch.nn.modules.utils import _reverse_repeat_tuple, _single, _pair, _triple
 
 __all__ = [
     "GLiftingConv2d",
@@ -53,9 +53,8 @@ class GroupConvNd(nn.Module):
         bias: bool = False,
     ) -> None:
         super().__init__()
-        if isinstance(group_kernel_size, tuple) and (
-            any(i < 0 for i in group_kernel_size) or sum(group_kernel_size) <= 0
-        ):
+        sizes = _single(group_kernel_size)
+        if any(i < 0 for i in sizes) or sum(sizes) <= 0:
             raise ValueError("group_kernel_size must contain positive integers")
         if groups <= 0:
             raise ValueError("groups must be a positive integer")
-- 
2.43.0


From b3a153b43c2a5a2c1beb531c965a68cc937aef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 26/38] fix: so2.angle_to_matrix accepts a single angle

---
 gconv/geometry/groups/so2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index cee6c7a..a8b463b 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -18,8 +18,8 @@ def angle_to_matrix(R: Tensor) -> Tensor:
     """
     matrices = R.new_empty((*R.shape[:-1], 2, 2))
 
-    cos_H = torch.cos(R).flatten(-2)
-    sin_H = torch.sin(R).flatten(-2)
+    cos_H = torch.cos(R).squeeze(-1)
+    sin_H = torch.sin(R).squeeze(-1)
 
     matrices[..., 0, 0] = cos_H
     matrices[..., 0, 1] = -sin_H
-- 
2.43.0


From 6e172a37414385bccd255661f58416cdc26c8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 27/38] fix: built-in SO3 matrix grid of size 1 has shape (1,
 3, 3)

Layers with a single reference rotation saw three elements or failed.
---
 gconv/geometry/groups/_grid_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index feed6b0..72a6636 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -424,7 +424,7 @@ _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
             ),
         },
         "matrix": {
-            1: Tensor([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
+            1: Tensor([[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]]),
             2: Tensor(
                 [
                     [
-- 
2.43.0


From 6899f4f05223f6897851e5d08898f04790146103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 28/38] fix: kernels own their grids instead of sharing the
 memory of a provided grid

---
 gconv/gnn/kernels/kernel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index e248a81..ea30952 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -99,10 +99,12 @@ class GroupKernel(nn.Module):
 
         self.groups = groups
 
-        self.register_buffer("grid_H", grid_H)
-        self.register_buffer("grid_Rn", grid_Rn)
+        # buffers are updated in place when loading a state dict, so they must
+        # not share memory with the tensors that were provided
+        self.register_buffer("grid_H", None if grid_H is None else grid_H.clone())
+        self.register_buffer("grid_Rn", None if grid_Rn is None else grid_Rn.clone())
 
-        self.register_buffer("mask", mask)
+        self.register_buffer("mask", None if mask is None else mask.clone())
 
         self.det_H = det_H
         self.inverse_H = inverse_H
-- 
2.43.0


From 460c547121f5149c49e092ac7007203f73a27c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 29/38] fix: saving a grid without overwriting is atomic

---
 gconv/geometry/groups/_grid_cache.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 72a6636..46b60eb 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -12,15 +12,13 @@ def save_grid(
         - type: Grid type, e.g., SO3.
         - parameterization: Parameterization, e.g., "quat".
     """
-    if not overwrite:
-        try:
-            load_grid(grid.shape[0], grid_type, parameterization)
-        except KeyError:
-            pass
-        else:
-            return
     grids = _grid_cache.setdefault(grid_type.lower(), {})
-    grids.setdefault(parameterization.lower(), {})[grid.shape[0]] = grid.clone()
+    grids = grids.setdefault(parameterization.lower(), {})
+    if overwrite:
+        grids[grid.shape[0]] = grid.clone()
+    else:
+        # checks and stores in one step, also when several threads save
+        grids.setdefault(grid.shape[0], grid.clone())
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
-- 
2.43.0


From e667411c48114f894d53deee4c6588a3552819d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 30/38] fix: spherical masks of size 2 keep the kernel

---
 gconv/gnn/functional/mask.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/functional/mask.py b/gconv/gnn/functional/mask.py
index ca3515f..9d5786d 100644
--- a/gconv/gnn/functional/mask.py
+++ b/gconv/gnn/functional/mask.py
@@ -17,7 +17,10 @@ def create_spherical_mask_R3(size: int, device: str = None) -> Tensor:
     """
     grid = create_grid_R3(size).to(device)
 
-    return (torch.linalg.norm(grid, dim=-1) < 1.1).float()
+    norm = torch.linalg.norm(grid, dim=-1)
+
+    # the innermost elements are never masked
+    return (norm <= norm.amin().clamp(min=1.1)).float()
 
 
 def create_spherical_mask_R2(size: int, device: str = None) -> Tensor:
@@ -33,4 +36,7 @@ def create_spherical_mask_R2(size: int, device: str = None) -> Tensor:
     """
     grid = create_grid_R2(size).to(device)
 
-    return (torch.linalg.norm(grid, dim=-1) < 1.1).float()
+    norm = torch.linalg.norm(grid, dim=-1)
+
+    # the innermost elements are never masked
+    return (norm <= norm.amin().clamp(min=1.1)).float()
-- 
2.43.0


From 75f21e320ebdad5aee10f1af597bd7f9c6e6f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 31/38] fix: matrix_to_euler is differentiable again

---
 gconv/geometry/groups/so3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 6d0f71e..476c497 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -304,24 +304,24 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     Returns:
         - Tensor of shape `(..., 3)`.
     """
-    g = r.new_empty((*r.shape[:-2], 3))
-
     # atan2 instead of acos, which is inaccurate near a gimbal lock
     sin_beta = torch.hypot(r[..., 0, 2], r[..., 1, 2])
-    g[..., 1] = torch.atan2(sin_beta, r[..., 2, 2])
+    beta = torch.atan2(sin_beta, r[..., 2, 2])
 
     safe = sin_beta >= eps
 
     gamma = torch.atan2(r[..., 1, 2], r[..., 0, 2])
-    g[..., 2] = torch.where(safe, gamma, torch.zeros_like(gamma))
+    gamma = torch.where(safe, gamma, torch.zeros_like(gamma))
 
     # alpha from R_z(-gamma) R = R_y(beta) R_z(alpha)
-    sin_gamma, cos_gamma = torch.sin(g[..., 2]), torch.cos(g[..., 2])
-    g[..., 0] = torch.atan2(
+    sin_gamma, cos_gamma = torch.sin(gamma), torch.cos(gamma)
+    alpha = torch.atan2(
         cos_gamma * r[..., 1, 0] - sin_gamma * r[..., 0, 0],
         cos_gamma * r[..., 1, 1] - sin_gamma * r[..., 0, 1],
     )
 
+    g = torch.stack((alpha, beta, gamma), dim=-1)
+
     g[g < -pi] += 2 * pi
     g[g >= pi] -= 2 * pi
 
-- 
2.43.0


From 2100e8baaf235409dd19209927045adf8f34c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 32/38] fix: repulse's default metric is a distance

With x - y as the metric every call that relied on the default returned
NaN.
---
 gconv/geometry/repulsion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/repulsion.py b/gconv/geometry/repulsion.py
index 50989c2..a2e6ba3 100644
--- a/gconv/geometry/repulsion.py
+++ b/gconv/geometry/repulsion.py
@@ -31,7 +31,7 @@ def repulse(
     grid: Tensor,
     steps: int = 200,
     step_size: float = 10,
-    metric_fn: Callable = lambda x, y: x - y,
+    metric_fn: Callable = lambda x, y: torch.linalg.norm(x - y, dim=-1),
     transform_fn: Callable = lambda x: x,
     energy_fn: Callable = columb_energy,
     dist_normalization_constant: float = 1,
-- 
2.43.0


From 3373254185e2cca241382fb078fb08212e6b5b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 33/38] fix: repulse works where gradients are disabled

Creating a uniform grid of a size that is not cached failed under
torch.no_grad().
---
 gconv/geometry/repulsion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gconv/geometry/repulsion.py b/gconv/geometry/repulsion.py
index a2e6ba3..6c75bc5 100644
--- a/gconv/geometry/repulsion.py
+++ b/gconv/geometry/repulsion.py
@@ -27,6 +27,7 @@ def columb_energy(d: Tensor, k: int = 2) -> Tensor:
     return d ** (-k)
 
 
+@torch.enable_grad()
 def repulse(
     grid: Tensor,
     steps: int = 200,
-- 
2.43.0


From c7b9f7789d2bd25ca60c970de01587630d0e294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 34/38] fix: repulse accepts grids that require a gradient

The copy it works on was not a leaf, which the optimizer rejects.
---
 gconv/geometry/repulsion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/repulsion.py b/gconv/geometry/repulsion.py
index 6c75bc5..bb1ad70 100644
--- a/gconv/geometry/repulsion.py
+++ b/gconv/geometry/repulsion.py
@@ -65,7 +65,7 @@ def repulse(
 
     pbar = trange(steps, disable=not show_pbar, desc="Optimizing")
 
-    grid = grid if in_place else grid.clone()
+    grid = grid if in_place else grid.detach().clone()
     grid.requires_grad = True
 
     optimizer = torch.optim.SGD([grid], lr=step_size)
-- 
2.43.0


From 018cd956c6c78c2c91efd2f30e731c876d08e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 35/38] fix: custom group operations may return non-contiguous
 tensors

The kernels viewed the results of the supplied operations, which fails for
memory layouts that, e.g., torch.einsum commonly returns.
---
 gconv/gnn/kernels/kernel.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index ea30952..c7393d2 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -184,7 +184,7 @@ class GLiftingKernel(GroupKernel):
             self.weight.repeat_interleave(H.shape[0], dim=0),
             H_product.repeat(self.out_channels, *product_dims),
             **self.sample_Rn_kwargs,
-        ).view(
+        ).reshape(
             self.out_channels, num_H, self.in_channels // self.groups, *self.kernel_size
         )
 
@@ -270,12 +270,12 @@ class GSeparableKernel(GroupKernel):
         # sample SO3
         weight_H = (
             self.sample_H(
-                H_product_H.view(-1, *H_dims),
+                H_product_H.reshape(-1, *H_dims),
                 self.weight_H.reshape(self._group_kernel_dim, -1),
                 self.grid_H,
                 **self.sample_H_kwargs,
             )
-            .view(
+            .reshape(
                 num_out_H,
                 num_in_H,
                 self.in_channels // self.groups,
@@ -291,7 +291,7 @@ class GSeparableKernel(GroupKernel):
             self.weight.repeat_interleave(num_out_H, dim=0),
             H_product_Rn.repeat(self.out_channels, *product_dims),
             **self.sample_Rn_kwargs,
-        ).view(
+        ).reshape(
             self.out_channels,
             num_out_H,
             1,
@@ -360,12 +360,12 @@ class GSubgroupKernel(GroupKernel):
         # sample SO3
         weight = (
             self.sample_H(
-                H_product_H.view(-1, *H_dims),
+                H_product_H.reshape(-1, *H_dims),
                 self.weight.reshape(self._group_kernel_dim, -1),
                 self.grid_H,
                 **self.sample_H_kwargs,
             )
-            .view(
+            .reshape(
                 num_out_H,
                 num_in_H,
                 self.in_channels // self.groups,
@@ -449,11 +449,11 @@ class GKernel(GroupKernel):
 
         # sample SO3
         weight = self.sample_H(
-            H_product_H.view(-1, *H_dims),
+            H_product_H.reshape(-1, *H_dims),
             self.weight.reshape(self._group_kernel_dim, -1),
             self.grid_H,
             **self.sample_H_kwargs,
-        ).view(
+        ).reshape(
             num_out_H * num_in_H,
             (self.in_channels // self.groups) * self.out_channels,
             *self.kernel_size,
@@ -466,7 +466,7 @@ class GKernel(GroupKernel):
                 H_product_Rn.repeat_interleave(num_in_H, dim=0),
                 **self.sample_Rn_kwargs,
             )
-            .view(
+            .reshape(
                 num_out_H,
                 num_in_H,
                 self.in_channels // self.groups,
-- 
2.43.0


From aec4459b600db04dac988206982d80b86a72d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 36/38] fix: kernels do not share their sampling options

The mutable default was one dictionary for all kernels.
---
 gconv/gnn/kernels/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index c7393d2..b92e897 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -112,8 +112,8 @@ class GroupKernel(nn.Module):
         self.left_apply_to_Rn = left_apply_to_Rn
         self.sample_H = sample_H
         self.sample_Rn = sample_Rn
-        self.sample_H_kwargs = sample_H_kwargs
-        self.sample_Rn_kwargs = sample_Rn_kwargs
+        self.sample_H_kwargs = dict(sample_H_kwargs)
+        self.sample_Rn_kwargs = dict(sample_Rn_kwargs)
 
     def extra_repr(self):
         s = f"mask={self.mask is not None}"
-- 
2.43.0


From f91f3f138919d56e7506b454a6af632b96389be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 37/38] fix: random rotations accept every kind of tuple, such
 as a torch.Size, as their shape

---
 gconv/geometry/groups/so3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 476c497..0919e95 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -459,7 +459,7 @@ def random_quat(shape: tuple[int] | int, device: Optional[str] = None) -> Tensor
     Returns:
         - Tensor of shape `(*shape, 4)`.
     """
-    shape = shape if type(shape) is tuple else (shape,)
+    shape = shape if isinstance(shape, tuple) else (shape,)
 
     q = torch.randn(*shape, 4, device=device)
     q = q / torch.linalg.norm(q, dim=-1, keepdim=True)
-- 
2.43.0


From 4e7558b00f313f9fc6e9d7f1ed0b0ed915798e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:49 +0000
Subject: [PATCH 38/38] fix: barycentric interpolation of points beyond the
 grid gave NaN

All three barycentric coordinates of a point on the far side of its nearest
nodes are negative; clipping them left nothing to normalise.
---
 gconv/geometry/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/interpolation.py b/gconv/geometry/interpolation.py
index 7d4bc43..301c8fb 100644
--- a/gconv/geometry/interpolation.py
+++ b/gconv/geometry/interpolation.py
@@ -126,7 +126,8 @@ def interpolate_BCC(
         -1, 3
     )
 
-    mask = dists_k[:, :, 0].view(-1) <= eps
+    # nodes on the grid, and nodes beyond all of it, take the closest value
+    mask = (dists_k[:, :, 0].view(-1) <= eps) | (bcc <= 0).all(-1)
     bcc[mask, 0], bcc[mask, 1], bcc[mask, 2] = 1.0, 0.0, 0.0
     bcc[bcc < 0] = 0
 
-- 
2.43.0

