From 93547d82f34b409134806da39b7bdd18c93aa09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 01/56] fix: indexing Translate, Scale and Rotate keeps the
 dtype; RotateAxisAngle can be indexed

---
 pytorch3d/transforms/transform3d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/transforms/transform3d.py b/pytorch3d/transforms/transform3d.py
index 539cbea..d70d4ea 100644
--- a/pytorch3d/transforms/transform3d.py
+++ b/pytorch3d/transforms/transform3d.py
@@ -578,7 +578,7 @@ class Translate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, 3, :3])
+        return self.__class__(self.get_matrix()[index, 3, :3], dtype=self.dtype)
 
 
 class Scale(Transform3d):
@@ -645,7 +645,7 @@ class Scale(Transform3d):
         x = mat[:, 0, 0]
         y = mat[:, 1, 1]
         z = mat[:, 2, 2]
-        return self.__class__(x, y, z)
+        return self.__class__(x, y, z, dtype=self.dtype)
 
 
 class Rotate(Transform3d):
@@ -703,7 +703,8 @@ class Rotate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, :3, :3])
+        # RotateAxisAngle is built from an angle, so its selection is a plain Rotate.
+        return Rotate(self.get_matrix()[index, :3, :3], dtype=self.dtype)
 
 
 class RotateAxisAngle(Rotate):
-- 
2.43.0


From 1ccaa7911b88d3a524a0145642191e64da3c1570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 02/56] fix: fast matrix_to_axis_angle for half turns:
 normalise the axis per rotation and use a non-zero row

---
 pytorch3d/transforms/rotation_conversions.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/transforms/rotation_conversions.py b/pytorch3d/transforms/rotation_conversions.py
index eb1a42c..87791b1 100644
--- a/pytorch3d/transforms/rotation_conversions.py
+++ b/pytorch3d/transforms/rotation_conversions.py
@@ -547,11 +547,16 @@ def matrix_to_axis_angle(matrix: torch.Tensor, fast: bool = False) -> torch.Tens
     )
 
     # this derives from: nnT = (R + 1) / 2
-    n = 0.5 * (
-        matrix[near_pi][..., 0, :]
-        + torch.eye(1, 3, dtype=matrix.dtype, device=matrix.device)
+    # Each row of nnT is a multiple of n, the one with the largest diagonal
+    # entry is never zero.
+    nnT = 0.5 * (
+        matrix[near_pi] + torch.eye(3, dtype=matrix.dtype, device=matrix.device)
+    )
+    row = torch.diagonal(nnT, dim1=-2, dim2=-1).argmax(dim=-1)
+    n = nnT[torch.arange(row.shape[0], device=row.device), row]
+    axis_angles[near_pi] = (
+        angles[near_pi] * n / torch.norm(n, p=2, dim=-1, keepdim=True)
     )
-    axis_angles[near_pi] = angles[near_pi] * n / torch.norm(n)
 
     return axis_angles
 
-- 
2.43.0


From 638e4d3503d85665bf76c5dcb219813a8d8c7b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 03/56] fix: se3_log_map uses its eps for the clamped rotation
 angle

---
 pytorch3d/transforms/se3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/transforms/se3.py b/pytorch3d/transforms/se3.py
index dab69d0..b672eb6 100644
--- a/pytorch3d/transforms/se3.py
+++ b/pytorch3d/transforms/se3.py
@@ -174,7 +174,7 @@ def se3_log_map(
 
     # log_translation is V^-1 @ T
     T = transform[:, 3, :3]
-    V = _se3_V_matrix(*_get_se3_V_input(log_rotation), eps=eps)
+    V = _se3_V_matrix(*_get_se3_V_input(log_rotation, eps=eps), eps=eps)
     log_translation = torch.linalg.solve(V, T[:, :, None])[:, :, 0]
 
     return torch.cat((log_translation, log_rotation), dim=1)
-- 
2.43.0


From 97c9bb4150ec6f51fddb52eb0a230861b7836461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 04/56] fix: FoVPerspectiveCameras.unproject_points honours
 keyword overrides of the camera parameters

---
 pytorch3d/renderer/cameras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 821353f..3393522 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -724,9 +724,9 @@ class FoVPerspectiveCameras(CamerasBase):
 
         # obtain the relevant transformation to ndc
         if world_coordinates:
-            to_ndc_transform = self.get_full_projection_transform()
+            to_ndc_transform = self.get_full_projection_transform(**kwargs.copy())
         else:
-            to_ndc_transform = self.get_projection_transform()
+            to_ndc_transform = self.get_projection_transform(**kwargs.copy())
 
         if scaled_depth_input:
             # the input is scaled depth, so we don't have to do anything
-- 
2.43.0


From 1942f93af0139b05e5c306e73ee87f43df209780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 05/56] fix: FoVOrthographicCameras.unproject_points accepts
 points of shape (P, 3)

---
 pytorch3d/renderer/cameras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 3393522..78be05f 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -976,7 +976,7 @@ class FoVOrthographicCameras(CamerasBase):
         else:
             # we have to obtain the scaled depth first
             K = self.get_projection_transform(**kwargs).get_matrix()
-            unsqueeze_shape = [1] * K.dim()
+            unsqueeze_shape = [1] * xy_depth.dim()
             unsqueeze_shape[0] = K.shape[0]
             mid_z = K[:, 3, 2].reshape(unsqueeze_shape)
             scale_z = K[:, 2, 2].reshape(unsqueeze_shape)
-- 
2.43.0


From 5b069e4a5aa6d14f1f691d59c855a063e5ba2d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 06/56] fix: unproject_points with from_ndc honours keyword
 overrides of the intrinsics

---
 pytorch3d/renderer/cameras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 78be05f..737a095 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -1174,7 +1174,7 @@ class PerspectiveCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
@@ -1414,7 +1414,7 @@ class OrthographicCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
-- 
2.43.0


From 5a14127bd14f0da6189c9591d2e2cc94f8714b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 07/56] fix: per-mesh material colors in per-pixel shading

The (N, C) diffuse and specular material colors were multiplied with the
(N, H, W, K, C) light colors without aligning the batch dimension, so a batch
of materials was applied along K.
---
 pytorch3d/renderer/mesh/shading.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index bb113ee..1e4096d 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -39,8 +39,20 @@ def _apply_lighting(
         shininess=materials.shininess,
     )
     ambient_color = materials.ambient_color * lights.ambient_color
-    diffuse_color = materials.diffuse_color * light_diffuse
-    specular_color = materials.specular_color * light_specular
+    material_diffuse = materials.diffuse_color
+    material_specular = materials.specular_color
+    if material_diffuse.ndim < light_diffuse.ndim:
+        # Reshape from (N, C) to be compatible with light_diffuse and
+        # light_specular which are of shape (N, H, W, K, C)
+        expand_dims = (-1,) + (1,) * (light_diffuse.ndim - 2)
+        material_diffuse = material_diffuse.view(
+            expand_dims + material_diffuse.shape[-1:]
+        )
+        material_specular = material_specular.view(
+            expand_dims + material_specular.shape[-1:]
+        )
+    diffuse_color = material_diffuse * light_diffuse
+    specular_color = material_specular * light_specular
 
     if normals.dim() == 2 and points.dim() == 2:
         # If given packed inputs remove batch dim in output.
-- 
2.43.0


From cbed8687d800e112494232c9b280a1fea90e34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 08/56] fix: Gouraud shading with single-channel colors

Only the batch dimension is to be removed from packed light colors; squeezing
all dimensions turned (V, 1) colors into (V,), which broadcast to (V, V).
---
 pytorch3d/renderer/mesh/shading.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index 1e4096d..5b762fd 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -57,9 +57,9 @@ def _apply_lighting(
     if normals.dim() == 2 and points.dim() == 2:
         # If given packed inputs remove batch dim in output.
         return (
-            ambient_color.squeeze(),
-            diffuse_color.squeeze(),
-            specular_color.squeeze(),
+            ambient_color.squeeze(0),
+            diffuse_color.squeeze(0),
+            specular_color.squeeze(0),
         )
 
     if ambient_color.ndim != diffuse_color.ndim:
-- 
2.43.0


From 8b8fc289891f84188c680ab32cbf2846c52c3b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 09/56] fix: _safe_multinomial with more samples than entries

---
 pytorch3d/renderer/implicit/raysampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/raysampling.py b/pytorch3d/renderer/implicit/raysampling.py
index 222e024..ecdd3dd 100644
--- a/pytorch3d/renderer/implicit/raysampling.py
+++ b/pytorch3d/renderer/implicit/raysampling.py
@@ -592,7 +592,10 @@ def _safe_multinomial(input: torch.Tensor, num_samples: int) -> torch.Tensor:
         # this is probably rare, so we don't mind sampling twice
         res = torch.multinomial(input, num_samples, replacement=True)
         no_repl = (input > 0.0).sum(dim=-1) >= num_samples
-        res[no_repl] = torch.multinomial(input[no_repl], num_samples, replacement=False)
+        if no_repl.any():
+            res[no_repl] = torch.multinomial(
+                input[no_repl], num_samples, replacement=False
+            )
         return res
 
     # in some versions of Pytorch, zero probabilty samples can be drawn without an error
-- 
2.43.0


From 6ca39a2788fc1ec695585f4c034d19e2168b8e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 10/56] fix: gradient of face normals with respect to the
 second vertex's z coordinate

---
 pytorch3d/csrc/face_areas_normals/face_areas_normals.cu      | 2 +-
 pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
index 58aeb20..487eff4 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
@@ -180,7 +180,7 @@ __global__ void FaceAreasNormalsBackwardKernel(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals[3 * f + 2];
     atomicAdd(grad_verts + 3 * i1 + 2, grad_v1_z);
diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
index 1871ac7..42f162e 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
@@ -178,7 +178,7 @@ at::Tensor FaceAreasNormalsBackwardCpu(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas_a[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals_a[f][2];
     grad_verts[i1][2] += grad_v1_z;
-- 
2.43.0


From 6319ab86a8a2758c0044ed87eaba51c4c8686971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:02 +0000
Subject: [PATCH 11/56] fix: sample_points_from_meshes returns textures for
 batches with empty meshes

---
 pytorch3d/ops/sample_points_from_meshes.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/ops/sample_points_from_meshes.py b/pytorch3d/ops/sample_points_from_meshes.py
index e545cac..ec001f5 100644
--- a/pytorch3d/ops/sample_points_from_meshes.py
+++ b/pytorch3d/ops/sample_points_from_meshes.py
@@ -125,17 +125,29 @@ def sample_points_from_meshes(
 
     if return_textures:
         # fragment data are of shape NxHxWxK. Here H=S, W=1 & K=1.
-        pix_to_face = sample_face_idxs.view(len(meshes), num_samples, 1, 1)  # NxSx1x1
-        bary = torch.stack((w0, w1, w2), dim=2).unsqueeze(2).unsqueeze(2)  # NxSx1x1x3
+        # Empty meshes have no faces to sample from (pix_to_face = -1).
+        pix_to_face = torch.full(
+            (num_meshes, num_samples, 1, 1),
+            -1,
+            dtype=torch.int64,
+            device=meshes.device,
+        )  # NxSx1x1
+        pix_to_face[meshes.valid] = sample_face_idxs[:, :, None, None]
+        bary = torch.zeros(
+            (num_meshes, num_samples, 1, 1, 3), dtype=verts.dtype, device=meshes.device
+        )  # NxSx1x1x3
+        bary[meshes.valid] = torch.stack((w0, w1, w2), dim=2)[:, :, None, None]
         # zbuf and dists are not used in `sample_textures` so we initialize them with dummy
         dummy = torch.zeros(
-            (len(meshes), num_samples, 1, 1), device=meshes.device, dtype=torch.float32
+            (num_meshes, num_samples, 1, 1), device=meshes.device, dtype=torch.float32
         )  # NxSx1x1
         fragments = MeshFragments(
             pix_to_face=pix_to_face, zbuf=dummy, bary_coords=bary, dists=dummy
         )
         textures = meshes.sample_textures(fragments)  # NxSx1x1xC
         textures = textures[:, :, 0, 0, :]  # NxSxC
+        # Fill the rows of empty meshes with 0.
+        textures = textures * meshes.valid[:, None, None].to(textures.dtype)
 
     # return
     # TODO(gkioxari) consider returning a Pointclouds instance [breaking]
-- 
2.43.0


From df5ec144bb1ffb15706b1ecdc2ff3abf462a2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 12/56] fix: point-mesh distances on CPU for batches with empty
 point clouds or meshes

---
 pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
index 35c0b8c..f24d57d 100644
--- a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
+++ b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
@@ -184,7 +184,8 @@ std::tuple<at::Tensor, at::Tensor> HullHullDistanceForwardCpu(
   int64_t b_batch_start = 0, b_batch_end = 0;
   int64_t batch_idx = 0;
   for (int64_t a_n = 0; a_n < A_N; ++a_n) {
-    if (a_n == a_batch_end) {
+    // while, not if: batch elements with no hulls are skipped
+    while (a_n == a_batch_end) {
       ++batch_idx;
       b_batch_start = b_batch_end;
       if (batch_idx == BATCHES) {
-- 
2.43.0


From aeeba17de490b787d4bcc43dfcf6e1e6ebb9c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 13/56] fix: sample_pdf on CPU writes past the end for batches
 of five with four threads

---
 pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
index 272197c..7f0bc88 100644
--- a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
+++ b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
@@ -128,7 +128,7 @@ void SamplePdfCpu(
         outputs,
         eps,
         start_batch,
-        start_batch + batch_elements_per_thread);
+        std::min(start_batch + batch_elements_per_thread, batch_size));
     start_batch += batch_elements_per_thread;
   }
 
-- 
2.43.0


From 82bdc2e06aed5bd422765e1a4d515db6f32dc3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 14/56] fix: keep align_corners when indexing a batch of
 volumes

---
 pytorch3d/structures/volumes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 84edf33..2ce815f 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -297,6 +297,7 @@ class Volumes:
             # pyre-fixme[16]: `Optional` has no attribute `__getitem__`.
             features=self.features()[index] if self._features is not None else None,
             densities=self.densities()[index],
+            align_corners=self.get_align_corners(),
         )
         # dont forget to update grid_sizes!
         self.locator._copy_transform_and_sizes(new.locator, index=index)
-- 
2.43.0


From 293177b3d328da37f85a482d6c0c491aaccbf9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 15/56] fix: coordinate grid of differently sized volumes
 without align_corners

---
 pytorch3d/structures/volumes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 2ce815f..de8b9a9 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -850,11 +850,13 @@ class VolumeLocator:
         # of torch.nn.grid_sample
         vol_coords_local = torch.stack((X, Y, Z), dim=3)[None].repeat(ba, 1, 1, 1, 1)
 
-        # get grid sizes relative to the maximal volume size
+        # get grid sizes relative to the maximal volume size, measured between the
+        # centers (align_corners) or the outer boundaries of the corner voxels
+        size_offset = 1 if self._align_corners else 0
         grid_sizes_relative = (
             torch.tensor([[de, he, wi]], device=grid_sizes.device, dtype=torch.float32)
-            - 1
-        ) / (grid_sizes - 1).float()
+            - size_offset
+        ) / (grid_sizes - size_offset).float()
 
         if (grid_sizes_relative != 1.0).any():
             # if any of the relative sizes != 1.0, adjust the grid
-- 
2.43.0


From 633fd943d48ab1d4752dba4973c654a6f63781ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 16/56] fix: update_padded of volumes with different grid sizes

---
 pytorch3d/structures/volumes.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index de8b9a9..d13b1ec 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -387,11 +387,11 @@ class Volumes:
             Volumes with updated features and densities
         """
         new = copy.copy(self)
-        new._set_densities(new_densities)
+        new._set_densities_features("densities", new_densities, padded=True)
         if new_features is None:
             new._features = None
         else:
-            new._set_features(new_features)
+            new._set_densities_features("features", new_features, padded=True)
         return new
 
     def _set_features(self, features: _TensorBatch) -> None:
@@ -400,7 +400,9 @@ class Volumes:
     def _set_densities(self, densities: _TensorBatch) -> None:
         self._set_densities_features("densities", densities)
 
-    def _set_densities_features(self, var_name: str, x: _TensorBatch) -> None:
+    def _set_densities_features(
+        self, var_name: str, x: _TensorBatch, padded: bool = False
+    ) -> None:
         x_tensor, grid_sizes = self._convert_densities_features_to_tensor(x, var_name)
         if x_tensor.device != self.device:
             raise ValueError(
@@ -412,9 +414,15 @@ class Volumes:
                 f"(minibatch, {var_name}_dim, height, width, depth)"
             )
 
+        expected_sizes = self.get_grid_sizes()
+        if padded and torch.is_tensor(x):
+            # x has the padded size of the whole batch
+            expected_sizes = expected_sizes.new_tensor(
+                list(self._densities.shape[2:])
+            ).expand_as(expected_sizes)
         if not (
-            (self.get_grid_sizes().shape == grid_sizes.shape)
-            and torch.allclose(self.get_grid_sizes(), grid_sizes)
+            (expected_sizes.shape == grid_sizes.shape)
+            and torch.allclose(expected_sizes, grid_sizes)
         ):
             raise ValueError(
                 f"The size of every grid in `{var_name}` has to match the size of"
-- 
2.43.0


From ff80f449796c32dcd5964ea897ccd45852507bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:33 +0000
Subject: [PATCH 17/56] fix: splat weights of points just outside the first
 voxel on CPU

---
 .../points_to_volumes_cpu.cpp                 | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
index 1b9b5a0..a92a7d0 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
@@ -31,6 +31,13 @@
 // This can be thought of as saying "location i" means the whole box from
 // (i-0.5) to (i+0.5)
 
+// Splits value into its floor, stored in whole, and the non-negative remainder.
+// (std::modf rounds towards zero, which is wrong between locations -1 and 0.)
+static float SplitFloor(const float value, float* whole) {
+  *whole = std::floor(value);
+  return value - *whole;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static void EightDirections(T&& t) {
@@ -129,11 +136,11 @@ void PointsToVolumesForwardCpu(
         // rx==0 means weight all on the lower bound, x, rx=1-eps means most
         // weight on x+1. Ditto for ry and yz.
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = SplitFloor(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = SplitFloor(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = SplitFloor(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         // Define how to fractionally increment one of the 8 locations around
         // the point.
@@ -262,11 +269,11 @@ void PointsToVolumesBackwardCpu(
         increment_location(x, y, z, 1);
       } else {
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = SplitFloor(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = SplitFloor(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = SplitFloor(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
           float weight_x = (up_x ? rx : 1 - rx);
-- 
2.43.0


From 877027330589e0dd15d9d9c49bdc3e6bf99ebdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:27 +0000
Subject: [PATCH 18/56] fix: sample no farthest points from empty clouds or for
 K=0

---
 .../sample_farthest_points_cpu.cpp             | 14 +++++++++-----
 pytorch3d/ops/sample_farthest_points.py        | 18 +++++++++++-------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
index cd53382..12030dd 100644
--- a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
+++ b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
@@ -43,6 +43,15 @@ at::Tensor FarthestPointSamplingCpu(
   std::vector<float> dists(P, std::numeric_limits<float>::max());
 
   for (int64_t n = 0; n < N; ++n) {
+    // For heterogeneous pointclouds, use the minimum of the
+    // length for that cloud compared to K as the number of
+    // points to sample
+    const int64_t batch_k = std::min(lengths_a[n], k_a[n]);
+    if (batch_k < 1) {
+      // Nothing to sample: the indices remain padding
+      continue;
+    }
+
     // Resize and reset points mask and distances for each batch
     selected_points_mask.resize(lengths_a[n]);
     dists.resize(lengths_a[n]);
@@ -56,11 +65,6 @@ at::Tensor FarthestPointSamplingCpu(
     // Set the value of the mask at this point to false
     selected_points_mask[last_idx] = true;
 
-    // For heterogeneous pointclouds, use the minimum of the
-    // length for that cloud compared to K as the number of
-    // points to sample
-    const int64_t batch_k = std::min(lengths_a[n], k_a[n]);
-
     // Iteratively select batch_k points per batch
     for (int64_t k = 1; k < batch_k; ++k) {
       // Iterate through all the points
diff --git a/pytorch3d/ops/sample_farthest_points.py b/pytorch3d/ops/sample_farthest_points.py
index ddcb75a..667bfe4 100644
--- a/pytorch3d/ops/sample_farthest_points.py
+++ b/pytorch3d/ops/sample_farthest_points.py
@@ -151,6 +151,17 @@ def sample_farthest_points_naive(
             device=device,
         )
 
+        # If the pointcloud has fewer than K points then only iterate over the min
+        # pyre-fixme[6]: For 1st param expected `SupportsRichComparisonT` but got
+        #  `Tensor`.
+        # pyre-fixme[6]: For 2nd param expected `SupportsRichComparisonT` but got
+        #  `Tensor`.
+        k_n = min(lengths[n], K[n])
+        if k_n < 1:
+            # Nothing to sample: the indices remain padding
+            all_sampled_indices.append(sample_idx_batch)
+            continue
+
         # Initialize closest distances to inf, shape: (P,)
         # This will be updated at each iteration to track the closest distance of the
         # remaining points to any of the selected points
@@ -167,13 +178,6 @@ def sample_farthest_points_naive(
         selected_idx = randint(0, lengths[n] - 1) if random_start_point else 0
         sample_idx_batch[0] = selected_idx
 
-        # If the pointcloud has fewer than K points then only iterate over the min
-        # pyre-fixme[6]: For 1st param expected `SupportsRichComparisonT` but got
-        #  `Tensor`.
-        # pyre-fixme[6]: For 2nd param expected `SupportsRichComparisonT` but got
-        #  `Tensor`.
-        k_n = min(lengths[n], K[n])
-
         # Iteratively select points for a maximum of k_n
         for i in range(1, k_n):
             # Find the distance between the last selected point
-- 
2.43.0


From d02f412b8c736d2dfa59a4e3682c65e240394cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 19/56] fix: weigh point correspondences once in
 corresponding_points_alignment

---
 pytorch3d/ops/points_alignment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 1ae50cd..7409e5d 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -340,8 +340,8 @@ def corresponding_points_alignment(
     total_weight = torch.clamp(num_points, 1)
     # special handling for heterogeneous point clouds and/or input weights
     if weights is not None:
-        Xc *= weights[:, :, None]
-        Yc *= weights[:, :, None]
+        # weigh each correspondence once, both in XYcov and in Xcov below
+        Yc = Yc * weights[:, :, None]
         total_weight = torch.clamp(weights.sum(1), eps)
 
     if (num_points < (dim + 1)).any():
@@ -384,7 +384,8 @@ def corresponding_points_alignment(
     if estimate_scale:
         # estimate the scaling component of the transformation
         trace_ES = (torch.diagonal(E, dim1=1, dim2=2) * S).sum(1)
-        Xcov = (Xc * Xc).sum((1, 2)) / total_weight
+        Xsq = Xc * Xc if weights is None else Xc * Xc * weights[:, :, None]
+        Xcov = Xsq.sum((1, 2)) / total_weight
 
         # the scaling component
         s = trace_ES / torch.clamp(Xcov, eps)
-- 
2.43.0


From 13aa6640a05f266a32ee3cc5da4544ffeda9f0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 20/56] fix: mask padded points in ICP between equally sized
 heterogeneous clouds

---
 pytorch3d/ops/points_alignment.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 7409e5d..38e4009 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -114,9 +114,7 @@ def iterative_closest_point(
         )
 
     # pyrefly: ignore [missing-attribute]
-    if ((num_points_Y < Yt.shape[1]).any() or (num_points_X < Xt.shape[1]).any()) and (
-        num_points_Y != num_points_X
-    ).any():
+    if (num_points_Y < Yt.shape[1]).any() or (num_points_X < Xt.shape[1]).any():
         # we have a heterogeneous input (e.g. because X/Y is
         # an instance of Pointclouds)
         mask_X = (
-- 
2.43.0


From f6b00895eea185bab9bd387319e1034b018d7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 21/56] fix: let ICP converge once its rmse is exactly 0

---
 pytorch3d/ops/points_alignment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 38e4009..6382ddb 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -202,7 +202,10 @@ def iterative_closest_point(
         if prev_rmse is None:
             relative_rmse = rmse.new_ones(b)
         else:
-            relative_rmse = (prev_rmse - rmse) / prev_rmse
+            # the clamp keeps the ratio defined once the rmse has reached exactly 0
+            relative_rmse = (prev_rmse - rmse) / prev_rmse.clamp(
+                min=torch.finfo(prev_rmse.dtype).tiny
+            )
 
         if verbose:
             rmse_msg = (
-- 
2.43.0


From 92cf508c868706a294b3d90f500353c99c5f15dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 22/56] fix: never align camera extrinsics with a reflection

---
 pytorch3d/ops/cameras_alignment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/ops/cameras_alignment.py b/pytorch3d/ops/cameras_alignment.py
index 5986206..275a88d 100644
--- a/pytorch3d/ops/cameras_alignment.py
+++ b/pytorch3d/ops/cameras_alignment.py
@@ -185,7 +185,10 @@ def _align_camera_extrinsics(
     #  Tensor, Module]` is not a function.
     RRcov = torch.bmm(cameras_src.R, cameras_tgt.R.transpose(2, 1)).mean(0)
     U, _, V = torch.svd(RRcov)
-    align_t_R = V @ U.t()
+    # flip the last singular vector if V @ U^T is a reflection
+    E = torch.eye(3, dtype=RRcov.dtype, device=RRcov.device)
+    E[-1, -1] = torch.det(V @ U.t())
+    align_t_R = V @ E @ U.t()
 
     """
     The translation + scale `T_A` and `s_A` is computed by finding
-- 
2.43.0


From c3389ab4997614e72755cde54a4fd2739e3880b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:20 +0000
Subject: [PATCH 23/56] fix: edge counts, index maps and normals of empty mesh
 batches

---
 pytorch3d/structures/meshes.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 85a1fee..2f7f0b9 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -748,6 +748,12 @@ class Meshes:
         if self._verts_padded_to_packed_idx is not None:
             return self._verts_padded_to_packed_idx
 
+        if self.isempty():
+            self._verts_padded_to_packed_idx = torch.zeros(
+                (0,), dtype=torch.int64, device=self.device
+            )
+            return self._verts_padded_to_packed_idx
+
         self._verts_padded_to_packed_idx = torch.cat(
             [
                 torch.arange(v, dtype=torch.int64, device=self.device) + i * self._V
@@ -896,7 +902,7 @@ class Meshes:
 
         if self.isempty():
             self._verts_normals_packed = torch.zeros(
-                (self._N, 3), dtype=torch.int64, device=self.device
+                (0, 3), dtype=torch.float32, device=self.device
             )
         else:
             faces_packed = self.faces_packed()
@@ -1059,6 +1065,15 @@ class Meshes:
             self._edges_packed_to_mesh_idx = torch.zeros(
                 (0,), dtype=torch.int64, device=self.device
             )
+            self._faces_packed_to_edges_packed = torch.zeros(
+                (0, 3), dtype=torch.int64, device=self.device
+            )
+            self._num_edges_per_mesh = torch.zeros(
+                (0,), dtype=torch.int32, device=self.device
+            )
+            self._mesh_to_edges_packed_first_idx = torch.zeros(
+                (0,), dtype=torch.int64, device=self.device
+            )
             return
 
         faces = self.faces_packed()
-- 
2.43.0


From 83f4dfce29b7a304a8896419aad9f872b4ffb609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:20 +0000
Subject: [PATCH 24/56] fix: keep the list of an empty mesh batch when
 offsetting or scaling it

---
 pytorch3d/structures/meshes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 2f7f0b9..ba6cef6 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -1327,6 +1327,9 @@ class Meshes:
             update_normals = True
         if vert_offsets_packed.shape != verts_packed.shape:
             raise ValueError("Verts offsets must have dimension (all_v, 3).")
+        if self.isempty():
+            # there are no packed verts to offset
+            return self
         # update verts packed
         self._verts_packed = verts_packed + vert_offsets_packed
         new_verts_list = list(
@@ -1388,6 +1391,9 @@ class Meshes:
             new_verts_list.append(scale[i] * old_verts)
         # update list
         self._verts_list = new_verts_list
+        if self.isempty():
+            # there are no packed or padded verts to scale
+            return self
         # update packed
         if self._verts_packed is not None:
             self._verts_packed = torch.cat(new_verts_list, dim=0)
-- 
2.43.0


From 71dde8296d43344cb627f237a4355a0950ba4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:21 +0000
Subject: [PATCH 25/56] fix: offset and scale padded meshes without writing to
 shared tensors

---
 pytorch3d/structures/meshes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index ba6cef6..6b10ca2 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -1342,6 +1342,8 @@ class Meshes:
 
         # update verts padded
         if self._verts_padded is not None:
+            # the old tensor may be shared with the caller or with other meshes
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(new_verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
@@ -1399,6 +1401,8 @@ class Meshes:
             self._verts_packed = torch.cat(new_verts_list, dim=0)
         # update padded
         if self._verts_padded is not None:
+            # the old tensor may be shared with the caller or with other meshes
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(self._verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
-- 
2.43.0


From da90b4a4dd9dd7565be8ec1893e766f271ac6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 26/56] fix: list views of empty mesh batches built from padded
 tensors

---
 pytorch3d/structures/meshes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 6b10ca2..4774ddd 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -546,8 +546,12 @@ class Meshes:
             assert self._verts_padded is not None, (
                 "verts_padded is required to compute verts_list."
             )
+            # an empty batch keeps no counts, see __init__
             self._verts_list = struct_utils.padded_to_list(
-                self._verts_padded, self.num_verts_per_mesh().tolist()
+                self._verts_padded,
+                [self._V] * self._N
+                if self.isempty()
+                else self.num_verts_per_mesh().tolist(),
             )
         return self._verts_list
 
@@ -562,8 +566,12 @@ class Meshes:
             assert self._faces_padded is not None, (
                 "faces_padded is required to compute faces_list."
             )
+            # an empty batch keeps no counts, see __init__
             self._faces_list = struct_utils.padded_to_list(
-                self._faces_padded, self.num_faces_per_mesh().tolist()
+                self._faces_padded,
+                [0] * self._N
+                if self.isempty()
+                else self.num_faces_per_mesh().tolist(),
             )
         return self._faces_list
 
-- 
2.43.0


From 36e2039a004a74c5f8ed94f2237e3ca69aa65f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 27/56] fix: keep normals and features given in another form
 than the points

---
 pytorch3d/structures/pointclouds.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 53ed5a5..181fb36 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -620,20 +620,31 @@ class Pointclouds:
         Args:
             refresh: whether to force the recalculation.
         """
-        if not (refresh or self._points_padded is None):
+        missing_normals = self._normals_padded is None and self._normals_list
+        missing_features = self._features_padded is None and self._features_list
+        if not (
+            refresh
+            or self._points_padded is None
+            or missing_normals
+            or missing_features
+        ):
             return
 
+        # Normals and features may have been given in another form than the points,
+        # so read their lists before resetting their padded tensors.
+        normals_list = self.normals_list()
+        features_list = self.features_list()
         self._normals_padded, self._features_padded = None, None
         if self.isempty():
             self._points_padded = torch.zeros((self._N, 0, 3), device=self.device)
         else:
-            self._points_padded = struct_utils.list_to_padded(
-                self.points_list(),
-                (self._P, 3),
-                pad_value=0.0,
-                equisized=self.equisized,
-            )
-            normals_list = self.normals_list()
+            if refresh or self._points_padded is None:
+                self._points_padded = struct_utils.list_to_padded(
+                    self.points_list(),
+                    (self._P, 3),
+                    pad_value=0.0,
+                    equisized=self.equisized,
+                )
             if normals_list is not None:
                 self._normals_padded = struct_utils.list_to_padded(
                     normals_list,
@@ -641,7 +652,6 @@ class Pointclouds:
                     pad_value=0.0,
                     equisized=self.equisized,
                 )
-            features_list = self.features_list()
             if features_list is not None:
                 self._features_padded = struct_utils.list_to_padded(
                     features_list,
-- 
2.43.0


From ebeb98cc01ca8eb690e48fde573e039d66b8274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 28/56] fix: keep the normals and features of clouds in
 update_padded

---
 pytorch3d/structures/pointclouds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 181fb36..f816023 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -1168,6 +1168,9 @@ class Pointclouds:
         # overwrite the equisized flag
         new.equisized = self.equisized
 
+        # make sure that the kept normals and features have a padded form
+        self._compute_padded()
+
         # copy normals
         if new_normals_padded is None:
             # If no normals are provided, keep old ones (shallow copy)
@@ -1181,6 +1184,7 @@ class Pointclouds:
             new._features_list = self._features_list
             new._features_padded = self._features_padded
             new._features_packed = self._features_packed
+            new._C = self._C
 
         # copy auxiliary tensors
         copy_tensors = [
-- 
2.43.0


From 30d4db149c039ca76ab7e240cbe7c60458dbecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 29/56] fix: offset and scale padded clouds without writing to
 shared tensors

---
 pytorch3d/structures/pointclouds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index f816023..eddd320 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -913,6 +913,8 @@ class Pointclouds:
         # cannot be None even if not provided during construction.
         self._points_list = new_points_list
         if self._points_padded is not None:
+            # the old tensor may be shared with the caller or with other clouds
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
@@ -1002,6 +1004,8 @@ class Pointclouds:
         if self._points_packed is not None:
             self._points_packed = torch.cat(new_points_list, dim=0)
         if self._points_padded is not None:
+            # the old tensor may be shared with the caller or with other clouds
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
-- 
2.43.0


From de62ff46d260e259b95cf545e3fc49f2592c049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 30/56] fix: clones of clouds of different sizes are not
 equisized

---
 pytorch3d/structures/pointclouds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index eddd320..216b500 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -755,6 +755,7 @@ class Pointclouds:
             v = getattr(self, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.clone())
+        other.equisized = self.equisized
         return other
 
     def detach(self):
@@ -791,6 +792,7 @@ class Pointclouds:
             v = getattr(self, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
+        other.equisized = self.equisized
         return other
 
     def to(self, device: Device, copy: bool = False):
-- 
2.43.0


From 634305ee6fbad0fad5ebccb7736e1d934c114454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 31/56] fix: scaling and index map of a batch of no clouds

---
 pytorch3d/structures/pointclouds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 216b500..ecf713f 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -602,7 +602,9 @@ class Pointclouds:
         if self._padded_to_packed_idx is not None:
             return self._padded_to_packed_idx
         if self._N == 0:
-            self._padded_to_packed_idx = []
+            self._padded_to_packed_idx = torch.zeros(
+                (0,), dtype=torch.int64, device=self.device
+            )
         else:
             self._padded_to_packed_idx = torch.cat(
                 [
@@ -1003,7 +1005,7 @@ class Pointclouds:
         for i, old_points in enumerate(points_list):
             new_points_list.append(scale[i] * old_points)
         self._points_list = new_points_list
-        if self._points_packed is not None:
+        if self._points_packed is not None and self._N > 0:
             self._points_packed = torch.cat(new_points_list, dim=0)
         if self._points_padded is not None:
             # the old tensor may be shared with the caller or with other clouds
-- 
2.43.0


From 15b47264112cfde8390432bed01925eef880d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:05 +0000
Subject: [PATCH 32/56] fix: keep the element counts of an indexed texture a
 list

textures[i] stored a bare int as the number of faces (vertices) per mesh, so
extending or joining it failed.
---
 pytorch3d/renderer/mesh/textures.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index df81c7c..4694c66 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -275,6 +275,11 @@ class TexturesBase:
                 if callable(t):
                     t = t()  # class method
                 new_props[p] = t[index] if t is not None else None
+                if p in ("_num_faces_per_mesh", "_num_verts_per_mesh") and isinstance(
+                    index, int
+                ):
+                    # a batch of one element, whose counts are a list
+                    new_props[p] = [new_props[p]]
         elif isinstance(index, list):
             # pyrefly: ignore [bad-assignment]
             index = torch.tensor(index)
-- 
2.43.0


From 69f038fedf683f40e3de1d458ea18094d4175953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:05 +0000
Subject: [PATCH 33/56] fix: look up the map of a face by its packed index

With several maps per mesh and meshes with different numbers of faces,
sample_textures used the packed face index to read the padded map ids, and
maps_ids_list returned padded rows, so that indexing such a batch failed.
---
 pytorch3d/renderer/mesh/textures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index 4694c66..7399c31 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1151,7 +1151,9 @@ class TexturesUV(TexturesBase):
             return self._maps_ids_list
         elif self._maps_ids_padded is not None:
             # pyrefly: ignore [bad-return]
-            return self._maps_ids_padded.unbind(0)
+            return padded_to_list(
+                self._maps_ids_padded, split_size=self._num_faces_per_mesh
+            )
         else:
             return None
 
@@ -1286,8 +1288,9 @@ class TexturesUV(TexturesBase):
             pix_to_face = fragments.pix_to_face.clone()
             pix_to_face[mask] = 0
 
+            # pix_to_face refers to the packed faces
             pixel_to_map_ids = (
-                maps_ids_padded.flatten()
+                torch.cat(tuple(self.maps_ids_list()))
                 .gather(0, pix_to_face.flatten())
                 .view(N, H_out, W_out, K, 1)
                 .permute(0, 3, 1, 2, 4)
-- 
2.43.0


From cdbf98b33fa92ee1b604f6e8b0b7b729ebf426b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:05 +0000
Subject: [PATCH 34/56] fix: sample exactly the map a face refers to

With several maps per mesh, the map coordinate assumed align_corners=True, so
with align_corners=False neighbouring maps were mixed, and a single map gave
0 / 0.
---
 pytorch3d/renderer/mesh/textures.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index 7399c31..d3eb543 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1142,6 +1142,15 @@ class TexturesUV(TexturesBase):
         # pyrefly: ignore [bad-return]
         return self._verts_uvs_list
 
+    def _normalize_maps_ids(self, maps_ids: torch.Tensor, M: int) -> torch.Tensor:
+        """
+        The grid_sample coordinate, in the direction of the M maps, of the center
+        of each of the given maps.
+        """
+        if self.align_corners:
+            return (2.0 * maps_ids.float() / float(max(M - 1, 1))) - 1.0
+        return ((2.0 * maps_ids.float() + 1.0) / float(M)) - 1.0
+
     def maps_ids_padded(self) -> Optional[torch.Tensor]:
         return self._maps_ids_padded
 
@@ -1297,7 +1306,7 @@ class TexturesUV(TexturesBase):
             )  # N x H_out x W_out x K x 1
 
             # Normalize between -1 and 1 with M (number of maps)
-            pixel_to_map_ids = (2.0 * pixel_to_map_ids.float() / float(M - 1)) - 1
+            pixel_to_map_ids = self._normalize_maps_ids(pixel_to_map_ids, M)
             pixel_uvs = pixel_uvs.permute(0, 3, 1, 2, 4)
             pixel_uvs = torch.lerp(
                 pixel_uvs.new_tensor([-1.0, 1.0]),
@@ -1359,7 +1368,7 @@ class TexturesUV(TexturesBase):
             texture_maps = texture_maps.permute(0, 4, 1, 2, 3)
             # expand maps_ids to (N, F, 3, 1)
             maps_ids_padded = maps_ids_padded[:, :, None, None].expand(-1, -1, 3, -1)
-            maps_ids_padded = (2.0 * maps_ids_padded.float() / float(M - 1)) - 1.0
+            maps_ids_padded = self._normalize_maps_ids(maps_ids_padded, M)
 
             # (N, F, 3, 2+1) -> (N, 1, F, 3, 3)
             faces_verts_uvs = torch.cat(
-- 
2.43.0


From 9652b4eb0b82d3979599507b851c3e303dd43a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:05 +0000
Subject: [PATCH 35/56] fix: keep the type and device of lists of several
 texture maps

---
 pytorch3d/renderer/mesh/textures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index d3eb543..9f34158 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -178,7 +178,7 @@ def _pad_texture_multiple_maps(
     max_shape = (max_M, max_H, max_W, C)
     max_im_shape = (max_H, max_W)
     for i, tms in enumerate(tex_maps):
-        new_tex_maps = torch.zeros(max_shape)
+        new_tex_maps = tms.new_zeros(max_shape)
         for j in range(tms.shape[0]):
             im = tms[j]
             if im.shape[:2] != max_im_shape:
-- 
2.43.0


From a3d40a401f82d9064560460f5bb04265f4961bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:05 +0000
Subject: [PATCH 36/56] fix: join the UV textures of a batch of one mesh as a
 scene

join_meshes_as_scene of a single textured mesh raised 'Cannot pack less than
two boxes', and a map one pixel wide divided by zero.
---
 pytorch3d/renderer/mesh/textures.py | 4 ++--
 pytorch3d/renderer/mesh/utils.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index 9f34158..d6c80a5 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1595,9 +1595,9 @@ class TexturesUV(TexturesBase):
             # That is why the 1's and 0's are mismatched in these lines.
             one_if_align = 1 if self.align_corners else 0
             one_if_not_align = 1 - one_if_align
-            denom_x = merging_plan.total_size[0] - one_if_align
+            denom_x = max(merging_plan.total_size[0] - one_if_align, 1)
             scale_x = x_shape - one_if_align
-            denom_y = merging_plan.total_size[1] - one_if_align
+            denom_y = max(merging_plan.total_size[1] - one_if_align, 1)
             scale_y = y_shape - one_if_align
             new_uvs[:, 1] *= scale_x / denom_x
             new_uvs[:, 1] += (
diff --git a/pytorch3d/renderer/mesh/utils.py b/pytorch3d/renderer/mesh/utils.py
index 73b91c4..cf1c9c9 100644
--- a/pytorch3d/renderer/mesh/utils.py
+++ b/pytorch3d/renderer/mesh/utils.py
@@ -291,8 +291,8 @@ def pack_unique_rectangles(rectangles: List[Rectangle]) -> PackedRectangles:
                     with each identifier.
     """
 
-    if len(rectangles) < 2:
-        raise ValueError("Cannot pack less than two boxes")
+    if len(rectangles) < 1:
+        raise ValueError("Cannot pack less than one box")
 
     input_map = {}
     input_indices: List[Tuple[int, bool]] = []
-- 
2.43.0


From ecdf1f5665e704da0118b870cd17e7f49a9eb033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:05 +0000
Subject: [PATCH 37/56] fix: list and padded forms of the textures of empty
 meshes

The atlas list of empty meshes overwrote the padded atlas and failed, and the
padded vertex features had four dimensions, so that cloning failed.
---
 pytorch3d/renderer/mesh/textures.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index d6c80a5..373301b 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -539,15 +539,16 @@ class TexturesAtlas(TexturesBase):
     def atlas_list(self) -> List[torch.Tensor]:
         if self._atlas_list is None:
             if self.isempty():
-                self._atlas_padded = [
+                self._atlas_list = [
                     torch.empty((0, 0, 0, 3), dtype=torch.float32, device=self.device)
                 ] * self._N
-            # pyrefly: ignore [bad-assignment]
-            self._atlas_list = _padded_to_list_wrapper(
-                # pyrefly: ignore [bad-argument-type]
-                self._atlas_padded,
-                split_size=self._num_faces_per_mesh,
-            )
+            else:
+                # pyrefly: ignore [bad-assignment]
+                self._atlas_list = _padded_to_list_wrapper(
+                    # pyrefly: ignore [bad-argument-type]
+                    self._atlas_padded,
+                    split_size=self._num_faces_per_mesh,
+                )
         return self._atlas_list
 
     def atlas_packed(self) -> torch.Tensor:
@@ -1832,7 +1833,7 @@ class TexturesVertex(TexturesBase):
         if self._verts_features_padded is None:
             if self.isempty():
                 self._verts_features_padded = torch.zeros(
-                    (self._N, 0, 3, 0), dtype=torch.float32, device=self.device
+                    (self._N, 0, 3), dtype=torch.float32, device=self.device
                 )
             else:
                 self._verts_features_padded = list_to_padded(
-- 
2.43.0


From dd2da0b3a3c18fa408225eb42deba5fdb1b7cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:35 +0000
Subject: [PATCH 38/56] fix: keep the triangles that follow a degenerate one in
 marching cubes

---
 .../marching_cubes/marching_cubes_cpu.cpp     | 19 +++++++++---------
 pytorch3d/ops/marching_cubes.py               | 20 ++++++++-----------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
index fa128e7..184c319 100644
--- a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
+++ b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
@@ -68,16 +68,17 @@ std::tuple<at::Tensor, at::Tensor, at::Tensor> MarchingCubesCpu(
 
           // Check if the triangle face is degenerate. A triangle face
           // is degenerate if any of the two verices share the same 3D position
-          if ((j + 1) % 3 == 0 && ps[0] != ps[1] && ps[1] != ps[2] &&
-              ps[2] != ps[0]) {
-            for (int k = 0; k < 3; k++) {
-              int64_t v = tri.at(k);
-              edge_id_to_v[v] = ps.at(k);
-              if (!uniq_edge_id.count(v)) {
-                uniq_edge_id[v] = verts.size();
-                verts.push_back(edge_id_to_v[v]);
+          if ((j + 1) % 3 == 0) {
+            if (ps[0] != ps[1] && ps[1] != ps[2] && ps[2] != ps[0]) {
+              for (int k = 0; k < 3; k++) {
+                int64_t v = tri.at(k);
+                edge_id_to_v[v] = ps.at(k);
+                if (!uniq_edge_id.count(v)) {
+                  uniq_edge_id[v] = verts.size();
+                  verts.push_back(edge_id_to_v[v]);
+                }
+                faces.push_back(uniq_edge_id[v]);
               }
-              faces.push_back(uniq_edge_id[v]);
             }
             tri.clear();
             ps.clear();
diff --git a/pytorch3d/ops/marching_cubes.py b/pytorch3d/ops/marching_cubes.py
index b6f90d8..d546fd0 100644
--- a/pytorch3d/ops/marching_cubes.py
+++ b/pytorch3d/ops/marching_cubes.py
@@ -198,18 +198,14 @@ def marching_cubes_naive(
                         ps.append(interp_points[edge])
                         # when the isolevel are the same as the edge endpoints, the interploated
                         # vertices can share the same values, and lead to degenerate triangles.
-                        if (
-                            (i + 1) % 3 == 0
-                            and ps[0] != ps[1]
-                            and ps[1] != ps[2]
-                            and ps[2] != ps[0]
-                        ):
-                            for j, edge_id in enumerate(tri):
-                                edge_id_to_v[edge_id] = ps[j]
-                                if edge_id not in uniq_edge_id:
-                                    uniq_edge_id[edge_id] = len(verts)
-                                    verts.append(edge_id_to_v[edge_id])
-                            faces.append([uniq_edge_id[tri[j]] for j in range(3)])
+                        if (i + 1) % 3 == 0:
+                            if ps[0] != ps[1] and ps[1] != ps[2] and ps[2] != ps[0]:
+                                for j, edge_id in enumerate(tri):
+                                    edge_id_to_v[edge_id] = ps[j]
+                                    if edge_id not in uniq_edge_id:
+                                        uniq_edge_id[edge_id] = len(verts)
+                                        verts.append(edge_id_to_v[edge_id])
+                                faces.append([uniq_edge_id[tri[j]] for j in range(3)])
                             tri = []
                             ps = []
 
-- 
2.43.0


From 76b24a2ef8ae2f63ab4bbc07f817adbee35b70d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:35 +0000
Subject: [PATCH 39/56] fix: integer vertex ids for marching cubes on large
 volumes

---
 pytorch3d/csrc/marching_cubes/marching_cubes_utils.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h b/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
index 486e033..52d25e9 100644
--- a/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
+++ b/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
@@ -138,8 +138,13 @@ struct Cube {
   int64_t HashVpair(const int edge, int W, int H, int D) {
     const int v1 = _EDGE_TO_VERTICES[edge][0];
     const int v2 = _EDGE_TO_VERTICES[edge][1];
-    const int v1_id = p[v1].x + p[v1].y * W + p[v1].z * W * H;
-    const int v2_id = p[v2].x + p[v2].y * W + p[v2].z * W * H;
-    return (int64_t)v1_id * (W + W * H + W * H * D) + (int64_t)v2_id;
+    // 64 bit integers, since the ids of the vertices of large volumes are not
+    // representable as floats and their products overflow 32 bits
+    const int64_t w = W, h = H, d = D;
+    const int64_t v1_id =
+        (int64_t)p[v1].x + (int64_t)p[v1].y * w + (int64_t)p[v1].z * w * h;
+    const int64_t v2_id =
+        (int64_t)p[v2].x + (int64_t)p[v2].y * w + (int64_t)p[v2].z * w * h;
+    return v1_id * (w + w * h + w * h * d) + v2_id;
   }
 };
-- 
2.43.0


From f546668d2c2e608e648ad28ac2ddfd0b26cb9d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 40/56] fix: cubify grids of one cell in a direction

---
 pytorch3d/ops/cubify.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/ops/cubify.py b/pytorch3d/ops/cubify.py
index b271d82..59a076b 100644
--- a/pytorch3d/ops/cubify.py
+++ b/pytorch3d/ops/cubify.py
@@ -10,7 +10,6 @@
 from typing import Optional
 
 import torch
-import torch.nn.functional as F
 from pytorch3d.common.compat import meshgrid_ij
 from pytorch3d.structures import Meshes
 
@@ -145,18 +144,14 @@ def cubify(
         device=device,
     )
 
-    wx = torch.tensor([0.5, 0.5], device=device).view(1, 1, 1, 1, 2)
-    wy = torch.tensor([0.5, 0.5], device=device).view(1, 1, 1, 2, 1)
-    wz = torch.tensor([0.5, 0.5], device=device).view(1, 1, 2, 1, 1)
-
     voxelt = voxels.ge(thresh).float()
     # N x 1 x D x H x W
     voxelt = voxelt.view(N, 1, D, H, W)
 
-    # N x 1 x (D-1) x (H-1) x (W-1)
-    voxelt_x = F.conv3d(voxelt, wx).gt(0.5).float()
-    voxelt_y = F.conv3d(voxelt, wy).gt(0.5).float()
-    voxelt_z = F.conv3d(voxelt, wz).gt(0.5).float()
+    # neighbouring voxels which are both occupied, in each direction
+    voxelt_x = voxelt[:, :, :, :, 1:] * voxelt[:, :, :, :, :-1]
+    voxelt_y = voxelt[:, :, :, 1:, :] * voxelt[:, :, :, :-1, :]
+    voxelt_z = voxelt[:, :, 1:, :, :] * voxelt[:, :, :-1, :, :]
 
     # 12 x N x 1 x D x H x W
     faces_idx = torch.ones((cube_faces.size(0), N, 1, D, H, W), device=device)
-- 
2.43.0


From 3bed2872e79349d3e88ba8b2b5bd1f98c9f39d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:04 +0000
Subject: [PATCH 41/56] fix: check the planarity of every face of the boxes on
 its own

---
 pytorch3d/ops/iou_box3d.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/ops/iou_box3d.py b/pytorch3d/ops/iou_box3d.py
index 5b24581..2ab8920 100644
--- a/pytorch3d/ops/iou_box3d.py
+++ b/pytorch3d/ops/iou_box3d.py
@@ -61,9 +61,8 @@ def _check_coplanar(boxes: torch.Tensor, eps: float = 1e-4) -> None:
     normal = F.normalize(torch.cross(e0, e1, dim=-1), dim=-1)
 
     # Check the fourth vertex is also on the same plane
-    mat1 = (v3 - v0).view(B, 1, -1)  # (B, 1, P*3)
-    mat2 = normal.view(B, -1, 1)  # (B, P*3, 1)
-    if not (mat1.bmm(mat2).abs() < eps).all().item():
+    dist = ((v3 - v0) * normal).sum(dim=-1)  # (B, P)
+    if not (dist.abs() < eps).all().item():
         msg = "Plane vertices are not coplanar"
         raise ValueError(msg)
 
-- 
2.43.0


From b6be7d80677f5b87bef7888782079b9131903f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:27 +0000
Subject: [PATCH 42/56] fix: cull faces by the coordinates of all of their
 vertices

---
 pytorch3d/renderer/mesh/clip.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 27b23b0..4991385 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -187,9 +187,14 @@ def _get_culled_faces(face_verts: torch.Tensor, frustum: ClipFrustum) -> torch.T
         # If clip_value is None then don't clip along that plane
         if frustum.cull and clip_value is not None:
             if op == "<":
-                verts_clipped = face_verts[:, axis] < clip_value
+                verts_clipped = face_verts[:, :, axis] < clip_value
             else:
-                verts_clipped = face_verts[:, axis] > clip_value
+                verts_clipped = face_verts[:, :, axis] > clip_value
+
+            if axis != 2:
+                # The projections of vertices behind the camera are mirrored,
+                # so they don't tell on which side of the plane the vertices are.
+                verts_clipped &= face_verts[:, :, 2] > 0
 
             # If all verts are clipped then face is outside the frustum
             faces_culled |= verts_clipped.sum(1) == 3
-- 
2.43.0


From 4e968c72883671fdf4d5181032f41cdf2a057f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:27 +0000
Subject: [PATCH 43/56] fix: cull to the frustum of images that are not square

---
 pytorch3d/renderer/mesh/rasterize_meshes.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index c2f7b34..8c6beab 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -161,11 +161,14 @@ def rasterize_meshes(
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The image spans more than [-1, 1] along the longer side if it is not square
+        x_max = non_square_ndc_range(im_size[1], im_size[0]) / 2.0
+        y_max = non_square_ndc_range(im_size[0], im_size[1]) / 2.0
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-x_max,
+            right=x_max,
+            top=-y_max,
+            bottom=y_max,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
@@ -436,11 +439,14 @@ def rasterize_meshes_python(  # noqa: C901
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The image spans more than [-1, 1] along the longer side if it is not square
+        x_max = non_square_ndc_range(W, H) / 2.0
+        y_max = non_square_ndc_range(H, W) / 2.0
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-x_max,
+            right=x_max,
+            top=-y_max,
+            bottom=y_max,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
-- 
2.43.0


From 17ed7b134bada66e67684b3605cdf6e58a05c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 44/56] fix: relative indices of obj files

---
 pytorch3d/io/obj_io.py | 61 ++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index e1862fc..fc07782 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -35,6 +35,11 @@ _Aux = namedtuple(
 )
 
 
+# Marks, while parsing, the indices of a property which a face does not have.
+# It is no valid relative index, unlike the -1 with which it is replaced.
+_MISSING_INDEX: int = -(2**62)
+
+
 def _format_faces_indices(faces_indices, max_index: int, device, pad_value=None):
     """
     Format indices and check for invalid values. Indices can refer to
@@ -42,12 +47,13 @@ def _format_faces_indices(faces_indices, max_index: int, device, pad_value=None)
     See comments of the load_obj function for more details.
 
     Args:
-        faces_indices: List of ints of indices.
+        faces_indices: List of ints of 0 based indices, as collected by
+            _parse_face.
         max_index: Max index for the face property.
-        pad_value: if any of the face_indices are padded, specify
+        pad_value: if any of the face_indices are missing, specify
             the value of the padding (e.g. -1). This is only used
-            for texture indices indices where there might
-            not be texture information for all the faces.
+            for the texture and normal indices where there might
+            not be information for all the faces.
 
     Returns:
         faces_indices: List of ints of indices.
@@ -59,20 +65,29 @@ def _format_faces_indices(faces_indices, max_index: int, device, pad_value=None)
         faces_indices, cols=3, dtype=torch.int64, device=device
     )
 
-    if pad_value is not None:
-        mask = faces_indices.eq(pad_value).all(dim=-1)
+    if pad_value is None:
+        return _check_faces_indices(faces_indices, max_index)
+
+    missing = faces_indices.eq(_MISSING_INDEX).all(dim=-1)
+    _check_faces_indices(faces_indices[~missing], max_index)
+    faces_indices[missing] = pad_value
+    return faces_indices
 
-    # Change to 0 based indexing.
-    faces_indices[(faces_indices > 0)] -= 1
 
-    # Negative indexing counts from the end.
-    faces_indices[(faces_indices < 0)] += max_index
+def _zero_based_index(index: str, count: int) -> int:
+    """
+    Convert an index of a face statement to a 0 based one.
 
-    if pad_value is not None:
-        # pyre-fixme[61]: `mask` is undefined, or not always defined.
-        faces_indices[mask] = pad_value
+    Args:
+        index: the index as written. It is 1 based; negative indexing counts
+            back from the last of the values seen so far.
+        count: number of values seen so far in the file.
 
-    return _check_faces_indices(faces_indices, max_index, pad_value)
+    Returns:
+        the 0 based index. If index is 0 or counts back too far, it is negative.
+    """
+    value = int(index)
+    return value + count if value < 0 else value - 1
 
 
 def load_obj(
@@ -371,6 +386,9 @@ def _parse_face(
     faces_normals_idx,
     faces_textures_idx,
     faces_materials_idx,
+    n_verts: int,
+    n_normals: int,
+    n_verts_uvs: int,
 ) -> None:
     face = tokens[1:]
     face_list = [f.split("/") for f in face]
@@ -380,14 +398,14 @@ def _parse_face(
 
     for vert_props in face_list:
         # Vertex index.
-        face_verts.append(int(vert_props[0]))
+        face_verts.append(_zero_based_index(vert_props[0], n_verts))
         if len(vert_props) > 1:
             if vert_props[1] != "":
                 # Texture index is present e.g. f 4/1/1.
-                face_textures.append(int(vert_props[1]))
+                face_textures.append(_zero_based_index(vert_props[1], n_verts_uvs))
             if len(vert_props) > 2:
                 # Normal index present e.g. 4/1/1 or 4//1.
-                face_normals.append(int(vert_props[2]))
+                face_normals.append(_zero_based_index(vert_props[2], n_normals))
             if len(vert_props) > 3:
                 raise ValueError(
                     "Face vertices can only have 3 properties. \
@@ -399,7 +417,7 @@ def _parse_face(
     # legal statement: f 4/1/1 3/2/1 2/1/1.
     # illegal statement: f 4/1/1 3//1 2//1.
     # If the face does not have normals or textures indices
-    # fill with pad value = -1. This will ensure that
+    # fill with a value which is later replaced by -1. This will ensure that
     # all the face index tensors will have F values where
     # F is the number of faces.
     if len(face_normals) > 0:
@@ -410,7 +428,7 @@ def _parse_face(
                 % (str(face), str(line))
             )
     else:
-        face_normals = [-1] * len(face_verts)  # Fill with -1
+        face_normals = [_MISSING_INDEX] * len(face_verts)
     if len(face_textures) > 0:
         if not (len(face_verts) == len(face_textures)):
             raise ValueError(
@@ -419,7 +437,7 @@ def _parse_face(
                 % (str(face), str(line))
             )
     else:
-        face_textures = [-1] * len(face_verts)  # Fill with -1
+        face_textures = [_MISSING_INDEX] * len(face_verts)
 
     # Subdivide faces with more than 3 vertices.
     # See comments of the load_obj function for more details.
@@ -502,6 +520,9 @@ def _parse_obj(f, data_dir: str):
                 faces_normals_idx,
                 faces_textures_idx,
                 faces_materials_idx,
+                n_verts=len(verts),
+                n_normals=len(normals),
+                n_verts_uvs=len(verts_uvs),
             )
 
     return (
-- 
2.43.0


From 963900063469313afd204f02b10d5847b3339611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 45/56] fix: read obj statements whose fields are separated by
 tabs

---
 pytorch3d/io/obj_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index fc07782..1b1f1e8 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -491,26 +491,26 @@ def _parse_obj(f, data_dir: str):
                 materials_idx = len(material_names) - 1
             else:
                 materials_idx = material_names.index(material_name)
-        elif line.startswith("v "):  # Line is a vertex.
+        elif tokens[:1] == ["v"]:  # Line is a vertex.
             vert = [float(x) for x in tokens[1:4]]
             if len(vert) != 3:
                 msg = "Vertex %s does not have 3 values. Line: %s"
                 raise ValueError(msg % (str(vert), str(line)))
             verts.append(vert)
-        elif line.startswith("vt "):  # Line is a texture.
+        elif tokens[:1] == ["vt"]:  # Line is a texture.
             tx = [float(x) for x in tokens[1:3]]
             if len(tx) != 2:
                 raise ValueError(
                     "Texture %s does not have 2 values. Line: %s" % (str(tx), str(line))
                 )
             verts_uvs.append(tx)
-        elif line.startswith("vn "):  # Line is a normal.
+        elif tokens[:1] == ["vn"]:  # Line is a normal.
             norm = [float(x) for x in tokens[1:4]]
             if len(norm) != 3:
                 msg = "Normal %s does not have 3 values. Line: %s"
                 raise ValueError(msg % (str(norm), str(line)))
             normals.append(norm)
-        elif line.startswith("f "):  # Line is a face.
+        elif tokens[:1] == ["f"]:  # Line is a face.
             # Update face properties info.
             _parse_face(
                 line,
-- 
2.43.0


From 323e79cddd0c6fec415d840c4252e233cd9a4de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 46/56] fix: round the texture maps saved with obj files

---
 pytorch3d/io/obj_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index 1b1f1e8..deeabb2 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -815,7 +815,7 @@ def save_obj(
 
         # Save texture map to output folder
         # pyre-fixme[16] # undefined attribute cpu
-        texture_map = texture_map.detach().cpu() * 255.0
+        texture_map = (texture_map.detach().cpu() * 255.0).round().clamp(0, 255)
         image = Image.fromarray(texture_map.numpy().astype(np.uint8))
         with _open_file(image_path, path_manager, "wb") as im_f:
             image.save(im_f)
-- 
2.43.0


From ab66ab9410e34e88ea47eb9c91811b77d4ff1c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 47/56] fix: ply vertices whose only data are coordinates in
 another order

---
 pytorch3d/io/ply_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index ec517b2..8d2f999 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -937,7 +937,8 @@ def _get_verts(header: _PlyHeader, elements: dict) -> _VertsData:
 
     # Simple case where the only data is the vertices themselves
     if (
-        len(vertex) == 1
+        column_idxs.point_idxs == [0, 1, 2]
+        and len(vertex) == 1
         and isinstance(vertex[0], np.ndarray)
         and vertex[0].ndim == 2
         and vertex[0].shape[1] == 3
-- 
2.43.0


From 24909e3a0a00c6a63af13599f61199bb04a190eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 48/56] fix: reject ply files which end within the header

---
 pytorch3d/io/ply_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 8d2f999..2a20379 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -161,6 +161,8 @@ class _PlyHeader:
         self.obj_info: List[str] = []
         while True:
             line = f.readline()
+            if len(line) == 0:
+                raise ValueError("Premature end of file in the header.")
             if isinstance(line, bytes):
                 line = line.decode("ascii")
             line = line.strip()
-- 
2.43.0


From d7f31a6172da242869345d17ec7334e7a25383bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 49/56] fix: float32 and float64 values next to lists in ascii
 ply files

---
 pytorch3d/io/ply_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 2a20379..28aeb6c 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -416,7 +416,7 @@ def _parse_heterogeneous_property_ascii(datum, line_iter, property: _Property):
         raise ValueError("Too little data for an element.")
     if property.list_size_type is None:
         try:
-            if property.data_type in ["double", "float"]:
+            if _PLY_TYPES[property.data_type].np_type in [np.float32, np.float64]:
                 datum.append(float(value))
             else:
                 datum.append(int(value))
-- 
2.43.0


From eb9cc78972af2e98facfddb85f3a8b1dbd00594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 50/56] fix: save ply files with empty normals

---
 pytorch3d/io/ply_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 28aeb6c..e2f99a5 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -1363,6 +1363,9 @@ def save_ply(
         message = "Argument 'verts_normals' should either be empty or of shape (num_verts, 3)."
         raise ValueError(message)
 
+    if verts_normals is not None and len(verts_normals) == 0:
+        verts_normals = None
+
     if path_manager is None:
         path_manager = PathManager()
     with _open_file(f, path_manager, "wb") as f:
-- 
2.43.0


From aab30d60751289e3a6de7ccbb6cc7301113f1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:17 +0000
Subject: [PATCH 51/56] fix: reject off files which end before their counts

---
 pytorch3d/io/off_io.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 0ef4049..a28031f 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -36,18 +36,25 @@ def _is_line_empty(line: Union[str, bytes]) -> bool:
     return len(line) == 0 or line[:1] == b"#"
 
 
-def _count_next_line_periods(file) -> int:
+def _read_meaningful_line(file) -> bytes:
     """
-    Returns the number of . characters before any # on the next
-    meaningful line.
+    Read lines up to the first which is relevant, and return it.
     """
-    old_offset = file.tell()
     line = file.readline()
     while _is_line_empty(line):
-        line = file.readline()
         if len(line) == 0:
             raise ValueError("Premature end of file")
+        line = file.readline()
+    return line
+
 
+def _count_next_line_periods(file) -> int:
+    """
+    Returns the number of . characters before any # on the next
+    meaningful line.
+    """
+    old_offset = file.tell()
+    line = _read_meaningful_line(file)
     contents = line.split(b"#")[0]
     count = contents.count(b".")
     file.seek(old_offset)
@@ -232,16 +239,13 @@ def _load_off_stream(file) -> dict:
         faces: LongTensor of vertex indices, split into triangles, shape (F, 3).
         faces_colors: FloatTensor of shape (F, C), where C is 3 or 4.
     """
-    header = file.readline()
-
-    while _is_line_empty(header):
-        header = file.readline()
+    header = _read_meaningful_line(file)
 
     if header[:3].lower() == b"off":
         header = header[3:]
 
-    while _is_line_empty(header):
-        header = file.readline()
+    if _is_line_empty(header):
+        header = _read_meaningful_line(file)
 
     items = header.split()
     if len(items) < 3:
-- 
2.43.0


From 18fc08a05784f7251367cfdc2a5773a3d269bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:17 +0000
Subject: [PATCH 52/56] fix: tell integer colors of off vertices from the
 colors alone

---
 pytorch3d/io/off_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index a28031f..67f34cf 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -48,15 +48,15 @@ def _read_meaningful_line(file) -> bytes:
     return line
 
 
-def _count_next_line_periods(file) -> int:
+def _count_next_line_periods(file, skip_values: int = 0) -> int:
     """
     Returns the number of . characters before any # on the next
-    meaningful line.
+    meaningful line, after the given number of values.
     """
     old_offset = file.tell()
     line = _read_meaningful_line(file)
     contents = line.split(b"#")[0]
-    count = contents.count(b".")
+    count = sum(value.count(b".") for value in contents.split()[skip_values:])
     file.seek(old_offset)
     return count
 
@@ -187,7 +187,7 @@ def _read_verts(file, n_verts: int) -> Tuple[np.ndarray, Optional[np.ndarray]]:
         vertex colors.
     """
 
-    color_is_int = 3 == _count_next_line_periods(file)
+    color_is_int = 0 == _count_next_line_periods(file, skip_values=3)
     color_scale = 1 / 255.0 if color_is_int else 1
 
     with warnings.catch_warnings():
-- 
2.43.0


From 6b0f41431ffba4ae8dd8b54f771fa52d273afbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:17 +0000
Subject: [PATCH 53/56] fix: off faces with large vertex indices

---
 pytorch3d/io/off_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 67f34cf..b8ed045 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -90,7 +90,7 @@ def _read_faces_lump(
             warnings.filterwarnings(
                 "ignore", message=".* Empty input file.*", category=UserWarning
             )
-            data = np.loadtxt(file, dtype=np.float32, ndmin=2, max_rows=n_faces)
+            data = np.loadtxt(file, dtype=np.float64, ndmin=2, max_rows=n_faces)
     except ValueError as e:
         if n_faces > 1 and "number of columns" in e.args[0]:
             file.seek(old_offset)
@@ -124,7 +124,7 @@ def _read_faces_lump(
 
     if n_colors == 0:
         return face_data, 0, None
-    colors = data[:, 1 + face_size :]
+    colors = data[:, 1 + face_size :].astype(np.float32)
     if face_size == 3:
         return face_data, n_colors, colors
     return face_data, n_colors, np.tile(colors, (face_size - 2, 1))
-- 
2.43.0


From 0e06f9bc3bfd2a4d94e29bea09f4e9de0b7c0ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:17 +0000
Subject: [PATCH 54/56] fix: report invalid indices in the faces of off files

---
 pytorch3d/io/off_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index b8ed045..f212436 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -444,6 +444,7 @@ class MeshOffFormat(MeshFormatInterpreter):
         verts = torch.from_numpy(data["verts"]).to(device)
         if "faces" in data:
             faces = torch.from_numpy(data["faces"]).to(dtype=torch.int64, device=device)
+            _check_faces_indices(faces, max_index=verts.shape[0])
         else:
             faces = torch.zeros((0, 3), dtype=torch.int64, device=device)
 
-- 
2.43.0


From c6130cefba95dabdaf18f791e7bb179304397368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:17 +0000
Subject: [PATCH 55/56] fix: load off files without vertices

---
 pytorch3d/io/off_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index f212436..3f987ab 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -187,6 +187,9 @@ def _read_verts(file, n_verts: int) -> Tuple[np.ndarray, Optional[np.ndarray]]:
         vertex colors.
     """
 
+    if n_verts == 0:
+        return np.zeros((0, 3), dtype=np.float32), None
+
     color_is_int = 0 == _count_next_line_periods(file, skip_values=3)
     color_scale = 1 / 255.0 if color_is_int else 1
 
-- 
2.43.0


From f8fbb088fb76e696ba13db43d8b1839a2aa38ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:32 +0000
Subject: [PATCH 56/56] fix: save the normals of meshes without faces to ply

---
 pytorch3d/io/ply_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index e2f99a5..5d88701 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -1457,7 +1457,7 @@ class MeshPlyFormat(MeshFormatInterpreter):
         faces = data.faces_list()[0]
 
         if data.has_verts_normals():
-            verts_normals = data.verts_normals_list()[0]
+            verts_normals = data.verts_normals_packed()
         else:
             verts_normals = None
 
-- 
2.43.0

