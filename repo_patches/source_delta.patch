From d129e62a18c5a0cbe5b922983f4c16ab1b910363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 01/37] fix: RGBDImages.depth_image setter failed with
 AttributeError

__init__ stored the expected shape as _depth_shape but the setter (and the
layout conversions) use _depth_image_shape.
---
 gradslam/structures/rgbdimages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4ab0011..4a08d94 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -118,7 +118,7 @@ class RGBDImages(object):
             raise ValueError(msg)
 
         self._rgb_image_shape = rgb_image.shape
-        self._depth_shape = tuple(
+        self._depth_image_shape = tuple(
             v if i != self.cdim else 1 for i, v in enumerate(rgb_image.shape)
         )
         self._intrinsics_shape = (rgb_image.shape[0], 1, 4, 4)
@@ -133,9 +133,9 @@ class RGBDImages(object):
         if rgb_image.shape[self.cdim] != 3:
             msg = "Expected rgb_image to have 3 channels on dimension {0}. Got {1} instead"
             raise ValueError(msg.format(self.cdim, rgb_image.shape[self.cdim]))
-        if depth_image.shape != self._depth_shape:
+        if depth_image.shape != self._depth_image_shape:
             msg = "Expected depth_image to have shape {0}. Got {1} instead"
-            raise ValueError(msg.format(self._depth_shape, depth_image.shape))
+            raise ValueError(msg.format(self._depth_image_shape, depth_image.shape))
         if intrinsics.shape != self._intrinsics_shape:
             msg = "Expected intrinsics to have shape {0}. Got {1} instead"
             raise ValueError(msg.format(self._intrinsics_shape, intrinsics.shape))
-- 
2.43.0


From 8cdf88fe27ef8cf54bd12587c71b9f0f367180ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 02/37] fix: RGBDImages.valid_depth_mask went stale after
 setting depth or converting the layout

The cached mask was neither dropped by the depth_image setter nor permuted by
to_channels_first_/to_channels_last_, so maps derived later used a wrong mask.
---
 gradslam/structures/rgbdimages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4a08d94..d077d60 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -423,6 +423,7 @@ class RGBDImages(object):
         if value is not None:
             self._assert_shape(value, self._depth_image_shape)
         self._depth_image = value
+        self._valid_depth_mask = None
         self._vertex_map = None
         self._normal_map = None
         self._global_vertex_map = None
@@ -584,6 +585,7 @@ class RGBDImages(object):
         permute = RGBDImages._permute_if_not_None
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
@@ -606,6 +608,7 @@ class RGBDImages(object):
         permute = RGBDImages._permute_if_not_None
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
-- 
2.43.0


From 409a51c35398e1ae098b5078e88091389df60f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 03/37] fix: RGBDImages.to(copy=True) returned a copy sharing
 all tensors with the source

---
 gradslam/structures/rgbdimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index d077d60..a361ac2 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -519,7 +519,7 @@ class RGBDImages(object):
         other.device = device
 
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.to(device))
 
-- 
2.43.0


From 54a9ef06b3ba4b69b1f62f46a59792e21eb57fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 04/37] fix: RGBDImages indexing rejected documented slices,
 lists, boolean tensors and 1-tuples

---
 gradslam/structures/rgbdimages.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index a361ac2..7d91614 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -191,18 +191,15 @@ class RGBDImages(object):
         Returns:
             gradslam.RGBDImages: Selected rgbdimages. The rgbdimages tensors are not cloned.
         """
-        if isinstance(index, tuple) or isinstance(index, int):
-            _index_slices = ()
-            if isinstance(index, int):
-                _index_slices += (slice(index, index + 1),) + (slice(None, None),)
-            elif len(index) > 2:
+        if isinstance(index, (int, slice, list)) or torch.is_tensor(index):
+            index = (index,)
+        if isinstance(index, tuple):
+            if len(index) > 2:
                 raise IndexError("Only batch and sequences can be indexed")
-            elif isinstance(index, tuple):
-                for x in index:
-                    if isinstance(x, int):
-                        _index_slices += (slice(x, x + 1),)
-                    else:
-                        _index_slices += (x,)
+            _index_slices = tuple(
+                slice(x, x + 1) if isinstance(x, int) else x for x in index
+            )
+            _index_slices += (slice(None, None),) * (2 - len(index))
 
             new_rgb = self._rgb_image[_index_slices[0], _index_slices[1]]
             if new_rgb.shape[0] == 0:
-- 
2.43.0


From db332e594564477a06aee7ff19be3558fcf9d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 05/37] fix: Pointclouds list setters left stale or dropped
 padded representations

The normals/colors/features list setters reset a misspelled attribute, and
_compute_padded only ran (for every attribute) when the points were missing,
so padded views disagreed with the lists or vanished.
---
 gradslam/structures/pointclouds.py | 52 ++++++++----------------------
 1 file changed, 13 insertions(+), 39 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 0dc49cd..b42fe7f 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -847,7 +847,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._normals_padded = None
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -861,7 +861,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._colors_padded = None
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -875,7 +875,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._features_padded = None
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -954,45 +954,19 @@ class Pointclouds(object):
         if not self.has_points:
             return
 
-        if not (refresh or self._points_padded is None):
-            return
-
-        self._points_padded = structutils.list_to_padded(
-            self._points_list,
-            (self._N, 3),
-            pad_value=0.0,
-            equisized=self.equisized,
-        )
-        self._normals_padded = (
-            None
-            if self._normals_list is None
-            else structutils.list_to_padded(
-                self._normals_list,
-                (self._N, 3),
+        for attr in ["points", "normals", "colors", "features"]:
+            list_repr = getattr(self, "_{}_list".format(attr))
+            padded_repr = getattr(self, "_{}_padded".format(attr))
+            # nothing to compute from, or already up to date
+            if list_repr is None or not (refresh or padded_repr is None):
+                continue
+            padded_repr = structutils.list_to_padded(
+                list_repr,
+                (self._N, list_repr[0].shape[-1]),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
-        self._colors_padded = (
-            None
-            if self._colors_list is None
-            else structutils.list_to_padded(
-                self._colors_list,
-                (self._N, 3),
-                pad_value=0.0,
-                equisized=self.equisized,
-            )
-        )
-        self._features_padded = (
-            None
-            if self._features_list is None
-            else structutils.list_to_padded(
-                self._features_list,
-                (self._N, self.num_features),
-                pad_value=0.0,
-                equisized=self.equisized,
-            )
-        )
+            setattr(self, "_{}_padded".format(attr), padded_repr)
 
     def clone(self):
         r"""Returns deep copy of Pointclouds object. All internal tensors are cloned individually.
-- 
2.43.0


From c0f43fcee463a90f77451b7fa61377a033ee3f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 06/37] fix: Pointclouds.clone of a padded cloud forgot which
 points are padding

A clone made from the padded representation was marked equisized, so its
nonpad_mask (and everything masked by it) covered padding of shorter clouds;
attributes held only as lists were dropped.
---
 gradslam/structures/pointclouds.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index b42fe7f..87affd0 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -994,15 +994,15 @@ class Pointclouds(object):
                 else [f.clone() for f in self._features_list]
             )
         elif self._points_padded is not None:
-            new_points = self._points_padded.clone()
+            new_points = self.points_padded.clone()
             new_normals = (
-                None if self._normals_padded is None else self._normals_padded.clone()
+                None if self.normals_padded is None else self.normals_padded.clone()
             )
             new_colors = (
-                None if self._colors_padded is None else self._colors_padded.clone()
+                None if self.colors_padded is None else self.colors_padded.clone()
             )
             new_features = (
-                None if self._features_padded is None else self._features_padded.clone()
+                None if self.features_padded is None else self.features_padded.clone()
             )
 
         other = Pointclouds(
@@ -1015,6 +1015,9 @@ class Pointclouds(object):
             v = getattr(self, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.clone())
+        # a padded representation alone does not tell how many points are padding
+        other._N = self._N
+        other.equisized = self.equisized
         return other
 
     def detach(self):
-- 
2.43.0


From 8629a1c604488bfeafccb12c543f308dcda89bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 07/37] fix: Pointclouds has_normals/has_colors/has_features
 went stale when an attribute was assigned

---
 gradslam/structures/pointclouds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 87affd0..4c89b9f 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -848,6 +848,7 @@ class Pointclouds(object):
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
         self._normals_padded = None
+        self._has_normals = True
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -862,6 +863,7 @@ class Pointclouds(object):
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
         self._colors_padded = None
+        self._has_colors = True
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -876,6 +878,7 @@ class Pointclouds(object):
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
         self._features_padded = None
+        self._has_features = True
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -910,6 +913,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._normals_padded = value.clone().to(self.device)
         self._normals_list = None
+        self._has_normals = True
 
     @colors_padded.setter
     def colors_padded(self, value: torch.Tensor):
@@ -927,6 +931,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._colors_padded = value.clone().to(self.device)
         self._colors_list = None
+        self._has_colors = True
 
     @features_padded.setter
     def features_padded(self, value: torch.Tensor):
@@ -944,6 +949,7 @@ class Pointclouds(object):
         self._assert_set_padded(value, first_2_dims_only=True)
         self._features_padded = value.clone().to(self.device)
         self._features_list = None
+        self._has_features = True
 
     def _compute_padded(self, refresh: bool = False):
         r"""Computes the padded version of pointclouds.
-- 
2.43.0


From de435b4d9ccf816b50ecd0e8bd701381662c2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 08/37] fix: inverse_transfom_3d and compose_transforms_3d were
 wrong for batches of transforms

---
 gradslam/geometry/geometryutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index f594540..3f7749e 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -230,7 +230,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
 
     # Compute the inverse
     rmat_inv: torch.Tensor = torch.transpose(rmat, -1, -2)
-    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec)
+    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec.unsqueeze(-1)).squeeze(-1)
 
     # Pack the inverse rotation and translation into tensor
     trans_inv: torch.Tensor = torch.zeros_like(trans)
@@ -290,7 +290,9 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
 
     # Compute the composition
     rmat_cat: torch.Tensor = torch.matmul(rmat1, rmat2)
-    tvec_cat: torch.Tensor = torch.matmul(rmat1, tvec2) + tvec1
+    tvec_cat: torch.Tensor = (
+        torch.matmul(rmat1, tvec2.unsqueeze(-1)).squeeze(-1) + tvec1
+    )
 
     # Pack into output tensor
     trans_cat: torch.Tensor = torch.zeros_like(trans1)
-- 
2.43.0


From 376e308cdb8777e41d5ea7975adc7422d5f3494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 09/37] fix: transform_pts_3d returned an empty tensor for N x
 3 points

---
 gradslam/geometry/geometryutils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 3f7749e..40c24cb 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -349,12 +349,7 @@ def transform_pts_3d(pts_b: torch.Tensor, t_ab: torch.Tensor) -> torch.Tensor:
 
     # Apply the transformation
 
-    if pts_b.dim() == 4:
-        pts_a_homo = torch.matmul(
-            t_ab.unsqueeze(0).unsqueeze(0), pts_b.unsqueeze(-1)
-        ).squeeze(-1)
-    else:
-        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1))
+    pts_a_homo = torch.matmul(t_ab, pts_b.unsqueeze(-1)).squeeze(-1)
     pts_a = unhomogenize_points(pts_a_homo)
 
     return pts_a[..., :3]
-- 
2.43.0


From e9b409e0fc5d38da71a052d9c23f70e06ff8d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 10/37] fix: RGBDImages.detach returned an object sharing its
 tensors with the source

---
 gradslam/structures/rgbdimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 7d91614..5067fe7 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -468,7 +468,7 @@ class RGBDImages(object):
         """
         other = self.clone()
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
 
-- 
2.43.0


From b6a55c29c151372b4e8c4568e0d12a5d06468f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 11/37] fix: Pointclouds.detach/to shared padded tensors with
 the source; to('cpu') copied needlessly

---
 gradslam/structures/pointclouds.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 4c89b9f..59e3515 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1042,7 +1042,7 @@ class Pointclouds(object):
         if other._features_list is not None:
             other._features_list = [f.detach() for f in other._features_list]
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
         return other
@@ -1060,13 +1060,14 @@ class Pointclouds(object):
         Returns:
             gradslam.Pointclouds
         """
+        # hack to know which gpu is used when device("cuda")
+        device = torch.Tensor().to(device).device
         if not copy and self.device == device:
             return self
 
         other = self.clone()
         if self.device != device:
-            # hack to know which gpu is used when device("cuda")
-            other.device = torch.Tensor().to(device).device
+            other.device = device
             if other._points_list is not None:
                 other._points_list = [p.to(device) for p in other._points_list]
             if other._normals_list is not None:
@@ -1076,7 +1077,7 @@ class Pointclouds(object):
             if other._features_list is not None:
                 other._features_list = [f.to(device) for f in other._features_list]
             for k in self._INTERNAL_TENSORS:
-                v = getattr(self, k)
+                v = getattr(other, k)
                 if torch.is_tensor(v):
                     setattr(other, k, v.to(device))
         return other
-- 
2.43.0


From bc2004ab63543e47b3faa8075316e58256c78f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 12/37] fix: unhomogenize_points had NaN gradients for points
 at infinity

---
 gradslam/geometry/geometryutils.py | 3 ++-
 gradslam/geometry/projutils.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 40c24cb..aa363b6 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -71,7 +71,8 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    # (masked before dividing, so that gradients stay finite at infinity too)
+    scale: torch.Tensor = 1.0 / torch.where(torch.abs(w) > eps, w, torch.ones_like(w))
 
     return scale * pts[..., :-1]
 
diff --git a/gradslam/geometry/projutils.py b/gradslam/geometry/projutils.py
index c02a8d6..9939578 100644
--- a/gradslam/geometry/projutils.py
+++ b/gradslam/geometry/projutils.py
@@ -84,7 +84,8 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    # (masked before dividing, so that gradients stay finite at infinity too)
+    scale: torch.Tensor = 1.0 / torch.where(torch.abs(w) > eps, w, torch.ones_like(w))
 
     return scale * pts[..., :-1]
 
-- 
2.43.0


From d07366e20176028672cd3d1607da0ab3af26f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 13/37] fix: pointquaternion_to_homogeneous normalised the
 caller's float tensor in place

---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 5e2f3f2..9e3e348 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -177,7 +177,7 @@ def pointquaternion_to_homogeneous(
         )
 
     q_norm = (0.5 * (q ** 2).sum(-1)[..., None]) ** 0.5
-    q /= (
+    q = q / (
         torch.max(q_norm, torch.tensor(eps))
         if torch.is_tensor(q_norm)
         else np.maximum(q_norm, eps)
-- 
2.43.0


From a77512c629e16b03e3b5390c18b53fa198bafd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 14/37] fix: transform44 raised TypeError for a (near) zero
 quaternion

---
 gradslam/datasets/tumutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 156068e..f4d2de8 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -73,9 +73,10 @@ def transform44(l: tuple):
     if nq < _EPS:
         return np.array(
             (
-                (1.0, 0.0, 0.0, t[0])(0.0, 1.0, 0.0, t[1])(0.0, 0.0, 1.0, t[2])(
-                    0.0, 0.0, 0.0, 1.0
-                )
+                (1.0, 0.0, 0.0, t[0]),
+                (0.0, 1.0, 0.0, t[1]),
+                (0.0, 0.0, 1.0, t[2]),
+                (0.0, 0.0, 0.0, 1.0),
             ),
             dtype=np.float64,
         )
-- 
2.43.0


From 01bdea3cc4686bbb0a7f735a453f42a644558fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 15/37] fix: read_trajectory raised NameError on a line with
 NaNs

---
 gradslam/datasets/tumutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index f4d2de8..d4bc5ab 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -43,10 +43,11 @@ images to depth images.
 This script contains helpers for reading the time stamps from e.g. the "rgb.txt" file and the "depth.txt" file, 
 and joining them by finding the best matches.
 """
+import sys
+import warnings
 from typing import Optional
 
 import numpy as np
-import warnings
 
 __all__ = ["read_trajectory", "read_file_list", "associate"]
 
-- 
2.43.0


From d97a10455c04abda7ed4743ecf405fd9d61b048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 16/37] fix: associate ordered its matches alphabetically
 instead of by time

---
 gradslam/datasets/tumutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index d4bc5ab..00298b4 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -214,5 +214,6 @@ def associate(
             second_keys.remove(b)
             matches.append((a, b))
 
-    matches.sort()
+    # by time (the stamps are strings)
+    matches.sort(key=lambda match: float(match[0]))
     return matches
-- 
2.43.0


From 9f7b1faaefa450671796aff143486cb81755be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 17/37] fix: fuse_with_map(inplace=False) modified the given
 map

---
 gradslam/slam/fusionutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index b5d89a2..badab24 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -650,6 +650,9 @@ def fuse_with_map(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
 
+    if not inplace:
+        pointclouds = pointclouds.clone()
+
     # Fuse points (from live frame) with corresponding global map points
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
@@ -715,8 +718,6 @@ def fuse_with_map(
     new_pointclouds = Pointclouds(
         points=new_points, normals=new_normals, colors=new_colors, features=new_features
     )
-    if not inplace:
-        pointclouds = pointclouds.clone()
     pointclouds.append_points(new_pointclouds)
 
     return pointclouds
-- 
2.43.0


From 6be03a77d1abe3f5ec63b0604cd159a607f81ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 18/37] fix: fusion and downsampling misread channels-first
 frames

---
 gradslam/odometry/icputils.py | 1 +
 gradslam/slam/fusionutils.py  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index b7ecc42..8bb5cf4 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -651,6 +651,7 @@ def downsample_rgbdimages(rgbdimages: RGBDImages, ds_ratio: int) -> Pointclouds:
     B = len(rgbdimages)
 
     # Valid depths mask
+    rgbdimages = rgbdimages.to_channels_last()
     mask = rgbdimages.valid_depth_mask.squeeze(-1)[..., ::ds_ratio, ::ds_ratio]
 
     # Downsample points and normals
diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index badab24..2873359 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -378,6 +378,7 @@ def find_similar_map_points(
             "Pointclouds must have normals for finding similar map points, but did not."
         )
 
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
 
@@ -492,6 +493,7 @@ def find_best_unique_correspondences(
         pointclouds.features_padded[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]] + 1e-20
     )  # shape: [P 1]
     # compute ray dist
+    rgbdimages = rgbdimages.to_channels_last()
     frame_points = rgbdimages.global_vertex_map[
         pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]
     ]
@@ -654,6 +656,7 @@ def fuse_with_map(
         pointclouds = pointclouds.clone()
 
     # Fuse points (from live frame) with corresponding global map points
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
     rgb_image = rgbdimages.rgb_image
-- 
2.43.0


From 10a8fd45632c20a8022d6b2150819fa4538bdf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 19/37] fix: ICP rejected the documented initial_transform=None
 with an AttributeError

---
 gradslam/odometry/icputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 8bb5cf4..2a3bf59 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -295,13 +295,13 @@ def point_to_plane_ICP(
         raise TypeError(
             "Expected numiters to be of type int. Got {0}.".format(type(numiters))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and initial_transform.shape != (4, 4):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
@@ -464,13 +464,13 @@ def point_to_plane_gradICP(
         raise TypeError(
             "Expected nu to be of type float or int; got {0}".format(type(nu))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and initial_transform.shape != (4, 4):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
-- 
2.43.0


From 8a5590317dd8caf1846690cd6f5e4460404b1a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 20/37] fix: ICP with no iterations raised UnboundLocalError

---
 gradslam/odometry/icputils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 2a3bf59..af7906b 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -322,6 +322,10 @@ def point_to_plane_ICP(
     )
     src_pc = transform_pointcloud(src_pc[0], initial_transform).unsqueeze(0)
     transform = initial_transform
+    if numiters <= 0:
+        _, _, chamfer_indices = gauss_newton_solve(
+            src_pc, tgt_pc, tgt_normals, dist_thresh
+        )
 
     for it in range(numiters):
         # Form the linear system and compute the residual
@@ -492,6 +496,10 @@ def point_to_plane_gradICP(
     )
     src_pc = transform_pointcloud(src_pc[0], initial_transform).unsqueeze(0)
     transform = initial_transform
+    if numiters <= 0:
+        _, _, chamfer_indices = gauss_newton_solve(
+            src_pc, tgt_pc, tgt_normals, dist_thresh
+        )
 
     for it in range(numiters):
         # Form the linear system and compute the residual
-- 
2.43.0


From 6bb21297466b4bf6f15521c2ae6366ee7f5d8ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 21/37] fix: gauss_newton_solve compared its distance threshold
 with squared distances

---
 gradslam/odometry/icputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index af7906b..243bedb 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -203,7 +203,7 @@ def gauss_newton_solve(
     dist_filter = (
         torch.ones_like(dist1[0], dtype=torch.bool)
         if dist_thresh is None
-        else dist1[0] < dist_thresh
+        else dist1[0].sqrt() < dist_thresh  # knn distances are squared
     )
     chamfer_indices = idx1[0][dist_filter].long()
 
-- 
2.43.0


From c73be3f5d16483c7c8bdbcb7199829e95c697435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 22/37] fix: out-of-place ICPSLAM.step overwrote the poses of
 the live frame

---
 gradslam/slam/icpslam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index ea337f7..95fee09 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -173,6 +173,8 @@ class ICPSLAM(nn.Module):
                     type(live_frame)
                 )
             )
+        if not inplace:
+            live_frame = live_frame.clone()
         live_frame.poses = self._localize(pointclouds, live_frame, prev_frame)
         pointclouds = self._map(pointclouds, live_frame, inplace)
         return pointclouds, live_frame.poses
-- 
2.43.0


From 54366beef6a1ec255a836aa36997fddf4ff2b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:25 +0000
Subject: [PATCH 23/37] fix: Scannet sequences of different lengths each serve
 their own frames

---
 gradslam/datasets/scannet.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 9871eb6..8c854a7 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -113,7 +113,8 @@ class Scannet(data.Dataset):
                     end, start
                 )
             )
-        self.seqlen = self.end - self.start
+        # Scenes have different lengths: full sequences have no common sequence length
+        self.seqlen = None if full_sequence else self.end - self.start
 
         # scenes should be a tuple
         if isinstance(scenes, str):
@@ -141,13 +142,11 @@ class Scannet(data.Dataset):
             seq_labelfiles, seq_intrinsicsfiles = [], []
             with open(seqmetapath, "r") as f:
                 lines = f.readlines()
-                if full_sequence:
-                    self.end = len(lines)
-                    self.seqlen = self.end - self.start
-                if self.seqlen > len(lines):
-                    msg = "sequence length can't be larger than dataset sequence length but it was: %r > %r"
-                    raise ValueError(msg % (self.seqlen, len(lines)))
-                lines = lines[self.start : self.end]
+                end_frame = len(lines) if full_sequence else self.end
+                if self.start >= end_frame or end_frame > len(lines):
+                    msg = "frames [%r, %r) are not in dataset sequence, which has length %r"
+                    raise ValueError(msg % (self.start, end_frame, len(lines)))
+                lines = lines[self.start : end_frame]
 
             for line in lines:
                 line = line.strip().split()
@@ -228,7 +227,7 @@ class Scannet(data.Dataset):
 
         color_seq, depth_seq, pose_seq, label_seq = [], [], [], []
         poses = []
-        for i in range(self.seqlen):
+        for i in range(len(color_seq_path)):
             color = np.asarray(imageio.imread(color_seq_path[i]), dtype=float)
             color = self._preprocess_color(color)
             color = torch.from_numpy(color)
-- 
2.43.0


From 68eaafd9f4e5d25f13aca2a7b9e1673ff7892ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 24/37] fix: ICL reads the poses of the frames it serves when
 start is given, and rejects missing poses

---
 gradslam/datasets/icl.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index a1f5e1c..2df6017 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -335,18 +335,19 @@ class ICL(data.Dataset):
                 )
 
                 if self.load_poses:
-                    if line_num * 4 > len_posesfile:
+                    # line_num counts from frame `start`; each pose takes 3 lines and a blank one
+                    frame_num = start + line_num
+                    if frame_num * 4 + 3 > len_posesfile:
                         msg = '{0}th pose should start from line {1} of file "{2}", but said file has only {3} lines.'
                         raise ValueError(
                             msg.format(
-                                line_num,
-                                line_num * 4,
+                                frame_num,
+                                frame_num * 4,
                                 os.path.join(*posesfile.split(os.sep)[-2:]),
                                 len_posesfile,
                             )
                         )
-                    traj_poselinenums.append(line_num * 4)
-
+                    traj_poselinenums.append(frame_num * 4)
                 traj_framenames.append(
                     os.path.join(trajectory_name, line[1][6:].split(".")[0])
                 )
-- 
2.43.0


From 1f5810cb3e206afe1f8f6907aa6cf47603e42810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 25/37] fix: merging a node from an override list replaced the
 whole node

---
 gradslam/config/cfgnode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 661eda1..f160fe4 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -233,7 +233,11 @@ class CfgNode(dict):
             _assert_with_logging(subkey in d, "Non-existent key: {}".format(full_key))
             value = self._decode_cfg_value(v)
             value = _check_and_coerce_cfg_value_type(value, d[subkey], subkey, full_key)
-            d[subkey] = value
+            if isinstance(value, CfgNode):
+                # Merge into the existing node: replacing it would drop its keys and take unknown ones
+                _merge_a_into_b(value, d[subkey], root, key_list)
+            else:
+                d[subkey] = value
 
     def freeze(self):
         r"""Make this `CfgNode` and all of its children immutable. """
-- 
2.43.0


From 1f5616214f62985e7d0bb1d28a7eeedf5b603231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 26/37] fix: merging changed frozen config nodes

---
 gradslam/config/cfgnode.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index f160fe4..c1e13ae 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -237,6 +237,7 @@ class CfgNode(dict):
                 # Merge into the existing node: replacing it would drop its keys and take unknown ones
                 _merge_a_into_b(value, d[subkey], root, key_list)
             else:
+                _assert_not_frozen(d, full_key)
                 d[subkey] = value
 
     def freeze(self):
@@ -453,8 +454,10 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
                 except BaseException:
                     raise
             else:
+                _assert_not_frozen(b, full_key)
                 b[k] = v
         elif b.is_new_allowed():
+            _assert_not_frozen(b, full_key)
             b[k] = v
         else:
             if root.key_is_deprecated(full_key):
@@ -497,6 +500,14 @@ def _check_and_coerce_cfg_value_type(replacement, original, key, full_key):
     )
 
 
+def _assert_not_frozen(cfg_node: CfgNode, full_key: str):
+    r"""Merging must not get around `CfgNode.freeze`. """
+    if cfg_node.is_frozen():
+        raise AttributeError(
+            "Attempted to merge {}, but CfgNode is immutable".format(full_key)
+        )
+
+
 def _assert_with_logging(cond, msg):
     if not cond:
         logger.debug(msg)
-- 
2.43.0


From d29213c7da7626af4e382f1dbe8f5ec1043cdcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 27/37] fix: quaternion_to_axisangle had NaN gradients (and a
 wrong sign for w < 0) at zero rotation

---
 gradslam/geometry/geometryutils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index aa363b6..3f3ef13 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -105,7 +105,11 @@ def quaternion_to_axisangle(quat: torch.Tensor) -> torch.Tensor:
     qy: torch.Tensor = quat[..., 1]
     qz: torch.Tensor = quat[..., 2]
     sin_sq_theta: torch.Tensor = qx * qx + qy * qy + qz * qz
-    sin_theta: torch.Tensor = torch.sqrt(sin_sq_theta)
+    nonzero: torch.Tensor = sin_sq_theta > 0.0
+    # sqrt has no finite gradient at 0: keep it (and the division) off that branch
+    sin_theta: torch.Tensor = torch.sqrt(
+        torch.where(nonzero, sin_sq_theta, torch.ones_like(sin_sq_theta))
+    )
     cos_theta: torch.Tensor = quat[..., 3]
     two_theta: torch.Tensor = 2.0 * torch.where(
         cos_theta < 0.0,
@@ -114,8 +118,12 @@ def quaternion_to_axisangle(quat: torch.Tensor) -> torch.Tensor:
     )
 
     k_pos: torch.Tensor = two_theta / sin_theta
-    k_neg: torch.Tensor = 2.0 * torch.ones_like(sin_theta)
-    k: torch.Tensor = torch.where(sin_sq_theta > 0.0, k_pos, k_neg)
+    k_neg: torch.Tensor = torch.where(
+        cos_theta < 0.0,
+        -2.0 * torch.ones_like(sin_theta),
+        2.0 * torch.ones_like(sin_theta),
+    )
+    k: torch.Tensor = torch.where(nonzero, k_pos, k_neg)
 
     axisangle: torch.Tensor = torch.zeros_like(quat)[..., :3]
     axisangle[..., 0] = qx * k
-- 
2.43.0


From 1aced16a6cb1a3fac96eef3ea73e6945ddc469d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 28/37] fix: pixels without valid neighbors got a unit normal
 made of rounding errors

---
 gradslam/structures/rgbdimages.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 5067fe7..ad6e890 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -741,6 +741,11 @@ class RGBDImages(object):
         self._normal_map = self._normal_map * self.valid_depth_mask.to(
             self._normal_map.dtype
         )
+        # equal tangents (both neighbors missing) have no normal, only the normalized
+        # rounding error of their cross product
+        self._normal_map = self._normal_map * (dhoriz != dverti).any(dim, True).to(
+            self._normal_map.dtype
+        )
 
     def _compute_global_normal_map(self):
         r"""Coverts a batch of local noraml maps into a batch of global normal maps."""
-- 
2.43.0


From 22db6c9cb72776b89db087254d4c4b613e137930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:42 +0000
Subject: [PATCH 29/37] fix: small-angle branch of se3_exp linearised V as I +
 w^ instead of I + w^/2 (wrong gradient at zero rotation)

---
 gradslam/geometry/se3utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/geometry/se3utils.py b/gradslam/geometry/se3utils.py
index e2fd57e..9794545 100644
--- a/gradslam/geometry/se3utils.py
+++ b/gradslam/geometry/se3utils.py
@@ -88,7 +88,7 @@ def se3_exp(xi: torch.Tensor) -> torch.Tensor:
 
     if omega.norm() < _eps:
         R = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
-        V = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
+        V = torch.eye(3, 3).type(omega.dtype).to(omega.device) + 0.5 * omega_hat
     else:
         theta = omega.norm()
         s = theta.sin()
-- 
2.43.0


From b86ab34bdfdfb3b1cff98e3baa26941f50d3e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 30/37] fix: plotly of channels-first frames read the wrong
 axes

---
 gradslam/structures/rgbdimages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index ad6e890..569bf5f 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -814,7 +814,8 @@ class RGBDImages(object):
                 "transition": {"duration": duration, "easing": "linear"},
             }
 
-        torch_rgb = self.rgb_image[index]
+        rgbdimages = self.to_channels_last()
+        torch_rgb = rgbdimages.rgb_image[index]
         if (torch_rgb.max() < 1.1).item():
             torch_rgb = torch_rgb * 255
         torch_rgb = torch.clamp(torch_rgb, min=0.0, max=255.0)
@@ -824,7 +825,7 @@ class RGBDImages(object):
         if not include_depth:
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
-            torch_depth = self.depth_image[index, ..., 0]
+            torch_depth = rgbdimages.depth_image[index, ..., 0]
             scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
-- 
2.43.0


From 69caf74461bb1d45bbe3e6f48ba615a7947584b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 31/37] fix: plotly of frames without any depth raised
 OverflowError

---
 gradslam/structures/rgbdimages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 569bf5f..9a94c37 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -826,7 +826,10 @@ class RGBDImages(object):
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
             torch_depth = rgbdimages.depth_image[index, ..., 0]
-            scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
+            max_depth = torch_depth.detach().max()
+            scale = 1.0
+            if (max_depth > 0).item():
+                scale = 10 ** torch.log10(255.0 / max_depth).floor().item()
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
                 numpy_to_plotly_image(d, i, True, scale)
-- 
2.43.0


From 7b7fe0110bb991700b74cab17d70eb879db4cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 32/37] fix: exporting an empty colored cloud raised
 RuntimeError

---
 gradslam/structures/pointclouds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 59e3515..0203e8b 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1262,7 +1262,7 @@ class Pointclouds(object):
             if subsample:
                 torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() > 1.1).item():
+            if torch_colors.numel() > 0 and (torch_colors.max() > 1.1).item():
                 torch_colors = torch_colors / 255
             torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
             numpy_colors = torch_colors.detach().cpu().numpy()
@@ -1322,7 +1322,7 @@ class Pointclouds(object):
             if subsample:
                 torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() < 1.1).item():
+            if torch_colors.numel() > 0 and (torch_colors.max() < 1.1).item():
                 torch_colors = torch_colors * 255
             torch_colors = torch.clamp(torch_colors, min=0.0, max=255.0)
             numpy_colors = torch_colors.detach().cpu().numpy().astype("uint8")
-- 
2.43.0


From c69ef96d05b71fa249a941e6da00d80e0f01b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:51 +0000
Subject: [PATCH 33/37] fix: config text of a literal that can not be built
 raised TypeError instead of staying text

---
 gradslam/config/cfgnode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index c1e13ae..2cbb351 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -416,6 +416,9 @@ class CfgNode(dict):
             pass
         except SyntaxError:
             pass
+        # a literal that can not be built, like `{[0]}`
+        except TypeError:
+            pass
         return value
 
 
-- 
2.43.0


From 2a841385c3dc3b668261fbb5ccb58f2149da9127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:51 +0000
Subject: [PATCH 34/37] fix: merging into a node open for new keys stored
 values of unsupported types

---
 gradslam/config/cfgnode.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 2cbb351..d91f5c5 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -461,6 +461,12 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
                 b[k] = v
         elif b.is_new_allowed():
             _assert_not_frozen(b, full_key)
+            _assert_with_logging(
+                _valid_type(v, allow_cfg_node=True),
+                "Invalid type {} for key {}; valid types = {}".format(
+                    type(v), full_key, _VALID_TYPES
+                ),
+            )
             b[k] = v
         else:
             if root.key_is_deprecated(full_key):
-- 
2.43.0


From 5323f21f3107677ae03ee3672202ab250ab3d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:51 +0000
Subject: [PATCH 35/37] fix: features_list accepted clouds with different
 numbers of features

---
 gradslam/structures/pointclouds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 0203e8b..f5c930b 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1443,6 +1443,8 @@ class Pointclouds(object):
             raise ValueError(
                 "shape of first 2 dims of tensors in value and pointclouds.points_list must match"
             )
+        if first_dim_only and len(set([v.shape[-1] for v in value])) != 1:
+            raise ValueError("number of features per pointcloud has to be the same")
         if (not first_dim_only) and any(
             [self.points_list[b].shape != value[b].shape for b in range(len(self))]
         ):
-- 
2.43.0


From 40221b73125088f7a513e0a3cee454f4a0249f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:51 +0000
Subject: [PATCH 36/37] fix: ICP against a map without points raised
 RuntimeError

---
 gradslam/odometry/icputils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 243bedb..e916015 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -197,6 +197,10 @@ def gauss_newton_solve(
     tgt_pc = tgt_pc.contiguous()
     tgt_normals = tgt_normals.contiguous()
 
+    # without target points, no source point has a nearest neighbor
+    if tgt_pc.shape[1] == 0:
+        src_pc = src_pc[:, :0]
+
     _KNN = knn_points(src_pc, tgt_pc)
     dist1, idx1 = _KNN.dists.squeeze(-1), _KNN.idx.squeeze(-1)
 
-- 
2.43.0


From 75e22aeae3173d7f5b9da31e30fbcd3c16c7ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:51 +0000
Subject: [PATCH 37/37] fix: fusion used wrong point indices in maps of more
 than 2^24 points

---
 gradslam/slam/fusionutils.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 2873359..0d8ecdd 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -4,7 +4,6 @@ from typing import Union
 import torch
 from kornia.geometry.linalg import inverse_transformation
 
-from ..geometry.geometryutils import create_meshgrid
 from ..structures.pointclouds import Pointclouds
 from ..structures.rgbdimages import RGBDImages
 from ..structures.utils import pointclouds_from_rgbdimages
@@ -272,13 +271,16 @@ def find_active_map_points(
         ],
         -1,
     )  # height, width
+    # float32 can not represent all point indices of large maps
     batch_size, num_points = in_plane_pos.shape[:2]
-    batch_point_idx = (
-        create_meshgrid(batch_size, num_points, normalized_coords=False)
-        .squeeze(0)
-        .to(device)
+    batch_point_idx = torch.stack(
+        [
+            torch.arange(batch_size, device=device).view(-1, 1).repeat(1, num_points),
+            torch.arange(num_points, device=device).view(1, -1).repeat(batch_size, 1),
+        ],
+        -1,
     )
-    idx_and_plane_pos = torch.cat([batch_point_idx.long(), in_plane_pos], -1)
+    idx_and_plane_pos = torch.cat([batch_point_idx, in_plane_pos], -1)
     pc2im_bnhw = idx_and_plane_pos[is_in_frame]  # (?, 4)
 
     if pc2im_bnhw.shape[0] == 0:
@@ -509,12 +511,13 @@ def find_best_unique_correspondences(
         .unsqueeze(1)
     )
     # unique criteria: [B, H, W, 1/ccounts, ray_dists, N]
+    # in double precision: float32 can not represent all point indices of large maps
     unique_criteria_bhwcrn = [
-        pc2im_bnhw[:, 0:1].float(),
-        pc2im_bnhw[:, 2:4].float(),
-        inv_ccounts,
-        ray_dists,
-        pc2im_bnhw[:, 1:2].float(),
+        pc2im_bnhw[:, 0:1].double(),
+        pc2im_bnhw[:, 2:4].double(),
+        inv_ccounts.double(),
+        ray_dists.double(),
+        pc2im_bnhw[:, 1:2].double(),
     ]
     unique_criteria_bhwcrn = torch.cat(unique_criteria_bhwcrn, -1)
 
-- 
2.43.0

