From 036bc8a0c8fc8e2ef3f9c29bd1ca3a120fb68a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 01/44] fix: carry the corners and bounding box of a shape
 through stretch, rotation and translation

---
 .../geometry/signed_distance_functions.py     | 70 +++++--------------
 1 file changed, 19 insertions(+), 51 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 438dc39..e05d154 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -102,6 +102,8 @@ def _manipulate(object, x):
 
 
 def _configure_manipulations(object):
+    # corners of the box around the solid, carried through each manipulation
+    object.corners = corners(object.bbox)
     object = _build_stretch(object)
     object = _build_rotation(object)
     object = _build_translation(object)
@@ -136,7 +138,7 @@ def _build_stretch(object):
     if object.v is not None:
         object.alpha = np.sqrt(np.dot(object.v, object.v))
         object.v /= object.alpha
-        _corners = corners(object.bbox)
+        _corners = object.corners
         vx = np.multiply.outer(np.dot(object.v, _corners.T), object.v)
         tmp = (vx * object.alpha + (_corners - vx)).T
         if sd == 2:
@@ -155,14 +157,13 @@ def _build_stretch(object):
                 np.min(tmp[2]),
                 np.max(tmp[2]),
             )
-        object.corners = corners(object.bbox)
+        object.corners = tmp.T
     return object
 
 
 def _build_rotation(object):
     # object.rotation = [a,b,c] that means rotate by a on x axis, by b on y
-    # axis and by c on z axis
-    bbox_x = bbox_y = bbox_z = object.bbox
+    # axis and by c on z axis (applied in the order z, y, x)
     if object.dim == 2:
         object.R = np.array(
             [
@@ -172,7 +173,6 @@ def _build_rotation(object):
         )
         object.Rx_inv = object.R.T
         if object.rotation[0] != 0.0:
-            object.corners = corners(object.bbox)
             tmp = np.dot(object.R, object.corners.T).T
             object.bbox = (
                 np.min(tmp[:, 0]),
@@ -180,7 +180,7 @@ def _build_rotation(object):
                 np.min(tmp[:, 1]),
                 np.max(tmp[:, 1]),
             )
-            object.corners = corners(object.bbox)
+            object.corners = tmp
     elif object.dim == 3:
         object.Rx = np.array(
             [
@@ -206,51 +206,18 @@ def _build_rotation(object):
         object.Rx_inv = object.Rx.T
         object.Ry_inv = object.Ry.T
         object.Rz_inv = object.Rz.T
-        if  reduce((lambda x, y: x or y), object.rotation):
-            object.corners = corners(object.bbox)
-            tmp_x = tmp_y = tmp_z = 0.0
-            if object.rotation[0] != 0.0:
-                tmp_x = np.dot(object.Rx, object.corners.T).T
-                bbox_x = (
-                    np.min(tmp_x[:, 0]),
-                    np.max(tmp_x[:, 0]),
-                    np.min(tmp_x[:, 1]),
-                    np.max(tmp_x[:, 1]),
-                    np.min(tmp_x[:, 2]),
-                    np.max(tmp_x[:, 2]),
-                )
-            if object.rotation[1] != 0.0:
-                object.corners = corners(object.bbox)
-                tmp_y = np.dot(object.Ry, object.corners.T).T
-                bbox_y = (
-                    np.min(tmp_y[:, 0]),
-                    np.max(tmp_y[:, 0]),
-                    np.min(tmp_y[:, 1]),
-                    np.max(tmp_y[:, 1]),
-                    np.min(tmp_y[:, 2]),
-                    np.max(tmp_y[:, 2]),
-                )
-            if object.rotation[2] != 0.0:
-                object.corners = corners(object.bbox)
-                tmp_z = np.dot(object.Rz, object.corners.T).T
-                bbox_z = (
-                    np.min(tmp_z[:, 0]),
-                    np.max(tmp_z[:, 0]),
-                    np.min(tmp_z[:, 1]),
-                    np.max(tmp_z[:, 1]),
-                    np.min(tmp_z[:, 2]),
-                    np.max(tmp_z[:, 2]),
-                )
-            c = 0
-            object.bbox = []
-            for i,j,k in zip(bbox_x, bbox_y, bbox_z):
-                if c%2 == 0:
-                    object.bbox.append(min(i,j,k))
-                else:
-                    object.bbox.append(max(i,j,k))
-                c+=1
-            object.bbox = tuple(object.bbox)
-            object.corners = corners(object.bbox)
+        if reduce((lambda x, y: x or y), object.rotation):
+            R = np.dot(object.Rx, np.dot(object.Ry, object.Rz))
+            tmp = np.dot(R, object.corners.T).T
+            object.bbox = (
+                np.min(tmp[:, 0]),
+                np.max(tmp[:, 0]),
+                np.min(tmp[:, 1]),
+                np.max(tmp[:, 1]),
+                np.min(tmp[:, 2]),
+                np.max(tmp[:, 2]),
+            )
+            object.corners = tmp
     return object
 
 
@@ -277,6 +244,7 @@ def _build_translation(object):
                 object.bbox[4] + v[2],
                 object.bbox[5] + v[2],
             )
+        object.corners = object.corners + np.array(v)
     return object
 
 
-- 
2.43.0


From 8c3fa95da17272c221c9c0b36511feb4a15dd941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 02/44] fix: smooth Difference of more than two shapes
 subtracts every one from the first

---
 SeismicMesh/geometry/signed_distance_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index e05d154..ac4609f 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -378,8 +378,9 @@ class Difference:
         self.domains = domains
 
     def _smooth_difference(self, d1, d2):
-        h = np.maximum(self.k - np.abs(-d1 - d2), 0.0)
-        return np.maximum(-d1, d2) + np.divide(h * h * 0.25, self.k)
+        """Subtract `d2` from `d1`"""
+        h = np.maximum(self.k - np.abs(-d2 - d1), 0.0)
+        return np.maximum(-d2, d1) + np.divide(h * h * 0.25, self.k)
 
     def eval(self, x):
         if self.k == 0.0:
@@ -388,7 +389,7 @@ class Difference:
             )
         else:
             d = [d.eval(x) for d in self.domains]
-            return _loop_call(self._smooth_difference, d[::-1])
+            return _loop_call(self._smooth_difference, d)
 
     def show(self, filename=None, samples=10000):
         _show(self, filename=None, samples=samples)
-- 
2.43.0


From 19e5a3fe1510faf2c15f7928702a5448b626e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 03/44] fix: accept a scalar rotate as documented in the README

---
 SeismicMesh/geometry/signed_distance_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index ac4609f..bbaaa47 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -102,6 +102,9 @@ def _manipulate(object, x):
 
 
 def _configure_manipulations(object):
+    # a scalar rotates on the first (in 2D, only) axis
+    if np.isscalar(object.rotation):
+        object.rotation = [object.rotation, 0.0, 0.0]
     # corners of the box around the solid, carried through each manipulation
     object.corners = corners(object.bbox)
     object = _build_stretch(object)
-- 
2.43.0


From 4b4f2f1cfc61e55766c952e7a4f6fc84a7304f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 04/44] fix: do not modify the caller's stretch vector

---
 SeismicMesh/geometry/signed_distance_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index bbaaa47..ec90cdc 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -140,7 +140,7 @@ def _build_stretch(object):
         ), "Length of stretch vector does not equal dimension"
     if object.v is not None:
         object.alpha = np.sqrt(np.dot(object.v, object.v))
-        object.v /= object.alpha
+        object.v = np.asarray(object.v) / object.alpha
         _corners = object.corners
         vx = np.multiply.outer(np.dot(object.v, _corners.T), object.v)
         tmp = (vx * object.alpha + (_corners - vx)).T
-- 
2.43.0


From b737a2d79bd205fe36900e5999bfa22736f818f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 05/44] fix: reject set operations between 2D and 3D shapes

---
 SeismicMesh/geometry/signed_distance_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index ec90cdc..d85ef51 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -278,7 +278,7 @@ def _loop_call(func, d):
 class Union:
     def __init__(self, domains, smoothness=0.0):
         geom_dim = [d.dim for d in domains]
-        assert np.all(geom_dim != 2) or np.all(geom_dim != 3)
+        assert all(d == geom_dim[0] for d in geom_dim), "Dimensions do not match"
         self.dim = geom_dim[0]
         self.k = smoothness
         if self.dim == 2:
@@ -318,7 +318,7 @@ class Union:
 class Intersection:
     def __init__(self, domains, smoothness=0.0):
         geom_dim = [d.dim for d in domains]
-        assert np.all(geom_dim != 2) or np.all(geom_dim != 3)
+        assert all(d == geom_dim[0] for d in geom_dim), "Dimensions do not match"
         self.dim = geom_dim[0]
         self.k = smoothness
         if self.dim == 2:
@@ -358,7 +358,7 @@ class Intersection:
 class Difference:
     def __init__(self, domains, smoothness=0.0):
         geom_dim = [d.dim for d in domains]
-        assert np.all(geom_dim != 2) or np.all(geom_dim != 3)
+        assert all(d == geom_dim[0] for d in geom_dim), "Dimensions do not match"
         self.dim = geom_dim[0]
         self.k = smoothness
         if self.dim == 2:
-- 
2.43.0


From 8108a0acde1e9c71805b85a759ac25f8deb1af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 06/44] fix: export a vertex to both neighbors if both need it

---
 SeismicMesh/migration/cpp/cpputils.cpp | 50 +++++++++++---------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index f31bd6d..19b5335 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -90,10 +90,10 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   int num_points = points.size() / 2;
 
   // Determine which rank to send the vertex (exports)
-  // exports[iv] is either 0 or 1 (0 for block owned by rank-1 and 1 for block
-  // owned by rank+1)
+  // bit 1 of exports[iv] is set for the block owned by rank-1 and bit 2 for the
+  // block owned by rank+1
   std::vector<int> exports;
-  exports.resize(num_points, -1);
+  exports.resize(num_points, 0);
 
   auto vtoe_map = build_vtoe2(points, faces);
 
@@ -151,16 +151,14 @@ std::vector<double> c_where_to2(std::vector<double> &points,
         // Does this circumball intersect with box above or box below?
         bool intersects;
         intersects = CGAL::do_intersect(circ, rect1);
-        if (intersects){
-            exports[iv] = 0;
+        if (intersects and !(exports[iv] & 1)){
+            exports[iv] |= 1;
             kount_below += 1.0;
-            break;
         }
         intersects = CGAL::do_intersect(circ, rect2);
-        if (intersects){
-            exports[iv] = 1;
+        if (intersects and !(exports[iv] & 2)){
+            exports[iv] |= 2;
             kount_above += 1.0;
-            break;
         }
       }
     }
@@ -173,16 +171,13 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   double above_count = 0.0;
 
   for (std::size_t iv = 0; iv < num_points; ++iv) {
-    if (exports[iv] == -1){
-        continue;
-    }
-    if (exports[iv] == 0) {
+    if (exports[iv] & 1) {
       pointsToMigrate[below_count * 3 + 0 + 3] = points[iv * 2];
       pointsToMigrate[below_count * 3 + 1 + 3] = points[iv * 2 + 1];
       pointsToMigrate[below_count * 3 + 2 + 3] = (double)iv;
       below_count += 1.0;
     }
-    else if (exports[iv] ==1){
+    if (exports[iv] & 2) {
       pointsToMigrate[kount_below * 3 + above_count * 3 + 0 + 3] =
           points[iv * 2];
       pointsToMigrate[kount_below * 3 + above_count * 3 + 1 + 3] =
@@ -229,7 +224,7 @@ where_to2(py::array_t<double, py::array::c_style | py::array::forcecast> points,
 
   ssize_t sodble = sizeof(double);
   ssize_t ndim = 2;
-  std::vector<ssize_t> shape = {1 + num_points, 3};
+  std::vector<ssize_t> shape = {1 + 2 * num_points, 3};
   std::vector<ssize_t> strides = {sodble * 3, sodble};
 
   // return 2-D NumPy array
@@ -253,10 +248,10 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   int num_points = points.size() / 3;
 
   // Determine which rank to send the vertex (exports)
-  // exports[iv] is either 0 or 1 (0 for block owned by rank-1 and 1 for block
-  // owned by rank+1)
+  // bit 1 of exports[iv] is set for the block owned by rank-1 and bit 2 for the
+  // block owned by rank+1
   std::vector<int> exports;
-  exports.resize(num_points, -1);
+  exports.resize(num_points, 0);
 
   auto vtoe_map = build_vtoe3(points, faces);
 
@@ -330,16 +325,14 @@ std::vector<double> c_where_to3(std::vector<double> &points,
          // Does this circumball intersect with box above or box below?
          bool intersects;
          intersects = CGAL::do_intersect(sphere, cube1);
-         if (intersects){
-             exports[iv] = 0;
+         if (intersects and !(exports[iv] & 1)){
+             exports[iv] |= 1;
              kount_below += 1.0;
-             break;
          }
          intersects = CGAL::do_intersect(sphere, cube2);
-         if (intersects){
-              exports[iv] = 1;
+         if (intersects and !(exports[iv] & 2)){
+              exports[iv] |= 2;
               kount_above += 1.0;
-              break;
           }
         }
      }
@@ -352,17 +345,14 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   double above_count = 0.0;
 
   for (std::size_t iv = 0; iv < num_points; ++iv) {
-      if (exports[iv] == -1){
-          continue;
-      }
-    if (exports[iv] == 0) {
+    if (exports[iv] & 1) {
       pointsToMigrate[below_count * 4 + 0 + 4] = points[iv * 3];
       pointsToMigrate[below_count * 4 + 1 + 4] = points[iv * 3 + 1];
       pointsToMigrate[below_count * 4 + 2 + 4] = points[iv * 3 + 2];
       pointsToMigrate[below_count * 4 + 3 + 4] = (double)iv;
       below_count += 1.0;
     }
-    else if (exports[iv] == 1) {
+    if (exports[iv] & 2) {
       pointsToMigrate[kount_below * 4 + above_count * 4 + 0 + 4] =
           points[iv * 3];
       pointsToMigrate[kount_below * 4 + above_count * 4 + 1 + 4] =
@@ -413,7 +403,7 @@ where_to3(py::array_t<double, py::array::c_style | py::array::forcecast> points,
 
   ssize_t sodble = sizeof(double);
   ssize_t ndim = 2;
-  std::vector<ssize_t> shape = {1 + num_points, 4};
+  std::vector<ssize_t> shape = {1 + 2 * num_points, 4};
   std::vector<ssize_t> strides = {sodble * 4, sodble};
 
   // return 2-D NumPy array
-- 
2.43.0


From b64491aa462260c8bf80640b5fcb9dab7fa7cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 07/44] fix: exchange with neighbors also when there is nothing
 to export

---
 SeismicMesh/migration/migration.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/SeismicMesh/migration/migration.py b/SeismicMesh/migration/migration.py
index 8987a72..0966510 100644
--- a/SeismicMesh/migration/migration.py
+++ b/SeismicMesh/migration/migration.py
@@ -152,12 +152,9 @@ def exchange(comm, rank, size, exports, dim=2):
     NSB = int(exports[0, 0])
     NSA = int(exports[0, 1])
 
-    if NSB == 0 and NSA == 0:
-        return np.array([[]])
-
     tmp = []
-    # send points below
-    if NSB != 0 and (rank != 0):  # rank 0 can't send below
+    # send points below (even if there are none: the neighbor waits for them)
+    if rank != 0:  # rank 0 can't send below
         comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)
 
     # receive points from above
@@ -167,7 +164,7 @@ def exchange(comm, rank, size, exports, dim=2):
             tmp.append(p)
 
     # send points above
-    if NSA != 0 and rank != (size - 1):  # topmost rank can't send to above
+    if rank != (size - 1):  # topmost rank can't send to above
         # all put the topmost rank receive from above
         comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)
 
@@ -178,6 +175,6 @@ def exchange(comm, rank, size, exports, dim=2):
         for p in dat_recv:
             tmp.append(p)
 
-    new_points = np.array(tmp)
+    new_points = np.reshape(tmp, (-1, dim))
 
     return new_points
-- 
2.43.0


From cf45761758ad08966126e362612e157987b31536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 08/44] fix: delete exactly the inserted ghost vertices

---
 SeismicMesh/generation/mesh_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 7b73b33..f3834f1 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -507,7 +507,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         if comm.size > 1:
             # If continuing on, delete ghost points
-            p = np.delete(p, inv[-recv_ix::], axis=0)
+            p = np.delete(p, inv[len(inv) - recv_ix :], axis=0)
 
         # Show the user some progress so they know something is happening
         if comm.rank == 0:
@@ -719,9 +719,11 @@ def _add_ghost_vertices(p, t, dt, extents, comm):
     dim = p.shape[1]
     exports = migration.enqueue(extents, p, t, comm.rank, comm.size, dim=dim)
     recv = migration.exchange(comm, comm.rank, comm.size, exports, dim=dim)
-    recv_ix = len(recv)
+    num_local = len(p)
     dt.insert(recv.ravel().tolist())
     p, t = _get_topology(dt)
+    # NB: points already present locally are not inserted again
+    recv_ix = len(p) - num_local
     p, t, inv = geometry.remove_external_entities(
         p,
         t,
-- 
2.43.0


From a8a19ef72e79a44835f0fc8b66a972a6ea149652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 09/44] fix: each point belongs to one block, blocks are
 stacked along the given axis

---
 SeismicMesh/decomp/blocker.py | 103 +++-------------------------------
 1 file changed, 9 insertions(+), 94 deletions(-)

diff --git a/SeismicMesh/decomp/blocker.py b/SeismicMesh/decomp/blocker.py
index 979d74c..c2b2dfc 100644
--- a/SeismicMesh/decomp/blocker.py
+++ b/SeismicMesh/decomp/blocker.py
@@ -3,109 +3,24 @@ import numpy as np
 
 def blocker(points, rank, num_blocks, axis=0):
     """Decompose point coordinates into # of blocks
-    Blocks are orientated parallel to axis and have two neighbors
+    Blocks are slabs of equal width stacked along axis and have two neighbors
     above and below/left and right to the block depending on axis.
+    Each point belongs to one block and each block owns at least one point.
     """
     num_points, dim = points.shape
-    EPS = np.finfo(float).eps
 
     if dim < 2 or dim > 3:
         raise ValueError("Dimensions of points are not supported")
     assert num_points // num_blocks > 1, "too few points for chosen num_blocks"
 
-    x_lims = points[:, 0].min() - EPS, points[:, 0].max() + EPS
-    y_lims = points[:, 1].min() - EPS, points[:, 1].max() + EPS
-    if dim > 2:
-        z_lims = points[:, 2].min() - EPS, points[:, 2].max() + EPS
+    coords = points[:, axis]
+    lims = np.linspace(coords.min(), coords.max(), num_blocks + 1)
+    owner = np.searchsorted(lims[1:-1], coords, side="right")
 
-    if axis == 0:
-        if dim == 2:
-            xx, yy = np.meshgrid(
-                np.linspace(*x_lims, 1, endpoint=False),
-                np.linspace(*y_lims, num_blocks, endpoint=False),
-            )
+    blocks = [points[owner == r] for r in range(num_blocks)]
+    assert all(len(b) > 0 for b in blocks), "too few points for chosen num_blocks"
 
-            dx = (x_lims[1] - x_lims[0]) / 1
-            dy = (y_lims[1] - y_lims[0]) / num_blocks
-        elif dim == 3:
-            xx, yy, zz = np.meshgrid(
-                np.linspace(*x_lims, 1, endpoint=False),
-                np.linspace(*y_lims, num_blocks, endpoint=False),
-                np.linspace(*z_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / 1
-            dy = (y_lims[1] - y_lims[0]) / num_blocks
-            dz = (z_lims[1] - z_lims[0]) / 1
-
-    elif axis == 1:
-        if dim == 2:
-            xx, yy = np.meshgrid(
-                np.linspace(*x_lims, num_blocks, endpoint=False),
-                np.linspace(*y_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / num_blocks
-            dy = (y_lims[1] - y_lims[0]) / 1
-        elif dim == 3:
-            xx, yy, zz = np.meshgrid(
-                np.linspace(*x_lims, num_blocks, endpoint=False),
-                np.linspace(*y_lims, 1, endpoint=False),
-                np.linspace(*z_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / num_blocks
-            dy = (y_lims[1] - y_lims[0]) / 1
-            dz = (z_lims[1] - z_lims[0]) / 1
-    elif axis == 2:
-        xx, yy, zz = np.meshgrid(
-            np.linspace(*x_lims, 1, endpoint=False),
-            np.linspace(*y_lims, num_blocks, endpoint=False),
-            np.linspace(*z_lims, num_blocks, endpoint=False),
-        )
-
-        dx = (x_lims[1] - x_lims[0]) / 1
-        dy = (y_lims[1] - y_lims[0]) / 1
-        dz = (z_lims[1] - z_lims[0]) / num_blocks
-
-    blocks = []
-    block_extents = []
-
-    if dim == 2:
-        for low_x, low_y in zip(xx.ravel(), yy.ravel()):
-            block = points[
-                (points[:, 0] >= low_x)
-                & (points[:, 0] <= low_x + dx)
-                & (points[:, 1] >= low_y)
-                & (points[:, 1] <= low_y + dy)
-            ]
-            if block.shape[0]:
-                blocks.append(block)
-
-        block_extents = []
-        for block in blocks:
-            tmpm = np.amin(block, axis=0)
-            tmpp = np.amax(block, axis=0)
-            # min x min y max x max y
-            block_extents.append([tmpm[0], tmpm[1], tmpp[0], tmpp[1]])
-    elif dim == 3:
-        for low_x, low_y, low_z in zip(xx.ravel(), yy.ravel(), zz.ravel()):
-            block = points[
-                (points[:, 0] >= low_x)
-                & (points[:, 0] <= low_x + dx)
-                & (points[:, 1] >= low_y)
-                & (points[:, 1] <= low_y + dy)
-                & (points[:, 2] >= low_z)
-                & (points[:, 2] <= low_z + dz)
-            ]
-            if block.shape[0]:
-                blocks.append(block)
-
-        block_extents = []
-        for block in blocks:
-            tmpm = np.amin(block, axis=0)
-            tmpp = np.amax(block, axis=0)
-            # min x min y min z max x max y max z
-            block_extents.append([tmpm[0], tmpm[1], tmpm[2], tmpp[0], tmpp[1], tmpp[2]])
+    # min x min y (min z) max x max y (max z)
+    block_extents = [[*np.amin(b, axis=0), *np.amax(b, axis=0)] for b in blocks]
 
     return blocks, block_extents
-- 
2.43.0


From 71483fe671e434c315f1999e9cd7c9add00ba63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 10/44] fix: overlap the extents of user defined points like
 those of generated ones

---
 SeismicMesh/generation/mesh_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index f3834f1..4b27d18 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -800,7 +800,9 @@ def _user_defined_points(dim, fh, h0, bbox, points, comm, opts):
             extents = None
         fh = migration.localize_sizing_function(fh, h0, bbox, dim, opts["axis"], comm)
         # send points to each subdomain
-        p, extents = migration.localize_points(blocks, extents, comm, dim)
+        p, _ = migration.localize_points(blocks, extents, comm, dim)
+        # with the same overlap as for generated points
+        extents = _form_extents(p, h0, comm, opts)
     else:
         p = points
         extents = None
-- 
2.43.0


From 24b0a24371f6c1ea3354148e328caa82a51c5d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 11/44] fix: size the buffer of exported points like the array
 it is copied to

---
 SeismicMesh/migration/cpp/cpputils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index 19b5335..a93bbf6 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -165,7 +165,8 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 3, -1);
+  // a point may go both ways
+  pointsToMigrate.resize((1 + 2 * num_points) * 3, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
@@ -339,7 +340,8 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 4, -1);
+  // a point may go both ways
+  pointsToMigrate.resize((1 + 2 * num_points) * 4, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
-- 
2.43.0


From dd745bd64d5cd1af9bd9c59ed35555c329fc92dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 12/44] fix: do not modify the caller's velocity_data

---
 SeismicMesh/sizing/mesh_size_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 40de5de..f35b23c 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -142,6 +142,9 @@ def get_sizing_function_from_segy(
                 axes_order_sort=sz_opts["axes_order_sort"],
                 dtype=sz_opts["dtype"],
             )
+        else:
+            # do not write into the caller's array
+            vp = np.array(vp, dtype=float)
 
         if sz_opts["units"] == "km-s":
             print("Converting from km-s to m-s...", flush=True)
-- 
2.43.0


From 168430628dca6aae2d29cbc551a70846e6e88170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 13/44] fix: fill water velocities also when they occur in the
 first row only

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index f35b23c..82a31c1 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -155,7 +155,7 @@ def get_sizing_function_from_segy(
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
-        if len(pos) > 0 and any(pos[0]):
+        if len(pos[0]) > 0:
             if (
                 sz_opts["vp_water"] is None
                 or sz_opts["vp_water"] < 1300
-- 
2.43.0


From e45ea14b6db268b6c62e778e1f79d694e6859ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 14/44] fix: convert feet to meters with 0.3048

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 82a31c1..e088a22 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -151,7 +151,7 @@ def get_sizing_function_from_segy(
             vp *= 1000.0
         elif sz_opts["units"] == "ft-s":
             print("Converting from ft-s to m-s...", flush=True)
-            vp *= 0.30
+            vp *= 0.3048
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
-- 
2.43.0


From a4097f1c8bb4763accc55f52a48bcc697dac74b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 15/44] fix: gradient based sizes of a constant velocity model
 are not NaN

---
 SeismicMesh/sizing/mesh_size_function.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index e088a22..0e59409 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -444,8 +444,12 @@ def _gradient_sizing(vp, grad, stencil_size):
     win_sqr_mean = ndimage.uniform_filter(vp**2, tuple(window))
     win_var = win_sqr_mean - win_mean**2
 
+    # variance at the level of rounding errors is none (e.g., constant velocity)
+    win_var[win_var < 1e-12 * win_sqr_mean] = 0.0
+
     # normalize variance to [0,1]
-    win_var = np.divide(win_var, np.amax(win_var))
+    if np.amax(win_var) > 0.0:
+        win_var = np.divide(win_var, np.amax(win_var))
     # win_var /= np.amax(win_var)
     win_var -= np.amin(win_var)
     return grad / (win_var + 0.10)
-- 
2.43.0


From 29b5798e505e51f1966d95078f1b37874ae17d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 16/44] fix: reject negative wl and grad instead of ignoring
 them

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 0e59409..0c6eeee 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -207,7 +207,7 @@ def get_sizing_function_from_segy(
                 raise ValueError(
                     "Option %s with parameter %s not recognized " % (key, kwargs[key])
                 )
-        if np.any([sz_opts["wl"] > 0, sz_opts["grad"] > 0]):
+        if np.any([sz_opts["wl"] != 0, sz_opts["grad"] != 0]):
             cell_size = np.minimum(
                 _wavelength_sizing(vp, sz_opts["wl"], sz_opts["freq"]),
                 _gradient_sizing(vp, sz_opts["grad"], sz_opts["stencil_size"]),
-- 
2.43.0


From f915b132bdfff48aa2b9f373a63f90e6f4a04cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 17/44] fix: limit the gradation with the grid spacing of each
 axis

---
 SeismicMesh/sizing/cpp/FastHJ.cpp        | 21 ++++++++++++++++-----
 SeismicMesh/sizing/mesh_size_function.py |  9 ++++++---
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/SeismicMesh/sizing/cpp/FastHJ.cpp b/SeismicMesh/sizing/cpp/FastHJ.cpp
index e05e995..8e62563 100644
--- a/SeismicMesh/sizing/cpp/FastHJ.cpp
+++ b/SeismicMesh/sizing/cpp/FastHJ.cpp
@@ -60,7 +60,8 @@ std::vector<int> findIndices(const std::vector<int> &A, const int value) {
 }
 
 // solve the Hamilton-Jacobi equation
-std::vector<double> c_limgrad(const std::vector<int> &dims, const double &elen,
+std::vector<double> c_limgrad(const std::vector<int> &dims,
+                              const std::array<double, 3> &elen,
                               const double &dfdx, const int &imax,
                               const std::vector<double> &ffun) {
 
@@ -129,13 +130,15 @@ std::vector<double> c_limgrad(const std::vector<int> &dims, const double &elen,
       for (std::size_t p = 1; p < 7; p++) {
 
         int nod2 = npos[p];
+        // grid spacing between nod1 and nod2 (stencil is j+-1, i+-1, k+-1)
+        double dist = p < 3 ? elen[1] : (p < 5 ? elen[0] : elen[2]);
         assert(nod2 < ffun_s.size());
         assert(nod2 > -1);
 
         //----------------- calc. limits about min.-value
         if (ffun_s[nod1] > ffun_s[nod2]) {
 
-          double fun1 = ffun_s[nod2] + elen * dfdx;
+          double fun1 = ffun_s[nod2] + dist * dfdx;
           if (ffun_s[nod1] > fun1 + ftol) {
             ffun_s[nod1] = fun1;
             aset[nod1] = iter;
@@ -143,7 +146,7 @@ std::vector<double> c_limgrad(const std::vector<int> &dims, const double &elen,
 
         } else {
 
-          double fun2 = ffun_s[nod1] + elen * dfdx;
+          double fun2 = ffun_s[nod1] + dist * dfdx;
           if (ffun_s[nod2] > fun2 + ftol) {
             ffun_s[nod2] = fun2;
             aset[nod2] = iter;
@@ -159,7 +162,8 @@ std::vector<double> c_limgrad(const std::vector<int> &dims, const double &elen,
 // Python wrapper
 py::array
 limgrad(py::array_t<int, py::array::c_style | py::array::forcecast> dims,
-        const double elen, const double dfdx, const int imax,
+        py::array_t<double, py::array::c_style | py::array::forcecast> elen,
+        const double dfdx, const int imax,
         py::array_t<double, py::array::c_style | py::array::forcecast> ffun) {
   int num_points = ffun.size();
 
@@ -169,7 +173,14 @@ limgrad(py::array_t<int, py::array::c_style | py::array::forcecast> dims,
   std::memcpy(cffun.data(), ffun.data(), num_points * sizeof(double));
   std::memcpy(cdims.data(), dims.data(), 3 * sizeof(int));
 
-  std::vector<double> sffun = c_limgrad(cdims, elen, dfdx, imax, cffun);
+  // grid spacing along each axis (a scalar is used for all of them)
+  std::array<double, 3> celen;
+  if (elen.size() == 0)
+    throw std::invalid_argument("grid spacing missing");
+  for (int i = 0; i < 3; i++)
+    celen[i] = elen.data()[std::min<ssize_t>(i, elen.size() - 1)];
+
+  std::vector<double> sffun = c_limgrad(cdims, celen, dfdx, imax, cffun);
 
   ssize_t sodble = sizeof(double);
   std::vector<ssize_t> shape = {num_points, 1};
diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 0c6eeee..0221044 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -223,9 +223,12 @@ def get_sizing_function_from_segy(
             vp, cell_size, sz_opts["cr_max"], sz_opts["dt"], sz_opts["space_order"]
         )
 
-        cell_size = _enforce_gradation_sizing(
-            cell_size, sz_opts["grade"], (bbox[1] - bbox[0]) / nz
-        )
+        # spacing of the grid points along each axis
+        elen = [
+            (bbox[2 * i + 1] - bbox[2 * i]) / n
+            for i, n in enumerate(cell_size.shape)
+        ]
+        cell_size = _enforce_gradation_sizing(cell_size, sz_opts["grade"], elen)
 
         cell_size, vp, bbox = _build_domain_pad(cell_size, vp, bbox, sz_opts)
 
-- 
2.43.0


From a64746242f8124188a2026314b3b1da8af858635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 18/44] fix: read all coordinates in 2D circumballs

---
 SeismicMesh/generation/cpp/delaunay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/cpp/delaunay.cpp b/SeismicMesh/generation/cpp/delaunay.cpp
index 44be70f..7435745 100644
--- a/SeismicMesh/generation/cpp/delaunay.cpp
+++ b/SeismicMesh/generation/cpp/delaunay.cpp
@@ -143,7 +143,7 @@ namespace py = pybind11;
 py::array circumballs2(
     py::array_t<double, py::array::c_style | py::array::forcecast> vertices) {
   // each triangle has 3 vertices with 2 coordinates each
-  int sz = vertices.shape()[0];
+  int sz = vertices.size();
   std::vector<double> cppvertices(sz);
   std::memcpy(cppvertices.data(), vertices.data(), sz * sizeof(double));
   std::vector<double> circumcenters = c_circumballs2(cppvertices);
-- 
2.43.0


From 4e9e2715668a338b7052d73bc0e87df737b90c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 19/44] fix: dihedral angles of flat cells are not NaN

---
 SeismicMesh/geometry/cpp/fast_geometry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeismicMesh/geometry/cpp/fast_geometry.cpp b/SeismicMesh/geometry/cpp/fast_geometry.cpp
index cd46759..dc1432d 100644
--- a/SeismicMesh/geometry/cpp/fast_geometry.cpp
+++ b/SeismicMesh/geometry/cpp/fast_geometry.cpp
@@ -411,6 +411,8 @@ std::vector<double> c_calc_dihedral_angles(std::vector<double> &points,
 
       double cphi =
           (v2Dotv3 - v1Dotv2 * v1Dotv3) / ((norm_v1Crossv2 * norm_v1Crossv3));
+      // rounding may carry the cosine past +-1 (flat cells)
+      cphi = std::min(1.0, std::max(-1.0, cphi));
       dh_angles[c * 6 + i] = std::acos(cphi); // in radians
     }
   }
-- 
2.43.0


From a60b154ebd9d5535444bd2342b7d171bd81014cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 20/44] fix: reject max_iter=0, which looped forever

---
 SeismicMesh/generation/mesh_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 4b27d18..3708581 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -164,7 +164,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
     if h0 < 0:
         raise ValueError("`h0` must be > 0")
 
-    if sliver_opts["max_iter"] < 0:
+    if sliver_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
     max_iter = sliver_opts["max_iter"]
 
@@ -436,7 +436,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         dim, geps, bbox, fh, fd, h0, gen_opts, pfix, comm, lsf
     )
 
-    if gen_opts["max_iter"] < 0:
+    if gen_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
 
     max_iter = gen_opts["max_iter"]
-- 
2.43.0


From 2a0e93bda84cf691fb45de8e723452f28b39b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 21/44] fix: reject an edge length of zero as the message says

---
 SeismicMesh/generation/mesh_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 3708581..ca1968c 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -161,7 +161,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         h0 = sliver_opts["h0"]
 
     # check h0
-    if h0 < 0:
+    if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
     if sliver_opts["max_iter"] <= 0:
@@ -411,7 +411,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         h0 = gen_opts["h0"]
 
     # check h0
-    if h0 < 0:
+    if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
     # these parameters originate from the original DistMesh
-- 
2.43.0


From b661593378dbaaef2425ff3dc2e3cf35e22e331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 22/44] fix: constrain corners on the level set only, not those
 outside the domain

---
 SeismicMesh/generation/mesh_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index ca1968c..2979bfd 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -425,7 +425,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
     pfix, nfix = _unpack_pfix(dim, gen_opts, comm)
     if corners is not None and comm.size == 1:
         # keep corners only near level set
-        corners = corners[fd(corners) > -1000 * deps]
+        corners = corners[np.abs(fd(corners)) < 1000 * deps]
         pfix = np.append(pfix, corners, axis=0)
         nfix = len(pfix)
 
-- 
2.43.0


From b90f0f7005b8015cedf49ed627ed3f9af605bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 23/44] fix: remove vertices left unused by the final removal
 of outside cells

---
 SeismicMesh/generation/mesh_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 2979bfd..10125ba 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -491,6 +491,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             if comm.rank == 0:
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
+                p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
             break
 
         # Compute the forces on the edges
-- 
2.43.0


From e993dfa81a8c04ad03b0ad90efd404d038266574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 24/44] fix: merge vertices that differ by the sign of zero

---
 SeismicMesh/geometry/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 600481b..089396b 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -226,7 +226,8 @@ def fix_mesh(p, t, ptol=2e-13, dim=2, delete_unused=False, fix_orientation=True)
 
     # duplicate vertices
     snap = (p.max(0) - p.min(0)).max() * ptol
-    _, ix, jx = unique_rows(np.round(p / snap) * snap, True, True)
+    # NB: adding 0.0 turns -0.0 into 0.0 as the rows are compared bytewise
+    _, ix, jx = unique_rows(np.round(p / snap) * snap + 0.0, True, True)
 
     p = p[ix]
     t = jx[t]
-- 
2.43.0


From 6e381a47cfd3dbf28f34176615ff6188699f49b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 25/44] fix: vertex_to_entities with unused vertices

---
 SeismicMesh/geometry/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 089396b..51ab451 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -120,10 +120,8 @@ def vertex_to_entities(vertices, entities, dim=2):
     ve = np.hstack((ve, ext))
     ve = ve[ve[:, 0].argsort(), :]
 
-    idx = np.insert(np.diff(ve[:, 0]), 0, 0)
-    vtoe_pointer = np.argwhere(idx)
-    vtoe_pointer = np.insert(vtoe_pointer, 0, 0)
-    vtoe_pointer = np.append(vtoe_pointer, num_entities * (dim + 1))
+    # NB: vertices may be unused
+    vtoe_pointer = np.searchsorted(ve[:, 0], np.arange(len(vertices) + 1))
 
     vtoe = ve[:, 1]
 
-- 
2.43.0


From 8d74a432b1a3ffd17f6d0e46bf392af96b85a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 26/44] fix: wind all loops of a boundary, not only the first

---
 SeismicMesh/geometry/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 51ab451..26e0385 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -349,7 +349,15 @@ def get_winded_boundary_edges(entities):
         rows = locs[:, 0]
         choices = [row for row in rows if isVisited[row] == 0]
         if len(choices) == 0:
-            break
+            # loop is closed, continue with the next one (if any)
+            rest = np.where(isVisited == 0)[0]
+            if len(rest) == 0:
+                break
+            choice = rest[0]
+            ordering = np.append(ordering, [choice])
+            isVisited[choice] = 1
+            vNext = _bedges[choice, 1]
+            continue
         choice = choices[0]
         ordering = np.append(ordering, [choice])
         isVisited[choice] = 1
-- 
2.43.0


From 040bfda9f062f4e94c3b92f8adc7c6575c7d680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 27/44] fix: keep fixed points in the interior where they are
 during 2D mesh improvement

---
 SeismicMesh/generation/mesh_generator.py | 4 +++-
 SeismicMesh/geometry/utils.py            | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 10125ba..ce219ab 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -667,7 +667,9 @@ def _termination(p, t, opts, comm, sliver=False, verbose=1):
         )
         # only do Laplacian smoothing if no immersed domains
         if opts["subdomains"] is None and opts["mesh_improvement"]:
-            p, t = geometry.laplacian2_fixed_point(p, t)
+            # NB: points are constrained in serial only
+            pfix = opts["pfix"] if comm.size == 1 else None
+            p, t = geometry.laplacian2_fixed_point(p, t, pfix=pfix)
             # p, t = geometry.laplacian2(p, t, verbose=verbose)
     # perform linting if asked
     if comm.rank == 0 and opts["perform_checks"]:
diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 26e0385..6ef7254 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -498,7 +498,7 @@ def _sparse(Ix, J, S, shape=None, dtype=None):
     return spsparse.coo_matrix((S, (II, J)), shape, dtype)
 
 
-def laplacian2_fixed_point(vertices, entities):
+def laplacian2_fixed_point(vertices, entities, pfix=None):
     """Solve the laplacian smoothing problem as a fixed point problem
     solve this once, i.e., (I - A) x = rhs vs.
     repeating this x_{n+1} = A x_n
@@ -507,6 +507,8 @@ def laplacian2_fixed_point(vertices, entities):
     :type vertices: numpy.ndarray[`float` x dim]
     :param entities: the mesh connectivity
     :type entities: numpy.ndarray[`int` x (dim+1)]
+    :param pfix: coordinates that you don't wish to move
+    :type pfix: array-like, optional
 
     :return vertices: updated vertices of mesh
     :rtype: numpy.ndarray[`float` x dim]
@@ -532,6 +534,10 @@ def laplacian2_fixed_point(vertices, entities):
     matrix = matrix.tocsr()
 
     bnd = get_boundary_vertices(entities)
+    if pfix is not None and len(pfix) > 0:
+        # hold the closest vertices to the fixed points
+        ifix = [np.argmin(((vertices - fix) ** 2).sum(1)) for fix in np.asarray(pfix)]
+        bnd = np.union1d(bnd, ifix)
 
     # Apply Dirichlet conditions.
     # Set all Dirichlet rows to 0.
-- 
2.43.0


From cf8ac17f67691b83a1f80c2753f762fcc0b0ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 28/44] fix: smoothing accuracy independent of the position of
 the mesh

---
 SeismicMesh/geometry/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 6ef7254..7b07252 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -553,9 +553,13 @@ def laplacian2_fixed_point(vertices, entities, pfix=None):
 
     # vertices_new = spsolve(matrix, rhs)
 
-    # use AMG
+    # use AMG, solving for the displacements so that the accuracy does not
+    # depend on where the mesh is
     ml = pyamg.ruge_stuben_solver(matrix)
-    vertices_new = np.column_stack([ml.solve(rhs[:, 0]), ml.solve(rhs[:, 1])])
+    res = rhs - matrix @ vertices
+    vertices_new = vertices + np.column_stack(
+        [ml.solve(res[:, 0]), ml.solve(res[:, 1])]
+    )
 
     return vertices_new, entities
 
-- 
2.43.0


From 86249ddcbe215a8a15a66d685509236b816c15fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 29/44] fix: move points of a coplanar 3D triangulation without
 corrupting it

---
 SeismicMesh/generation/cpp/delaunay_class3.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/cpp/delaunay_class3.cpp b/SeismicMesh/generation/cpp/delaunay_class3.cpp
index ce8ab8a..a8746cf 100644
--- a/SeismicMesh/generation/cpp/delaunay_class3.cpp
+++ b/SeismicMesh/generation/cpp/delaunay_class3.cpp
@@ -148,7 +148,14 @@ PYBIND11_MODULE(_delaunay_class3, m) {
              }
              //
              for (std::size_t i = 0; i < num_to_move; ++i) {
-               dt.move(handles[to_move[i]], new_pos[i]);
+               // CGAL's move leaves a corrupt triangulation if the points are
+               // coplanar
+               if (dt.dimension() < 3) {
+                 dt.remove(handles[to_move[i]]);
+                 dt.insert(new_pos[i]);
+               } else {
+                 dt.move(handles[to_move[i]], new_pos[i]);
+               }
              }
              return dt;
            })
-- 
2.43.0


From ef559ce126111401b39894eb9d551055d56cde66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 30/44] fix: solve the smoothing problem for the free vertices
 so that it converges

---
 SeismicMesh/geometry/utils.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 7b07252..69a7f85 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -539,27 +539,22 @@ def laplacian2_fixed_point(vertices, entities, pfix=None):
         ifix = [np.argmin(((vertices - fix) ** 2).sum(1)) for fix in np.asarray(pfix)]
         bnd = np.union1d(bnd, ifix)
 
-    # Apply Dirichlet conditions.
-    # Set all Dirichlet rows to 0.
-    for b in bnd:
-        matrix.data[matrix.indptr[b] : matrix.indptr[b + 1]] = 0.0
-    # Set the diagonal and RHS.
-    d = matrix.diagonal()
-    d[bnd] = 1.0
-    matrix.setdiag(d)
-
-    rhs = np.zeros((n, 2))
-    rhs[bnd] = vertices[bnd]
+    # Apply Dirichlet conditions by eliminating the held vertices: the system
+    # of the free ones is symmetric positive definite, as the solver needs.
+    free = np.setdiff1d(np.arange(n), bnd)
+    # unused vertices have no equation
+    free = free[matrix.diagonal()[free] > 0]
+    vertices_new = np.array(vertices, dtype=float)
+    if len(free) == 0:
+        return vertices_new, entities
 
     # vertices_new = spsolve(matrix, rhs)
 
     # use AMG, solving for the displacements so that the accuracy does not
     # depend on where the mesh is
-    ml = pyamg.ruge_stuben_solver(matrix)
-    res = rhs - matrix @ vertices
-    vertices_new = vertices + np.column_stack(
-        [ml.solve(res[:, 0]), ml.solve(res[:, 1])]
-    )
+    res = -(matrix @ vertices)[free]
+    ml = pyamg.ruge_stuben_solver(matrix[free][:, free].astype(float).tocsr())
+    vertices_new[free] += np.column_stack([ml.solve(res[:, 0]), ml.solve(res[:, 1])])
 
     return vertices_new, entities
 
-- 
2.43.0


From 54d9eb0e513b03825ce1806d2fb6a68e39c22b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 31/44] fix: stop after max_iter iterations also if it is not a
 whole number

---
 SeismicMesh/generation/mesh_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index ce219ab..6e993e2 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -164,7 +164,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
     if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
-    if sliver_opts["max_iter"] <= 0:
+    if not sliver_opts["max_iter"] > 0:
         raise ValueError("`max_iter` must be > 0")
     max_iter = sliver_opts["max_iter"]
 
@@ -222,7 +222,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         ele_nums, ix = _calc_dihedral_angles(p, t, min_dh_bound, max_dh_bound)
 
         # Number of iterations reached, stop.
-        if count == (max_iter - 1):
+        if count >= (max_iter - 1):
             print_msg1(
                 "FAILURE: Termination...maximum number of iterations reached. Try increasing max_iter when generating the mesh",
             )
@@ -436,7 +436,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         dim, geps, bbox, fh, fd, h0, gen_opts, pfix, comm, lsf
     )
 
-    if gen_opts["max_iter"] <= 0:
+    if not gen_opts["max_iter"] > 0:
         raise ValueError("`max_iter` must be > 0")
 
     max_iter = gen_opts["max_iter"]
@@ -482,7 +482,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         t = _remove_triangles_outside(p, t, fd, geps)
 
         # Number of iterations reached, stop.
-        if count == (max_iter - 1):
+        if count >= (max_iter - 1):
             if comm.rank == 0:
                 print_msg1(
                     "Termination reached...maximum number of iterations reached.",
-- 
2.43.0


From 88840369f976445c4892556702ffe1c1f444ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 32/44] fix: do not turn 2D cells inside out in the final
 projection to the boundary

---
 SeismicMesh/generation/mesh_generator.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 6e993e2..4db5c62 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -489,7 +489,10 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
                 )
             p, t = _termination(p, t, gen_opts, comm, verbose=gen_opts["verbose"])
             if comm.rank == 0:
+                pold = p.copy()
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
+                if dim == 2:
+                    p = _undo_inversions(p, pold, t)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
                 p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
             break
@@ -764,6 +767,17 @@ def _improve_level_set_newton(p, t, fd, deps, tol):
     return p
 
 
+def _undo_inversions(p, pold, t):
+    """Move vertices around cells that were turned inside out back to where they were"""
+    while True:
+        bad = np.unique(t[geometry.simp_vol(p, t) <= 0])
+        bad = np.unique(t[np.isin(t, bad).any(axis=1)])
+        bad = bad[_dist(p[bad], pold[bad]) > 0]
+        if len(bad) == 0:
+            return p
+        p[bad] = pold[bad]
+
+
 def _project_points_back_newton(p, fd, deps, hmin, idx):
     """Project points outside the domain back with one iteration of Newton minimization method
     finding the root of f(p)
-- 
2.43.0


From e5f96c31b569d06f08d18118f75d867c6fd64fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 33/44] fix: drop the cells that collapse when fix_mesh merges
 their vertices

---
 SeismicMesh/geometry/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 69a7f85..c640a44 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -234,6 +234,9 @@ def fix_mesh(p, t, ptol=2e-13, dim=2, delete_unused=False, fix_orientation=True)
     t = np.sort(t, axis=1)
     t, _ = unique_row_view(t)
 
+    # entities that collapsed because their vertices were merged
+    t = t[(np.diff(t, axis=1) > 0).all(axis=1)]
+
     # delete disjoint vertices
     if delete_unused:
         pix, _, jx = np.unique(t, return_index=True, return_inverse=True)
-- 
2.43.0


From 44fb58c9e0fc07f15ca330704a7900a1f1d2c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 34/44] fix: print nothing during linting if verbose is 0

---
 SeismicMesh/generation/mesh_generator.py |  2 +-
 SeismicMesh/geometry/utils.py            | 76 ++++++++++++++----------
 2 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 4db5c62..a663057 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -676,7 +676,7 @@ def _termination(p, t, opts, comm, sliver=False, verbose=1):
             # p, t = geometry.laplacian2(p, t, verbose=verbose)
     # perform linting if asked
     if comm.rank == 0 and opts["perform_checks"]:
-        p, t = geometry.linter(p, t, dim=dim)
+        p, t = geometry.linter(p, t, dim=dim, verbose=opts["verbose"])
     elif comm.rank == 0:
         p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
 
diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index c640a44..fc98e06 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -757,7 +757,7 @@ def get_centroids(vertices, entities, dim=2):
     return vertices[entities].sum(1) / (dim + 1)
 
 
-def do_any_overlap(vertices, entities, dim=2):
+def do_any_overlap(vertices, entities, dim=2, verbose=1):
     """
     Check if any entities connected to boundary of the mesh overlap
     ignoring self-intersections. This routine checks only the 1-ring around
@@ -769,6 +769,8 @@ def do_any_overlap(vertices, entities, dim=2):
     :type entities: numpy.ndarray[`int` x (dim+1)]
     :param dim: dimension of mesh
     :type dim: `int`, optional
+    :param verbose: display progress to the screen
+    :type verbose: `int`, optional
 
     :return: intersections: a list of 2-tuple of entity indices that intersect
     :rtype: List[tuple(num_intersections x 2)]
@@ -780,7 +782,7 @@ def do_any_overlap(vertices, entities, dim=2):
     intersections = []
     # for all elements
     for ie, cent in enumerate(cents):
-        if ie % 1000 == 0:
+        if verbose and ie % 1000 == 0:
             print("INFO: " + str(100.0 * (ie / len(cents))) + " % done...", flush=True)
         # collect all elements neis around element ie
         neis = np.array([], dtype=int)
@@ -798,14 +800,15 @@ def do_any_overlap(vertices, entities, dim=2):
                 y1, y2, y3 = vertices[entities[ele, :], 1]
                 if vertex_in_entity2((cent[0], cent[1]), (x1, y1, x2, y2, x3, y3)):
                     # centroid ie is inside face iee
-                    print(
-                        "Alert: entity "
-                        + str(ie)
-                        + " intersects with entity "
-                        + str(ele)
-                        + ". These will be adjusted.",
-                        flush=True,
-                    )
+                    if verbose:
+                        print(
+                            "Alert: entity "
+                            + str(ie)
+                            + " intersects with entity "
+                            + str(ele)
+                            + ". These will be adjusted.",
+                            flush=True,
+                        )
                     # record all intersection pairs
                     intersections.append((ie, ele))
             elif dim == 3:
@@ -818,21 +821,22 @@ def do_any_overlap(vertices, entities, dim=2):
                     (x1, y1, z1, x2, y2, z2, x3, y3, z3, x4, y4, z4),
                 ):
                     # centroid ie is inside cell iee
-                    print(
-                        "Alert: entity "
-                        + str(ie)
-                        + " intersects with entity "
-                        + str(ele)
-                        + ". These will be adjusted.",
-                        flush=True,
-                    )
+                    if verbose:
+                        print(
+                            "Alert: entity "
+                            + str(ie)
+                            + " intersects with entity "
+                            + str(ele)
+                            + ". These will be adjusted.",
+                            flush=True,
+                        )
                     # record all intersection pairs
                     intersections.append((ie, ele))
 
     return intersections
 
 
-def linter(vertices, entities, dim=2, min_qual=0.10):
+def linter(vertices, entities, dim=2, min_qual=0.10, verbose=1):
     """Remove and check mesh for geometric and toplogical defects.
 
     :param vertex: vertex coordinates of mesh
@@ -843,16 +847,19 @@ def linter(vertices, entities, dim=2, min_qual=0.10):
     :type dim: `int`, optional
     :param min_qual: minimum geometric quality to consider "poor" quality
     :type min_qual: `float`, optional
+    :param verbose: display progress to the screen
+    :type verbose: `int`, optional
 
     :return vertices: updated mesh vertices
     :rtype: numpy.ndarray[`float` x dim]
     :return: entities: updated mesh connectivity
     :rtype: numpy.ndarray[`int` x (dim+1)]
     """
-    print("Performing mesh linting...", flush=True)
+    if verbose:
+        print("Performing mesh linting...", flush=True)
     qual = simp_qual(vertices, entities)
     # determine if there's degenerate overlapping elements
-    intersections = do_any_overlap(vertices, entities, dim=dim)
+    intersections = do_any_overlap(vertices, entities, dim=dim, verbose=verbose)
     # delete the lower quality in the pair
     delete = np.array([], dtype=int)
     for intersect in intersections:
@@ -860,7 +867,8 @@ def linter(vertices, entities, dim=2, min_qual=0.10):
         sel = np.argmin(qual[ix])
         delete = np.append(delete, intersect[sel])
     delete = np.unique(delete)
-    print("Deleting " + str(len(delete)) + " overlapped entities", flush=True)
+    if verbose:
+        print("Deleting " + str(len(delete)) + " overlapped entities", flush=True)
     entities = np.delete(entities, delete, axis=0)
 
     # clean up
@@ -868,20 +876,22 @@ def linter(vertices, entities, dim=2, min_qual=0.10):
     # delete remaining low quality boundary elements
     if dim == 2:
         vertices, entities = delete_boundary_entities(
-            vertices, entities, min_qual=min_qual
+            vertices, entities, min_qual=min_qual, verbose=verbose
         )
         # check for non-manifold boundaries and alert
-        _ = is_manifold(vertices, entities)
+        if verbose:
+            _ = is_manifold(vertices, entities)
     # calculate final minimum simplex quality
     qual = simp_qual(vertices, entities)
     minimum_quality = np.amin(qual)
-    print(
-        "There are "
-        + str(len(vertices))
-        + " vertices and "
-        + str(len(entities))
-        + " elements in the mesh",
-        flush=True,
-    )
-    print("The minimum element quality is " + str(minimum_quality), flush=True)
+    if verbose:
+        print(
+            "There are "
+            + str(len(vertices))
+            + " vertices and "
+            + str(len(entities))
+            + " elements in the mesh",
+            flush=True,
+        )
+        print("The minimum element quality is " + str(minimum_quality), flush=True)
     return vertices, entities
-- 
2.43.0


From 37f3998d1a837b0e9933efa00ea693596d731107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 35/44] fix: order the cells in sliver_removal so that it is
 reproducible

---
 SeismicMesh/generation/mesh_generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index a663057..2d5ebde 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -219,6 +219,11 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         # Remove points outside the domain
         t = _remove_triangles_outside(p, t, fd, geps)
 
+        # After moving vertices, the order in which CGAL hands out cells (and their
+        # vertices) depends on memory addresses. Order them to be reproducible.
+        t = np.sort(t, axis=1)
+        t = t[np.lexsort(t.T[::-1])]
+
         ele_nums, ix = _calc_dihedral_angles(p, t, min_dh_bound, max_dh_bound)
 
         # Number of iterations reached, stop.
-- 
2.43.0


From 579623090a734aaa3d91c1c0cc11fb738bae8c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 36/44] fix: leave fixed points where they are when projecting
 to (sub)domain boundaries

---
 SeismicMesh/generation/mesh_generator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 2d5ebde..460cf6c 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -496,6 +496,9 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             if comm.rank == 0:
                 pold = p.copy()
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
+                # fixed points stay where they are
+                ifix = [_closest_node(fix, pold) for fix in pfix]
+                p[ifix] = pold[ifix]
                 if dim == 2:
                     p = _undo_inversions(p, pold, t)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
@@ -512,7 +515,12 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         # Bring outside points back to the boundary
         for idx, level in enumerate(levels):
+            if idx == 1:
+                # fixed points are not attracted by the subdomains
+                pold = p[ifix]
             p = _project_points_back_newton(p, level, deps, h0, idx)
+            if idx > 0:
+                p[ifix] = pold
 
         if comm.size > 1:
             # If continuing on, delete ghost points
-- 
2.43.0


From 2a4e80a2ada1530b8b2637c0936894194774d7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 37/44] fix: do not insert a corner twice if the user fixes it
 too

---
 SeismicMesh/generation/mesh_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 460cf6c..41a49a8 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -431,6 +431,9 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
     if corners is not None and comm.size == 1:
         # keep corners only near level set
         corners = corners[np.abs(fd(corners)) < 1000 * deps]
+        # the user may have fixed some of them already
+        for fix in pfix:
+            corners = corners[_dist(corners, fix) > 1000 * deps]
         pfix = np.append(pfix, corners, axis=0)
         nfix = len(pfix)
 
-- 
2.43.0


From b2fd52c96525ee365d929a61a4789293f70d791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 38/44] fix: remove initial points that crowd a fixed point and
 detach it from the mesh

---
 SeismicMesh/generation/mesh_generator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 41a49a8..8e32627 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -879,12 +879,12 @@ def _generate_initial_points(h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf)
     if comm.size > 1:
         r0m = comm.allreduce(r0m, op=MPI.MIN)
     np.random.seed(opts["seed"])
-    p = np.vstack(
-        (
-            pfix,
-            p[np.random.rand(p.shape[0]) < r0m**dim / r0**dim],
-        )
-    )
+    p = p[np.random.rand(p.shape[0]) < r0m**dim / r0**dim]
+    # points crowding the fixed ones would detach them from the mesh
+    if len(pfix) > 0:
+        for fix, h in zip(pfix, fh(pfix)):
+            p = p[_dist(p, fix) > 0.5 * h]
+    p = np.vstack((pfix, p))
     extents = _form_extents(p, h0, comm, opts)
     return fh, p, extents
 
-- 
2.43.0


From 8e3e76db4b18039eb2f148f88307aed39e2095de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:16 +0000
Subject: [PATCH 39/44] fix: export vertices whose circumball contains the
 neighbouring block entirely

---
 SeismicMesh/migration/cpp/cpputils.cpp | 40 ++++++++++++--------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index a93bbf6..5736794 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -3,17 +3,13 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
-#include <CGAL/Circle_2.h>
 #include <CGAL/Exact_predicates_inexact_constructions_kernel.h>
-#include <CGAL/Iso_cuboid_3.h>
-#include <CGAL/Iso_rectangle_2.h>
 #include <CGAL/Kernel/global_functions.h>
-#include <CGAL/Sphere_3.h>
-#include <CGAL/intersections.h>
 
 #include <CGAL/Bbox_2.h>
 #include <CGAL/Bbox_3.h>
 
+#include <algorithm>
 #include <assert.h>
 #include <vector>
 
@@ -22,10 +18,6 @@
 typedef CGAL::Exact_predicates_inexact_constructions_kernel K;
 typedef K::Point_2 Point;
 typedef K::Point_3 Point3;
-typedef K::Circle_2 Circle;
-typedef K::Sphere_3 Sphere;
-typedef K::Iso_rectangle_2 Rectangle;
-typedef K::Iso_cuboid_3 Cuboid;
 
 namespace py = pybind11;
 
@@ -81,6 +73,17 @@ double calc_4x4dete(std::vector<double> &m) {
          m[4] * m[1] * m[10] * m[15] + m[0] * m[5] * m[10] * m[15];
 }
 
+// does the ball (not only its surface) reach into the box?
+bool ball_meets_box(const double *center, double sqr_radius, const double *lo,
+                    const double *hi, int dim) {
+  double sqr_dist = 0.0;
+  for (int i = 0; i < dim; ++i) {
+    double gap = std::max(std::max(lo[i] - center[i], center[i] - hi[i]), 0.0);
+    sqr_dist += gap * gap;
+  }
+  return sqr_dist <= sqr_radius;
+}
+
 // determine which rank points need to be exported to in 2D
 std::vector<double> c_where_to2(std::vector<double> &points,
                                 std::vector<int> &faces,
@@ -100,9 +103,6 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   double kount_below = 0.0;
   double kount_above = 0.0;
 
- Rectangle rect1 = Rectangle(Point(llc[0 * 2], llc[0 * 2 + 1]),Point(urc[0 * 2], urc[0 * 2 + 1]));
- Rectangle rect2 = Rectangle(Point(llc[1 * 2], llc[1 * 2 + 1]),Point(urc[1 * 2], urc[1 * 2 + 1]));
-
  // create bbox of rectangles to filter tests
  CGAL::Bbox_2 rect1_bbox = CGAL::Bbox_2(llc[0], llc[1], urc[0], urc[1]);
  CGAL::Bbox_2 rect2_bbox = CGAL::Bbox_2(llc[2], llc[3], urc[2], urc[3]);
@@ -147,15 +147,15 @@ std::vector<double> c_where_to2(std::vector<double> &points,
         // Calculate circumball of element
         Point cc = CGAL::circumcenter(pnm1, pnm2, pnm3);
         double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
-        Circle circ = Circle(cc, sqr_radius, CGAL::CLOCKWISE);
+        double center[2] = {cc.x(), cc.y()};
         // Does this circumball intersect with box above or box below?
         bool intersects;
-        intersects = CGAL::do_intersect(circ, rect1);
+        intersects = ball_meets_box(center, sqr_radius, &llc[0], &urc[0], 2);
         if (intersects and !(exports[iv] & 1)){
             exports[iv] |= 1;
             kount_below += 1.0;
         }
-        intersects = CGAL::do_intersect(circ, rect2);
+        intersects = ball_meets_box(center, sqr_radius, &llc[2], &urc[2], 2);
         if (intersects and !(exports[iv] & 2)){
             exports[iv] |= 2;
             kount_above += 1.0;
@@ -259,10 +259,6 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   double kount_below = 0.0;
   double kount_above = 0.0;
 
-  Cuboid cube1 = Cuboid(Point3(llc[0 * 3], llc[0 * 3 + 1], llc[0 * 3 + 2]),
-                Point3(urc[0 * 3], urc[0 * 3 + 1], urc[0 * 3 + 2]));
-  Cuboid cube2 = Cuboid(Point3(llc[1 * 3], llc[1 * 3 + 1], llc[1 * 3 + 2]),
-                Point3(urc[1 * 3], urc[1 * 3 + 1], urc[1 * 3 + 2]));
 
   // create bbox of cuboids to filter tests
   CGAL::Bbox_3 cuboid1_bbox = CGAL::Bbox_3(llc[0], llc[1], llc[2] ,urc[0], urc[1], urc[2]);
@@ -322,15 +318,15 @@ std::vector<double> c_where_to3(std::vector<double> &points,
          // Calculate circumball of element
          Point3 cc = CGAL::circumcenter(pnm1, pnm2, pnm3, pnm4);
          double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
-         Sphere sphere = Sphere(cc, sqr_radius, CGAL::CLOCKWISE);
+         double center[3] = {cc.x(), cc.y(), cc.z()};
          // Does this circumball intersect with box above or box below?
          bool intersects;
-         intersects = CGAL::do_intersect(sphere, cube1);
+         intersects = ball_meets_box(center, sqr_radius, &llc[0], &urc[0], 3);
          if (intersects and !(exports[iv] & 1)){
              exports[iv] |= 1;
              kount_below += 1.0;
          }
-         intersects = CGAL::do_intersect(sphere, cube2);
+         intersects = ball_meets_box(center, sqr_radius, &llc[3], &urc[3], 3);
          if (intersects and !(exports[iv] & 2)){
               exports[iv] |= 2;
               kount_above += 1.0;
-- 
2.43.0


From 4ca10e074404a5b7c28b80c90cce5920ae37491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 40/44] fix: do not project points along vanishing gradients
 far out of the domain

---
 SeismicMesh/generation/mesh_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 8e32627..8d35a58 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -815,7 +815,9 @@ def _project_points_back_newton(p, fd, deps, hmin, idx):
         dgrads = [(fd(p[ix] + _deps_vec(i)) - d[ix]) / deps for i in range(dim)]
         dgrad2 = sum(dgrad**2 for dgrad in dgrads)
         dgrad2 = np.where(dgrad2 < deps, deps, dgrad2)
-        p[ix] -= (d[ix] * np.vstack(dgrads) / dgrad2).T  # Project
+        pnew = p[ix] - (d[ix] * np.vstack(dgrads) / dgrad2).T  # Project
+        # a step along a vanishing gradient may lead far away: do not take it
+        p[ix] = np.where((fd(pnew) < d[ix] + hmin)[:, None], pnew, p[ix])
     return p
 
 
-- 
2.43.0


From 9689db090d587eb72e73aa0a97f294827fac0324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:01 +0000
Subject: [PATCH 41/44] fix: reject edge lengths that are not a number before
 meshing

---
 SeismicMesh/generation/mesh_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 8d35a58..1a10385 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -161,7 +161,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         h0 = sliver_opts["h0"]
 
     # check h0
-    if h0 <= 0:
+    if not h0 > 0:
         raise ValueError("`h0` must be > 0")
 
     if not sliver_opts["max_iter"] > 0:
@@ -416,7 +416,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         h0 = gen_opts["h0"]
 
     # check h0
-    if h0 <= 0:
+    if not h0 > 0:
         raise ValueError("`h0` must be > 0")
 
     # these parameters originate from the original DistMesh
-- 
2.43.0


From 4d2f8f115b4b7fa72f952ea74b723106b2f68355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:46 +0000
Subject: [PATCH 42/44] fix: save the picture of a shape if show is given a
 filename

---
 .../geometry/signed_distance_functions.py     | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index d85ef51..d853faa 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -265,7 +265,7 @@ class Repeat:
         return np.maximum(self.domain.eval(q), self.parent.eval(x))
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 def _loop_call(func, d):
@@ -312,7 +312,7 @@ class Union:
             return _loop_call(self._smooth_union, d)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Intersection:
@@ -352,7 +352,7 @@ class Intersection:
             return _loop_call(self._smooth_intersection, d)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Difference:
@@ -395,7 +395,7 @@ class Difference:
             return _loop_call(self._smooth_difference, d)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Disk:
@@ -416,7 +416,7 @@ class Disk:
         return _ddisk(x, self.xc, self.yc, self.r)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Ball:
@@ -440,7 +440,7 @@ class Ball:
         return dball(x, self.xc, self.yc, self.zc, self.r)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Rectangle:
@@ -461,7 +461,7 @@ class Rectangle:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Cube:
@@ -488,7 +488,7 @@ class Cube:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Torus:
@@ -512,7 +512,7 @@ class Torus:
         return _length(q) - self.t[1]
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Prism:
@@ -535,7 +535,7 @@ class Prism:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Cylinder:
@@ -562,7 +562,7 @@ class Cylinder:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 def _ddisk(p, xc, yc, r):
-- 
2.43.0


From ff27022a4ebd6b9ca237a1836f843aa38512096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:46 +0000
Subject: [PATCH 43/44] fix: plotting the sizing function on several ranks
 fails on all but the first

---
 SeismicMesh/sizing/mesh_size_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 0221044..10470cc 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -360,6 +360,7 @@ def plot_sizing_function(
 
     """
     comm = comm or MPI.COMM_WORLD
+    ax = None
     if comm.rank == 0:
 
         if not isinstance(cell_size, SizeFunction):
-- 
2.43.0


From 136fca29da388adff01acd603c2522110157cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:05 +0000
Subject: [PATCH 44/44] fix: limit size gradients on grids longer than 10000
 nodes

---
 SeismicMesh/sizing/mesh_size_function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 10470cc..48760b8 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -496,7 +496,9 @@ def _enforce_gradation_sizing(cell_size, grade, elen):
         sz = (sz[0], sz[1], 1)
 
     cell_size = cell_size.flatten("F")
-    tmp = limgrad([*sz], elen, grade, 10000, cell_size)
+    # against the order of the nodes, a size spreads by one node per iteration
+    max_iter = max(10000, cell_size.size + 1)
+    tmp = limgrad([*sz], elen, grade, max_iter, cell_size)
     if dim == 2:
         return np.reshape(tmp, (sz[0], sz[1]), "F")
     elif dim == 3:
-- 
2.43.0

