From 30c92ed7a63decb5bdf58f3d4746376cc76900b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:08 +0000
Subject: [PATCH 01/39] fix: use the z component in the y row of the global
 frame transform

---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 1f14705..fa9223d 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -205,7 +205,7 @@ class Vector3:
     ):
         """Change the coordinates from the local right-handed (RH) system at point c."""
         new_x = self.x * n.x + self.y * t1.x + self.z * t2.x
-        new_y = self.x * n.y + self.y * t1.y + self.y * t2.y
+        new_y = self.x * n.y + self.y * t1.y + self.z * t2.y
         new_z = self.x * n.z + self.y * t1.z + self.z * t2.z
         if c is not None:
             new_x += c.x
-- 
2.43.0


From c40790f4a925a7b3ec4de42aeab9e2b19603d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:26 +0000
Subject: [PATCH 02/39] fix: return NotImplemented from in-place vector
 division

---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index fa9223d..1fbdeb6 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -141,7 +141,7 @@ class Vector3:
             self._z /= other
             return self
         else:
-            return NotImplementedError
+            return NotImplemented
 
     def __abs__(self):
         """Returns magnitude."""
-- 
2.43.0


From 4d69997678dcd4e601e31af0687c356ab135fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:43 +0000
Subject: [PATCH 03/39] fix: close a polyline from its end back to its start

---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index e3d6bc0..8f9a6f1 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -96,7 +96,7 @@ class Polyline(Path):
             p0 = self.segments[0](0.0)
             p1 = self.segments[-1](1.0)
             if abs(p1 - p0) > tolerance:
-                self.segments.append(Line(p0, p1))
+                self.segments.append(Line(p1, p0))
         self.reset_breakpoints()
 
     def reset_breakpoints(self):
-- 
2.43.0


From 6360157512886a9c2c057e4de6e9ea7cced2c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:59 +0000
Subject: [PATCH 04/39] fix: return a new point from a single point Bezier
 curve

---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 8f9a6f1..9ad8be5 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -72,7 +72,7 @@ class Bezier(Path):
 
     def __call__(self, t):
         if len(self.B) == 1:
-            return self.B[0]
+            return Vector3(self.B[0])
         n_order = len(self.B) - 1
         # Apply de Casteljau's algorithm.
         Q = self.B.copy()  # work array will be overwritten
-- 
2.43.0


From 998f4825307cb0c6fd7ae3eb8f8d7bbef0bedcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:17 +0000
Subject: [PATCH 05/39] fix: evaluate only the selected polyline segments

Segments without length gave NaN, unselected segments were evaluated
outside their parameter range, and the point returned by the first
segment was modified in place.
---
 src/hypervehicle/geometry/path.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 9ad8be5..44a15aa 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -117,14 +117,21 @@ class Polyline(Path):
         return text
 
     def __call__(self, t):
-        n = len(self.segments)
-        if n == 1:
+        # Segments without length have no share of the parameter range
+        spans = [
+            span
+            for span in zip(self.segments, self.t_values[:-1], self.t_values[1:])
+            if span[2] > span[1]
+        ]
+        n = len(spans)
+        if n == 0:
             return self.segments[0](t)
+        if n == 1:
+            return spans[0][0](t)
 
-        f = self.segments[0](t)
-        f *= 0.0
+        f = spans[0][0](t) * 0.0
 
-        for i, tl, tu in zip(range(n), self.t_values[:-1], self.t_values[1:]):
+        for i, (seg, tl, tu) in enumerate(spans):
             t_local = (t - tl) / (tu - tl)
             if i == 0:
                 isokay = t_local <= 1.0
@@ -132,7 +139,8 @@ class Polyline(Path):
                 isokay = t_local > 0.0
             else:
                 isokay = np.logical_and(t_local > 0.0, t_local <= 1.0)
-            f += self.segments[i](t_local) * isokay
+            if np.any(isokay):
+                f += seg(t_local) * isokay
         return f
 
     def length(self):
-- 
2.43.0


From 05f6c1112872efba78ebd2aef77bdc32278bb37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:37 +0000
Subject: [PATCH 06/39] fix: report the length of the sub-range for a
 sub-ranged path

---
 src/hypervehicle/geometry/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 9e0919d..bda638c 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -32,8 +32,10 @@ class SubRangedPath(Path):
         t_dash = self.t0 + t * (self.t1 - self.t0)
         return self.underlying_path(t_dash)
 
-    def length(self):
-        return self.underlying_path.length()
+    def length(self, n=20):
+        if {self.t0, self.t1} == {0, 1}:
+            return self.underlying_path.length()
+        return super().length(n)
 
 
 class ReversedPath(SubRangedPath):
-- 
2.43.0


From 73c83679d7de61472846e77bb42c7f985802cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:56 +0000
Subject: [PATCH 07/39] fix: clamp the swept patch distance to the last section

---
 src/hypervehicle/geometry/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index bda638c..803da54 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -650,7 +650,9 @@ class SweptPatch(ParametricSurface):
 
     def __call__(self, r, s) -> Vector3:
         # Calculate physical axial distance
-        dist = self.min_origin + r * self.origin_dist
+        dist = min(
+            self.min_origin + r * self.origin_dist, self.section_origins[-1]
+        )
 
         # Find index of bounding cross sections
         for i, lv in enumerate(self.section_origins):
-- 
2.43.0


From c3c3822957f95170f1956b9c4325259fd7ca713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:14 +0000
Subject: [PATCH 08/39] fix: clamp the sweep parameter against rounding in
 SweptPatchfromEdges

---
 src/hypervehicle/geometry/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 803da54..2f27bed 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -703,6 +703,7 @@ class SweptPatchfromEdges(ParametricSurface):
 
     def __call__(self, r, s) -> Vector3:
         r_slices = np.linspace(0, 1, self.n_edges)
+        r = min(max(r, 0.0), 1.0)  # guard against rounding
         if r in r_slices:
             # can evaluate exactly
             i = np.where(r_slices == r)[0][0]
-- 
2.43.0


From 5d26b93c0b4e64ed52a5dbdfc900d41357dfca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:30 +0000
Subject: [PATCH 09/39] fix: use the j resolution for j clustering functions

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index ebfa8b0..757d09c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -74,7 +74,7 @@ def surfce_to_stl(
         r_list = default_vertex_func(lb=0.0, ub=1.0, steps=ni + 1, spacing=si)
 
     if j_clustering_func:
-        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, ni + 1)]
+        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, nj + 1)]
     else:
         s_list = default_vertex_func(lb=0.0, ub=1.0, steps=nj + 1, spacing=sj)
 
-- 
2.43.0


From 25da6594695be93746bfe6a36a8390f037b9b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:59 +0000
Subject: [PATCH 10/39] fix: end the default vertex distribution exactly at the
 upper bound

---
 src/hypervehicle/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 757d09c..07725ef 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -144,7 +144,9 @@ def surfce_to_stl(
 def default_vertex_func(lb, ub, steps, spacing=1.0):
     span = ub - lb
     dx = 1.0 / (steps - 1)
-    return np.array([lb + (i * dx) ** spacing * span for i in range(steps)])
+    vertices = np.array([lb + (i * dx) ** spacing * span for i in range(steps)])
+    vertices[-1] = ub  # not lost to rounding
+    return vertices
 
 
 def assess_inertial_properties(
-- 
2.43.0


From f532d97516e035ae991aaf865f4e0dbd43c12bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:17 +0000
Subject: [PATCH 11/39] fix: honour the s resolution of each patch

Per-edge resolutions used the r resolution in both directions, and
reflected patches had no resolution at all.
---
 src/hypervehicle/components/component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index b784f60..d165148 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -237,6 +237,9 @@ class Component(AbstractComponent):
             mirrored_patches = {}
             for key, patch in self.patches.items():
                 mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
+                for resolution in (self.patch_res_r, self.patch_res_s):
+                    if key in resolution:
+                        resolution[f"{key}_mirrored"] = resolution[key]
 
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
@@ -273,7 +276,7 @@ class Component(AbstractComponent):
             ]
         else:
             case_list = [
-                [k, patch, self.patch_res_r[k], self.patch_res_r[k]]
+                [k, patch, self.patch_res_r[k], self.patch_res_s[k]]
                 for k, patch in self.patches.items()
             ]
 
-- 
2.43.0


From 63c0dc568e26c9a4a305356ffe32635fa52dc6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:34 +0000
Subject: [PATCH 12/39] fix: keep component surfaces complete when meshing
 fails

Surfaces were filled in one by one, so a failure left a partial set that
was later used as the whole mesh. The worker pool was never closed, and
meshing again at another resolution kept the old mesh.
---
 src/hypervehicle/components/component.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index d165148..60eca09 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -290,14 +290,12 @@ class Component(AbstractComponent):
             )
             return (key, surface)
 
-        self.surfaces = {}
+        surfaces = {}
         if self._multiprocess is True:
-            # Initialise surfaces and pool
-            pool = Pool()
-
-            # Submit tasks
-            for result in pool.starmap(wrapper, case_list):
-                self.surfaces[result[0]] = result[1]
+            # Submit tasks to a pool, closed again afterwards
+            with Pool() as pool:
+                for result in pool.starmap(wrapper, case_list):
+                    surfaces[result[0]] = result[1]
 
         else:
             for case in case_list:
@@ -305,9 +303,13 @@ class Component(AbstractComponent):
                 pat = case[1]
                 print(f"START: Creating stl for '{k}'.")
                 result = wrapper(k, pat, case[2], case[3])
-                self.surfaces[result[0]] = result[1]
+                surfaces[result[0]] = result[1]
                 print(f"  DONE: Creating stl for '{k}'.")
 
+        # Save surfaces, and reset any mesh made from previous ones
+        self.surfaces = surfaces
+        self._mesh = None
+
     def to_vtk(self):
         raise NotImplementedError("This method has not been implemented yet.")
         # TODO - check for processed grids
-- 
2.43.0


From 5924f17749d1232f07c94dc2285181bf7ca0fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:53 +0000
Subject: [PATCH 13/39] fix: discard meshes of patches that have since been
 changed

---
 src/hypervehicle/components/component.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 60eca09..648f0ad 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -171,8 +171,14 @@ class Component(AbstractComponent):
             setattr(result, k, deepcopy(v, memo))
         return result
 
+    def _reset_mesh(self):
+        """Discards meshes made before the patches were changed."""
+        self.surfaces = None
+        self._mesh = None
+
     def curve(self):
         if self._curvatures is not None:
+            self._reset_mesh()
             for curvature in self._curvatures:
                 for key, patch in self.patches.items():
                     self.patches[key] = CurvedPatch(
@@ -206,6 +212,7 @@ class Component(AbstractComponent):
         self._mesh = value
 
     def rotate(self, angle: float = 0, axis: str = "y"):
+        self._reset_mesh()
         for key, patch in self.patches.items():
             self.patches[key] = RotatedPatch(patch, np.deg2rad(angle), axis=axis)
 
@@ -217,6 +224,7 @@ class Component(AbstractComponent):
             offset_function = offset
 
         # Could wrap it in a lambda if provided
+        self._reset_mesh()
         for key, patch in self.patches.items():
             self.patches[key] = OffsetPatchFunction(patch, offset_function)
 
@@ -227,12 +235,15 @@ class Component(AbstractComponent):
 
     def apply_modifier(self):
         if self._modifier_function:
+            self._reset_mesh()
             for key, patch in self.patches.items():
                 self.patches[key] = OffsetPatchFunction(patch, self._modifier_function)
 
     def reflect(self, axis: str = None):
         axis = self._reflection_axis if self._reflection_axis is not None else axis
         if axis is not None:
+            self._reset_mesh()
+
             # Create mirrored patches
             mirrored_patches = {}
             for key, patch in self.patches.items():
-- 
2.43.0


From cf16ae4d2930ca9cc35d51c385ef792bccec64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:08 +0000
Subject: [PATCH 14/39] fix: start from fresh patches each time a vehicle is
 generated

---
 src/hypervehicle/vehicle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index e143201..449b813 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -207,7 +207,10 @@ class Vehicle:
             if self.verbosity > 1:
                 print(f"  Generating patches for {component.componenttype} component.")
 
-            # Generate component patches
+            # Generate component patches, discarding any from a previous run
+            component.patches = {}
+            component.surfaces = None
+            component.mesh = None
             component.generate_patches()
 
             # Apply the modifier function
-- 
2.43.0


From b76bc8c406e27573652fea3b1d68bf4c390df7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:24 +0000
Subject: [PATCH 15/39] fix: apply curvature, reflection and transformations to
 composite children

The options accepted when adding a component to a composite had no effect.
---
 src/hypervehicle/components/composite.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index 1b1b17f..f83ea46 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -121,7 +121,12 @@ class CompositeComponent(Component):
     def generate_patches(self):
         # Generate child patches
         for component in self.components:
+            component.patches = {}
             component.generate_patches()
+            component.apply_modifier()
+            component.curve()
+            component.reflect()
+            component.transform()
 
         # Merge patches
         merged = {}
-- 
2.43.0


From ca37e53dd2ba885c3321fbd1e5f4a7667a78c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:45 +0000
Subject: [PATCH 16/39] fix: place circle patches at the z coordinate of their
 centre

---
 src/hypervehicle/components/common.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/components/common.py b/src/hypervehicle/components/common.py
index 7ed5bd9..f626071 100644
--- a/src/hypervehicle/components/common.py
+++ b/src/hypervehicle/components/common.py
@@ -29,12 +29,11 @@ def uniform_thickness_function(thickness: float, side: str):
 def circle_patch(centre: Vector3, r: float, plane: str = "xy") -> CoonsPatch:
     """Returns a parametric surface of a circle."""
     # TODO - planes other than xy
-    tr = Vector3(x=centre.x + r * np.cos(np.pi / 4), y=centre.y + r * np.sin(np.pi / 4))
-    tl = Vector3(x=centre.x - r * np.cos(np.pi / 4), y=centre.y + r * np.sin(np.pi / 4))
-    br = Vector3(x=centre.x + r * np.cos(np.pi / 4), y=centre.y - r * np.sin(np.pi / 4))
-    bl = Vector3(
-        x=centre.x - r * np.cos(np.pi / 4), y=centre.y + -r * np.sin(np.pi / 4)
-    )
+    d = r * np.cos(np.pi / 4)
+    tr = Vector3(x=centre.x + d, y=centre.y + d, z=centre.z)
+    tl = Vector3(x=centre.x - d, y=centre.y + d, z=centre.z)
+    br = Vector3(x=centre.x + d, y=centre.y - d, z=centre.z)
+    bl = Vector3(x=centre.x - d, y=centre.y - d, z=centre.z)
 
     n = Arc(a=tl, b=tr, c=centre)
     e = Arc(a=br, b=tr, c=centre)
-- 
2.43.0


From 5ab0b9d7db95eade4e475248eea0ed1e4a2e9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:01 +0000
Subject: [PATCH 17/39] fix: use the parallel axis theorem for vehicle inertia

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 07725ef..aadc816 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -220,7 +220,7 @@ def assess_inertial_properties(
     for component in vehicle._named_components:
         m = masses[component]
         r = cgs[component] - composite_cog
-        I_adj = inertias[component] + m * r**2
+        I_adj = inertias[component] + m * (np.dot(r, r) * np.eye(3) - np.outer(r, r))
 
         shifted_inertias[component] = I_adj
         composite_inertia += I_adj
-- 
2.43.0


From 8b0d0bc1485b65b2f60de9f06dec3baa1e65468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:17 +0000
Subject: [PATCH 18/39] fix: merge the STL files that were actually written

---
 src/hypervehicle/vehicle.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 449b813..288525f 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -336,6 +336,7 @@ class Vehicle:
             else:
                 print(f"{s}.")
 
+        filenames = []  # files written, excluding ghost components
         types_generated = {}
         for component in self.components:
             # Get component count
@@ -358,6 +359,8 @@ class Vehicle:
                 print(f"  Writing: {stl_name}                 ", end="\r")
 
             component.to_stl(stl_name)
+            if not component._ghost:
+                filenames.append(stl_name)
 
             # Update component count
             types_generated[component.componenttype] = no + 1
@@ -413,12 +416,6 @@ class Vehicle:
                 if not prefix:
                     prefix = self.name
 
-                # Get component names (excluding ghost components)
-                filenames = []
-                for name, comp in self._named_components.items():
-                    if not comp._ghost:
-                        # Append
-                        filenames.append(f"{name}.stl")
                 utilities.merge_stls(stl_files=filenames, name=prefix)
 
         if self.verbosity > 0:
-- 
2.43.0


From 8a6b61f3be3a7362f42109128f23dbc93c08522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:35 +0000
Subject: [PATCH 19/39] fix: write properties for a prefix that includes a
 directory

---
 src/hypervehicle/vehicle.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 288525f..0345fcc 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -372,20 +372,21 @@ class Vehicle:
 
             # Make analysis results directory
             properties_dir = f"{prefix}_properties"
+            file_prefix = os.path.basename(prefix)
             if not os.path.exists(properties_dir):
                 os.mkdir(properties_dir)
 
             # Write volume and mass to file
-            self._volmass.to_csv(os.path.join(properties_dir, f"{prefix}_volmass.csv"))
+            self._volmass.to_csv(os.path.join(properties_dir, f"{file_prefix}_volmass.csv"))
 
             # Write c.o.g. to file
             self.analysis_results["cog"].tofile(
-                os.path.join(properties_dir, f"{prefix}_cog.txt"), sep=", "
+                os.path.join(properties_dir, f"{file_prefix}_cog.txt"), sep=", "
             )
 
             # Write M.O.I. to file
             self.analysis_results["moi"].tofile(
-                os.path.join(properties_dir, f"{prefix}_moi.txt"), sep=", "
+                os.path.join(properties_dir, f"{file_prefix}_moi.txt"), sep=", "
             )
 
         # Write user-defined vehicle properties
@@ -395,12 +396,13 @@ class Vehicle:
 
             # Make analysis results directory
             properties_dir = f"{prefix}_properties"
+            file_prefix = os.path.basename(prefix)
             if not os.path.exists(properties_dir):
                 os.mkdir(properties_dir)
 
             # Write properties to file
             pd.Series(self.properties).to_csv(
-                os.path.join(properties_dir, f"{prefix}_properties.csv")
+                os.path.join(properties_dir, f"{file_prefix}_properties.csv")
             )
 
         # Merge STL components
-- 
2.43.0


From d3965dcdcead4f8172873847f87adbebed101073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:04 +0000
Subject: [PATCH 20/39] fix: face all sides of cubes and spheres outwards

Half of the faces were wound the other way, so the enclosed volume
cancelled to zero.
---
 src/hypervehicle/geometry/geometry.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 2f27bed..c5fc8e3 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -811,19 +811,19 @@ class CubePatch(ParametricSurface):
             z = -1.0 + 2.0 * s
         elif self.face == "west":
             x = -1.0
-            y = -1.0 + 2.0 * r
-            z = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "south":
             x = -1.0 + 2.0 * r
             y = -1.0
             z = -1.0 + 2.0 * s
         elif self.face == "north":
-            x = -1.0 + 2.0 * r
+            x = -1.0 + 2.0 * s
             y = 1.0
-            z = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "bottom":
-            x = -1.0 + 2.0 * r
-            y = -1.0 + 2.0 * s
+            x = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * r
             z = -1.0
         elif self.face == "top":
             x = -1.0 + 2.0 * r
@@ -871,19 +871,19 @@ class SpherePatch(ParametricSurface):
             z = -1.0 + 2.0 * s
         elif self.face == "west":
             x = -1.0
-            y = -1.0 + 2.0 * r
-            z = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "south":
             x = -1.0 + 2.0 * r
             y = -1.0
             z = -1.0 + 2.0 * s
         elif self.face == "north":
-            x = -1.0 + 2.0 * r
+            x = -1.0 + 2.0 * s
             y = 1.0
-            z = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "bottom":
-            x = -1.0 + 2.0 * r
-            y = -1.0 + 2.0 * s
+            x = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * r
             z = -1.0
         elif self.face == "top":
             x = -1.0 + 2.0 * r
-- 
2.43.0


From 24f9767a48f875095c3541521ebedaa381c7d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:27 +0000
Subject: [PATCH 21/39] fix: describe cube and Coons patches by their own
 values

---
 src/hypervehicle/geometry/geometry.py | 2 +-
 src/hypervehicle/geometry/surface.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index c5fc8e3..c9dd696 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -801,7 +801,7 @@ class CubePatch(ParametricSurface):
 
     def __repr__(self):
         return "Cube: a = {}, centre = {}".format(
-            self.r, self.centre
+            self.a, self.centre
         ) + "face = {}".format(self.face)
 
     def __call__(self, r, s):
diff --git a/src/hypervehicle/geometry/surface.py b/src/hypervehicle/geometry/surface.py
index 53ef201..d482ff5 100644
--- a/src/hypervehicle/geometry/surface.py
+++ b/src/hypervehicle/geometry/surface.py
@@ -90,7 +90,7 @@ class CoonsPatch(ParametricSurface):
     def __repr__(self):
         str = "CoonsPatch("
         if self.defined_by_corners:
-            str += f"p00={self.p00}, p10={self.p10}, p11={self.p10}, p01={self.p10}"
+            str += f"p00={self.p00}, p10={self.p10}, p11={self.p11}, p01={self.p01}"
         else:
             str += f"north={self.north}, east={self.east}, south={self.south}, west={self.west}"
         str += f", offset={self.offset})"
-- 
2.43.0


From b2ab1dc5ac0a0e39519a59d9d75006732ee162b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:51 +0000
Subject: [PATCH 22/39] fix: allow structured grids to be built and sub-divided

Vectors refused arrays of coordinates, a sub-grid could not be
constructed, and the tags were wrapped in a tuple.
---
 src/hypervehicle/geometry/surface.py | 6 ++++--
 src/hypervehicle/geometry/vector.py  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/geometry/surface.py b/src/hypervehicle/geometry/surface.py
index d482ff5..1aac518 100644
--- a/src/hypervehicle/geometry/surface.py
+++ b/src/hypervehicle/geometry/surface.py
@@ -160,7 +160,7 @@ class StructuredGrid:
             for cf in cf_list
         ]
         self.generate(surface, niv, njv, cf_list)
-        self.tags = (tags if tags is not None else ["", "", "", ""],)
+        self.tags = tags if tags is not None else ["", "", "", ""]
         self.label = label
 
     def __repr__(self):
@@ -206,7 +206,9 @@ class StructuredGrid:
         Returns a copy of a subgrid of vertices.
         Start at vertex i0,j0,k0 and extend for niv,njv,nkv vertices.
         """
-        new_grid = StructuredGrid(empty=True)
+        new_grid = StructuredGrid.__new__(StructuredGrid)
+        new_grid.tags = list(self.tags)
+        new_grid.label = self.label
         if self.dimensions == 3:
             new_xs = self.vertices.x[i0 : i0 + niv, j0 : j0 + njv, k0 : k0 + nkv].copy()
             new_ys = self.vertices.y[i0 : i0 + niv, j0 : j0 + njv, k0 : k0 + nkv].copy()
diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 1fbdeb6..dd1ac62 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -33,7 +33,7 @@ class Vector3:
             self._x = x.x
             self._y = x.y
             self._z = x.z
-        elif isinstance(x, (float, int, np.floating)):
+        elif isinstance(x, (float, int, np.floating, np.ndarray)):
             self._x = x
             self._y = y if y is not None else 0.0
             self._z = z if z is not None else 0.0
-- 
2.43.0


From 962c086597edb8ec72e95f513334afaf4acdcee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:12 +0000
Subject: [PATCH 23/39] fix: return the area check result when edges are not
 checked

---
 src/hypervehicle/components/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 648f0ad..3d66a40 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -417,6 +417,9 @@ class Component(AbstractComponent):
                     ),
                 )
             }
+        else:
+            return pass_flag
+
         undirected_edges = {frozenset((edge[:3], edge[3:])) for edge in directed_edges}
         edge_check = len(directed_edges) == 3 * mesh.data.size
         print(f"        len(directed_edges) == 3 * mesh.data.size")
-- 
2.43.0


From 8cbdf9aefe072b8265229d116007db76876356fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:34 +0000
Subject: [PATCH 24/39] fix: align sensitivities of all parameters on the same
 vertices

Duplicate vertices were dropped for each parameter separately, which left
missing entries in the combined table.
---
 src/hypervehicle/utilities.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index aadc816..407a567 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -434,12 +434,18 @@ class SensitivityStudy:
         if self.verbosity > 0:
             print("    Done.")
 
+        # Combine parameters, then delete duplicate vertices of each
+        component_sensitivities = self._combine(nominal_instance, sensitivities)
+        for components in sensitivities.values():
+            for component, df in components.items():
+                components[component] = df[~df.duplicated()]
+
         # Return output
         self.parameter_sensitivities = sensitivities
         self.scalar_sensitivities = analysis_sens
         self.component_scalar_sensitivities = component_analysis_sens
         self.property_sensitivities = property_sens
-        self.component_sensitivities = self._combine(nominal_instance, sensitivities)
+        self.component_sensitivities = component_sensitivities
         self.nominal_vehicle_instance = nominal_instance
 
         if self.verbosity > 0:
@@ -594,9 +600,6 @@ class SensitivityStudy:
         # Merge dataframes
         df = df.merge(sensitivities, left_index=True, right_index=True)
 
-        # Delete duplicate vertices
-        df = df[~df.duplicated()]
-
         return df
 
     @staticmethod
@@ -614,7 +617,8 @@ class SensitivityStudy:
                 ]
                 df = pd.concat([df, p_s], axis=1)
 
-            allsens[component] = df
+            # Delete duplicate vertices
+            allsens[component] = df[~df.duplicated()]
 
         return allsens
 
-- 
2.43.0


From 93e095ef48c0c5ea58f693bfd8a01f18469808fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:56 +0000
Subject: [PATCH 25/39] fix: leave the list of sensitivity files passed in
 unchanged

---
 src/hypervehicle/utilities.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 407a567..cd329e7 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -704,11 +704,7 @@ def append_sensitivities_to_tri(
     points_df = pd.DataFrame(points_data_list, columns=["x", "y", "z"]).dropna()
 
     # Ensure previous components sensitivity file is not included
-    try:
-        del dp_filenames[dp_filenames.index(combined_sens_fn)]
-    except ValueError:
-        # It is not in there
-        pass
+    dp_filenames = [fn for fn in dp_filenames if fn != combined_sens_fn]
 
     # Load and concatenate sensitivity data across components
     dp_df = pd.DataFrame()
-- 
2.43.0


From 30d6e808d6b6b990c816ffa1c26878e67a1c5df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:18 +0000
Subject: [PATCH 26/39] fix: read parameter names containing "dxd" from
 sensitivity columns

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index cd329e7..4faad5c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -716,7 +716,7 @@ def append_sensitivities_to_tri(
     parameters = []
     param_cols = dp_df.columns[3:]
     for i in range(int(len(param_cols) / 3)):
-        parameters.append(param_cols[int(i * 3)].split("dxd")[-1])
+        parameters.append(param_cols[int(i * 3)][len("dxd") :])
 
     # Match points_df to sensitivity df
     if verbosity > 0:
-- 
2.43.0


From d0d191ad68ca69cc7761fdcd3ee71750088455d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:03 +0000
Subject: [PATCH 27/39] fix: use the second discretisation point given for a
 wing

---
 src/hypervehicle/components/wing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 498800d..9029269 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -163,7 +163,7 @@ class Wing(Component):
         if self.params["t_B2"] == None:
             self.t_B2 = 0.5 * (1 + self.t_B1)
         else:
-            self.t_B2 = self.params["t_B1"]
+            self.t_B2 = self.params["t_B2"]
 
         # Save other params
         self.TE_top = None
-- 
2.43.0


From b235d17c11a40ad1a586176f2fe01a4ddfd5aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:29 +0000
Subject: [PATCH 28/39] fix: close a flat leading edge wing without an
 elliptical nose

Closing a wing with a flat leading edge failed for want of a leading edge
width function, or added an elliptical face that belongs to no edge.
---
 src/hypervehicle/components/wing.py | 58 +++++++++++++++--------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 9029269..ae36df0 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -529,42 +529,46 @@ class Wing(Component):
             west=mid_vert_bot,
         )
 
-        elipse_top = ElipsePath(
-            centre=TT_mid,
-            thickness=TT_mid.z - TT_top.z,
-            LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
-            side="top",
-        )
-        elipse_bot = ElipsePath(
-            centre=TT_mid,
-            thickness=TT_mid.z - TT_bot.z,
-            LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
-            side="bot",
-        )
-        elipse_top = ArcLengthParameterizedPath(underlying_path=elipse_top)
-        elipse_bot = ArcLengthParameterizedPath(underlying_path=elipse_bot)
+        # Close the interior of the elliptical LE
+        interior_ellip = None
+        if self.params["LE_TYPE"] != "FLAT":
+            elipse_top = ElipsePath(
+                centre=TT_mid,
+                thickness=TT_mid.z - TT_top.z,
+                LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
+                side="top",
+            )
+            elipse_bot = ElipsePath(
+                centre=TT_mid,
+                thickness=TT_mid.z - TT_bot.z,
+                LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
+                side="bot",
+            )
+            elipse_top = ArcLengthParameterizedPath(underlying_path=elipse_top)
+            elipse_bot = ArcLengthParameterizedPath(underlying_path=elipse_bot)
 
-        # Now reverse the paths for correct orientation
-        elipse_bot = SubRangedPath(underlying_path=elipse_bot, t0=1.0, t1=0.0)
+            # Now reverse the paths for correct orientation
+            elipse_bot = SubRangedPath(underlying_path=elipse_bot, t0=1.0, t1=0.0)
 
-        interior_ellip = CoonsPatch(
-            north=elipse_bot,
-            east=elipse_top,
-            south=Line(p0=TT_mid, p1=TT_top),
-            west=Line(p0=TT_mid, p1=TT_bot),
-        )
+            interior_ellip = CoonsPatch(
+                north=elipse_bot,
+                east=elipse_top,
+                south=Line(p0=TT_mid, p1=TT_top),
+                west=Line(p0=TT_mid, p1=TT_bot),
+            )
 
-        # Rotate patch
-        interior_ellip = RotatedPatch(
-            interior_ellip, np.deg2rad(-90), axis="z", point=TT_mid
-        )
+            # Rotate patch
+            interior_ellip = RotatedPatch(
+                interior_ellip, np.deg2rad(-90), axis="z", point=TT_mid
+            )
 
         # Append to patch_dict
         self.patches["wing_close_top_patch0"] = interior_top_patch0
         self.patches["wing_close_top_patch1"] = interior_top_patch1
         self.patches["wing_close_bot_patch0"] = interior_bot_patch0
         self.patches["wing_close_bot_patch1"] = interior_bot_patch1
-        self.patches["interior_ellip"] = interior_ellip
+        if interior_ellip is not None:
+            self.patches["interior_ellip"] = interior_ellip
 
         # Interior TE
         TE_point = Vector3(
-- 
2.43.0


From 741454b4c9966ca86e078289e7ccfbbf36d29291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:04 +0000
Subject: [PATCH 29/39] fix: change to the local frame in place when an origin
 is given

Subtracting the origin created a new vector, so the vector itself kept
its global coordinates.
---
 src/hypervehicle/geometry/vector.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index dd1ac62..12360b8 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -220,12 +220,11 @@ class Vector3:
         self, n: Vector3, t1: Vector3, t2: Vector3, c: Vector3 = None
     ):
         """Change coordinates into the local right-handed (RH) system at point c."""
-        if c is not None:
-            self -= c
+        p = self if c is None else self - c
 
-        x = self.dot(n)
-        y = self.dot(t1)
-        z = self.dot(t2)
+        x = p.dot(n)
+        y = p.dot(t1)
+        z = p.dot(t2)
 
         self._x = x
         self._y = y
-- 
2.43.0


From 142581bfeddd4d602aa2b3b7bdfddfc3686d010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:11 +0000
Subject: [PATCH 30/39] fix: count every point of a polyline once

Rounding of the local parameter could select two neighbouring segments
just after a joint, which doubled the returned coordinates.
---
 src/hypervehicle/geometry/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 44a15aa..a72b093 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -134,11 +134,11 @@ class Polyline(Path):
         for i, (seg, tl, tu) in enumerate(spans):
             t_local = (t - tl) / (tu - tl)
             if i == 0:
-                isokay = t_local <= 1.0
+                isokay = t <= tu
             elif i == n - 1:
-                isokay = t_local > 0.0
+                isokay = t > tl
             else:
-                isokay = np.logical_and(t_local > 0.0, t_local <= 1.0)
+                isokay = np.logical_and(t > tl, t <= tu)
             if np.any(isokay):
                 f += seg(t_local) * isokay
         return f
-- 
2.43.0


From 82b1426a97facb304e3d88abda533534a58caa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:48 +0000
Subject: [PATCH 31/39] fix: sum the triangle areas to a scalar

The areas form a column, so their sum was an array of one element, which
current numpy refuses to convert. Every inertial analysis raised.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 4faad5c..26bb972 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -194,7 +194,7 @@ def assess_inertial_properties(
         )
 
         # Also calculate surface area
-        area = float(sum(component.mesh.areas))
+        area = float(np.sum(component.mesh.areas))
 
         # Save component result
         volumes[name] = volume
-- 
2.43.0


From 783a57541c79639b354672dbf918ba6d85ed5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:39 +0000
Subject: [PATCH 32/39] fix: report a StopIteration raised while meshing a
 patch

The pool takes a StopIteration of the meshing function for the end of its
list of patches, so the remaining patches went missing from the mesh
without an error.
---
 src/hypervehicle/components/component.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 3d66a40..939f8c7 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -293,12 +293,16 @@ class Component(AbstractComponent):
 
         # Prepare multiprocessing arguments iterable
         def wrapper(key: str, patch: ParametricSurface, res_r: int, res_s: int):
-            surface = surfce_to_stl(
-                parametric_surface=patch,
-                triangles_per_edge_r=res_r,
-                triangles_per_edge_s=res_s,
-                **self._clustering,
-            )
+            try:
+                surface = surfce_to_stl(
+                    parametric_surface=patch,
+                    triangles_per_edge_r=res_r,
+                    triangles_per_edge_s=res_s,
+                    **self._clustering,
+                )
+            except StopIteration as e:
+                # The pool would take it for the end of the case list
+                raise RuntimeError(f"Meshing of patch '{key}' stopped early.") from e
             return (key, surface)
 
         surfaces = {}
-- 
2.43.0


From 53bba61336a6d34c7c1ecd518b3d3c174ec5c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:39:10 +0000
Subject: [PATCH 33/39] fix: round matched sensitivities in a copy

Selecting the parameter columns of the matched row gives a read-only view
under copy-on-write, so appending raised on the first matching point.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 26bb972..20c83ac 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -736,7 +736,7 @@ def append_sensitivities_to_tri(
         match = match_x & match_y & match_z
         try:
             # TODO - what if there are multiple matches? (due to intersect perturbations)
-            matched_data = dp_df[match].iloc[0][param_cols].values
+            matched_data = dp_df[match].iloc[0][param_cols].to_numpy(copy=True)
 
             # Round off infinitesimally small values
             matched_data[abs(matched_data) < rounding_tolerance] = 0
-- 
2.43.0


From 40226602edffd71789ace9ba934ca550c722a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:39:36 +0000
Subject: [PATCH 34/39] fix: tolerate rounding at the ends of the D-21 leading
 edge

The trailing edge of the wing can lie one rounding error beyond the end of
the leading edge, where the local span could not be found. Many wing
lengths therefore raised an error.
---
 src/hypervehicle/hangar/d21.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypervehicle/hangar/d21.py b/src/hypervehicle/hangar/d21.py
index ce737ff..4b1c1f4 100644
--- a/src/hypervehicle/hangar/d21.py
+++ b/src/hypervehicle/hangar/d21.py
@@ -108,6 +108,8 @@ class ParametricD21(Generator):
 
         def local_ws(x):
             """Calculates the local wingspan."""
+            # Rounding can place x just beyond the ends of the leading edge
+            x = min(max(x, Line_B0TT(0.0).x), Line_B0TT(1.0).x)
             func = lambda t: Line_B0TT(t).x - x
             t = bisect(func, 0.0, 1.0)
             return Line_B0TT(t).y
-- 
2.43.0


From 7aed9e0cd61453f6c75197af4ffcf78adddb8e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:29:12 +0000
Subject: [PATCH 35/39] fix: keep a composite's clustering options apart from
 the caller's

The dictionary given for a part of a composite was stored as it is, so
adding options to the part later changed the caller's dictionary and every
other part that was given it.
---
 src/hypervehicle/components/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index f83ea46..3898f66 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -106,7 +106,7 @@ class CompositeComponent(Component):
 
             # Add component clustering
             if clustering is not None:
-                component._clustering = clustering
+                component._clustering = dict(clustering)
 
             # Add transformations
             if transformations is not None:
-- 
2.43.0


From c09b31151bbe539467382b29b00dc22f4a445baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:49:30 +0000
Subject: [PATCH 36/39] fix: merge the files of a silent vehicle silently

---
 src/hypervehicle/vehicle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 0345fcc..5dabd40 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -418,7 +418,9 @@ class Vehicle:
                 if not prefix:
                     prefix = self.name
 
-                utilities.merge_stls(stl_files=filenames, name=prefix)
+                utilities.merge_stls(
+                    stl_files=filenames, name=prefix, verbosity=self.verbosity
+                )
 
         if self.verbosity > 0:
             print("\rAll components written to STL file format.", end="\n")
-- 
2.43.0


From dc9cf93806ba44104a1ea9ac8f61cfb31483db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:52 +0000
Subject: [PATCH 37/39] fix: evaluate a surface once per offset, not twice

Every translation in a chain doubled the number of evaluations.
---
 src/hypervehicle/geometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index c9dd696..969f70e 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -161,7 +161,7 @@ class OffsetPatchFunction(ParametricSurface):
     def __call__(self, r, s):
         pos = self.underlying_surf(r, s)
         offset = self.function(pos.x, pos.y, pos.z)
-        return self.underlying_surf(r, s) + offset
+        return pos + offset
 
 
 class LeadingEdgePatchFunction(ParametricSurface):
-- 
2.43.0


From fd286af901ea104e8af7f8cf53862e557fbed9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:49:18 +0000
Subject: [PATCH 38/39] fix: keep earlier mirror images when a component is
 reflected again

---
 src/hypervehicle/components/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 939f8c7..8c4a768 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -247,10 +247,14 @@ class Component(AbstractComponent):
             # Create mirrored patches
             mirrored_patches = {}
             for key, patch in self.patches.items():
-                mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
+                # Keep clear of the names given by an earlier reflection
+                mirrored_key = f"{key}_mirrored"
+                while mirrored_key in self.patches or mirrored_key in mirrored_patches:
+                    mirrored_key += "_mirrored"
+                mirrored_patches[mirrored_key] = MirroredPatch(patch, axis=axis)
                 for resolution in (self.patch_res_r, self.patch_res_s):
                     if key in resolution:
-                        resolution[f"{key}_mirrored"] = resolution[key]
+                        resolution[mirrored_key] = resolution[key]
 
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
-- 
2.43.0


From 74a7133492391a474db562b4f7270f0762835c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:34:36 +0000
Subject: [PATCH 39/39] fix: let the closure tolerance of swept sections grow
 with their size

---
 src/hypervehicle/components/swept.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/components/swept.py b/src/hypervehicle/components/swept.py
index 72dcfba..ba8bba0 100644
--- a/src/hypervehicle/components/swept.py
+++ b/src/hypervehicle/components/swept.py
@@ -58,10 +58,12 @@ class SweptComponent(Component):
                     ip = 0
                 p1 = cs[i](1)
                 p0 = cs[ip](0)
+                # rounding grows with the coordinates
+                tolerance = small_number * max(1.0, abs(p0), abs(p1))
                 if (
-                    abs(p0.x - p1.x) > small_number
-                    or abs(p0.y - p1.y) > small_number
-                    or abs(p0.z - p1.z) > small_number
+                    abs(p0.x - p1.x) > tolerance
+                    or abs(p0.y - p1.y) > tolerance
+                    or abs(p0.z - p1.z) > tolerance
                 ):
                     raise Exception(
                         f"Swept Component {self.name}, Slice {ns}, edges not closed.\n"
-- 
2.43.0

