From db27a058c27dbd59eb26465793d85f8687ca158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 01/64] fix: do not reverse the connectivity of the surface
 passed to Volume

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 09cdff9..e22d041 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -380,7 +380,7 @@ def generate_volume_from_two_surfaces(
         for ic, (i1, i2, celltype) in enumerate(
             zip(offset[:-1], offset[1:], celltypes)
         ):
-            cell = cell_connectivity[i1:i2]
+            cell = cell_connectivity[i1:i2].copy()
 
             # Handle pixel/voxel (convert to quad/hexahedron)
             if celltype == pv.CellType.VOXEL:
-- 
2.43.0


From 539769de6f2fd1c7bdffaec933c8aeb99b356c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 02/64] fix: orient extruded polyhedra from the whole base
 polygon

---
 pvgridder/core/_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index e22d041..37a37aa 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -396,10 +396,13 @@ def generate_volume_from_two_surfaces(
                 if invert_polyhedron_faces:
                     # Polyhedron faces must be ordered such that normal vectors point outwards
                     # Determine whether base face needs to be reversed
-                    p0, p1, p2 = points[faces[0][:3]]
-                    p3 = points[faces[1][0]]
+                    # (area vector of the whole polygon: it may be concave)
+                    base = points[faces[0]]
+                    rel = base - base[0]
+                    normal = np.cross(rel, np.roll(rel, -1, axis=0)).sum(axis=0)
+                    direction = (points[faces[1]] - base).mean(axis=0)
 
-                    if np.cross(p1 - p0, p2 - p0) @ (p3 - p0) >= 0.0:
+                    if normal @ direction >= 0.0:
                         faces[0][:] = faces[0][::-1]
                         faces[1][:] = faces[1][::-1]
 
-- 
2.43.0


From 37aad6e62a4cd5937e8570a5d0bcbde32f6251d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 03/64] fix: flag a swept cell as collapsed exactly when its
 two ends coincide

---
 pvgridder/core/_helpers.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 37a37aa..a1d50ce 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -337,10 +337,18 @@ def generate_volume_from_two_surfaces(
         mesh = pv.StructuredGrid(X, Y, Z)
 
         # Handle collapsed cells
-        volumes = mesh.compute_cell_sizes(
-            length=False, area=False, volume=True
-        ).cell_data["Volume"]
-        inactive = np.abs(volumes) == 0.0
+        # The volume of a collapsed cell is not exactly zero on a warped surface
+        inactive = np.all(
+            [np.isclose(np.diff(v, axis=axis), 0.0) for v in (X, Y, Z)], axis=0
+        )
+
+        for i in range(3):
+            if i != axis:
+                inactive = np.logical_and(
+                    np.delete(inactive, -1, axis=i), np.delete(inactive, 0, axis=i)
+                )
+
+        inactive = inactive.ravel(order="F")
 
         # Repeat data
         shape = surface_a.dimensions
@@ -368,6 +376,7 @@ def generate_volume_from_two_surfaces(
 
         perc = resolution_to_perc(resolution, method)[:, np.newaxis, np.newaxis]
         points = points_a + perc * (points_b - points_a)
+        coincident = np.isclose(np.diff(points, axis=0), 0.0).all(axis=-1)
         points = points.reshape((n_points * perc.size, 3))
 
         n = perc.size - 1
@@ -390,7 +399,7 @@ def generate_volume_from_two_surfaces(
             faces = [cell, cell + n_points]
 
             # Handle collapsed cells
-            is_collapsed = np.allclose(*points[faces])
+            is_collapsed = coincident[:, cell].all(axis=1)
 
             if celltype == pv.CellType.POLYHEDRON:
                 if invert_polyhedron_faces:
@@ -422,14 +431,14 @@ def generate_volume_from_two_surfaces(
                         [[face.size, *(face + (i * n_points))] for face in faces]
                     )
                     cells_ += [cell.size + 1, n_faces, *cell]
-                    inactive[i].append(is_collapsed)
+                    inactive[i].append(is_collapsed[i])
 
             else:
                 cell = np.concatenate(faces)
 
                 for i, cells_ in enumerate(cells):
                     cells_ += [cell.size, *(cell + (i * n_points))]
-                    inactive[i].append(is_collapsed)
+                    inactive[i].append(is_collapsed[i])
 
         cells = np.concatenate(cells)
         inactive = np.concatenate(inactive)
-- 
2.43.0


From 32d030304f9a3449ef2cd42c95161251c2678b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 04/64] fix: keep the shape of vector data swept from a
 single-cell structured grid

---
 pvgridder/core/_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index a1d50ce..3e9b5b3 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -545,9 +545,10 @@ def repeat_structured_data(
 
     """
     data = np.asanyarray(data)
-    data = data if data.ndim == 2 else data[:, np.newaxis]
+    ndim = data.ndim
+    data = data if ndim == 2 else data[:, np.newaxis]
 
-    return np.column_stack(
+    repeated_data = np.column_stack(
         [
             np.repeat(
                 v.reshape(shape, order="F"),
@@ -556,7 +557,9 @@ def repeat_structured_data(
             ).ravel(order="F")
             for v in data.T
         ]
-    ).squeeze()
+    )
+
+    return repeated_data if ndim == 2 else repeated_data[:, 0]
 
 
 def translate(
-- 
2.43.0


From ef5014ac10ae83036e1fe00f2994f49f8488f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 05/64] fix: repeat line data in the right order for surfaces
 in transposed planes

---
 pvgridder/core/_helpers.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 3e9b5b3..7cc001c 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -210,13 +210,23 @@ def generate_surface_from_two_lines(
     mesh = pv.StructuredGrid(X, Y, Z)
 
     if isinstance(line_a, pv.PolyData):
+        # The swept direction is the fastest one for transposed planes
+        transposed = plane in {"yx", "zx", "zy"}
         reps = (perc.size, 1)
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.point_data[k] = (
+                np.repeat(v, perc.size, axis=0)
+                if transposed
+                else np.tile(v, reps[: v.ndim]).copy()
+            )
 
         reps = (perc.size - 1, 1)
         for k, v in line_a.cell_data.items():
-            mesh.cell_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.cell_data[k] = (
+                np.repeat(v, perc.size - 1, axis=0)
+                if transposed
+                else np.tile(v, reps[: v.ndim]).copy()
+            )
 
     # Handle collapsed cells
     if "vtkGhostType" not in mesh.cell_data:
-- 
2.43.0


From 70e60611132a5e9f9d25f27e2c96b419759923d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 06/64] fix: column and layer ids of structured stacks and
 extrusions along X or Y

---
 pvgridder/core/_base.py   | 13 +++++++------
 pvgridder/core/extrude.py | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index e2263ee..0358fce 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -488,15 +488,16 @@ class MeshStackBase(MeshBase):
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
 
             else:
+                mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
                 mesh_b = extrude(mesh_a, item2.mesh, item2.resolution, item2.method)
                 nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
-                mesh_b.cell_data["ColumnId"] = np.tile(
-                    np.arange(mesh_a.n_cells), nsub
-                ).copy()
 
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, repeats
-            ).copy()
+            # Sublayers are ordered within a column whatever the stacking axis
+            layer_ids = np.empty(mesh_b.n_cells, dtype=int)
+            layer_ids[np.argsort(mesh_b.cell_data["ColumnId"], kind="stable")] = (
+                np.tile(np.arange(nsub) + n_layers, repeats)
+            )
+            mesh_b.cell_data["LayerId"] = layer_ids
             mesh_b.cell_data["StackItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index b95a752..6508b6b 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -175,17 +175,18 @@ class MeshExtrude(MeshBase):
                 mesh_a, groups, item2.group
             )
 
+            mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
             mesh_b = generate_volume_from_two_surfaces(
                 mesh_a, item2.mesh, item2.resolution, item2.method
             )
 
+            # Sublayers are ordered within a column whatever the extrusion axis
             nsub = mesh_b.n_cells // mesh_a.n_cells
-            mesh_b.cell_data["ColumnId"] = np.tile(
-                np.arange(mesh_a.n_cells), nsub
-            ).copy()
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, mesh_a.n_cells
-            ).copy()
+            layer_ids = np.empty(mesh_b.n_cells, dtype=int)
+            layer_ids[np.argsort(mesh_b.cell_data["ColumnId"], kind="stable")] = (
+                np.tile(np.arange(nsub) + n_layers, mesh_a.n_cells)
+            )
+            mesh_b.cell_data["LayerId"] = layer_ids
             mesh_b.cell_data["ExtrudeItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
-- 
2.43.0


From 82884bcc5ff1357775a88bb65cad29d757f7510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 07/64] fix: look up base group names in the base mesh
 numbering

---
 pvgridder/core/_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 0358fce..fd5ae62 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -151,15 +151,18 @@ class MeshBase(ABC):
             if isinstance(group, str):
                 group = {group: np.ones(size, dtype=bool)}
 
+            # Names are those of the groups in the mesh, with its own numbering
+            mesh_groups = mesh.user_dict.get("CellGroup", {})
+
             for k, v in group.items():
                 if hasattr(v, "__call__"):
                     mask = v(mesh)
 
                 elif isinstance(v, str):
                     mask = (
-                        mesh.cell_data["CellGroup"] != groups[v[1:]]
+                        mesh.cell_data["CellGroup"] != mesh_groups[v[1:]]
                         if v.startswith("~")
-                        else mesh.cell_data["CellGroup"] == groups[v]
+                        else mesh.cell_data["CellGroup"] == mesh_groups[v]
                     )
 
                 elif isinstance(v, (list, tuple, np.ndarray)) and all(
@@ -169,9 +172,9 @@ class MeshBase(ABC):
 
                     for cid in v:
                         mask |= (
-                            mesh.cell_data["CellGroup"] != groups[cid[1:]]
+                            mesh.cell_data["CellGroup"] != mesh_groups[cid[1:]]
                             if cid.startswith("~")
-                            else mesh.cell_data["CellGroup"] == groups[cid]
+                            else mesh.cell_data["CellGroup"] == mesh_groups[cid]
                         )
 
                 else:
-- 
2.43.0


From 72a866ffa18b6961a4a9ea809f6f01226fc029dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 08/64] fix: generating a stack does not move its items

---
 pvgridder/core/_base.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index fd5ae62..5056c98 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -447,14 +447,17 @@ class MeshStackBase(MeshBase):
 
         groups = {}
 
-        # Cut intersecting meshes w.r.t. priority
-        for item1, item2 in zip(self.items[:-1], self.items[1:]):
+        # Cut copies of intersecting meshes w.r.t. priority
+        item_meshes = [item.mesh.copy() for item in self.items]
+
+        for i, (item1, item2) in enumerate(zip(self.items[:-1], self.items[1:])):
             if item2.transition:
                 continue
 
+            mesh1, mesh2 = item_meshes[i], item_meshes[i + 1]
             shift = (
-                item2.mesh.points[:, self.axis]
-                - item1.mesh.points[:, self.axis]
+                mesh2.points[:, self.axis]
+                - mesh1.points[:, self.axis]
                 - item2.thickness
             )
 
@@ -462,37 +465,41 @@ class MeshStackBase(MeshBase):
                 shift *= -1.0
 
             if item2.priority < item1.priority:
-                item2.mesh.points[:, self.axis] = np.where(  # type: ignore
+                mesh2.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    item2.mesh.points[:, self.axis] - shift,
-                    item2.mesh.points[:, self.axis],
+                    mesh2.points[:, self.axis] - shift,
+                    mesh2.points[:, self.axis],
                 )
 
             else:
-                item1.mesh.points[:, self.axis] = np.where(  # type: ignore
+                mesh1.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    item1.mesh.points[:, self.axis] + shift,
-                    item1.mesh.points[:, self.axis],
+                    mesh1.points[:, self.axis] + shift,
+                    mesh1.points[:, self.axis],
                 )
 
         # Generate submeshes
         meshes = []
         n_layers = 0
 
-        for i, (item1, item2) in enumerate(zip(self.items[:-1], self.items[1:])):
-            mesh_a = item1.mesh.copy()
+        for i, item2 in enumerate(self.items[1:]):
+            mesh_a = item_meshes[i].copy()
             mesh_a.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_a, groups, item2.group
             )
 
             if item2.transition:
-                mesh_b = self._transition(mesh_a, item2.mesh, groups, item2.group)
+                mesh_b = self._transition(
+                    mesh_a, item_meshes[i + 1], groups, item2.group
+                )
                 nsub, repeats = 1, mesh_b.n_cells
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
 
             else:
                 mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
-                mesh_b = extrude(mesh_a, item2.mesh, item2.resolution, item2.method)
+                mesh_b = extrude(
+                    mesh_a, item_meshes[i + 1], item2.resolution, item2.method
+                )
                 nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
 
             # Sublayers are ordered within a column whatever the stacking axis
-- 
2.43.0


From 5043a982b0602ae630d5516f28c885b7dafebd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 09/64] fix: cut intersecting items of top-down stacks in the
 stacking direction

---
 pvgridder/core/_base.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 5056c98..dbec504 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -455,27 +455,18 @@ class MeshStackBase(MeshBase):
                 continue
 
             mesh1, mesh2 = item_meshes[i], item_meshes[i + 1]
-            shift = (
-                mesh2.points[:, self.axis]
-                - mesh1.points[:, self.axis]
-                - item2.thickness
-            )
-
-            if not self.bottom_up:
-                shift *= -1.0
+            z1, z2 = mesh1.points[:, self.axis], mesh2.points[:, self.axis]
+            sign = 1.0 if self.bottom_up else -1.0
+            mask = sign * (z2 - z1) < item2.thickness
 
             if item2.priority < item1.priority:
                 mesh2.points[:, self.axis] = np.where(  # type: ignore
-                    shift < 0.0,
-                    mesh2.points[:, self.axis] - shift,
-                    mesh2.points[:, self.axis],
+                    mask, z1 + sign * item2.thickness, z2
                 )
 
             else:
                 mesh1.points[:, self.axis] = np.where(  # type: ignore
-                    shift < 0.0,
-                    mesh1.points[:, self.axis] + shift,
-                    mesh1.points[:, self.axis],
+                    mask, z2 - sign * item2.thickness, z1
                 )
 
         # Generate submeshes
-- 
2.43.0


From 38dccf3ef35f598a116b606039c61f4c3a8d7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 10/64] fix: generating a merged mesh does not renumber the
 groups of its items

---
 pvgridder/core/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 7a55487..aed03dd 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -92,7 +92,7 @@ class MeshMerge(MeshBase):
         groups = {}
 
         for i, item in enumerate(self.items):
-            mesh_b = cast(pv.UnstructuredGrid, item.mesh)
+            mesh_b = cast(pv.UnstructuredGrid, item.mesh.copy())
             mesh_b.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_b, groups, default_group=item.group
             )
-- 
2.43.0


From 17c9369e94ee8332e7adbc3e220d810932bfcfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 11/64] fix: add_plane does not modify the angles passed to it

---
 pvgridder/core/stack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index e5d1d9f..9122e78 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -207,8 +207,8 @@ class MeshStack3D(MeshStackBase):
         """
         from scipy.spatial.transform import Rotation
 
-        angles = np.asanyarray(angles)
-        point = np.asanyarray(point)
+        angles = np.array(angles, dtype=float)
+        point = np.array(point, dtype=float)
 
         angles[self.axis] = 0.0
         rot = Rotation.from_rotvec(angles, degrees=True)
-- 
2.43.0


From c5ea5772b1c92eff60e6293281fa0b9bb0e64d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 12/64] fix: interpolate stack items from unsorted lines and
 from any dataset

---
 pvgridder/core/_base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index dbec504..0f1446d 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -382,7 +382,7 @@ class MeshStackBase(MeshBase):
             Self (for daisy chaining).
 
         """
-        if isinstance(arg, (pv.PolyData, pv.StructuredGrid, pv.UnstructuredGrid)):
+        if isinstance(arg, pv.DataSet):
             mesh = self._interpolate(arg.points, extrapolation)
 
         elif callable(arg):
@@ -549,13 +549,11 @@ class MeshStackBase(MeshBase):
 
         else:
             idx = idx[0]
+            points = points[np.argsort(points[:, idx], kind="stable")]
             x = mesh.points[:, idx]
             xp = points[:, idx]
 
-            if (
-                not (xp[0] <= x[0] <= xp[-1] and xp[0] <= x[-1] <= xp[-1])
-                and not extrapolation
-            ):
+            if (x.min() < xp[0] or x.max() > xp[-1]) and not extrapolation:
                 raise ValueError(
                     "could not interpolate from points not fully enclosing base mesh"
                 )
-- 
2.43.0


From 5d82f59409578f7f83a50021163a7860a3fa94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 13/64] fix: offset_polygon keeps the plane and does not depend
 on the starting vertex

---
 pvgridder/utils/_misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4a60381..049e24f 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1125,6 +1125,7 @@ def offset_polygon(
         # Simple polygon offset algorithm
         # Vectorized version of C# code
         # <https://stackoverflow.com/a/73061541/9729313>
+        plane = points[0, axis]
         points = points[:, ~mask]
         points = np.vstack(
             (
@@ -1134,7 +1135,7 @@ def offset_polygon(
             ),
         )
 
-        x, y = points.T
+        x, y = points[1:].T
         signed_area = (x[:-1] * y[1:] - x[1:] * y[:-1]).sum()
 
         vn = points[2:] - points[1:-1]
@@ -1151,7 +1152,7 @@ def offset_polygon(
         points = points[1:-1] + dist[:, np.newaxis] * vb[:, [1, 0]]
 
         faces += [len(points), *(np.arange(len(points)) + len(points_))]
-        points_ += np.insert(points, axis, 0.0, axis=1).tolist()
+        points_ += np.insert(points, axis, plane, axis=1).tolist()
 
     return pv.PolyData(points_, faces=faces)
 
-- 
2.43.0


From fda34b81bf50935dd9c93a4b068b70d70c5a3c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 14/64] fix: remapping categories keeps the names of unmapped
 categories in use

---
 pvgridder/utils/_misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 049e24f..fcdd8f5 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1383,7 +1383,7 @@ def remap_categorical_data(
 
     remapped_data = data.copy()
     data_labels_map = {v: k for k, v in data_labels.items()}
-    unused_labels = set(list(data_labels))
+    unused_labels = [k for k, v in data_labels.items() if v not in data]
 
     for k, v in mapping.items():
         if isinstance(k, str):
@@ -1404,7 +1404,6 @@ def remap_categorical_data(
             try:
                 key_ = k if isinstance(k, str) else data_labels_map[vid]
                 data_labels[key_] = v
-                unused_labels.remove(key_)
 
             except KeyError:
                 pass
-- 
2.43.0


From 0e50287c53b5f0e892784e25a1442007e5441eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 15/64] fix: merge structured grids with vector cell data

---
 pvgridder/utils/_misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index fcdd8f5..bf07fc8 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -970,11 +970,13 @@ def merge(
                     {
                         k: np.concatenate(
                             (
-                                v.reshape(shape_a, order="F"),
-                                mesh_b.cell_data[k].reshape(shape_b, order="F"),
+                                v.reshape((*shape_a, *v.shape[1:]), order="F"),
+                                mesh_b.cell_data[k].reshape(
+                                    (*shape_b, *v.shape[1:]), order="F"
+                                ),
                             ),
                             axis=axis,
-                        ).ravel(order="F")
+                        ).reshape((-1, *v.shape[1:]), order="F")
                         for k, v in mesh_a.cell_data.items()
                         if k in mesh_b.cell_data
                     }
-- 
2.43.0


From d5306bb0e198e7bb79f1f791af547d956b97d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 16/64] fix: ray_cast does not miss faces perpendicular to the
 ray

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index bf07fc8..dea7fcb 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1220,7 +1220,7 @@ def ray_cast(
         normals = mesh.compute_normals(
             cell_normals=True, point_normals=False
         ).cell_data["Normals"]
-        angles = np.rad2deg(np.arccos(np.abs(normals[ids] @ dvec)))
+        angles = np.rad2deg(np.arccos(np.abs(normals[ids] @ dvec).clip(0.0, 1.0)))
         ids = ids[angles < max_angle]
 
         if ids.size == 0:
-- 
2.43.0


From 310aa2a17ee96e520b685f21c0be7d419f4ed26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 17/64] fix: decimate_rdp keeps points beyond the ends of the
 decimated segment

---
 pvgridder/utils/_misc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index dea7fcb..c3eff5f 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -119,11 +119,11 @@ def decimate_rdp(mesh: pv.PolyData, tolerance: float = 1.0e-8) -> pv.PolyData:
         points = np.asanyarray(points)
         u = points[-1] - points[0]
         un = np.linalg.norm(u)
-        dist = (
-            np.linalg.norm(np.cross(u, points[0] - points), axis=1) / un
-            if un > 0.0
-            else np.linalg.norm(points - points[0], axis=1)
-        )
+
+        # Distance to the segment (and not to the infinite line)
+        t = ((points - points[0]) @ u / un**2).clip(0.0, 1.0) if un > 0.0 else 0.0
+        dist = np.linalg.norm(points - points[0] - np.multiply.outer(t, u), axis=1)
+        dist[[0, -1]] = 0.0
         imax = dist.argmax()
 
         if dist[imax] > tolerance:
-- 
2.43.0


From 23c54b23e894139b6b524ef07a28432df6e8ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 18/64] fix: reconstruct_line also tries to swap the last two
 points

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c3eff5f..fe1dccd 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1306,7 +1306,7 @@ def reconstruct_line(
     while True:
         best_length = shortest_length
 
-        for first in range(1, n - 2):
+        for first in range(1, n - 1):
             for last in range(first + 2, n + 1):
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
-- 
2.43.0


From d6b60b17d33b06491a0caf105fa5454f1094e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 19/64] fix: reconstruct_line accepts any dataset

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index fe1dccd..777405f 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1281,7 +1281,7 @@ def reconstruct_line(
         Reconstructed line.
 
     """
-    if isinstance(mesh_or_points, pv.PolyData):
+    if isinstance(mesh_or_points, pv.DataSet):
         points = mesh_or_points.points
 
     else:
-- 
2.43.0


From 859b0fe188e5b16f37159361ac2585bf9d6eaf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 20/64] fix: extract_cells_by_dimension drops empty cells with
 method lower

---
 pvgridder/utils/_misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 777405f..43764e6 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -574,6 +574,9 @@ def extract_cells_by_dimension(
     if keep_empty_cells:
         mask |= mesh.celltypes == pv.CellType.EMPTY_CELL
 
+    else:
+        mask &= mesh.celltypes != pv.CellType.EMPTY_CELL
+
     if not mask.all():
         mesh = extract_cells(mesh, mask)
 
-- 
2.43.0


From 5125730ab2a0a471909a389fa17bda38f4973c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 21/64] fix: lasso selection in the xz and yz views

---
 pvgridder/utils/_interactive.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/pvgridder/utils/_interactive.py b/pvgridder/utils/_interactive.py
index 6827312..eb14fd8 100644
--- a/pvgridder/utils/_interactive.py
+++ b/pvgridder/utils/_interactive.py
@@ -145,23 +145,11 @@ def interactive_lasso_selection(
     p.show()
 
     # Select cells or points within the lasso polygon
-    if "x" not in view_:
-        points_ = np.delete(points.points, 0, axis=1)
-
-    elif "y" not in view_:
-        points_ = np.delete(points.points, 1, axis=1)
-
-    else:
-        points_ = np.delete(points.points, 2, axis=1)
-
+    axis = 0 if "x" not in view_ else 1 if "y" not in view_ else 2
+    points_ = np.delete(points.points, axis, axis=1)
     polygon_ = Polygon(points_)
-
-    if preference == "cell":
-        centers = get_cell_centers(mesh)
-        mask = contains_xy(polygon_, centers)
-
-    else:
-        mask = contains_xy(polygon_, mesh.points)
+    coords = get_cell_centers(mesh) if preference == "cell" else mesh.points
+    mask = contains_xy(polygon_, np.delete(coords, axis, axis=1))
 
     ind = np.flatnonzero(mask)
 
-- 
2.43.0


From 0a1e2f13052d907526539fd747164350fa1011cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 22/64] fix: dimension of convex point sets

---
 pvgridder/utils/_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index e602057..eb718c4 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -315,7 +315,7 @@ _dimension_map = np.array(
         -1,
         -1,
         -1,
-        0,  # CONVEX_POINT_SET
+        3,  # CONVEX_POINT_SET
         3,  # POLYHEDRON
         -1,
         -1,
-- 
2.43.0


From 900e99fb68c4244c2a2f69226d6bfeb3362e7c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 23/64] fix: SectorRectangle applies the azimuthal method to
 the arcs

---
 pvgridder/core/geometric_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 417b7ef..779798d 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -1000,8 +1000,8 @@ def SectorRectangle(
     line_y = generate_line_from_two_points(
         [dx, dy], [dx, 0.0], theta_resolution, theta_method
     )
-    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution)
-    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution)
+    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution, theta_method)
+    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution, theta_method)
     mesh_y45 = StructuredSurface(line_45, line_y, "xy", r_resolution, r_method)
     mesh_x90 = StructuredSurface(line_90, line_x, "xy", r_resolution, r_method)
     mesh = mesh_y45.cast_to_unstructured_grid() + mesh_x90.cast_to_unstructured_grid()
-- 
2.43.0


From f946d82be303277632c4bf9aed52d5c2bfdd0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 24/64] fix: orient Voronoi polygons by their whole area

---
 pvgridder/core/voronoi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ff031ec..4378adb 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -474,7 +474,7 @@ class VoronoiMesh2D(MeshBase):
             cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
             # Ensure correct orientation
-            signed_area = self._compute_signed_area(points_[:3])
+            signed_area = self._compute_signed_area(points_)
 
             if (orientation == "CCW" and signed_area < 0.0) or (
                 orientation == "CW" and signed_area > 0.0
@@ -511,7 +511,7 @@ class VoronoiMesh2D(MeshBase):
         """Compute signed area of a polygon given its vertices."""
         x, y = points.T
 
-        return 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])
+        return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
 
     def _generate_voronoi_tesselation(
         self,
-- 
2.43.0


From cc0539eb711407fd09b1755d0821a014dd89a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 25/64] fix: a Voronoi item outside of the domain adds no point

---
 pvgridder/core/voronoi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 4378adb..0edee38 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -386,9 +386,11 @@ class VoronoiMesh2D(MeshBase):
             mask = self.mesh.find_containing_cell(get_cell_centers(mesh_a)) != -1
             mask = cast(NDArray, mask)
 
-            if mask.any():
-                mesh_a = extract_cells(mesh_a, mask)
-                points_ = points_[mask]
+            if not mask.any():
+                continue
+
+            mesh_a = extract_cells(mesh_a, mask)
+            points_ = points_[mask]
 
             # Initialize item arrays
             item_group_array = self._initialize_group_array(mesh_a, groups, item.group)
-- 
2.43.0


From ebac8ea13794ec3f191e081c3f2d3ce5072aeab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 26/64] fix: group nested boundary polygons with their own
 holes in any plane

---
 pvgridder/utils/_misc.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 43764e6..4708797 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -251,17 +251,30 @@ def extract_boundary_polygons(
 
     # Identify holes
     if with_holes:
-        holes = {}
-        polygons = [shapely.Polygon(edge.points) for edge in edges]
+        # Project along the main direction of the normal of the largest loop
+        normals = [
+            np.cross(p, np.roll(p, -1, axis=0)).sum(axis=0)
+            for p in (edge.points - edge.points[0] for edge in edges)
+        ]
+        axis = np.abs(max(normals, key=np.linalg.norm)).argmax()
+        polygons = [
+            shapely.Polygon(np.delete(edge.points, axis, axis=1)) for edge in edges
+        ]
 
-        for i, j in itertools.permutations(range(len(polygons)), 2):
-            if i in holes or j in holes:
-                continue
+        # A hole is enclosed in an odd number of loops and belongs to the smallest one
+        shells = [[] for _ in polygons]
 
+        for i, j in itertools.permutations(range(len(polygons)), 2):
             if polygons[i].area > polygons[j].area and polygons[i].contains(
                 polygons[j]
             ):
-                holes[j] = i
+                shells[j].append(i)
+
+        holes = {
+            j: min(shells_, key=lambda i: polygons[i].area)
+            for j, shells_ in enumerate(shells)
+            if len(shells_) % 2 == 1
+        }
 
         # Group boundary edges and holes
         polygons = [[edge] if i not in holes else [] for i, edge in enumerate(edges)]
-- 
2.43.0


From 50e45e37f8d6be60706da1c5991712a995e65c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 27/64] fix: cell geometry always lists two owner cells, each
 only once

---
 pvgridder/utils/_misc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4708797..64581d3 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -344,7 +344,9 @@ def extract_cell_geometry(
 
                 try:
                     idx = cell_map[cell_set]
-                    cell_ids[idx].append(i)
+
+                    if cell_ids[idx][-1] != i:
+                        cell_ids[idx].append(i)
 
                 except KeyError:
                     idx = len(cell_map)
@@ -354,7 +356,8 @@ def extract_cell_geometry(
                     cells_.append(c)
                     lines_or_faces += [len(c), *cells_[idx]]
 
-        tmp = -np.ones((len(cell_ids), len(max(cell_ids, key=len))), dtype=int)
+        ncol = max(2, len(max(cell_ids, key=len)))
+        tmp = -np.ones((len(cell_ids), ncol), dtype=int)
         for i, ids in enumerate(cell_ids):
             tmp[i, : len(ids)] = ids
 
@@ -425,7 +428,7 @@ def extract_cell_geometry(
             if not mask.all():
                 lines = poly.lines.reshape((poly.n_lines, 3))[mask]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, : max(2, (tmp != -1).any(axis=0).sum())]
 
                 poly = pv.PolyData(poly.points, lines=lines)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
@@ -485,7 +488,7 @@ def extract_cell_geometry(
                     face for face, mask_ in zip(poly.irregular_faces, mask) if mask_
                 ]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, : max(2, (tmp != -1).any(axis=0).sum())]
 
                 poly = pv.PolyData().from_irregular_faces(poly.points, faces)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
-- 
2.43.0


From 3fb0739674ac876aa48886e3f375fdac1abae55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 28/64] fix: exclude hidden cells of unstructured grids from
 the cell geometry

---
 pvgridder/utils/_misc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 64581d3..a43fac0 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -381,6 +381,12 @@ def extract_cell_geometry(
     celltypes = mesh.celltypes
     connectivity = get_cell_connectivity(mesh)
 
+    # Hidden cells of an unstructured grid are not empty
+    if remove_ghost_cells and "vtkGhostType" in mesh.cell_data:
+        celltypes = np.where(
+            mesh.cell_data["vtkGhostType"] & 32, pv.CellType.EMPTY_CELL, celltypes
+        )
+
     if ndim in {1, 2}:
         supported_celltypes = {
             pv.CellType.EMPTY_CELL,
-- 
2.43.0


From 7bf8d356f59bd5af2b7919292ca408bfc06ad390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 29/64] fix: neighbors of cells without shared faces or with
 faces shared by many cells

---
 pvgridder/utils/_connectivity.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index f368aea..9f35276 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -37,14 +38,12 @@ def get_neighborhood(
     neighbors = [[] for _ in range(mesh.n_cells)]
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
 
-    for i1, i2 in mesh["vtkOriginalCellIds"]:
-        if i1 == -1 or i2 == -1:
-            continue
+    for ids in mesh["vtkOriginalCellIds"]:
+        for i1, i2 in itertools.combinations(ids[ids != -1], 2):
+            neighbors[i1].append(i2)
+            neighbors[i2].append(i1)
 
-        neighbors[i1].append(i2)
-        neighbors[i2].append(i1)
-
-    return tuple([np.asanyarray(neighbor) for neighbor in neighbors])
+    return tuple([np.array(neighbor, dtype=int) for neighbor in neighbors])
 
 
 def get_connectivity(
@@ -82,7 +81,11 @@ def get_connectivity(
         )
 
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
-    lines = [(i1, i2) for i1, i2 in mesh["vtkOriginalCellIds"] if i1 != -1 and i2 != -1]
-    lines = np.column_stack((np.full(len(lines), 2), lines)).ravel()
+    lines = [
+        (2, i1, i2)
+        for ids in mesh["vtkOriginalCellIds"]
+        for i1, i2 in itertools.combinations(ids[ids != -1], 2)
+    ]
+    lines = np.ravel(lines).astype(int)
 
     return pv.PolyData(cell_centers, lines=lines)
-- 
2.43.0


From 2b6d62c3c155f3460c559c48497486dee283aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 30/64] fix: plain Voronoi circles with an out-of-plane center
 or outside of the domain

---
 pvgridder/core/voronoi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 0edee38..4af138c 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -174,6 +174,7 @@ class VoronoiMesh2D(MeshBase):
         if plain:
             center = np.zeros(3) if center is None else np.asanyarray(center)
             center = np.insert(center, self.axis, 0.0) if len(center) == 2 else center
+            center = np.where(np.arange(3) == self.axis, 0.0, center)
             self.fuse_cells.append(
                 lambda x: np.linalg.norm(x - center, axis=1) < radius
             )
@@ -504,7 +505,8 @@ class VoronoiMesh2D(MeshBase):
         if self.fuse_cells:
             points = get_cell_centers(mesh)
             indices = [func(points) for func in self.fuse_cells]
-            mesh = fuse_cells(mesh, indices)
+            indices = [ind for ind in indices if ind.any()]
+            mesh = fuse_cells(mesh, indices) if indices else mesh
 
         return cast(pv.UnstructuredGrid, self._clean(mesh, tolerance))
 
-- 
2.43.0


From 0ac9f3b08e0612f7dc4f2d223cf9275920d70299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 31/64] fix: add_plane tilts the plane by the requested angles

---
 pvgridder/core/stack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index 9122e78..a6539d2 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -219,7 +219,11 @@ class MeshStack3D(MeshStackBase):
             points[:, idx] -= point[idx]
             points[:, self.axis] = 0.0
 
-            return rot.apply(points, inverse=True)[:, self.axis] + point[self.axis]
+            # Height of the rotated plane (slope is the tangent of the angle)
+            slope = rot.apply(points, inverse=True)[:, self.axis]
+            slope /= rot.as_matrix()[self.axis, self.axis]
+
+            return slope + point[self.axis]
 
         return self.add(func, *args, **kwargs)
 
-- 
2.43.0


From f3c91489478d03f4efa3fe19c6da70a3d14b185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:25 +0000
Subject: [PATCH 32/64] fix: split_lines keeps the precision of the points

---
 pvgridder/utils/_misc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index a43fac0..91b199d 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1470,13 +1470,13 @@ def split_lines(mesh: pv.PolyData, as_lines: bool = True) -> Sequence[pv.PolyDat
     """
     from pyvista.core.cell import _get_irregular_cells
 
-    mesh = cast(
-        pv.PolyData,
-        mesh.extract_cells_by_type((pv.CellType.LINE, pv.CellType.POLY_LINE)),
-    )
     lines = []
 
-    for i, line_ids in enumerate(_get_irregular_cells(mesh.GetLines())):
+    # Lines come right after the vertices in the cell data
+    # Do not use vtkExtractCellsByType as it rounds points to single precision
+    for i, line_ids in enumerate(
+        _get_irregular_cells(mesh.GetLines()), start=mesh.n_verts
+    ):
         lines_ = (
             np.insert(
                 np.column_stack(
-- 
2.43.0


From c9abae1eaebdfac35af4cae2a35d293474c86faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:54 +0000
Subject: [PATCH 33/64] fix: regular, curved and intersected lines keep the
 precision of the points

---
 pvgridder/core/geometric_objects.py | 5 ++++-
 pvgridder/core/voronoi.py           | 4 +++-
 pvgridder/utils/_misc.py            | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 779798d..6ae7957 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -253,7 +253,9 @@ def CurvedLine(
         vec /= np.linalg.norm(vec)
         points.append(points[-1] + dl * vec)
 
-    mesh = pv.MultipleLines(np.asanyarray(points))
+    points = np.array(points, dtype=float)
+    mesh = pv.MultipleLines(points)
+    mesh.points = points  # VTK rounds points to single precision
     mesh.clear_data()
 
     return mesh
@@ -878,6 +880,7 @@ def RegularLine(points: ArrayLike, resolution: Optional[int] = None) -> pv.PolyD
     x = np.linspace(0.0, xp.max(), resolution + 1)
     points = np.column_stack([np.interp(x, xp, fp) for fp in points.T])
     mesh = pv.MultipleLines(points)
+    mesh.points = points  # VTK rounds points to single precision
     mesh.clear_data()
 
     return mesh
diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 4af138c..c1dbcbb 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -231,7 +231,9 @@ class VoronoiMesh2D(MeshBase):
         from .. import extract_cells, split_lines
 
         if not isinstance(mesh_or_points, pv.PolyData):
-            mesh = pv.MultipleLines(np.asanyarray(mesh_or_points))
+            points = np.array(mesh_or_points, dtype=float)
+            mesh = pv.MultipleLines(points)
+            mesh.points = points  # VTK rounds points to single precision
 
         else:
             mesh = mesh_or_points.copy()
diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 91b199d..cdcc2c2 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -897,7 +897,9 @@ def intersect_polyline(
         line_ids = line_ids[count:]
         cell_ids = cell_ids[count:]
 
-    polyline = split_lines(pv.MultipleLines(points))[0].compute_cell_sizes(
+    polyline = pv.MultipleLines(points)
+    polyline.points = np.array(points)  # VTK rounds points to single precision
+    polyline = split_lines(polyline)[0].compute_cell_sizes(
         length=True, area=False, volume=False
     )
     polyline.cell_data["vtkOriginalCellIds"] = line_ids
-- 
2.43.0


From b6ffeca75474b6456b478a816705b404f5895b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:41 +0000
Subject: [PATCH 34/64] fix: structured merge tolerance does not depend on the
 coordinate system

---
 pvgridder/utils/_misc.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index cdcc2c2..3fcb24b 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -949,11 +949,15 @@ def merge(
         mesh_a = dataset[0]
 
         for mesh_b in dataset[1:]:
+            # Tolerance depends on the size of the grids but not on their location
+            bounds = np.reshape((mesh_a.bounds, mesh_b.bounds), (2, 3, 2))
+            tol = 1.0e-8 + 1.0e-5 * np.ptp(bounds, axis=(0, 2))
+
             if axis == 0:
                 if not (
-                    np.allclose(mesh_a.x[-1], mesh_b.x[0])
-                    and np.allclose(mesh_a.y[-1], mesh_b.y[0])
-                    and np.allclose(mesh_a.z[-1], mesh_b.z[0])
+                    np.allclose(mesh_a.x[-1], mesh_b.x[0], rtol=0.0, atol=tol[0])
+                    and np.allclose(mesh_a.y[-1], mesh_b.y[0], rtol=0.0, atol=tol[1])
+                    and np.allclose(mesh_a.z[-1], mesh_b.z[0], rtol=0.0, atol=tol[2])
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching east and west interfaces"
@@ -963,9 +967,13 @@ def merge(
 
             elif axis == 1:
                 if not (
-                    np.allclose(mesh_a.x[:, -1], mesh_b.x[:, 0])
-                    and np.allclose(mesh_a.y[:, -1], mesh_b.y[:, 0])
-                    and np.allclose(mesh_a.z[:, -1], mesh_b.z[:, 0])
+                    np.allclose(mesh_a.x[:, -1], mesh_b.x[:, 0], rtol=0.0, atol=tol[0])
+                    and np.allclose(
+                        mesh_a.y[:, -1], mesh_b.y[:, 0], rtol=0.0, atol=tol[1]
+                    )
+                    and np.allclose(
+                        mesh_a.z[:, -1], mesh_b.z[:, 0], rtol=0.0, atol=tol[2]
+                    )
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching north and south interfaces"
@@ -975,9 +983,15 @@ def merge(
 
             else:
                 if not (
-                    np.allclose(mesh_a.x[..., -1], mesh_b.x[..., 0])
-                    and np.allclose(mesh_a.y[..., -1], mesh_b.y[..., 0])
-                    and np.allclose(mesh_a.z[..., -1], mesh_b.z[..., 0])
+                    np.allclose(
+                        mesh_a.x[..., -1], mesh_b.x[..., 0], rtol=0.0, atol=tol[0]
+                    )
+                    and np.allclose(
+                        mesh_a.y[..., -1], mesh_b.y[..., 0], rtol=0.0, atol=tol[1]
+                    )
+                    and np.allclose(
+                        mesh_a.z[..., -1], mesh_b.z[..., 0], rtol=0.0, atol=tol[2]
+                    )
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching top and bottom interfaces"
-- 
2.43.0


From 5bb64b45f929b257b21253360c0324269e71c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:48 +0000
Subject: [PATCH 35/64] fix: ungrouped Voronoi circles belong to the default
 group of the builder

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index c1dbcbb..4b48cb8 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -148,7 +148,7 @@ class VoronoiMesh2D(MeshBase):
         if dr > 0.0:
             self.add(
                 (
-                    MeshMerge()
+                    MeshMerge(default_group=self.default_group)
                     .add(Circle(radius - dr, resolution, center=center))
                     .add(Annulus(radius - dr, radius, 1, resolution, center=center))
                     .generate_mesh()
-- 
2.43.0


From 49795edfd243922feaee39270cf9ac01dc54e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:23 +0000
Subject: [PATCH 36/64] fix: Voronoi meshes of points nearly aligned on their
 convex hull

---
 pvgridder/core/voronoi.py | 59 ++++++++-------------------------------
 1 file changed, 11 insertions(+), 48 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 4b48cb8..186bd95 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -533,56 +533,19 @@ class VoronoiMesh2D(MeshBase):
         See <https://stackoverflow.com/a/43023639>.
 
         """
-        voronoi = Voronoi(points, qhull_options=qhull_options)
+        points = np.asanyarray(points)
+        radius = infinity if infinity else np.ptp(self.mesh.points, axis=0).max() * 10.0
 
-        # Construct a map containing all ridges for a given point
-        ridges = {}
-
-        for (p1, p2), (v1, v2) in zip(voronoi.ridge_points, voronoi.ridge_vertices):
-            ridges.setdefault(p1, []).append((p2, v1, v2))
-            ridges.setdefault(p2, []).append((p1, v1, v2))
-
-        # Reconstruct infinite regions
-        center = voronoi.points.mean(axis=0)
-        radius = infinity if infinity else np.ptp(self.mesh.points).max() * 1.0e3
-        new_vertices = voronoi.vertices.tolist()
-        new_regions = []
-
-        for p1, region in enumerate(voronoi.point_region):
-            vertices = voronoi.regions[region]
-
-            if -1 not in vertices:
-                new_regions.append(vertices)
-
-            else:
-                ridge = ridges[p1]
-                new_region = [v for v in vertices if v >= 0]
-
-                for p2, v1, v2 in ridge:
-                    if v2 < 0:
-                        v1, v2 = v2, v1
-
-                    if v1 >= 0:
-                        continue
-
-                    t = voronoi.points[p2] - voronoi.points[p1]
-                    t /= np.linalg.norm(t)
-                    n = np.array([-t[1], t[0]])
-
-                    midpoint = voronoi.points[[p1, p2]].mean(axis=0)
-                    direction = np.sign(np.dot(midpoint - center, n)) * n
-                    far_point = voronoi.vertices[v2] + direction * radius
-
-                    new_region.append(len(new_vertices))
-                    new_vertices.append(far_point.tolist())
-
-                # Sort region counterclockwise
-                vs = np.array([new_vertices[v] for v in new_region])
-                c = vs.mean(axis=0)
-                angles = np.arctan2(vs[:, 1] - c[1], vs[:, 0] - c[0])
-                new_regions.append([new_region[i] for i in np.argsort(angles)])
+        # Surround points by points at infinity so that all their regions are finite
+        far_points = points.mean(axis=0) + radius * np.array(
+            [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0]]
+        )
+        voronoi = Voronoi(np.vstack((points, far_points)), qhull_options=qhull_options)
+        regions = [
+            voronoi.regions[region] for region in voronoi.point_region[: len(points)]
+        ]
 
-        return new_regions, np.array(new_vertices)
+        return regions, voronoi.vertices
 
     @property
     def mesh(self) -> pv.DataSet:
-- 
2.43.0


From b312672a6b8c1da0cd20dee10c7ff4bc5e8d13be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:47 +0000
Subject: [PATCH 37/64] fix: reconstruct_line does not stop on a mirrored path

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 3fcb24b..93df844 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1352,7 +1352,8 @@ def reconstruct_line(
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
 
-                if length < shortest_length:
+                # Ignore round-off so that the search does not stop on a mirrored path
+                if length < (1.0 - tolerance) * shortest_length:
                     shortest_path[:] = path
                     shortest_length = length
 
-- 
2.43.0


From 7524928536cb53022666a1e55db4ba08cdebc521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:21 +0000
Subject: [PATCH 38/64] fix: boundary polygons of meshes with concave polygons

---
 pvgridder/utils/_misc.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 93df844..fae438c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -226,17 +226,25 @@ def extract_boundary_polygons(
         edges = mesh
 
     else:
-        edges = (
-            mesh.cast_to_unstructured_grid()
-            .clean()
-            .extract_feature_edges(
-                boundary_edges=True,
-                non_manifold_edges=False,
-                feature_edges=False,
-                manifold_edges=False,
-                clear_data=True,
-            )
+        surface = mesh.cast_to_unstructured_grid().clean().extract_surface()
+
+        if surface.n_faces_strict == 0:
+            return None
+
+        # Boundary edges are used by one face only (VTK considers that two faces are
+        # neighbors across an edge if they both use its points, which is not always
+        # the case with concave polygons)
+        lines = np.concatenate(
+            [
+                np.column_stack((face, np.roll(face, -1)))
+                for face in surface.irregular_faces
+            ]
+        )
+        _, idx, counts = np.unique(
+            np.sort(lines, axis=1), return_index=True, return_counts=True, axis=0
         )
+        lines = lines[np.sort(idx[counts == 1])]
+        edges = pv.PolyData(surface.points, lines=np.insert(lines, 0, 2, axis=1))
 
     edges = edges.strip(max_length=mesh.n_points)
     edges = cast(pv.PolyData, edges)
-- 
2.43.0


From 6d59914261c3b0c8c0fbcae9fadd5da49ecc9942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:21 +0000
Subject: [PATCH 39/64] fix: refuse to fuse cells only connected by a point

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index fae438c..9f88a46 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -655,7 +655,8 @@ def fuse_cells(
                     "could not extract boundary polygons for the selected cells"
                 )
 
-            if len(poly) > 1:
+            # A boundary passing twice through a point is not a simple polygon
+            if len(poly) > 1 or poly[0].lines[0] != poly[0].n_points + 1:
                 raise ValueError("could not fuse not fully connected cells together")
 
             # Find original point IDs of polygon
-- 
2.43.0


From 939dc0819e8e1a5620a11f17c35c20fbac6dcd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 40/64] fix: intersect_polyline of a line that starts or ends
 inside the mesh

---
 pvgridder/utils/_misc.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 9f88a46..6d94e64 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -773,6 +773,12 @@ def intersect_polyline(
     tree = KDTree(get_cell_centers(cell_geometry))
 
     for lid, (pointa, pointb) in enumerate(zip(lines.points[:-1], lines.points[1:])):
+        # The line starts inside the mesh
+        if cell is None and (cid := mesh.find_containing_cell(pointa)) > -1:
+            cell = extract_cells(mesh, cid)
+            count = len(points) - 1
+            mesh_entered = True
+
         # Find the first cell intersected by the line
         if cell is None:
             ids = mesh.find_cells_intersecting_line(pointa, pointb, tolerance=tolerance)
@@ -802,6 +808,9 @@ def intersect_polyline(
                 # Find the exit, if any
                 # Line is fully contained in the cell
                 if intersections is None:
+                    if mesh_entered and lid == lines.n_lines - 1:
+                        add_point(pointb, lid, int(cid))
+
                     break
 
                 # Either an entrance or an exit
@@ -821,16 +830,17 @@ def intersect_polyline(
                                 -1,
                             )
 
-                            if count > 1:
-                                break
-
                         else:
                             add_point(
                                 intersections.cell_data["IntersectionPoints"][0],
                                 lid,
                                 int(cid),
                             )
-                            break
+
+                        if lid == lines.n_lines - 1:
+                            add_point(pointb, lid, int(cid))
+
+                        break
 
                     fid = 0
 
-- 
2.43.0


From 6a9c3e6c3c7388959ba5248b76b335738b8e6e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:09 +0000
Subject: [PATCH 41/64] fix: intersect_polyline enters the mesh through the
 first crossed cell

---
 pvgridder/utils/_misc.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 6d94e64..e486b0c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -787,12 +787,29 @@ def intersect_polyline(
                 add_point(pointb, lid, -1)
                 continue
 
-            ids = np.sort(ids)
-            id_ = np.linalg.norm(
-                get_cell_centers(extract_cells(mesh, ids)) - pointa,
-                axis=-1,
-            ).argmin()
-            cid = ids[id_]
+            distances = []
+
+            for id_ in (ids := np.sort(ids)):
+                intersections = ray_cast(
+                    extract_cells(mesh, id_),
+                    pointa,
+                    pointb,
+                    tolerance=tolerance,
+                )
+                distances.append(
+                    np.linalg.norm(
+                        intersections.cell_data["IntersectionPoints"] - pointa,
+                        axis=-1,
+                    ).min()
+                    if intersections is not None
+                    else np.inf
+                )
+
+            if not np.isfinite(distances).any():
+                add_point(pointb, lid, -1)
+                continue
+
+            cid = ids[np.argmin(distances)]
             cell = extract_cells(mesh, cid)
 
         if not mesh_exited:
-- 
2.43.0


From a34aef3f7662f14651c64bb36921fe0887c06260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:27 +0000
Subject: [PATCH 42/64] fix: intersect_polyline passes the cell data of a
 polyline cell

---
 pvgridder/utils/_misc.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index e486b0c..18c7eb7 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -742,6 +742,8 @@ def intersect_polyline(
         Polydata containing the intersection points and cell IDs.
 
     """
+    from pyvista.core.cell import _get_irregular_cells
+
     from .. import get_cell_centers
 
     line_ = cast(pv.PolyData, line.strip())
@@ -942,11 +944,21 @@ def intersect_polyline(
     polyline.cell_data["IntersectedCellIds"] = cell_ids
 
     if pass_cell_data:
+        # A polyline cell has several segments
+        segment_ids = np.concatenate(
+            [
+                np.full(ids.size - 1, i)
+                for i, ids in enumerate(
+                    _get_irregular_cells(line.GetLines()), start=line.n_verts
+                )
+            ]
+        )
+
         for k, v in line.cell_data.items():
             if k in polyline.cell_data:
                 continue
 
-            polyline.cell_data[k] = v[line_ids]
+            polyline.cell_data[k] = v[segment_ids[line_ids]]
 
     return cast(pv.PolyData, polyline.translate(center))
 
-- 
2.43.0


From 0edbd7fb475495afb70a4675e50442dfe6acc90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:15 +0000
Subject: [PATCH 43/64] fix: extract_cells does not overwrite the original IDs
 stored in its input

---
 pvgridder/utils/_misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 18c7eb7..c2ac5d4 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -540,6 +540,7 @@ def extract_cells(
 
     """
     ind = np.asanyarray(ind)
+    mesh = mesh.copy(deep=False)  # VTK overwrites the original IDs of its input
     ghost_cells = (
         mesh.cell_data.pop("vtkGhostType") if "vtkGhostType" in mesh.cell_data else None
     )
-- 
2.43.0


From e864c40a33e5e1cd6585295f21ca7a4022d45a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:35 +0000
Subject: [PATCH 44/64] fix: intersect_polyline finds where the line enters a
 mesh with polygons

---
 pvgridder/utils/_misc.py | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c2ac5d4..148118f 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -784,35 +784,18 @@ def intersect_polyline(
 
         # Find the first cell intersected by the line
         if cell is None:
-            ids = mesh.find_cells_intersecting_line(pointa, pointb, tolerance=tolerance)
+            intersections = ray_cast(cell_geometry, pointa, pointb, tolerance=tolerance)
 
-            if ids.size == 0:
+            if intersections is None:
                 add_point(pointb, lid, -1)
                 continue
 
-            distances = []
-
-            for id_ in (ids := np.sort(ids)):
-                intersections = ray_cast(
-                    extract_cells(mesh, id_),
-                    pointa,
-                    pointb,
-                    tolerance=tolerance,
-                )
-                distances.append(
-                    np.linalg.norm(
-                        intersections.cell_data["IntersectionPoints"] - pointa,
-                        axis=-1,
-                    ).min()
-                    if intersections is not None
-                    else np.inf
-                )
-
-            if not np.isfinite(distances).any():
-                add_point(pointb, lid, -1)
-                continue
-
-            cid = ids[np.argmin(distances)]
+            id_ = np.linalg.norm(
+                intersections.cell_data["IntersectionPoints"] - pointa,
+                axis=-1,
+            ).argmin()
+            fid = intersections.cell_data["vtkOriginalCellIds"][id_]
+            cid = cell_geometry.cell_data["vtkOriginalCellIds"][fid].max()
             cell = extract_cells(mesh, cid)
 
         if not mesh_exited:
-- 
2.43.0


From d3f89b14115c805549692c936e73ebd470d1a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:05 +0000
Subject: [PATCH 45/64] fix: offset_polygon of small polygons away from the
 origin

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 148118f..10249b6 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1210,7 +1210,7 @@ def offset_polygon(
             ),
         )
 
-        x, y = points[1:].T
+        x, y = (points[1:] - points[0]).T
         signed_area = (x[:-1] * y[1:] - x[1:] * y[:-1]).sum()
 
         vn = points[2:] - points[1:-1]
-- 
2.43.0


From a40a9078982783bbedcbd0be73df0aea9d73308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:26 +0000
Subject: [PATCH 46/64] fix: Voronoi builder does not keep a reference to input
 point arrays

---
 pvgridder/core/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 0f1446d..8bdcc6b 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -85,7 +85,7 @@ class MeshBase(ABC):
         self, points: ArrayLike, axis: Optional[int] = None
     ) -> NDArray:
         """Check the validity of a point array."""
-        points = np.asanyarray(points)
+        points = np.array(points)
         axis = axis if axis is not None else getattr(self, "axis", 2)
         axis = cast(int, axis)
 
-- 
2.43.0


From a3bdb9874e731eb87b18b44c374b8dab9909052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:55 +0000
Subject: [PATCH 47/64] fix: get_cell_centers keeps the ghost cells of its
 input in case of failure

---
 pvgridder/utils/_properties.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index eb718c4..15c13f1 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -118,6 +118,7 @@ def get_cell_centers(
     from vtk import __version__ as vtk_version
 
     centers = np.full((mesh.n_cells, 3), np.nan)
+    mesh = mesh.copy(deep=False)  # Input keeps its ghost cells in case of failure
     ghost_cells = (
         mesh.cell_data.pop("vtkGhostType") if "vtkGhostType" in mesh.cell_data else None
     )
-- 
2.43.0


From 16f4c82463952e9520f8cf23f3b06687d01ad33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:29 +0000
Subject: [PATCH 48/64] fix: refuse invalid extrapolation methods in 2D stacks

---
 pvgridder/core/_base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 8bdcc6b..5ab5b11 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -553,10 +553,14 @@ class MeshStackBase(MeshBase):
             x = mesh.points[:, idx]
             xp = points[:, idx]
 
-            if (x.min() < xp[0] or x.max() > xp[-1]) and not extrapolation:
-                raise ValueError(
-                    "could not interpolate from points not fully enclosing base mesh"
-                )
+            if x.min() < xp[0] or x.max() > xp[-1]:
+                if not extrapolation:
+                    raise ValueError(
+                        "could not interpolate from points not fully enclosing base mesh"
+                    )
+
+                elif extrapolation != "nearest":
+                    raise ValueError(f"invalid extrapolation method '{extrapolation}'")
 
             tmp = np.interp(x, xp, points[:, self.axis])
 
-- 
2.43.0


From 359b87d226970d2c1c3e4ff92017ca6720dff074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:29 +0000
Subject: [PATCH 49/64] fix: Voronoi builder adds no item when a polyline is
 refused

---
 pvgridder/core/voronoi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 186bd95..b92f5d1 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -248,6 +248,8 @@ class VoronoiMesh2D(MeshBase):
         perc = resolution_to_perc(resolution)
         perc = [2.0 * perc[0] - perc[1], *perc.tolist(), 2.0 * perc[-1] - perc[-2]]
 
+        items = []
+
         # Loop over polylines
         for polyline in split_lines(mesh):
             # Remove axis from points
@@ -317,10 +319,12 @@ class VoronoiMesh2D(MeshBase):
                 group=group,
                 priority=priority if priority else 0,
             )
-            self.items.append(item)
+            items.append(item)
 
             item = MeshItem(extract_cells(mesh, constraint_), group=None, priority=0)
-            self.items.append(item)
+            items.append(item)
+
+        self.items.extend(items)
 
         return self
 
-- 
2.43.0


From 95f3ec4b980ba90574166edde3232f5842c506f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:39 +0000
Subject: [PATCH 50/64] fix: refuse RectangleSector with zero or negative
 radius

---
 pvgridder/core/geometric_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 6ae7957..dc8334f 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -836,7 +836,7 @@ def RectangleSector(
         Rectangle mesh with sector removed at the center.
 
     """
-    if 0.0 < radius < (dx**2 + dy**2) ** 0.5:
+    if radius < (dx**2 + dy**2) ** 0.5:
         raise ValueError("invalid sector radius")
 
     line_x = generate_line_from_two_points([dx, dy], [0.0, dy], x_resolution, x_method)
-- 
2.43.0


From 1a27b691a473b9d041d63e3e25ffa5d407da3532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:52 +0000
Subject: [PATCH 51/64] fix: refuse surfaces with different numbers of cells of
 the same type

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 7cc001c..fa56544 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -375,7 +375,7 @@ def generate_volume_from_two_surfaces(
                 "could not generate volume from surfaces with unsupported cell types"
             )
 
-        if not np.allclose(surface_a.celltypes, surface_b.celltypes):
+        if not np.array_equal(surface_a.celltypes, surface_b.celltypes):
             raise ValueError(
                 "could not generate volume from two inhomogeneous unstructured surfaces"
             )
-- 
2.43.0


From da491d0c5e0ed9a3cec5c67fec711ae779604a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:24 +0000
Subject: [PATCH 52/64] fix: do not create a user dict on meshes without groups
 when assigning a group

---
 pvgridder/core/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 5ab5b11..b8c0f13 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -152,7 +152,11 @@ class MeshBase(ABC):
                 group = {group: np.ones(size, dtype=bool)}
 
             # Names are those of the groups in the mesh, with its own numbering
-            mesh_groups = mesh.user_dict.get("CellGroup", {})
+            mesh_groups = (
+                mesh.user_dict.get("CellGroup", {})
+                if "CellGroup" in mesh.cell_data
+                else {}
+            )
 
             for k, v in group.items():
                 if hasattr(v, "__call__"):
-- 
2.43.0


From ad903633653a6c768ea610566201551bff13ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:54 +0000
Subject: [PATCH 53/64] fix: recenter generating points before the Voronoi
 tessellation

Far from the origin (projected coordinates) Qhull lost several digits and
cell corners were off by centimetres.
---
 pvgridder/core/voronoi.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index b92f5d1..3e72a49 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -541,15 +541,19 @@ class VoronoiMesh2D(MeshBase):
         radius = infinity if infinity else np.ptp(self.mesh.points, axis=0).max() * 10.0
 
         # Surround points by points at infinity so that all their regions are finite
-        far_points = points.mean(axis=0) + radius * np.array(
+        # Recenter coordinates around zero to prevent accuracy issues
+        center = points.mean(axis=0)
+        far_points = radius * np.array(
             [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0]]
         )
-        voronoi = Voronoi(np.vstack((points, far_points)), qhull_options=qhull_options)
+        voronoi = Voronoi(
+            np.vstack((points - center, far_points)), qhull_options=qhull_options
+        )
         regions = [
             voronoi.regions[region] for region in voronoi.point_region[: len(points)]
         ]
 
-        return regions, voronoi.vertices
+        return regions, voronoi.vertices + center
 
     @property
     def mesh(self) -> pv.DataSet:
-- 
2.43.0


From 5cd044548ebf774bf4c66a95a86de4c12ca518eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:32 +0000
Subject: [PATCH 54/64] fix: handle lines of more than 1000 segments and joined
 polylines when sweeping two lines

---
 pvgridder/core/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index fa56544..2a8a9b6 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -148,8 +148,9 @@ def generate_surface_from_two_lines(
         if isinstance(line, pv.PolyData):
             # Use the first continuous polyline if available
             if line.n_lines:
-                lines = line.strip(join=True).lines
+                lines = line.strip(join=True, max_length=line.n_points).lines
                 ids = lines[1 : lines[0] + 1]
+                ids = ids[np.insert(np.diff(ids) != 0, 0, True)]  # joined polylines
 
             # Use the first polygon otherwise
             else:
-- 
2.43.0


From 2602470dd12acfd15e3bfb46e326ab06c235759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:32 +0000
Subject: [PATCH 55/64] fix: do not exceed the recursion limit when decimating
 long polylines

---
 pvgridder/utils/_misc.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 10249b6..2ed3c1e 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -117,23 +117,28 @@ def decimate_rdp(mesh: pv.PolyData, tolerance: float = 1.0e-8) -> pv.PolyData:
     def decimate(points: ArrayLike) -> NDArray:
         """Ramer-Douglas-Packer algorithm."""
         points = np.asanyarray(points)
-        u = points[-1] - points[0]
-        un = np.linalg.norm(u)
-
-        # Distance to the segment (and not to the infinite line)
-        t = ((points - points[0]) @ u / un**2).clip(0.0, 1.0) if un > 0.0 else 0.0
-        dist = np.linalg.norm(points - points[0] - np.multiply.outer(t, u), axis=1)
-        dist[[0, -1]] = 0.0
-        imax = dist.argmax()
-
-        if dist[imax] > tolerance:
-            res1 = decimate(points[: imax + 1])
-            res2 = decimate(points[imax:])
-
-            return np.vstack((res1[:-1], res2))
-
-        else:
-            return np.vstack((points[0], points[-1]))
+        mask = np.zeros(len(points), dtype=bool)
+        mask[[0, -1]] = True
+        stack = [(0, len(points) - 1)]  # a long polyline exceeds the recursion limit
+
+        while stack:
+            first, last = stack.pop()
+            points_ = points[first : last + 1]
+            u = points_[-1] - points_[0]
+            un = np.linalg.norm(u)
+
+            # Distance to the segment (and not to the infinite line)
+            vecs = points_ - points_[0]
+            t = (vecs @ u / un**2).clip(0.0, 1.0) if un > 0.0 else 0.0
+            dist = np.linalg.norm(vecs - np.multiply.outer(t, u), axis=1)
+            dist[[0, -1]] = 0.0
+            imax = dist.argmax()
+
+            if dist[imax] > tolerance:
+                mask[first + imax] = True
+                stack += [(first, first + imax), (first + imax, last)]
+
+        return points[mask]
 
     lines = []
     points = []
-- 
2.43.0


From 895c3b04c5c6e040fa896d361cc666b069ac9ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:32 +0000
Subject: [PATCH 56/64] fix: do not truncate polylines of more than 1000
 segments when intersecting

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 2ed3c1e..52b49ca 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -752,7 +752,7 @@ def intersect_polyline(
 
     from .. import get_cell_centers
 
-    line_ = cast(pv.PolyData, line.strip())
+    line_ = cast(pv.PolyData, line.strip(max_length=line.n_points))
     lines = split_lines(line_, as_lines=True)[0]
 
     # Recenter coordinates around zero to prevent accuracy issues
-- 
2.43.0


From 8b2bd14033ef2d5dc065c9a1705830ffdd025b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:25 +0000
Subject: [PATCH 57/64] fix: hide cells of 2D layers whose interfaces only
 differ by round-off

---
 pvgridder/core/_helpers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 2a8a9b6..3835f8c 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -238,6 +238,13 @@ def generate_surface_from_two_lines(
     ]
     mesh.cell_data["vtkGhostType"][np.abs(areas) == 0.0] = 32
 
+    # Interfaces that only differ by round-off are also collapsed (same as in 3D)
+    points = line_points_a + perc * (line_points_b - line_points_a)
+    coincident = np.isclose(np.diff(points, axis=0), 0.0).all(axis=-1)
+    inactive = coincident[:, :-1] & coincident[:, 1:]
+    inactive = inactive.T if plane in {"yx", "zx", "zy"} else inactive
+    mesh.cell_data["vtkGhostType"][inactive.ravel()] = 32
+
     return mesh
 
 
-- 
2.43.0


From af055f627426c02c1ecc3c9a21df0e3287d523bb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 09:54:22 +0000
Subject: [PATCH 58/64] fix: split Voronoi regions cut by the boundary or
 enclosing a hole

Such a region was written as a single self-intersecting polygon made of all
its rings. It now gives one simple polygon per part, with the same point.
---
 pvgridder/core/voronoi.py | 52 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 3e72a49..a9c0ebd 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -17,6 +17,7 @@ if TYPE_CHECKING:
     from typing import Optional  # pragma: no cover
 
     from numpy.typing import ArrayLike  # pragma: no cover
+    from shapely import Polygon  # pragma: no cover
     from typing_extensions import Self  # pragma: no cover
 
 
@@ -470,6 +471,7 @@ class VoronoiMesh2D(MeshBase):
 
         # Generate polygonal mesh
         points, cells = [], []
+        polygons, region_ids = [], []
         n_points = 0
 
         for i, region in enumerate(regions):
@@ -479,6 +481,13 @@ class VoronoiMesh2D(MeshBase):
                 raise ValueError(f"region {i} is not a valid polygon")
 
             polygon = boundary.intersection(polygon)
+
+            # A region may be split by the boundary or may enclose a hole
+            for polygon_ in self._split_polygon(polygon):
+                polygons.append(polygon_)
+                region_ids.append(i)
+
+        for polygon in polygons:
             points_ = get_coordinates(polygon)[:-1]
             cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
@@ -497,12 +506,12 @@ class VoronoiMesh2D(MeshBase):
         mesh = pv.PolyData(points, faces=cells)
         mesh = mesh.cast_to_unstructured_grid()
 
-        mesh.cell_data["CellGroup"] = group_array[active]
+        mesh.cell_data["CellGroup"] = group_array[active][region_ids]
         mesh.user_dict["CellGroup"] = groups
         _ = mesh.set_active_scalars("CellGroup", preference="cell")
 
         # Add coordinates of Voronoi points
-        voronoi_points = np.insert(voronoi_points, self.axis, 0.0, axis=1)
+        voronoi_points = np.insert(voronoi_points[region_ids], self.axis, 0.0, axis=1)
         mesh.cell_data["X"] = voronoi_points[:, 0]
         mesh.cell_data["Y"] = voronoi_points[:, 1]
         mesh.cell_data["Z"] = voronoi_points[:, 2]
@@ -516,6 +525,45 @@ class VoronoiMesh2D(MeshBase):
 
         return cast(pv.UnstructuredGrid, self._clean(mesh, tolerance))
 
+    @staticmethod
+    def _split_polygon(polygon: Polygon) -> list[Polygon]:
+        """
+        Split a geometry into simple polygons.
+
+        Parameters
+        ----------
+        polygon : shapely.Polygon
+            Geometry to split.
+
+        Returns
+        -------
+        Sequence[shapely.Polygon]
+            Simple polygons.
+
+        """
+        from shapely import box
+
+        polygons, stack = [], [polygon]
+
+        while stack:
+            polygon = stack.pop()
+
+            if hasattr(polygon, "geoms"):
+                stack += list(polygon.geoms)[::-1]
+
+            elif polygon.area > 0.0:
+                # Cut polygons through their holes
+                if polygon.interiors:
+                    x = polygon.interiors[0].centroid.x
+                    xmin, ymin, xmax, ymax = polygon.bounds
+                    stack.append(polygon.intersection(box(x, ymin, xmax, ymax)))
+                    stack.append(polygon.intersection(box(xmin, ymin, x, ymax)))
+
+                else:
+                    polygons.append(polygon)
+
+        return polygons
+
     @staticmethod
     def _compute_signed_area(points: NDArray) -> float:
         """Compute signed area of a polygon given its vertices."""
-- 
2.43.0


From 300d455b16a5c498ef93a62187cae39429d2cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:05 +0000
Subject: [PATCH 59/64] fix: clip Voronoi meshes to all the parts of a
 disconnected background mesh

Only the first boundary polygon was used.
---
 pvgridder/core/voronoi.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index a9c0ebd..c3d789c 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -360,7 +360,7 @@ class VoronoiMesh2D(MeshBase):
             2D Voronoi mesh.
 
         """
-        from shapely import Polygon, get_coordinates
+        from shapely import MultiPolygon, Polygon, get_coordinates
 
         from .. import (
             average_points,
@@ -462,12 +462,14 @@ class VoronoiMesh2D(MeshBase):
                 "could not extract boundary polygons for the background mesh"
             )
 
-        boundary_polygon = boundary_polygons[0]
         boundary = [
-            np.delete(decimate_rdp(polygon).points, self.axis, axis=1)
-            for polygon in boundary_polygon
+            [
+                np.delete(decimate_rdp(polygon).points, self.axis, axis=1)
+                for polygon in boundary_polygon
+            ]
+            for boundary_polygon in boundary_polygons
         ]
-        boundary = Polygon(boundary[0], boundary[1:])
+        boundary = MultiPolygon([(shell, holes) for shell, *holes in boundary])
 
         # Generate polygonal mesh
         points, cells = [], []
-- 
2.43.0


From 1259c8c1e8f17b17df4da6b030aba5b37b57f130 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 09:56:05 +0000
Subject: [PATCH 60/64] fix: recenter datasets before interpolating them on a
 stack

Far from the origin (projected coordinates) Qhull ignored data points of
site-scale datasets and values were off by decimetres.
---
 pvgridder/core/_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index b8c0f13..1f26fd5 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -534,8 +534,12 @@ class MeshStackBase(MeshBase):
         ]
 
         if len(idx) > 1:
-            interp = LinearNDInterpolator(points[:, idx], points[:, self.axis])
-            tmp = interp(mesh.points[:, idx])
+            # Recenter coordinates around zero to prevent accuracy issues
+            center = points[:, idx].mean(axis=0)
+            interp = LinearNDInterpolator(
+                points[:, idx] - center, points[:, self.axis]
+            )
+            tmp = interp(mesh.points[:, idx] - center)
             mask = np.isnan(tmp)
 
             if mask.any():
-- 
2.43.0


From 4c90f91bc53bf128ac4789fed449050dcf1d0e1e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 09:57:26 +0000
Subject: [PATCH 61/64] fix: average points of a mesh without faces

The points averaged into another one were kept at their own location.
---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 52b49ca..7789bf7 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -88,7 +88,7 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
         ]
 
     else:
-        new_mesh = pv.PolyData(new_points)
+        new_mesh = pv.PolyData(new_points[point_map == np.arange(mesh.n_points)])
 
     if mesh.n_lines:
         raise NotImplementedError()
-- 
2.43.0


From e520a43b30e7bc8cfffc1f58e4af2dc31621e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:57 +0000
Subject: [PATCH 62/64] fix: orient small Voronoi cells far from the origin

The signed area was computed in absolute coordinates, whose round-off exceeds
the area of small cells at projected coordinates.
---
 pvgridder/core/voronoi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index c3d789c..875264c 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -569,7 +569,8 @@ class VoronoiMesh2D(MeshBase):
     @staticmethod
     def _compute_signed_area(points: NDArray) -> float:
         """Compute signed area of a polygon given its vertices."""
-        x, y = points.T
+        # Recenter coordinates around zero to prevent accuracy issues
+        x, y = (points - points[0]).T
 
         return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
 
-- 
2.43.0


From 1ac323cf032bdc6cc6b7e6c40523e1201ec6d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:14 +0000
Subject: [PATCH 63/64] fix: do not repeat vertices of Voronoi cells next to
 the boundary

Vertices closer than the merging tolerance ended up as the same point listed
twice in a cell, which e.g. fuse_cells cannot handle.
---
 pvgridder/core/voronoi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 875264c..48da139 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -508,6 +508,15 @@ class VoronoiMesh2D(MeshBase):
         mesh = pv.PolyData(points, faces=cells)
         mesh = mesh.cast_to_unstructured_grid()
 
+        # Merge points beforehand as cells must not use a point more than once
+        mesh = mesh.clean(tolerance=tolerance, produce_merge_map=False)
+        faces = np.split(mesh.cell_connectivity, mesh.offset[1:-1])
+        faces = [face[face != np.roll(face, 1)] for face in faces]
+        region_ids = [i for i, face in zip(region_ids, faces) if len(face) > 2]
+        faces = [face for face in faces if len(face) > 2]
+        mesh = pv.PolyData().from_irregular_faces(mesh.points, faces)
+        mesh = mesh.cast_to_unstructured_grid()
+
         mesh.cell_data["CellGroup"] = group_array[active][region_ids]
         mesh.user_dict["CellGroup"] = groups
         _ = mesh.set_active_scalars("CellGroup", preference="cell")
-- 
2.43.0


From 307570f4d1b8808d7ec1d3a9f2e563b2e0996472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 64/64] fix: mesh polygons close to the origin, where Gmsh is
 accurate

---
 pvgridder/core/geometric_objects.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index dc8334f..1ff219f 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -568,6 +568,11 @@ def Polygon(
         mesh = pv.UnstructuredGrid(cells, celltypes, points)
 
     elif celltype in {"quad", "triangle"}:
+        # Shift to origin since Gmsh is less accurate with large coordinates
+        origin = np.array(shell[0], dtype=float)
+        shell = shell - origin
+        holes = [hole - origin for hole in holes]
+
         try:
             gmsh.initialize()
 
@@ -631,7 +636,7 @@ def Polygon(
             element_types, _, element_node_tags = gmsh.model.mesh.getElements()
             gmsh_to_pyvista_type = {2: pv.CellType.TRIANGLE, 3: pv.CellType.QUAD}
 
-            points = np.reshape(coord, (-1, 3))
+            points = np.reshape(coord, (-1, 3)) + origin
             cells = {
                 gmsh_to_pyvista_type[type_]: np.reshape(
                     node_tags,
-- 
2.43.0

