From aa7d34041e27cfd1d83c78c1eae95a382c465240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 01/53] fix: extrema of a mesh holding a single element

---
 src/pymech/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 9b6150e..841829c 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -44,7 +44,9 @@ class DataLims:
     def __init__(self, elements):
         self._variables = ("pos", "vel", "pres", "temp", "scal")
 
-        aggregated_lims = reduce(self._lims_aggregator, elements)
+        aggregated_lims = self._lims_per_element(
+            reduce(self._lims_aggregator, elements)
+        )
         for var in self._variables:
             agg_lims_var = aggregated_lims[var]
             # set minimum, maximum of variables as a nested tuple
-- 
2.43.0


From e8a45bbfb96c94666a741014184427cb7a7903e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 02/53] fix: measure the edges of an element, not its
 diagonals, in smallest_edge

---
 src/pymech/core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 841829c..408d3a5 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -151,9 +151,9 @@ class Elem:
 
         # get coordinates of points
         x1, y1, z1 = self.pos[:, 0, 0, 0]
-        x2, y2, z2 = self.pos[:, 0, 0, 1]
-        x3, y3, z3 = self.pos[:, 0, 1, 0]
-        x4, y4, z4 = self.pos[:, 0, 1, 1]
+        x2, y2, z2 = self.pos[:, 0, 0, -1]
+        x3, y3, z3 = self.pos[:, 0, -1, -1]
+        x4, y4, z4 = self.pos[:, 0, -1, 0]
         # compute squares of edges lengths
         edges_l2 = np.zeros((12,))
         edges_l2[0] = (x2 - x1) ** 2 + (y2 - y1) ** 2 + (z2 - z1) ** 2
@@ -167,10 +167,10 @@ class Elem:
             ndim = 2
         if ndim > 2:
             # in 3D, do the same for the upper face, and also the side edges
-            x5, y5, z5 = self.pos[:, 1, 0, 0]
-            x6, y6, z6 = self.pos[:, 1, 0, 1]
-            x7, y7, z7 = self.pos[:, 1, 1, 0]
-            x8, y8, z8 = self.pos[:, 1, 1, 1]
+            x5, y5, z5 = self.pos[:, -1, 0, 0]
+            x6, y6, z6 = self.pos[:, -1, 0, -1]
+            x7, y7, z7 = self.pos[:, -1, -1, -1]
+            x8, y8, z8 = self.pos[:, -1, -1, 0]
             edges_l2[4] = (x6 - x5) ** 2 + (y6 - y5) ** 2 + (z6 - z5) ** 2
             edges_l2[5] = (x7 - x6) ** 2 + (y7 - y6) ** 2 + (z7 - z6) ** 2
             edges_l2[6] = (x8 - x7) ** 2 + (y8 - y7) ** 2 + (z8 - z7) ** 2
-- 
2.43.0


From 7beeefd5021901e2f34b15a2c2901f484b35d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 03/53] fix: count the curved edges of generated and mapped
 meshes

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 93ec911..4337a54 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1791,6 +1791,7 @@ def gen_circle(
     # bottom box
     rotate_2d(box_o, 0, 0, 0.5 * pi)
     box_square.merge(box_o, ignore_all_bcs=not internal_bcs)
+    box_square.update_ncurv()
 
     return box_square
 
@@ -1853,4 +1854,5 @@ def map2D(
                 xm, ym, _ = edge_mid(el, iedge)
                 mapped_xm, mapped_ym = transformation(xm, ym)
                 mapped_el.curv[iedge, 0:2] = mapped_xm, mapped_ym
+    mapped_mesh.update_ncurv()
     return mapped_mesh
-- 
2.43.0


From 0ce0f24e1e5c67a728d9333a05dceb1ced767898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 04/53] fix: edge_mid and edge_circle must not write into the
 element they look at

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 4337a54..b7a2de1 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -895,7 +895,7 @@ def edge_mid(el, iedge):
     """
 
     # correct if ccurv=='m', otherwise, works as allocation
-    midpoint = el.curv[iedge][:3]
+    midpoint = el.curv[iedge][:3].copy()
 
     if el.ccurv[iedge] != "m":
         if iedge == 0:
@@ -1054,7 +1054,7 @@ def edge_circle(el, iedge, midpoint):
         radius = 0.0
         center = [0.0, 0.0, 0.0]
 
-    curv = el.curv[iedge][:4]
+    curv = el.curv[iedge][:4].copy()
     curv[0] = radius
     curv[1:4] = center
 
-- 
2.43.0


From 9013ef4c98e079255e97c2b96b2ad8143da52b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 05/53] fix: rotate around the requested centre and rotate the
 centre of spherical curvature

---
 src/pymech/meshtools.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index b7a2de1..b732fee 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1337,17 +1337,17 @@ def rotate_2d(mesh, x0, y0, theta):
     cost = cos(theta)
     sint = sin(theta)
     for el in mesh.elem:
-        x = el.pos[0, ...].copy()
-        y = el.pos[1, ...].copy()
-        el.pos[0, ...] = cost * x - sint * y
-        el.pos[1, ...] = sint * x + cost * y
-        # rotate 'm' curvature
+        x = el.pos[0, ...] - x0
+        y = el.pos[1, ...] - y0
+        el.pos[0, ...] = x0 + cost * x - sint * y
+        el.pos[1, ...] = y0 + sint * x + cost * y
+        # rotate the midpoints of 'm' curvature and the centres of 's' curvature
         for edge in range(12):
-            if el.ccurv[edge] == "m":
-                x = el.curv[edge, 0]
-                y = el.curv[edge, 1]
-                el.curv[edge, 0] = cost * x - sint * y
-                el.curv[edge, 1] = sint * x + cost * y
+            if el.ccurv[edge] in ("m", "s"):
+                x = el.curv[edge, 0] - x0
+                y = el.curv[edge, 1] - y0
+                el.curv[edge, 0] = x0 + cost * x - sint * y
+                el.curv[edge, 1] = y0 + sint * x + cost * y
 
 
 # =================================================================================
-- 
2.43.0


From 61b317e977d33f625fd4f77cdddbf3dd46c7149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 06/53] fix: remove the internal conditions of every layer when
 extruding without them

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index b732fee..6869579 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -68,6 +68,8 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     # add extra copies of all elements
     for k in range(nz - 1):
         mesh_add = copy.deepcopy(mesh)
+        if not internal_bcs:
+            delete_internal_bcs(mesh_add)
         # fix the indexing of periodic and internal conditions
         mesh_add.offset_connectivity((k + 1) * nel2d)
         mesh3d.elem = mesh3d.elem + mesh_add.elem
-- 
2.43.0


From 84862a52ee674a54fe1c77d25f0293bb32534555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 07/53] fix: keep the element map in step with the elements

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 6869579..b2d4fb1 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -61,6 +61,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     nel3d = mesh.nel * nz
     nbc = mesh.nbc
     mesh3d.nel = nel3d
+    mesh3d.elmap = np.linspace(1, nel3d, nel3d, dtype=np.int32)
     mesh3d.ndim = 3
     # The curved sides will also be extruded, one on each side of each element along nz
     mesh3d.ncurv = 2 * nz * mesh.ncurv
@@ -1233,6 +1234,7 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
         new_elems.append(mesh.elem[iel])
     mesh.elem = new_elems
     mesh.nel = len(mesh.elem)
+    mesh.elmap = np.linspace(1, mesh.nel, mesh.nel, dtype=np.int32)
     mesh.update_ncurv()
 
 
-- 
2.43.0


From 14e6f0c6d5ea11059a85e857e5c228c6ad5ebf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 08/53] fix: extrude_refine without splitting functions or
 without their parameters

---
 src/pymech/meshtools.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index b2d4fb1..65105fb 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -230,12 +230,20 @@ def extrude_refine(
             )
 
     # Consistency checks: Functions that define the splitting lines
-    nsplit = len(fun)
-    if funpar is not None and len(funpar) != nsplit:
+    nsplit = 0 if fun is None else len(fun)
+    if funpar is None:
+        funpar = [0.0] * nsplit
+    if len(funpar) != nsplit:
         raise ValueError(
             f"The length of funpar ({len(funpar)}) must match the length of par ({nsplit})!"
         )
 
+    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
+    if nsplit == 0:
+        logger.info("Splitting function not defined. Calling simple extrusion routine.")
+        mesh3D = extrude(mesh2D, z, bc1, bc2, internal_bcs=internal_bcs)
+        return mesh3D
+
     # number of elements in the z direction
     nz = len(z) - 1
 
@@ -247,12 +255,6 @@ def extrude_refine(
             f"Inconsistent elements to extrude: the number of elements ({nz}) must be a multiple of {max([2**abs(imesh_high + 1), 2**abs(nsplit - imesh_high + 1)])}"
         )
 
-    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
-    if fun is None:
-        logger.info("Splitting function not defined. Calling simple extrusion routine.")
-        mesh3D = extrude(mesh2D, z, bc1, bc2)
-        return mesh3D
-
     mesh2D_ext = copy.deepcopy(mesh2D)
     # get rid of internal boundary conditions if they are not requested
     if not internal_bcs:
-- 
2.43.0


From e588f0cd112f555702da7495b595b105b9a9cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 09/53] fix: generated meshes must not share their variable
 list with the caller or the defaults

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 65105fb..5065a1b 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1416,7 +1416,7 @@ def gen_box(
     if bcs_ymax is None:
         bcs_ymax = ["P"] * nbc
 
-    box = HexaData(ndim, nel, lr1, var, nbc=nbc)
+    box = HexaData(ndim, nel, lr1, list(var), nbc=nbc)
     # box dimensions
     lx = xmax - xmin
     if lx <= 0:
@@ -1679,7 +1679,7 @@ def gen_circle(
 
     # Box 1: square
     nel_square = ns * ns
-    box_square = HexaData(ndim, nel_square, lr1, var, nbc=nbc)
+    box_square = HexaData(ndim, nel_square, lr1, list(var), nbc=nbc)
     # the characteristic distance is the diagonal
     c = s * r * sqrt(2)
     for i, j in product(range(ns), range(ns)):
-- 
2.43.0


From ecb1d0baf9f86ef95c4b5ec08983546b812e68ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 10/53] fix: reject negative element numbers and ignore
 repeated ones in keep_elements

---
 src/pymech/meshtools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 5065a1b..f380be2 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1196,8 +1196,7 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
     """
 
     # sort element numbers
-    elems = np.array(elems)
-    elems.sort()
+    elems = np.unique(elems)
 
     # list of booleans representing whether each element is kept
     kept = [False for i in range(mesh.nel)]
@@ -1207,7 +1206,7 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
     last_iel = -1
     current_offset = 0
     for iel in elems:
-        if iel >= mesh.nel:
+        if iel < 0 or iel >= mesh.nel:
             raise ValueError(f"invalid element number {iel} for nel = {mesh.nel}")
         current_offset += iel - last_iel - 1
         offsets[iel] = current_offset
-- 
2.43.0


From e4d5a89903dc3510c18b4db946947655df30d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 11/53] fix: accept the element orders of meshes read from
 field files

---
 src/pymech/meshtools.py     | 6 +++---
 src/pymech/neksuite/mesh.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index f380be2..86cdf44 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -35,7 +35,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
 
     if mesh.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh.lr1 != [2, 2, 1]:
+    if list(mesh.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
@@ -216,7 +216,7 @@ def extrude_refine(
     # Consistency checks: Initial grid
     if mesh2D.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh2D.lr1 != [2, 2, 1]:
+    if list(mesh2D.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh2D.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
@@ -418,7 +418,7 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
     # Consistency checks: Initial grid
     if mesh.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh.lr1 != [2, 2, 1]:
+    if list(mesh.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 03be657..da14b30 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -762,7 +762,7 @@ def writere2(fname, data):
     # ---------------------------------------------------------------------------
     #
     # We could extract the corners, but for now just return an error if lr1 is too large
-    if data.lr1 != [2, 2, data.ndim - 1]:
+    if list(data.lr1) != [2, 2, data.ndim - 1]:
         raise ValueError(
             "wrong element dimensions for re2 file! {} != {}".format(
                 data.lr1, [2, 2, data.ndim - 1]
-- 
2.43.0


From 37496f57d43af7c2ad92a07256a8f50981e97685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 12/53] fix: extruded elements keep no 2D arrays

---
 src/pymech/meshtools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 86cdf44..85520fe 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -83,6 +83,9 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
             mesh3d.elem[iel].pos = np.zeros((3, 2, 2, 2))
             mesh3d.elem[iel].pos[:, :1, :, :] = mesh.elem[i].pos
             mesh3d.elem[iel].pos[:, 1:2, :, :] = mesh.elem[i].pos
+            mesh3d.elem[iel].vel = np.zeros((3, 2, 2, 2))
+            for name in ("pres", "temp", "scal"):
+                setattr(mesh3d.elem[iel], name, np.zeros((0, 2, 2, 2)))
 
             # fill in the z location
             z1 = z[k]
@@ -467,6 +470,9 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
             for iell in range(6):
                 mesh3d.elem[iel + iell] = copy.deepcopy(mesh.elem[i])
                 mesh3d.elem[iel + iell].pos = np.zeros((3, 2, 2, 2))
+                mesh3d.elem[iel + iell].vel = np.zeros((3, 2, 2, 2))
+                for name in ("pres", "temp", "scal"):
+                    setattr(mesh3d.elem[iel + iell], name, np.zeros((0, 2, 2, 2)))
 
             xvec = np.zeros((2, 2))
             yvec = np.zeros((2, 2))
-- 
2.43.0


From c4b99fc66cd5a7ad755ee92ef962adc1ea19a3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 13/53] fix: spherical curvature in elements split by
 extrude_refine

---
 src/pymech/meshtools.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 85520fe..2fb1a95 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -442,6 +442,18 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
     if nz % 4 != 0:
         raise ValueError("Inconsistent elements to extrude: nz must be divided by 4")
 
+    # Curvature type 's' acts on faces, not edges. Does not make sense for extruded mesh. Changing to 'C'.
+    mesh = copy.deepcopy(mesh)
+    for i, el in enumerate(mesh.elem):
+        for icurv in range(4):
+            if el.ccurv[icurv] == "s":
+                logger.warning(
+                    f"Curvature s on element {i + 1}. Not consistent with extrusion, changing to C"
+                )
+                el.ccurv[icurv] = "C"
+                el.curv[icurv][0] = el.curv[icurv][4]
+                el.curv[icurv][1:] = 0.0
+
     # copy the structure and make it 3D
     mesh3d = copy.deepcopy(mesh)
 
@@ -610,15 +622,7 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
             mesh3d.elem[iel + 5].pos[2, 1, :, :] = z2[k + 3]
 
             for icurv in range(4):
-                # Curvature type 's' acts on faces, not edges. Does not make sense for extruded mesh. Changing to 'C'.
-                if mesh.elem[i].ccurv[icurv] == "s":
-                    logger.warn(
-                        f"Curvature s on element {i + 1}. Not consistent with extrusion, changing to C"
-                    )
-                    mesh.elem[i].ccurv[icurv] == "C"
-                    mesh.elem[i].ccurv[icurv][0] = mesh.elem[i].ccurv[icurv][4]
-                    mesh.elem[i].ccurv[icurv][1:4] = 0.0
-                elif (
+                if (
                     (mesh.elem[i].ccurv[icurv] != "")
                     and (mesh.elem[i].ccurv[icurv] != "m")
                     and (mesh.elem[i].ccurv[icurv] != "C")
-- 
2.43.0


From 2bd46dfb9fa7bedb67d167dba2fa5f5b56cfb949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 14/53] fix: map meshes without boundary condition fields

---
 src/pymech/meshtools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 2fb1a95..b870d00 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1863,7 +1863,11 @@ def map2D(
             if (
                 curvature
                 or el.ccurv[iedge] != ""
-                or (boundary_curvature and el.bcs[0][iedge][0] not in ["", "E"])
+                or (
+                    boundary_curvature
+                    and mesh.nbc > 0
+                    and el.bcs[0][iedge][0] not in ["", "E"]
+                )
             ):
                 mapped_el.ccurv[iedge] = "m"
                 xm, ym, _ = edge_mid(el, iedge)
-- 
2.43.0


From 343a079163eff32f2abd8248dae0cca90f6941d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 15/53] fix: read the counts and the condition names of
 big-endian re2 files

---
 src/pymech/neksuite/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index da14b30..4645aa3 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -681,7 +681,7 @@ def readre2(fname):
     # where p1-5 are f64 parameters and ctype is the type of curvature in ASCII
     ncparam = 8
     buf = infile.read(wdsz)
-    ncurv = int(np.frombuffer(buf)[0])
+    ncurv = int(np.frombuffer(buf, dtype=emode + realtype)[0])
     logger.debug(f"Found {ncurv} curved sides")
     data.ncurv = ncurv
     buf = infile.read(wdsz * (ncparam * ncurv))
@@ -699,7 +699,7 @@ def readre2(fname):
         # select only the first byte, because it turns out the later bytes may contain garbage.
         # typically, it's b'C\x00\x00\x00\x00\x00\x00\x00' or b'C\x00\x00\x00\x00\x00\xe0?'.
         # AFAIK the curvature types are always one character long anyway.
-        ctype = curv[7].tobytes()[:1].decode("utf-8")
+        ctype = curv[7:].tobytes()[:1].decode("utf-8")
         # fill in the data structure
         data.elem[iel].curv[iedge, :] = cparams
         data.elem[iel].ccurv[iedge] = ctype
@@ -716,7 +716,7 @@ def readre2(fname):
             for el in data.elem:
                 empty_bcs = np.zeros(el.bcs[:1, :].shape, dtype=el.bcs.dtype)
                 el.bcs = np.concatenate((el.bcs, empty_bcs))
-        nbclines = int(np.frombuffer(buf)[0])
+        nbclines = int(np.frombuffer(buf, dtype=emode + realtype)[0])
         logger.debug(
             f"Found {nbclines} external boundary conditions for field {ifield}"
         )
@@ -732,7 +732,7 @@ def readre2(fname):
             iel = int(bc[0]) - 1
             iface = int(bc[1]) - 1
             bcparams = bc[2:7]
-            bctype = bc[7].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
+            bctype = bc[7:].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
             # fill in the data structure
             data.elem[iel].bcs[ifield, iface][0] = bctype
             data.elem[iel].bcs[ifield, iface][1] = iel + 1
-- 
2.43.0


From 0f87d97f82ed8ed065e78604dd6e7af96d1db1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 16/53] fix: report write errors in writere2

---
 src/pymech/neksuite/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 4645aa3..b010424 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -813,7 +813,7 @@ def writere2(fname, data):
     #
     # write tag (to specify endianness)
     endianbytes = np.array([6.54321], dtype=np.float32)
-    correct_endianness(endianbytes).tofile(outfile)
+    outfile.write(correct_endianness(endianbytes).tobytes())
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
@@ -824,7 +824,7 @@ def writere2(fname, data):
 
     def write_data_to_file(a):
         """Write the geometry of an element to the output file in double precision"""
-        correct_endianness(a).tofile(outfile)
+        outfile.write(correct_endianness(a).tobytes())
 
     #
     # write geometry (adding eight bytes of zeros before each element)
-- 
2.43.0


From d374309973eff2f25338b29caf17b15c87486e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 17/53] fix: writerea must count the curved edges it writes

---
 src/pymech/neksuite/mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index b010424..6c6c8cc 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -442,9 +442,14 @@ def writerea(fname, data):
             )
     #
     # curved side data
+    ncurv = sum(1 for el in data.elem for ccurv in el.ccurv if ccurv != "")
+    if ncurv != data.ncurv:
+        logger.warning(
+            f"wrong number of curved edges: expected {data.ncurv}, found {ncurv}"
+        )
     outfile.write("  ***** CURVED SIDE DATA *****\n")
     outfile.write(
-        f"  {data.ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
+        f"  {ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
     )
     for iel in range(data.nel):
         if data.nel < 1e3:
-- 
2.43.0


From 52209caa58013fe3d6b8b109fdcfa95a470cd5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 18/53] fix: writerea must not modify the mesh it writes

---
 src/pymech/neksuite/mesh.py | 53 ++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 6c6c8cc..2bf1986 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -517,46 +517,45 @@ def writerea(fname, data):
             for iface in range(2 * data.ndim):
                 # if no boundary condition is specified, write 'E' iel iface [...]
                 # this is the behaviour of re2torea.
-                if data.elem[iel].bcs[ibc, iface][0] == "":
-                    data.elem[iel].bcs[ibc, iface][0] = "E"
-                    data.elem[iel].bcs[ibc, iface][1] = iel + 1
-                    data.elem[iel].bcs[ibc, iface][2] = iface + 1
+                bc = data.elem[iel].bcs[ibc, iface]
+                if bc[0] == "":
+                    bc = ("E", iel + 1, iface + 1, *list(bc)[3:])
                 if data.nel < 1e3:
                     outfile.write(
                         " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 elif data.nel < 1e6:
                     outfile.write(
                         " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 else:
                     outfile.write(
                         " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
 
-- 
2.43.0


From fba20823b4071ae0e7a4e4184cb4b596fe38b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 19/53] fix: three-letter boundary conditions in rea files

---
 src/pymech/neksuite/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 2bf1986..7257f54 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -147,7 +147,7 @@ def readrea(fname):
             for iface in range(nface):
                 line = infile.readline()
                 if nel < 1e3:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:7])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[7:10])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -156,7 +156,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 elif nel < 1e6:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = iel + 1
                     data.elem[iel].bcs[ibc, iface][2] = iface + 1
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -165,7 +165,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 else:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:15])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[15:16])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[16:34])
@@ -522,7 +522,7 @@ def writerea(fname, data):
                     bc = ("E", iel + 1, iface + 1, *list(bc)[3:])
                 if data.nel < 1e3:
                     outfile.write(
-                        " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             bc[0],
                             bc[1],
                             bc[2],
@@ -535,7 +535,7 @@ def writerea(fname, data):
                     )
                 elif data.nel < 1e6:
                     outfile.write(
-                        " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             bc[0],
                             bc[1],
                             bc[3],
@@ -547,7 +547,7 @@ def writerea(fname, data):
                     )
                 else:
                     outfile.write(
-                        " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
+                        " {:3s}{:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
                             bc[0],
                             bc[1],
                             bc[2],
-- 
2.43.0


From 956fa5a69000b34092e1ab8d9dffa360b58bd74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 20/53] fix: write a readable rea file for a mesh without
 boundary condition fields

---
 src/pymech/neksuite/mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 7257f54..a6be6e4 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -503,7 +503,10 @@ def writerea(fname, data):
     #
     # boundary conditions data
     outfile.write("  ***** BOUNDARY CONDITIONS *****\n")
-    outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    if data.nbc < 1:
+        outfile.write("  ***** NO FLUID BOUNDARY CONDITIONS *****\n")
+    else:
+        outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
     for ibc in range(data.nbc):
         if ibc == 1:
             outfile.write("  ***** THERMAL BOUNDARY CONDITIONS *****\n")
-- 
2.43.0


From 3328a8f8fb53c19d83dd8bdca9f9f52dc2902b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 21/53] fix: readma2 must return integers

---
 src/pymech/neksuite/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/map.py b/src/pymech/neksuite/map.py
index 4138575..5457009 100644
--- a/src/pymech/neksuite/map.py
+++ b/src/pymech/neksuite/map.py
@@ -81,9 +81,9 @@ def readma2(fname):
     buf = infile.read((nvert + 1) * wdsz * nel)
 
     # processor map (0-based)
-    procmap = np.empty((nel,))
+    procmap = np.empty((nel,), dtype=np.int32)
     # list of vertices for each element (in global address space)
-    cell = np.empty((nel, nvert))
+    cell = np.empty((nel, nvert), dtype=np.int32)
     for iel in range(nel):
         fi = np.frombuffer(
             buf,
-- 
2.43.0


From a618d976fcfd8690b2d39e1e6b06dd123459cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 22/53] fix: skip the right number of elements in a part of a
 multi-file dump

---
 src/pymech/neksuite/field.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index d61a11d..969faf9 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -253,7 +253,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(geometry_vars[idim] in skip_vars for idim in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 logger.warning(
@@ -286,7 +286,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
 
     if nb_vars:
         if all(skip_condition1) or all(skip_condition2):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -307,7 +307,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"p", "pressure"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -325,7 +325,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"t", "temperature"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -345,14 +345,14 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(scalar_vars[ivar] in skip_vars for ivar in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             # NOTE: This is not a bug!
             # Unlike other variables, scalars are in the outer loop and elements
             # are in the inner loop
             for ivar in range(nb_vars):
                 if skip_condition[ivar]:
-                    skip_elements(h.nb_elems)
+                    skip_elements(h.nb_elems_file)
                 else:
                     if 0 in elmap:
                         element_idxs = range(h.nb_elems_file)
-- 
2.43.0


From 4cefbcc0b711d8c74014e3e0cba15865e2adba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 23/53] fix: report the order in which elements were read when
 the element map is unusable

---
 src/pymech/neksuite/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 969faf9..84dfde9 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -227,6 +227,9 @@ def readnek(fname, dtype="float64", skip_vars=()):
     data.istep = h.istep
     data.wdsz = h.wdsz
     data.elmap = np.array(elmap, dtype=np.int32)
+    if 0 in elmap:
+        # the map is unusable, the elements are read in order (see below)
+        data.elmap = np.arange(1, h.nb_elems_file + 1, dtype=np.int32)
     if emode == "<":
         data.endian = "little"
     elif emode == ">":
-- 
2.43.0


From 1b9391718c252b3c6610876244f0d8fca8d4b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 24/53] fix: do not truncate an existing file when writenek
 rejects its input

---
 src/pymech/neksuite/field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 84dfde9..07a1412 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -387,8 +387,6 @@ def writenek(fname, data):
             data structure
     """
     #
-    outfile = open(fname, "wb")
-    #
     # ---------------------------------------------------------------------------
     # WRITE HEADER
     # ---------------------------------------------------------------------------
@@ -417,6 +415,7 @@ def writenek(fname, data):
         raise ValueError("Could not interpret real type (wdsz = %i)" % (data.wdsz))
     #
     # generate header
+    outfile = open(fname, "wb")
     outfile.write(h.as_bytestring())
     #
     # decide endianness
-- 
2.43.0


From 73bbfd69401f2894dd26c607a497ac76e9168a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 25/53] fix: report write errors in writenek

---
 src/pymech/neksuite/field.py | 88 ++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 34 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 07a1412..a867800 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -439,10 +439,10 @@ def writenek(fname, data):
     #
     # write tag (to specify endianness)
     endianbytes = np.array([6.54321], dtype=np.float32)
-    correct_endianness(endianbytes).tofile(outfile)
+    outfile.write(correct_endianness(endianbytes).tobytes())
     #
     # write element map for the file
-    correct_endianness(data.elmap).tofile(outfile)
+    outfile.write(correct_endianness(data.elmap).tobytes())
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
@@ -454,9 +454,9 @@ def writenek(fname, data):
     def write_ndarray_to_file(a):
         """Write a data array to the output file in the requested precision and endianness"""
         if data.wdsz == 4:
-            correct_endianness(a.astype(np.float32)).tofile(outfile)
+            outfile.write(correct_endianness(a.astype(np.float32)).tobytes())
         else:
-            correct_endianness(a).tofile(outfile)
+            outfile.write(correct_endianness(a).tobytes())
 
     #
     # write geometry
@@ -494,44 +494,64 @@ def writenek(fname, data):
         #
         for iel in data.elmap:
             for idim in range(data.var[0]):
-                correct_endianness(
-                    np.min(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
-                    np.max(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                outfile.write(
+                    correct_endianness(
+                        np.min(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
+                outfile.write(
+                    correct_endianness(
+                        np.max(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
         for iel in data.elmap:
             for idim in range(data.var[1]):
-                correct_endianness(
-                    np.min(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
-                    np.max(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                outfile.write(
+                    correct_endianness(
+                        np.min(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
+                outfile.write(
+                    correct_endianness(
+                        np.max(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
         for iel in data.elmap:
             for ivar in range(data.var[2]):
-                correct_endianness(
-                    np.min(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
-                    np.max(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                outfile.write(
+                    correct_endianness(
+                        np.min(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
+                outfile.write(
+                    correct_endianness(
+                        np.max(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
         for iel in data.elmap:
             for ivar in range(data.var[3]):
-                correct_endianness(
-                    np.min(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
-                    np.max(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                outfile.write(
+                    correct_endianness(
+                        np.min(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
+                outfile.write(
+                    correct_endianness(
+                        np.max(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
         for iel in data.elmap:
             for ivar in range(data.var[4]):
-                correct_endianness(
-                    np.min(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
-                    np.max(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                outfile.write(
+                    correct_endianness(
+                        np.min(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
+                outfile.write(
+                    correct_endianness(
+                        np.max(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
 
     # close file
     outfile.close()
-- 
2.43.0


From 7b2d3844a317664281f5d9b8a8c05b42499961df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 26/53] fix: write field data and element map in the announced
 type

---
 src/pymech/neksuite/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index a867800..a59a206 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -442,7 +442,7 @@ def writenek(fname, data):
     outfile.write(correct_endianness(endianbytes).tobytes())
     #
     # write element map for the file
-    outfile.write(correct_endianness(data.elmap).tobytes())
+    outfile.write(correct_endianness(data.elmap.astype(np.int32)).tobytes())
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
@@ -456,7 +456,7 @@ def writenek(fname, data):
         if data.wdsz == 4:
             outfile.write(correct_endianness(a.astype(np.float32)).tobytes())
         else:
-            outfile.write(correct_endianness(a).tobytes())
+            outfile.write(correct_endianness(a.astype(np.float64)).tobytes())
 
     #
     # write geometry
-- 
2.43.0


From c0e6241a2e4ae35129cb2f6eadc807290c0d1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 27/53] fix: read the scalars' header entries in readdns

---
 src/pymech/simsonsuite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index ccf18d3..c2a108b 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -74,10 +74,8 @@ def readdns(fname):
     pr = np.zeros(nscal)
     m = np.zeros(nscal)
     for i in range(nscal):
-        pr[i] = infile.read(wdsz)
-        pr[i] = struct.unpack(emode + realtype, pr[i])[0]
-        m[i] = infile.read(wdsz)
-        m[i] = struct.unpack(emode + realtype, m[i])[0]
+        pr[i] = struct.unpack(emode + realtype, infile.read(wdsz))[0]
+        m[i] = struct.unpack(emode + realtype, infile.read(wdsz))[0]
     #
     # end-of-line
     eol = infile.read(8)
-- 
2.43.0


From a902df7c1b23ed191b40b90485bed488f75f6e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 28/53] fix: transform SIMSON fields with the half spectrum
 along x

---
 src/pymech/simsonsuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index c2a108b..f280828 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -206,7 +206,7 @@ def readdns(fname):
                 eol = infile.read(8)
         #
         # back to physical space
-        data.elem[0].vel[idim, :, :, :] = np.fft.irfft2(fou, (lr1[0], lr1[2]), (2, 0))
+        data.elem[0].vel[idim, :, :, :] = np.fft.irfft2(fou, (lr1[2], lr1[0]), (0, 2))
     #
     # read scalars and transform in physical space
     for ivar in range(var[4]):
@@ -226,7 +226,7 @@ def readdns(fname):
                 eol = infile.read(8)  # noqa: F841  # required for reading
         #
         # back to physical space
-        data.elem[0].scal[ivar, :, :, :] = np.fft.irfft2(fou, (lr1[0], lr1[2]), (2, 0))
+        data.elem[0].scal[ivar, :, :, :] = np.fft.irfft2(fou, (lr1[2], lr1[0]), (0, 2))
     #
     # ---------------------------------------------------------------------------
     # CLOSE FILE
-- 
2.43.0


From 0438bf06103c030e96badc1c7d4615f4578a13d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 29/53] fix: do not lose the first negative z wavenumber in
 readdns

---
 src/pymech/simsonsuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index f280828..ce6494b 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -191,7 +191,7 @@ def readdns(fname):
     # read velocity and transform in physical space
     for idim in range(3):
         for iz in range(lr1[2]):
-            if iz <= lr1[2] / 2:
+            if iz < lr1[2] / 2:
                 izf = iz
             else:
                 izf = lr1[2] // 2 * 3 - (iz + 1)
@@ -211,7 +211,7 @@ def readdns(fname):
     # read scalars and transform in physical space
     for ivar in range(var[4]):
         for iz in range(lr1[2]):
-            if iz <= lr1[2] / 2:
+            if iz < lr1[2] / 2:
                 izf = iz
             else:
                 izf = lr1[2] // 2 * 3 - (iz + 1)
-- 
2.43.0


From 3c2eb02fa065065f8a474a901904045787672f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 30/53] fix: read one- and three-dimensional plane files

---
 src/pymech/simsonsuite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index ce6494b..f2ce0fe 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -313,9 +313,9 @@ def readplane(fname):
         # TODO untested
         print("WARNING: reading 1D files was not tested")
         eol = infile.read(4)
-        nt1 = struct.unpack(emode + "i", eol)[0] / 8
+        nt1 = struct.unpack(emode + "i", eol)[0] // 8
         dum = infile.read(nt1 * wdsz)
-        x = struct.unpack(emode + nt1 * realtype, dum)
+        x = np.array(struct.unpack(emode + nt1 * realtype, dum))
         #
         # end-of-line
         eol = infile.read(4)
@@ -333,7 +333,7 @@ def readplane(fname):
         print("WARNING: reading 3D files was not tested")
         for i in range(ndim):
             eol = infile.read(4)
-            nt3 = struct.unpack(emode + "i", eol)[0] / 8
+            nt3 = struct.unpack(emode + "i", eol)[0] // 8
             dum = infile.read(nt3 * wdsz)
             xx = struct.unpack(emode + nt3 * realtype, dum)
             x[i, :, :, :] = np.reshape(xx, (nn[0], nn[1], nn[2]), "F")
-- 
2.43.0


From 7df5e477bb59eaca1f4c2e9e1a907376bf52f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 31/53] fix: allocate one VTK point per grid point

---
 src/pymech/vtksuite.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 0b08221..8a5d01e 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -107,15 +107,15 @@ def hexa2vtk(field, downsample=False):
     ce[np.arange(nel) * (nvert + 1)] = nvert
 
     if field.var[0] != 0:
-        r = np.zeros((nvert * nel, 3))
+        r = np.zeros((nppel * field.nel, 3))
     if field.var[1] != 0:
-        v = np.zeros((nvert * nel, 3))
+        v = np.zeros((nppel * field.nel, 3))
     if field.var[2] == 1:
-        p = np.zeros(nvert * nel)
+        p = np.zeros(nppel * field.nel)
     if field.var[3] == 1:
-        T = np.zeros(nvert * nel)
+        T = np.zeros(nppel * field.nel)
     if field.var[4] != 0:
-        S = np.zeros((nvert * nel, field.var[4]))
+        S = np.zeros((nppel * field.nel, field.var[4]))
     #
     ice = -(nvert + 1)
 
-- 
2.43.0


From 52409eb00e297c8dbd6763e181514025b5924897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 32/53] fix: cell offsets of the VTK conversion

---
 src/pymech/vtksuite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 8a5d01e..d34c1d9 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -101,7 +101,7 @@ def hexa2vtk(field, downsample=False):
         cellType = tvtk.Quad().cell_type
     #
     ct = np.array(nel * [cellType])
-    of = np.arange(0, nvert * nel, nvert)
+    of = np.arange(0, (nvert + 1) * nel, nvert + 1)
 
     ce = np.zeros(nel * (nvert + 1))
     ce[np.arange(nel) * (nvert + 1)] = nvert
-- 
2.43.0


From cb9eb5ecd21ffb98d2211a96fa23c339a3cd8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 33/53] fix: convert two-dimensional fields to VTK

---
 src/pymech/vtksuite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index d34c1d9..6fc4182 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -126,9 +126,9 @@ def hexa2vtk(field, downsample=False):
             iarray = iel * nppel + ix + iy * nix + iz * (nix * niy)
 
             # Downsample copy into a column vector
-            if field.var[0] == 3:
+            if field.var[0] != 0:
                 r[iarray, :] = field.elem[iel].pos[:, ez, ey, ex]
-            if field.var[1] == 3:
+            if field.var[1] != 0:
                 v[iarray, :] = field.elem[iel].vel[:, ez, ey, ex]
             if field.var[2] == 1:
                 p[iarray] = field.elem[iel].pres[:, ez, ey, ex]
@@ -136,7 +136,7 @@ def hexa2vtk(field, downsample=False):
                 T[iarray] = field.elem[iel].temp[:, ez, ey, ex]
             if field.var[4] != 0:
                 S[iarray, :] = field.elem[iel].scal[:, ez, ey, ex]
-        if field.var[0] == 3:
+        if field.var[0] != 0:
             for iz, iy, ix in product(
                 range(max(niz - 1, 1)), range(niy - 1), range(nix - 1)
             ):
-- 
2.43.0


From 7445ea55936afb2d6502a46f0eb483230e7de90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 34/53] fix: name the scalars of a VTK dataset holding a
 temperature

---
 src/pymech/vtksuite.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 6fc4182..1b0538c 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -170,6 +170,7 @@ def hexa2vtk(field, downsample=False):
         dataset.point_data.add_array(T)
         dataset.point_data.get_array(idata).name = "temp"
         idata += 1
+        idata += 1
     if field.var[4] != 0:
         for ii in range(field.var[4]):
             dataset.point_data.add_array(S[:, ii])
-- 
2.43.0


From 22a13f8ff6d71eda1016026515845326c6a69d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 35/53] fix: recognise field files by the whole extension

---
 src/pymech/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 70cc958..c68e634 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -20,8 +20,9 @@ nek_ext_pattern = re.compile(
    \.          # character "."
    f           # character "f"
    (\d{5}|ld)  # 5 digits or the characters "ld"
+   \Z          # nothing else
 """,
-    re.VERBOSE,
+    re.VERBOSE | re.DOTALL,
 )
 
 
-- 
2.43.0


From d48e9c51ac5573c0df6435901ee7099dbf5b5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 36/53] fix: do not mislabel elements with reversed or
 exchanged axes

---
 src/pymech/dataset.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index c68e634..166cae1 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -139,9 +139,17 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
         """
         u, indices = np.unique(np.round(mesh, 8), return_index=True)
         mesh_1d = np.reshape(mesh, np.size(mesh))
-        dim = mesh_1d[indices]
+        dim = mesh_1d[np.sort(indices)]
         return dim
 
+    def check_dims(self, *dims):
+        """Check that the coordinates are the tensor product of x, y and z"""
+        for mesh, dim, shape in zip(
+            self.elem.pos, dims, ((1, 1, -1), (1, -1, 1), (-1, 1, 1))
+        ):
+            if not np.allclose(mesh, dim.reshape(shape), rtol=0, atol=2e-8):
+                raise ValueError("The element is not aligned with the coordinate axes")
+
     def get_dimensions(self):
         return self.axes
 
@@ -184,4 +192,5 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
                 }
             )
 
+        self.check_dims(data_vars[ax[2]], data_vars[ax[1]], data_vars[ax[0]])
         return Frozen(data_vars)
-- 
2.43.0


From 67033f342ba2480cd3c48a412140bd7b4a696d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 37/53] fix: faces without a condition must not be read back as
 connected

---
 src/pymech/neksuite/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index a6be6e4..5ab9fa5 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -522,7 +522,7 @@ def writerea(fname, data):
                 # this is the behaviour of re2torea.
                 bc = data.elem[iel].bcs[ibc, iface]
                 if bc[0] == "":
-                    bc = ("E", iel + 1, iface + 1, *list(bc)[3:])
+                    bc = ("E", iel + 1, iface + 1, 0.0, 0.0, 0.0, 0.0, 0.0)
                 if data.nel < 1e3:
                     outfile.write(
                         " {:3s}{:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-- 
2.43.0


From 8191622a9b591ae352d0a118d3b1b22ee0183edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 38/53] fix: read rea files with thermal but no fluid boundary
 conditions

---
 src/pymech/neksuite/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 5ab9fa5..4c1bcf6 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -142,7 +142,9 @@ def readrea(fname):
     #
     infile.readline()  # ***** BOUNDARY CONDITIONS *****
     for ibc in range(nbc):
-        infile.readline()  # ***** FLUID   BOUNDARY CONDITIONS ***** [or similar]
+        # ***** FLUID   BOUNDARY CONDITIONS ***** [or similar], after the fields without any
+        while "NO" in infile.readline().split():
+            pass
         for iel in range(nel):
             for iface in range(nface):
                 line = infile.readline()
-- 
2.43.0


From ba755437d85b1a0a717ddbac490ae4be9c513b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 39/53] fix: solve the spacing equation exactly in
 exponential_refinement_parameter

---
 src/pymech/meshtools.py | 65 ++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 47 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index b870d00..718664b 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1274,60 +1274,31 @@ def exponential_refinement_parameter(l0, ltot, n, tol=1e-14):
         the mesh refinement parameter
     """
 
-    # interval around 1 where to approximate the functions (see below)
-    eps_approx_f = 2.0e-6
-    eps_approx_fp = 2.0e-6
     # maximum number of iterations; really this should converge in less than 100.
     maxiter = 10000
 
-    # the total length is ltot = (1 - alpha^n)/(1 - alpha) * l0,
-    # so we want to find alpha such that (1 - alpha^n)/(1 - alpha) = ltot/l0.
-    # It's better posed numerically if we solve instead for log((1 - alpha^n)/(1 - alpha)) = log(ltot/l0),
-    def err(x):
-        # We can further approximate the function around x=1 to get rid of the 0/0 appearing in the expression.
-        # In practice it seems to be worth using the linearised form for |alpha-1| < 2e-6 or so for n=1000 and l/l0=10000
-        if abs(x - 1) < eps_approx_f:
-            # this would be first order accurate
-            # return log(n * l0 / ltot) + 0.5 * (n - 1) * (x - 1)
-            # this is third order
-            return log(n * l0 / ltot) + log(
-                1
-                + (n - 1) / 2 * (x - 1)
-                + (n - 1) * (n - 2) / 6 * (x - 1) ** 2
-                + (n - 1) * (n - 2) * (n - 3) / 24 * (x - 1) ** 3
-            )
-        else:
-            return log((x**n - 1) / (x - 1) * l0 / ltot)
-
-    def err_prime(x):
-        # We can further approximate the derivative of the error function around x=1
-        # to get rid of the 0^2/0^2 appearing in the expression.
-        # In practice it seems to be worth using the linearised form for |alpha-1| < 2e-6 or so for n=1000 and l/l0=10000
-        if abs(x - 1) < eps_approx_fp:
-            return 0.5 * (n - 1) + (n - 1) * (n - 5) / 12 * (x - 1)
-        else:
-            # this would be first order accurate
-            # return n * x**(n - 1) / (x**n - 1) - 1 / (x - 1)
-            # this is second order
-            return (
-                (n - 1) / 2
-                + (n - 1) * (n - 2) / 3 * (x - 1)
-                + (n - 1) * (n - 2) * (n - 3) / 8 * (x - 1) ** 2
-            ) / (1 + (n - 1) / 2 * (x - 1) + (n - 1) * (n - 2) / 6 * (x - 1) ** 2)
-
-    # Solve this using the Newton method.
-    # initial guess: we can choose alpha = 1 now that the function is well behaved around that point.
-    alpha = 1
+    # the total length is ltot = (1 + alpha + ... + alpha^(n-1)) * l0,
+    # so we want to find alpha such that 1 + alpha + ... + alpha^(n-1) = ltot/l0.
+    # Seen as a function of t = log(alpha), the logarithm of that sum is smooth, increasing and convex,
+    # so that the Newton method converges from any initial guess and never leaves alpha > 0.
+    target = log(ltot / l0)
+    k = np.arange(1, n)
+
+    # initial guess: alpha = 1, a uniform spacing.
+    t = 0.0
     residual = 1
     iter = 0
     while residual > tol and iter < maxiter:
-        fx = err(alpha)
-        fpx = err_prime(alpha)
-        alpha1 = alpha - fx / fpx
-        residual = abs(alpha1 - alpha)
-        alpha = alpha1
-        logger.debug(f"{iter} {alpha}, res: {residual}")
+        powers = np.exp(k * t)
+        total = powers.sum()
+        ft = np.log1p(total) - target
+        fpt = (k * powers).sum() / (1 + total)
+        t1 = t - ft / fpt
+        residual = abs(t1 - t)
+        t = t1
+        logger.debug(f"{iter} {t}, res: {residual}")
         iter += 1
+    alpha = float(np.exp(t))
     return alpha
 
 
-- 
2.43.0


From 5262b2db8b4161d7f134690c81c2db5ca3f301d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 40/53] fix: default radial spacing of gen_circle for a single
 layer, large squares and any radius

---
 src/pymech/meshtools.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 718664b..571ec22 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1579,22 +1579,26 @@ def gen_circle(
             l1 = len_new / width * ((1 - eta) * width + eta * total_width)
             return l1 - len_ref
 
-        # iterate using the secant method
-        l0 = 1
-        l1 = 0
-        f0 = err_stretching(l0, square_spacing)
-        eps = 1e-12  # this value shouldn't matter very much
-        max_iters = 10000
-        iters = 0
-        while abs(f0) > eps and iters < max_iters:
-            f1 = err_stretching(l1, square_spacing)
-            # Update l0 and l1
-            l0, l1 = l1, l1 - (l1 - l0) / (f1 - f0) * f1
-            f0 = f1
-            iters += 1
-
-        # geometric spacing progression factor using that first element size
-        alpha = exponential_refinement_parameter(l1, width, no)
+        if no == 1 or err_stretching(width, square_spacing) <= 0:
+            # there is a single layer or the elements of the square are too large
+            # to fit one between the square and the circle: use a uniform spacing
+            l1 = width / no
+            alpha = 1
+        else:
+            # the length is between 0 and the width, use the bisection method
+            # (the curvature function is not meant to be evaluated outside of this range)
+            l0 = 0
+            l1 = width
+            lmid = 0.5 * (l0 + l1)
+            while l0 < lmid < l1:
+                if err_stretching(lmid, square_spacing) < 0:
+                    l0 = lmid
+                else:
+                    l1 = lmid
+                lmid = 0.5 * (l0 + l1)
+
+            # geometric spacing progression factor using that first element size
+            alpha = exponential_refinement_parameter(l1, width, no)
 
         def bl_fun(x):
             eps = 1e-12
-- 
2.43.0


From 791356fc10fb9501328c290426e449bf852dd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 41/53] fix: merge reconnects periodic faces field by field

---
 src/pymech/core.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 408d3a5..a464a01 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -448,13 +448,15 @@ class HexaData:
                         dist = np.sqrt((x1 - x0) ** 2 + (y1 - y0) ** 2 + (z1 - z0) ** 2)
                         dist_ref = min(elem0.smallest_edge(), elem1.smallest_edge())
                         if dist <= tol * dist_ref:
-                            # reconnect the periodic faces together (assumes that all fields are periodic)
-                            if bc0 == bc1 == "P":
-                                iel_p0 = int(elem0.bcs[0, iface0][3]) - 1
-                                iel_p1 = int(elem1.bcs[0, iface1][3]) - 1
-                                iface_p0 = int(elem0.bcs[0, iface0][4]) - 1
-                                iface_p1 = int(elem1.bcs[0, iface1][4]) - 1
-                                for ibc in range(nbc):
+                            # reconnect the periodic faces together, in the fields that are periodic
+                            for ibc in range(nbc):
+                                bcs0 = elem0.bcs[ibc, iface0]
+                                bcs1 = elem1.bcs[ibc, iface1]
+                                if bcs0[0] == bcs1[0] == "P":
+                                    iel_p0 = int(bcs0[3]) - 1
+                                    iel_p1 = int(bcs1[3]) - 1
+                                    iface_p0 = int(bcs0[4]) - 1
+                                    iface_p1 = int(bcs1[4]) - 1
                                     elem_p0_bcs = self.elem[iel_p0].bcs[ibc, iface_p0]
                                     elem_p1_bcs = self.elem[iel_p1].bcs[ibc, iface_p1]
 
-- 
2.43.0


From fd2f7ae915b84ff96a0e87b9cff90430d03c7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 42/53] fix: leave no placeholder condition in discs without
 internal conditions

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 571ec22..e6bccb4 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1681,8 +1681,8 @@ def gen_circle(
     # connectivity
     if internal_bcs:
         build_connectivity(box_square, ns, ns)
-    # boundary conditions: dummy BCs to signal that the faces should be glued
-    connectivity_bc = ["con"] * nbc
+    # boundary conditions: dummy BCs to signal that the faces should be glued, if they should be
+    connectivity_bc = ["con" if internal_bcs else ""] * nbc
     apply_bcs(
         box_square,
         ns,
-- 
2.43.0


From ff201b7ba91ab5aec06b498bb1b88ec729d831ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 43/53] fix: interior faces of refined extrusions keep no
 external condition

---
 src/pymech/meshtools.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index e6bccb4..c8732e2 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -830,6 +830,15 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][3] = iel + 1 + 4
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][4] = iedgelo + 1
 
+                else:
+                    # the faces created inside of the split element must not keep the external
+                    # conditions of the side of the original element that they are a copy of
+                    edges_mid = (iedgehi, iedgelo, iedgehi, iedgehi, iedgelo, iedgehi)
+                    for iell, iface in enumerate(edges_mid):
+                        mesh3d.elem[iel + iell].bcs[ibc, iface][0] = ""
+                        for j in range(1, 8):
+                            mesh3d.elem[iel + iell].bcs[ibc, iface][j] = 0
+
                 # update the conditions for side faces.
                 for iface in iedgelat:
                     bc = mesh.elem[i].bcs[ibc, iface][0]
-- 
2.43.0


From cf072c11c5c8228c828b429efdcae89fe68faf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 44/53] fix: splitting lines through vertices when the finest
 part is not the innermost

---
 src/pymech/meshtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index c8732e2..736b200 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -330,7 +330,8 @@ def extrude_refine(
         if k < imesh_high:
 
             def fun_local(xpos, ypos, rlim):
-                return -fun[k](xpos, ypos, rlim)
+                # points on the line itself belong to the internal mesh, as above
+                return 1.0 if fun[k](xpos, ypos, rlim) <= 0.0 else -1.0
 
             n_mid = 2 * n_local
             z_mid = z[:: int(2 ** abs(k - imesh_high + 1))]
-- 
2.43.0


From 31fe729a7d4cd6b8a0c78c1d26bdff5684a1fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 45/53] fix: links between split elements across the unsplit
 sides

---
 src/pymech/meshtools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 736b200..76466ff 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -840,11 +840,17 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                         for j in range(1, 8):
                             mesh3d.elem[iel + iell].bcs[ibc, iface][j] = 0
 
-                # update the conditions for side faces.
-                for iface in iedgelat:
+                # update the conditions for side faces. The lateral ones exist in all six elements,
+                # the low and high ones only in some of them.
+                for iface, iells in (
+                    (iedgelat[0], range(6)),
+                    (iedgelat[1], range(6)),
+                    (iedgelo, (0, 2, 3, 5)),
+                    (iedgehi, (1, 4)),
+                ):
                     bc = mesh.elem[i].bcs[ibc, iface][0]
                     if bc == "P" or bc == "E":
-                        for iell in range(6):
+                        for iell in iells:
                             connected_i = mesh.elem[i].bcs[ibc, iface][3] - 1
                             connected_iel = 6 * (connected_i + nel2d * (k // 4)) + iell
                             mesh3d.elem[iel + iell].bcs[ibc, iface][3] = (
-- 
2.43.0


From 17cbb53c1a7519a2d19f6fcc45958adcf6bafdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 46/53] fix: generate_internal_bcs on meshes without boundary
 condition fields

---
 src/pymech/meshtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 76466ff..d80d7c6 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1155,7 +1155,7 @@ def generate_internal_bcs(mesh, tol=1e-3):
         el = mesh.elem[iel]
         for iface in range(nface):
             fc[iel, iface, :] = el.face_center(iface)
-            if el.bcs[0, iface][0] != "":
+            if mesh.nbc > 0 and el.bcs[0, iface][0] != "":
                 lc[iel, iface] = True  # mark connected faces as True
 
     # Now that we have the scales, we can compare the location of the faces for each pair of elements and connect them if they are close
-- 
2.43.0


From 8f470f7ebae5571f4751e2bcfba149d76b4f9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 47/53] fix: undo the wrong numbering of the VTK scalars
 introduced in 7445ea5

---
 src/pymech/vtksuite.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 1b0538c..6fc4182 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -170,7 +170,6 @@ def hexa2vtk(field, downsample=False):
         dataset.point_data.add_array(T)
         dataset.point_data.get_array(idata).name = "temp"
         idata += 1
-        idata += 1
     if field.var[4] != 0:
         for ii in range(field.var[4]):
             dataset.point_data.add_array(S[:, ii])
-- 
2.43.0


From b4fd937ce70ee300aa70d9a84211ae6cff7744c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 48/53] fix: convert pressure and temperature to VTK with
 recent numpy

---
 src/pymech/vtksuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 6fc4182..496060c 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -131,9 +131,9 @@ def hexa2vtk(field, downsample=False):
             if field.var[1] != 0:
                 v[iarray, :] = field.elem[iel].vel[:, ez, ey, ex]
             if field.var[2] == 1:
-                p[iarray] = field.elem[iel].pres[:, ez, ey, ex]
+                p[iarray] = field.elem[iel].pres[0, ez, ey, ex]
             if field.var[3] == 1:
-                T[iarray] = field.elem[iel].temp[:, ez, ey, ex]
+                T[iarray] = field.elem[iel].temp[0, ez, ey, ex]
             if field.var[4] != 0:
                 S[iarray, :] = field.elem[iel].scal[:, ez, ey, ex]
         if field.var[0] != 0:
-- 
2.43.0


From 67717bff6c83de492d2946c56ccb3c739c1517b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 49/53] fix: close datasets opened through xarray

---
 src/pymech/dataset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 166cae1..ab4c07c 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -100,6 +100,10 @@ def _open_nek_dataset(path, drop_variables=None):
     return ds
 
 
+def _close():
+    """Close a dataset: the file has been closed after reading."""
+
+
 class PymechXarrayBackend(xr.backends.BackendEntrypoint):
     def guess_can_open(self, filename_or_obj):
         return can_open_nek_dataset(filename_or_obj)
@@ -112,7 +116,10 @@ class PymechXarrayBackend(xr.backends.BackendEntrypoint):
         # other backend specific keyword arguments
         # `chunks` and `cache` DO NOT go here, they are handled by xarray
     ):
-        return _open_nek_dataset(filename_or_obj, drop_variables)
+        ds = _open_nek_dataset(filename_or_obj, drop_variables)
+        # nothing is left open, but open_mfdataset needs something to call on close
+        ds.set_close(_close)
+        return ds
 
     open_dataset_parameters = ("filename_or_obj", "drop_variables")
 
-- 
2.43.0


From da12d13d60b4f3825f75a44a82705d7499a3ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 50/53] fix: refuse incomplete boxes instead of filling
 datasets with NaN

---
 src/pymech/dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index ab4c07c..9ef350b 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -1,3 +1,4 @@
+import math
 import re
 from functools import partial
 from pathlib import Path
@@ -81,6 +82,11 @@ def _open_nek_dataset(path, drop_variables=None):
         elem_dsets = [
             xr.Dataset.load_store(store).set_coords(store.axes) for store in elem_stores
         ]
+        # See: https://github.com/MITgcm/xmitgcm/pull/200
+        # without join="exact", an incomplete box would be filled with NaN
+        ds = xr.combine_by_coords(elem_dsets, combine_attrs="drop", join="exact")
+        if math.prod(ds.sizes.values()) != field.nel * math.prod(field.lr1):
+            raise ValueError("elements at the same place")
     except ValueError as err:
         raise NotImplementedError(
             "Opening dataset failed because you probably tried to open a field file "
@@ -90,8 +96,6 @@ def _open_nek_dataset(path, drop_variables=None):
             "https://github.com/eX-Mech/pymech/issues/31"
         ) from err
 
-    # See: https://github.com/MITgcm/xmitgcm/pull/200
-    ds = xr.combine_by_coords(elem_dsets, combine_attrs="drop")
     ds.coords.update({"time": field.time})
 
     if drop_variables:
-- 
2.43.0


From 457837a7c35e4d2783371738e9467a81fed21fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 51/53] fix: compare the orders in every direction before
 merging

---
 src/pymech/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index a464a01..a7c4d9a 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -402,10 +402,10 @@ class HexaData:
             raise ValueError(
                 f"Cannot merge meshes of dimensions {self.ndim} and {other.ndim}!"
             )
-        if self.lr1[0] != other.lr1[0]:
+        if list(self.lr1) != list(other.lr1):
             raise ValueError(
                 "Cannot merge meshes of different polynomial orders ({} != {})".format(
-                    self.lr1[0], other.lr1[0]
+                    self.lr1, other.lr1
                 )
             )
 
-- 
2.43.0


From fa5f4489cff21d06bbe02bb8884c70d672b6c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 52/53] fix: refuse a rea file cut in the last number of the
 boundary conditions

---
 src/pymech/neksuite/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 4c1bcf6..7c3869e 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -148,6 +148,9 @@ def readrea(fname):
         for iel in range(nel):
             for iface in range(nface):
                 line = infile.readline()
+                if not line.endswith("\n"):
+                    # the last number could have lost some of its digits
+                    raise ValueError("The boundary conditions are truncated.")
                 if nel < 1e3:
                     data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:7])
-- 
2.43.0


From 72c2a8627bc0b321c8b4cca8408cc60eb4dd71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:40 +0000
Subject: [PATCH 53/53] fix: use logger.warning instead of the deprecated
 logger.warn

With deprecation warnings turned into errors, extrude_refine and edge_mid
failed on meshes which they support.
---
 src/pymech/meshtools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index d80d7c6..2f404cb 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -628,7 +628,7 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                     and (mesh.elem[i].ccurv[icurv] != "m")
                     and (mesh.elem[i].ccurv[icurv] != "C")
                 ):
-                    logger.warn(f"Curvature unknown on element {i + 1}")
+                    logger.warning(f"Curvature unknown on element {i + 1}")
 
             # extend curvature and correct it if necessary
             # calculate coordinates of midsize-node for every curvature type, except both empty (even if both are 'C'). Then find radius, if applicable. 'm' takes precendence over 'C'.
@@ -668,7 +668,7 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                         mesh3d.elem[iel].curv[iedgehi][:4] = curvmid
                         mesh3d.elem[iel + 1].curv[iedgelo][:4] = -curvmid
                 else:
-                    logger.warn(
+                    logger.warning(
                         f"Splitted element curvature unknown on element {i + 1} of mid mesh. Removing curvature."
                     )
                     # For cases not implemented, remove curvature
@@ -972,7 +972,7 @@ def edge_mid(el, iedge):
             # Curvature 'C' only needs x and y. Works for 2d and extruded meshes.
             if iedge > 7:
                 # For iedge=8-11: will give a different value to what Nek considers (Nek ignores it).
-                logger.warn(
+                logger.warning(
                     "Calculating midpoint differently from Nek5000. Nek ignores it for edges 9-12."
                 )
             radius = el.curv[iedge][0]
-- 
2.43.0

