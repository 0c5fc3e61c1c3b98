From cc82aae2848e02f1ec12ce17f24e28b89ba52dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 01/39] fix: compute the limits of a mesh made of a single
 element

---
 src/pymech/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 9b6150e..e17341e 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -44,7 +44,9 @@ class DataLims:
     def __init__(self, elements):
         self._variables = ("pos", "vel", "pres", "temp", "scal")
 
-        aggregated_lims = reduce(self._lims_aggregator, elements)
+        aggregated_lims = reduce(
+            self._lims_aggregator, map(self._lims_per_element, elements)
+        )
         for var in self._variables:
             agg_lims_var = aggregated_lims[var]
             # set minimum, maximum of variables as a nested tuple
-- 
2.43.0


From fd906fca284c4e384854c0d50b24d6120963bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 02/39] fix: measure the edges of an element, not its face
 diagonals, in smallest_edge

---
 src/pymech/core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index e17341e..958dffd 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -151,9 +151,9 @@ class Elem:
 
         # get coordinates of points
         x1, y1, z1 = self.pos[:, 0, 0, 0]
-        x2, y2, z2 = self.pos[:, 0, 0, 1]
-        x3, y3, z3 = self.pos[:, 0, 1, 0]
-        x4, y4, z4 = self.pos[:, 0, 1, 1]
+        x2, y2, z2 = self.pos[:, 0, 0, -1]
+        x3, y3, z3 = self.pos[:, 0, -1, -1]
+        x4, y4, z4 = self.pos[:, 0, -1, 0]
         # compute squares of edges lengths
         edges_l2 = np.zeros((12,))
         edges_l2[0] = (x2 - x1) ** 2 + (y2 - y1) ** 2 + (z2 - z1) ** 2
@@ -167,10 +167,10 @@ class Elem:
             ndim = 2
         if ndim > 2:
             # in 3D, do the same for the upper face, and also the side edges
-            x5, y5, z5 = self.pos[:, 1, 0, 0]
-            x6, y6, z6 = self.pos[:, 1, 0, 1]
-            x7, y7, z7 = self.pos[:, 1, 1, 0]
-            x8, y8, z8 = self.pos[:, 1, 1, 1]
+            x5, y5, z5 = self.pos[:, -1, 0, 0]
+            x6, y6, z6 = self.pos[:, -1, 0, -1]
+            x7, y7, z7 = self.pos[:, -1, -1, -1]
+            x8, y8, z8 = self.pos[:, -1, -1, 0]
             edges_l2[4] = (x6 - x5) ** 2 + (y6 - y5) ** 2 + (z6 - z5) ** 2
             edges_l2[5] = (x7 - x6) ** 2 + (y7 - y6) ** 2 + (z7 - z6) ** 2
             edges_l2[6] = (x8 - x7) ** 2 + (y8 - y7) ** 2 + (z8 - z7) ** 2
-- 
2.43.0


From 267a567ba31496b632652572d6e40f23a0b72ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 03/39] fix: report connections to nonexistent faces in
 check_connectivity

---
 src/pymech/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 958dffd..3827e6e 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -296,11 +296,16 @@ class HexaData:
                 connected_iel = int(el.bcs[ibc, iface][3]) - 1
                 connected_face = int(el.bcs[ibc, iface][4]) - 1
                 xc, yc, zc = el.face_center(iface)
-                if connected_iel < 0 or connected_iel >= self.nel:
+                if (
+                    connected_iel < 0
+                    or connected_iel >= self.nel
+                    or connected_face < 0
+                    or connected_face >= 2 * dim
+                ):
                     err = True
                     logger.error(
                         f"face {iface} of element {iel} is connected ('{cbc}') to face "
-                        f"{connected_face} of the nonexistent element {connected_iel}"
+                        f"{connected_face} of element {connected_iel}, which does not exist"
                     )
                     logger.error(f"face center: ({xc:.6e} {yc:.6e} {zc:.6e})")
                 else:
-- 
2.43.0


From ddf99c1ed87215b9468c877aff62d7098471e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 04/39] fix: rotate around the requested centre in rotate_2d

---
 src/pymech/meshtools.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 93ec911..93bf70f 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1337,17 +1337,17 @@ def rotate_2d(mesh, x0, y0, theta):
     cost = cos(theta)
     sint = sin(theta)
     for el in mesh.elem:
-        x = el.pos[0, ...].copy()
-        y = el.pos[1, ...].copy()
-        el.pos[0, ...] = cost * x - sint * y
-        el.pos[1, ...] = sint * x + cost * y
+        x = el.pos[0, ...] - x0
+        y = el.pos[1, ...] - y0
+        el.pos[0, ...] = x0 + cost * x - sint * y
+        el.pos[1, ...] = y0 + sint * x + cost * y
         # rotate 'm' curvature
         for edge in range(12):
             if el.ccurv[edge] == "m":
-                x = el.curv[edge, 0]
-                y = el.curv[edge, 1]
-                el.curv[edge, 0] = cost * x - sint * y
-                el.curv[edge, 1] = sint * x + cost * y
+                x = el.curv[edge, 0] - x0
+                y = el.curv[edge, 1] - y0
+                el.curv[edge, 0] = x0 + cost * x - sint * y
+                el.curv[edge, 1] = y0 + sint * x + cost * y
 
 
 # =================================================================================
-- 
2.43.0


From 8d232e5138d1a9ef66d373b476ca4b7e409a9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 05/39] fix: do not overwrite the curvature of the input
 element in edge_mid and edge_circle

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 93bf70f..b59071c 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -895,7 +895,7 @@ def edge_mid(el, iedge):
     """
 
     # correct if ccurv=='m', otherwise, works as allocation
-    midpoint = el.curv[iedge][:3]
+    midpoint = el.curv[iedge][:3].copy()
 
     if el.ccurv[iedge] != "m":
         if iedge == 0:
@@ -1054,7 +1054,7 @@ def edge_circle(el, iedge, midpoint):
         radius = 0.0
         center = [0.0, 0.0, 0.0]
 
-    curv = el.curv[iedge][:4]
+    curv = el.curv[iedge][:4].copy()
     curv[0] = radius
     curv[1:4] = center
 
-- 
2.43.0


From 83f99e4a6441aca3dac3044409f229ebd857329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 06/39] fix: keep the element map in step with the elements in
 extrude and keep_elements

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index b59071c..d3ab8a0 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -61,6 +61,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     nel3d = mesh.nel * nz
     nbc = mesh.nbc
     mesh3d.nel = nel3d
+    mesh3d.elmap = np.linspace(1, nel3d, nel3d, dtype=np.int32)
     mesh3d.ndim = 3
     # The curved sides will also be extruded, one on each side of each element along nz
     mesh3d.ncurv = 2 * nz * mesh.ncurv
@@ -1231,6 +1232,7 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
         new_elems.append(mesh.elem[iel])
     mesh.elem = new_elems
     mesh.nel = len(mesh.elem)
+    mesh.elmap = np.linspace(1, mesh.nel, mesh.nel, dtype=np.int32)
     mesh.update_ncurv()
 
 
-- 
2.43.0


From 97ffbb2917be9abe4e0579f9a794485b4eeea275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 07/39] fix: remove internal conditions from every layer in
 extrude(internal_bcs=False)

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index d3ab8a0..fe3bbef 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -69,6 +69,8 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     # add extra copies of all elements
     for k in range(nz - 1):
         mesh_add = copy.deepcopy(mesh)
+        if not internal_bcs:
+            delete_internal_bcs(mesh_add)
         # fix the indexing of periodic and internal conditions
         mesh_add.offset_connectivity((k + 1) * nel2d)
         mesh3d.elem = mesh3d.elem + mesh_add.elem
-- 
2.43.0


From f35324c397c7bd76108ec419c7258d162806e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 08/39] fix: honour the documented defaults of fun and funpar
 in extrude_refine

---
 src/pymech/meshtools.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index fe3bbef..9b3782e 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -229,9 +229,17 @@ def extrude_refine(
                 "Inconsistent boundary conditions: one end is 'P' but the other isn't"
             )
 
+    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
+    if fun is None:
+        logger.info("Splitting function not defined. Calling simple extrusion routine.")
+        mesh3D = extrude(mesh2D, z, bc1, bc2, internal_bcs=internal_bcs)
+        return mesh3D
+
     # Consistency checks: Functions that define the splitting lines
     nsplit = len(fun)
-    if funpar is not None and len(funpar) != nsplit:
+    if funpar is None:
+        funpar = [0.0] * nsplit
+    if len(funpar) != nsplit:
         raise ValueError(
             f"The length of funpar ({len(funpar)}) must match the length of par ({nsplit})!"
         )
@@ -247,12 +255,6 @@ def extrude_refine(
             f"Inconsistent elements to extrude: the number of elements ({nz}) must be a multiple of {max([2**abs(imesh_high + 1), 2**abs(nsplit - imesh_high + 1)])}"
         )
 
-    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
-    if fun is None:
-        logger.info("Splitting function not defined. Calling simple extrusion routine.")
-        mesh3D = extrude(mesh2D, z, bc1, bc2)
-        return mesh3D
-
     mesh2D_ext = copy.deepcopy(mesh2D)
     # get rid of internal boundary conditions if they are not requested
     if not internal_bcs:
-- 
2.43.0


From 8ddb4db1ab0afb3ab260e3dddee30207e8a9e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 09/39] fix: do not share the default variable list between
 generated meshes

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 9b3782e..1293b86 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1416,7 +1416,7 @@ def gen_box(
     if bcs_ymax is None:
         bcs_ymax = ["P"] * nbc
 
-    box = HexaData(ndim, nel, lr1, var, nbc=nbc)
+    box = HexaData(ndim, nel, lr1, list(var), nbc=nbc)
     # box dimensions
     lx = xmax - xmin
     if lx <= 0:
@@ -1679,7 +1679,7 @@ def gen_circle(
 
     # Box 1: square
     nel_square = ns * ns
-    box_square = HexaData(ndim, nel_square, lr1, var, nbc=nbc)
+    box_square = HexaData(ndim, nel_square, lr1, list(var), nbc=nbc)
     # the characteristic distance is the diagonal
     c = s * r * sqrt(2)
     for i, j in product(range(ns), range(ns)):
-- 
2.43.0


From 61ac97104a102f6a05981b5f62ba65c42c72bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 10/39] fix: update the number of curved sides in gen_circle
 and map2D

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 1293b86..eeff4b2 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1797,6 +1797,7 @@ def gen_circle(
     # bottom box
     rotate_2d(box_o, 0, 0, 0.5 * pi)
     box_square.merge(box_o, ignore_all_bcs=not internal_bcs)
+    box_square.update_ncurv()
 
     return box_square
 
@@ -1859,4 +1860,5 @@ def map2D(
                 xm, ym, _ = edge_mid(el, iedge)
                 mapped_xm, mapped_ym = transformation(xm, ym)
                 mapped_el.curv[iedge, 0:2] = mapped_xm, mapped_ym
+    mapped_mesh.update_ncurv()
     return mapped_mesh
-- 
2.43.0


From 78c273fa007c836104b647f97c792a265ffd7c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 11/39] fix: read the curve and boundary condition counts of
 big-endian re2 files

---
 src/pymech/neksuite/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 03be657..b925948 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -681,7 +681,7 @@ def readre2(fname):
     # where p1-5 are f64 parameters and ctype is the type of curvature in ASCII
     ncparam = 8
     buf = infile.read(wdsz)
-    ncurv = int(np.frombuffer(buf)[0])
+    ncurv = int(np.frombuffer(buf, dtype=emode + realtype)[0])
     logger.debug(f"Found {ncurv} curved sides")
     data.ncurv = ncurv
     buf = infile.read(wdsz * (ncparam * ncurv))
@@ -716,7 +716,7 @@ def readre2(fname):
             for el in data.elem:
                 empty_bcs = np.zeros(el.bcs[:1, :].shape, dtype=el.bcs.dtype)
                 el.bcs = np.concatenate((el.bcs, empty_bcs))
-        nbclines = int(np.frombuffer(buf)[0])
+        nbclines = int(np.frombuffer(buf, dtype=emode + realtype)[0])
         logger.debug(
             f"Found {nbclines} external boundary conditions for field {ifield}"
         )
-- 
2.43.0


From aa75b28050f57bbe50719303028e8d07e546c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 12/39] fix: do not modify the boundary conditions of the mesh
 written by writerea

---
 src/pymech/neksuite/mesh.py | 55 +++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index b925948..3cd7a42 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -512,46 +512,47 @@ def writerea(fname, data):
             for iface in range(2 * data.ndim):
                 # if no boundary condition is specified, write 'E' iel iface [...]
                 # this is the behaviour of re2torea.
-                if data.elem[iel].bcs[ibc, iface][0] == "":
-                    data.elem[iel].bcs[ibc, iface][0] = "E"
-                    data.elem[iel].bcs[ibc, iface][1] = iel + 1
-                    data.elem[iel].bcs[ibc, iface][2] = iface + 1
+                bc = data.elem[iel].bcs[ibc, iface].copy()
+                if bc[0] == "":
+                    bc[0] = "E"
+                    bc[1] = iel + 1
+                    bc[2] = iface + 1
                 if data.nel < 1e3:
                     outfile.write(
                         " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 elif data.nel < 1e6:
                     outfile.write(
                         " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 else:
                     outfile.write(
                         " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
 
-- 
2.43.0


From 879a7405d29d62cbae6baffdab2815bec23f1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 13/39] fix: support three-letter boundary conditions in rea
 files

---
 src/pymech/neksuite/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 3cd7a42..c7ae379 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -147,7 +147,7 @@ def readrea(fname):
             for iface in range(nface):
                 line = infile.readline()
                 if nel < 1e3:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:7])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[7:10])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -156,7 +156,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 elif nel < 1e6:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = iel + 1
                     data.elem[iel].bcs[ibc, iface][2] = iface + 1
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -165,7 +165,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 else:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:15])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[15:16])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[16:34])
@@ -519,7 +519,7 @@ def writerea(fname, data):
                     bc[2] = iface + 1
                 if data.nel < 1e3:
                     outfile.write(
-                        " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             bc[0],
                             bc[1],
                             bc[2],
@@ -532,7 +532,7 @@ def writerea(fname, data):
                     )
                 elif data.nel < 1e6:
                     outfile.write(
-                        " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             bc[0],
                             bc[1],
                             bc[3],
@@ -544,7 +544,7 @@ def writerea(fname, data):
                     )
                 else:
                     outfile.write(
-                        " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
+                        " {:3s}{:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
                             bc[0],
                             bc[1],
                             bc[2],
-- 
2.43.0


From 78e79b24eca84739208de8235827faa0e26929f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 14/39] fix: write readable rea files for meshes without
 boundary conditions

---
 src/pymech/neksuite/mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index c7ae379..e4b8545 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -498,7 +498,10 @@ def writerea(fname, data):
     #
     # boundary conditions data
     outfile.write("  ***** BOUNDARY CONDITIONS *****\n")
-    outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    if data.nbc > 0:
+        outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    else:
+        outfile.write("  ***** NO FLUID BOUNDARY CONDITIONS *****\n")
     for ibc in range(data.nbc):
         if ibc == 1:
             outfile.write("  ***** THERMAL BOUNDARY CONDITIONS *****\n")
-- 
2.43.0


From ff6e47cf43ed97a467ac1453e9297e2261a4e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 15/39] fix: write the number of curved sides actually present
 in rea files

---
 src/pymech/neksuite/mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index e4b8545..11db357 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -443,8 +443,13 @@ def writerea(fname, data):
     #
     # curved side data
     outfile.write("  ***** CURVED SIDE DATA *****\n")
+    ncurv = sum(ctype != "" for el in data.elem for ctype in el.ccurv)
+    if ncurv != data.ncurv:
+        logger.warning(
+            f"wrong number of curved edges: expected {data.ncurv}, found {ncurv}"
+        )
     outfile.write(
-        f"  {data.ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
+        f"  {ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
     )
     for iel in range(data.nel):
         if data.nel < 1e3:
-- 
2.43.0


From da00f77ccaeff76370f485575d21a7c2e66307c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 16/39] fix: write double-precision field files from
 single-precision data

---
 src/pymech/neksuite/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index d61a11d..8625f9d 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -454,7 +454,7 @@ def writenek(fname, data):
         if data.wdsz == 4:
             correct_endianness(a.astype(np.float32)).tofile(outfile)
         else:
-            correct_endianness(a).tofile(outfile)
+            correct_endianness(a.astype(np.float64)).tofile(outfile)
 
     #
     # write geometry
-- 
2.43.0


From 60b15444a677e208542ec743cbb5ef42449e1fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 17/39] fix: skip only the elements present in the file when
 skipping variables

---
 src/pymech/neksuite/field.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 8625f9d..9441f35 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -253,7 +253,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(geometry_vars[idim] in skip_vars for idim in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 logger.warning(
@@ -286,7 +286,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
 
     if nb_vars:
         if all(skip_condition1) or all(skip_condition2):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -307,7 +307,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"p", "pressure"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -325,7 +325,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"t", "temperature"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -345,14 +345,14 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(scalar_vars[ivar] in skip_vars for ivar in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             # NOTE: This is not a bug!
             # Unlike other variables, scalars are in the outer loop and elements
             # are in the inner loop
             for ivar in range(nb_vars):
                 if skip_condition[ivar]:
-                    skip_elements(h.nb_elems)
+                    skip_elements(h.nb_elems_file)
                 else:
                     if 0 in elmap:
                         element_idxs = range(h.nb_elems_file)
-- 
2.43.0


From ac7eebd8e1cb1c7c8b770814d690197cc803917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 18/39] fix: return integer arrays from readma2 as documented

---
 src/pymech/neksuite/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/map.py b/src/pymech/neksuite/map.py
index 4138575..5457009 100644
--- a/src/pymech/neksuite/map.py
+++ b/src/pymech/neksuite/map.py
@@ -81,9 +81,9 @@ def readma2(fname):
     buf = infile.read((nvert + 1) * wdsz * nel)
 
     # processor map (0-based)
-    procmap = np.empty((nel,))
+    procmap = np.empty((nel,), dtype=np.int32)
     # list of vertices for each element (in global address space)
-    cell = np.empty((nel, nvert))
+    cell = np.empty((nel, nvert), dtype=np.int32)
     for iel in range(nel):
         fi = np.frombuffer(
             buf,
-- 
2.43.0


From 172811bbbecce4eef449f20fcd79818b8f9d22c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 19/39] fix: read SIMSON velocity files with passive scalars

---
 src/pymech/simsonsuite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index ccf18d3..8218788 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -74,10 +74,10 @@ def readdns(fname):
     pr = np.zeros(nscal)
     m = np.zeros(nscal)
     for i in range(nscal):
-        pr[i] = infile.read(wdsz)
-        pr[i] = struct.unpack(emode + realtype, pr[i])[0]
-        m[i] = infile.read(wdsz)
-        m[i] = struct.unpack(emode + realtype, m[i])[0]
+        dum = infile.read(wdsz)
+        pr[i] = struct.unpack(emode + realtype, dum)[0]
+        dum = infile.read(wdsz)
+        m[i] = struct.unpack(emode + realtype, dum)[0]
     #
     # end-of-line
     eol = infile.read(8)
-- 
2.43.0


From 54f094e8bb36d5f4ba8fb95b7044e1629fb626a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 20/39] fix: read one- and three-dimensional SIMSON plane files

---
 src/pymech/simsonsuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index 8218788..044e785 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -315,7 +315,7 @@ def readplane(fname):
         # TODO untested
         print("WARNING: reading 1D files was not tested")
         eol = infile.read(4)
-        nt1 = struct.unpack(emode + "i", eol)[0] / 8
+        nt1 = struct.unpack(emode + "i", eol)[0] // 8
         dum = infile.read(nt1 * wdsz)
         x = struct.unpack(emode + nt1 * realtype, dum)
         #
@@ -335,7 +335,7 @@ def readplane(fname):
         print("WARNING: reading 3D files was not tested")
         for i in range(ndim):
             eol = infile.read(4)
-            nt3 = struct.unpack(emode + "i", eol)[0] / 8
+            nt3 = struct.unpack(emode + "i", eol)[0] // 8
             dum = infile.read(nt3 * wdsz)
             xx = struct.unpack(emode + nt3 * realtype, dum)
             x[i, :, :, :] = np.reshape(xx, (nn[0], nn[1], nn[2]), "F")
-- 
2.43.0


From a8e1214c21a7c718a426abae486769f98a3047c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 21/39] fix: convert pressure and temperature with hexa2vtk on
 recent numpy

---
 src/pymech/vtksuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 0b08221..c31c0b0 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -131,9 +131,9 @@ def hexa2vtk(field, downsample=False):
             if field.var[1] == 3:
                 v[iarray, :] = field.elem[iel].vel[:, ez, ey, ex]
             if field.var[2] == 1:
-                p[iarray] = field.elem[iel].pres[:, ez, ey, ex]
+                p[iarray] = field.elem[iel].pres[0, ez, ey, ex]
             if field.var[3] == 1:
-                T[iarray] = field.elem[iel].temp[:, ez, ey, ex]
+                T[iarray] = field.elem[iel].temp[0, ez, ey, ex]
             if field.var[4] != 0:
                 S[iarray, :] = field.elem[iel].scal[:, ez, ey, ex]
         if field.var[0] == 3:
-- 
2.43.0


From 7b53fbd26962bc98efa30f906e455d4a518c26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 22/39] fix: read curvature and condition types of big-endian
 re2 files

Indexing a single item of a big-endian array returns a native scalar, whose
bytes are reversed; take a slice, which keeps the bytes of the file.
---
 src/pymech/neksuite/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 11db357..97da956 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -708,7 +708,7 @@ def readre2(fname):
         # select only the first byte, because it turns out the later bytes may contain garbage.
         # typically, it's b'C\x00\x00\x00\x00\x00\x00\x00' or b'C\x00\x00\x00\x00\x00\xe0?'.
         # AFAIK the curvature types are always one character long anyway.
-        ctype = curv[7].tobytes()[:1].decode("utf-8")
+        ctype = curv[7:8].tobytes()[:1].decode("utf-8")
         # fill in the data structure
         data.elem[iel].curv[iedge, :] = cparams
         data.elem[iel].ccurv[iedge] = ctype
@@ -741,7 +741,7 @@ def readre2(fname):
             iel = int(bc[0]) - 1
             iface = int(bc[1]) - 1
             bcparams = bc[2:7]
-            bctype = bc[7].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
+            bctype = bc[7:8].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
             # fill in the data structure
             data.elem[iel].bcs[ifield, iface][0] = bctype
             data.elem[iel].bcs[ifield, iface][1] = iel + 1
-- 
2.43.0


From 732affd01e3d4bd6b955a37840aa4efa0708d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 23/39] fix: do not recognise file names which only contain a
 Nek extension

Names such as case0.f00001.bak, case0.f000012 or case0.f00001/grid.nc were
taken for Nek field files.
---
 src/pymech/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 70cc958..9765f7d 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -20,6 +20,7 @@ nek_ext_pattern = re.compile(
    \.          # character "."
    f           # character "f"
    (\d{5}|ld)  # 5 digits or the characters "ld"
+   $           # end of the file name
 """,
     re.VERBOSE,
 )
-- 
2.43.0


From 55c3a0b77159b5692965a758efa1e52f5704af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 24/39] fix: refuse datasets of elements whose axes are turned
 or reversed

The coordinates of such an element were sorted while its data were not, so
the values ended up at other points than those of the file.
---
 src/pymech/dataset.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 9765f7d..fbd99cc 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -132,12 +132,18 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
     def __init__(self, elem):
         self.elem = elem
 
-    def meshgrid_to_dim(self, mesh):
+    def meshgrid_to_dim(self, mesh, axis):
         """Reverse of np.meshgrid. This method extracts one-dimensional
         coordinates from a cubical array format for every direction
 
         """
-        u, indices = np.unique(np.round(mesh, 8), return_index=True)
+        rounded = np.round(mesh, 8)
+        u, indices = np.unique(rounded, return_index=True)
+        # the coordinate must increase along its own axis and be constant along the others
+        shape = [1] * mesh.ndim
+        shape[axis] = mesh.shape[axis]
+        if u.size != mesh.shape[axis] or np.any(rounded != u.reshape(shape)):
+            raise ValueError("The element is not aligned with the coordinate axes.")
         mesh_1d = np.reshape(mesh, np.size(mesh))
         dim = mesh_1d[indices]
         return dim
@@ -160,9 +166,9 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
         elem = self.elem
 
         data_vars = {
-            ax[2]: self.meshgrid_to_dim(elem.pos[0]),  # x
-            ax[1]: self.meshgrid_to_dim(elem.pos[1]),  # y
-            ax[0]: self.meshgrid_to_dim(elem.pos[2]),  # z
+            ax[2]: self.meshgrid_to_dim(elem.pos[0], 2),  # x
+            ax[1]: self.meshgrid_to_dim(elem.pos[1], 1),  # y
+            ax[0]: self.meshgrid_to_dim(elem.pos[2], 0),  # z
             "xmesh": xr.Variable(ax, elem.pos[0]),
             "ymesh": xr.Variable(ax, elem.pos[1]),
             "zmesh": xr.Variable(ax, elem.pos[2]),
-- 
2.43.0


From c78721b63d231aa3f64af1aa9d389dca27e40dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 25/39] fix: exponential_refinement_parameter did not converge
 for n=4 and short or n=1000 and long lengths

The derivative away from alpha = 1 was a Taylor expansion around 1; with it the iteration
cycles for some inputs and stops at maxiter with a wrong value.
---
 src/pymech/meshtools.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index eeff4b2..a79e5e2 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1297,14 +1297,7 @@ def exponential_refinement_parameter(l0, ltot, n, tol=1e-14):
         if abs(x - 1) < eps_approx_fp:
             return 0.5 * (n - 1) + (n - 1) * (n - 5) / 12 * (x - 1)
         else:
-            # this would be first order accurate
-            # return n * x**(n - 1) / (x**n - 1) - 1 / (x - 1)
-            # this is second order
-            return (
-                (n - 1) / 2
-                + (n - 1) * (n - 2) / 3 * (x - 1)
-                + (n - 1) * (n - 2) * (n - 3) / 8 * (x - 1) ** 2
-            ) / (1 + (n - 1) / 2 * (x - 1) + (n - 1) * (n - 2) / 6 * (x - 1) ** 2)
+            return n * x ** (n - 1) / (x**n - 1) - 1 / (x - 1)
 
     # Solve this using the Newton method.
     # initial guess: we can choose alpha = 1 now that the function is well behaved around that point.
-- 
2.43.0


From 97510fdedb3505520f159218c50a8decd115791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 26/39] fix: gen_circle(internal_bcs=False) left placeholder
 'con' conditions on interior faces

---
 src/pymech/meshtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index a79e5e2..3d40648 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1691,7 +1691,8 @@ def gen_circle(
     if internal_bcs:
         build_connectivity(box_square, ns, ns)
     # boundary conditions: dummy BCs to signal that the faces should be glued
-    connectivity_bc = ["con"] * nbc
+    # (they would stay in the mesh if the faces are not connected)
+    connectivity_bc = ["con" if internal_bcs else ""] * nbc
     apply_bcs(
         box_square,
         ns,
-- 
2.43.0


From 54e625ebc2ff040c63466148df2b6e0fe81f2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 27/39] fix: the side conditions of elements divided by
 extrude_refine named the wrong element

They kept the number of the 2D element, unlike those of extrude.
---
 src/pymech/meshtools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 3d40648..5738906 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -820,6 +820,12 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][3] = iel + 1 + 4
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][4] = iedgelo + 1
 
+                # the side faces belong to the new elements
+                for iell, iface in product(range(6), range(4)):
+                    if mesh3d.elem[iel + iell].bcs[ibc, iface][0] != "":
+                        mesh3d.elem[iel + iell].bcs[ibc, iface][1] = iel + iell + 1
+                        mesh3d.elem[iel + iell].bcs[ibc, iface][2] = iface + 1
+
                 # update the conditions for side faces.
                 for iface in iedgelat:
                     bc = mesh.elem[i].bcs[ibc, iface][0]
-- 
2.43.0


From a49d9daaf4849480f63d2f1fc91cae83b5345cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 28/39] fix: extrude_refine failed when a divided element has
 an edge of curvature type 's'

The conversion to type 'C' compared instead of assigning and indexed the type instead of the parameters.
---
 src/pymech/meshtools.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 5738906..9b47b22 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -439,6 +439,21 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
     if nz % 4 != 0:
         raise ValueError("Inconsistent elements to extrude: nz must be divided by 4")
 
+    # Curvature type 's' acts on faces, not edges. Does not make sense for extruded mesh. Changing to 'C'.
+    mesh = copy.deepcopy(mesh)
+    for i, el in enumerate(mesh.elem):
+        for icurv in range(4):
+            if el.ccurv[icurv] == "s":
+                logger.warning(
+                    f"Curvature s on element {i + 1}. Not consistent with extrusion, changing to C"
+                )
+                radius = edge_circle(el, icurv, edge_mid(el, icurv))[0]
+                el.ccurv[icurv] = "C" if radius != 0.0 else ""
+                el.curv[icurv] = 0.0
+                el.curv[icurv][0] = radius
+            elif el.ccurv[icurv] not in ("", "m", "C"):
+                logger.warning(f"Curvature unknown on element {i + 1}")
+
     # copy the structure and make it 3D
     mesh3d = copy.deepcopy(mesh)
 
@@ -603,22 +618,6 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
             mesh3d.elem[iel + 5].pos[2, 0, :, :] = z1[k + 3]
             mesh3d.elem[iel + 5].pos[2, 1, :, :] = z2[k + 3]
 
-            for icurv in range(4):
-                # Curvature type 's' acts on faces, not edges. Does not make sense for extruded mesh. Changing to 'C'.
-                if mesh.elem[i].ccurv[icurv] == "s":
-                    logger.warn(
-                        f"Curvature s on element {i + 1}. Not consistent with extrusion, changing to C"
-                    )
-                    mesh.elem[i].ccurv[icurv] == "C"
-                    mesh.elem[i].ccurv[icurv][0] = mesh.elem[i].ccurv[icurv][4]
-                    mesh.elem[i].ccurv[icurv][1:4] = 0.0
-                elif (
-                    (mesh.elem[i].ccurv[icurv] != "")
-                    and (mesh.elem[i].ccurv[icurv] != "m")
-                    and (mesh.elem[i].ccurv[icurv] != "C")
-                ):
-                    logger.warn(f"Curvature unknown on element {i + 1}")
-
             # extend curvature and correct it if necessary
             # calculate coordinates of midsize-node for every curvature type, except both empty (even if both are 'C'). Then find radius, if applicable. 'm' takes precendence over 'C'.
             # if mesh.elem[i].ccurv[iedgehi] != mesh.elem[i].ccurv[iedgelo]:
-- 
2.43.0


From 72d61728d193edd950776e585c49552add7617e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 29/39] fix: extrude_refine(internal_bcs=False) left 2D
 conditions on faces inside divided elements

An element divided next to the boundary kept the boundary condition on the copies of that face that
are now inside the domain.
---
 src/pymech/meshtools.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 9b47b22..bffd817 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -819,6 +819,15 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][3] = iel + 1 + 4
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][4] = iedgelo + 1
 
+                else:
+                    # the mid faces are now inside the domain; remove the conditions of the 2D faces they are copies of
+                    for iell, iface in zip(
+                        range(6), (iedgehi, iedgelo, iedgehi, iedgehi, iedgelo, iedgehi)
+                    ):
+                        mesh3d.elem[iel + iell].bcs[ibc, iface][0] = ""
+                        for ipar in range(1, 8):
+                            mesh3d.elem[iel + iell].bcs[ibc, iface][ipar] = 0
+
                 # the side faces belong to the new elements
                 for iell, iface in product(range(6), range(4)):
                     if mesh3d.elem[iel + iell].bcs[ibc, iface][0] != "":
-- 
2.43.0


From 347d13e3666a79d8e8f9c2ea3efa3071890745b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 30/39] fix: rotate_2d did not rotate the centre of spherical
 edges

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index bffd817..59f70ed 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1354,9 +1354,9 @@ def rotate_2d(mesh, x0, y0, theta):
         y = el.pos[1, ...] - y0
         el.pos[0, ...] = x0 + cost * x - sint * y
         el.pos[1, ...] = y0 + sint * x + cost * y
-        # rotate 'm' curvature
+        # rotate the midpoints of 'm' curvature and the centres of 's' curvature
         for edge in range(12):
-            if el.ccurv[edge] == "m":
+            if el.ccurv[edge] in ("m", "s"):
                 x = el.curv[edge, 0] - x0
                 y = el.curv[edge, 1] - y0
                 el.curv[edge, 0] = x0 + cost * x - sint * y
-- 
2.43.0


From 7830f0f4af7d3f61405722fcbe88c2c36ebd338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 31/39] fix: gen_circle's default spacing iterated to lengths
 outside of the mesh for some curvature functions

---
 src/pymech/meshtools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 59f70ed..0065305 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1606,11 +1606,11 @@ def gen_circle(
             l1 = len_new / width * ((1 - eta) * width + eta * total_width)
             return l1 - len_ref
 
-        # iterate using the secant method
-        l0 = 1
+        # iterate using the secant method, starting from both ends of the interval where the functions are defined
+        l0 = width
         l1 = 0
         f0 = err_stretching(l0, square_spacing)
-        eps = 1e-12  # this value shouldn't matter very much
+        eps = 1e-12 * width  # this value shouldn't matter very much
         max_iters = 10000
         iters = 0
         while abs(f0) > eps and iters < max_iters:
-- 
2.43.0


From a98c82f0cc200ca53ccdc56bc7cc22b003953839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:52 +0000
Subject: [PATCH 32/39] fix: hexa2vtk gave cell offsets that do not count the
 size entry before each cell

---
 src/pymech/vtksuite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index c31c0b0..11f92a7 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -101,7 +101,7 @@ def hexa2vtk(field, downsample=False):
         cellType = tvtk.Quad().cell_type
     #
     ct = np.array(nel * [cellType])
-    of = np.arange(0, nvert * nel, nvert)
+    of = np.arange(0, (nvert + 1) * nel, nvert + 1)
 
     ce = np.zeros(nel * (nvert + 1))
     ce[np.arange(nel) * (nvert + 1)] = nvert
-- 
2.43.0


From 60df5c0ee9b65495f939bdc569adc31c15f76d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 33/39] fix: extrude_refine connected divided elements that
 touch along an uncut side wrongly

---
 src/pymech/meshtools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 0065305..adaf089 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -835,10 +835,13 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                         mesh3d.elem[iel + iell].bcs[ibc, iface][2] = iface + 1
 
                 # update the conditions for side faces.
-                for iface in iedgelat:
+                for iface in range(4):
                     bc = mesh.elem[i].bcs[ibc, iface][0]
                     if bc == "P" or bc == "E":
                         for iell in range(6):
+                            # this is a mid face, inside the original element
+                            if iface == (iedgelo if iell in (1, 4) else iedgehi):
+                                continue
                             connected_i = mesh.elem[i].bcs[ibc, iface][3] - 1
                             connected_iel = 6 * (connected_i + nel2d * (k // 4)) + iell
                             mesh3d.elem[iel + iell].bcs[ibc, iface][3] = (
-- 
2.43.0


From e1a6644f0701c1f87172e183087896c930df6c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 34/39] fix: merge accepted meshes whose orders differ in y or
 z only

---
 src/pymech/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 3827e6e..f327385 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -407,10 +407,10 @@ class HexaData:
             raise ValueError(
                 f"Cannot merge meshes of dimensions {self.ndim} and {other.ndim}!"
             )
-        if self.lr1[0] != other.lr1[0]:
+        if list(self.lr1) != list(other.lr1):
             raise ValueError(
                 "Cannot merge meshes of different polynomial orders ({} != {})".format(
-                    self.lr1[0], other.lr1[0]
+                    list(self.lr1), list(other.lr1)
                 )
             )
 
-- 
2.43.0


From 5c484b0d041e0d02e9afe1e899fcac6d43b2bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 35/39] fix: gen_circle failed with a single layer of elements
 around the square

---
 src/pymech/meshtools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index adaf089..c2d2250 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1595,7 +1595,12 @@ def gen_circle(
             # return sqrt(1 - (1 - x)**2)  # this one also works
 
     # default curvature and BL functions
-    if bl_fun is None:
+    if bl_fun is None and no == 1:
+        # a single layer of elements fills the whole width, there is nothing to refine
+        def bl_fun(x):
+            return x
+
+    elif bl_fun is None:
         # element size in the square
         square_spacing = s * r * sqrt(2) / ns
         # total length between the side of the square to the edge of the largest square fitting in the circle
-- 
2.43.0


From cf268cc7a4c280cdd1ba5e1e8c2f2e8b6467c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:56 +0000
Subject: [PATCH 36/39] fix: map2D failed for a mesh without condition fields
 when curvature=False

---
 src/pymech/meshtools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index c2d2250..a1a8d0d 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1870,7 +1870,11 @@ def map2D(
             if (
                 curvature
                 or el.ccurv[iedge] != ""
-                or (boundary_curvature and el.bcs[0][iedge][0] not in ["", "E"])
+                or (
+                    boundary_curvature
+                    and len(el.bcs) > 0
+                    and el.bcs[0][iedge][0] not in ["", "E"]
+                )
             ):
                 mapped_el.ccurv[iedge] = "m"
                 xm, ym, _ = edge_mid(el, iedge)
-- 
2.43.0


From 2e4b6619f898787bac4a51ca11c3b04e8e84f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 37/39] fix: generate_internal_bcs failed for a mesh without
 condition fields

---
 src/pymech/meshtools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index a1a8d0d..ec6c6df 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1138,6 +1138,10 @@ def generate_internal_bcs(mesh, tol=1e-3):
         if scales[iel] <= 0.0:
             raise ValueError(f"Detected an edge with zero length in element {iel}!")
 
+    # without condition fields, there is nothing to connect
+    if mesh.nbc < 1:
+        return 0
+
     # generate lookup tables for face centers and the faces that are already connected
     nface = 2 * mesh.ndim
     fc = np.empty((mesh.nel, nface, 3))
-- 
2.43.0


From d3e5c9b220af22ee209c8dc97ba9d33d7f135b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:46 +0000
Subject: [PATCH 38/39] fix: writenek wrote a corrupt file for an element map
 of 64-bit integers

---
 src/pymech/neksuite/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 9441f35..3c7db17 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -440,7 +440,8 @@ def writenek(fname, data):
     correct_endianness(endianbytes).tofile(outfile)
     #
     # write element map for the file
-    correct_endianness(data.elmap).tofile(outfile)
+    elmap = np.asarray(data.elmap, dtype=np.int32)
+    correct_endianness(elmap).tofile(outfile)
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
-- 
2.43.0


From dfc2dcdec4617f50efa223e1299f02e56ad1c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 39/39] fix: meshes whose orders are a tuple, as readnek
 returns them, were refused by extrude and writere2

---
 src/pymech/meshtools.py     | 6 +++---
 src/pymech/neksuite/mesh.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index ec6c6df..60e492e 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -35,7 +35,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
 
     if mesh.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh.lr1 != [2, 2, 1]:
+    if list(mesh.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
@@ -216,7 +216,7 @@ def extrude_refine(
     # Consistency checks: Initial grid
     if mesh2D.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh2D.lr1 != [2, 2, 1]:
+    if list(mesh2D.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh2D.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
@@ -418,7 +418,7 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
     # Consistency checks: Initial grid
     if mesh.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh.lr1 != [2, 2, 1]:
+    if list(mesh.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 97da956..50928bd 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -771,7 +771,7 @@ def writere2(fname, data):
     # ---------------------------------------------------------------------------
     #
     # We could extract the corners, but for now just return an error if lr1 is too large
-    if data.lr1 != [2, 2, data.ndim - 1]:
+    if list(data.lr1) != [2, 2, data.ndim - 1]:
         raise ValueError(
             "wrong element dimensions for re2 file! {} != {}".format(
                 data.lr1, [2, 2, data.ndim - 1]
-- 
2.43.0

