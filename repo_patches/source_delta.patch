From d5b4175bd1175e89804b5194f1d519432d581b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 01/13] fix: create VTK fibers with current PyVista (ascending
 radii, explicit frame)

---
 src/fibermat/render.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 01ef7d2..d85a114 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -71,7 +71,9 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     """
     # Create the VTK mesh (cylindrical structured grid)
-    msh = pv.CylinderStructured(radius=np.linspace(0.5, 0, r_resolution + 1),
+    radius = np.linspace(0, 0.5, r_resolution + 1)
+    radius[0] = np.finfo(float).tiny  # : radii must be positive
+    msh = pv.CylinderStructured(radius=radius,
                                 theta_resolution=theta_resolution,
                                 z_resolution=z_resolution)
 
@@ -88,9 +90,13 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     # Transform the mesh (scale, rotate, and translate)
     msh.scale([l, b, h], inplace=True)
-    pv.translate(msh,
-                 center=(x, y, z),
-                 direction=(u, v, w))
+    e_x = np.array([u, v, w]) / np.linalg.norm([u, v, w])
+    e_y = np.array([0., 1., 0.])
+    if np.allclose(np.abs(e_x), e_y):
+        e_y = np.array([-np.sign(v), 0., 0.])
+    e_z = np.cross(e_x, e_y) / np.linalg.norm(np.cross(e_x, e_y))
+    e_y = np.cross(e_z, e_x)
+    msh.points = msh.points @ np.array([e_x, e_y, e_z]) + np.array([x, y, z])
 
     # Return VTK mesh
     return msh
-- 
2.43.0


From 658c5e3538954704acfc2104553bff0a679dd331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 02/13] fix: interpolate a single sample as a constant instead
 of NaN

---
 src/fibermat/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index 2d1ae5e..e942f57 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -57,6 +57,9 @@ class Interpolate(interp1d):
             Additional keyword arguments passed to `interp1d` constructor.
 
         """
+        if len(y) == 1:
+            # A single sample is constant over [0, 1]
+            y = np.repeat(y, 2, axis=0)
         t = np.linspace(0, 1, len(y))
         f = interp1d(t, y, axis=0,
                      bounds_error=False, fill_value=y[-1], **kwargs)
-- 
2.43.0


From 2d8d8be4e6742ff1f14bf5bb67d04c103347038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 03/13] fix: interpolate infinite constants (upper bounds of
 end nodes) as themselves, not NaN

---
 src/fibermat/interpolation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index e942f57..42914c6 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -65,9 +65,12 @@ class Interpolate(interp1d):
                      bounds_error=False, fill_value=y[-1], **kwargs)
         if size is not None:
             t = np.linspace(0, 1, size)
+        # Infinite constants cannot be interpolated (∞ - ∞ is undefined)
+        self.infinite = np.isinf(y[0]) & np.all(np.equal(y, y[0]), axis=0)
+        self.constant = y[0]
         # Initialize interpolation
-        super().__init__(t, f(t), axis=0,
-                         bounds_error=False, fill_value=y[-1], **kwargs)
+        super().__init__(t, np.where(self.infinite, self.constant, f(t)),
+                         axis=0, bounds_error=False, fill_value=y[-1], **kwargs)
         # Set attributes
         self.t = t
         self.dtype = np.array(y).dtype
@@ -89,7 +92,8 @@ class Interpolate(interp1d):
         """
         if t is None:
             t = self.t
-        return super().__call__(t).astype(self.dtype)
+        return np.where(self.infinite, self.constant,
+                        super().__call__(t)).astype(self.dtype)
 
 
 ################################################################################
-- 
2.43.0


From aa1cefea83fdf5fc7ef84513e40f1ad71a7105a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 04/13] fix: stop the solver when the residual of the linear
 solver is NaN

---
 src/fibermat/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index 6e501c9..4ccf9c2 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -160,7 +160,7 @@ def solve(mat, mesh, packing=1., itermax=1000,
                 dU = -min(d[(d > tol) & (v > 0)] / v[(d > tol) & (v > 0)])
                 # Stopping criteria
                 stop = False
-                if err > errtol:
+                if not err <= errtol:  # : also if NaN
                     if verbose:
                         warnings.warn("Stopping criteria: err = {}".format(err),
                                       UserWarning)
-- 
2.43.0


From 8f75653d51c572551db607d428101bf2b4e7f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 05/13] fix: compare infinite moduli by value in Settings

---
 src/fibermat/widgets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/widgets.py b/src/fibermat/widgets.py
index 9a9752a..52f8ca8 100644
--- a/src/fibermat/widgets.py
+++ b/src/fibermat/widgets.py
@@ -44,9 +44,9 @@ class Settings(dict):
         self.size = ipywidgets.FloatText(value=size, step=10.0, description="SIZE")
         self.theta = ipywidgets.FloatSlider(value=theta, min=0.0, max=1.0, step=0.01, readout_format=".1%", description="THETA")
         self.shear = ipywidgets.FloatText(value=(shear if shear != np.inf else 1.0), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.shear.switch = ipywidgets.Checkbox(value=not (shear is np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
+        self.shear.switch = ipywidgets.Checkbox(value=not (shear == np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
         self.tensile = ipywidgets.FloatText(value=(tensile if tensile  != np.inf else shear * (length / thickness) ** 2), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile is np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
+        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile == np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
         self.seed = ipywidgets.IntText(value=(seed if seed is not None else 0), layout=ipywidgets.Layout(width='100px'))
         self.seed.switch = ipywidgets.Checkbox(value=not (seed is None), description="SEED", layout=ipywidgets.Layout(width='196px'))
 
@@ -190,9 +190,9 @@ class Settings(dict):
 
         """
         if name in ["shear", "tensile"]:
-            self.__getattribute__(name).switch.value = (False if value is np.inf
+            self.__getattribute__(name).switch.value = (False if value == np.inf
                                                         else True)
-            if value is not np.inf:
+            if value != np.inf:
                 self.__getattribute__(name).value = value
         elif name in ["seed", "threshold", "lmin", "lmax", "interp_size"]:
             self.__getattribute__(name).switch.value = (False if value is None
-- 
2.43.0


From c1d94fecf4b0650fe769fe9fa25020ad32b95679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 06/13] fix: report duplicate labels of Net and Mesh as
 IndexError

---
 src/fibermat/mesh.py | 3 ++-
 src/fibermat/net.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index cda9c09..63adb98 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -277,7 +277,8 @@ class Mesh(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(mesh.index) == np.arange(len(mesh))):
+        if (len(np.unique(mesh.index)) != len(mesh)
+                or not np.all(np.unique(mesh.index) == np.arange(len(mesh)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(mesh) - 1))
         if not np.all(mesh.index == np.arange(len(mesh))):
diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index ee92e20..2beede9 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -353,7 +353,8 @@ class Net(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(net.index) == np.arange(len(net))):
+        if (len(np.unique(net.index)) != len(net)
+                or not np.all(np.unique(net.index) == np.arange(len(net)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(net) - 1))
         if not np.all(net.index == np.arange(len(net))):
-- 
2.43.0


From 5d19e1511c13a089c70ddcbb5401a4deb9425384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 07/13] fix: stack only keeps the connections of the given
 network

---
 src/fibermat/net.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 2beede9..5f74955 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -572,8 +572,13 @@ class Stack(Net):
         if linsol:
             # Update DataFrames
             mat.z = linsol.x
+            pairs = pd.MultiIndex.from_frame(net[[*"AB"]])
             net = Net(mat, **net.attrs)
 
+            # Keep only the connections that have been stacked
+            net = net[pd.MultiIndex.from_frame(net[[*"AB"]]).isin(pairs)]
+            net.reset_index(drop=True, inplace=True)
+
             # Remove nodes based on threshold distances between nodes
             mask = np.zeros(len(net))
             # : 0 if removed node
-- 
2.43.0


From d7c513fd93e9cf93baa4c23bc099656664ec746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 08/13] fix: locate VTK points between coincident mesh nodes

---
 src/fibermat/render.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index d85a114..95e1a7c 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -5,7 +5,6 @@ import numpy as np
 import pyvista as pv
 from matplotlib import pyplot as plt
 from scipy.interpolate import CubicHermiteSpline
-from sklearn.neighbors import KDTree
 from tqdm import tqdm
 
 from fibermat import Mat, Net, Stack, Mesh, solve
@@ -227,10 +226,9 @@ def vtk_mesh(mat=None, mesh=None,
         fiber = by_fiber.get_group(i)
         s = fiber.s.values[:, None]
         x = msh["xyz"][:, [0]] * 0.9999
-        k = KDTree(s).query(x, return_distance=False).ravel()
         s, x = s.ravel(), x.ravel()
-        # Correct indices (s_k <= x_i < s_{k+1}, k \in [-1, n])
-        k = k * (x > s[k]) + (k - 1) * (x <= s[k])
+        # Element indices (s_k < x_i <= s_{k+1}), also if nodes coincide
+        k = np.searchsorted(s, x) - 1
         # Indices containing relative distances (np.floor(j) = k)
         j = ((x - s[k]) / (s[k + 1] - s[k]))
         # Correct issues for periodic mesh
-- 
2.43.0


From d049acf154fe9a45a029fc8375e3ea294be482b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 09/13] fix: render displacements with rotations as slopes per
 unit of length

---
 src/fibermat/render.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 95e1a7c..9125fa3 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -4,7 +4,7 @@
 import numpy as np
 import pyvista as pv
 from matplotlib import pyplot as plt
-from scipy.interpolate import CubicHermiteSpline
+from scipy.interpolate import CubicHermiteSpline, PPoly
 from tqdm import tqdm
 
 from fibermat import Mat, Net, Stack, Mesh, solve
@@ -248,11 +248,17 @@ def vtk_mesh(mat=None, mesh=None,
         if displacement is not None:
             if rotation is None:
                 rotation = 0 * displacement
-            displacement = CubicHermiteSpline(s, displacement, rotation)
+            # Hermite polynomials (rotations are slopes along the fibers)
+            l = np.diff(mesh.s.values)
+            du = np.diff(displacement)
+            r1, r2 = l * rotation[:-1], l * rotation[1:]
+            displacement = PPoly([r1 + r2 - 2 * du, 3 * du - 2 * r1 - r2,
+                                  r1, displacement[:-1]], s)
+            l = l[np.floor(x).astype(int)]
             msh["displacement"] = np.zeros(msh.points.shape)
             msh["displacement"][:, 2] = displacement(x)
-            msh["rotation"] = displacement.derivative()(x)
-            msh["curvature"] = displacement.derivative(2)(x)
+            msh["rotation"] = displacement.derivative()(x) / l
+            msh["curvature"] = displacement.derivative(2)(x) / l ** 2
             msh.points += msh["displacement"]
         if force is not None:
             if moment is None:
-- 
2.43.0


From fc663817a33a9d9e4a30e56eaa3ef34e11a2fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 10/13] fix: pass resolution arguments of vtk_mesh to vtk_fiber

---
 src/fibermat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 9125fa3..4ceacc1 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -239,7 +239,7 @@ def vtk_mesh(mat=None, mesh=None,
         msh["node"] = j
 
     # Create a VTK mesh with interpolation dataZ
-    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose)
+    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose, **kwargs)
 
     if len(mat):
         # Interpolate fields
-- 
2.43.0


From 582655194ade6f181cbe36b59e17063100f3e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 11/13] fix: locate VTK points at coincident nodes in the
 element after them

---
 src/fibermat/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 4ceacc1..7e66f13 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -227,8 +227,8 @@ def vtk_mesh(mat=None, mesh=None,
         s = fiber.s.values[:, None]
         x = msh["xyz"][:, [0]] * 0.9999
         s, x = s.ravel(), x.ravel()
-        # Element indices (s_k < x_i <= s_{k+1}), also if nodes coincide
-        k = np.searchsorted(s, x) - 1
+        # Element indices (s_k <= x_i < s_{k+1}), also if nodes coincide
+        k = np.searchsorted(s, x, side="right") - 1
         # Indices containing relative distances (np.floor(j) = k)
         j = ((x - s[k]) / (s[k + 1] - s[k]))
         # Correct issues for periodic mesh
-- 
2.43.0


From 6d9ffa968845e5c1e98543ff52d90e6faf8a4019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 12/13] fix: let fiber properties prevail over shared settings
 in vtk_mat and vtk_mesh

---
 src/fibermat/render.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 7e66f13..c315673 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -146,9 +146,12 @@ def vtk_mat(mat=None, func=None, verbose=True, **kwargs):
         # Get fiber
         fiber = mat.loc[i].astype(float)
         # Create the VTK mesh (cylindrical structured grid)
-        msh = vtk_fiber(*fiber[[*"lbhxyzuvwGE"]].values,
-                        index=i,
-                        **kwargs)
+        # (properties of the fiber prevail over shared settings)
+        msh = vtk_fiber(**{**kwargs, **dict(zip(
+            ["length", "width", "thickness", "x", "y", "z",
+             "u", "v", "w", "shear", "tensile", "index"],
+            [*fiber[[*"lbhxyzuvwGE"]].values, i]
+        ))})
         if func is not None:
             # Create additional fields
             func(msh, i)
-- 
2.43.0


From 6e27359668b94830d300d8a7a3a4e60e2e60e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 13/13] fix: render mats with additional columns that are not
 numbers

---
 src/fibermat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index c315673..9db24ba 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -144,7 +144,7 @@ def vtk_mat(mat=None, func=None, verbose=True, **kwargs):
 
     for i in tqdm(mat.index, desc="Create VTK mat", disable=not verbose):
         # Get fiber
-        fiber = mat.loc[i].astype(float)
+        fiber = mat.loc[i, [*"lbhxyzuvwGE"]].astype(float)
         # Create the VTK mesh (cylindrical structured grid)
         # (properties of the fiber prevail over shared settings)
         msh = vtk_fiber(**{**kwargs, **dict(zip(
-- 
2.43.0

