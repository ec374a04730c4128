From 0b022553c4bc9799d6a65f449214265818f61596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:52 +0000
Subject: [PATCH 01/29] fix: do not flip a fit's principal axes in place

as_conic, normal_errors, iterative_normal_errors and polar.pole_error
negated the axes array they were given in place, so plotting or querying a
downward-facing fit changed its axes, scores and uid.
---
 attitude/display/polar.py   | 2 +-
 attitude/orientation/pca.py | 7 ++++---
 attitude/stereonet.py       | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/attitude/display/polar.py b/attitude/display/polar.py
index b83c055..4fad9c4 100644
--- a/attitude/display/polar.py
+++ b/attitude/display/polar.py
@@ -27,7 +27,7 @@ def pole_error(ax, fit, *args, **kwargs):
     ell = ellipse()
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 327df06..04803e2 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -401,8 +401,9 @@ class PCAOrientation(BaseOrientation):
 
     def as_conic(self, level=1):
 
-        if dot(self.axes[2],vector(0,0,1)) < 0:
-            self.axes *= -1
+        axes = self.axes
+        if dot(axes[2],vector(0,0,1)) < 0:
+            axes = -axes
 
         cov = self.covariance_matrix
         idx = N.diag_indices(3)
@@ -416,7 +417,7 @@ class PCAOrientation(BaseOrientation):
 
         # Rotate ellipse matrix into cartesian
         # plane
-        R = augment(self.axes)
+        R = augment(axes)
         return ell.transform(R)
 
     def as_hyperbola(self, rotated=False):
diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index d73210b..5ce06e3 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -49,7 +49,7 @@ def normal_errors(axes, covariance_matrix, **kwargs):
     ell = ellipse(**kwargs)
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
@@ -129,7 +129,7 @@ def iterative_normal_errors(axes, covariance_matrix, **kwargs):
     u = N.linspace(0, 2*N.pi, n)
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-- 
2.43.0


From abb00f2a98532d6dff5ddfbd489584c8161fa791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:52 +0000
Subject: [PATCH 02/29] fix: hyperbolic_axes no longer swallows every exception

The bare except turned an interrupt or a failed computation into a silently
different error estimate; only planes without eigenvalues need the fallback.
---
 attitude/error/axes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/error/axes.py b/attitude/error/axes.py
index 2780087..ee2876a 100644
--- a/attitude/error/axes.py
+++ b/attitude/error/axes.py
@@ -222,7 +222,8 @@ def hyperbolic_axes(fit, **kwargs):
             return noise_axes(fit, **kwargs)
         else:
             return sampling_axes(fit, **kwargs)
-    except:
+    except AttributeError:
+        # Reconstructed planes only carry precomputed axes
         return fit.hyperbolic_axes
 
 def variance_axes(fit):
-- 
2.43.0


From d6d41a234553fd234da559886aaf4548a1ea800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:52 +0000
Subject: [PATCH 03/29] fix: a group that cannot be fitted no longer claims its
 members

Members were linked to the group before it was checked and fitted, so a
failure left measurements pointing at a half-built group.
---
 attitude/orientation/grouped.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index e228ac2..e1b662d 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -19,13 +19,16 @@ class GroupedOrientation(PCAOrientation):
         for o in orientations:
             if hasattr(o,'members'):
                 raise GroupedPlaneError("Cannot group already-grouped planes")
-            o.member_of = self
 
         self.members = orientations
 
         super().__init__(array,**kwargs)
         self.mean = all_values.mean(axis=0)
 
+        # Link members only once the group exists
+        for o in orientations:
+            o.member_of = self
+
     def to_mapping(self,**values):
         values.setdefault('centered_array',None)
         values['members'] = [a.hash for a in self.members]
-- 
2.43.0


From 961936a06b731094c4be2a46e2503381100b9d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:52 +0000
Subject: [PATCH 04/29] fix: keep group membership consistent when regrouping

Regrouping a copied list relinked the caller's originals instead of the
copies (losing membership and the already-grouped check), depended on list
order, and allowed one measurement in two groups of the same call.
---
 attitude/orientation/grouped.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index e1b662d..5f40da5 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -43,11 +43,20 @@ def create_groups(orientations, *groups, **kwargs):
     # Copy all datasets to be safe (this could be bad for
     # memory usage, so can be disabled).
     if kwargs.pop('copy', True):
-        orientations = [copy(o) for o in orientations]
+        orientations = list(orientations)
+        copies = {id(o): copy(o) for o in orientations}
+        for o in list(copies.values()):
+            if hasattr(o, 'members'):
+                # Existing groups refer to the copies of their members
+                o.members = tuple(copies.setdefault(id(a), copy(a))
+                                  for a in o.members)
+        orientations = [copies[id(o)] for o in orientations]
 
     for o in orientations:
         # Get rid of and recreate group membership
         o.member_of = None
+
+    for o in orientations:
         try:
             grouped += o.members
             for a in o.members:
@@ -61,6 +70,7 @@ def create_groups(orientations, *groups, **kwargs):
             if val in grouped:
                 raise GroupedPlaneError("{} is already in a group."
                                            .format(val.hash))
+            grouped.append(val)
             return val
         except StopIteration:
             raise KeyError("No measurement of with hash {} found"
-- 
2.43.0


From be7b10b9ec5e257c6f971644706c891c8fdb7dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:13 +0000
Subject: [PATCH 05/29] fix: a fit keeps its own copy of the input coordinates

The raw array was kept by reference, so reusing the buffer after fitting
silently changed later groups built from the fit.
---
 attitude/orientation/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 04803e2..5a0f0d7 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -152,7 +152,7 @@ class PCAOrientation(BaseOrientation):
         self.disabled = False
 
         self.method = noise_axes
-        self.array = arr
+        self.array = arr.copy()
 
         self.mean = arr.mean(axis=0)
         self.arr = centered(arr)
-- 
2.43.0


From 743d77c8255475876df4edc770f3c6a1aba1bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:13 +0000
Subject: [PATCH 06/29] fix: drawing on explicit axes no longer opens a stray
 pyplot figure

current_axes() was evaluated as a default argument even when axes were given.
---
 attitude/display/plot/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/attitude/display/plot/__init__.py b/attitude/display/plot/__init__.py
index 62f1734..78b5ae8 100644
--- a/attitude/display/plot/__init__.py
+++ b/attitude/display/plot/__init__.py
@@ -16,7 +16,7 @@ def current_axes():
     return P.gca()
 
 def trend_plunge(orientation, *args, **kwargs):
-    ax = kwargs.pop("ax",current_axes())
+    ax = kwargs.pop("ax",None) or current_axes()
     levels = kwargs.pop("levels",[1])
     #kwargs["linewidth"] = 0
     defaults = dict(
@@ -37,7 +37,7 @@ def trend_plunge(orientation, *args, **kwargs):
         ax.add_patch(e)
 
 def normal(orientation, *args, **kwargs):
-    ax = kwargs.pop("ax",current_axes())
+    ax = kwargs.pop("ax",None) or current_axes()
     levels = kwargs.pop("levels",[1])
     normal = kwargs.pop("normal",False)
     kwargs["linewidth"] = 0
@@ -54,7 +54,7 @@ def normal(orientation, *args, **kwargs):
         ax.add_patch(e)
 
 def plane_confidence(orientation, *args, **kwargs):
-    ax = kwargs.pop('ax',current_axes())
+    ax = kwargs.pop("ax",None) or current_axes()
     levels = kwargs.pop("levels",[1])
 
     a = kwargs.pop("alpha",[0.7])
@@ -73,7 +73,7 @@ def plane_confidence(orientation, *args, **kwargs):
         #ax.add_patch(e)
 
 def strike_dip(orientation, *args, **kwargs):
-    ax = kwargs.pop("ax",current_axes())
+    ax = kwargs.pop("ax",None) or current_axes()
     levels = kwargs.pop("levels",[1])
     spherical = kwargs.pop("spherical", False)
     kwargs["linewidth"] = 0
@@ -152,7 +152,7 @@ def error_asymptotes(pca,**kwargs):
     Plots asymptotic error bounds for
     hyperbola on a stereonet.
     """
-    ax = kwargs.pop("ax",current_axes())
+    ax = kwargs.pop("ax",None) or current_axes()
 
     lon,lat = pca.plane_errors('upper', n=1000)
     ax.plot(lon,lat,'-')
-- 
2.43.0


From a4581997571a667fee9cb92e52cb4624da7917a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:13 +0000
Subject: [PATCH 07/29] fix: point display/lib at the bundled javascript

The symlink dangled, so init_notebook_mode always failed.
---
 attitude/display/lib | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/display/lib b/attitude/display/lib
index 25a333a..64a739a 120000
--- a/attitude/display/lib
+++ b/attitude/display/lib
@@ -1 +1 @@
-../../js-frontend/lib
\ No newline at end of file
+../../frontend/packages/attitude/lib
\ No newline at end of file
-- 
2.43.0


From 87efd663339f1e01bdb4cec99014fbe0e6b453f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:13 +0000
Subject: [PATCH 08/29] fix: escape plot_interactive data for the script it is
 embedded in

Quotes, backslashes or closing tags in user-provided values broke the
generated script or changed the data.
---
 attitude/display/nbextension.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/attitude/display/nbextension.py b/attitude/display/nbextension.py
index 45a40da..5d7f713 100644
--- a/attitude/display/nbextension.py
+++ b/attitude/display/nbextension.py
@@ -44,9 +44,11 @@ def plot_interactive(attitudes):
                  if hasattr(a,'to_mapping') else a
                  for a in attitudes]
 
-    data = dumps(attitudes)
-    script = __TEMPLATE__.replace("<<<data>>>",data)
+    # The data ends up in a single-quoted string within a script tag
+    data = (dumps(attitudes).replace("\\","\\\\")
+            .replace("'","\\'").replace("<","\\u003c"))
 
     classname = "A"+str(uuid4())
-    script = script.replace("<<<hash>>>",classname)
+    script = __TEMPLATE__.replace("<<<hash>>>",classname)
+    script = script.replace("<<<data>>>",data)
     display(HTML(script))
-- 
2.43.0


From 7b0ac5d587929635ab2ab76074db60a15e046559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:30 +0000
Subject: [PATCH 09/29] fix: make the DEM helpers work with shapely 2

shapely 2 removed asShape/asLineString (imported but unused), made
coordinates immutable and multi-part geometries non-iterable.
---
 attitude/helpers/dem.py           | 2 +-
 attitude/helpers/interpolation.py | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index 881198d..cfe1146 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -7,7 +7,7 @@ from rasterio.features import rasterize, geometry_mask
 from affine import Affine
 from subdivide import subdivide
 
-from shapely.geometry import shape, mapping, asShape
+from shapely.geometry import shape, mapping
 from shapely.ops import transform
 
 from .interpolation import bilinear
diff --git a/attitude/helpers/interpolation.py b/attitude/helpers/interpolation.py
index 256afa8..cc381dc 100644
--- a/attitude/helpers/interpolation.py
+++ b/attitude/helpers/interpolation.py
@@ -16,7 +16,6 @@ def __factory__(order):
         """Interpolates geometries to the specified order"""
         import numpy as N
         from scipy.ndimage import map_coordinates
-        from shapely.geometry import shape, mapping, asLineString
 
         if hasattr(array, 'mask'):
             array = array.astype(float).filled(N.nan)
@@ -35,13 +34,12 @@ def __factory__(order):
             return list(map(tuple, coordinates))
 
         if geometry.geom_type == "Point":
-            geometry.coords  = point_handler(geometry.coords)
+            return type(geometry)(point_handler(geometry.coords))
         elif geometry.geom_type == "MultiLineString":
-            return MultiLineString([line_handler(g.coords) for g in geometry])
+            return MultiLineString([line_handler(g.coords) for g in geometry.geoms])
         else:
-            geometry.coords  = line_handler(geometry.coords)
+            return type(geometry)(line_handler(geometry.coords))
 
-        return geometry
     return interpolate
 
 nearest = __factory__(0)
-- 
2.43.0


From 38f0e6fb277600b1e000c6aebd01e9aa2affe85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:44 +0000
Subject: [PATCH 10/29] fix: error_comparison bootstrap no longer fails with a
 NameError

---
 attitude/display/error_comparison.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attitude/display/error_comparison.py b/attitude/display/error_comparison.py
index 7932d1c..886aff3 100644
--- a/attitude/display/error_comparison.py
+++ b/attitude/display/error_comparison.py
@@ -8,7 +8,7 @@ from ..geom.util import vector
 from .plot.cov_types import hyperbola, bootstrap_noise, augment, ci
 from .hyperbola import HyperbolicErrors
 
-def bootstrap_ci(deskewed_data):
+def bootstrap_ci(deskewed_data, xvals):
     # Bootstrap with noise std greater of 1m or the standard deviation of residuals
     # (in this case about 1m)
     def func(arr):
@@ -72,7 +72,7 @@ def error_comparison(fit, do_bootstrap=False, **kwargs):
     err.plot(ax, fc='dodgerblue', alpha=0.3, label="Noise-based")
 
     if do_bootstrap:
-        err_bands = bootstrap_ci(deskewed_data)
+        err_bands = bootstrap_ci(deskewed_data, xvals)
         ax.fill_between(xvals, *err_bands, facecolor="none",edgecolor='blue',
                         alpha=.5, label="Noise bootstrap",linestyle='--')
 
-- 
2.43.0


From 5e549ac101b66b9d9d6273222780c63b7524f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:13 +0000
Subject: [PATCH 11/29] fix: extract_line interpolates from all surrounding
 cells

The window read from the DEM ended at the pixels holding the outermost
vertices, so vertices in the outer half of those pixels were not
interpolated, and vertices outside of the DEM were given elevations of
unrelated cells instead of being removed as invalid.
---
 attitude/helpers/dem.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index cfe1146..b833611 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -78,13 +78,13 @@ def extract_line(geom, dem, **kwargs):
     f = lambda *x: dem.transform * (x[0],x[1])
     geom = transform(f,px)
 
-    # Get min and max coords for windowing
-    # Does not deal with edge cases where points
-    # are outside of footprint of DEM
+    # Get min and max coords for windowing, padded by half a pixel so that
+    # all cells needed for interpolation are read
 
     coords_px = coords_array(px)
-    mins = N.floor(coords_px.min(axis=0))
-    maxs = N.ceil(coords_px.max(axis=0))
+    size = N.array(dem.shape[::-1])
+    mins = N.clip(N.floor(coords_px.min(axis=0)-0.5), 0, size-1)
+    maxs = N.clip(N.ceil(coords_px.max(axis=0)+0.5), 1, size)
 
     window = tuple((int(mn),int(mx))
         for mn,mx in zip(mins[::-1],maxs[::-1]))
@@ -100,6 +100,9 @@ def extract_line(geom, dem, **kwargs):
     coords = coords_array(extracted)
 
     coords[:,:2] = coords_array(geom)
+    # Points outside of footprint of DEM have no elevation
+    inside = ((coords_px >= 0) & (coords_px <= size)).all(axis=1)
+    coords[~inside,2] = N.nan
     return coords
 
 def extract_area(geom, dem, **kwargs):
-- 
2.43.0


From 740e5017206e20877013a6350b95687132eb8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:27 +0000
Subject: [PATCH 12/29] fix: a fit and its hash do not depend on the memory
 layout of the coordinates

---
 attitude/orientation/pca.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 5a0f0d7..a2f65cf 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -152,10 +152,12 @@ class PCAOrientation(BaseOrientation):
         self.disabled = False
 
         self.method = noise_axes
+        # A C-ordered copy, so that the fit (and the hash derived from it)
+        # depends only on the coordinates and not on their memory layout
         self.array = arr.copy()
 
-        self.mean = arr.mean(axis=0)
-        self.arr = centered(arr)
+        self.mean = self.array.mean(axis=0)
+        self.arr = centered(self.array)
 
         # Factor loadings
         if weights is None:
-- 
2.43.0


From 6205ebe2dbe0aef38dd82ad3fd35ceb41b3423fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:37 +0000
Subject: [PATCH 13/29] fix: interactive plots fail in the browser when a
 record contains NaN

The rake of an exactly horizontal plane is NaN, which JSON.parse refuses, so
none of the planes of that plot was shown. Emit the data as a javascript
literal instead.
---
 attitude/display/nbextension.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/attitude/display/nbextension.py b/attitude/display/nbextension.py
index 5d7f713..f1362a6 100644
--- a/attitude/display/nbextension.py
+++ b/attitude/display/nbextension.py
@@ -32,7 +32,7 @@ def init_notebook_mode():
 __TEMPLATE__ = """
 <div id='a__<<<hash>>>'></div>
 <script type='text/javascript'>
-  var data=JSON.parse('<<<data>>>');
+  var data=<<<data>>>;
   attitudeUI(document.querySelector('#a__<<<hash>>>'),data);
 </script>
 """
@@ -44,9 +44,9 @@ def plot_interactive(attitudes):
                  if hasattr(a,'to_mapping') else a
                  for a in attitudes]
 
-    # The data ends up in a single-quoted string within a script tag
-    data = (dumps(attitudes).replace("\\","\\\\")
-            .replace("'","\\'").replace("<","\\u003c"))
+    # The data ends up within a script tag, as a javascript literal (which
+    # unlike JSON may contain NaN, e.g. the rake of a horizontal plane)
+    data = dumps(attitudes).replace("<","\\u003c")
 
     classname = "A"+str(uuid4())
     script = __TEMPLATE__.replace("<<<hash>>>",classname)
-- 
2.43.0


From 46412338b570246173c91ef39b333a464e743593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:14 +0000
Subject: [PATCH 14/29] fix: drawing an orientation no longer changes its axes
 or error coordinates

flipAxesIfNeeded, deconvolveAxes and errorSurface reordered or rescaled the
arrays they were given in place, so the records passed for drawing changed and
a second use of the same coordinates gave a different result.
---
 frontend/packages/attitude/src/functions.ts | 6 ++++--
 frontend/packages/attitude/src/math.ts      | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/functions.ts b/frontend/packages/attitude/src/functions.ts
index 78a2d06..9a4f2b6 100644
--- a/frontend/packages/attitude/src/functions.ts
+++ b/frontend/packages/attitude/src/functions.ts
@@ -24,7 +24,8 @@ const createFeature = (type, coordinates) => ({
 const createErrorSurface = function (d, baseData = null) {
   // Function that turns orientation
   // objects into error surface
-  const e = [d.lower, d.upper.reverse()];
+  // (rings are copied, since winding order is changed in place)
+  const e = [d.lower.slice(), d.upper.slice().reverse()];
 
   let f = createFeature("Polygon", e);
   if (!geoContains(f, d.nominal[0])) {
@@ -55,7 +56,8 @@ const createNominalPlane = function (d, baseData = null) {
 
 const flipAxesIfNeeded = function (axes) {
   if (axes[2][2] < 0) {
-    axes[2] = axes[2].map((e) => -e);
+    // Don't modify the axes of the input record
+    return [axes[0], axes[1], axes[2].map((e) => -e)];
   }
   return axes;
 };
diff --git a/frontend/packages/attitude/src/math.ts b/frontend/packages/attitude/src/math.ts
index 9765816..2990df8 100644
--- a/frontend/packages/attitude/src/math.ts
+++ b/frontend/packages/attitude/src/math.ts
@@ -240,6 +240,8 @@ var deconvolveAxes = function (axes) {
   // Inverse of `convolveAxes`
   const ax = transpose(axes);
   const sv = ax.map(norm);
+  // Don't modify the input axes
+  axes = axes.map((row) => [...row]);
   for (
     let i = 0, end = axes.length, asc = 0 <= end;
     asc ? i < end : i > end;
-- 
2.43.0


From 7bdf24820e64947926b4a79427337c33dafdb33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:07 +0000
Subject: [PATCH 15/29] fix: drawing calls no longer write defaults into the
 caller's option object

The functions in math, functions, Stereonet.planes/ellipses and vertical filled in
their defaults on the object they were passed (startOffset was even advanced on
each call), so a second call with the same options gave a different result.
---
 frontend/packages/attitude/src/functions.ts   |  4 ++++
 frontend/packages/attitude/src/math.ts        | 19 +++++++------------
 .../packages/attitude/src/stereonet/index.ts  |  7 ++++---
 .../attitude/src/stereonet/vertical.ts        |  5 ++---
 4 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/frontend/packages/attitude/src/functions.ts b/frontend/packages/attitude/src/functions.ts
index 9a4f2b6..c1f5064 100644
--- a/frontend/packages/attitude/src/functions.ts
+++ b/frontend/packages/attitude/src/functions.ts
@@ -83,6 +83,8 @@ function constructAxes(props: any): AxesProps {
 }
 
 const createGroupedPlane = function (opts) {
+  // Set defaults on a copy, so the caller's options aren't changed
+  opts = { ...opts };
   if (opts.nominal == null) {
     opts.nominal = true;
   }
@@ -150,6 +152,8 @@ const __createErrorEllipse = function (opts) {
 
 const createErrorEllipse = function (opts) {
   // Level can be single or array of error levels
+  // Set defaults on a copy, so the caller's options aren't changed
+  opts = { ...opts };
   if (opts.level == null) {
     opts.level = 1;
   }
diff --git a/frontend/packages/attitude/src/math.ts b/frontend/packages/attitude/src/math.ts
index 2990df8..8f38315 100644
--- a/frontend/packages/attitude/src/math.ts
+++ b/frontend/packages/attitude/src/math.ts
@@ -63,9 +63,8 @@ const ellipse = function (opts) {
 };
 
 const cart2sph = function (opts) {
-  if (opts == null) {
-    opts = {};
-  }
+  // Set defaults on a copy, so the caller's options aren't changed
+  opts = { ...opts };
   if (opts.degrees == null) {
     opts.degrees = false;
   }
@@ -97,9 +96,8 @@ const cart2sph = function (opts) {
 const planeErrors = function (axesCovariance, axes, opts) {
   // Get a single level of planar errors (or the
   // plane's nominal value) as a girdle
-  if (opts == null) {
-    opts = {};
-  }
+  // Set defaults on a copy, so the caller's options aren't changed
+  opts = { ...opts };
   if (opts.n == null) {
     opts.n = 100;
   }
@@ -161,6 +159,8 @@ const normalErrors = function (
   // Should use adaptive resampling
   // https://bl.ocks.org/mbostock/5699934
 
+  // Set defaults on a copy, so the caller's options aren't changed
+  opts = { ...opts };
   opts.n ??= 100;
   opts.upperHemisphere ??= true;
   opts.traditionalLayout ??= true;
@@ -207,13 +207,8 @@ const normalErrors = function (
 
 const combinedErrors = function (sv, ax, opts) {
   let out;
-  if (opts == null) {
-    opts = {};
-  }
   const func = function (type) {
-    opts.sheet = type;
-    opts.degrees = true;
-    return planeErrors(sv, ax, opts);
+    return planeErrors(sv, ax, { ...opts, sheet: type, degrees: true });
   };
 
   return (out = {
diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index 775272e..6db38cb 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -85,9 +85,8 @@ function Stereonet(o1 = {}) {
   const callStack = [];
 
   const drawPlanes = function (data, o) {
-    if (o == null) {
-      o = {};
-    }
+    // Set defaults on a copy, so the caller's options aren't changed
+    o = { ...o };
     if (o.color == null) {
       o.color = "#aaaaaa";
     }
@@ -128,6 +127,8 @@ function Stereonet(o1 = {}) {
   };
 
   const drawEllipses = function (data, o = {}) {
+    // Set defaults on a copy, so the caller's options aren't changed
+    o = { ...o };
     o.color ??= (d) => d.color || "#aaaaaa";
     if (el == null) {
       throw "Stereonet must be initialized to an element before adding data";
diff --git a/frontend/packages/attitude/src/stereonet/vertical.ts b/frontend/packages/attitude/src/stereonet/vertical.ts
index b14fe52..13c2cb5 100644
--- a/frontend/packages/attitude/src/stereonet/vertical.ts
+++ b/frontend/packages/attitude/src/stereonet/vertical.ts
@@ -9,9 +9,8 @@ import { scaleLinear } from "d3-scale";
 const d2r = Math.PI / 180;
 export default (stereonet) =>
   function (opts) {
-    if (opts == null) {
-      opts = {};
-    }
+    // Set defaults on a copy, so the caller's options aren't changed
+    opts = { ...opts };
     if (opts.startOffset == null) {
       opts.startOffset = 10;
     }
-- 
2.43.0


From bd286a3c61dd6e6da88a731da0d2903f3406847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:30 +0000
Subject: [PATCH 16/29] fix: error hyperbolas do not depend on how the same
 plot was drawn before

---
 frontend/packages/attitude/src/hyperbola.ts | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index 77574d5..e0ec2b3 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -149,10 +149,8 @@ const hyperbolicErrors = function (viewpoint, axes, xScale, yScale) {
   // at each step. This is much more efficient, at the cost of the fine structure
   // of the hyperbola near the origin
   const nCoords = 3;
-  let { ratioX, ratioY, screenRatio, lineGenerator } = getRatios(
-    xScale,
-    yScale
-  );
+  const ratios = getRatios(xScale, yScale);
+  const { ratioX, screenRatio } = ratios;
 
   const dfunc = function (d) {
     // Get a single level of planar errors (or the
@@ -274,6 +272,7 @@ const hyperbolicErrors = function (viewpoint, axes, xScale, yScale) {
     //console.log 'Angle', __angle
     //__angle = 0
 
+    let { lineGenerator } = ratios;
     if (!scaleErrorAngles) {
       lineGenerator = line()
         .x((d) => d[0] * ratioX)
@@ -299,16 +298,15 @@ rotate(${v})`
     let mid = null;
     if (!mask.node()) {
       mid = uuid.v4();
-      mask = hyp
-        .append("mask")
-        .attr("id", mid)
-        .attrs(masksz)
-        .append("rect")
-        .attrs({ ...masksz, fill: "url(#gradient)" });
+      mask = hyp.append("mask").attr("id", mid);
+      mask.append("rect").attr("fill", "url(#gradient)");
     }
     if (mid == null) {
       mid = mask.attr("id");
     }
+    // Size the mask on every draw: the error and width can change
+    mask.attrs(masksz);
+    mask.select("rect").attrs(masksz);
 
     if (centerPoint) {
       hyp.selectAppend("circle").attrs({ r: 2, fill: "black" });
-- 
2.43.0


From b2ca46c9b133d65c2cbe382d2d6673b6fcace349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:09 +0000
Subject: [PATCH 17/29] fix: several stereonets on one page no longer displace
 each other's drag and label listeners

---
 frontend/packages/attitude/src/stereonet/interaction.ts | 9 ++++++---
 frontend/packages/attitude/src/stereonet/labels.ts      | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/interaction.ts b/frontend/packages/attitude/src/stereonet/interaction.ts
index 872c2f3..e7daddb 100644
--- a/frontend/packages/attitude/src/stereonet/interaction.ts
+++ b/frontend/packages/attitude/src/stereonet/interaction.ts
@@ -46,8 +46,11 @@ export default (function(stereonet){
     }
   };
 
-  el.on('mousedown', mousedown);
+  // Each stereonet listens under its own name, so that several stereonets
+  // (and other listeners of the page) don't displace each other.
+  const name = `stereonet-${stereonet.uid()}`;
+  el.on(`mousedown.${name}`, mousedown);
   return select(window)
-    .on("mousemove", mousemove)
-    .on("mouseup", mouseup);
+    .on(`mousemove.${name}`, mousemove)
+    .on(`mouseup.${name}`, mouseup);
 });
diff --git a/frontend/packages/attitude/src/stereonet/labels.ts b/frontend/packages/attitude/src/stereonet/labels.ts
index feb5259..86695ed 100644
--- a/frontend/packages/attitude/src/stereonet/labels.ts
+++ b/frontend/packages/attitude/src/stereonet/labels.ts
@@ -129,7 +129,7 @@ const globalLabels = function(opts){
 
     updateLabels.apply(stereonet);
 
-    return stereonet.on('rotate', updateLabels);
+    return stereonet.on('rotate.labels', updateLabels);
   };
 };
 
-- 
2.43.0


From 44e3d9177a6a5542cec6078a57acade2a9fa9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:09 +0000
Subject: [PATCH 18/29] fix: a failing rotate listener no longer leaves the
 stereonet drawn at the old rotation

---
 frontend/packages/attitude/src/stereonet/index.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index 6db38cb..2755c3a 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -303,8 +303,14 @@ function Stereonet(o1 = {}) {
       return proj.rotate();
     }
     proj.rotate(coords);
-    dispatch.call(uid + "rotate", f);
-    return __redraw();
+    let redrawn;
+    try {
+      dispatch.call(uid + "rotate", f);
+    } finally {
+      // Even if a listener fails, the plot must match its rotation
+      redrawn = __redraw();
+    }
+    return redrawn;
   };
 
   f.centerPosition = function () {
-- 
2.43.0


From aa0ede6f30f7d30650796cbc45792f804ce0795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:09 +0000
Subject: [PATCH 19/29] fix: centering a stereonet updates its labels and
 rotate listeners

---
 frontend/packages/attitude/src/stereonet/index.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index 2755c3a..32bf913 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -373,10 +373,8 @@ function Stereonet(o1 = {}) {
     if (c === "vertical") {
       c = [0, 90];
     }
-    proj.rotate(c);
-    if (el != null) {
-      return __redraw();
-    }
+    // Labels and listeners follow the new center as well
+    return f.rotate(c);
   };
   f.center = __getSet(() => proj.rotate, _);
 
-- 
2.43.0


From ed0749052d7e84457e6abad8dd0044faad6e9284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:12 +0000
Subject: [PATCH 20/29] fix: a rotate listener failing on release no longer
 leaves the stereonet stuck to the pointer

---
 frontend/packages/attitude/src/stereonet/interaction.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/interaction.ts b/frontend/packages/attitude/src/stereonet/interaction.ts
index e7daddb..4e2314b 100644
--- a/frontend/packages/attitude/src/stereonet/interaction.ts
+++ b/frontend/packages/attitude/src/stereonet/interaction.ts
@@ -41,8 +41,12 @@ export default (function(stereonet){
 
   const mouseup = function() {
     if (m0) {
-      mousemove();
-      return m0 = null;
+      try {
+        mousemove();
+      } finally {
+        // The drag is over, even if a listener of the rotation fails
+        m0 = null;
+      }
     }
   };
 
-- 
2.43.0


From 61644ec6c1ff8576083334f73be5e37c2bba13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:33 +0000
Subject: [PATCH 21/29] fix: hovered orientations are redrawn when planes or
 poles are switched in the same update

---
 .../notebook-ui/src/components/stereonet.ts     | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/components/stereonet.ts b/frontend/packages/notebook-ui/src/components/stereonet.ts
index e80a7a7..c257460 100644
--- a/frontend/packages/notebook-ui/src/components/stereonet.ts
+++ b/frontend/packages/notebook-ui/src/components/stereonet.ts
@@ -70,18 +70,17 @@ class StereonetComponent extends React.Component {
   }
 
   componentDidUpdate(prevProps, prevState) {
-    let { hovered, drawPlanes, drawPoles, data } = this.props;
-    if (data !== prevProps.data) {
-      drawPlanes = drawPoles = null;
-    }
-    if (prevProps.drawPlanes !== drawPlanes) {
+    const { hovered, drawPlanes, drawPoles, data } = this.props;
+    const dataChanged = data !== prevProps.data;
+    let hoveredChanged = prevProps.hovered !== hovered;
+    if (dataChanged || prevProps.drawPlanes !== drawPlanes) {
       this.updatePlanes();
-      hovered = null;
+      hoveredChanged = true;
     }
 
-    if (prevProps.drawPoles !== drawPoles) {
+    if (dataChanged || prevProps.drawPoles !== drawPoles) {
       this.updatePoles();
-      hovered = null;
+      hoveredChanged = true;
     }
 
     if (prevProps.center != this.props.center) {
@@ -89,7 +88,7 @@ class StereonetComponent extends React.Component {
     }
 
     this.__finishUpdate();
-    if (prevProps.hovered !== hovered) {
+    if (hoveredChanged) {
       return this.updateHovered();
     }
   }
-- 
2.43.0


From 5e09d992fcea30574f5eec2b8767ebf75d495897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:33 +0000
Subject: [PATCH 22/29] fix: a stereonet component is first drawn at its center

---
 frontend/packages/notebook-ui/src/components/stereonet.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frontend/packages/notebook-ui/src/components/stereonet.ts b/frontend/packages/notebook-ui/src/components/stereonet.ts
index c257460..f87cb25 100644
--- a/frontend/packages/notebook-ui/src/components/stereonet.ts
+++ b/frontend/packages/notebook-ui/src/components/stereonet.ts
@@ -53,6 +53,9 @@ class StereonetComponent extends React.Component {
     this.stereonet = Stereonet().size(400).margin(margin);
 
     this.stereonet.projection().precision(precision);
+    if (center != null) {
+      this.stereonet.center(center);
+    }
 
     const node = ReactDOM.findDOMNode(this);
     const svg = d3.select(node).call(this.stereonet);
-- 
2.43.0


From df39e03b5eaa8262656e340a550030956fe7791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:33 +0000
Subject: [PATCH 23/29] fix: hovering over a stereonet without a hover callback
 no longer fails

---
 frontend/packages/notebook-ui/src/components/stereonet.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/components/stereonet.ts b/frontend/packages/notebook-ui/src/components/stereonet.ts
index f87cb25..85b8736 100644
--- a/frontend/packages/notebook-ui/src/components/stereonet.ts
+++ b/frontend/packages/notebook-ui/src/components/stereonet.ts
@@ -171,7 +171,7 @@ class StereonetComponent extends React.Component {
       .selectAll("path.error")
       .on("mouseenter", function (d) {
         d = d3.select(this.parentElement).datum();
-        return onHover(d);
+        return onHover?.(d);
       });
   }
 
-- 
2.43.0


From 6fbcc6273fd45f70798dfd88ddc19e193af67f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:33 +0000
Subject: [PATCH 24/29] fix: a rectangular stereonet no longer keeps drawing
 over its earlier data

---
 frontend/packages/plots/src/rectangular.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frontend/packages/plots/src/rectangular.ts b/frontend/packages/plots/src/rectangular.ts
index 03e1f49..a2ceeb4 100644
--- a/frontend/packages/plots/src/rectangular.ts
+++ b/frontend/packages/plots/src/rectangular.ts
@@ -14,6 +14,8 @@ import { AzimuthLabels, DipLabels } from "./graticule-labels";
 const scale = scaleLinear().domain([2, 10]).range([0.8, 0.2]).clamp(true);
 
 function drawStereonet(el_, data) {
+  // Start over on every update
+  el_.innerHTML = "";
 
   const margin = 25;
   const size = { height: 390, width: 800 };
-- 
2.43.0


From ccb1c14cb6fb9982b888c386c8f8d2cb57e8a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:02 +0000
Subject: [PATCH 25/29] fix: a stereonet component mounted with hovered
 orientations shows them

---
 frontend/packages/notebook-ui/src/components/stereonet.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frontend/packages/notebook-ui/src/components/stereonet.ts b/frontend/packages/notebook-ui/src/components/stereonet.ts
index 85b8736..1ad9342 100644
--- a/frontend/packages/notebook-ui/src/components/stereonet.ts
+++ b/frontend/packages/notebook-ui/src/components/stereonet.ts
@@ -63,6 +63,7 @@ class StereonetComponent extends React.Component {
     this.updatePoles();
     this.updatePlanes();
     this.__finishUpdate();
+    this.updateHovered();
 
     this.stereonet.call(globalLabels());
     return this.stereonet.on("rotate.cb", () => {
-- 
2.43.0


From 7423194f5d9b07198e0949efe60d5beac8760d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:10 +0000
Subject: [PATCH 26/29] fix: styling planes in the stereonet component no
 longer discards their geometry

---
 .../packages/notebook-ui/src/components/stereonet.ts   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/components/stereonet.ts b/frontend/packages/notebook-ui/src/components/stereonet.ts
index 1ad9342..f19475c 100644
--- a/frontend/packages/notebook-ui/src/components/stereonet.ts
+++ b/frontend/packages/notebook-ui/src/components/stereonet.ts
@@ -19,13 +19,14 @@ import {
 import { Switch, Button, Card } from "@blueprintjs/core";
 
 const setHoveredFill = function (d) {
+  // selectAll, because select would replace the geometry bound to the path
   const s = d3.select(this);
-  const err = s.select("path.error");
+  const err = s.selectAll("path.error");
   err.style("fill", d.color);
   err.style("stroke", d.color);
   err.style("opacity", 1);
 
-  s.select("path.nominal").style("stroke", d.color);
+  s.selectAll("path.nominal").style("stroke", d.color);
   if (d.member_of != null) {
     return;
   }
@@ -144,7 +145,10 @@ class StereonetComponent extends React.Component {
           d3.select(this).select("path.error").remove();
         }
 
-        return d3.select(this).select("path.nominal").attr("stroke", d.color);
+        return d3
+          .select(this)
+          .selectAll("path.nominal")
+          .attr("stroke", d.color);
       });
   }
 
-- 
2.43.0


From 0f4738ea1f48ee60b06bc6e035fb3f97fc693084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:58 +0000
Subject: [PATCH 27/29] fix: the notebook UI can be constructed

---
 frontend/packages/notebook-ui/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index df3c4ad..dc44e3c 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -45,10 +45,11 @@ class AttitudeUI extends React.Component {
     };
   }
   constructor(props) {
+    super(props);
     this.getData = this.getData.bind(this);
     this.onStereonetRotate = this.onStereonetRotate.bind(this);
     this.onHover = this.onHover.bind(this);
-    super(props);
+    this.updateSelection = this.updateSelection.bind(this);
     this.state = {
       showGroups: true,
       azimuth: 0,
-- 
2.43.0


From 9938c04b2809ad5cce66d5ddc7c254aefdd53f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:58 +0000
Subject: [PATCH 28/29] fix: hovering over a group some of whose members are
 not displayed

---
 frontend/packages/notebook-ui/src/index.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index dc44e3c..e68a671 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -62,7 +62,11 @@ class AttitudeUI extends React.Component {
     const { attitudes } = this.props;
     const out = [];
     for (var o of Array.from(list)) {
-      out.push(attitudes.find((d) => o === d.uid));
+      // Members of a group might not be among the displayed attitudes
+      const found = attitudes.find((d) => o === d.uid);
+      if (found != null) {
+        out.push(found);
+      }
     }
     return out;
   }
-- 
2.43.0


From 73a30a9d204549458c5f5acbf053a5e4f8ed516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:58 +0000
Subject: [PATCH 29/29] fix: selecting an attitude in the notebook UI redraws
 the selection

---
 frontend/packages/notebook-ui/src/index.ts | 27 ++++++++++++----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index e68a671..b47d741 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -169,19 +169,22 @@ class AttitudeUI extends React.Component {
   }
 
   updateSelection(ids) {
-    const collectedIDs = this.state.selection;
-    for (let id of Array.from(ids)) {
-      if (id.members != null && !this.props.allowGroupSelection) {
-        continue;
+    return this.setState((state, props) => {
+      // Start from a copy, so that what was rendered before isn't changed
+      const collectedIDs = [...state.selection];
+      for (let id of Array.from(ids)) {
+        if (id.members != null && !props.allowGroupSelection) {
+          continue;
+        }
+        const ix = collectedIDs.findIndex((d) => d.uid === id.uid);
+        if (ix === -1) {
+          collectedIDs.push(id);
+        } else {
+          collectedIDs.splice(ix, 1);
+        }
       }
-      const ix = collectedIDs.indexOf(id);
-      if (ix === -1) {
-        collectedIDs.push(id);
-      } else {
-        collectedIDs.splice(ix, 1);
-      }
-    }
-    return this.setState({ selection: collectedIDs });
+      return { selection: collectedIDs };
+    });
   }
 }
 AttitudeUI.initClass();
-- 
2.43.0

