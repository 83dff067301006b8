From 43b8f7839e2916cae56830df6b319f53f0c4bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 01/21] fix: keep _adjust_for_anisotropy from subtracting in
 place

Integer coordinates passed to execute() (or GSTools-style integer data)
raised UFuncTypeError because the float centre was subtracted in place.
---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 30ae911..28fc8da 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -142,7 +142,7 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
     center = np.asarray(center)[None, :]
     angle = np.asarray(angle) * np.pi / 180
 
-    X -= center
+    X = X - center
 
     Ndim = X.shape[1]
 
-- 
2.43.0


From c06c7ef903ea07309274b7c29a1f16e7e4ba5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 02/21] fix: use the point's own value of a specified drift in
 the loop backend

The loop backend of UniversalKriging and UniversalKriging3D indexed the
specified drift with the row number of the kriging system instead of the
index of the point being estimated.
---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 471802a..7b34fd0 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1067,7 +1067,7 @@ class UniversalKriging:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 9b67519..d25b2ca 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -854,7 +854,7 @@ class UniversalKriging3D:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
-- 
2.43.0


From 26ce8d69216eb489a9d0fd73dae2c653c304759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 03/21] fix: point-log drift at a well position in the loop
 backend

log_dist is a scalar there, so assigning to an item of it raised TypeError.
---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7b34fd0..7c22bfb 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1056,8 +1056,8 @@ class UniversalKriging:
                             + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                         )
                     )
-                    if np.any(np.isinf(log_dist)):
-                        log_dist[np.isinf(log_dist)] = -100.0
+                    if np.isinf(log_dist):
+                        log_dist = -100.0
                     b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
                     i += 1
             if self.external_Z_drift:
-- 
2.43.0


From 7aaffd73264def1ad66f9ef6e6bc542cbca5fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 04/21] fix: re-adjust point-log wells when the anisotropy is
 updated

update_variogram_model() re-adjusted the data coordinates only, so the
point-log drift kept the well positions of the previous anisotropy.
---
 src/pykrige/uk.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7c22bfb..1585ba2 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -448,14 +448,8 @@ class UniversalKriging:
                 )
             self.point_log_drift = True
             point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
-            self.point_log_array = np.zeros(point_log.shape)
-            self.point_log_array[:, 2] = point_log[:, 2]
-            self.point_log_array[:, :2] = _adjust_for_anisotropy(
-                np.vstack((point_log[:, 0], point_log[:, 1])).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
-            )
+            self.point_log_orig = point_log
+            self._adjust_point_log()
             if self.verbose:
                 print(
                     "Implementing external point-logarithmic drift; "
@@ -509,6 +503,17 @@ class UniversalKriging:
         else:
             self.functional_drift = False
 
+    def _adjust_point_log(self):
+        """Rotates the well coordinates into the adjusted coordinate frame."""
+        self.point_log_array = np.zeros(self.point_log_orig.shape)
+        self.point_log_array[:, 2] = self.point_log_orig[:, 2]
+        self.point_log_array[:, :2] = _adjust_for_anisotropy(
+            self.point_log_orig[:, :2],
+            [self.XCENTER, self.YCENTER],
+            [self.anisotropy_scaling],
+            [self.anisotropy_angle],
+        )
+
     def _calculate_data_point_zscalars(self, x, y, type_="array"):
         """Determines the Z-scalar values at the specified coordinates
         for use when setting up the kriging matrix. Uses bilinear
@@ -721,6 +726,8 @@ class UniversalKriging:
                 [self.anisotropy_scaling],
                 [self.anisotropy_angle],
             ).T
+            if self.point_log_drift:
+                self._adjust_point_log()
 
         if self.verbose:
             print("Updating variogram mode...")
-- 
2.43.0


From ab38bab77b0ef8170e84a2f7c2086e3e0ab7cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 05/21] fix: reject n_closest_points larger than the number of
 data points

The neighbour search then reports missing neighbours by the index n: the
loop backend failed with an obscure error and the C backend read outside
the kriging matrix.
---
 src/pykrige/ok.py   | 4 ++++
 src/pykrige/ok3d.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 2eb0a7a..ddc751a 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -842,6 +842,10 @@ class OrdinaryKriging:
         xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
         ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
         n = self.X_ADJUSTED.shape[0]
+        if n_closest_points is not None and n_closest_points > n:
+            raise ValueError(
+                "n_closest_points cannot exceed the number of data points!"
+            )
         nx = xpts.size
         ny = ypts.size
         a = self._get_kriging_matrix(n)
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 417c82c..3ebddf5 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -834,6 +834,10 @@ class OrdinaryKriging3D:
         ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
         zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
         n = self.X_ADJUSTED.shape[0]
+        if n_closest_points is not None and n_closest_points > n:
+            raise ValueError(
+                "n_closest_points cannot exceed the number of data points!"
+            )
         nx = xpts.size
         ny = ypts.size
         nz = zpts.size
-- 
2.43.0


From 59504d0ed482fffb497e3d89fd50b0cd90a4d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 06/21] fix: read the whole coordinate system name from zmap
 files

A name with a colon ("EPSG:4326") was cut at it and the blank written
after the label was returned as part of the name.
---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 496dad8..490d69f 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -400,9 +400,9 @@ def read_zmap_grid(filename):
         while True:
             line = f.readline()
             if line.startswith("!"):
-                line_strings = line.split(":")
+                line_strings = line.split(":", 1)
                 if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
-                    coord_sys = line_strings[1].replace("\n", "")
+                    coord_sys = line_strings[1].strip()
             else:
                 line_strings = line.split()
                 line_strings = [string.replace(",", "") for string in line_strings]
-- 
2.43.0


From 6d64fb27bf599dbb5b3f0e3088ae77cef5872329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 07/21] fix: always return nx and ny coordinates from
 read_zmap_grid

np.arange() with a rounded upper limit can return one entry too many.
---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 490d69f..65069b2 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -451,8 +451,8 @@ def read_zmap_grid(filename):
     dx = (maxx - originx) / (nx - 1)
     dy = (maxy - originy) / (ny - 1)
 
-    gridx = np.arange(originx, originx + nx * dx, dx)
-    gridy = np.arange(originy, originy + ny * dy, dy)
+    gridx = np.linspace(originx, maxx, nx)
+    gridy = np.linspace(originy, maxy, ny)
 
     cellsize = (dx, dy)
 
-- 
2.43.0


From 1e30e1c884b2cd08b73dddd8a42220631f1f958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 08/21] fix: separate wide cell values in asc grids

A value of 16 or more characters ran into the next one, so the file could
not be read back.
---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 65069b2..909fb42 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -122,7 +122,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
-                f.write("{:<16.2f}".format(z[m, n]))
+                f.write("{:<15.2f} ".format(z[m, n]))
             if m != 0:
                 f.write("\n")
 
-- 
2.43.0


From 13fec823a798a89108a4589242271238fa8e3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 09/21] fix: write the georeference of asc grids with full
 precision

Origin and spacing were rounded to two decimals, which moved fine grids
(e.g. degrees with a spacing of 0.004) to other places or collapsed them.
---
 src/pykrige/kriging_tools.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 909fb42..37fb29f 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -105,17 +105,17 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         if style == 1:
             f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
             f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
-            f.write("XLLCENTER      " + "{:<10.2f}".format(xllcenter) + "\n")
-            f.write("YLLCENTER      " + "{:<10.2f}".format(yllcenter) + "\n")
-            f.write("DX             " + "{:<10.2f}".format(dx) + "\n")
-            f.write("DY             " + "{:<10.2f}".format(dy) + "\n")
+            f.write("XLLCENTER      " + "{:<10}".format(float(xllcenter)) + "\n")
+            f.write("YLLCENTER      " + "{:<10}".format(float(yllcenter)) + "\n")
+            f.write("DX             " + "{:<10}".format(float(dx)) + "\n")
+            f.write("DY             " + "{:<10}".format(float(dy)) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         elif style == 2:
             f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
             f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
-            f.write("XLLCORNER      " + "{:<10.2f}".format(xllcorner) + "\n")
-            f.write("YLLCORNER      " + "{:<10.2f}".format(yllcorner) + "\n")
-            f.write("CELLSIZE       " + "{:<10.2f}".format(cellsize) + "\n")
+            f.write("XLLCORNER      " + "{:<10}".format(float(xllcorner)) + "\n")
+            f.write("YLLCORNER      " + "{:<10}".format(float(yllcorner)) + "\n")
+            f.write("CELLSIZE       " + "{:<10}".format(float(cellsize)) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         else:
             raise ValueError("style kwarg must be either 1 or 2.")
-- 
2.43.0


From 082935622d7d68deea9009d152c8d5af6e5553de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 10/21] fix: ClassificationKriging predicts class labels

predict() returned the position of the class instead of its label, so that
score() was wrong for labels other than 0, 1, ...
---
 src/pykrige/ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index 4199c87..fcb051a 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -167,7 +167,7 @@ class ClassificationKriging:
         pred_proba_ilr = self.krige_residual(x, **kwargs) + ml_pred_ilr
         pred_proba = inverse_ilr_transformation(pred_proba_ilr)
 
-        return np.argmax(pred_proba, axis=1)
+        return np.asarray(self.classes_)[np.argmax(pred_proba, axis=1)]
 
     def krige_residual(self, x, **kwargs):
         """
-- 
2.43.0


From 8cb6ce590841e0d1c9b692017774a314384fafc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 11/21] fix: reject masks that are not two-dimensional

---
 src/pykrige/ok.py | 2 ++
 src/pykrige/uk.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index ddc751a..dc00056 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -856,6 +856,8 @@ class OrdinaryKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                if mask.ndim != 2:
+                    raise ValueError("Mask is not two-dimensional.")
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 1585ba2..6032a95 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1197,6 +1197,8 @@ class UniversalKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                if mask.ndim != 2:
+                    raise ValueError("Mask is not two-dimensional.")
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
-- 
2.43.0


From 272519cfe2f77c61134adcdb96dbf9db22e4940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 12/21] fix: euclid3_to_great_circle accepts scalars and leaves
 its input alone

---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 28fc8da..c132038 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -113,7 +113,7 @@ def euclid3_to_great_circle(euclid3_distance):
         The corresponding great circle distance(s) between the points.
     """
     # Eliminate some possible numerical errors:
-    euclid3_distance[euclid3_distance > 2.0] = 2.0
+    euclid3_distance = np.minimum(euclid3_distance, 2.0)
     return 180.0 - 360.0 / np.pi * np.arccos(0.5 * euclid3_distance)
 
 
-- 
2.43.0


From ebfd2658e1615f36eaea43d95a8b505ef09cd886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 13/21] fix: spherical variogram of integer distances is not
 truncated

---
 src/pykrige/variogram_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pykrige/variogram_models.py b/src/pykrige/variogram_models.py
index a056bdf..7e5f8f2 100755
--- a/src/pykrige/variogram_models.py
+++ b/src/pykrige/variogram_models.py
@@ -58,6 +58,7 @@ def spherical_variogram_model(m, d):
     psill = float(m[0])
     range_ = float(m[1])
     nugget = float(m[2])
+    d = np.asarray(d, dtype=float)  # np.piecewise returns the type of its input
     return np.piecewise(
         d,
         [d <= range_, d > range_],
-- 
2.43.0


From 3ee14fb157ac41962727d346efcb1ed2a4a62362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 14/21] fix: C backend refuses custom variograms named like
 built-in ones

---
 src/pykrige/ok.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index dc00056..13d7127 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -919,6 +919,14 @@ class OrdinaryKriging:
             except:
                 raise RuntimeError("Unknown error in trying to load Cython extension.")
 
+            # The extension selects its variogram models by function name.
+            if backend == "C" and not any(
+                self.variogram_function is f for f in self.variogram_dict.values()
+            ):
+                raise NotImplementedError(
+                    "Backend 'C' does not support custom variogram functions."
+                )
+
             c_pars = {
                 key: getattr(self, key)
                 for key in [
-- 
2.43.0


From ee5d64b8a8443ef3d3939872839b7015b0b40adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:36 +0000
Subject: [PATCH 15/21] fix: Q1 and Q2 are means over the residuals

The n - 1 residuals of n data points were divided by n - 2, unlike in [1]
and in cR; two data points gave a division by zero.
---
 src/pykrige/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index c132038..910b62a 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -838,12 +838,12 @@ def _find_statistics(
 
 def calcQ1(epsilon):
     """Returns the Q1 statistic for the variogram fit (see [1])."""
-    return abs(np.sum(epsilon) / (epsilon.shape[0] - 1))
+    return abs(np.sum(epsilon) / epsilon.shape[0])
 
 
 def calcQ2(epsilon):
     """Returns the Q2 statistic for the variogram fit (see [1])."""
-    return np.sum(epsilon**2) / (epsilon.shape[0] - 1)
+    return np.sum(epsilon**2) / epsilon.shape[0]
 
 
 def calc_cR(Q2, sigma):
-- 
2.43.0


From 21ec0cec8c8ca53cb2626329ac3e7b4cfa99fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 16/21] fix: accept any array-like for external and specified
 drift arrays

The parameters are documented as array-like, but lists and tuples raised
AttributeError because .shape and .ndim were used directly.
---
 src/pykrige/uk.py   | 4 ++++
 src/pykrige/uk3d.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 6032a95..bb0e6d2 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -414,6 +414,9 @@ class UniversalKriging:
             if external_drift_x is None or external_drift_y is None:
                 raise ValueError("Must specify coordinates of external Z drift terms.")
             self.external_Z_drift = True
+            external_drift = np.asarray(external_drift)
+            external_drift_x = np.asarray(external_drift_x)
+            external_drift_y = np.asarray(external_drift_y)
             if (
                 external_drift.shape[0] != external_drift_y.shape[0]
                 or external_drift.shape[1] != external_drift_x.shape[0]
@@ -1238,6 +1241,7 @@ class UniversalKriging:
                     "encapsulated in a list."
                 )
             for spec in specified_drift_arrays:
+                spec = np.asarray(spec)
                 if style in ["grid", "masked"]:
                     if spec.ndim < 2:
                         raise ValueError(
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index d25b2ca..90864d8 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -1046,6 +1046,7 @@ class UniversalKriging3D:
                     "be encapsulated in a list."
                 )
             for spec in specified_drift_arrays:
+                spec = np.asarray(spec)
                 if style in ["grid", "masked"]:
                     if spec.ndim < 3:
                         raise ValueError(
-- 
2.43.0


From 0e3aced57ce5a8285f67dcf3cc44ac9a19b647ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 17/21] fix: refuse grids with uneven spacing anywhere when
 writing grid files

Only the first spacing was compared with the mean one, so that grids like
0, 1, 1.5, 3 were written, and read back at other coordinates.
---
 src/pykrige/kriging_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 37fb29f..e059a84 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -75,8 +75,8 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    if not np.allclose(np.diff(x), x[1] - x[0]) or not np.allclose(
+        np.diff(y), y[1] - y[0]
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
@@ -289,8 +289,8 @@ def write_zmap_grid(
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
 
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    if not np.allclose(np.diff(x), x[1] - x[0]) or not np.allclose(
+        np.diff(y), y[1] - y[0]
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
-- 
2.43.0


From d941334b9cac1be702e8f76c53d18ff0463600de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 18/21] fix: use the pseudo-inverse in moving windows when
 asked for

With pseudo_inv=True and n_closest_points the option was ignored: redundant
points in a window raised a singular-matrix error instead of being averaged.
---
 src/pykrige/lib/cok.pyx | 30 ++++++++++++++++++++----------
 src/pykrige/ok.py       |  6 +++++-
 src/pykrige/ok3d.py     |  6 +++++-
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index 9a350e1..20eba74 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -162,16 +162,26 @@ cpdef _c_exec_loop_moving_window(
         # a2D = a_selection.base[:nb*nb].reshape((nb, nb))
         # x = scipy.linalg.solve(a2D, b.base[:nb])
 
-        dgesv(
-                &nb,
-                &nrhs,
-                &(a_selection[0]),
-                &nb,
-                &(ipiv[0]),
-                &(x[0]),
-                &nb,
-                &info
-                )
+        if pars['pseudo_inv']:
+            # redundant points in the window are averaged
+            a2D = a_selection.base[:nb*nb].reshape((nb, nb))
+            if pars['pseudo_inv_type'] == "pinvh":
+                a2D = scipy.linalg.pinvh(a2D)
+            else:
+                a2D = scipy.linalg.pinv(a2D)
+            x.base[:nb] = np.dot(a2D, b.base[:nb])
+            info = 0
+        else:
+            dgesv(
+                    &nb,
+                    &nrhs,
+                    &(a_selection[0]),
+                    &nb,
+                    &(ipiv[0]),
+                    &(x[0]),
+                    &nb,
+                    &info
+                    )
 
         if info > 0:
             raise ValueError('Singular matrix')
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 13d7127..9f18da9 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -750,7 +750,11 @@ class OrdinaryKriging:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            # use the desired method to solve the kriging system
+            if self.pseudo_inv:
+                x = np.matmul(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 3ebddf5..1353102 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -725,7 +725,11 @@ class OrdinaryKriging3D:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            # use the desired method to solve the kriging system
+            if self.pseudo_inv:
+                x = np.matmul(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             kvalues[i] = x[:n, 0].dot(self.VALUES[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
-- 
2.43.0


From 5cb34fd1405009f18c881d79f428c8fcafb18b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:47 +0000
Subject: [PATCH 19/21] fix: reject GSTools models of more dimensions than the
 kriging class

Models with field_dim 4 (or more) passed the dimension checks.
---
 src/pykrige/ok.py   | 4 ++--
 src/pykrige/ok3d.py | 4 ++--
 src/pykrige/uk.py   | 4 ++--
 src/pykrige/uk3d.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 9f18da9..c188e15 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -225,7 +225,7 @@ class OrdinaryKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim not in (1, 2):
                 raise ValueError("GSTools: model dim is not 1 or 2")
             # check if coordinate types match
             if self.model.latlon and (self.coordinates_type == "euclidean"):
@@ -431,7 +431,7 @@ class OrdinaryKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim not in (1, 2):
                 raise ValueError("GSTools: model dim is not 1 or 2")
             # check if coordinate types match
             if self.model.latlon and (self.coordinates_type == "euclidean"):
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 1353102..a7549c7 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -236,7 +236,7 @@ class OrdinaryKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
@@ -433,7 +433,7 @@ class OrdinaryKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index bb0e6d2..1a68b00 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -269,7 +269,7 @@ class UniversalKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim not in (1, 2):
                 raise ValueError("GSTools: model dim is not 1 or 2")
             if self.model.latlon:
                 raise ValueError(
@@ -687,7 +687,7 @@ class UniversalKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim not in (1, 2):
                 raise ValueError("GSTools: model dim is not 1 or 2")
             if self.model.latlon:
                 raise ValueError(
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 90864d8..93edc10 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -264,7 +264,7 @@ class UniversalKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
@@ -518,7 +518,7 @@ class UniversalKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
-- 
2.43.0


From 2c36454866092a4cc37d8c1b4d8dd4d8afcb5acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:47 +0000
Subject: [PATCH 20/21] fix: reject geographic GSTools models in 3D kriging

A latlon model with time has field_dim 3; its coordinates were taken as
euclidean.
---
 src/pykrige/ok3d.py | 8 ++++++++
 src/pykrige/uk3d.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index a7549c7..53078bc 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -238,6 +238,10 @@ class OrdinaryKriging3D:
             validate_gstools(self.model)
             if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError(
+                    "GSTools: latlon models not supported for 3D ordinary kriging"
+                )
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
@@ -435,6 +439,10 @@ class OrdinaryKriging3D:
             validate_gstools(self.model)
             if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError(
+                    "GSTools: latlon models not supported for 3D ordinary kriging"
+                )
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 93edc10..5681e53 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -266,6 +266,10 @@ class UniversalKriging3D:
             validate_gstools(self.model)
             if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError(
+                    "GSTools: latlon models not supported for 3D universal kriging"
+                )
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
@@ -520,6 +524,10 @@ class UniversalKriging3D:
             validate_gstools(self.model)
             if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError(
+                    "GSTools: latlon models not supported for 3D universal kriging"
+                )
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
-- 
2.43.0


From 9b44f651787c15ebaa8e05b88fbc9c568ef6b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:33 +0000
Subject: [PATCH 21/21] fix: accept whole-number variogram parameters in the C
 backend

Parameters given as integers only raised a buffer dtype error.
---
 src/pykrige/lib/cok.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index 20eba74..13248c3 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -36,7 +36,7 @@ cpdef _c_exec_loop(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'], dtype='float64')
 
     cdef double [::1, :] a_inv = np.asfortranarray(np.empty_like(a_all))
 
@@ -125,7 +125,7 @@ cpdef _c_exec_loop_moving_window(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'], dtype='float64')
 
     for i in range(npt):
         if mask[i]:
-- 
2.43.0

