From aacd446a272949ba99985452335ceaeafaa7b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 01/32] fix: measure tesseroid dimensions along arcs, so that
 wide and tiny tesseroids are discretized

The great circle distance between the west and east boundaries of tesseroids
wider than 180 degrees shrinks (to zero for a full turn, raising a
ZeroDivisionError), so they were not discretized and their fields were wrong.
The arccosine also rounded to zero for very small tesseroids near the poles.
---
 src/harmonica/_forward/_tesseroid_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/harmonica/_forward/_tesseroid_utils.py b/src/harmonica/_forward/_tesseroid_utils.py
index 073fa05..8c8df11 100644
--- a/src/harmonica/_forward/_tesseroid_utils.py
+++ b/src/harmonica/_forward/_tesseroid_utils.py
@@ -267,10 +267,12 @@ def _tesseroid_dimensions(tesseroid):
     w, e, s, n, bottom, top = tesseroid[:]
     w, e, s, n = np.radians(w), np.radians(e), np.radians(s), np.radians(n)
     latitude_center = (n + s) / 2
-    l_lat = top * np.arccos(np.sin(n) * np.sin(s) + np.cos(n) * np.cos(s))
-    l_lon = top * np.arccos(
-        np.sin(latitude_center) ** 2 + np.cos(latitude_center) ** 2 * np.cos(e - w)
-    )
+    # Use the length of the arcs along the meridian and the central parallel.
+    # The great circle distance between the west and east boundaries gets
+    # shorter for tesseroids wider than 180 degrees (up to zero for a full
+    # turn), and its arccosine rounds to zero for very small tesseroids.
+    l_lat = top * (n - s)
+    l_lon = top * np.cos(latitude_center) * (e - w)
     l_rad = top - bottom
     return l_lon, l_lat, l_rad
 
-- 
2.43.0


From 7289cec5eb878a235700f2dd79fcc79fc89c0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 02/32] fix: discard zero-volume tesseroids also when the
 density is a function

They raised a ZeroDivisionError during the adaptive discretization, while
they are ignored for constant densities.
---
 src/harmonica/_forward/_tesseroid_variable_density.py | 3 ++-
 src/harmonica/_forward/tesseroid_gravity.py           | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/_tesseroid_variable_density.py b/src/harmonica/_forward/_tesseroid_variable_density.py
index e91844e..c75066e 100644
--- a/src/harmonica/_forward/_tesseroid_variable_density.py
+++ b/src/harmonica/_forward/_tesseroid_variable_density.py
@@ -142,7 +142,8 @@ def density_based_discretization(tesseroids, density):
     discretized_tesseroids = []
     for tesseroid in tesseroids:
         discretized_tesseroids.extend(_density_based_discretization(tesseroid, density))
-    return np.atleast_2d(discretized_tesseroids)
+    # Reshape to keep a 2d-array in case there are no tesseroids
+    return np.array(discretized_tesseroids, dtype=np.float64).reshape(-1, 6)
 
 
 def _density_based_discretization(tesseroid, density):
diff --git a/src/harmonica/_forward/tesseroid_gravity.py b/src/harmonica/_forward/tesseroid_gravity.py
index 66acebb..91dd81a 100644
--- a/src/harmonica/_forward/tesseroid_gravity.py
+++ b/src/harmonica/_forward/tesseroid_gravity.py
@@ -175,6 +175,10 @@ def tesseroid_gravity(
         check_points_outside_tesseroids(coordinates, tesseroids)
     # Check if density is a function or constant values
     if callable(density):
+        # Discard tesseroids with zero volume
+        tesseroids, _ = _discard_null_tesseroids(
+            tesseroids, np.ones(tesseroids.shape[0])
+        )
         # Run density-based discretization on each tesseroid
         tesseroids = density_based_discretization(tesseroids, density)
     else:
-- 
2.43.0


From 8e1335217cbccc5b62fb1f51e6a0dec3719f767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 03/32] fix: check the size of every component of the magnetic
 moments and magnetizations

---
 src/harmonica/_forward/dipole.py          | 13 +++++++------
 src/harmonica/_forward/prisms/magnetic.py | 11 ++++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/harmonica/_forward/dipole.py b/src/harmonica/_forward/dipole.py
index 8925450..de9129f 100644
--- a/src/harmonica/_forward/dipole.py
+++ b/src/harmonica/_forward/dipole.py
@@ -281,12 +281,13 @@ def _check_dipoles_and_magnetic_moments(dipoles, magnetic_moments):
             " Magnetic moments vectors should have 3 components."
         )
         raise ValueError(msg)
-    if magnetic_moments[0].size != dipoles[0].size:
-        msg = (
-            f"Number of elements in magnetic_moments ({magnetic_moments[0].size})"
-            f" mismatch the number of dipoles ({dipoles[0].size})."
-        )
-        raise ValueError(msg)
+    for component in magnetic_moments:
+        if component.size != dipoles[0].size:
+            msg = (
+                f"Number of elements in magnetic_moments ({component.size})"
+                f" mismatch the number of dipoles ({dipoles[0].size})."
+            )
+            raise ValueError(msg)
 
 
 def _jit_dipole_magnetic_field_cartesian(
diff --git a/src/harmonica/_forward/prisms/magnetic.py b/src/harmonica/_forward/prisms/magnetic.py
index 43fc5e3..4c513f0 100644
--- a/src/harmonica/_forward/prisms/magnetic.py
+++ b/src/harmonica/_forward/prisms/magnetic.py
@@ -449,11 +449,12 @@ def _run_sanity_checks(prisms, magnetization):
             f"Invalid magnetization vectors with '{size}' elements. "
             + "Magnetization vectors should have only 3 elements."
         )
-    if magnetization[0].size != prisms.shape[0]:
-        raise ValueError(
-            f"Number of magnetization vectors ({magnetization[0].size}) "
-            + f"mismatch the number of prisms ({prisms.shape[0]})"
-        )
+    for component in magnetization:
+        if component.size != prisms.shape[0]:
+            raise ValueError(
+                f"Number of magnetization vectors ({component.size}) "
+                + f"mismatch the number of prisms ({prisms.shape[0]})"
+            )
     check_prisms(prisms)
 
 
-- 
2.43.0


From bc6fe8283c3fa5e6d38812b737cbf202befaae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 04/32] fix: detect computation points on the longitudinal seam
 inside full-turn tesseroids

---
 src/harmonica/_forward/_tesseroid_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_forward/_tesseroid_utils.py b/src/harmonica/_forward/_tesseroid_utils.py
index 8c8df11..db4ff83 100644
--- a/src/harmonica/_forward/_tesseroid_utils.py
+++ b/src/harmonica/_forward/_tesseroid_utils.py
@@ -461,12 +461,17 @@ def _check_points_outside_tesseroids(coordinates, tesseroids):
         for j in range(tesseroids.shape[0]):
             # Longitudinal boundaries of the tesseroid must be compared with
             # longitudinal coordinates of computation points when moved to
-            # [0, 360) and [-180, 180).
+            # [0, 360) and [-180, 180). Tesseroids that span a whole turn
+            # contain every longitude.
             longitude_360 = longitude[i] % 360
             longitude_180 = ((longitude[i] + 180) % 360) - 180
             west, east, south, north, bottom, top = tesseroids[j, :]
             if (
-                (west < longitude_180 < east or west < longitude_360 < east)
+                (
+                    west < longitude_180 < east
+                    or west < longitude_360 < east
+                    or east - west >= 360
+                )
                 and south < latitude[i] < north
                 and bottom < radius[i] < top
             ):
-- 
2.43.0


From 8e8005daff319781cbfc2a192fb0dcdd8fd6f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 05/32] fix: broadcast the coordinates of the observation
 points in forward models

---
 src/harmonica/_forward/dipole.py              | 4 +++-
 src/harmonica/_forward/ellipsoids/gravity.py  | 4 +++-
 src/harmonica/_forward/ellipsoids/magnetic.py | 4 +++-
 src/harmonica/_forward/point.py               | 4 +++-
 src/harmonica/_forward/prisms/gravity.py      | 4 +++-
 src/harmonica/_forward/prisms/layer.py        | 4 +++-
 src/harmonica/_forward/prisms/magnetic.py     | 4 +++-
 src/harmonica/_forward/tesseroid_gravity.py   | 4 +++-
 8 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/harmonica/_forward/dipole.py b/src/harmonica/_forward/dipole.py
index de9129f..bb250c2 100644
--- a/src/harmonica/_forward/dipole.py
+++ b/src/harmonica/_forward/dipole.py
@@ -105,7 +105,9 @@ def dipole_magnetic(
     # Figure out the shape and size of the output array(s)
     cast = np.broadcast(*coordinates[:3])
     # Convert coordinates, dipoles and magnetic moments to arrays
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     dipoles = tuple(np.atleast_1d(i).ravel() for i in dipoles[:3])
     magnetic_moments = tuple(np.atleast_1d(m).ravel() for m in magnetic_moments)
     # Sanity checks
diff --git a/src/harmonica/_forward/ellipsoids/gravity.py b/src/harmonica/_forward/ellipsoids/gravity.py
index b3baaa9..577b345 100644
--- a/src/harmonica/_forward/ellipsoids/gravity.py
+++ b/src/harmonica/_forward/ellipsoids/gravity.py
@@ -76,7 +76,9 @@ def ellipsoid_gravity(
     cast = np.broadcast(*coordinates)
 
     # Ravel coordinates into 1d arrays
-    easting, northing, upward = tuple(np.atleast_1d(c).ravel() for c in coordinates)
+    easting, northing, upward = tuple(
+        np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates)
+    )
 
     # Allocate arrays
     ge, gn, gu = tuple(np.zeros(easting.size) for _ in range(3))
diff --git a/src/harmonica/_forward/ellipsoids/magnetic.py b/src/harmonica/_forward/ellipsoids/magnetic.py
index 9096ee9..1aeee83 100644
--- a/src/harmonica/_forward/ellipsoids/magnetic.py
+++ b/src/harmonica/_forward/ellipsoids/magnetic.py
@@ -78,7 +78,9 @@ def ellipsoid_magnetic(
 
     # Flatten coordinates
     cast = np.broadcast(*coordinates)
-    easting, northing, upward = tuple(np.atleast_1d(c).ravel() for c in coordinates)
+    easting, northing, upward = tuple(
+        np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates)
+    )
 
     # Allocate output arrays
     be, bn, bu = tuple(np.zeros_like(easting, dtype=np.float64) for _ in range(3))
diff --git a/src/harmonica/_forward/point.py b/src/harmonica/_forward/point.py
index 619e11b..54b8d11 100644
--- a/src/harmonica/_forward/point.py
+++ b/src/harmonica/_forward/point.py
@@ -235,7 +235,9 @@ def point_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Prepare arrays to be passed to the jitted functions
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     points = tuple(np.atleast_1d(i).ravel() for i in points[:3])
     masses = np.atleast_1d(masses).ravel()
     # Sanity checks
diff --git a/src/harmonica/_forward/prisms/gravity.py b/src/harmonica/_forward/prisms/gravity.py
index ee64393..7efb54e 100644
--- a/src/harmonica/_forward/prisms/gravity.py
+++ b/src/harmonica/_forward/prisms/gravity.py
@@ -200,7 +200,9 @@ def prism_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Convert coordinates, prisms and density to arrays with proper shape
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     prisms = np.atleast_2d(prisms)
     density = np.atleast_1d(density).ravel()
     # Sanity checks
diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 62ad43b..0aca3a3 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -383,7 +383,9 @@ class DatasetAccessorPrismLayer:
 
         # Ravel coordinates to 1D
         cast = np.broadcast(*coordinates[:3])
-        coordinates = tuple(np.atleast_1d(c).ravel() for c in coordinates[:3])
+        coordinates = tuple(
+            np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates[:3])
+        )
 
         # Determine parallel or serial forward modelling function
         numba_function = (
diff --git a/src/harmonica/_forward/prisms/magnetic.py b/src/harmonica/_forward/prisms/magnetic.py
index 4c513f0..23c49ae 100644
--- a/src/harmonica/_forward/prisms/magnetic.py
+++ b/src/harmonica/_forward/prisms/magnetic.py
@@ -108,7 +108,9 @@ def prism_magnetic(
     # Figure out the shape and size of the output array(s)
     cast = np.broadcast(*coordinates[:3])
     # Convert coordinates, prisms and magnetization to arrays with proper shape
-    coordinates = tuple(np.atleast_1d(c).ravel() for c in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates[:3])
+    )
     prisms = np.atleast_2d(prisms)
     magnetization = tuple(np.atleast_1d(m).ravel() for m in magnetization)
     # Sanity checks
diff --git a/src/harmonica/_forward/tesseroid_gravity.py b/src/harmonica/_forward/tesseroid_gravity.py
index 91dd81a..8dbf057 100644
--- a/src/harmonica/_forward/tesseroid_gravity.py
+++ b/src/harmonica/_forward/tesseroid_gravity.py
@@ -167,7 +167,9 @@ def tesseroid_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Convert coordinates, tesseroids and density to arrays
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     tesseroids = np.atleast_2d(tesseroids)
     # Sanity checks for tesseroids and computation points
     if not disable_checks:
-- 
2.43.0


From 3c99f67e9fda3ac28505540606772c1c47ac5554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 06/32] fix: support descending coordinates in layers of prisms
 and tesseroids

---
 src/harmonica/_forward/prisms/layer.py    | 9 ++++++---
 src/harmonica/_forward/tesseroid_layer.py | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 0aca3a3..79deee2 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -196,7 +196,9 @@ class DatasetAccessorPrismLayer:
         """
         easting, northing = self._obj.easting.values, self._obj.northing.values
         _check_regular_grid(easting, northing)
-        s_north, s_east = northing[1] - northing[0], easting[1] - easting[0]
+        # The coordinates might be in descending order
+        s_north = abs(northing[1] - northing[0])
+        s_east = abs(easting[1] - easting[0])
         return s_north, s_east
 
     @property
@@ -583,8 +585,9 @@ def _forward_gravity_prism_layer(
     """
     easting, northing, upward = coordinates
     n_coords = easting.size
-    half_spacing_east = (prisms_easting[1] - prisms_easting[0]) / 2
-    half_spacing_north = (prisms_northing[1] - prisms_northing[0]) / 2
+    # The coordinates might be in descending order
+    half_spacing_east = abs(prisms_easting[1] - prisms_easting[0]) / 2
+    half_spacing_north = abs(prisms_northing[1] - prisms_northing[0]) / 2
 
     # Check if we need to update the progressbar on each iteration
     update_progressbar = progress_proxy is not None
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 5aefea7..ce21cd6 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -171,7 +171,7 @@ def _check_overlap(longitude):
     """
     Check if the prisms boundaries are overlapped.
     """
-    spacing = longitude[1] - longitude[0]
+    spacing = abs(longitude[1] - longitude[0])
     if longitude.max() - longitude.min() >= 360 - spacing:
         msg = (
             "Found invalid longitude coordinates that would create overlapping "
@@ -223,7 +223,9 @@ class DatasetAccessorTesseroidLayer:
         """
         latitude, longitude = self._obj.latitude.values, self._obj.longitude.values
         _check_regular_grid(longitude, latitude)
-        s_latitude, s_longitude = latitude[1] - latitude[0], longitude[1] - longitude[0]
+        # The coordinates might be in descending order
+        s_latitude = abs(latitude[1] - latitude[0])
+        s_longitude = abs(longitude[1] - longitude[0])
         return s_latitude, s_longitude
 
     @property
-- 
2.43.0


From 9d05d85d3c9f1cd07401b815d5d560608b8985ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 07/32] fix: avoid truncating the boundaries of layers when
 surface or reference are integers

---
 src/harmonica/_forward/prisms/layer.py    | 6 ++++--
 src/harmonica/_forward/tesseroid_layer.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 79deee2..85d7ac9 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -305,8 +305,10 @@ class DatasetAccessorPrismLayer:
                 )
         else:
             reference = reference * np.ones(self.shape)
-        top = surface.copy()
-        bottom = reference.copy()
+        # Both boundaries should be able to store values of surface and reference
+        dtype = np.result_type(surface, reference)
+        top = surface.astype(dtype)
+        bottom = reference.astype(dtype)
         reverse = surface < reference
         top[reverse] = reference[reverse]
         bottom[reverse] = surface[reverse]
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index ce21cd6..cb56e0c 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -313,8 +313,10 @@ class DatasetAccessorTesseroidLayer:
                 )
         else:
             reference = reference * np.ones(self.shape)
-        top = surface.copy()
-        bottom = reference.copy()
+        # Both boundaries should be able to store values of surface and reference
+        dtype = np.result_type(surface, reference)
+        top = surface.astype(dtype)
+        bottom = reference.astype(dtype)
         reverse = surface < reference
         top[reverse] = reference[reverse]
         bottom[reverse] = surface[reverse]
-- 
2.43.0


From ef771ec182371c2eacbf56fda50174e277012739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 08/32] fix: ignore prisms with zero volume in the gravity of
 layers of prisms

---
 src/harmonica/_forward/prisms/layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 85d7ac9..3f1215c 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -604,9 +604,9 @@ def _forward_gravity_prism_layer(
                 if density == 0.0 or np.isnan(density):
                     continue
 
-                # Ignore thin prisms
+                # Ignore thin prisms and the ones with zero volume
                 bottom, top = prisms_bottom[k, j], prisms_top[k, j]
-                if top - bottom < thickness_threshold:
+                if top == bottom or top - bottom < thickness_threshold:
                     continue
 
                 # Ignore prisms with nan top or bottom
-- 
2.43.0


From 2a1563d03044c24ae1b15c17196386d046385cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 09/32] fix: allow layers of tesseroids that span exactly a
 whole turn

---
 src/harmonica/_forward/tesseroid_layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index cb56e0c..6c5358d 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -172,7 +172,9 @@ def _check_overlap(longitude):
     Check if the prisms boundaries are overlapped.
     """
     spacing = abs(longitude[1] - longitude[0])
-    if longitude.max() - longitude.min() >= 360 - spacing:
+    longitude_span = longitude.max() - longitude.min() + spacing
+    # A layer that spans a whole turn doesn't have overlapping tesseroids
+    if longitude_span > 360 and not np.isclose(longitude_span, 360, rtol=1e-10):
         msg = (
             "Found invalid longitude coordinates that would create overlapping "
             "tesseroids around the globe."
-- 
2.43.0


From 8e82a9ecdce932b96e655b527c3009e5a50732e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 10/32] fix: correct demagnetization of ellipsoids with
 anisotropic susceptibility

---
 src/harmonica/_forward/ellipsoids/magnetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/ellipsoids/magnetic.py b/src/harmonica/_forward/ellipsoids/magnetic.py
index 1aeee83..3b5fbca 100644
--- a/src/harmonica/_forward/ellipsoids/magnetic.py
+++ b/src/harmonica/_forward/ellipsoids/magnetic.py
@@ -287,7 +287,7 @@ def get_magnetisation(
     if n_tensor is None:
         n_tensor = get_demagnetization_tensor_internal(a, b, c)
     eye = np.identity(3)
-    lhs = eye + n_tensor @ susceptibility
+    lhs = eye + susceptibility @ n_tensor
     rhs = remnant_mag + susceptibility @ h0_field
     m = np.linalg.solve(lhs, rhs)
     return m
-- 
2.43.0


From 32df7c64aebb9484bd9e29aed474c64e308ecc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 11/32] fix: evaluate the elliptic integrals of almost
 spherical prolate ellipsoids accurately

---
 src/harmonica/_forward/ellipsoids/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/ellipsoids/utils.py b/src/harmonica/_forward/ellipsoids/utils.py
index 0f38a4f..0633f21 100644
--- a/src/harmonica/_forward/ellipsoids/utils.py
+++ b/src/harmonica/_forward/ellipsoids/utils.py
@@ -565,7 +565,8 @@ def _get_elliptical_integrals_prolate(a, b, lambda_):
     sqrt_e = np.sqrt(e2)
     sqrt_l1 = np.sqrt(a**2 + lambda_)
     sqrt_l2 = np.sqrt(b**2 + lambda_)
-    log = np.log((sqrt_e + sqrt_l1) / sqrt_l2)
+    # Equal to log((sqrt_e + sqrt_l1) / sqrt_l2), but accurate if sqrt_e << sqrt_l2
+    log = np.arcsinh(sqrt_e / sqrt_l2)
 
     g1 = (2 / (sqrt_e**3)) * (log - sqrt_e / sqrt_l1)
     g2 = (1 / (sqrt_e**3)) * ((sqrt_e * sqrt_l1) / (b**2 + lambda_) - log)
-- 
2.43.0


From 8d92fc37fcd43222ed0d93ae4060b8aa4ec01cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 12/32] fix: leave the pad_kwargs passed to grid
 transformations unchanged

---
 src/harmonica/filters/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index 5971e45..3bec8cd 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -71,8 +71,8 @@ def apply_filter(
     """
     if filter_kwargs is None:
         filter_kwargs = {}
-    if pad_kwargs is None:
-        pad_kwargs = {}
+    # Make a copy of pad_kwargs so we don't modify the dictionary of the caller
+    pad_kwargs = {} if pad_kwargs is None else dict(pad_kwargs)
     grid_sanity_checks(grid)
     dims = grid.dims
     # Need to remove non-dimensional coordinates before padding and FFT because
-- 
2.43.0


From d79341e112f3257829831feefdf45cfce0ac8d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 13/32] fix: pad grids with less than four rows or columns
 before transforming them

---
 src/harmonica/filters/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index 3bec8cd..8658f0e 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -84,7 +84,10 @@ def apply_filter(
         # Fedi et al. (2012; doi:10.1111/j.1365-246X.2011.05259.x) suggest
         # a padding of 100% but that seems exaggerated.
         if "pad_width" not in pad_kwargs:
-            pad_kwargs["pad_width"] = {d: int(0.25 * grid[d].size) for d in dims}
+            # Leave out dimensions with less than 4 elements because xrft can't handle
+            # paddings with zero width.
+            pad_width = {d: int(0.25 * grid[d].size) for d in dims}
+            pad_kwargs["pad_width"] = {d: w for d, w in pad_width.items() if w > 0}
         if "mode" not in pad_kwargs:
             pad_kwargs["mode"] = "edge"
         if "constant_values" not in pad_kwargs:
-- 
2.43.0


From e050b94613e85649d7845a081723b1ce7313ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 14/32] fix: keep the order of grids with decreasing
 coordinates when transforming them

---
 src/harmonica/filters/_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index 8658f0e..2f9d953 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -102,6 +102,15 @@ def apply_filter(
     # Keep only the real part since the inverse transform returns complex
     # number by default
     filtered_grid = ifft(filtered_fft_grid).real
+    # The inverse transform returns a grid with increasing coordinates. Restore the
+    # order of the dimensions that have decreasing coordinates in the original grid.
+    filtered_grid = filtered_grid.isel(
+        {
+            dim: slice(None, None, -1)
+            for dim in dims
+            if grid[dim].values[0] > grid[dim].values[-1]
+        }
+    )
     if pad:
         filtered_grid = xrft.unpad(filtered_grid, pad_kwargs["pad_width"])
     # Restore the original coordinates to the grid because the inverse
-- 
2.43.0


From dbf5eb3273e83d5f5a93a7881575cf26bdf1491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 15/32] fix: use the field direction as default magnetization
 direction in reduction to the pole

---
 src/harmonica/_transformations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/harmonica/_transformations.py b/src/harmonica/_transformations.py
index 0e16cb6..fe3fae3 100644
--- a/src/harmonica/_transformations.py
+++ b/src/harmonica/_transformations.py
@@ -447,6 +447,11 @@ def reduction_to_pole(
     --------
     harmonica.filters.reduction_to_pole_kernel
     """
+    # Neglect remanence and self demagnetization by default
+    if magnetization_inclination is None:
+        magnetization_inclination = inclination
+    if magnetization_declination is None:
+        magnetization_declination = declination
     return apply_filter(
         grid,
         reduction_to_pole_kernel,
-- 
2.43.0


From d0e66e08a80479fe885af149e7b108781ec3c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 16/32] fix: support layers with integer thicknesses in
 isostatic_moho_airy

---
 src/harmonica/_isostasy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_isostasy.py b/src/harmonica/_isostasy.py
index 9538b96..d11352d 100644
--- a/src/harmonica/_isostasy.py
+++ b/src/harmonica/_isostasy.py
@@ -138,9 +138,12 @@ def isostatic_moho_airy(
     # Compute equivalent topography for the layers (if any)
     layers_equivalent_topography = 0
     if layers is not None:
+        # Avoid in-place operations and products of integers: they fail or overflow if
+        # thicknesses are integers, and fail if they need to be broadcasted.
         for thickness, density in layers.values():
-            layers_equivalent_topography += thickness * density
-        layers_equivalent_topography /= density_crust
+            layers_equivalent_topography = (
+                layers_equivalent_topography + thickness * (density / density_crust)
+            )
 
     # Calculate rock equivalent topography
     rock_equivalent_topography = basement + layers_equivalent_topography
-- 
2.43.0


From d9cedddd0cc5353796b54c9fea635616cf197c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 17/32] fix: avoid overflows of integer components in
 magnetic_vec_to_angles

---
 src/harmonica/_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/harmonica/_utils.py b/src/harmonica/_utils.py
index 7e8fe0a..85412b3 100644
--- a/src/harmonica/_utils.py
+++ b/src/harmonica/_utils.py
@@ -144,10 +144,11 @@ def magnetic_vec_to_angles(magnetic_e, magnetic_n, magnetic_u, degrees=True):
     >>> print(intensity, inc, dec)
     3.0 45.0 45.0
     """
-    # Compute the intensity as a norm
-    intensity = np.sqrt(magnetic_e**2 + magnetic_n**2 + magnetic_u**2)
     # Compute the horizontal component of the magnetic vector
-    horizontal_component = np.sqrt(magnetic_e**2 + magnetic_n**2)
+    # (use hypot instead of adding squares since it doesn't overflow with integers)
+    horizontal_component = np.hypot(magnetic_e, magnetic_n)
+    # Compute the intensity as a norm
+    intensity = np.hypot(horizontal_component, magnetic_u)
     # Calculate the inclination and declination
     inclination = np.arctan2(-magnetic_u, horizontal_component)
     declination = np.arctan2(magnetic_e, magnetic_n)
-- 
2.43.0


From 24c0b3b86da2ab61c3c7eb7a686b20336bfa84ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 18/32] fix: keep the units of the columns read from ICGEM
 grids

Units of columns left out by usecols stayed in the metadata, so that units
and attributes didn't match.
---
 src/harmonica/_io/icgem_gdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/harmonica/_io/icgem_gdf.py b/src/harmonica/_io/icgem_gdf.py
index 4425d33..070444f 100644
--- a/src/harmonica/_io/icgem_gdf.py
+++ b/src/harmonica/_io/icgem_gdf.py
@@ -125,6 +125,9 @@ def _read_gdf_file(fname, **kwargs):
     # Remove column names from the metadata if they weren't read
     if kwargs.get("usecols") is not None:
         metadata["attributes"] = [metadata["attributes"][i] for i in kwargs["usecols"]]
+        metadata["attributes_units"] = [
+            metadata["attributes_units"][i] for i in kwargs["usecols"]
+        ]
     if len(metadata["attributes"]) != rawdata.shape[0]:
         msg = "Number of attributes ({}) and data columns ({}) mismatch".format(
             len(metadata["attributes"]), rawdata.shape[0]
-- 
2.43.0


From 05e6dc06e495aa90e6c2f51a4a5903eabc8f062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 19/32] fix: error for invalid sign flags in Oasis montaj grids

Reading them failed with an UnboundLocalError.
---
 src/harmonica/_io/oasis_montaj_grd.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/harmonica/_io/oasis_montaj_grd.py b/src/harmonica/_io/oasis_montaj_grd.py
index 3570874..ae3df4c 100644
--- a/src/harmonica/_io/oasis_montaj_grd.py
+++ b/src/harmonica/_io/oasis_montaj_grd.py
@@ -262,6 +262,7 @@ def _get_data_type(n_bytes_per_element, sign_flag):
     if n_bytes_per_element > 1024:
         n_bytes_per_element -= 1024
     # Determine the data type of the grid elements
+    data_type = None
     if n_bytes_per_element == 1:
         if sign_flag == 0:  # pragma: no cover
             data_type = "B"  # unsigned char
@@ -281,6 +282,13 @@ def _get_data_type(n_bytes_per_element, sign_flag):
             data_type = "f"  # float
     elif n_bytes_per_element == 8:  # pragma: no cover
         data_type = "d"
+    if data_type is None:
+        msg = (
+            f"Found a 'Sign flag' (a.k.a. 'SF') value of '{sign_flag}' that is not "
+            f"valid for a 'Grid data element size' (a.k.a. 'ES') of "
+            f"'{n_bytes_per_element}'."
+        )
+        raise NotImplementedError(msg)
     return data_type
 
 
-- 
2.43.0


From f087f4bc71d29e1f37807e42a5cc5488667d85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 20/32] fix: IGRF at a single point given by arrays

Arrays with one element raised a TypeError (or became floats with older
versions of numpy) instead of returning arrays of the same shape.
---
 src/harmonica/_spherical_harmonics/igrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 42b1331..a80a7e2 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -380,7 +380,7 @@ class IGRF14:
                 latitude, latitude_sph, (b_east, b_north_sph, b_radial)
             )
         )
-        if n_data == 1:
+        if cast.shape == ():
             b_vector = tuple(float(c) for c in b_vector)
         return b_vector
 
-- 
2.43.0


From a228eca08c47d95c84f8de23d03277624742e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 21/32] fix: IGRF grids at heights given by an array

The documented 2d-array of heights raised a ValueError.
---
 src/harmonica/_spherical_harmonics/igrf.py | 45 +++++++++++++++-------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index a80a7e2..9e37d09 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -438,13 +438,14 @@ class IGRF14:
         """
         if spacing is None and shape is None:
             spacing = calculate_ideal_spacing(self.max_degree)
-        longitude, latitude, height = bd.grid_coordinates(
+        longitude, latitude = bd.grid_coordinates(
             region,
             spacing=spacing,
             shape=shape,
             adjust=adjust,
-            non_dimensional_coords=height,
         )
+        uniform_height = np.ndim(height) == 0
+        height = np.full(longitude.shape, height, dtype=longitude.dtype)
         longitude, latitude_sph, radius = self.ellipsoid.geodetic_to_spherical(
             (longitude, latitude, height)
         )
@@ -456,18 +457,34 @@ class IGRF14:
         b_north_sph = np.zeros(shape)
         b_radial = np.zeros(shape)
         g, h = self.coefficients
-        spherical_harmonics_magnetic_field_grid(
-            longitude_radians[0, :],
-            colatitude_radians[:, 0],
-            normalized_radius,
-            g,
-            h,
-            self.min_degree,
-            self.max_degree,
-            b_east,
-            b_north_sph,
-            b_radial,
-        )
+        if uniform_height:
+            spherical_harmonics_magnetic_field_grid(
+                longitude_radians[0, :],
+                colatitude_radians[:, 0],
+                normalized_radius,
+                g,
+                h,
+                self.min_degree,
+                self.max_degree,
+                b_east,
+                b_north_sph,
+                b_radial,
+            )
+        else:
+            # The colatitude also varies along the rows of the grid if the heights do
+            # so the Legendre functions can't be reused.
+            spherical_harmonics_magnetic_field(
+                longitude_radians.ravel(),
+                colatitude_radians.ravel(),
+                normalized_radius.ravel(),
+                g,
+                h,
+                self.min_degree,
+                self.max_degree,
+                b_east.ravel(),
+                b_north_sph.ravel(),
+                b_radial.ravel(),
+            )
         b_east, b_north, b_up = vector_spherical_to_geodetic(
             latitude, latitude_sph, (b_east, b_north_sph, b_radial)
         )
-- 
2.43.0


From cf40baf95c1af7d5052cbed80fa4d671ed245b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 22/32] fix: IGRF on dates with a time zone

ISO 8601 dates with a UTC offset raised a TypeError.
---
 src/harmonica/_spherical_harmonics/igrf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 9e37d09..68ba9e1 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -112,6 +112,9 @@ def interpolate_coefficients(date, max_degree, years, g, h, g_sv, h_sv):
         assigned zero. The shape of the arrays will be ``(max_degree + 1,
         max_degree + 1)``. Units are nT.
     """
+    # Dates with a time zone can't be compared with the naive dates of the epochs
+    if date.utcoffset() is not None:
+        date = date.astimezone(datetime.timezone.utc).replace(tzinfo=None)
     if date.year < years[0] or date.year >= years[-1] + 5:
         message = (
             f"Invalid date {date} for IGRF. "
-- 
2.43.0


From da1db512158bfa1dfe0343ac256b527601ae9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 23/32] fix: Legendre functions of maximum degree 0

The normalized functions wrote outside of the output array.
---
 src/harmonica/_spherical_harmonics/legendre.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/harmonica/_spherical_harmonics/legendre.py b/src/harmonica/_spherical_harmonics/legendre.py
index d93c339..fa2e6bb 100644
--- a/src/harmonica/_spherical_harmonics/legendre.py
+++ b/src/harmonica/_spherical_harmonics/legendre.py
@@ -163,6 +163,9 @@ def associated_legendre_schmidt(x, max_degree, p):
     u = np.sqrt((1 - x) * (1 + x))
     # Pre-compute square roots of integers used in the loops
     sqrt = np.sqrt(np.arange(2 * (max_degree + 1)))
+    if max_degree == 0:
+        p[0, 0] = 1
+        return
     # Use the Holmes and Featherstone (2002) scaling to compute scaled Pnm
     # All terms are scaled by the max float range 1e280
     p[0, 0] = 1 * 1e-280
@@ -235,6 +238,8 @@ def associated_legendre_schmidt_derivative(max_degree, p, dp):
     # Pre-compute square roots of integers used in the loops
     sqrt = np.sqrt(np.arange(2 * (max_degree + 1)))
     dp[0, 0] = 0
+    if max_degree == 0:
+        return
     dp[1, 0] = -p[1, 1]
     dp[1, 1] = p[1, 0]
     for n in range(2, max_degree + 1):
@@ -288,6 +293,9 @@ def associated_legendre_full(x, max_degree, p):
     u = np.sqrt((1 - x) * (1 + x))
     # Pre-compute square roots of integers used in the loops
     sqrt = np.sqrt(np.arange(2 * (max_degree + 1)))
+    if max_degree == 0:
+        p[0, 0] = 1
+        return
     # Use the Holmes and Featherstone (2002) scaling to compute scaled Pnm
     # All terms are scaled by the max float range 1e280
     p[0, 0] = 1 * 1e-280
@@ -362,6 +370,8 @@ def associated_legendre_full_derivative(max_degree, p, dp):
     # Pre-compute square roots of integers used in the loops
     sqrt = np.sqrt(np.arange(2 * (max_degree + 1)))
     dp[0, 0] = 0
+    if max_degree == 0:
+        return
     dp[1, 0] = -p[1, 1]
     dp[1, 1] = p[1, 0]
     for n in range(2, max_degree + 1):
-- 
2.43.0


From 6e8c54ddfa32582697a7ad4cb666921d04b1e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 24/32] fix: arrays of structural indices in EulerInversion

Comparing the array of candidates with 0 raised a ValueError.
---
 src/harmonica/_euler_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_euler_methods.py b/src/harmonica/_euler_methods.py
index 93c0d0e..a577892 100644
--- a/src/harmonica/_euler_methods.py
+++ b/src/harmonica/_euler_methods.py
@@ -300,7 +300,7 @@ class EulerInversion:
         tol=0.1,
         euler_misfit_balance=0.1,
     ):
-        if structural_index == 0:
+        if np.isscalar(structural_index) and structural_index == 0:
             message = "EulerInversion does not yet support structural index of 0."
             raise ValueError(message)
         self.structural_index = structural_index
-- 
2.43.0


From 31f8f6e27d2566d4b4c2e4a09759f56205437a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 25/32] fix: broadcast coordinates when predicting with
 equivalent sources

The output has the broadcast shape but coordinates of fewer elements were
read out of bounds.
---
 src/harmonica/_equivalent_sources/cartesian.py | 3 ++-
 src/harmonica/_equivalent_sources/spherical.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/cartesian.py b/src/harmonica/_equivalent_sources/cartesian.py
index 1340f7b..dcedddb 100644
--- a/src/harmonica/_equivalent_sources/cartesian.py
+++ b/src/harmonica/_equivalent_sources/cartesian.py
@@ -375,7 +375,8 @@ class EquivalentSources(vdb.BaseGridder):
         shape = np.broadcast(*coordinates[:3]).shape
         size = np.broadcast(*coordinates[:3]).size
         coordinates = tuple(
-            np.atleast_1d(i.astype(self.dtype)).ravel() for i in coordinates[:3]
+            np.broadcast_to(i, shape).astype(self.dtype).ravel()
+            for i in coordinates[:3]
         )
         data = np.zeros(size, dtype=self.dtype)
         kernel = predict_numba_parallel if self.parallel else predict_numba_serial
diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index 606311b..a3e81b8 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -241,7 +241,7 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         shape = np.broadcast(*coordinates[:3]).shape
         size = np.broadcast(*coordinates[:3]).size
         dtype = coordinates[0].dtype
-        coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+        coordinates = tuple(np.broadcast_to(i, shape).ravel() for i in coordinates[:3])
         data = np.zeros(size, dtype=dtype)
         kernel = predict_numba_parallel if self.parallel else predict_numba_serial
         kernel(coordinates, self.points_, self.coefs_, data, self.greens_function)
-- 
2.43.0


From 5c153365468a23a00c7b1a365e212d6d0befa711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 26/32] fix: predictions of EquivalentSourcesSph on integer
 longitudes

The predicted values took the data type of the longitudes, so they were
truncated to integers.
---
 src/harmonica/_equivalent_sources/spherical.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index a3e81b8..a45f867 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -240,9 +240,8 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         check_is_fitted(self, ["coefs_"])
         shape = np.broadcast(*coordinates[:3]).shape
         size = np.broadcast(*coordinates[:3]).size
-        dtype = coordinates[0].dtype
         coordinates = tuple(np.broadcast_to(i, shape).ravel() for i in coordinates[:3])
-        data = np.zeros(size, dtype=dtype)
+        data = np.zeros(size)
         kernel = predict_numba_parallel if self.parallel else predict_numba_serial
         kernel(coordinates, self.points_, self.coefs_, data, self.greens_function)
         return data.reshape(shape)
-- 
2.43.0


From e23c0db19d9ae1af6f584708e64bfdc6de149a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 27/32] fix: memory estimation of EquivalentSourcesSph

The Jacobian is always made of 64-bit floats, regardless of the data type of
the coordinates.
---
 src/harmonica/_equivalent_sources/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index a45f867..5a7cf66 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -171,7 +171,7 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         # Compute the size of the Jacobian matrix
         jacobian_size = n_data * n_points
         # Estimate size of a single element of the Jacobian matrix in bytes
-        return jacobian_size * np.dtype(coordinates[0].dtype).itemsize
+        return jacobian_size * np.dtype("float64").itemsize
 
     def fit(self, coordinates, data, weights=None):
         """
-- 
2.43.0


From ab0292d72a9a2fedb4ac0e5d01c5700f5bd34b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 28/32] fix: estimate memory of equivalent sources without
 changing them

The estimation overwrote the fitted depth and sources, so that predictions
afterwards were wrong, and ignored sources given through points.
---
 src/harmonica/_equivalent_sources/cartesian.py       |  8 ++++++--
 .../_equivalent_sources/gradient_boosted.py          | 12 ++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/cartesian.py b/src/harmonica/_equivalent_sources/cartesian.py
index dcedddb..76d7ffa 100644
--- a/src/harmonica/_equivalent_sources/cartesian.py
+++ b/src/harmonica/_equivalent_sources/cartesian.py
@@ -17,6 +17,7 @@ import numpy as np
 import verde as vd
 import verde.base as vdb
 from numba import jit
+from sklearn.base import clone
 from sklearn.utils.validation import check_is_fitted
 
 from .._forward.utils import distance_cartesian
@@ -222,9 +223,12 @@ class EquivalentSources(vdb.BaseGridder):
         >>> int(n_bytes)
         80000
         """
-        # Build the sources and assign the points_ attribute
+        # Build the sources (on a clone to leave the fitted attributes unchanged)
         coordinates = vdb.n_1d_arrays(coordinates, 3)
-        points = self._build_points(coordinates)
+        if self.points is None:
+            points = clone(self)._build_points(coordinates)
+        else:
+            points = vdb.n_1d_arrays(self.points, 3)
         # Get the number of sources and data
         n_data = coordinates[0].size
         n_points = points[0].size
diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index ab522e3..f834820 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -16,6 +16,7 @@ import bordado as bd
 import numpy as np
 import verde.base as vdb
 from sklearn import utils
+from sklearn.base import clone
 
 from .cartesian import EquivalentSources
 from .utils import cast_fit_input, predict_numba_parallel
@@ -171,12 +172,15 @@ class EquivalentSourcesGB(EquivalentSources):
         >>> int(n_bytes)
         10952
         """
-        # Build the sources and assign the points_ attribute
+        # Build the sources (on a clone to leave the fitted attributes unchanged)
         coordinates = vdb.n_1d_arrays(coordinates, 3)
-        points = self._build_points(coordinates)
-        self.points_ = points
+        estimator = clone(self)
+        if self.points is None:
+            estimator.points_ = estimator._build_points(coordinates)
+        else:
+            estimator.points_ = vdb.n_1d_arrays(self.points, 3)
         # Build the windows and get the indices
-        source_windows, data_windows = self._create_windows(coordinates)
+        source_windows, data_windows = estimator._create_windows(coordinates)
         # Get the number of sources and data for each window
         source_sizes = np.array([w.size for w in source_windows])
         data_sizes = np.array([w.size for w in data_windows])
-- 
2.43.0


From ed541eb5a73edda425479e6ffcd34f957e4cbc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 29/32] fix: default window size of EquivalentSourcesGB for
 elongated regions

The window was larger than the shortest side of the region, which is an
error.
---
 src/harmonica/_equivalent_sources/gradient_boosted.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index f834820..ed7c115 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -343,7 +343,10 @@ class EquivalentSourcesGB(EquivalentSources):
                 return source_windows_nonempty, data_windows_nonempty
             points_per_m2 = ndata / area
             window_area = 5e3 / points_per_m2
-            self.window_size_ = np.sqrt(window_area)
+            # Windows can't be larger than the region (in case it's elongated)
+            self.window_size_ = min(
+                np.sqrt(window_area), region[1] - region[0], region[3] - region[2]
+            )
         else:
             self.window_size_ = self.window_size
         # The windows for sources and data points are the same, but the
-- 
2.43.0


From 9bfe3dc592c4b27a19e32b9acc692cecca37799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 30/32] fix: windows of EquivalentSourcesGB that leave out
 points

Rounding errors left points on the boundaries of the region out of every
window, and surveys slightly larger than a window had a single one that didn't
cover them.
---
 .../_equivalent_sources/gradient_boosted.py   | 37 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index ed7c115..9f3c54d 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -355,9 +355,12 @@ class EquivalentSourcesGB(EquivalentSources):
         # one for the sources and one for the data points.
         # We pass the same region, size and spacing to be sure that both set of
         # windows are the same.
+        # Use a slightly larger window and region so that points on their boundaries
+        # aren't left out of every window because of rounding errors.
+        margin = 1e-6 * self.window_size_
         kwargs = {
-            "region": region,
-            "window_size": self.window_size_,
+            "region": bd.pad_region(self._extend_region(region, margin), 2 * margin),
+            "window_size": self.window_size_ + 3 * margin,
             "overlap": self.overlapping,
         }
         _, source_windows = bd.rolling_window(self.points_[:2], **kwargs)
@@ -379,6 +382,36 @@ class EquivalentSourcesGB(EquivalentSources):
                 data_windows_nonempty.append(data)
         return source_windows_nonempty, data_windows_nonempty
 
+    def _extend_region(self, region, margin):
+        """
+        Extend the sides of the region that the windows wouldn't cover.
+
+        A side that is slightly larger than a window would have a single one, that
+        leaves points out, if the difference between their sizes is negligible compared
+        to the coordinates of its boundaries.
+
+        Parameters
+        ----------
+        region : tuple
+            The boundaries of the region.
+        margin : float
+            Excess of the length of a side over the window size to be neglected.
+
+        Returns
+        -------
+        region : tuple
+            The region, in which those sides fit two windows.
+        """
+        step = (1 - self.overlapping) * self.window_size_
+        extended = []
+        for lower, upper in zip(region[::2], region[1::2], strict=True):
+            excess = float(upper) - float(lower) - self.window_size_
+            negligible = 1e-7 + 2e-5 * max(abs(lower), abs(upper))
+            if margin < excess < min(negligible, step):
+                upper = lower + self.window_size_ + step
+            extended.extend((float(lower), float(upper)))
+        return tuple(extended)
+
 
 def _get_region_data_sources(coordinates, points):
     """
-- 
2.43.0


From 432b38beee6e420a54190ba7c57510412fd4b71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:34 +0000
Subject: [PATCH 31/32] fix: Use dimensions of layers regardless of their order

Layers of prisms and tesseroids took the values of their variables assuming
that the dimensions are in the default order. After transposing a layer (or one
of its variables) gravity fields, exported meshes and bodies were wrong without
any error, including reads out of the bounds of the arrays.
---
 src/harmonica/_forward/prisms/layer.py    | 25 +++++++++++++++--------
 src/harmonica/_forward/tesseroid_layer.py | 25 +++++++++++++++--------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 3f1215c..24424d0 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -245,6 +245,15 @@ class DatasetAccessorPrismLayer:
         """
         return (self._obj.northing.size, self._obj.easting.size)
 
+    def _get_values(self, name):
+        """
+        Return the values of a variable with the dimensions in the order of ``dims``
+
+        The dimensions of the variables of an :class:`xarray.Dataset` might be in
+        a different order, e.g. after transposing it.
+        """
+        return self._obj[name].transpose(*self.dims).values
+
     def _get_prism_horizontal_boundaries(self, easting, northing):
         """
         Compute the horizontal boundaries of the prism.
@@ -402,7 +411,7 @@ class DatasetAccessorPrismLayer:
         thickness_threshold = (
             0.0 if thickness_threshold is None else thickness_threshold
         )
-        density = self._obj[density_name].values
+        density = self._get_values(density_name)
         if np.isnan(density).any():
             msg = (
                 "Found NaN values in 'density' property of the prisms layer. "
@@ -418,8 +427,8 @@ class DatasetAccessorPrismLayer:
                 coordinates,
                 self._obj.easting.values,
                 self._obj.northing.values,
-                self._obj.bottom.values,
-                self._obj.top.values,
+                self._get_values("bottom"),
+                self._get_values("top"),
                 density,
                 FIELDS[field],
                 result,
@@ -456,8 +465,8 @@ class DatasetAccessorPrismLayer:
         west, east, south, north = self._get_prism_horizontal_boundaries(
             easting.ravel(), northing.ravel()
         )
-        bottom = self._obj.bottom.values.ravel()
-        top = self._obj.top.values.ravel()
+        bottom = self._get_values("bottom").ravel()
+        top = self._get_values("top").ravel()
         prisms = np.vstack((west, east, south, north, bottom, top)).T
         return prisms
 
@@ -484,8 +493,8 @@ class DatasetAccessorPrismLayer:
         west, east, south, north = self._get_prism_horizontal_boundaries(
             center_easting, center_northing
         )
-        bottom = self._obj.bottom.values[indices]
-        top = self._obj.top.values[indices]
+        bottom = self._get_values("bottom")[indices]
+        top = self._get_values("top")[indices]
         return west, east, south, north, bottom, top
 
     def to_pyvista(self, drop_null_prisms=True):
@@ -517,7 +526,7 @@ class DatasetAccessorPrismLayer:
         properties = None
         if self._obj.data_vars:
             properties = {
-                data_var: np.asarray(self._obj[data_var]).ravel()[
+                data_var: self._get_values(data_var).ravel()[
                     np.logical_not(null_prisms)
                 ]
                 for data_var in self._obj.data_vars
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 6c5358d..2a7b473 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -385,7 +385,7 @@ class DatasetAccessorTesseroidLayer:
         """
         # Get boundaries and density of the tesseroids
         boundaries = self._to_tesseroids()
-        density = self._obj[density_name].values
+        density = self._get_values(density_name)
         # Get the mask for selecting  only the tesseroid whose top boundary,
         # bottom boundary and density have no nans
         mask = self._get_nonans_mask(property_name=density_name)
@@ -429,12 +429,12 @@ class DatasetAccessorTesseroidLayer:
         """
         # Mask the tesseroid that contains no nans on top and bottom boundaries
         mask = np.logical_and(
-            np.logical_not(np.isnan(self._obj.top.values)),
-            np.logical_not(np.isnan(self._obj.bottom.values)),
+            np.logical_not(np.isnan(self._get_values("top"))),
+            np.logical_not(np.isnan(self._get_values("bottom"))),
         )
         # Mask the tesseroids that contains nans on the selected property
         if property_name is not None:
-            mask_property = np.logical_not(np.isnan(self._obj[property_name].values))
+            mask_property = np.logical_not(np.isnan(self._get_values(property_name)))
             # Warn if a nan is found within the masked property
             if not mask_property[mask].all():
                 warnings.warn(
@@ -469,13 +469,22 @@ class DatasetAccessorTesseroidLayer:
         ) = self._get_tesseroid_horizontal_boundaries(
             longitude.ravel(), latitude.ravel()
         )
-        bottom = self._obj.bottom.values.ravel()
-        top = self._obj.top.values.ravel()
+        bottom = self._get_values("bottom").ravel()
+        top = self._get_values("top").ravel()
         tesseroids = np.vstack(
             (longitude_w, longitude_e, latitude_s, latitude_n, bottom, top)
         ).T
         return tesseroids
 
+    def _get_values(self, name):
+        """
+        Return the values of a variable with the dimensions in the order of ``dims``
+
+        The dimensions of the variables of an :class:`xarray.Dataset` might be in
+        a different order, e.g. after transposing it.
+        """
+        return self._obj[name].transpose(*self.dims).values
+
     def _get_tesseroid_horizontal_boundaries(self, longitude, latitude):
         """
         Compute the horizontal boundaries of the tesseroid.
@@ -521,8 +530,8 @@ class DatasetAccessorTesseroidLayer:
             latitude_s,
             latitude_n,
         ) = self._get_tesseroid_horizontal_boundaries(center_longitude, center_latitude)
-        bottom = self._obj.bottom.values[indices]
-        top = self._obj.top.values[indices]
+        bottom = self._get_values("bottom")[indices]
+        top = self._get_values("top")[indices]
         return longitude_w, longitude_e, latitude_s, latitude_n, bottom, top
 
 
-- 
2.43.0


From 4c1ccee5168d8b0889ee0edb7fa61f3f325c7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:40 +0000
Subject: [PATCH 32/32] fix: Compute tesseroids in double precision regardless
 of dtype

The dtype argument sets the type of the result. Storing the boundaries of the
tesseroids in single precision led to errors of half a meter in their radii.
---
 src/harmonica/_forward/tesseroid_gravity.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/harmonica/_forward/tesseroid_gravity.py b/src/harmonica/_forward/tesseroid_gravity.py
index 8dbf057..843f40a 100644
--- a/src/harmonica/_forward/tesseroid_gravity.py
+++ b/src/harmonica/_forward/tesseroid_gravity.py
@@ -207,7 +207,6 @@ def tesseroid_gravity(
             glq_nodes,
             glq_weights,
             kernels[field],
-            dtype,
             progress_proxy,
         )
     # Invert sign
@@ -249,7 +248,6 @@ def jit_tesseroid_gravity(
     glq_nodes,
     glq_weights,
     kernel,
-    dtype,
     progress_proxy,
 ):
     """
@@ -294,8 +292,6 @@ def jit_tesseroid_gravity(
         List containing GLQ weights of the nodes.
     kernel : func
         Kernel function for the gravitational field of point masses.
-    dtype : data-type
-        Data type assigned to the resulting gravitational field.
     progress_proxy : :class:`numba_progress.ProgressBar` or None
         Instance of :class:`numba_progress.ProgressBar` or None.
     """
@@ -309,9 +305,10 @@ def jit_tesseroid_gravity(
     sinphi = np.sin(np.radians(latitude))
     # Loop over computation points
     for i in prange(longitude.size):
-        # Initialize arrays to perform memory allocation only once
-        stack = np.empty((STACK_SIZE, 6), dtype=dtype)
-        small_tesseroids = np.empty((MAX_DISCRETIZATIONS, 6), dtype=dtype)
+        # Initialize arrays to perform memory allocation only once. Keep boundaries in
+        # double precision: single precision ones have errors of half a meter in radius.
+        stack = np.empty((STACK_SIZE, 6), dtype=np.float64)
+        small_tesseroids = np.empty((MAX_DISCRETIZATIONS, 6), dtype=np.float64)
         # Loop over tesseroids
         for j in range(tesseroids.shape[0]):
             # Apply adaptive discretization on tesseroid
@@ -352,7 +349,6 @@ def jit_tesseroid_gravity_variable_density(
     glq_nodes,
     glq_weights,
     kernel,
-    dtype,
     progress_proxy,
 ):
     """
@@ -397,8 +393,6 @@ def jit_tesseroid_gravity_variable_density(
         List containing GLQ weights of the nodes.
     kernel : func
         Kernel function for the gravitational field of point masses.
-    dtype : data-type
-        Data type assigned to the resulting gravitational field.
     progress_proxy : :class:`numba_progress.ProgressBar` or None
         Instance of :class:`numba_progress.ProgressBar` or None.
     """
@@ -412,9 +406,10 @@ def jit_tesseroid_gravity_variable_density(
     sinphi = np.sin(np.radians(latitude))
     # Loop over computation points
     for i in prange(longitude.size):
-        # Initialize arrays to perform memory allocation only once
-        stack = np.empty((STACK_SIZE, 6), dtype=dtype)
-        small_tesseroids = np.empty((MAX_DISCRETIZATIONS, 6), dtype=dtype)
+        # Initialize arrays to perform memory allocation only once. Keep boundaries in
+        # double precision: single precision ones have errors of half a meter in radius.
+        stack = np.empty((STACK_SIZE, 6), dtype=np.float64)
+        small_tesseroids = np.empty((MAX_DISCRETIZATIONS, 6), dtype=np.float64)
         # Loop over tesseroids
         for j in range(tesseroids.shape[0]):
             # Apply adaptive discretization on tesseroid
-- 
2.43.0

