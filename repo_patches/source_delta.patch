From 18d90dc5c3c6a4ab825e4c0a0d0473a99c3ec3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 01/14] fix: great circle functions treat the columns of their
 n-vectors independently

The dot products paired every column of one argument with every column of the
other, and a zero dot product turned an intersection 90 degrees away into the
zero vector.
---
 src/nvector/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 9e14c76..dd184ed 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -496,13 +496,18 @@ def intersect(path_a, path_b):
     # n_EC_E_tmp is one of two solutions, the other is -n_EC_E_tmp. Select
     # the one that is closet to n_EA1_E, by selecting sign from the dot
     # product between n_EC_E_tmp and n_EA1_E:
-    n_EC_E = np.sign(dot(n_EC_E_tmp.T, n_EA1_E)) * n_EC_E_tmp
+    n_EC_E = np.where(_columnwise_dot(n_EC_E_tmp, n_EA1_E) < 0, -1, 1) * n_EC_E_tmp
     if np.any(np.isnan(n_EC_E)):
         warnings.warn('Paths are Equal. Intersection point undefined. '
                       'NaN returned.')
     return n_EC_E
 
 
+def _columnwise_dot(a, b):
+    """Returns the dot product of each column of a with the corresponding column of b"""
+    return np.einsum('i...,i...->...', a, b)
+
+
 def great_circle_normal(n_EA_E, n_EB_E):
     """
     Returns the unit normal(s) to the great circle(s)
@@ -557,7 +562,7 @@ def cross_track_distance(path, n_EB_E, method='greatcircle', radius=6371009.0):
 
     """
     c_E = great_circle_normal(path[0], path[1])
-    sin_theta = -np.dot(c_E.T, n_EB_E).ravel()
+    sin_theta = -_columnwise_dot(c_E, n_EB_E).ravel()
     if method[0].lower() == 'e':
         return _euclidean_cross_track_distance(sin_theta, radius)
     return _great_circle_cross_track_distance(sin_theta, radius)
@@ -671,7 +676,7 @@ def closest_point_on_great_circle(path, n_EB_E):
 
     c2 = cross(n_EB_E, c_E, axis=0)
     n_EC_E = unit(cross(c_E, c2, axis=0))
-    return n_EC_E * np.sign(dot(n_EC_E.T, n_EB_E))
+    return n_EC_E * np.where(_columnwise_dot(n_EC_E, n_EB_E) < 0, -1, 1)
 
 
 @use_docstring(_examples.get_examples_no_header([5], OO=False))
@@ -698,7 +703,7 @@ def great_circle_distance(n_EA_E, n_EB_E, radius=6371009.0):
 
     """
     sin_theta = norm(np.cross(n_EA_E, n_EB_E, axis=0), axis=0)
-    cos_theta = dot(n_EA_E.T, n_EB_E)
+    cos_theta = _columnwise_dot(n_EA_E, n_EB_E)
     theta = np.arctan2(sin_theta, cos_theta).ravel()
     s_AB = theta * radius
 
-- 
2.43.0


From 0b7accd80fbcc2b4ca03b5047822e66a40ff157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 02/14] fix: cross track distance of a point at the pole of the
 great circle is not NaN

---
 src/nvector/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index dd184ed..f9f4e87 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -526,7 +526,7 @@ def _euclidean_cross_track_distance(sin_theta, radius=1):
 
 
 def _great_circle_cross_track_distance(sin_theta, radius=1):
-    return np.arcsin(sin_theta) * radius
+    return np.arcsin(np.clip(sin_theta, -1, 1)) * radius
     # ill conditioned for small angles:
     # return (np.arccos(-sin_theta) - np.pi / 2) * radius
 
-- 
2.43.0


From 52f3a2de9cd318877167c73d04592605e669685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 03/14] fix: displacement along a great circle starting at a
 pole

---
 src/nvector/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index f9f4e87..7dec6b7 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -813,7 +813,10 @@ def n_EA_E_distance_and_azimuth2n_EB_E(n_EA_E, distance_rad, azimuth, R_Ee=None)
     if R_Ee is None:
         R_Ee = E_rotation()
     # Step1: Find unit vectors for north and east:
-    k_east_E = unit(cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0))
+    k_east_E = cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0)
+    on_poles = np.flatnonzero(norm(k_east_E, axis=0) == 0)
+    k_east_E = unit(k_east_E)
+    k_east_E[:, on_poles] = dot(R_Ee.T, [[0], [1], [0]])  # same choice as in n_E2R_EN
     k_north_E = cross(n_EA_E, k_east_E, axis=0)
 
     # Step2: Find the initial direction vector d_E:
-- 
2.43.0


From 1ae89f768d89f0bacb9dba3230932b1b36d6d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 04/14] fix: great circle displacement uses the axes of the
 frame of the point

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index b32072f..8b1f30a 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -293,7 +293,8 @@ class GeoPoint(_Common):
         radius = e_a.length
         distance_rad = distance / radius
         azimuth_rad = azimuth if not degrees else rad(azimuth)
-        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad)
+        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad,
+                                                      R_Ee=self.frame.R_Ee)
         point_b = Nvector(normal_b, self.z, self.frame).to_geo_point()
         azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - np.pi)
         if degrees:
-- 
2.43.0


From d7e0482668787253d243ca83231b908cab86c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 05/14] fix: flattening of the ETRS89 ellipsoid

---
 src/nvector/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index f3417b5..241bb15 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -38,7 +38,7 @@ ELLIPSOID = {
     16: Ellipsoid(a=6378135., f=1.0 / 298.26, name='WGS 72'),
     17: Ellipsoid(a=6378206.4, f=1.0 / 294.9786982138, name='Clarke 1866    (NAD27)'),
     18: Ellipsoid(a=6378137.0, f=1.0 / 298.257223563, name='GRS80 / WGS84  (NAD83)'),
-    19: Ellipsoid(a=6378137, f=298.257222101, name='ETRS89')
+    19: Ellipsoid(a=6378137, f=1.0 / 298.257222101, name='ETRS89')
 }
 ELLIPSOID_IX = {'airy1858': 1,
                 'airymodified': 2,
-- 
2.43.0


From 2cd0ac357357d1a5c255fea52fcbeb97b4b5227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 06/14] fix: ETRS89 ellipsoid can be selected by its name

---
 src/nvector/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 241bb15..0f39476 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -68,6 +68,7 @@ ELLIPSOID_IX = {'airy1858': 1,
                 'grs80': 18,
                 'wgs84': 18,
                 'nad83': 18,
+                'etrs89': 19,
                 }
 
 
-- 
2.43.0


From 7ad7b878320aa1688b37da5dc110cb44970aa696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 07/14] fix: array_to_list_dict leaves its argument as it was

---
 src/nvector/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 0f39476..4d3c4b6 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -92,8 +92,7 @@ def array_to_list_dict(data):
 
     """
     if isinstance(data, dict):
-        for key in data:
-            data[key] = array_to_list_dict(data[key])
+        data = {key: array_to_list_dict(data[key]) for key in data}
     elif isinstance(data, (list, tuple)):
         data = [array_to_list_dict(item) for item in data]
     else:
-- 
2.43.0


From 0e987ef066489fd890a7233f9b9ca44aa961828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 08/14] fix: E_rotation does not hand out its own table

---
 src/nvector/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index 5c963d7..db95120 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -80,7 +80,7 @@ def E_rotation(axes='e'):
     The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
     <www.navlab.net/Publications/A_Nonsingular_Horizontal_Position_Representation.pdf>`_
     """
-    return E_ROTATION_MATRIX[axes]
+    return E_ROTATION_MATRIX[axes].copy()
 
 
 def R2xyz(R_AB):
-- 
2.43.0


From 2686910a9ea7097e2ab0f419622fb66a4c180e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 09/14] fix: FrameE uses the semi-major axis or flattening
 given without the other

---
 src/nvector/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 8b1f30a..9f306bc 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1207,7 +1207,9 @@ class FrameE(_Common):
 
     def __init__(self, a=None, f=None, name='WGS84', axes='e'):
         if a is None or f is None:
-            a, f, _full_name = get_ellipsoid(name)
+            default_a, default_f, _full_name = get_ellipsoid(name)
+            a = default_a if a is None else a
+            f = default_f if f is None else f
         self.a = a
         self.f = f
         self.name = name
-- 
2.43.0


From 76c414d8735617e75efb94160b36ef53ad373199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 10/14] fix: GeoPath.track_distance with a scalar radius
 returns every distance

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 9f306bc..bfefee0 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -935,7 +935,7 @@ class GeoPath(object):
 
         distance_fun = euclidean_distance if method[:2] == "eu" else great_circle_distance
         distance = distance_fun(normal_a, normal_b, radius)
-        if np.ndim(radius) == 0:
+        if np.ndim(radius) == 0 and distance.size == 1:
             return distance[0]  # scalar track distance
         return distance
 
-- 
2.43.0


From 45d0964e5c078b6cb518337ab0f8e6151728149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 11/14] fix: comparing FrameN with FrameB gives the same answer
 in both directions

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index bfefee0..52e531d 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1432,7 +1432,8 @@ class FrameN(_LocalFrame):
         return n_E2R_EN(nvector.normal, nvector.frame.R_Ee)
 
     def _is_equal_to(self, other, rtol=1e-12, atol=1e-14):
-        return (allclose(self.R_EN, other.R_EN, rtol=rtol, atol=atol)
+        return (isinstance(other, FrameN)
+                and allclose(self.R_EN, other.R_EN, rtol=rtol, atol=atol)
                 and self.nvector == other.nvector)
 
 
-- 
2.43.0


From 88f5bb816d98625c64d4d88894bf8fe60d6072e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 12/14] fix: changing frame of one vector to several local
 frames keeps every result

---
 src/nvector/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 52e531d..dfb7869 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -656,7 +656,8 @@ class Pvector(_Common):
         p_AB_N = self.pvector
         # p_AB_E = np.dot(n_frame.R_EN, p_AB_N)
         p_AB_E = mdot(n_frame.R_EN, p_AB_N[:, None, ...]).reshape(3, -1)
-        return ECEFvector(p_AB_E, frame=n_frame.nvector.frame, scalar=self.scalar)
+        return ECEFvector(p_AB_E, frame=n_frame.nvector.frame,
+                          scalar=self.scalar and p_AB_E.shape[1] == 1)
 
     def to_nvector(self):
         """
@@ -771,7 +772,8 @@ class ECEFvector(Pvector):
         _check_frames(self, frame.nvector)
         p_AB_E = self.pvector
         p_AB_N = mdot(np.swapaxes(frame.R_EN, 1, 0), p_AB_E[:, None, ...])
-        return Pvector(p_AB_N.reshape(3, -1), frame=frame, scalar=self.scalar)
+        p_AB_N = p_AB_N.reshape(3, -1)
+        return Pvector(p_AB_N, frame=frame, scalar=self.scalar and p_AB_N.shape[1] == 1)
 
     def to_ecef_vector(self):
         return self
-- 
2.43.0


From b7241f22b4f766db3f2174120dc190065b7b91ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 13/14] fix: Euler angles of a rotation by a right angle about
 y reproduce the matrix

---
 src/nvector/rotation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index db95120..85564c4 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -134,6 +134,11 @@ def R2xyz(R_AB):
                   + R_AB[1, 2, ...]**2 + R_AB[2, 2, ...]**2) / 2)
 
     y = arctan2(sin_y, cos_y)
+
+    # R_AB determines only the sum or difference of x and z if cos_y is zero. Select z=0:
+    undetermined = cos_y == 0
+    x = np.where(undetermined, arctan2(R_AB[2, 1, ...], R_AB[1, 1, ...]), x)[()]
+    z = np.where(undetermined, 0.0, z)[()]
     return x, y, z
 
 
-- 
2.43.0


From 1bc9741a703fce90f0b9282843e17898d006faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:36 +0000
Subject: [PATCH 14/14] fix: interpolate tracks whose positions share one depth

Nvector.interpolate stacked the depth below the n-vectors and raised
ValueError when the depth was a scalar, as it is by default.
---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index dfb7869..86586e9 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -527,7 +527,8 @@ class Nvector(_Common):
         >>> h = plt.plot(lon, lat, 'o', loni, lati, '-')
         >>> plt.show()
         """
-        vectors = np.vstack((self.normal, self.z))
+        depths = np.broadcast_to(self.z, self.normal.shape[1:])  # one depth is that of all
+        vectors = np.vstack((self.normal, depths))
         vectors_i = _interp_vectors(t_i, t, vectors, kind, window_length, polyorder, mode, cval)
         normal = unit(vectors_i[:3], norm_zero_vector=np.nan)
         return Nvector(normal, z=vectors_i[3], frame=self.frame)
-- 
2.43.0

