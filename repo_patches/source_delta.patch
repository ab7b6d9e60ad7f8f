From 6ab03f66811fc2ae9eae6feb48f879d0cc57ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:12 +0000
Subject: [PATCH 01/45] fix: compose and invert transforms consistently with
 applying them

invert() multiplied the inverse center by the scale instead of dividing,
GearTransform(Data) products and inverses ignored that the gear angle acts
before the orientation.
---
 src/gggears/gggears_base_classes.py | 32 ++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index a7a92d5..c1a1709 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -96,7 +96,7 @@ class TransformData:
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return TransformData(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -146,7 +146,7 @@ class Transform(TransformData):
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return Transform(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -186,9 +186,16 @@ class GearTransformData(TransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransformData(
-                center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                center=self.center
+                + self.orientation @ rot_z @ other.center * self.scale,
+                # The gear angle acts before the orientation, hence the orientation of
+                # 'other' needs to be conjugated by the angle of 'self'.
+                orientation=self.orientation
+                @ rot_z
+                @ other.orientation
+                @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -202,8 +209,8 @@ class GearTransformData(TransformData):
         inv_orient = self.orientation.transpose()
         inv_angle = scp_Rotation.from_euler("z", -self.angle).as_matrix()
         return GearTransformData(
-            center=-inv_orient @ inv_angle @ self.center * self.scale,
-            orientation=inv_orient,
+            center=-inv_angle @ inv_orient @ self.center / self.scale,
+            orientation=inv_angle @ inv_orient @ inv_angle.transpose(),
             scale=1 / self.scale,
             angle=-self.angle,
         )
@@ -227,13 +234,14 @@ class GearTransform(GearTransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransform(
                 center=self.center
-                + self.orientation
-                @ scp_Rotation.from_euler("z", self.angle).as_matrix()
-                @ other.center
-                * self.scale,
-                orientation=self.orientation @ other.orientation,
+                + self.orientation @ rot_z @ other.center * self.scale,
+                orientation=self.orientation
+                @ rot_z
+                @ other.orientation
+                @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -248,7 +256,7 @@ class GearTransform(GearTransformData):
         inv_angle = scp_Rotation.from_euler("z", self.angle).as_matrix()
         return GearTransform(
             center=-self.center @ inv_orient @ inv_angle / self.scale,
-            orientation=inv_orient.transpose(),
+            orientation=inv_angle.transpose() @ inv_orient.transpose() @ inv_angle,
             scale=1 / self.scale,
             angle=-self.angle,
         )
-- 
2.43.0


From 5cd3113ee8e82a71abab3b1a7b4e44d9d4adfd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 02/45] fix: higher order curve derivatives raised TypeError

---
 src/gggears/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index be34d3c..3b35f4f 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -234,7 +234,10 @@ class Curve:
             return numeric_diff(self, t, direction, delta)
         else:
             return numeric_diff(
-                self.derivative(t, direction, n - 1, delta), t, direction, delta
+                lambda t2: self.derivative(t2, direction, n - 1, delta),
+                t,
+                direction,
+                delta,
             )
 
     def cut(self, t):
-- 
2.43.0


From 67c150e003b5fbd1466f5006210c9bca1c3d0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 03/45] fix: dividing a curve by a scalar mixed up natural and
 length parameters

---
 src/gggears/curve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 3b35f4f..fcd133c 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -326,11 +326,11 @@ class Curve:
         """Divide the curve by a scalar. Output vectors are divided."""
         if isinstance(other, (int, float)):
             return Curve(
-                lambda t: self(t) / other,
+                lambda t, curve, val: curve(t) / val,
                 active=self.active,
-                t0=self.t_0,
-                t1=self.t_1,
-                params={},
+                t0=0,
+                t1=1,
+                params={"curve": self, "val": other},
                 enable_vectorize=self.enable_vectorize,
             )
         else:
-- 
2.43.0


From 79583098a33120176338c92c8ab175d926895753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 04/45] fix: reversing a curve keeps its length parametrization
 consistent

---
 src/gggears/curve.py | 49 ++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index fcd133c..abb1ca0 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -137,40 +137,30 @@ class Curve:
 
     def t2s(self, t):
         """Convert natural parameter t to length-proportional parameter s."""
-        retval = np.interp(t, self.t2s_lookup["t"], self.t2s_lookup["s"])
+        t_table, s_table = self.t2s_lookup["t"], self.t2s_lookup["s"]
+        if t_table[0] > t_table[-1]:
+            # reversed curve, but interpolation needs increasing values
+            t_table, s_table = np.flip(t_table), np.flip(s_table)
+        retval = np.interp(t, t_table, s_table)
+        # custom interpolation function used for extrapolation
         if np.ndim(t) > 0:
-            if any(t < self.t_0):
-                retval[t < self.t_0] = interpolate(
-                    t[t < self.t_0],
-                    self.t2s_lookup["t"][0],
-                    self.t2s_lookup["t"][1],
-                    self.t2s_lookup["s"][0],
-                    self.t2s_lookup["s"][1],
+            low, high = t < t_table[0], t > t_table[-1]
+            if any(low):
+                retval[low] = interpolate(
+                    t[low], t_table[0], t_table[1], s_table[0], s_table[1]
                 )
-            if any(t > self.t_1):
-                retval[t > self.t_1] = interpolate(
-                    t[t > self.t_1],
-                    self.t2s_lookup["t"][-1],
-                    self.t2s_lookup["t"][-2],
-                    self.t2s_lookup["s"][-1],
-                    self.t2s_lookup["s"][-2],
+            if any(high):
+                retval[high] = interpolate(
+                    t[high], t_table[-1], t_table[-2], s_table[-1], s_table[-2]
                 )
         else:
-            if t < self.t_0:
+            if t < t_table[0]:
                 retval = interpolate(
-                    t,
-                    self.t2s_lookup["t"][0],
-                    self.t2s_lookup["t"][1],
-                    self.t2s_lookup["s"][0],
-                    self.t2s_lookup["s"][1],
+                    t, t_table[0], t_table[1], s_table[0], s_table[1]
                 )
-            elif t > self.t_1:
+            elif t > t_table[-1]:
                 retval = interpolate(
-                    t,
-                    self.t2s_lookup["t"][-1],
-                    self.t2s_lookup["t"][-2],
-                    self.t2s_lookup["s"][-1],
-                    self.t2s_lookup["s"][-2],
+                    t, t_table[-1], t_table[-2], s_table[-1], s_table[-2]
                 )
         return retval
 
@@ -201,6 +191,7 @@ class Curve:
         """Reverse the curve in place."""
         self.t_0, self.t_1 = self.t_1, self.t_0
         self.t2s_lookup["t"] = np.flip(self.t2s_lookup["t"])
+        self.t2s_lookup["s"] = 1 - np.flip(self.t2s_lookup["s"])
         return self
 
     def derivative(self, t, direction=0, n=1, delta=DELTA):
@@ -546,6 +537,7 @@ class CurveChain(Curve):
         self.curves.reverse()
         for curve in self.curves:
             curve.reverse()
+        return self
 
     def set_start_and_end_on(self, s0, s1, preserve_inactive_curves=False):
         """Set the start and end of the chain in length-proportional parameter s.
@@ -1547,6 +1539,9 @@ class NurbCurve(Curve):
     def reverse(self):
         self.points = np.flip(self.points, axis=0)
         self.weights = np.flip(self.weights, axis=0)
+        self.t_0, self.t_1 = 1 - self.t_1, 1 - self.t_0
+        if self.active:
+            self.update_lengths()
         return self
 
     @property
-- 
2.43.0


From 0c0f30f6f2e20dd1db15ffa43823048b432c87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 05/45] fix: arc length follows trimming and is never negative

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index abb1ca0..17c6b72 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1131,7 +1131,7 @@ class ArcCurve(Curve):
         return points
 
     def update_lengths(self):
-        self.length = self.radius * self.angle
+        self.length = np.abs(self.radius * self.angle * (self.t_1 - self.t_0))
         self.t2s_lookup["s"] = np.array([0, 1])
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
-- 
2.43.0


From 181a93cd6cd0f610f21271beaa4234c1c87aac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 06/45] fix: transforming trimmed lines, arcs and NURB curves
 keeps their extent and length

---
 src/gggears/curve.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 17c6b72..1ee2928 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1093,8 +1093,8 @@ class LineCurve(Curve):
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
     def transform(self, transform: callable) -> "LineCurve":
-        p0 = transform(self.p0)
-        p1 = transform(self.p1)
+        p0 = transform(self(0))
+        p1 = transform(self(1))
         return LineCurve(p0, p1, active=self.active)
 
 
@@ -1305,8 +1305,10 @@ class ArcCurve(Curve):
         center0 = transform(self._center)
         center2 = transform(self.center + self.axis)
         axis2 = normalize_vector(center2 - center0)
+        # the arc may be trimmed, extended or reversed
+        angle = self.angle * (self.t_1 - self.t_0)
         return ArcCurve.from_point_center_angle(
-            p0, center0, self.angle, axis2, active=self.active
+            p0, center0, angle, axis2, active=self.active
         )
 
 
@@ -1550,6 +1552,8 @@ class NurbCurve(Curve):
 
     def apply_transform(self, transform):
         self.points = transform(self.points)
+        if self.active:
+            self.update_lengths()
         return self
 
 
-- 
2.43.0


From 4e0b9cffb339662450b5b3dc6378ddc58bffc02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 07/45] fix: trimming both ends of a curve chain uses
 parameters of the same chain, del removes the curve

---
 src/gggears/curve.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 1ee2928..5c10b46 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -498,7 +498,7 @@ class CurveChain(Curve):
         self.curves[index] = value
 
     def __delitem__(self, index):
-        self.curves[index] = []
+        del self.curves[index]
 
     def __iter__(self):
         return iter(self.curves)
@@ -553,23 +553,19 @@ class CurveChain(Curve):
             the chain, with active=False status.
             If False, curves outside of the range get removed.
         """
-        idx, s2 = self.get_s_index(s0)
-        if preserve_inactive_curves:
-            for curve in self.curves[:idx]:
-                curve.active = False
-            self.curves[idx].set_start_on(s2)
+        # both parameters refer to the chain before trimming
+        idx0, s_start = self.get_s_index(s0)
+        idx1, s_end = self.get_s_index(s1)
+        if idx0 == idx1:
+            self.curves[idx0].set_start_and_end_on(s_start, s_end)
         else:
-            self.curves = self.curves[idx:]
-            self.curves[0].set_start_on(s2)
-
-        idx, s2 = self.get_s_index(s1)
+            self.curves[idx0].set_start_on(s_start)
+            self.curves[idx1].set_end_on(s_end)
         if preserve_inactive_curves:
-            for curve in self.curves[idx + 1 :]:
+            for curve in self.curves[:idx0] + self.curves[idx1 + 1 :]:
                 curve.active = False
-            self.curves[idx].set_end_on(s2)
         else:
-            self.curves = self.curves[: idx + 1]
-            self.curves[-1].set_end_on(s2)
+            self.curves = self.curves[idx0 : idx1 + 1]
         self.update_lengths()
 
     def set_start_on(self, s0, preserve_inactive_curves=False):
-- 
2.43.0


From 985fe6f96b6b813cd554e1bc55b1e8d11263c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 08/45] fix: copies of involute, octoid and transformed curves
 referred to the original

---
 src/gggears/curve.py | 88 ++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 39 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 5c10b46..738010b 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1327,9 +1327,7 @@ class InvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_circle(
-                t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
-            ),
+            self.involute_func,
             active=active,
             t0=t0,
             t1=t1,
@@ -1337,6 +1335,11 @@ class InvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_circle(
+            t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
+        )
+
     @property
     def base_radius(self):
         return self.r
@@ -1363,14 +1366,7 @@ class SphericalInvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_sphere(
-                t,
-                r=self.r,
-                C=self.c_sphere,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.involute_func,
             active,
             t0,
             t1,
@@ -1378,6 +1374,16 @@ class SphericalInvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_sphere(
+            t,
+            r=self.r,
+            C=self.c_sphere,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1419,21 +1425,24 @@ class OctoidCurve(Curve):
         self.z_offs = z_offs
         self.alpha = alpha
         super().__init__(
-            lambda t: octoid(
-                t,
-                base_rad=self.r,
-                sphere_rad=1 / self.c_sphere,
-                alpha=self.alpha,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.octoid_func,
             active,
             t0,
             t1,
             enable_vectorize=enable_vectorize,
         )
 
+    def octoid_func(self, t):
+        return octoid(
+            t,
+            base_rad=self.r,
+            sphere_rad=1 / self.c_sphere,
+            alpha=self.alpha,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1469,7 +1478,7 @@ class TransformedCurve(Curve):
         self.transform_method = transform
 
         super().__init__(
-            lambda t: self.apply_transform(self.target_curve(t)),
+            self.transformed_func,
             active=self.target_curve.active,
             t0=0,
             t1=1,
@@ -1477,6 +1486,9 @@ class TransformedCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def transformed_func(self, t, **params):
+        return self.transform_method(self.target_curve(t), **params)
+
     def apply_transform(self, point):
         return self.transform_method(point, **self.params)
 
@@ -1488,19 +1500,19 @@ class MirroredCurve(TransformedCurve):
         self.plane_normal = normalize_vector(plane_normal)
         self.center = center
 
-        def mirror_func(p):
-            p2 = p - self.center
-            h = np.dot(p2, self.plane_normal)
-            if hasattr(h, "__iter__"):
-                return (
-                    p2
-                    - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
-                    + self.center
-                )
-            else:
-                return p2 - 2 * h * self.plane_normal + self.center
+        super().__init__(self.mirror_func, curve)
 
-        super().__init__(mirror_func, curve)
+    def mirror_func(self, p):
+        p2 = p - self.center
+        h = np.dot(p2, self.plane_normal)
+        if hasattr(h, "__iter__"):
+            return (
+                p2
+                - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
+                + self.center
+            )
+        else:
+            return p2 - 2 * h * self.plane_normal + self.center
 
 
 class RotatedCurve(TransformedCurve):
@@ -1511,13 +1523,11 @@ class RotatedCurve(TransformedCurve):
         self.angle = angle
         self.center = center
 
-        def rotate_func(p):
-            p2 = p - self.center
-            return (
-                scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
-            )
+        super().__init__(self.rotate_func, curve)
 
-        super().__init__(rotate_func, curve)
+    def rotate_func(self, p):
+        p2 = p - self.center
+        return scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
 
 
 class NurbCurve(Curve):
-- 
2.43.0


From d8d6f0ee6994a9850d132820dd46d15778dc4bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 09/45] fix: NURB conversion of a transformed curve honours
 trimming and leaves the target alone

---
 src/gggears/curve.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 738010b..c11f128 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -915,7 +915,14 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
             return input_curve
         elif isinstance(input_curve, TransformedCurve):
             transform = input_curve.transform_method
-            convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs)
+            # work on a copy, the target curve shall not be changed by the conversion
+            target = input_curve.target_curve.copy()
+            t_0, t_1 = input_curve.t_0, input_curve.t_1
+            if (t_0, t_1) not in ((0, 1), (1, 0)):
+                target.set_start_and_end_on(min(t_0, t_1), max(t_0, t_1))
+            if t_1 < t_0:
+                target.reverse()
+            convert = convert_curve_nurbezier(target, **kwargs)
             convert.apply_transform(transform)
             return convert
         elif isinstance(input_curve, LineCurve):
-- 
2.43.0


From 06ecbe5bc83218299ad8ad7349c635011c98213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:15 +0000
Subject: [PATCH 10/45] fix: evaluating an arc at an array of parameters raised
 with recent scipy

---
 src/gggears/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index c11f128..bcccf76 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1129,7 +1129,10 @@ class ArcCurve(Curve):
         ).as_matrix()
 
     def arcfunc(self, t):
-        rot_arc = scp_Rotation.from_euler("z", self._angle * t).as_matrix()
+        # from_rotvec handles single values and arrays of t the same in scipy versions
+        rot_arc = scp_Rotation.from_rotvec(
+            np.multiply.outer(self._angle * t, OUT)
+        ).as_matrix()
         points = self._rotmat @ rot_arc @ (RIGHT * self._radius) + self._center
         return points
 
-- 
2.43.0


From 99732e79ad8a7c1d3a0ed69b4e320b0b42585317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:15 +0000
Subject: [PATCH 11/45] fix: zero curvature limit of conic involute and cycloid
 functions

---
 src/gggears/function_generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 6d3042c..63b0d69 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -157,7 +157,7 @@ def involute_sphere(t, r=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return involute_circle(t, r, angle, v_offs)
+        return involute_circle(t, r, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", angles=t + angle)
 
@@ -227,7 +227,7 @@ def cycloid_cone(t, rb=1, rc=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return cycloid_circle(t, r, angle, v_offs)
+        return cycloid_circle(t, rb, rc, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", t + angle)
 
-- 
2.43.0


From 7b4205dedd11c7f7f637e1426d6fc49ef454fc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:07 +0000
Subject: [PATCH 12/45] fix: arcs from two points and a curvature too large for
 their distance gave NaN

---
 src/gggears/curve.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index bcccf76..90856df 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1252,8 +1252,14 @@ class ArcCurve(Curve):
         h = np.sqrt(r**2 - (np.linalg.norm(p1 - p0) / 2) ** 2) * np.sign(r)
 
         center = (p0 + p1) / 2 - np.cross(dp, axis) * h
-        return cls.from_2_point_center(
-            p0=p0, p1=p1, center=center, revolutions=revolutions, active=active
+        # p0, p1 and center are in line for half circles, axis is needed to decide the arc
+        return cls.from_point_center_angle(
+            p0=p0,
+            center=center,
+            angle=angle_between_vectors(p0 - center, p1 - center)
+            + revolutions * PI * 2,
+            axis=axis * np.sign(r),
+            active=active,
         )
 
     @classmethod
-- 
2.43.0


From d8b67429bc516c031b36cacc2cd2608e450f3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:29 +0000
Subject: [PATCH 13/45] fix: rounding a chain corner searched the tangent
 points on the wrong sides

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 90856df..0a45d09 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -647,7 +647,7 @@ class CurveChain(Curve):
         Suitable points for tangent arc are searched with starting points at the specified single location.
         """
         return self.fillet_at_locations(
-            radius, [location + radius / self.length, location - radius / self.length]
+            radius, [location - radius / self.length, location + radius / self.length]
         )
 
     def fillet_at_index(self, radius, index):
-- 
2.43.0


From 057261ccd7c78fb7f1ebcba2e96cd9dd8f309846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:33 +0000
Subject: [PATCH 14/45] fix: octoid function ignored its z offset

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 63b0d69..fd1dc30 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -676,4 +676,4 @@ def octoid(
     rot = scp_Rotation.from_euler("yz", angles=[PI, PI / 2 + angle])
     zshift = np.sqrt(sphere_rad**2 - base_rad**2)
     v = rot.apply(v)
-    return v + zshift * OUT
+    return v + (zshift + z_offs) * OUT
-- 
2.43.0


From a1c27d03106b06cbb984cecdb8d701e9f1acc4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:01 +0000
Subject: [PATCH 15/45] fix: crowning is centered on the gear for any module
 and z_anchor

---
 src/gggears/gggears_wrapper.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 08f7d0a..a90cfaa 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -495,10 +495,13 @@ class InvoluteGear(GearInfoMixin):
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
         gamma = self.inputparam.cone_angle / 2
 
+        z_h = self.inputparam.height / self.inputparam.module
+
         def crowning_func(z, offset=0):
+            # z is in module units, and it is 0 at the anchor
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
+                - ((z / z_h + self.inputparam.z_anchor) * 2 - 1) ** 2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
@@ -558,7 +561,6 @@ class InvoluteGear(GearInfoMixin):
                     pitch_intersect_angle=lambda z: crowning_func(z, tooth_angle),
                     cone_angle=self.inputparam.cone_angle,
                 )
-        z_h = self.inputparam.height / self.inputparam.module
         self.gearcore = Gear(
             tooth_param=self.update_tooth_param(),
             z_vals=np.array(
@@ -1687,10 +1689,13 @@ class CycloidGear(GearInfoMixin):
         gamma = self.inputparam.cone_angle / 2
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
 
+        z_h = self.inputparam.height / self.inputparam.module
+
         def crowning_func(z, offset=0):
+            # z is in module units, and it is 0 at the anchor
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
+                - ((z / z_h + self.inputparam.z_anchor) * 2 - 1) ** 2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
@@ -1721,7 +1726,6 @@ class CycloidGear(GearInfoMixin):
             rc_in_coeff=self.inputparam.inside_cycloid_coefficient,
             rc_out_coeff=self.inputparam.outside_cycloid_coefficient,
         )
-        z_h = self.inputparam.height / self.inputparam.module
         self.gearcore = Gear(
             tooth_param=self.update_tooth_param(),
             z_vals=np.array(
-- 
2.43.0


From d6a013e6b24b7b695842773d676cba9aafc02847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:01 +0000
Subject: [PATCH 16/45] fix: generating boundary edges rotated the gear it was
 called for

---
 src/gggears/gggears_build123d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 2f39e56..efbf60e 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -524,6 +524,9 @@ def generate_boundary_edges(
     if transform is None:
         # identity transform by default
         transform = GearTransform()
+    else:
+        # the angle is advanced below, the input should not be affected
+        transform = copy.copy(transform)
     nurb_profile = gearprofile_to_nurb(nurbprofile)
     # don't want to get more inputs about num of teeth, but without rounding this can
     # lose 1 tooth
-- 
2.43.0


From fc1e388a5e20803fe73b1067ad703269268d5c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:01 +0000
Subject: [PATCH 17/45] fix: center_spherical and z_height depended on the
 placement of the gear

---
 src/gggears/gggears_wrapper.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index a90cfaa..a8999ab 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -90,8 +90,7 @@ class GearInfoMixin:
         """Center of the gear-cone for bevel gears.
 
         Spherical refers to the spherical gear-boundary curves."""
-        center_sph = self.cone_data.center / self.module
-        return self.gearcore.transform(center_sph)
+        return self.cone_data.center
 
     def center_transform_at_z(self, z) -> GearTransform:
         """Returns the transform-data that represents the center point of a gear-slice
@@ -189,11 +188,7 @@ class GearInfoMixin:
         # the height parameter is rather the width of the gear teeth,
         # which is the height for cylindrical gears but not for bevel gears
         # that is why it is reverse engineered from the shape recipe
-        z0, z1 = self.gearcore.z_vals[1], self.gearcore.z_vals[0]
-        c0, c1 = self.gearcore.shape_recipe.transform.center(
-            z0
-        ), self.gearcore.shape_recipe.transform.center(z1)
-        return np.linalg.norm((self.gearcore.transform(c0 - c1)))
+        return np.linalg.norm(self.center_point_top - self.center_point_bottom)
 
     def radii_data_gen(self, z) -> GearRefCircles:
         """Generates the reference circles of the gear at a given z-value."""
-- 
2.43.0


From 7a288a9f1c6aca2328a033fe5709381728339842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:18 +0000
Subject: [PATCH 18/45] fix: height ratio of herringbone gears referred to the
 middle instead of the top

---
 src/gggears/gggears_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index a8999ab..7bba5d8 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -228,7 +228,7 @@ class GearInfoMixin:
         return self.radii_data_gen(self.gearcore.z_vals[-1])
 
     def proportion_to_z(self, prop):
-        return prop * self.gearcore.z_vals[1] + (1 - prop) * self.gearcore.z_vals[0]
+        return prop * self.gearcore.z_vals[-1] + (1 - prop) * self.gearcore.z_vals[0]
 
     def p2z(self, prop):
         return self.proportion_to_z(prop)
@@ -470,7 +470,7 @@ class InvoluteGear(GearInfoMixin):
             Ratio of the height of the gear where the slice should be taken.
             0 means at the bottom, 1 at the top. Default is 0.
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = z_ratio * self.gearcore.z_vals[-1] + (1 - z_ratio) * self.gearcore.z_vals[0]
         r = self.gearcore.shape_recipe(z).tooth_generator.get_base_radius()
         trf = self.gearcore.transform * self.gearcore.shape_recipe(z).transform
         circle_ref = crv.ArcCurve(radius=r, center=ORIGIN, angle=2 * PI).transform(trf)
@@ -731,7 +731,7 @@ class InvoluteGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = z_ratio * self.gearcore.z_vals[-1] + (1 - z_ratio) * self.gearcore.z_vals[0]
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
@@ -1920,7 +1920,7 @@ class CycloidGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = z_ratio * self.gearcore.z_vals[-1] + (1 - z_ratio) * self.gearcore.z_vals[0]
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
-- 
2.43.0


From e4a3f3fb6da2eee928ac5d57c696b584ff8f9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:53 +0000
Subject: [PATCH 19/45] fix: continuous boundary at a height ignored the
 transform of that height

---
 src/gggears/gggears_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index aa2021a..f71fe07 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -780,7 +780,7 @@ def generate_boundary(profile: GearRefProfile, toothdata: GearToothParam) -> crv
     def loc_func(t, curve=profile.profile):
         i = t * toothdata.num_teeth_act // 1
         t2 = t * toothdata.num_teeth_act % 1
-        return (
+        return profile.transform(
             curve(t2)
             @ scp_Rotation.from_euler("z", i * toothdata.pitch_angle).as_matrix().T
         )
@@ -790,7 +790,7 @@ def generate_boundary(profile: GearRefProfile, toothdata: GearToothParam) -> crv
         t0=0,
         t1=1,
         params={"curve": profile.profile},
-        lenght_approx_ndiv=toothdata.num_teeth * 20,
+        lenght_approx_ndiv=toothdata.num_teeth_act * 20,
     )
 
 
-- 
2.43.0


From 2ce5c12b233145a42aab3e54bc5db417cbe607ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:53 +0000
Subject: [PATCH 20/45] fix: cone angles of bevel pairs with non-perpendicular
 axes

---
 src/gggears/gearmath.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index cf58ce7..c512c0f 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -26,12 +26,12 @@ def cone_angle_from_teeth(
     np.ndarray
         Array containing the cone angles (in radians) for gear 1 and gear 2.
     """
-    cosfi = np.cos(axis_angle)
-    a = float(num_teeth_1)
-    b = float(num_teeth_2)
-    e = np.sqrt((-(b**2) - 2 * a * b * cosfi - a**2 * cosfi) / (cosfi - 1))
-    gamma2 = np.arctan(e / a)
-    gamma1 = np.pi - axis_angle - gamma2
+    # sin(gamma1) / sin(gamma2) = num_teeth_1 / num_teeth_2
+    # gamma1 + gamma2 = axis_angle
+    gamma2 = np.arctan2(
+        np.sin(axis_angle), float(num_teeth_1) / num_teeth_2 + np.cos(axis_angle)
+    )
+    gamma1 = axis_angle - gamma2
     return np.array((gamma1 * 2, gamma2 * 2))
 
 
-- 
2.43.0


From 8ca40f105a83524a5de82ad46310cdbf29f96caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:03 +0000
Subject: [PATCH 21/45] fix: backlash_from_ax_distance is the inverse of
 calc_involute_mesh_distance

---
 src/gggears/gearmath.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index c512c0f..8f4f749 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -140,19 +140,18 @@ def backlash_from_ax_distance(
         Backlash between the two gears.
     """
     if inside_ring:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (-angle_base_2)
+        d1 = r_base_1 * np.abs(angle_base_1)
+        d2 = r_base_2 * np.abs(angle_base_2)
+        bl_sign = np.sign(d2 - d1)
         a = np.arccos((r_base_2 - r_base_1) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_2 - r_base_1) = 0
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_2 - r_base_1)
+        # np.tan(a) - a = (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1)
+        backlash = 2 * bl_sign * (d2 - d1 - (np.tan(a) - a) * (r_base_2 - r_base_1))
     else:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (pitch_angle_2 / 2 + angle_base_2)
+        d1 = r_base_1 * angle_base_1
+        d2 = r_base_2 * (pitch_angle_2 / 2 - angle_base_2)
         a = np.arccos((r_base_1 + r_base_2) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_1 + r_base_2) = 0
-        # (d2 - d1 - backlash) / (r_base_1 + r_base_2) = -np.tan(a) + a
-        # (d2 - d1 - backlash) = ( -np.tan(a) + a) * (r_base_1 + r_base_2)
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_1 + r_base_2)
+        # a - np.tan(a) + (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2) = 0
+        backlash = 2 * (d2 - d1 + (np.tan(a) - a) * (r_base_1 + r_base_2))
     return backlash
 
 
-- 
2.43.0


From d41f1bc266d8a9376c87e5f6aab187d541684acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:24 +0000
Subject: [PATCH 22/45] fix: mesh distance solver stalled at low working
 pressure angles

---
 src/gggears/gearmath.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index 8f4f749..ff24a34 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -78,12 +78,9 @@ def calc_involute_mesh_distance(
         d1 = r_base_1 * np.abs(angle_base_1)
         d2 = r_base_2 * np.abs(angle_base_2)
         bl_sign = np.sign(d2 - d1)
-        sol = root(
-            lambda a: np.tan(a)
-            - a
-            + (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1),
-            0,
-        )
+        inv_a = -(d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1)
+        # the derivative is 0 at a = 0, so the solver can't start from there
+        sol = root(lambda a: np.tan(a) - a - inv_a, np.arctan(np.cbrt(3 * inv_a)))
         Dist = (r_base_2 - r_base_1) / np.cos(sol.x[0])
     else:
 
@@ -95,10 +92,9 @@ def calc_involute_mesh_distance(
         # )
         d1 = r_base_1 * ((angle_base_1))
         d2 = r_base_2 * (pitch_angle_2 / 2 - (angle_base_2))
-        sol = root(
-            lambda a: a - np.tan(a) + (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2),
-            0.0,
-        )
+        inv_a = (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2)
+        # the derivative is 0 at a = 0, so the solver can't start from there
+        sol = root(lambda a: np.tan(a) - a - inv_a, np.arctan(np.cbrt(3 * inv_a)))
         Dist = (r_base_1 + r_base_2) / np.cos(sol.x[0])
 
     return Dist
-- 
2.43.0


From 80d791cf714c3f4ec3b4a94a57555670fc34f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:24 +0000
Subject: [PATCH 23/45] fix: adapting cycloid radii moved meshed gears back to
 their original place

---
 src/gggears/gggears_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 7bba5d8..d6f07c5 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1904,8 +1904,11 @@ class CycloidGear(GearInfoMixin):
                 / other.number_of_teeth
                 * self.number_of_teeth
             )
-        self.calc_params()
-        other.calc_params()
+        for gear in (self, other):
+            # keep the current placement of the gears
+            transform = gear.gearcore.transform
+            gear.calc_params()
+            gear.gearcore.transform = transform
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
-- 
2.43.0


From 6acf89ba3fe843518902811459704516cfa42798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:52 +0000
Subject: [PATCH 24/45] fix: gears shared placement arrays with each other and
 with library constants

---
 src/gggears/gggears_base_classes.py |  4 ++--
 src/gggears/gggears_core.py         |  2 +-
 src/gggears/gggears_wrapper.py      | 22 +++++++++++++---------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index c1a1709..5cfa839 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -58,8 +58,8 @@ class TransformData:
         Scale factor of the transformation.
     """
 
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
-    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
+    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3.copy())
     scale: float = 1.0
 
     @property
diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index f71fe07..8e4f83e 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1062,7 +1062,7 @@ class Gear:
                 distance = self.rp + other.rp
             v0 = target_dir * distance + other.transform.center
             self.transform.center = v0
-            self.transform.orientation = other.transform.orientation
+            self.transform.orientation = other.transform.orientation.copy()
             self.transform.angle = calc_mesh_angle(
                 self.transform,
                 other.transform,
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index d6f07c5..db38d2e 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -582,7 +582,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.array(self.inputparam.center, dtype=float),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -699,7 +699,9 @@ class InvoluteGear(GearInfoMixin):
             )
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = (
                 calc_mesh_angle(
                     self.gearcore.transform,
@@ -714,9 +716,9 @@ class InvoluteGear(GearInfoMixin):
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
-        self.gearcore.transform.center = ORIGIN
-        self.gearcore.transform.orientation = UNIT3X3
-        self.gearcore.transform.angle = 0
+        self.gearcore.transform.center = np.array(self.inputparam.center, dtype=float)
+        self.gearcore.transform.orientation = UNIT3X3.copy()
+        self.gearcore.transform.angle = self.inputparam.angle
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
@@ -1748,7 +1750,7 @@ class CycloidGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.array(self.inputparam.center, dtype=float),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -1845,7 +1847,9 @@ class CycloidGear(GearInfoMixin):
                 distance = self.pitch_radius + other.pitch_radius
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = calc_mesh_angle(
                 self.gearcore.transform,
                 other.gearcore.transform,
@@ -2110,8 +2114,8 @@ class InvoluteRack:
         self.number_of_teeth = number_of_teeth
         self.height = height
         self.pressure_angle = pressure_angle
-        self.position = position
-        self.orientation = orientation
+        self.position = np.array(position, dtype=float)
+        self.orientation = np.array(orientation, dtype=float)
         self.offset = offset
         self.module = module
         self.root_fillet = root_fillet
-- 
2.43.0


From 80c016df4b34866cec798c55a490245e811eca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:18 +0000
Subject: [PATCH 25/45] fix: meshing core bevel gears ignored module and
 placement

---
 src/gggears/gggears_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 8e4f83e..0ac229e 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1031,8 +1031,8 @@ class Gear:
         if self.cone.cone_angle != 0 or other.cone.cone_angle != 0:
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
-                self.cone,
-                other.cone,
+                self.cone_at_z(0),
+                other.cone_at_z(0),
                 self.tooth_param.inside_teeth,
                 other.tooth_param.inside_teeth,
             )
-- 
2.43.0


From 3d4b80f7f82804d676ca129fcf181b9d9af75830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:18 +0000
Subject: [PATCH 26/45] fix: helical gear was tilted when meshed to a ring gear
 of the same helix angle

---
 src/gggears/gggears_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index db38d2e..73384ff 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1165,6 +1165,9 @@ class HelicalGear(InvoluteGear):
     def mesh_to(self, other, target_dir=RIGHT):
         # basic meshing
         super().mesh_to(other, target_dir)
+        if other.inside_teeth:
+            # ring gears share the helix angle of the pinion, axes remain parallel
+            return
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
         angle_axis = self.beta + other.beta
-- 
2.43.0


From dae3d3128032626facb14ca3f796b0dacf1ddced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:18 +0000
Subject: [PATCH 27/45] fix: default limits of undercut teeth were overwritten
 with None

---
 src/gggears/gearteeth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 9f55314..e40ca42 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -141,7 +141,8 @@ class InvoluteUndercutTooth(InvoluteTooth):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.CurveChain:
@@ -281,7 +282,8 @@ class OctoidUndercutTooth(GearToothConicGenerator):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.Curve:
-- 
2.43.0


From 018a8bf1e0a88d2c7e9bfeb8d7ef2bd6e60cae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:18 +0000
Subject: [PATCH 28/45] fix: bevel gears without undercut ignored their
 dedendum when extending the flank

---
 src/gggears/gggears_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 73384ff..c2914d1 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -554,6 +554,7 @@ class InvoluteGear(GearInfoMixin):
                     pressure_angle=self.inputparam.pressure_angle,
                     pitch_radius=rp_ref,
                     pitch_intersect_angle=lambda z: crowning_func(z, tooth_angle),
+                    ref_limits=limits,
                     cone_angle=self.inputparam.cone_angle,
                 )
         self.gearcore = Gear(
-- 
2.43.0


From fde76027fcd62384da1afbe84bed4959b66e62a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:18 +0000
Subject: [PATCH 29/45] fix: a failed build left a bevel gear with extended
 height

---
 src/gggears/gggears_build123d.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index efbf60e..c119e38 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -89,19 +89,22 @@ class GearBuilder(GearToNurbs):
         else:
             # gear construction by defining a reference solid (a blank)
             # and cutting it with the side surfaces
-            z_vals_save = copy.deepcopy(gear.z_vals)
+            z_vals_save = gear.z_vals
             zdiff = gear.z_vals[-1] - gear.z_vals[0]
             # extend z_vals by 10% to ensure cutting intersection for cutting (split op.)
+            gear.z_vals = copy.deepcopy(gear.z_vals)
             gear.z_vals[-1] += side_surface_extension_ratio * zdiff
             gear.z_vals[0] -= side_surface_extension_ratio * zdiff
-            super().__init__(
-                gear=gear,
-                n_points_hz=n_points_hz,
-                n_points_vert=n_points_vert,
-                oversampling_ratio=oversampling_ratio,
-            )
-            # restore original z_vals
-            self.gear.z_vals = z_vals_save
+            try:
+                super().__init__(
+                    gear=gear,
+                    n_points_hz=n_points_hz,
+                    n_points_vert=n_points_vert,
+                    oversampling_ratio=oversampling_ratio,
+                )
+            finally:
+                # restore original z_vals
+                gear.z_vals = z_vals_save
             side_surfaces = self.gen_side_surfaces()
 
             # parameters of ref_solid depend on accurate (original) z_vals
-- 
2.43.0


From 45205ab94c8e5531143b44338e9498a66fa71913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:28 +0000
Subject: [PATCH 30/45] fix: CAD edges of trimmed lines, arcs and transformed
 curves

---
 src/gggears/gggears_build123d.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index c119e38..d395139 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -556,7 +556,9 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
     """Converts a gggears ArcCurve to a build123d Edge object."""
     if (arc.t_0, arc.t_1) != (0, 1):
         # arc can be extended, better make a new one
-        arc2 = crv.ArcCurve.from_2_point_center(arc.p0, arc.p1, arc.center)
+        arc2 = crv.ArcCurve.from_point_center_angle(
+            arc.p0, arc.center, arc.angle * (arc.t_1 - arc.t_0), arc.axis
+        )
     else:
         arc2 = arc
 
@@ -584,7 +586,7 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
 
 def line_to_b123d(line: crv.LineCurve) -> bd.Edge:
     """Converts a gggears LineCurve to a build123d Edge object."""
-    return bd.Edge.make_line(np2v(line.p0), np2v(line.p1))
+    return bd.Edge.make_line(np2v(line(0)), np2v(line(1)))
 
 
 def curve_to_edges(curve: crv.Curve):
@@ -597,9 +599,7 @@ def curve_to_edges(curve: crv.Curve):
     elif isinstance(curve, crv.LineCurve):
         return [line_to_b123d(curve)]
     elif isinstance(curve, crv.TransformedCurve):
-        nurb = crv.convert_curve_nurbezier(curve.target_curve)
-        nurb.apply_transform(curve.transform_method)
-        return gen_splines(nurb)
+        return gen_splines(crv.convert_curve_nurbezier(curve))
     else:
         nurb = crv.convert_curve_nurbezier(curve)
         return gen_splines(nurb)
-- 
2.43.0


From 63cbd888702eb5d7b99810052baf142ffa5c11ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:20 +0000
Subject: [PATCH 31/45] fix: arc from two points missed its end for negative
 curvature, quadratic interpolation missed its middle point

---
 src/gggears/function_generators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index fd1dc30..99afd34 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -285,7 +285,8 @@ def arc_from_2_point(t, p0=RIGHT, p1=UP, curvature=1.0, axis=OUT, revolutions=0.
         )
         d_angle += revolutions * PI * 2
 
-        angles = t * axis * d_angle
+        # negative curvature turns the other way
+        angles = t * axis * d_angle * np.sign(r)
         rot1 = scp_Rotation.from_rotvec(angles)
         return center + rot1.apply((p0 - center)).reshape(VSHAPE)
 
@@ -542,7 +543,7 @@ def calc_nurbezier_arc(p0, p2, center):
 
 
 def calc_quadratic_bezier_interp(p0, p1, p2):
-    return np.array([p0, (4 * p1 - p0 - p2), p2])
+    return np.array([p0, (4 * p1 - p0 - p2) / 2, p2])
 
 
 def xyz_to_spherical(v, center=ORIGIN):
-- 
2.43.0


From 9cb1284f8aa65d875d2e306e87da82e7691693e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:50 +0000
Subject: [PATCH 32/45] fix: angle between vector and plane was arbitrary for
 vectors normal to the plane

---
 src/gggears/function_generators.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 99afd34..467a843 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -29,11 +29,9 @@ def angle_between_vectors(v1, v2):
 
 
 def angle_between_vector_and_plane(v, plane_normal):
-    v_plane = v - np.dot(v, plane_normal) * plane_normal
-    if np.linalg.norm(v_plane) == 0:
-        return PI / 2
-    else:
-        return angle_between_vectors(v_plane, v)
+    v_normal = np.dot(v, plane_normal)
+    v_plane = v - v_normal * plane_normal
+    return np.arctan2(np.abs(v_normal), np.linalg.norm(v_plane))
 
 
 def project_vector_to_plane(v, plane_normal):
-- 
2.43.0


From b5ba70c915c0cfb6a9ec34746841ee196694c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:04 +0000
Subject: [PATCH 33/45] fix: undercut bevel gears raised when the flank reaches
 the root by itself

---
 src/gggears/gearteeth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index e40ca42..407b576 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -550,8 +550,10 @@ def trim_involute_undercut(
             guess=guess,
             method=crv.IntersectMethod.MINDISTANCE,
         )
-    ps = tooth_curve.get_length_portions()
-    if sol.x[0] < ps[1]:
+    if (
+        isinstance(tooth_curve, crv.CurveChain)
+        and sol.x[0] < tooth_curve.get_length_portions()[1]
+    ):
         # undercut intersecting the involute-extension line is unlikely,
         # try again with a different guess
         sol = crv.find_curve_intersect(
-- 
2.43.0


From 36d8ee3d1a0bf709b84e35e71441da403bd66288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:05 +0000
Subject: [PATCH 34/45] fix: bevel gear flanks missed their root cone and were
 trimmed beyond their turning point

---
 src/gggears/gggears_base_classes.py | 40 ++++++++++++++++-------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index 5cfa839..da60fbb 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -3,6 +3,7 @@ import copy
 import gggears.curve as crv
 import numpy as np
 from gggears.defs import *
+from scipy.optimize import brentq, minimize_scalar
 from scipy.spatial.transform import Rotation as scp_Rotation
 from gggears.function_generators import angle_between_vector_and_plane
 
@@ -591,24 +592,27 @@ class GearToothConicGenerator(GearToothGenerator):
             R = self.conic_data.R
             h_d_angle = PI / 2 - gamma + self.ref_limits.h_d / R
             z_center = R * np.cos(gamma)
-            h_d_point = crv.find_curve_plane_intersect(
-                tooth_curve,
-                plane_normal=scp_Rotation.from_euler("y", h_d_angle).apply(OUT),
-                offset=z_center * OUT,
-                guess=0,
-            )
-            if not h_d_point.success:
-                h_d_point = crv.find_curve_plane_intersect(
-                    tooth_curve,
-                    plane_normal=scp_Rotation.from_euler("y", h_d_angle).apply(OUT),
-                    offset=z_center * OUT,
-                    method=crv.IntersectMethod.MINDISTANCE,
-                    guess=0,
-                )
-                tooth_curve.set_start_on(h_d_point.x[0])
-                bottom_angle = np.abs(
-                    angle_between_vector_and_plane(tooth_curve(0), OUT) - h_d_angle
+            h_d_normal = scp_Rotation.from_euler("y", h_d_angle).apply(OUT)
+
+            def h_d_cone_func(t):
+                # zero on the root cone at any angular position around the axis
+                p = tooth_curve(t) - z_center * OUT
+                return np.hypot(p[0], p[1]) * h_d_normal[0] + p[2] * h_d_normal[2]
+
+            # walk down the flank until the root cone or the turning point of the curve
+            step = 0.05
+            t_low = 0
+            while h_d_cone_func(t_low) > h_d_cone_func(t_low - step) > 0:
+                t_low -= step
+            if h_d_cone_func(t_low - step) > 0:
+                sol = minimize_scalar(
+                    h_d_cone_func,
+                    bounds=(t_low - step, t_low + step),
+                    method="bounded",
+                    options={"xatol": 1e-9},
                 )
+                tooth_curve.set_start_on(sol.x)
+                bottom_angle = np.arcsin(h_d_cone_func(0) / R)
                 connector_curve = crv.ArcCurve.from_point_center_angle(
                     p0=tooth_curve(0),
                     center=OUT * R * np.cos(gamma),
@@ -618,7 +622,7 @@ class GearToothConicGenerator(GearToothGenerator):
                 connector_curve.reverse()
                 return crv.CurveChain(connector_curve, tooth_curve)
             else:
-                tooth_curve.set_start_on(h_d_point.x[0])
+                tooth_curve.set_start_on(brentq(h_d_cone_func, t_low - step, t_low))
                 return tooth_curve
 
 
-- 
2.43.0


From d06c2096ebfb9e6f1ec48d45cafb623bcef94358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:50 +0000
Subject: [PATCH 35/45] fix: tip truncation of bevel gears considered crossings
 outside the flank

---
 src/gggears/gggears_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 0ac229e..0b92739 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -212,11 +212,12 @@ def apply_tip_reduction(
     for guess in np.linspace(0.1, 0.9, 4):
         sol1 = crv.find_curve_plane_intersect(tooth_curve, plane_normal=UP, guess=guess)
         r_sol = polar_transformer.polar_transform(tooth_curve(sol1.x[0]))[0]
-        if sol1.success and r_sol > rdh:
+        if sol1.success and r_sol > rdh and sol1.x[0] > 0:
             soldata.append((sol1, r_sol))
 
     if len(soldata) > 0:
-        sol, r_sol = soldata[np.argmin([soltuple[1] for soltuple in soldata])]
+        # the tip is the first crossing when going up the flank
+        sol, r_sol = soldata[np.argmin([soltuple[0].x[0] for soltuple in soldata])]
 
         if r_sol - tip_reduction < rah:
             if tip_reduction > 0:
-- 
2.43.0


From 3adf3d09830b668f48996422c9fa79394180501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:39 +0000
Subject: [PATCH 36/45] fix: fillet of a narrow root gap was placed far below
 the root

---
 src/gggears/gggears_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 0b92739..66d2013 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -310,9 +310,11 @@ def apply_fillet(
             plane_normal = UP
         mirror_curve = crv.MirroredCurve(tooth_curve, plane_normal=plane_normal)
         mirror_curve.reverse()
+        # the curve may extend below the root circle, search for the arc from there
+        t_root = sol1.x[0] if direction == 1 and sol1.success else 0
         start_locations = [
-            1 - fillet_radius / tooth_curve.length,
-            0 + fillet_radius / tooth_curve.length,
+            1 - t_root - fillet_radius / tooth_curve.length,
+            t_root + fillet_radius / tooth_curve.length,
         ]
 
         if direction == 1:
-- 
2.43.0


From a1d38b4f6ffcf6ad062a786b099936d9b282fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:47 +0000
Subject: [PATCH 37/45] fix: crowned gears were meshed too close, they
 overlapped in the middle

---
 src/gggears/gggears_wrapper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index c2914d1..97eddf6 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -453,9 +453,11 @@ class InvoluteGear(GearInfoMixin):
     def angle_base(self):
         """
         Angle of the starting point of the involute curve of a tooth in the
-        default position.
+        default position. With crowning, this refers to the middle of the gear where
+        the teeth are the thickest.
         """
-        tooth_gen = self.gearcore.shape_recipe(0).tooth_generator
+        z_mid = (self.gearcore.z_vals[0] + self.gearcore.z_vals[-1]) / 2
+        tooth_gen = self.gearcore.shape_recipe(z_mid).tooth_generator
         if isinstance(tooth_gen, (InvoluteTooth, InvoluteUndercutTooth)):
             return tooth_gen.get_base_angle()
         else:
-- 
2.43.0


From 93ee9a17c2ab8b270d42afacd70d43da19c6ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:48 +0000
Subject: [PATCH 38/45] fix: backlash and crowning made the teeth of ring gears
 thicker

---
 src/gggears/gggears_wrapper.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 97eddf6..f1c117f 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -494,11 +494,16 @@ class InvoluteGear(GearInfoMixin):
 
         z_h = self.inputparam.height / self.inputparam.module
 
+        # the profile of a ring gear is the gap between its teeth: it gets wider when
+        # backlash or crowning makes the teeth thinner
+        thinning_sign = -1 if self.inputparam.inside_teeth else 1
+
         def crowning_func(z, offset=0):
             # z is in module units, and it is 0 at the anchor
             return (
                 offset
                 - ((z / z_h + self.inputparam.z_anchor) * 2 - 1) ** 2
+                * thinning_sign
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
@@ -509,7 +514,7 @@ class InvoluteGear(GearInfoMixin):
             + self.inputparam.profile_shift
             * np.tan(self.inputparam.pressure_angle)
             / rp_ref
-            - self.inputparam.backlash / rp_ref
+            - thinning_sign * self.inputparam.backlash / rp_ref
         )
 
         spiral_coeff = np.tan(self.beta) / rp_ref
@@ -1694,17 +1699,22 @@ class CycloidGear(GearInfoMixin):
 
         z_h = self.inputparam.height / self.inputparam.module
 
+        # the profile of a ring gear is the gap between its teeth: it gets wider when
+        # backlash or crowning makes the teeth thinner
+        thinning_sign = -1 if self.inputparam.inside_teeth else 1
+
         def crowning_func(z, offset=0):
             # z is in module units, and it is 0 at the anchor
             return (
                 offset
                 - ((z / z_h + self.inputparam.z_anchor) * 2 - 1) ** 2
+                * thinning_sign
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
             )
 
-        tooth_angle = pitch_angle / 4 - self.inputparam.backlash / rp_ref
+        tooth_angle = pitch_angle / 4 - thinning_sign * self.inputparam.backlash / rp_ref
         spiral_coeff = np.tan(self.inputparam.helix_angle) / rp_ref
 
         def angle_func(z, coeff=spiral_coeff):
-- 
2.43.0


From fa1fd2ecc15d41e97f7f104a5b42050e29f72ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 39/45] fix: near tangent undercut of bevel gears was trimmed
 at a wrong point

---
 src/gggears/gearteeth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 407b576..1c524e1 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -543,7 +543,9 @@ def trim_involute_undercut(
 
     sol = crv.find_curve_intersect(tooth_curve, undercut_curve, guess=guess)
 
-    if not sol.success:
+    # near tangent intersections the solver may stall although it has found the point
+    gap = np.linalg.norm(tooth_curve(sol.x[0]) - undercut_curve(sol.x[1]))
+    if not sol.success and gap > 1e-6:
         sol = crv.find_curve_intersect(
             tooth_curve,
             undercut_curve,
-- 
2.43.0


From c278cb51864cc277192ce4e8de981538d9bb1646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:03 +0000
Subject: [PATCH 40/45] fix: line of action of tilted gears left the transverse
 plane

---
 src/gggears/gggears_wrapper.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index f1c117f..866744f 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1988,6 +1988,11 @@ class LineOfAction:
         center1 = self.gear1.center_point_at_z(self.gear1.p2z(self.z_ratio))
         center2 = self.gear2.center_point_at_z(self.gear2.p2z(self.z_ratio))
 
+        axis = self.gear1.gearcore.transform.z_axis
+
+        def rotate_in_plane(v, angle):
+            return scp_Rotation.from_rotvec(axis * angle).apply(v)
+
         def mirror_diffline(p):
             p1 = p - center1
             p_norm = p1 - np.dot(p1, diff_vector_unit) * diff_vector_unit
@@ -2000,9 +2005,9 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear2.addendum_radius**2 - rb2**2)
-            startpoint1 = center2 + rotate_vector(-diff_vector_unit, alpha) * rb2
+            startpoint1 = center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2
             endpoint1 = (
-                startpoint1 + rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1 + rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2016,9 +2021,9 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear1.addendum_radius**2 - rb1**2)
-            startpoint1 = center1 + rotate_vector(-diff_vector_unit, alpha) * rb1
+            startpoint1 = center1 + rotate_in_plane(-diff_vector_unit, alpha) * rb1
             endpoint1 = (
-                startpoint1 - rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1 - rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2032,12 +2037,12 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb1 + rb2) / distance)
             line1 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2,
             )
             line2 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, -alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, -alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, -alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, -alpha) * rb2,
             )
             return line1, line2
 
-- 
2.43.0


From 9c73d3a4263fa10682d25d0768b28ae04f4642ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:25 +0000
Subject: [PATCH 41/45] fix: rack offset was not scaled with the module

---
 src/gggears/gggears_wrapper.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 866744f..8a2aae6 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2227,8 +2227,10 @@ class InvoluteRack:
         )
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
@@ -2430,8 +2432,10 @@ class HelicalRack(InvoluteRack):
             self.part = bd.Part(bd.Part() + part0.fuse(part1))
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
-- 
2.43.0


From 16beed86e5c28e1caf28a052389c0b95812a9c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:56 +0000
Subject: [PATCH 42/45] fix: assigning a gear's center shared the array with
 the caller

---
 src/gggears/gggears_core.py    | 2 +-
 src/gggears/gggears_wrapper.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 66d2013..1b8b8d7 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -971,7 +971,7 @@ class Gear:
 
     @center.setter
     def center(self, value):
-        self.transform.center = value
+        self.transform.center = np.array(value, dtype=float)
 
     @property
     def center_sphere(self):
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 8a2aae6..e5191d4 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -83,7 +83,7 @@ class GearInfoMixin:
 
     @center.setter
     def center(self, value):
-        self.gearcore.transform.center = value
+        self.gearcore.transform.center = np.array(value, dtype=float)
 
     @property
     def center_spherical(self):
-- 
2.43.0


From a29f678e9c5cc7ad06b2a155e1cd7b678c8b5ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:43 +0000
Subject: [PATCH 43/45] fix: stalled undercut intersection left a gap in the
 tooth profile

---
 src/gggears/gearteeth.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 1c524e1..0334fea 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -552,6 +552,16 @@ def trim_involute_undercut(
             guess=guess,
             method=crv.IntersectMethod.MINDISTANCE,
         )
+        # the minimum search stops short of the point, finish with the root search
+        gap = np.linalg.norm(tooth_curve(sol.x[0]) - undercut_curve(sol.x[1]))
+        polished = crv.find_curve_intersect(
+            tooth_curve, undercut_curve, guess=sol.x[:2]
+        )
+        if (
+            np.linalg.norm(tooth_curve(polished.x[0]) - undercut_curve(polished.x[1]))
+            < gap
+        ):
+            sol = polished
     if (
         isinstance(tooth_curve, crv.CurveChain)
         and sol.x[0] < tooth_curve.get_length_portions()[1]
-- 
2.43.0


From 8d6d62e288f909a8cc20a593235c8ae08ab2fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:53 +0000
Subject: [PATCH 44/45] fix: core gears raised when z_vals is a plain list

---
 src/gggears/gggears_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 1b8b8d7..b127429 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -912,7 +912,7 @@ class Gear:
         cone: ConicData = None,
     ):
         self.module = module
-        self.z_vals = z_vals.astype(float)
+        self.z_vals = np.array(z_vals, dtype=float)
         if tooth_generator is None:
             # it is updated in the default recipe
             self.tooth_generator = GearToothConicGenerator()
@@ -926,7 +926,7 @@ class Gear:
             cone = ConicData()
         cone.base_radius = self.tooth_param.num_teeth / 2
         if shape_recipe is None:
-            z_copy = copy.deepcopy(z_vals)
+            z_copy = copy.deepcopy(self.z_vals)
             self.ref_curve_scaler = lambda z: (z) / (z_copy[-1] - z_copy[0])
             p0 = RIGHT * self.tooth_param.num_teeth / 2
             gamma_rot = scp_Rotation.from_euler("y", -cone.gamma)
-- 
2.43.0


From 8ec674cc3fd7f0081447afb559646db6abb6cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:53 +0000
Subject: [PATCH 45/45] fix: core gears changed and shared the tooth generator
 and cone they were given

---
 src/gggears/gggears_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index b127429..5810394 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -917,13 +917,16 @@ class Gear:
             # it is updated in the default recipe
             self.tooth_generator = GearToothConicGenerator()
         else:
-            self.tooth_generator = tooth_generator
+            # the default recipe sets its size, the caller's generator is not touched
+            self.tooth_generator = copy.deepcopy(tooth_generator)
         if tooth_param is None:
             self.tooth_param = GearToothParam()
         else:
             self.tooth_param = tooth_param
         if cone is None:
             cone = ConicData()
+        else:
+            cone = copy.deepcopy(cone)
         cone.base_radius = self.tooth_param.num_teeth / 2
         if shape_recipe is None:
             z_copy = copy.deepcopy(self.z_vals)
-- 
2.43.0

