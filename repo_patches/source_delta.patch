From 8d9eec4f13a7e18b42831373ba89a90398a0f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 01/49] fix: expmap.log is defined at (and numerically near)
 the identity rotation

---
 rainbow/math/expmap.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index 50442c5..f234398 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -1,7 +1,7 @@
 import rainbow.math.matrix3 as M3
 import rainbow.math.vector3 as V3
 import rainbow.math.quaternion as Q
-from math import cos, sin, pi, acos, fmod, fabs
+from math import cos, sin, pi, atan2, fmod, fabs
 from numpy import tan
 
 
@@ -95,10 +95,12 @@ def log(q):
         #    v = 2*t*n = 2*t*w / sin(t)
         #
         # If q is the identity quaternion the log(q) should map to zero vector. Recall that
-        # identity is given by q = [1 0 0 0] the above works for this.
-        t = acos(q[0])
-        s = sin(t)
-        f = 2 * t / s
+        # identity is given by q = [1 0 0 0]. There sin(t) is zero, and t/sin(t) has the limit value one.
+        #
+        # Observe that sin(t) = |w|, using atan2 keeps this well-defined when round-off makes |s| larger than one.
+        s = V3.norm(q[1:4])
+        t = atan2(s, q[0])
+        f = 2 * t / s if s > 0 else 2.0
         return V3.make(f * q[1], f * q[2], f * q[3])
     return V3.zero()
 
-- 
2.43.0


From b2a5cde0f49a487e3ce176d4deedeef4a3b1673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 02/49] fix: expmap.dRdv_i pairs the derivative with the
 quaternion it belongs to

---
 rainbow/math/expmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index f234398..c6469b3 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -227,7 +227,7 @@ def dRdv_i(v, i):
     :param i:
     :return:
     """
-    q = exp(v)
+    q = exp(v, reparm=False)  # dQdv_i differentiates the quaternion of v itself, not of its reparameterization
     dQdvi = dQdv_i(v, i)
     dRdvi = __dRdv_i(q, dQdvi)
     return dRdvi
\ No newline at end of file
-- 
2.43.0


From 8fbe2bf2753124a997b78889b130206378bb63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 03/49] fix: slerp of two almost equal rotations with opposite
 quaternion signs

---
 rainbow/math/quaternion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/math/quaternion.py b/rainbow/math/quaternion.py
index 610d029..a87137b 100644
--- a/rainbow/math/quaternion.py
+++ b/rainbow/math/quaternion.py
@@ -319,7 +319,9 @@ def slerp(a, b, t):
     small_angle_threshold = 0.9999999
 
     if dot > small_angle_threshold:
-        return unit(lerp(a, b, t))
+        # If signs are opposite then a and b are (almost) the same rotation, and a straight
+        # line from a to b would pass through zero.
+        return unit(lerp(-a, b, t)) if flip else unit(lerp(a, b, t))
 
     omega = acos(dot)
     sin_omega = sin(omega)
-- 
2.43.0


From 9974541b653dc7dfffa22fb969fff80d57cf0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 04/49] fix: direction_of_most_variance returns the eigenvector
 and not a row of the eigenvector matrix

---
 rainbow/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/functions.py b/rainbow/math/functions.py
index 8b2c133..0cef8f0 100644
--- a/rainbow/math/functions.py
+++ b/rainbow/math/functions.py
@@ -45,4 +45,4 @@ def direction_of_most_variance(P):
     """
     _, values, vectors = PCA(P)            # Returns eigenvalue not sorted
     largest_eigenv_idx = np.argmax(values)
-    return vectors[largest_eigenv_idx]
+    return vectors[:, largest_eigenv_idx]  # Eigenvectors are stored as columns
-- 
2.43.0


From bf11a232a8b476015bf8b62d5d726b021e8152bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 05/49] fix: ortonormalize does not overwrite its input matrix

---
 rainbow/math/matrix3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/matrix3.py b/rainbow/math/matrix3.py
index 6e09ba1..f5b6e37 100644
--- a/rainbow/math/matrix3.py
+++ b/rainbow/math/matrix3.py
@@ -53,8 +53,8 @@ def star(v):
 
 
 def ortonormalize(A):
-    row0 = A[0, :]
-    row1 = A[1, :]
+    row0 = np.array(A[0, :], dtype=np.float64)
+    row1 = np.array(A[1, :], dtype=np.float64)
     l0 = np.linalg.norm(row0)
     if l0 > 0.0:
         row0 /= l0
-- 
2.43.0


From 232ff6098a0a6d6bcbe6c48b27a00aaee65404fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 06/49] fix: to_str keeps the minus sign of the leading term of
 a polynomial

---
 rainbow/math/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/polynomial.py b/rainbow/math/polynomial.py
index 7a096fd..6158188 100644
--- a/rainbow/math/polynomial.py
+++ b/rainbow/math/polynomial.py
@@ -314,8 +314,8 @@ def to_str(P: Poly) -> str:
         if len(polynomial) > 0:
             if len(term) > 0:
                 polynomial += " " + sign + " " + term
-        else:
-            polynomial = term
+        elif len(term) > 0:
+            polynomial = "-" + term if sign == "-" else term
     return polynomial
 
 
-- 
2.43.0


From 361bbeee08e0919eeb5f3780252955d7f0f04772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 07/49] fix: numbers with leading zeros in the fraction or
 exponent are parsed

---
 rainbow/util/parse_string.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rainbow/util/parse_string.py b/rainbow/util/parse_string.py
index da2b387..d4ced9e 100644
--- a/rainbow/util/parse_string.py
+++ b/rainbow/util/parse_string.py
@@ -8,11 +8,13 @@ import pyparsing as pp
 '''
 
 Integer          = pp.Regex("([1-9]\d*|0)")
-Float            = Integer + "." + Integer
+Digits           = pp.Regex(r"[0-9]+")  # Leading zeros are fine in fractions and exponents: 1.05, 1e-05
+Float            = Integer + "." + Digits
 Number_unsigned  = (Float | Integer)
+Exponent         = (Float | Digits)
 Number_signed    = ("-" + Number_unsigned | Number_unsigned)
-Number_pos_scientific  = Number_signed + "e" + "+" + Number_unsigned
-Number_neg_scientific  = Number_signed + "e" + "-" + Number_unsigned
+Number_pos_scientific  = Number_signed + "e" + "+" + Exponent
+Number_neg_scientific  = Number_signed + "e" + "-" + Exponent
 Number_scientific      = (Number_pos_scientific | Number_neg_scientific)
 Number                 = (Number_scientific | Number_signed)
 Letters  = pp.Word(pp.alphas)
-- 
2.43.0


From 3f6b53dc8e46733e5a7979f07d27e0baa6c503be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 08/49] fix: Euler angles at gimbal lock do not depend on
 round-off

---
 rainbow/math/euler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/euler.py b/rainbow/math/euler.py
index f62b8d5..4d452d2 100644
--- a/rainbow/math/euler.py
+++ b/rainbow/math/euler.py
@@ -18,11 +18,15 @@ def make_euler_xyz_from_matrix(R):
     r21 = R[2, 1]
     r22 = R[2, 2]
 
-    if r20 >= 1.0:
+    # Round-off rarely leaves |r20| at exactly one. Closer to gimbal lock than this
+    # the angles of the general case would be computed from nothing but round-off.
+    gimbal_lock = 1.0 - 1e-14
+
+    if r20 >= gimbal_lock:
         rz = atan2(-r01, -r02)
         ry = -pi / 2.0
         rx = 0.0
-    elif r20 <= -1.0:
+    elif r20 <= -gimbal_lock:
         rz = atan2(-r01, r02)
         ry = pi / 2.0
         rx = 0.0
-- 
2.43.0


From 74a94eb5010791f7c1b88ea4de4121c9cd2dd588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 09/49] fix: grid3.get_gradient uses the cell size, not the
 grid corner, for local coordinates

---
 rainbow/geometry/grid3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/grid3.py b/rainbow/geometry/grid3.py
index 2f052c2..d7cea98 100644
--- a/rainbow/geometry/grid3.py
+++ b/rainbow/geometry/grid3.py
@@ -206,9 +206,9 @@ def get_gradient(grid, p):
     d101 = grid.get_node_value(i + 1, j, k + 1)
     d110 = grid.get_node_value(i + 1, j + 1, k)
     d111 = grid.get_node_value(i + 1, j + 1, k + 1)
-    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.min_coord[0]
-    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.min_coord[1]
-    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.min_coord[2]
+    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.spacing[0]
+    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.spacing[1]
+    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.spacing[2]
 
     #
     #             011
-- 
2.43.0


From 32a93ec820d692370dc73112556d30756b1d6469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 10/49] fix: generate_interior_sample_points keeps the interior
 points, not the face points

---
 rainbow/geometry/tetrahedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/tetrahedron.py b/rainbow/geometry/tetrahedron.py
index 6848b86..cfb8718 100644
--- a/rainbow/geometry/tetrahedron.py
+++ b/rainbow/geometry/tetrahedron.py
@@ -240,4 +240,4 @@ def generate_interior_sample_points(N):
              iso-parametric tetrahedron.
     """
     S = generate_sample_points(N)
-    return S[np.count_nonzero(S, axis=1) == 3]
+    return S[np.count_nonzero(S, axis=1) == 4]
-- 
2.43.0


From 95c7aea7c6388f8c8ed8d73254578b9f3fcace36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 11/49] fix: HashGird.insert does not return objects of an
 older time stamp or a live list

---
 rainbow/geometry/spatial_hashing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rainbow/geometry/spatial_hashing.py b/rainbow/geometry/spatial_hashing.py
index 68df209..608a8b8 100644
--- a/rainbow/geometry/spatial_hashing.py
+++ b/rainbow/geometry/spatial_hashing.py
@@ -189,8 +189,11 @@ class HashGird:
             self.hash_tbale[hv] = HashCell()
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
         else:
-            overlaps = self.hash_tbale[hv].object_list
-            self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
+            cell = self.hash_tbale[hv]
+            # Objects of an older time stamp are no longer in the cell, and the list must not change as objects are added
+            if cell.time_stamp >= time_stamp:
+                overlaps = list(cell.object_list)
+            cell.add((tri_idx, body_idx, tri_aabb), time_stamp)
         return overlaps
     
     @classmethod
-- 
2.43.0


From 8a14a9bf9a8abac817b69fa60be1b9ac4d8ebf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 12/49] fix: interior points are inside even if their
 barycentric coordinates sum up to 1 plus round-off

---
 rainbow/geometry/barycentric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/barycentric.py b/rainbow/geometry/barycentric.py
index 23cccd4..57529b0 100644
--- a/rainbow/geometry/barycentric.py
+++ b/rainbow/geometry/barycentric.py
@@ -149,7 +149,7 @@ def is_inside_edge(w1, w2) -> bool:
         return False
     if w2 > 1.0:
         return False
-    if w1 + w2 > 1.0:
+    if w1 + w2 > 1.0 + 1e-12:  # barycentric coordinates only sum up to 1 within round-off
         return False
     if w1 + w2 < 0.0:
         return False
@@ -180,7 +180,7 @@ def is_inside_triangle(w1, w2, w3) -> bool:
         return False
     if w3 > 1.0:
         return False
-    if w1 + w2 + w3 > 1.0:
+    if w1 + w2 + w3 > 1.0 + 1e-12:  # barycentric coordinates only sum up to 1 within round-off
         return False
     if w1 + w2 + w3 < 0.0:
         return False
@@ -217,7 +217,7 @@ def is_inside_tetrahedron(w1, w2, w3, w4) -> bool:
         return False
     if w4 > 1.0:
         return False
-    if w1 + w2 + w3 + w4 > 1.0:
+    if w1 + w2 + w3 + w4 > 1.0 + 1e-12:  # barycentric coordinates only sum up to 1 within round-off
         return False
     if w1 + w2 + w3 + w4 < 0.0:
         return False
-- 
2.43.0


From 1c5be94e39b56042ec2c70a74c95a7644a4cfc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 13/49] fix: all children of a subdivided tetrahedron have its
 orientation

---
 rainbow/geometry/volume_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/volume_mesh.py b/rainbow/geometry/volume_mesh.py
index 3ba8ee0..476cadf 100644
--- a/rainbow/geometry/volume_mesh.py
+++ b/rainbow/geometry/volume_mesh.py
@@ -210,7 +210,7 @@ def create_loop_subdivision(V, T):
         jm, pjm = create_midpoint(j, m, pj, pm, lut, offset)
         km, pkm = create_midpoint(k, m, pk, pm, lut, offset)
         T[e] = [im, jm, km, m]
-        T[last] = [ij, ik, im, i]
+        T[last] = [ik, ij, im, i]
         T[last + 1] = [ij, jk, jm, j]
         T[last + 2] = [ik, km, jk, k]
         T[last + 3] = [ik, im, ij, jm]
-- 
2.43.0


From dee290adaa81713500e0996f429c4d7aa6d64eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 14/49] fix: the body frame of shapes with repeated principal
 moments is orthonormal

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index a35d75c..bca0f59 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -301,7 +301,8 @@ def __rotate_to_model_space_orientation(prop: MassProperties) -> tuple[np.ndarra
         prop.Izz,
     )
 
-    d, R = np.linalg.eig(A)
+    # The inertia tensor is symmetric, with eigh the eigenvectors are orthonormal even for repeated eigenvalues.
+    d, R = np.linalg.eigh(A)
 
     permutations = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
 
-- 
2.43.0


From 08619fc3ac588ae02c99642f905149ff7f37022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 15/49] fix: small or light solids keep their mass and inertia

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index bca0f59..d2879f2 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -269,14 +269,12 @@ def compute_mass_properties(V: np.ndarray, T: np.ndarray, density: float) -> Mas
         )
     # We clamp computed values to zero if they are very tiny numbers.
     # This is mainly due to making inertia tensor more human-readable when printing it.
-    too_small = 1.0e-10
-    prop.mass = prop.mass if prop.mass > too_small else 0.0
-    prop.Ixx = prop.Ixx if prop.Ixx > too_small else 0.0
-    prop.Iyy = prop.Iyy if prop.Iyy > too_small else 0.0
-    prop.Izz = prop.Izz if prop.Izz > too_small else 0.0
+    # Tiny is relative to the size of the tensor, small or light objects do have mass and inertia too.
+    too_small = 1.0e-10 * (prop.Ixx + prop.Iyy + prop.Izz)
     prop.Ixy = prop.Ixy if abs(prop.Ixy) > too_small else 0.0
     prop.Iyz = prop.Iyz if abs(prop.Iyz) > too_small else 0.0
     prop.Ixz = prop.Ixz if abs(prop.Ixz) > too_small else 0.0
+    too_small = 1.0e-10
     prop.x = prop.x if abs(prop.x) > too_small else 0.0
     prop.y = prop.y if abs(prop.y) > too_small else 0.0
     prop.z = prop.z if abs(prop.z) > too_small else 0.0
@@ -347,7 +345,7 @@ def __translate_to_body_space_origin(prop_model: MassProperties) -> tuple[np.nda
     prop_body.Iyy = prop_model.Iyy - m * (x * x + z * z)
     prop_body.Izz = prop_model.Izz - m * (x * x + y * y)
 
-    too_small = 1.0e-10
+    too_small = 1.0e-10 * (prop_body.Ixx + prop_body.Iyy + prop_body.Izz)
     prop_body.Ixy = prop_model.Ixy + m * (x * y)
     prop_body.Ixy = prop_body.Ixy if np.abs(prop_body.Ixy) > too_small else 0.0
     prop_body.Ixz = prop_model.Ixz + m * (x * z)
-- 
2.43.0


From 8c4a8dc5d67c1d22ba4cc8fe0be3ce5386334d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 16/49] fix: surface interactions own their friction
 coefficients

---
 rainbow/simulators/prox_rigid_bodies/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 53c3bfb..067e764 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -669,7 +669,7 @@ def create_surfaces_interaction(engine, A: str, B: str, epsilon: float, mu) -> N
     key = tuple(tmp)
     behaviour = SurfacesInteraction()
     behaviour.epsilon = epsilon
-    behaviour.mu = mu
+    behaviour.mu = np.array(mu, dtype=np.float64)
     engine.surfaces_interactions.storage[key] = behaviour
 
 
-- 
2.43.0


From 23bfe7f5ac9f248e1a5ee74bdf87c1e5f5033467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 17/49] fix: contacts close to the border of a rigid body's
 signed distance grid are not dropped

---
 rainbow/simulators/prox_rigid_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index 5ec9c91..db4f09a 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -169,7 +169,7 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.shape.grid, x_i):
+        if GRID.is_inside(bodyB.shape.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.shape.grid, x_i)
-- 
2.43.0


From fd6abb2c41296f311dd66e1544103d6dd1a565f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 18/49] fix: simulate does not take an extra time-step of
 round-off size

---
 rainbow/simulators/prox_rigid_bodies/api.py | 4 +++-
 rainbow/simulators/prox_soft_bodies/api.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 067e764..2532694 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -687,7 +687,9 @@ def simulate(engine: Engine, T: float, profiling_on: bool = False) -> None:
     if engine.stepper is None:
         raise ValueError("A time-stepper must be initialized")
     T_left = T
-    while T_left:
+    # A remainder at round-off level (say 1e-17) is not a time-step to be taken.
+    round_off = 1e-9 * min(T, engine.params.time_step)
+    while T_left > round_off:
         dt = min(T_left, engine.params.time_step)
         engine.stepper.step(dt, engine, profiling_on)
         T_left -= dt
diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 9585287..626214e 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -398,7 +398,9 @@ def simulate(engine, T: float, debug_on: bool = False) -> None:
     if engine.stepper is None:
         engine.stepper = SOLVER.SemiImplicitStepper(engine, debug_on)
     T_left = T
-    while T_left:
+    # A remainder at round-off level (say 1e-17) is not a time-step to be taken.
+    round_off = 1e-9 * min(T, engine.params.time_step)
+    while T_left > round_off:
         dt = min(T_left, engine.params.time_step)
         engine.stepper.step(dt, engine, debug_on)
         T_left -= dt
-- 
2.43.0


From 78f5e8e31010aa1a3152fa0ad38419ea3698eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 19/49] fix: friction of a rigid body contact opposes its
 sliding direction

---
 rainbow/simulators/prox_rigid_bodies/constraints/contacts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py b/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py
index 51b2fb4..dca16ef 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py
@@ -50,6 +50,10 @@ class Contacts(Problem):
         self.diag[self.diag == 0] = 1
 
         self.r = 1.0 / self.diag  # Initial r-factor values for prox solver.
+        # The two tangential components of a contact must share their r-factor. Otherwise, the fixed point of the prox
+        # iterations is a friction force that does not oppose the sliding direction.
+        r_t = self.r.reshape(-1, 4)[:, 1:3]
+        r_t[:] = r_t.min(axis=1, keepdims=True)
         self.x = np.zeros(self.b.shape, dtype=np.float64)  # The current solution
         self.sol = np.zeros(self.b.shape, dtype=np.float64)  # The last best known convergent solution
         self.error = np.zeros(self.b.shape, dtype=np.float64)  # The residual vector
-- 
2.43.0


From b8870076d2e3638ef405ce18cee7019c5abfa864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 20/49] fix: contact optimization uses and tests the
 directional derivative towards the triangle corners

---
 .../prox_rigid_bodies/collision_detection.py       | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index db4f09a..0cb756d 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -148,21 +148,21 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
             # Pick the triangle vertex 's_i' which minimizes the dot product with
             # the current gradient at 'x_i'. That is the vertex with "largest" descent.
             objectives = [
-                np.dot(s_i, GRID.get_gradient(bodyB.shape.grid, x_i)) for s_i in p_bs
+                np.dot(s_i - x_i, GRID.get_gradient(bodyB.shape.grid, x_i)) for s_i in p_bs
             ]
             vertex = np.argmin(objectives)
             s_i = p_bs[vertex]
+            # Before continuing to the next iterate we check for convergence to see if we can make
+            # an early exit. Our objective is the directional derivative in the direction of the corner point. If the
+            # smallest directional derivative is not negative (up to round-off), then moving in the direction of any
+            # corner point moves us away from the minimizer, so we are there.
+            if objectives[vertex] > -engine.params.contact_optimization_tolerance - 1e-10:
+                break
             # Knowing that 's_i' has a "better" descent direction we update 'x_i' by "dragging" it
             # in the direction of 's_i'. The step-size that we update 'x_i' with is given by alpha.
             # We decrease the value of alpha as we iterate to ensure we do not overstep our minimizer.
             alpha = 2 / (i + 2)
             x_i = x_i + alpha * (s_i - x_i)
-            # Before continuing to the next iterate we check for convergence to see if we can make
-            # an early exit. We use a simple tolerance test. Note that our "objective" is more like the directional
-            # derivative. Hence, if the smallest directional derivative gets slightly positive then it means we will
-            # move away from the "minimizer" and we can not find any other corner point with a better descent direction.
-            if objectives[vertex] > engine.params.contact_optimization_tolerance:
-                break
         if profiling_on:
             contact_optimization_timer.end()
             contact_point_generation_timer.start()
-- 
2.43.0


From 990b91d4629f19ad6810628484462229d1d5c5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 21/49] fix: stabilization of hinges reduces the joint error
 instead of amplifying it

---
 rainbow/simulators/prox_rigid_bodies/constraints/hinges.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
index e8e4491..677d64a 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
@@ -210,9 +210,9 @@ class Hinges(Problem):
 
             u = V3.cross(n_p, n_c)
 
-            g[offset:offset + 3] = (r_c - r_p)
-            g[offset + 3] = t_p.dot(u)
-            g[offset + 4] = b_p.dot(u)
+            g[offset:offset + 3] = (r_p - r_c)
+            g[offset + 3] = -t_p.dot(u)
+            g[offset + 4] = -b_p.dot(u)
         rate = engine.params.gap_reduction / dt
         g *= rate
         return g
-- 
2.43.0


From 08a170b9a61248169f1438919401993f08e10ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 22/49] fix: prox_ellipsoid can be called (an engine is no
 argument for a compiled function)

---
 rainbow/simulators/proximal_contact/proximal_operators.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rainbow/simulators/proximal_contact/proximal_operators.py b/rainbow/simulators/proximal_contact/proximal_operators.py
index e44c652..88a5a37 100644
--- a/rainbow/simulators/proximal_contact/proximal_operators.py
+++ b/rainbow/simulators/proximal_contact/proximal_operators.py
@@ -39,7 +39,6 @@ def prox_origin(z_s, z_t, z_tau, mu, x_n):
     return 0.0, 0.0, 0.0
 
 
-@nb.njit(cache=True)
 def prox_ellipsoid(engine, z_s, z_t, z_tau, mu_s, mu_t, mu_tau, x_n):
     # 2022-05-09 Kenny TODO: This interface is currently not compatible with
     #                   the friction_solver interface that we assume in the
-- 
2.43.0


From 79300c1632df30385a05e05434d2f2d42c81120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 23/49] fix: friction of the proximal contact solvers opposes
 the sliding direction

---
 rainbow/simulators/proximal_contact/solver_interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rainbow/simulators/proximal_contact/solver_interface.py b/rainbow/simulators/proximal_contact/solver_interface.py
index 623c149..daf8adf 100644
--- a/rainbow/simulators/proximal_contact/solver_interface.py
+++ b/rainbow/simulators/proximal_contact/solver_interface.py
@@ -46,6 +46,10 @@ class SolverInterface(ABC):
         delassus_diag = np.sum(self.J.multiply(self.WJT.T), axis=1).A1
         delassus_diag[delassus_diag == 0] = 1
         self.r = 0.1 / delassus_diag
+        # The two tangential components of a contact must share their r-factor. Otherwise, the fixed point of the prox
+        # iterations is a friction force that does not oppose the sliding direction.
+        r_t = self.r.reshape(-1, 4)[:, 1:3]
+        r_t[:] = r_t.min(axis=1, keepdims=True)
     
     def update_r_factor_and_handle_sol_state(self):
         """ Update the r-factor value.
-- 
2.43.0


From 386515990d70b1f1566d663996671e8367ac15d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 24/49] fix: parallel Gauss-Seidel works on a machine with one
 core

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 8d16276..c2565bb 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -99,7 +99,7 @@ class ParallelGaussSeidelSolver(SolverInterface):
         color_groups = BLOCKING.greedy_graph_coloring(G)
 
         # Set the number of threads
-        nb.set_num_threads(4 if (nb.config.NUMBA_NUM_THREADS // 2) >= 4 else nb.config.NUMBA_NUM_THREADS // 2)
+        nb.set_num_threads(4 if (nb.config.NUMBA_NUM_THREADS // 2) >= 4 else max(1, nb.config.NUMBA_NUM_THREADS // 2))
 
         # Compute the new contact force
         w0 = self.WJT.dot(self.x)
-- 
2.43.0


From 7b778fc5907cad8e91b72e20f6f7bff1cd4ffd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 25/49] fix: the energy of the SNH model is the potential of
 its stress (natural logarithm)

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 62d695b..7bf1510 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -159,7 +159,7 @@ class SNH:
         return (
             0.5 * mu_ * (I_C - 3)
             + 0.5 * lambda_ * np.square(J - alpha)
-            - 0.5 * mu_ * np.log2(I_C + 1)
+            - 0.5 * mu_ * np.log(I_C + 1)
         )
 
 
-- 
2.43.0


From f7754969d2a085bc6f15c26b75f9d0debb02044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 26/49] fix: COR material decomposes single deformation
 gradients

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 7bf1510..309e3a8 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -211,7 +211,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The first Piola-Kirchhoff stress tensor
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         return (lambda_in * np.trace(S - np.eye(3))) * R + (2 * mu_in) * (F - R)
 
     @staticmethod
@@ -222,7 +222,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The energy density.
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         #  mu ||F - R||_F^2 + (lambda/2) tr^2 (R^T F - I)
         return mu_in * np.square(np.linalg.norm(F - R, ord="fro")) + (
             lambda_in / 2
-- 
2.43.0


From 8440acc301de065318fcce94dbb62aa4a6b17394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 27/49] fix: traction forces integrate to area times load
 (determinant of the face map)

---
 rainbow/simulators/prox_soft_bodies/solver.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index e1dc018..e645d8e 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -339,17 +339,18 @@ class Native:
             #                      I_3x3    I_3x3 2*I_3x3; ]
             # --- The spatial load force
             #
-            #     lf(f) = A(f) * L * [li; lj; lk]
+            #     lf(f) = 2 A(f) * L * [li; lj; lk]
             #
-            #   where load = (li,lj,lk) is the applied surface traction.
+            #   where 2 A(f) is the determinant of the map from the iso-parametric triangle to face f
+            #   and load = (li,lj,lk) is the applied surface traction.
             load = traction.traction
-            Ft[traction.i] += (A / 24) * (
+            Ft[traction.i] += (2 * A / 24) * (
                 2 * np.dot(Id, load) + np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.j] += (A / 24) * (
+            Ft[traction.j] += (2 * A / 24) * (
                 np.dot(Id, load) + 2 * np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.k] += (A / 24) * (
+            Ft[traction.k] += (2 * A / 24) * (
                 np.dot(Id, load) + np.dot(Id, load) + 2 * np.dot(Id, load)
             )
         return Ft
-- 
2.43.0


From 3270a3db61831a6f656917fb97f4a7eff27d1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 28/49] fix: soft-body materials without a described
 interaction use the default one

---
 rainbow/simulators/prox_soft_bodies/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/types.py b/rainbow/simulators/prox_soft_bodies/types.py
index 39cad06..45234ac 100644
--- a/rainbow/simulators/prox_soft_bodies/types.py
+++ b/rainbow/simulators/prox_soft_bodies/types.py
@@ -30,12 +30,12 @@ class SurfacesInteractionLibrary:
     def get_interaction(self, A, B):
         """
         This method retrieves the surface interaction description
-        between the given material names.
+        between the given material names, or the default interaction if none has been described.
         """
         key = (A, B) if A < B else (B, A)
         if key in self.storage:
             return self.storage[key]
-        return None
+        return self.storage[("default", "default")]
 
     def exist_interaction(self, A, B):
         """
-- 
2.43.0


From 79f1477f39bb1bdfd323c4b62a4fe633b6899b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 29/49] fix: soft-body post-stabilization uses contact blocks
 of four rows and nodal displacements

---
 rainbow/simulators/prox_soft_bodies/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index e645d8e..2bebbeb 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -964,11 +964,11 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
         timer = Timer("apply_post_stabilization")
         timer.start()
     K = len(engine.contact_points)
-    g = np.zeros(3 * K, dtype=np.float64)
+    g = np.zeros(4 * K, dtype=np.float64)  # Contact blocks have 4 rows
     for k in range(K):
         cp = engine.contact_points[k]
         if cp.g < -engine.params.min_gap_value:
-            g[3 * k + 0] = cp.g
+            g[4 * k + 0] = cp.g
 
     # If the gap to correct is all zeros, then just return
     if not g.any():
@@ -985,7 +985,7 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
     # TODO 2021-12-07 Kenny: This seems a bit silly to make this conversion. It should be abstracted
     #  away such that a developer can focus more on the high-level aspects of time integration and
     #  writing solver code.
-    np.reshape(delta_x, (-1, 3))
+    delta_x = np.reshape(delta_x, (-1, 3))
     # ---------------------------------------------------------------------
 
     x = get_position_vector(engine)
-- 
2.43.0


From 35f729ad294e6fce095516b6fc7ce375b1d80326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 30/49] fix: contact normals of deformed soft bodies are mapped
 by the inverse transposed deformation gradient

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 49723f4..eeff786 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -263,7 +263,8 @@ def _xform_contact_to_world(p, n, XA, XB, X0B):
     omegaA = BC.compute_barycentric_tetrahedron(XA[0], XA[1], XA[2], XA[3], p)
     D = XB[0:3] - XB[3]
     D0 = X0B[0:3] - X0B[3]
-    n = D.dot(np.linalg.solve(D0, n))
+    # Rows of D and D0 are edge vectors, so D = D0 F^T, and a normal (gradient) is mapped by F^{-T}
+    n = np.linalg.solve(D, D0.dot(n))
     return p, n, omegaA, omegaB
 
 
-- 
2.43.0


From 9e7ca7776fca388774765e25083f56f019957cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 31/49] fix: spatial hashing finds soft-body geometry within
 the envelope

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index eeff786..d5ede69 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -145,9 +145,10 @@ def _spatial_hashing_narrow_phase(engine, stats, debug_on):
 
     for body in engine.bodies.values():
         tri_vertices = body.x[body.surface, :]
-        # Compute the AABB of each triangle by vectorizing the min/max operation
-        tri_aabb_min = np.min(tri_vertices, axis=1)
-        tri_aabb_max = np.max(tri_vertices, axis=1)
+        # Compute the AABB of each triangle by vectorizing the min/max operation. As in the BVH the boxes are expanded
+        # by the envelope, so all geometry within the envelope is found.
+        tri_aabb_min = np.min(tri_vertices, axis=1) - engine.params.envelope
+        tri_aabb_max = np.max(tri_vertices, axis=1) + engine.params.envelope
         cell_min = (tri_aabb_min / cell_size).astype(int)
         cell_max = (tri_aabb_max / cell_size).astype(int) + 1
 
-- 
2.43.0


From 73f9b53695741e4b0acb77491c16a288d0d54cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 32/49] fix: fixed soft bodies do not move and contacts treat
 constrained nodes as immovable

---
 rainbow/simulators/prox_soft_bodies/solver.py | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 2bebbeb..79d6ff1 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1022,13 +1022,30 @@ def apply_boundary_conditions_on_velocities(u: np.array, engine) -> None:
     :param engine:      The current engine instance we are working with.
     """
     for body in engine.bodies.values():
-        if len(body.dirichlet_conditions) > 0:
+        if body.is_fixed:
+            u[body.offset : body.offset + len(body.x)] = 0.0
+        elif len(body.dirichlet_conditions) > 0:
             # 2022-03-24 Kenny: TODO This is performance wise not the best
             #                    way to do it. Indices could be precomputed.
             indices = np.array([dc.idx for dc in body.dirichlet_conditions])
             u[indices + body.offset] = 0.0
 
 
+def apply_boundary_conditions_on_inverse_mass_matrix(W, engine):
+    """
+    Apply boundary conditions. The nodes of fixed bodies and nodes with Dirichlet conditions can not be moved by
+    any force, so contact problems must see them as having infinite mass.
+
+    :param W:           The inverse mass matrix.
+    :param engine:      The current engine instance we are working with.
+    :return:            The inverse mass matrix with zero rows and columns for all constrained nodes.
+    """
+    free = np.ones((engine.number_of_nodes, 3), dtype=np.float64)
+    apply_boundary_conditions_on_velocities(free, engine)
+    D = sparse.diags(np.reshape(free, (-1)))
+    return sparse.csr_matrix(D.dot(W).dot(D))
+
+
 class SemiImplicitStepper:
     """
     This class implements a semi-implicit first order Euler time-stepper.
@@ -1090,6 +1107,8 @@ class SemiImplicitStepper:
         # ---------------------------------------------------------------------
 
         u_prime = u + dt * self.W.dot(F_tot)
+        # The contact problem must see constrained nodes at rest.
+        apply_boundary_conditions_on_velocities(np.reshape(u_prime, (-1, 3)), engine)
 
         # TODO 2021-12-07 Kenny: The whole collision detection system uses body positions (state info) stored in body
         #  instances and not stored in global position vectors. This provides a design problem if one wish to perform
@@ -1109,7 +1128,7 @@ class SemiImplicitStepper:
         if len(engine.contact_points) > 0:
 
             J = compute_jacobian_matrix(engine, stats, debug_on)
-            WJT = self.W.dot(J.T)
+            WJT = apply_boundary_conditions_on_inverse_mass_matrix(self.W, engine).dot(J.T)
 
             if engine.params.use_pre_stabilization:
                 raise ValueError("Pre-stabilization has not been implemented")
-- 
2.43.0


From eb2cb7a901f4667bc7374e92e91489edb8f88321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 33/49] fix: soft-body masses follow material changes, bodies
 default to the default material

---
 rainbow/simulators/prox_soft_bodies/api.py    | 44 ++++++++++++++-----
 rainbow/simulators/prox_soft_bodies/solver.py |  2 +
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 626214e..8cf8b3f 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -97,7 +97,9 @@ def create_soft_body(engine, body_name, V, T) -> None:
     body.offset = engine.number_of_nodes
     engine.number_of_nodes += len(body.x0)
 
-    
+    # If nothing else is specified then the body is made of the default material.
+    set_material(engine, body_name, "default")
+
 
 def create_dirichlet_conditions(engine, body_name, phi) -> None:
     """
@@ -263,6 +265,27 @@ def create_material(engine, material_name) -> None:
     engine.materials[material_name] = material
 
 
+def _update_element_arrays(engine, body) -> None:
+    """
+    Recompute everything that has been precomputed from the material of a body.
+
+    :param engine:   The engine that contains the body.
+    :param body:     The body with new material parameters.
+    :return:         Nothing.
+    """
+    body.M_array = SOLVER.Native.compute_mass_element_array(
+        body.material_description.rho,
+        body.vol0,
+        body.T,
+        body.is_lumped
+    )
+    body.C_array = SOLVER.Native.compute_damping_element_array(
+        body.material_description.c, body.vol0, body.T, body.is_lumped
+    )
+    if engine.stepper is not None:
+        engine.stepper.W = None  # The inverse mass matrix is out of date
+
+
 def set_material(engine, body_name, material_name) -> None:
     """
     Assign the given material to the given body.
@@ -277,17 +300,8 @@ def set_material(engine, body_name, material_name) -> None:
     body = engine.bodies[body_name]
     if material_name not in engine.materials:
         raise ValueError("Engine did not have a material with name ", material_name)
-    material = engine.materials[material_name]
-    body.material_description = material
-    body.M_array = SOLVER.Native.compute_mass_element_array(
-        body.material_description.rho,
-        body.vol0,
-        body.T,
-        body.is_lumped
-    )
-    body.C_array = SOLVER.Native.compute_damping_element_array(
-        body.material_description.c, body.vol0, body.T, body.is_lumped
-    )
+    body.material_description = engine.materials[material_name]
+    _update_element_arrays(engine, body)
 
 
 def set_elasticity(engine, material_name, E, nu) -> None:
@@ -326,6 +340,9 @@ def set_viscosity(engine, material_name, c) -> None:
         raise ValueError("c must be non-negative")
     material = engine.materials[material_name]
     material.c = c
+    for body in engine.bodies.values():
+        if body.material_description is material:
+            _update_element_arrays(engine, body)
 
 
 def set_mass_density(engine, material_name, rho) -> None:
@@ -343,6 +360,9 @@ def set_mass_density(engine, material_name, rho) -> None:
         raise ValueError("rho must be non-negative")
     material = engine.materials[material_name]
     material.rho = rho
+    for body in engine.bodies.values():
+        if body.material_description is material:
+            _update_element_arrays(engine, body)
 
 
 def set_constitutive_model(engine, material_name, model) -> None:
diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 79d6ff1..2fab859 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1106,6 +1106,8 @@ class SemiImplicitStepper:
         F_tot = np.reshape(F_tot, (-1))
         # ---------------------------------------------------------------------
 
+        if self.W is None:
+            self.W = compute_inverse_mass_matrix(engine, stats, debug_on)
         u_prime = u + dt * self.W.dot(F_tot)
         # The contact problem must see constrained nodes at rest.
         apply_boundary_conditions_on_velocities(np.reshape(u_prime, (-1, 3)), engine)
-- 
2.43.0


From 028a8c310403f8d50e1a07c5f0ab5a434c68fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 34/49] fix: triangle intersection test of soft-body
 self-collision (bodies pushed themselves apart)

---
 .../prox_soft_bodies/collision_detection.py   | 72 +++++++++----------
 1 file changed, 35 insertions(+), 37 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index d5ede69..c27d2e2 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -50,19 +50,17 @@ def _is_share_vertex(tri1, tri2):
     Returns:
         bool: True if the two triangles share a vertex, False otherwise
     """
-    return len(np.intersect1d(np.array(tri1), np.array(tri2))) > 0
+    # Vertices are shared if all three of their coordinates are the same
+    return bool(np.any(np.all(np.array(tri1)[:, None, :] == np.array(tri2)[None, :, :], axis=2)))
 
 
 def _triangle_intersection(tri1, tri2):
     """ Test if two triangles of a same body intersect
-        To achieve performance, this function is adapted from Moller-Trumbore intersection algorithm,
-        which is described in https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm.
-        The idea is to check if the intersection point of the two triangles is inside both triangles.
-        Steps:
-        1. Check if the two triangles are parallel or not, if they are parallel, return False
-        2. Check if the intersection point is inside the first triangle, if not, return False
-        3. Check if the intersection point is inside the second triangle, if inside, return True, otherwise return False
-        
+        The idea is that two triangles, that are not parallel, intersect if and only if an edge of one of them
+        intersects the other triangle. An edge is tested against a triangle with the Moller-Trumbore
+        intersection algorithm, which is described in
+        https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm.
+
     Args:
         tri1 (ArrayLike): coordinates of the first triangle
         tri2 (ArrayLike): coordinates of the second triangle
@@ -70,34 +68,34 @@ def _triangle_intersection(tri1, tri2):
     Returns:
         bool: True if the two triangles intersect, False otherwise
     """
-    v1, v2, v3 = tri1
-    u1, u2, u3 = tri2
-
-    e1 = v2 - v1
-    e2 = v3 - v1
-    normal_tri2 = np.cross(u2 - u1, u3 - u1)
-    a = np.dot(e1, normal_tri2)
-
-    # Check if the two triangles are parallel or not
-    if a > -np.finfo(float).eps and a < np.finfo(float).eps:
-        return False 
-
-    # Check the intersection point is inside the triangle(tri1)
-    f = 1.0/a
-    s = u1 - v1
-    u = f * np.dot(s, normal_tri2)
-    if u < 0.0 or u > 1.0:
-        return False
-
-    q = np.cross(s, e1)
-    v = f * np.dot(u2 - u1, q)
-    if v < 0.0 or u + v > 1.0:
-        return False
-
-    # Check the intersection point is also inside the other triangle(tri2)
-    t = f * np.dot(e2, q)
-    if t > np.finfo(float).eps:
-        return True
+    for edges, (v1, v2, v3) in ((tri1, tri2), (tri2, tri1)):
+        e1 = v2 - v1
+        e2 = v3 - v1
+        for i in range(3):
+            origin = edges[i]
+            direction = edges[(i + 1) % 3] - origin
+            h = np.cross(direction, e2)
+            a = np.dot(e1, h)
+
+            # Check if the edge is parallel to the triangle
+            if abs(a) <= np.finfo(float).eps * np.linalg.norm(e1) * np.linalg.norm(h):
+                continue
+
+            # Check if the intersection point is inside the triangle
+            f = 1.0 / a
+            s = origin - v1
+            u = f * np.dot(s, h)
+            if u < 0.0 or u > 1.0:
+                continue
+            q = np.cross(s, e1)
+            v = f * np.dot(direction, q)
+            if v < 0.0 or u + v > 1.0:
+                continue
+
+            # Check if the intersection point is on the edge
+            t = f * np.dot(e2, q)
+            if 0.0 <= t <= 1.0:
+                return True
 
     return False
 
-- 
2.43.0


From 40051aaa951d366bf9af3eade467b02b419c565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 35/49] fix: contacts close to the border of a soft body's
 signed distance grid are not dropped

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index c27d2e2..331abc5 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -348,7 +348,7 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.grid, x_i):
+        if GRID.is_inside(bodyB.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.grid, x_i)
-- 
2.43.0


From 5835886dcf9f2da6421b7d275ece1b8d5bf94ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 36/49] fix: soft-body contact optimization uses and tests the
 directional derivative towards the triangle corners

---
 .../prox_soft_bodies/collision_detection.py        | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 331abc5..48c2b72 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -328,20 +328,20 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
             #  of x_i in a local variable.
             # Pick the triangle vertex 's_i' which minimizes the dot product with
             # the current gradient at 'x_i'. That is the vertex with "largest" descent.
-            objectives = [np.dot(s_i, GRID.get_gradient(bodyB.grid, x_i)) for s_i in P0]
+            objectives = [np.dot(s_i - x_i, GRID.get_gradient(bodyB.grid, x_i)) for s_i in P0]
             vertex = np.argmin(objectives)
             s_i = P0[vertex]
+            # Before continuing to the next iterate we check for convergence to see if we can make
+            # an early exit. Our objective is the directional derivative in the direction of the corner point. If the
+            # smallest directional derivative is not negative (up to round-off), then moving in the direction of any
+            # corner point moves us away from the minimizer, so we are there.
+            if objectives[vertex] > -engine.params.contact_optimization_tolerance - 1e-10:
+                break
             # Knowing that 's_i' has a "better" descent direction we update 'x_i' by "dragging" it
             # in the direction of 's_i'. The step-size that we update 'x_i' with is given by alpha.
             # We decrease the value of alpha as we iterate to ensure we do not overstep our minimizer.
             alpha = 2 / (i + 2)
             x_i = x_i + alpha * (s_i - x_i)
-            # Before continuing to the next iterate we check for convergence to see if we can make
-            # an early exit. We use a simple tolerance test. Note that our "objective" is more like the directional
-            # derivative. Hence, if the smallest directional derivative gets slightly positive then it means we will
-            # move away from the "minimizer" and we can not find any other corner point with a better descent direction.
-            if objectives[vertex] > engine.params.contact_optimization_tolerance:
-                break
         if debug_on:
             contact_optimization_timer.end()
             contact_point_generation_timer.start()
-- 
2.43.0


From 266b48700fe5af08558c26188525ad9b78d024d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 37/49] fix: coplanar soft-body triangles are not intersecting
 because of round-off

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 48c2b72..d54edca 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -77,8 +77,9 @@ def _triangle_intersection(tri1, tri2):
             h = np.cross(direction, e2)
             a = np.dot(e1, h)
 
-            # Check if the edge is parallel to the triangle
-            if abs(a) <= np.finfo(float).eps * np.linalg.norm(e1) * np.linalg.norm(h):
+            # Check if the edge is parallel to the triangle (up to round-off, coplanar triangles are common)
+            size = np.linalg.norm(e1) * np.linalg.norm(e2) * np.linalg.norm(direction)
+            if abs(a) <= 1e-8 * size:
                 continue
 
             # Check if the intersection point is inside the triangle
-- 
2.43.0


From aa8c1bacf6c4686116eb1792366dae4efcb3305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 38/49] fix: IK Hessian pairs the angles of ancestor and
 descendant bones

---
 rainbow/simulators/inverse_kinematics/api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 66f7558..9720bca 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -345,9 +345,14 @@ def compute_hessian(chains, skeleton, J):
                      [uc, vc, wc]]
                 )
 
-                H[h_offset:h_offset + 3, k_offset:k_offset + 3] -= dH
+                # Rows of dH are the angles of bone k and columns are the angles of bone h. Two angles of the
+                # same bone are turned about the axis of the first of the two, this is the lower triangle.
+                if h == k:
+                    dH = np.tril(dH) + np.transpose(np.tril(dH, -1))
+
+                H[k_offset:k_offset + 3, h_offset:h_offset + 3] -= dH
                 if h != k:
-                    H[k_offset:k_offset + 3, h_offset:h_offset + 3] -= np.transpose(dH)
+                    H[h_offset:h_offset + 3, k_offset:k_offset + 3] -= np.transpose(dH)
 
         row_offset += 3
     return H
-- 
2.43.0


From 714cffcf854fcde048eb4bdb9ac24453684b6eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 39/49] fix: finite differences of the IK objective leave the
 skeleton in its original pose

---
 rainbow/simulators/inverse_kinematics/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 9720bca..415a6c1 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -534,6 +534,7 @@ def compute_finite_difference_gradient(chains, skeleton, h=0.1):
     g = np.zeros((N,), dtype=np.float64)
     for i in range(N):
         g[i] = __numerical_differentiation_first_derivative(chains, skeleton, i, h)
+    update_skeleton(skeleton)  # The bones are still placed for the last perturbed joint angle
     return g
 
 
@@ -556,5 +557,6 @@ def compute_finite_difference_hessian(chains, skeleton, h=0.1):
     for i in range(N):
         for j in range(N):
             H[i, j] = __numerical_differentiation_second_derivative(chains, skeleton, i, j, h)
+    update_skeleton(skeleton)  # The bones are still placed for the last perturbed joint angles
     return H
 
-- 
2.43.0


From eaf2c614b20365ac923ea0dbf42d8de5766199a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:22 +0000
Subject: [PATCH 40/49] fix: gears of the gear train are hinged about their own
 axes

---
 .../simulators/prox_rigid_bodies/scenes/create_gear_train.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
index 58e80a6..3b09c2f 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
@@ -451,7 +451,7 @@ def create_gear_train(engine: Engine,
             parent_name=parent_name,
             child_name=child_name,
             origin= origin,
-            axis= V3.k(),
+            axis= Q.rotate(q_m2w, V3.k()),  # Gears turn about their model z-axis.
             mode="world"
         )
 
-- 
2.43.0


From 7781fd2042f6bece334aad791e8270d45a1062c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 41/49] fix: create_rock_slide returns a flat list of body
 names

---
 .../simulators/prox_rigid_bodies/scenes/create_rock_slide.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
index dfb44c9..b4dd34e 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
@@ -109,7 +109,7 @@ def create_rock_slide(engine: Engine,
 
     r = V3.make(-10, 16, 5)
     q = Q.Ry(3 * np.pi / 4)
-    body_names.append(
+    body_names.extend(
         create_lattice(
             engine,
             r,
-- 
2.43.0


From 3274c0499f79e9e5745130770309ba6abe5f24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 42/49] fix: create_arch refuses zero pier stones instead of
 dividing by zero

---
 rainbow/simulators/prox_rigid_bodies/scenes/create_arch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_arch.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_arch.py
index 8e3a812..5782bb4 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_arch.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_arch.py
@@ -46,7 +46,6 @@ def create_arch(
     pier_height = arch_height - arch_width / 2.0
     pier_brick_width = arch_width / 5.0
     pier_brick_depth = arch_depth
-    pier_brick_height = pier_height / pier_stones
 
     if arch_width <= 0.0:
         raise RuntimeWarning("Arch width must be positive")
@@ -69,6 +68,8 @@ def create_arch(
             "arch height must be larger than half arch width, height > width/2.0"
         )
 
+    pier_brick_height = pier_height / pier_stones
+
     body_names = []
 
     shape_name = API.generate_unique_name("pier_brick_shape")
-- 
2.43.0


From 19165ee8986ad252aa43b4a9e7512da3143d3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:16 +0000
Subject: [PATCH 43/49] fix: scene export wrote a tuple as an XML attribute,
 which the writer refuses

---
 rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
index ca91a25..13cd9f9 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
@@ -76,7 +76,7 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
     materials_xml_node = ET.SubElement(root, "materials")
     for key, interaction in engine.surfaces_interactions.storage.items():
         interaction_xml_node = ET.SubElement(materials_xml_node, "interaction")
-        interaction_xml_node.set("materials", key)
+        interaction_xml_node.set("materials", " ".join(key))
         interaction_xml_node.set("friction", np.array2string(interaction.mu))
         interaction_xml_node.set("restitution", str(interaction.epsilon))
 
-- 
2.43.0


From 8cab904c29a496c126bde6e85b5a7336300f7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:16 +0000
Subject: [PATCH 44/49] fix: the ur5 scene reads the robot description that
 comes with the repository

---
 rainbow/simulators/prox_rigid_bodies/scenes/create_scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_scene.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_scene.py
index 74a430f..066b024 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_scene.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_scene.py
@@ -265,8 +265,8 @@ def create_scene(engine: TYPES.Engine, scene_name: str) -> None:
             material_name='default'
         )
     elif scene_name == scene_names[16]:
-        package_folder = "/Users/kennyerleben/Documents/GitHub/"
-        urdf_file_path = 'example-robot-data/robots/ur_description/urdf/ur5_robot.urdf'
+        package_folder = "./data/urdf/"
+        urdf_file_path = 'ur_description/ur5e.urdf'
         PROC.read_urdf(
             engine,
             package_folder,
-- 
2.43.0


From f22475c20086c6e3170591a29437333f7fe091ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:16 +0000
Subject: [PATCH 45/49] fix: the mesh scale of an URDF link was read but not
 applied

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index daec884..b1d5917 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -112,6 +112,7 @@ class URDF:
             return None
 
         V, T = igl.read_triangle_mesh(filename=filename, dtypef=np.float64)
+        V = V * np.array(scale)
 
         return {
             'shape': 'mesh',
-- 
2.43.0


From bb10590e7b5765822d521a284107adb9a5f926f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:16 +0000
Subject: [PATCH 46/49] fix: children of an URDF root link were placed in its
 inertial frame instead of its link frame

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index b1d5917..b10aabb 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -337,6 +337,9 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         root.X_b2r.q,
         use_model_frame=False
     )
+    # As for all links below, X_b2r becomes the world location of the reference frame once the body is placed, and the
+    # reference frame of the root is the world frame.
+    root.X_b2r = X.CoordSys()
 
     while stack:
         parent = stack.pop()
-- 
2.43.0


From aa4a752ad6936311374e8f52140edbf85e88cc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 47/49] fix: parallel Gauss-Seidel ignored contacts of earlier
 colors with a larger index

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index c2565bb..dfc3ece 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -105,10 +105,8 @@ class ParallelGaussSeidelSolver(SolverInterface):
         w0 = self.WJT.dot(self.x)
         delta_ws = np.zeros((self.WJT.shape[1]//4, w0.shape[0]), dtype=np.float64)
         for color_group in color_groups.values():
-            w = w0.copy()
-            block_start, _ = color_group[0]
-            for i in range(block_start // 4):
-                w += delta_ws[i]
+            # All contacts of the colors done so far have changed w, whatever their index (the other rows are still zero).
+            w = w0 + delta_ws.sum(axis=0)
 
             self.x, delta_ws = sweep_worker(np.array(color_group), 
                                             self.J.toarray(), 
-- 
2.43.0


From 419db8c47111b363fbb14551f9fec75f5c76a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 48/49] fix: a soft body refused because of a degenerate mesh
 stayed behind in the engine

---
 rainbow/simulators/prox_soft_bodies/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 8cf8b3f..7643036 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -37,7 +37,6 @@ def create_soft_body(engine, body_name, V, T) -> None:
     # Create body
     body = SoftBody(body_name)
     body.idx = len(engine.bodies)
-    engine.bodies[body_name] = body
 
     # Improve spatial/memory layout of volume mesh
     axis = FUNC.direction_of_most_variance(V)
@@ -92,6 +91,9 @@ def create_soft_body(engine, body_name, V, T) -> None:
             engine.params.envelope,
         )
 
+    # The body is first added to the engine now, a mesh that was rejected above must not leave a half-made body behind.
+    engine.bodies[body_name] = body
+
     # To have proper global indexing into assembled matrices and vectors we need to know this body nodel
     # index offset into this global space.
     body.offset = engine.number_of_nodes
-- 
2.43.0


From 3a09c009c4ab2c6894fb5a4a0f85dbcb326b0f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:33 +0000
Subject: [PATCH 49/49] fix: contacts and hinges of the same bodies were solved
 without seeing each other

Each constraint problem swept over its own constraints only, and the velocity changes were added afterwards.
A hinged body with contacts therefore came apart at the hinge and kept moving into its contacts. The problems
now see the velocity changes of each other and are accepted or rolled back together.
---
 .../prox_rigid_bodies/constraints/contacts.py |  2 +-
 .../prox_rigid_bodies/constraints/hinges.py   |  2 +-
 .../constraints/post_stabilization.py         |  2 +-
 .../prox_rigid_bodies/constraints/problem.py  |  1 +
 .../prox_rigid_bodies/gauss_seidel_solver.py  | 34 +++++++++----------
 5 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py b/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py
index dca16ef..9ae298f 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py
@@ -73,7 +73,7 @@ class Contacts(Problem):
 
         - Problem.sweep: for the base method documentation.
         """
-        w = self.WJT.dot(self.x)
+        w = self.WJT.dot(self.x) + self.w_others
         for k in range(self.K):
             block = range(4 * k, 4 * k + 4)
             mu_k = self.mu[k]  # Only isotropic Coulomb friction
diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
index 677d64a..ccabca4 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
@@ -62,7 +62,7 @@ class Hinges(Problem):
 
         - Problem.sweep: for the base method documentation.
         """
-        w = self.WJT.dot(self.x)
+        w = self.WJT.dot(self.x) + self.w_others
         for k in range(self.K):
             block = range(5 * k, 5 * k + 5)
             x_b = self.x[block]
diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/post_stabilization.py b/rainbow/simulators/prox_rigid_bodies/constraints/post_stabilization.py
index 323a65b..192ed10 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/post_stabilization.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/post_stabilization.py
@@ -51,7 +51,7 @@ class PostStabilization(Problem):
 
         - Problem.sweep: for the base method documentation.
         """
-        w = self.WJT.dot(self.x)
+        w = self.WJT.dot(self.x) + self.w_others
         for k in range(self.K):
             block = range(4 * k, 4 * k + 4)
             x_b = self.x[block]
diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/problem.py b/rainbow/simulators/prox_rigid_bodies/constraints/problem.py
index 84f2dd7..196ef71 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/problem.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/problem.py
@@ -34,6 +34,7 @@ class Problem(ABC):
         self.sol: Optional[np.ndarray] = None  # Last known good solution.
         self.x: Optional[np.ndarray] = None  # The current solution.
         self.r: Optional[np.ndarray] = None  # The R-factor values.
+        self.w_others: float | np.ndarray = 0.0  # The velocity change caused by the other constraint problems.
 
     def rollback_iterate(self) -> None:
         """
diff --git a/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py b/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
index 00323be..d185f3d 100644
--- a/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
+++ b/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
@@ -38,39 +38,39 @@ def solve(
     nu_increase = engine.params.nu_increase
     too_small_merit_change = engine.params.too_small_merit_change
 
-    last_merit_values = [np.inf for _ in Problems]
+    last_merit = np.inf
     global_last_merit = np.inf
 
     for iteration in range(engine.params.max_iterations):
 
-        # Keep track of the overall merit across all problems we are solving
-        global_merit = 0
-
-        for index, problem in enumerate(Problems):
-            last_merit = last_merit_values[index]
-
+        # All problems act on the same bodies. Hence, a problem must see the velocity change of the other problems, and
+        # the iterates of all problems are accepted or rolled back together.
+        for problem in Problems:
+            problem.w_others = sum(other.WJT.dot(other.x) for other in Problems if other is not problem)
             problem.sweep()  # This will update the current iterate x
 
-            merit = problem.compute_merit_value()
+        # The overall merit across all problems we are solving
+        merit = max(problem.compute_merit_value() for problem in Problems)
 
-            # Update r-factors to ensure we have a convergent scheme
-            if merit > last_merit:
+        # Update r-factors to ensure we have a convergent scheme
+        if merit > last_merit:
+            for problem in Problems:
                 # Divergence was detected: we will reduce R-factor
                 problem.change_r_factors(nu_reduce)
                 #  Next, we roll back the current iterate to the last known good solution
                 problem.rollback_iterate()
-                # Update the global merit, so we later can test if all problems have converged
-                global_merit = np.maximum(global_merit, last_merit)
-            else:
+        else:
+            for problem in Problems:
                 # The Scheme is convergent, so we accept the iterate as the current best solution
                 problem.accept_iterate()
                 # Test if convergence was too slow and increase R-factor if this is the case
                 if last_merit - merit < too_small_merit_change:
                     problem.change_r_factors(nu_increase)
-                # Update merit value for next iteration
-                last_merit_values[index] = merit
-                # Update the global merit, so we later can test if all problems have converged
-                global_merit = np.maximum(global_merit, merit)
+            # Update merit value for next iteration
+            last_merit = merit
+
+        # The merit of the best solution so far, so we can test if all problems have converged
+        global_merit = last_merit
 
         if profiling_on:
             performance_data[prefix + "residuals"][iteration] = global_merit
-- 
2.43.0

