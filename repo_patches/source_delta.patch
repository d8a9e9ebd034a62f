From 5fedc119a9447ad2481655f5f938fa3eb58bd0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:40 +0000
Subject: [PATCH 1/3] fix: as_camera_matrix for cameras whose principal plane
 contains the world origin

The matrix was divided by its (2,3) element, which is zero in that case (for
example for any camera at the world origin), giving only NaN and inf.
---
 src/camera.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/camera.rs b/src/camera.rs
index aab0b6b..00fdb34 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -194,7 +194,14 @@ impl<R: RealField> Camera<R, IntrinsicParametersPerspective<R>> {
             m
         };
 
-        m.clone() / m[(2, 3)].clone() // normalize
+        // Normalize. A projection matrix is only defined up to scale, and when
+        // the world origin lies in the principal plane (e.g. for a camera at
+        // the origin) this element is zero and cannot be used to fix the scale.
+        if m[(2, 3)] == nalgebra::convert(0.0) {
+            m
+        } else {
+            m.clone() / m[(2, 3)].clone()
+        }
     }
 }
 
-- 
2.43.0


From f6fb635fed27fb0d37a060ccc0b181188a47db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:40 +0000
Subject: [PATCH 2/3] fix: Jacobian for cameras whose principal plane contains
 the world origin

JacobianPerspectiveCache divided the projection matrix by its (2,3) element,
which is zero in that case, so that the Jacobian was NaN. The Jacobian does not
depend on the scale of the matrix.
---
 src/linearize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linearize.rs b/src/linearize.rs
index 701c1f9..b72a44a 100644
--- a/src/linearize.rs
+++ b/src/linearize.rs
@@ -21,8 +21,9 @@ impl<R: RealField> JacobianPerspectiveCache<R> {
         // flip sign if focal length < 0
         let m = if m[(0, 0)] < nalgebra::zero() { -m } else { m };
 
-        let m = m.clone() / m[(2, 3)].clone(); // normalize
-
+        // The Jacobian does not depend on the scale of `m`, so there is no need
+        // to normalize it. (Dividing by `m[(2, 3)]` would fail when the world
+        // origin lies in the principal plane, e.g. for a camera at the origin.)
         Self { m }
     }
 
-- 
2.43.0


From 83c9f880583cf665c51bbd267e80e21b751459b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:59 +0000
Subject: [PATCH 3/3] fix: compute the viewing axes from the rotation alone

forward(), up() and right() moved a unit point to world coordinates and
subtracted the camera center again. For a camera far from the world origin
the difference loses all precision (in f32 at 3e3 units from the origin the
axes are off by 1e-4, beyond 2^24 units they are NaN).
---
 src/extrinsics.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/extrinsics.rs b/src/extrinsics.rs
index d03cd9b..4e91ad8 100644
--- a/src/extrinsics.rs
+++ b/src/extrinsics.rs
@@ -180,9 +180,14 @@ impl<R: RealField> ExtrinsicParameters<R> {
     ///
     /// `pt_cam` is specified in camera coords.
     fn lookdir(&self, pt_cam: &Point3<R>) -> Unit<Vector3<R>> {
-        let cc = self.camcenter();
-        let pt = self.cache.pose_inv.transform_point(pt_cam) - cc;
-        nalgebra::Unit::new_normalize(pt)
+        // Only rotate: moving `pt_cam` to world coordinates and subtracting the
+        // camera center again would lose precision far from the world origin.
+        let dir = self
+            .cache
+            .pose_inv
+            .rotation
+            .transform_vector(&pt_cam.coords);
+        nalgebra::Unit::new_normalize(dir)
     }
 
     /// Convert points in camera coordinates to world coordinates.
-- 
2.43.0

