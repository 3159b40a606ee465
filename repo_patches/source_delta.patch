From eabd7bf954418fcf18400f376f57289d3d28a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 01/11] fix: LineSegment::split extrapolated away from the end
 point instead of interpolating

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index a752db3..d422de2 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -25,7 +25,7 @@ where
 
     pub fn split(&self, t: P::Scalar) -> (Self, Self) {
         // compute the split point by interpolation
-        let ctrl_ab = self.start + (self.start - self.end) * t;
+        let ctrl_ab = self.start + (self.end - self.start) * t;
 
         (
             LineSegment {
-- 
2.43.0


From c7ae27555f33296208d147a143c70cef2d18bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 02/11] fix: LineSegment::distance_to_point measured to the
 start for points projecting past the end

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index d422de2..924c036 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -65,7 +65,7 @@ where
             //         .zip(v2.into_iter())
             //         .map(|(x1, x2)| x1 * x2)
             //         .sum::<P::Scalar>();
-            let mut t = P::Scalar::from(0.0);
+            let mut t = P::Scalar::from(1.0);
             if dot / l2 < P::Scalar::from(1.0) {
                 t = dot / l2;
             }
-- 
2.43.0


From 1675ce75e989f0ec1b21548ed7c9d7a895195531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 03/11] fix: CubicBezier::dd used t instead of t^2 in the
 weight of the start point

---
 src/cubic_bezier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 98ebf19..a48a941 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -137,7 +137,7 @@ where
     /// This function can cause out of bounds panic when axis is larger than dimension of P
     pub fn dd(&self, t: P::Scalar, axis: usize) -> P::Scalar {
         let t2 = t * t;
-        let c0 = t * -3.0 + t * 6.0 - 3.0;
+        let c0 = t2 * -3.0 + t * 6.0 - 3.0;
         let c1 = t2 * 9.0 - t * 12.0 + 3.0;
         let c2 = t2 * -9.0 + t * 6.0;
         let c3 = t2 * 3.0;
-- 
2.43.0


From 4baf02ae4e849f0ce4933dc3cfe435d30ec53359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 04/11] fix: arclen of the Bezier types skipped the first chord
 [0, 1/nsteps]

---
 src/bezier.rs           | 2 +-
 src/cubic_bezier.rs     | 2 +-
 src/quadratic_bezier.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index c220691..ee8a9d3 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -241,7 +241,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval(t);
             let p2 = self.eval(t + stepsize);
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index a48a941..0f8d404 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -76,7 +76,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = 1.0 / (nsteps as NativeFloat);
         let mut arclen = P::Scalar::from(0.0);
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 1e46751..7ef5f7d 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -148,7 +148,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
-- 
2.43.0


From 0327fa5136dfe4835ac1e89ad2a8ed3a984382fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 05/11] fix: distance_to_point sampled parameters outside
 [0,1], skipped the end point and searched around the wrong parameter

---
 src/bezier.rs           | 10 +++++-----
 src/cubic_bezier.rs     | 10 +++++-----
 src/quadratic_bezier.rs | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index ee8a9d3..9739a65 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -88,10 +88,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.control_points[0]).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -103,14 +103,14 @@ where
             }
         }
         // 2. fine pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
             // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            let t = tmin + t - 0.5 / nsteps as NativeFloat;
+            let candidate: P = self.eval(t.max(0.0.into()).min(1.0.into()));
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 0f8d404..dc44ab5 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -192,10 +192,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -207,14 +207,14 @@ where
             }
         }
         // 2. fine pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
             // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            let t = tmin + t - 0.5 / nsteps as NativeFloat;
+            let candidate: P = self.eval(t.max(0.0.into()).min(1.0.into()));
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 7ef5f7d..35ab080 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -198,10 +198,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
             // calculate distance to candidate
@@ -212,13 +212,13 @@ where
             }
         }
         // 2. fine pass 
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
             let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / ((nsteps*nsteps) as NativeFloat)).into();
             // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t*(nsteps as NativeFloat/ 2.0) );
+            let t = tmin + t - 0.5 / nsteps as NativeFloat;
+            let candidate: P = self.eval(t.max(0.0.into()).min(1.0.into()));
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
-- 
2.43.0


From ad8667040542adb3f91fbfdd28fcf5ea17cd36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 06/11] fix: B-spline evaluation dropped the last control point
 of each span, searched unclamped spans wrongly and used wrong domains for
 half-clamped knots

---
 src/bspline.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index ebb0c5d..06ec7b9 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -153,13 +153,13 @@ where
     }
 
     fn knot_domain_clamped_start(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[D], end at knots[knots.len() - 1]
-        (self.knots[D], self.knots[self.knots.len() - 1])
+        // Start from knots[D], end at knots[knots.len() - 1 - D] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     fn knot_domain_clamped_end(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[0], end at knots[knots.len() - 1 - D] (C = K - D - 1)
-        (self.knots[0], self.knots[self.knots.len() - 1 - D])
+        // Start from knots[D], end at knots[knots.len() - 1 - D] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     // Returns the knot domain for a clamped B-Spline
@@ -242,11 +242,6 @@ where
     where
         [(); D + 1]: Sized,
     {
-        // Special case when t equals the last knot value
-        if t == self.knots[self.control_points.len()] {
-            return Ok(self.control_points[self.control_points.len() - 1]);
-        }
-
         let k = self.knot_span_start_for_t(t);
 
         let k = match k {
@@ -259,7 +254,7 @@ where
 
         // Copy the control points needed for the first iteration
         // For a B-Spline of degree D, D+1 control points in the knot span contribute to the result
-        for j in 0..D {
+        for j in 0..=D {
             d[j] = self.control_points[j + k - D];
         }
 
@@ -321,12 +316,15 @@ where
     fn knot_span_start_for_t_unclamped(&self, t: P::Scalar) -> Option<usize> {
         let mut first = 0usize;
         let mut step;
-        let mut count = self.knots.len() as isize;
+        let mut count = self.knots.len() as isize - 1; // number of knot spans
+        // t at the end of the knot domain belongs to the last span inside the domain
+        if t == self.knots[C] {
+            return Some(C - 1);
+        }
         while count > 0 {
             step = count / 2;
             let it = first + step as usize;
-            if t < self.knots[it + 1] || (it + 1 == self.knots.len() - 2 && t == self.knots[it + 1])
-            {
+            if t >= self.knots[it] && t < self.knots[it + 1] {
                 return Some(it);
             }
             if t >= self.knots[it] {
@@ -368,21 +366,20 @@ where
     fn knot_span_start_for_t_clamped_start(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
         let p = D; // Degree of the spline
-        let m = self.knots.len() - 1; // Last index of the knot vector
 
-        // Special case when t equals the last knot value
-        if t == self.knots[m] {
+        // Special case when t equals knots[n + 1], the end of the knot domain
+        if t == self.knots[n + 1] {
             return Some(n);
         }
 
-        // Valid parameter domain is from knots[p] to knots[m]
-        if t < self.knots[p] || t > self.knots[m] {
+        // Valid parameter domain is from knots[p] to knots[n + 1]
+        if t < self.knots[p] || t > self.knots[n + 1] {
             return None;
         }
 
         // Initialize binary search indices
         let mut low = p;
-        let mut high = m - 1; // Since we compare t with knots[mid + 1], high should be m - 1
+        let mut high = n; // Since we compare t with knots[mid + 1], high should be n
 
         // Binary search to find the knot span
         while low <= high {
-- 
2.43.0


From 143eb25ec472ddf7e3a2b6ac475c30c9ab875e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 07/11] fix: BSpline::arclen stepped past the knot domain and
 measured distances to the origin

---
 src/bspline.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 06ec7b9..37a3467 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -434,20 +434,20 @@ where
     where
         [(); D + 1]: Sized,
     {
-        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
         // evaluate the curve, t needs to be inside the knot domain!
         // we need to map [0...1] to kmin..kmax
         let (kmin, kmax) = self.knot_domain();
-        for t in 0..=nsteps {
+        let stepsize = (kmax - kmin) / P::Scalar::from(nsteps as NativeFloat);
+        for t in 0..nsteps {
             let t = kmin
                 + (P::Scalar::from(t as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
                     * (kmax - kmin);
-            let p1 = self.eval(t).unwrap_or_else(|_| {
+            let p1 = self.eval(t.min(kmax)).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-            let p2 = self.eval(t + stepsize).unwrap_or_else(|_| {
+            let p2 = self.eval((t + stepsize).min(kmax)).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-- 
2.43.0


From 8f8b6253d8cbd8045bb84d34827e958e08bee7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 08/11] fix: BSpline::new accepted knot vectors containing NaN
 as non-decreasing

---
 src/bspline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 37a3467..fcddcc8 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -84,7 +84,7 @@ where
         } else if knots.len() > control_points.len() + 1 + D {
             Err(BSplineError::TooManyKnots)
         // if knots array is not non-decreasing
-        } else if knots.windows(2).any(|w| w[0] > w[1]) {
+        } else if knots.windows(2).any(|w| !(w[0] <= w[1])) {
             Err(BSplineError::DecreasingKnots)
         } else {
             let is_clamped_front = knots[0..=D]
-- 
2.43.0


From 0d8c5195ec6fa42bdd6c280f243b27d0bc52bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 09/11] fix: BSpline::derivative kept all K knots, giving a
 spline with misaligned knots

---
 src/bspline.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index fcddcc8..d62f289 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -458,14 +458,16 @@ where
 
     /// Returns the derivative curve of self which has N-1 control points.
     /// The derivative of an nth degree B-Spline curve is an (n-1)th degree (d) B-Spline curve,
-    /// with the same knot vector, and new control points Q0...Qn-1 derived from the
+    /// with the knot vector stripped of its first and last knot, and new control points Q0...Qn-1 derived from the
     /// original control points Pi as:
     ///                 d
     /// Qi =    ----------------- (P[i+1]-P[i])
     ///         k[i+d+1] - k[i+1].
     /// with degree = curve_order - 1
     /// TODO test & verify!
-    pub fn derivative(&self) -> BSpline<P, K, { C - 1 }, { D - 1 }> {
+    pub fn derivative(&self) -> BSpline<P, { K - 2 }, { C - 1 }, { D - 1 }> {
+        let mut new_knots: [P::Scalar; K - 2] = [P::Scalar::default(); K - 2];
+        new_knots.copy_from_slice(&self.knots[1..K - 1]);
         let mut new_points: [P; C - 1] = [P::default(); C - 1];
         for (i, _) in self.control_points.iter().enumerate() {
             new_points[i] = (self.control_points[i + 1] - self.control_points[i])
@@ -475,7 +477,7 @@ where
             }
         }
         BSpline {
-            knots: self.knots,
+            knots: new_knots,
             knot_kind: self.knot_kind,
             control_points: new_points,
         }
-- 
2.43.0


From ae5b87271afbe1a9ac43daaeafe410ed0dfd697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 10/11] fix: LineSegment::distance_to_point treated segments
 shorter than 1.5e-8 as points

---
 src/line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 924c036..12f22a2 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -50,8 +50,8 @@ where
     /// Return the distance from the LineSegment to Point p by calculating the projection
     pub fn distance_to_point(&self, p: P) -> P::Scalar {
         let l2 = (self.end - self.start).squared_length();
-        // if start and endpoint are approx the same, return the distance to either
-        if l2 < P::Scalar::from(EPSILON) {
+        // if start and endpoint are the same, return the distance to either
+        if l2 <= P::Scalar::from(0.0) {
             (self.start - p).squared_length().sqrt()
         } else {
             let v1 = p - self.start;
-- 
2.43.0


From c7ccadd66497bc5ce9c561d5bf7ffa8494b882e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 11/11] fix: BSpline evaluation took parameters within machine
 epsilon of a knot as the knot itself

---
 src/bspline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index d62f289..6850c8c 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -277,10 +277,10 @@ where
                 let numerator = t - self.knots[j + k - D];
                 let denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];
                 let alpha: P::Scalar;
-                if numerator < P::Scalar::epsilon() {
+                if numerator <= P::Scalar::from(0.0) {
                     // we are at the start of a knot span (interpolation d[j-1] -> d[j])
                     alpha = 0.0.into();
-                } else if denominator.abs() < P::Scalar::epsilon() {
+                } else if denominator <= P::Scalar::from(0.0) {
                     // we are at then end of a knot span (interpolation d[j-1] -> d[j])
                     // this will lead to d[j] simply being copied to d[j]
                     alpha = 1.0.into();
-- 
2.43.0

