From 9c891a567bc5c300098a70a177dc3c7b9ec83ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 01/49] fix: evaluate at the ends of a domain whose end knot is
 repeated inside it

find_knot_span_index returned an empty span there, so that the basis functions were NaN.
---
 src/knot/knot_vector.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/knot/knot_vector.rs b/src/knot/knot_vector.rs
index e69dede..aa707bc 100644
--- a/src/knot/knot_vector.rs
+++ b/src/knot/knot_vector.rs
@@ -156,12 +156,22 @@ impl<T: RealField + Copy> KnotVector<T> {
     /// assert_eq!(idx, 4);
     /// ```
     pub fn find_knot_span_index(&self, n: usize, degree: usize, u: T) -> usize {
-        if u > self[n + 1] - T::default_epsilon() {
-            return n;
+        if u >= self[n + 1] - T::default_epsilon() {
+            // the last non-empty span
+            let mut span = n;
+            while span > degree && self[span] >= self[n + 1] {
+                span -= 1;
+            }
+            return span;
         }
 
-        if u < self[degree] + T::default_epsilon() {
-            return degree;
+        if u <= self[degree] + T::default_epsilon() {
+            // the first non-empty span
+            let mut span = degree;
+            while span < n && self[span + 1] <= self[degree] {
+                span += 1;
+            }
+            return span;
         }
 
         // binary search
-- 
2.43.0


From 3dcc4777a563a72a6e3c0b9fcddda856b5c7cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 02/49] fix: accept the knots to insert into a curve in any
 order

try_refine_knot produced an unsorted knot vector and a distorted curve for unsorted input.
---
 src/curve/nurbs_curve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0db13b7..16e4cd6 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1581,6 +1581,10 @@ where
             return Ok(());
         }
 
+        // the refinement below relies on ascending knots
+        let mut knots_to_insert = knots_to_insert;
+        knots_to_insert.sort_by(|a, b| a.partial_cmp(b).unwrap());
+
         let degree = self.degree;
         let control_points = &self.control_points;
 
-- 
2.43.0


From 62e30f8535b38ab444f5443eb58b93c4289ff412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 03/49] fix: insert knots into rational curves

try_add_knot kept the weights of the control points it blends, which changes the shape of a rational curve.
---
 src/curve/nurbs_curve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 16e4cd6..ea7cfc8 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1327,7 +1327,10 @@ where
                 &self.control_points[i0] - &self.control_points[i0 - 1]
             };
             let mut p = delta_control_point * (T::one() - a);
-            p[D::dim() - 1] = T::zero();
+            if i0 == 0 {
+                // there is no preceding control point (the knot lies before the domain)
+                p[D::dim() - 1] = T::zero();
+            }
             self.control_points[i0].coords -= p;
         }
 
-- 
2.43.0


From e9fc6cf0b19b6a739bcd3734821f2a9038e791f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 04/49] fix: clamp a curve at the ends of its domain

try_clamp repeated the first and last knots instead, which extends the domain over parts where the curve
runs off to the origin; decomposition, arc length inversion and division of unclamped curves went wrong with it.
---
 src/curve/nurbs_curve.rs | 60 ++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 39 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index ea7cfc8..9914f69 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -450,33 +450,11 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let mult = self.knots.multiplicity();
-        let start = mult.first().unwrap().multiplicity();
-        let end = mult.last().unwrap().multiplicity();
-
         let segments = self.try_decompose_bezier_segments()?;
 
-        // If the start/end parts of the knot vector are not duplicated,
-        // the Bezier segments will not be generated correctly,
-        // so reduce the number of segments by the amount that falls below the required duplication degree.
-        let required_multiplicity = self.degree + 1;
-        let i = required_multiplicity.saturating_sub(start);
-        let j = if end < required_multiplicity {
-            segments.len() - (required_multiplicity - end)
-        } else {
-            segments.len()
-        };
-        let segments = &segments[i..j];
-
         let (_, u) = self.knots_domain();
         let gauss = GaussLegendre::new(16 + self.degree)?;
 
-        if segments.len() <= 1 {
-            // If the curve is a single Bezier segment, compute the length directly
-            let l = compute_bezier_segment_length(self, u, &gauss);
-            return Ok(l);
-        }
-
         let length = segments
             .iter()
             .map(|s| compute_bezier_segment_length(s, u, &gauss))
@@ -585,7 +563,7 @@ where
             length
         );
 
-        let mut samples = vec![CurveLengthParameter::new(self.knots.first(), T::zero())];
+        let mut samples = vec![CurveLengthParameter::new(self.knots_domain().0, T::zero())];
 
         let mut i = 0;
         let mut lc = length;
@@ -1723,30 +1701,34 @@ where
     }
 
     /// Try to clamp knots of the curve
-    /// Multiplex the start/end part of the knot vector so that the knot has `degree + 1` overlap
+    /// Multiplex the start/end part of the domain so that the knot has `degree + 1` overlap,
+    /// and drop the knots and the control points outside of the domain
     pub fn try_clamp(&mut self) -> anyhow::Result<()> {
         let degree = self.degree();
+        let (start, end) = self.knots_domain();
 
-        let start = self.knots.first();
-        let end = self.knots.last();
-        let multiplicity = self.knots.multiplicity();
-        let start_knot_count = multiplicity
+        for knot in [start, end] {
+            let count = self.knots.iter().filter(|k| **k == knot).count();
+            for _ in count..=degree {
+                self.try_add_knot(knot)?;
+            }
+        }
+
+        let first = self
+            .knots
             .iter()
-            .find(|m| *m.knot() == start)
+            .rposition(|k| *k == start)
             .ok_or(anyhow::anyhow!("Start knot not found"))?
-            .multiplicity();
-        let end_knot_count = multiplicity
+            - degree;
+        let last = self
+            .knots
             .iter()
-            .find(|m| *m.knot() == end)
+            .position(|k| *k == end)
             .ok_or(anyhow::anyhow!("End knot not found"))?
-            .multiplicity();
+            + degree;
 
-        for _ in start_knot_count..=degree {
-            self.try_add_knot(start)?;
-        }
-        for _ in end_knot_count..=degree {
-            self.try_add_knot(end)?;
-        }
+        self.knots = KnotVector::new(self.knots.as_slice()[first..=last].to_vec());
+        self.control_points = self.control_points[first..(last - degree)].to_vec();
 
         Ok(())
     }
-- 
2.43.0


From 67f4a98fee5e38d8c91ebb7d042c2a8c75b651ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 05/49] fix: split at an existing knot without repeating it
 beyond degree + 1

The first piece had superfluous knots and control points at its end, so that it evaluated to NaN there.
---
 src/split/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index 8fde919..4488cac 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -3,6 +3,7 @@ use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, Dim
 
 use crate::{
     curve::NurbsCurve,
+    knot::KnotVector,
     misc::{transpose_control_points, FloatingPoint},
     surface::{NurbsSurface, UVDirection},
 };
@@ -42,12 +43,14 @@ where
     /// ```
     fn try_split(&self, u: T) -> anyhow::Result<(Self, Self)> {
         let u = self.knots().clamp(self.degree(), u);
-        let knots_to_insert = (0..=self.degree()).map(|_| u).collect_vec();
+        // copies of the knot that are already there
+        let multiplicity = interior_multiplicity(self.knots(), self.degree(), u);
+        let knots_to_insert = (multiplicity..=self.degree()).map(|_| u).collect_vec();
         let mut cloned = self.clone();
         cloned.try_refine_knot(knots_to_insert)?;
 
         let n = self.knots().len() - self.degree() - 2;
-        let s = self.knots().find_knot_span_index(n, self.degree(), u);
+        let s = self.knots().find_knot_span_index(n, self.degree(), u) - multiplicity;
         let knots0 = cloned.knots().as_slice()[0..=(s + self.degree() + 1)].to_vec();
         let knots1 = cloned.knots().as_slice()[s + 1..].to_vec();
         let cpts0 = cloned.control_points()[0..=s].to_vec();
@@ -59,6 +62,16 @@ where
     }
 }
 
+/// Number of occurrences of the knot `u` if it is inside the domain
+fn interior_multiplicity<T: FloatingPoint>(knots: &KnotVector<T>, degree: usize, u: T) -> usize {
+    let (start, end) = knots.domain(degree);
+    if start < u && u < end {
+        knots.iter().filter(|k| **k == u).count()
+    } else {
+        0
+    }
+}
+
 /// Option for splitting a surface
 #[derive(Clone, Debug)]
 pub struct SplitSurfaceOption<T: FloatingPoint> {
@@ -98,10 +111,13 @@ where
             }
         };
 
-        let knots_to_insert = (0..=degree).map(|_| option.parameter).collect_vec();
+        let multiplicity = interior_multiplicity(knots, degree, option.parameter);
+        let knots_to_insert = (multiplicity..=degree)
+            .map(|_| option.parameter)
+            .collect_vec();
 
         let n = knots.len() - degree - 2;
-        let s = knots.find_knot_span_index(n, degree, option.parameter);
+        let s = knots.find_knot_span_index(n, degree, option.parameter) - multiplicity;
 
         let curves = points
             .iter()
-- 
2.43.0


From 6be4954a2958623a711f1b19905133c5c7f77805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 06/49] fix: elevate the degree of any clamped curve

The port of the algorithm allocated too few or too many control points and knots, subtracted with
underflow when raising by two or more, rounded the index of the last control point of a segment the wrong way,
and had a misplaced else.
---
 src/curve/nurbs_curve.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 9914f69..eee9b8a 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1088,10 +1088,12 @@ where
 
         //intermediate values
         let mut bezalfs = vec![vec![T::zero(); new_degree + 1]; new_degree + degree_inc + 1];
-        let new_control_point_count = control_points.len() + degree_inc + 3;
-        let mut bpts = vec![OPoint::origin(); new_control_point_count];
-        let mut e_bpts = vec![OPoint::origin(); new_control_point_count];
-        let mut next_bpts = vec![OPoint::origin(); new_control_point_count];
+        // every distinct knot after the first one adds `degree_inc` control points
+        let spans = knots.iter().tuple_windows().filter(|(a, b)| a != b).count();
+        let new_control_point_count = control_points.len() + degree_inc * spans;
+        let mut bpts = vec![OPoint::origin(); new_degree + 1];
+        let mut e_bpts = vec![OPoint::origin(); target_degree + 1];
+        let mut next_bpts = vec![OPoint::origin(); new_degree + 1];
 
         let m = n + new_degree + 1;
         let ph = target_degree;
@@ -1111,19 +1113,18 @@ where
         for i in 1..=ph2 {
             let inv = T::one() / binom.get(ph, i);
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = inv * binom.get(new_degree, j) * binom.get(degree_inc, i - j);
             }
         }
 
         for i in (ph2 + 1)..ph {
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = bezalfs[ph - i][new_degree - j];
             }
         }
 
-        let mh = ph;
         let mut kind = ph + 1;
         let mut r: isize = -1;
         let mut a = new_degree;
@@ -1143,7 +1144,6 @@ where
                 b += 1;
             }
             let mul = b - i + 1;
-            let _mh = mh + mul + degree_inc;
             let ub = knots[b];
             let oldr = r;
             r = new_degree as isize - mul as isize;
@@ -1156,11 +1156,7 @@ where
                 1
             };
             let rbz = if r > 0 {
-                (T::from_usize(ph).unwrap()
-                    - T::from_isize(r + 1).unwrap() / T::from_f64(2.).unwrap())
-                .floor()
-                .to_usize()
-                .unwrap()
+                ph - (r as usize + 1) / 2
             } else {
                 ph
             };
@@ -1187,7 +1183,7 @@ where
             for i in lbz..=ph {
                 e_bpts[i] = OPoint::origin();
                 let mpi = new_degree.min(i);
-                for j in 0.max(i - degree_inc)..=mpi {
+                for j in i.saturating_sub(degree_inc)..=mpi {
                     e_bpts[i].coords = &e_bpts[i].coords + &bpts[j].coords * bezalfs[i][j];
                 }
             }
@@ -1211,9 +1207,9 @@ where
                             if (j as isize) - tr <= (kind as isize - ph as isize + oldr) {
                                 let gam = (ub - u_h[j - utr]) / den;
                                 e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - gam);
+                            } else {
+                                e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                             }
-                        } else {
-                            e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                         }
                         i += 1;
                         j -= 1;
-- 
2.43.0


From 8909c644289ab43f8f28c58592a804e61606fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 07/49] fix: elevate the degree of unclamped curves

The algorithm assumes a clamped knot vector and returned an unrelated curve for others.
---
 src/curve/nurbs_curve.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index eee9b8a..7f38e05 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1080,6 +1080,12 @@ where
             return Ok(self.clone());
         }
 
+        if !self.is_clamped() {
+            let mut clamped = self.clone();
+            clamped.try_clamp()?;
+            return clamped.try_elevate_degree(target_degree);
+        }
+
         let n = self.knots.len() - self.degree - 2;
         let new_degree = self.degree;
         let knots = &self.knots;
-- 
2.43.0


From f4abf0888bc447ebf350808581d9fb8520c2e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 08/49] fix: remove knots next to each other and at either
 parity of the degree

The removability test compared unsigned indices that go negative, the index
of the knot was that of its first instead of its last occurrence, and knots of
the end span were not refused.
---
 src/curve/nurbs_curve.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 7f38e05..34c343e 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1351,8 +1351,8 @@ where
         let r = self
             .knots
             .iter()
-            .position(|k| *k == knot)
-            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the knot
+            .rposition(|k| *k == knot)
+            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the last occurrence of the knot
 
         let multiplicities = self.knots.multiplicity();
         let mult = multiplicities
@@ -1368,6 +1368,11 @@ where
                 "Knot is too close to the start of the curve"
             ));
         }
+        if r > n {
+            return Err(anyhow::anyhow!(
+                "Knot is too close to the end of the curve"
+            ));
+        }
         let mut first = r - p;
 
         if r <= s {
@@ -1423,7 +1428,7 @@ where
             }
 
             // check if knot removable
-            let remove = if j >= i && (j - i) < t {
+            let remove = if j < i + t {
                 let left = &temp[ii - 1];
                 let right = &temp[jj + 1];
                 (left - right).norm() <= tolerance
-- 
2.43.0


From f63d41fbcc0916b357091ff562e377b9f7d572de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 09/49] fix: closest parameter of a curve stays in the domain
 and is never worse than the initial guess

A step below the start of a closed curve was wrapped beyond its end, and a
diverged Newton iteration was returned as it was.
---
 src/closest_parameter/curve_closest_parameter_newton.rs | 2 +-
 src/curve/nurbs_curve.rs                                | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/closest_parameter/curve_closest_parameter_newton.rs b/src/closest_parameter/curve_closest_parameter_newton.rs
index 1b4b7de..cd03da7 100644
--- a/src/closest_parameter/curve_closest_parameter_newton.rs
+++ b/src/closest_parameter/curve_closest_parameter_newton.rs
@@ -70,7 +70,7 @@ where
         // Constrain the parameter to the domain
         let new_param = if new_param < self.knot_domain.0 {
             if self.closed {
-                self.knot_domain.1 - (new_param - self.knot_domain.0)
+                self.knot_domain.1 + (new_param - self.knot_domain.0)
             } else {
                 self.knot_domain.0
             }
diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 34c343e..c4c52fe 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1697,8 +1697,12 @@ where
             .run()?;
         match res.state().get_best_param().cloned() {
             Some(t) => {
-                if t.is_finite() {
+                // Newton's method may leave the basin of the closest point
+                let distance = |u: T| (self.point_at(u) - point).norm();
+                if (min_u..=max_u).contains(&t) && distance(t) <= distance(u) {
                     Ok(t)
+                } else if u.is_finite() {
+                    Ok(u)
                 } else {
                     Err(anyhow::anyhow!("No best parameter found"))
                 }
-- 
2.43.0


From d49c7e57466c31492107d96c4fb33340d0b35979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 10/49] fix: elliptical arcs that are not aligned with the axes

The tangents at the ends of a segment ignored the radii.
---
 src/curve/nurbs_curve.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index c4c52fe..1e41bf3 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -934,7 +934,8 @@ where
         let mut p0 = center
             + &x_axis * x_radius * start_angle.cos()
             + &y_axis * y_radius * start_angle.sin();
-        let mut t0 = &y_axis * start_angle.cos() - &x_axis * start_angle.sin();
+        let mut t0 =
+            &y_axis * y_radius * start_angle.cos() - &x_axis * x_radius * start_angle.sin();
 
         let n = 2 * arcs + 1;
         let degree = 2;
@@ -949,14 +950,14 @@ where
 
             let p2 = center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin();
 
-            let t2 = &y_axis * angle.cos() - &x_axis * angle.sin();
+            let t2 = &y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin();
             let ray = Ray::new(p0.clone(), t0.normalize());
             let other = Ray::new(p2.clone(), t2.normalize());
             let intersection = ray
                 .find_intersection(&other)
                 .ok_or(anyhow::anyhow!("No intersection"))?;
 
-            let p1 = &p0 + &t0 * intersection.intersection0.1;
+            let p1 = intersection.intersection0.0;
 
             control_points[index + 2] = p2.clone();
             weights[index + 2] = T::one();
-- 
2.43.0


From 4651d81eddec0f1b838d5021e2ac2798bea2a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 11/49] fix: arcs just below a half turn are split into enough
 segments

---
 src/curve/nurbs_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 1e41bf3..228167e 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -927,7 +927,7 @@ where
 
         let theta = end_angle - start_angle;
 
-        let arcs = (theta / T::from_f64(FRAC_PI_2).unwrap()).floor().to_usize();
+        let arcs = (theta / T::from_f64(FRAC_PI_2).unwrap()).ceil().to_usize();
         let arcs = arcs.unwrap_or(1).clamp(1, 4);
         let dtheta = theta / T::from_usize(arcs).unwrap();
         let w1 = (dtheta / T::from_f64(2.0).unwrap()).cos();
-- 
2.43.0


From e0694021ad7b7ea3ff3db98a49211418106f3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 12/49] fix: a curve can be divided into a single segment

---
 src/curve/nurbs_curve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 228167e..e64086c 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -555,9 +555,10 @@ where
             .map(|s| s.try_length())
             .collect::<anyhow::Result<Vec<_>>>()?;
         let total = lengthes.iter().fold(T::zero(), |a, b| a + *b);
+        let eps = T::from_f64(1e-6).unwrap();
 
         anyhow::ensure!(
-            total > length,
+            total + eps > length,
             "The curve is too short to divide by the given length total:{}, given length:{}",
             total,
             length
@@ -572,7 +573,6 @@ where
         let mut acc_prev = T::zero();
 
         let gauss = GaussLegendre::new(16 + self.degree)?;
-        let eps = T::from_f64(1e-6).unwrap();
         let tolerance = T::from_f64(1e-3 * 2.5).unwrap();
 
         while i < segments.len() {
-- 
2.43.0


From e9284e7a1950322e197c84d9533a050fb6ab4791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 13/49] fix: moving frames over parallel tangents

---
 src/curve/nurbs_curve.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index e64086c..d102ff9 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1889,8 +1889,9 @@ impl<T: FloatingPoint> NurbsCurve3D<T> {
         for i in 1..parameters.len() {
             let prev_normal = &normals[i - 1];
 
-            let v = tangents[i - 1].cross(&tangents[i]).normalize();
-            if v.norm() > T::default_epsilon() {
+            // (nearly) parallel tangents span no axis of rotation
+            let v = tangents[i - 1].cross(&tangents[i]);
+            if v.norm() > T::default_epsilon().sqrt() {
                 let theta = tangents[i - 1]
                     .dot(&tangents[i])
                     .clamp(-T::one(), T::one())
-- 
2.43.0


From ecbadd4b36af92e5ab3e9a1aa198ca47d2437dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 14/49] fix: tessellation of a curve reaches its end over a
 tiny domain

---
 src/tessellation/tessellation_curve.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/tessellation_curve.rs b/src/tessellation/tessellation_curve.rs
index 7a446a2..8f822a2 100644
--- a/src/tessellation/tessellation_curve.rs
+++ b/src/tessellation/tessellation_curve.rs
@@ -48,12 +48,11 @@ where
 {
     let p1 = curve.point_at(start);
     let delta = end - start;
+    let p3 = curve.point_at(end);
     if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+        return vec![p1, p3];
     }
 
-    let p3 = curve.point_at(end);
-
     let t = 0.5_f64 + 0.2_f64 * rng.random::<f64>();
     let mid = start + delta * T::from_f64(t).unwrap();
     let p2 = curve.point_at(mid);
-- 
2.43.0


From 00467aac5b8693ac10cf20c46cce86064fbfe70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 15/49] fix: derivatives on a regular grid for any order and
 any pair of degrees

---
 src/surface/nurbs_surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 0b380f7..a833d92 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -330,7 +330,7 @@ where
         } else {
             self.v_degree
         };
-        let mut skl = vec![vec![OVector::<T, D>::zeros(); du + 1]; dv + 1];
+        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];
 
         for k in 0..=du {
             let mut temp = vec![];
-- 
2.43.0


From dcd25049efb80fd7f4e6fdc7ebb091904e1b9797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 16/49] fix: revolve about an axis of any length

---
 src/surface/nurbs_surface.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index a833d92..a58be7e 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1154,6 +1154,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
         axis: &Vector3<T>,
         theta: T,
     ) -> anyhow::Result<Self> {
+        let axis = &axis.normalize();
         let prof_points = profile.dehomogenized_control_points();
         let prof_weights = profile.weights();
 
-- 
2.43.0


From 05ae8f54cf4613277cf9eb1afcf78ffc6da6321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 17/49] fix: regular grids up to a domain end whose knot is
 repeated inside it

---
 src/knot/knot_vector.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/knot/knot_vector.rs b/src/knot/knot_vector.rs
index aa707bc..3caaf51 100644
--- a/src/knot/knot_vector.rs
+++ b/src/knot/knot_vector.rs
@@ -326,13 +326,10 @@ impl<T: RealField + Copy> KnotVector<T> {
         let mut bases = vec![];
         let mut knot_spans = vec![];
         let mut u = start;
-        let mut knot_index = self.find_knot_span_index(n, degree, u);
 
         // compute all of the basis functions
         for _i in 0..=divs {
-            while u >= self[knot_index + 1] && knot_index < n {
-                knot_index += 1;
-            }
+            let knot_index = self.find_knot_span_index(n, degree, u);
             knot_spans.push(knot_index);
             bases.push(self.basis_functions(knot_index, u, degree));
             u += span;
@@ -353,13 +350,10 @@ impl<T: RealField + Copy> KnotVector<T> {
         let mut bases = vec![];
         let mut knot_spans = vec![];
         let mut u = start;
-        let mut knot_index = self.find_knot_span_index(n, degree, u);
 
         // compute all of the basis functions
         for _i in 0..=divs {
-            while u >= self[knot_index + 1] && knot_index < n {
-                knot_index += 1;
-            }
+            let knot_index = self.find_knot_span_index(n, degree, u);
             knot_spans.push(knot_index);
             bases.push(self.derivative_basis_functions(knot_index, u, degree, n));
             u += span;
-- 
2.43.0


From 840e722d1de054d3d3ff9eb1985b3b8d6faff390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 18/49] fix: revolve profiles that touch the axis away from the
 origin

---
 src/surface/nurbs_surface.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index a58be7e..554b7b9 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1211,6 +1211,12 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
 
         let mut control_points = vec![vec![Point4::origin(); prof_points.len()]; 2 * narcs + 1];
 
+        // points closer to the axis than their rounding errors are on it
+        let scale = prof_points.iter().fold(T::one(), |s, p| {
+            s.max(p.coords.norm()).max((p - center).norm())
+        });
+        let eps = T::default_epsilon() * T::from_f64(10.0).unwrap() * scale;
+
         for j in 0..prof_points.len() {
             let p = &prof_points[j];
             let s = (p - center).dot(axis);
@@ -1223,7 +1229,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             // perpendicular vector to x & axis
             let mut y = axis.cross(&x);
 
-            if r > T::default_epsilon() {
+            if r > eps {
                 x *= T::one() / r;
                 y *= T::one() / r;
             }
@@ -1238,7 +1244,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             let mut t0 = y;
             let mut index = 0;
             for i in 1..=narcs {
-                let p2 = if r <= T::default_epsilon() {
+                let p2 = if r <= eps {
                     o
                 } else {
                     o + x * cosines[i] * r + y * sines[i] * r
@@ -1253,7 +1259,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
                 let t2 = y * cosines[i] - x * sines[i];
 
                 let l = index + 1;
-                if r <= T::default_epsilon() {
+                if r <= eps {
                     control_points[l][j].x = o.x;
                     control_points[l][j].y = o.y;
                     control_points[l][j].z = o.z;
-- 
2.43.0


From c0e4b7bee06c8517029fce3c9e0c61cd33602d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 19/49] fix: lofts pass through all of their profiles

---
 src/curve/nurbs_curve.rs     | 17 +++++++++++++
 src/surface/nurbs_surface.rs | 46 +++++++++++++++++++++++-------------
 2 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index d102ff9..e645f5c 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2019,6 +2019,13 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
         anyhow::bail!("Too few control points for curve");
     }
 
+    let us = chord_length_parameters(points);
+    try_interpolate_control_points_at(points, &us, degree, homogeneous)
+}
+
+/// Parameters of the points by their chord lengths, from zero to one
+pub(crate) fn chord_length_parameters<T: FloatingPoint>(points: &[DVector<T>]) -> Vec<T> {
+    let n = points.len();
     let mut us: Vec<T> = vec![T::zero()];
     for i in 1..n {
         let sub = &points[i] - &points[i - 1];
@@ -2033,6 +2040,16 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
         us[i] /= max;
     }
 
+    us
+}
+
+/// Interpolate the points at the given parameters, which ascend from zero to one
+pub(crate) fn try_interpolate_control_points_at<T: FloatingPoint>(
+    points: &[DVector<T>],
+    us: &[T],
+    degree: usize,
+    homogeneous: bool,
+) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
     let mut knots_start = vec![T::zero(); degree + 1];
 
     let start = 1;
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 554b7b9..2d6ad85 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -10,9 +10,9 @@ use nalgebra::{
 use simba::scalar::SupersetOf;
 
 use crate::{
-    curve::{
-        nurbs_curve::{dehomogenize, NurbsCurve, NurbsCurve3D},
-        try_interpolate_control_points,
+    curve::nurbs_curve::{
+        chord_length_parameters, dehomogenize, try_interpolate_control_points_at, NurbsCurve,
+        NurbsCurve3D,
     },
     misc::{
         binomial::Binomial, transformable::Transformable, transpose_control_points, FloatingPoint,
@@ -682,21 +682,35 @@ where
 
         let knots_u = unified_curves[0].knots().clone();
 
-        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
-        let v_curves: anyhow::Result<Vec<_>> = (0..unified_curves[0].control_points().len())
+        // Columns of control points
+        let columns = (0..unified_curves[0].control_points().len())
             .map(|i| {
-                let points = unified_curves
+                unified_curves
                     .iter()
-                    .map(|c| c.control_points()[i].clone())
-                    .collect_vec();
-                let (control_points, knots) = try_interpolate_control_points(
-                    &points
-                        .iter()
-                        .map(|p| DVector::from_vec(p.iter().copied().collect()))
-                        .collect_vec(),
-                    degree_v,
-                    false,
-                )?;
+                    .map(|c| DVector::from_vec(c.control_points()[i].iter().copied().collect()))
+                    .collect_vec()
+            })
+            .collect_vec();
+
+        // All of the columns share the parameters of the curves,
+        // the averages of their chord length parameters
+        let parameters = columns
+            .iter()
+            .map(|points| chord_length_parameters(points))
+            .filter(|us| us.iter().all(|u| u.is_finite()))
+            .collect_vec();
+        anyhow::ensure!(!parameters.is_empty(), "The curves are all the same");
+        let count = T::from_usize(parameters.len()).unwrap();
+        let parameters = (0..unified_curves.len())
+            .map(|i| parameters.iter().fold(T::zero(), |a, us| a + us[i]) / count)
+            .collect_vec();
+
+        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
+        let v_curves: anyhow::Result<Vec<_>> = columns
+            .iter()
+            .map(|points| {
+                let (control_points, knots) =
+                    try_interpolate_control_points_at(points, &parameters, degree_v, false)?;
                 NurbsCurve::try_new(
                     degree_v,
                     control_points
-- 
2.43.0


From 18022b3cb5919e3a0701227a10a43e74d7401bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 20/49] fix: iso curves at repeated knots and at unclamped ends

---
 src/surface/nurbs_surface.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 2d6ad85..f79b08d 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -795,16 +795,21 @@ where
             Cow::Borrowed(self)
         };
 
-        let span = if (t - knots.first()).abs() < T::default_epsilon() {
-            0
-        } else if (t - knots.last()).abs() < T::default_epsilon() {
-            match direction {
-                UVDirection::U => refined.control_points.len() - 1,
-                UVDirection::V => refined.control_points[0].len() - 1,
-            }
-        } else {
-            knots.find_knot_span_index(knots.len() - degree - 2, degree, t)
+        // the control points at t are those where the repeated knot starts
+        // (at the end of the domain) or ends (anywhere else)
+        let refined_knots = match direction {
+            UVDirection::U => &refined.u_knots,
+            UVDirection::V => &refined.v_knots,
         };
+        let mut copies = refined_knots
+            .iter()
+            .positions(|k| (t - *k).abs() < T::default_epsilon());
+        let span = if t < knots.domain(degree).1 {
+            copies.next_back().and_then(|i| i.checked_sub(degree))
+        } else {
+            copies.next().and_then(|i| i.checked_sub(1))
+        }
+        .ok_or_else(|| anyhow::anyhow!("The parameter is out of the knots"))?;
 
         match direction {
             UVDirection::U => NurbsCurve::try_new(
-- 
2.43.0


From 0b41e3defce7310322765d10b136e06c5ce1d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 21/49] fix: closest parameter of a closed surface wraps around
 its seams

---
 src/closest_parameter/surface_closest_parameter_newton.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/closest_parameter/surface_closest_parameter_newton.rs b/src/closest_parameter/surface_closest_parameter_newton.rs
index 6e5468a..d694821 100644
--- a/src/closest_parameter/surface_closest_parameter_newton.rs
+++ b/src/closest_parameter/surface_closest_parameter_newton.rs
@@ -198,13 +198,13 @@ where
 fn constrain<T: FloatingPoint>(parameter: T, domain: (T, T), closed: bool) -> T {
     if parameter < domain.0 {
         if closed {
-            domain.1 - (parameter - domain.0)
+            (domain.1 + (parameter - domain.0)).max(domain.0)
         } else {
             domain.0 + T::default_epsilon()
         }
     } else if parameter > domain.1 {
         if closed {
-            domain.0 + (parameter - domain.1)
+            (domain.0 + (parameter - domain.1)).min(domain.1)
         } else {
             domain.1 - T::default_epsilon()
         }
-- 
2.43.0


From 14112a653e87b09e08a018f06be68294f7cdb476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 22/49] fix: adaptive tessellations know their western
 neighbours

---
 src/tessellation/surface.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index c97cb57..aa1f57e 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -173,7 +173,7 @@ where
                 let s = south(index, iv, divs_u, divs_v);
                 let e = east(index, iu, divs_u);
                 let n = north(index, iv, divs_u);
-                let w = west(index, iv);
+                let w = west(index, iu);
                 AdaptiveTessellationNode::new(index, corners, [s, e, n, w])
             })
         })
@@ -221,8 +221,8 @@ fn east(index: usize, iu: usize, divs_u: usize) -> Option<usize> {
     }
 }
 
-fn west(index: usize, iv: usize) -> Option<usize> {
-    if iv == 0 {
+fn west(index: usize, iu: usize) -> Option<usize> {
+    if iu == 0 {
         None
     } else {
         Some(index - 1)
-- 
2.43.0


From babe5c0bdc7ecb6878ea2e6996c3a75340ddc92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 23/49] fix: normals of tessellations at poles and on small
 surfaces

---
 src/surface/nurbs_surface.rs                   |  4 +++-
 src/tessellation/adaptive_tessellation_node.rs |  8 ++++++--
 src/tessellation/surface.rs                    | 11 ++++++-----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index f79b08d..1a9c7ba 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -245,7 +245,9 @@ where
                     .map(|der| {
                         let v0 = &der[1][0];
                         let v1 = &der[0][1];
-                        v0.cross(v1).normalize()
+                        // the normal vanishes where the surface degenerates (e.g. at poles)
+                        let normal = v0.cross(v1);
+                        normal.try_normalize(T::default_epsilon()).unwrap_or(normal)
                     })
                     .collect()
             })
diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 359de12..2194fef 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -254,7 +254,7 @@ where
 }
 
 /// Evaluate the surface at a given uv coordinate
-fn evaluate_surface<T: FloatingPoint, D>(
+pub(crate) fn evaluate_surface<T: FloatingPoint, D>(
     surface: &NurbsSurface<T, D>,
     uv: Vector2<T>,
 ) -> SurfacePoint<T, DimNameDiff<D, U1>>
@@ -266,7 +266,11 @@ where
     let derivs = surface.rational_derivatives(uv.x, uv.y, 1);
     let pt = derivs[0][0].clone();
     let norm = derivs[1][0].cross(&derivs[0][1]);
-    let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
+    // relative to the derivatives, in order not to depend on the size of the surface
+    let scale = derivs[1][0]
+        .magnitude_squared()
+        .max(derivs[0][1].magnitude_squared());
+    let is_normal_degenerated = norm.magnitude_squared() <= T::default_epsilon() * scale * scale;
     SurfacePoint::new(
         uv,
         pt.into(),
diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index aa1f57e..02e63c9 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -2,8 +2,11 @@ use super::adaptive_tessellation_option::AdaptiveTessellationOptions;
 use super::adaptive_tessellation_processor::AdaptiveTessellationProcessor;
 use super::boundary_constraints::BoundaryConstraints;
 use super::surface_tessellation::SurfaceTessellation;
-use super::{adaptive_tessellation_node::AdaptiveTessellationNode, Tessellation};
-use super::{ConstrainedTessellation, SurfacePoint};
+use super::ConstrainedTessellation;
+use super::{
+    adaptive_tessellation_node::{evaluate_surface, AdaptiveTessellationNode},
+    Tessellation,
+};
 use itertools::Itertools;
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Vector2, U1,
@@ -144,12 +147,10 @@ where
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
-                let ds = s.rational_derivatives(*u, *v, 1);
-                let norm = ds[1][0].cross(&ds[0][1]).normalize();
                 let v_min = iu == 0;
                 let v_max = iu == divs_u - 1;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
-                SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
+                evaluate_surface(s, Vector2::new(*u, *v))
                     .with_constraints(u_constraint, v_constraint)
                     .with_boundary(u_min, u_max, v_min, v_max)
             });
-- 
2.43.0


From 7668234f781a15f8d97d71ba829bd3927cd8df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 24/49] fix: constrained tessellations keep the prescribed
 boundaries and stay valid meshes

---
 .../adaptive_tessellation_node.rs             | 15 ++-
 src/tessellation/boundary_constraints.rs      | 26 +++--
 src/tessellation/surface.rs                   | 19 +++-
 src/tessellation/surface_tessellation.rs      | 99 ++++++++++++++-----
 4 files changed, 117 insertions(+), 42 deletions(-)

diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 2194fef..0eef921 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -198,8 +198,17 @@ where
         options: &AdaptiveTessellationOptions<T>,
         current_depth: usize,
     ) -> Option<DividableDirection> {
+        let u_constrained = self.corners.iter().any(|c| c.is_u_constrained());
+        let v_constrained = self.corners.iter().any(|c| c.is_v_constrained());
+
         if current_depth < options.min_depth {
-            return Some(DividableDirection::Both);
+            // constrained boundaries must not be divided
+            return match (u_constrained, v_constrained) {
+                (false, false) => Some(DividableDirection::Both),
+                (true, false) => Some(DividableDirection::U),
+                (false, true) => Some(DividableDirection::V),
+                (true, true) => None,
+            };
         }
 
         if current_depth >= options.max_depth {
@@ -218,13 +227,13 @@ where
             > options.norm_tolerance
             || (self.corners[2].normal() - self.corners[3].normal()).norm_squared()
                 > options.norm_tolerance;
-        let v_direction = v_direction && self.corners.iter().all(|c| !c.is_u_constrained());
+        let v_direction = v_direction && !u_constrained;
 
         let u_direction = (self.corners[1].normal() - self.corners[2].normal()).norm_squared()
             > options.norm_tolerance
             || (self.corners[3].normal() - self.corners[0].normal()).norm_squared()
                 > options.norm_tolerance;
-        let u_direction = u_direction && self.corners.iter().all(|c| !c.is_v_constrained());
+        let u_direction = u_direction && !v_constrained;
 
         match (u_direction, v_direction) {
             (true, true) => Some(DividableDirection::Both),
diff --git a/src/tessellation/boundary_constraints.rs b/src/tessellation/boundary_constraints.rs
index 9b03a3a..63f413e 100644
--- a/src/tessellation/boundary_constraints.rs
+++ b/src/tessellation/boundary_constraints.rs
@@ -5,7 +5,7 @@ use nalgebra::{
 
 use crate::{misc::FloatingPoint, surface::NurbsSurface};
 
-use super::SurfacePoint;
+use super::{adaptive_tessellation_node::evaluate_surface, SurfacePoint};
 
 /// A struct representing constraints at the boundary of a surface tessellation
 #[derive(Clone, Debug)]
@@ -123,13 +123,7 @@ where
     pub fn new(surface: &NurbsSurface<T, D>, constraints: &BoundaryConstraints<T>) -> Self {
         let (u, v) = surface.knots_domain();
 
-        let evaluate = |uv: Vector2<T>| {
-            let deriv = surface.rational_derivatives(uv.x, uv.y, 1);
-            let pt = deriv[0][0].clone();
-            let norm = deriv[1][0].cross(&deriv[0][1]);
-            let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
-            SurfacePoint::new(uv, pt.into(), norm, is_normal_degenerated)
-        };
+        let evaluate = |uv: Vector2<T>| evaluate_surface(surface, uv);
 
         Self {
             u_points_at_v_min: constraints.u_parameters_at_v_min().map(|u_parameters| {
@@ -159,6 +153,19 @@ where
         }
     }
 
+    /// Find the closest point on the constrained boundary the given point lies on
+    pub fn closest_point_on_boundary(
+        &self,
+        point: &SurfacePoint<T, DimNameDiff<D, U1>>,
+    ) -> Option<SurfacePoint<T, DimNameDiff<D, U1>>> {
+        let on = |is_on_boundary: bool| is_on_boundary.then_some(point);
+        on(point.is_u_min())
+            .and_then(|p| self.closest_point_at_u_min(p))
+            .or_else(|| on(point.is_u_max()).and_then(|p| self.closest_point_at_u_max(p)))
+            .or_else(|| on(point.is_v_min()).and_then(|p| self.closest_point_at_v_min(p)))
+            .or_else(|| on(point.is_v_max()).and_then(|p| self.closest_point_at_v_max(p)))
+    }
+
     pub fn closest_point_at_u_min(
         &self,
         point: &SurfacePoint<T, DimNameDiff<D, U1>>,
@@ -204,7 +211,8 @@ where
         points
             .iter()
             .map(|p| {
-                let dist = (p.point() - point.point()).norm_squared();
+                // in the parameter space, because sides may be closed or degenerated
+                let dist = (p.uv() - point.uv()).norm_squared();
                 (p, dist)
             })
             .min_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(std::cmp::Ordering::Equal))
diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index 02e63c9..62fc326 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -143,15 +143,28 @@ where
         .enumerate()
         .map(|(iv, v)| {
             let u_min = iv == 0;
-            let u_max = iv == divs_v - 1;
+            let u_max = iv == divs_v;
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
                 let v_min = iu == 0;
-                let v_max = iu == divs_u - 1;
+                let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
+                // nodes whose corners are going to be moved along the boundary must not be divided
+                let moved = constraints
+                    .as_ref()
+                    .map(|c| {
+                        let is_missing = |parameters: Option<&Vec<T>>, t: &T| {
+                            parameters.is_some_and(|parameters| !parameters.contains(t))
+                        };
+                        (u_min && is_missing(c.u_parameters_at_v_min(), u))
+                            || (u_max && is_missing(c.u_parameters_at_v_max(), u))
+                            || (v_min && is_missing(c.v_parameters_at_u_min(), v))
+                            || (v_max && is_missing(c.v_parameters_at_u_max(), v))
+                    })
+                    .unwrap_or(false);
                 evaluate_surface(s, Vector2::new(*u, *v))
-                    .with_constraints(u_constraint, v_constraint)
+                    .with_constraints(u_constraint || moved, v_constraint || moved)
                     .with_boundary(u_min, u_max, v_min, v_max)
             });
             row.collect_vec()
diff --git a/src/tessellation/surface_tessellation.rs b/src/tessellation/surface_tessellation.rs
index 4a4c1a4..2cf7951 100644
--- a/src/tessellation/surface_tessellation.rs
+++ b/src/tessellation/surface_tessellation.rs
@@ -79,34 +79,23 @@ where
                 .unwrap_or(0);
             let pts = corners.into_iter().flatten().collect_vec();
 
-            let pts = if let Some(boundary_evaluation) = boundary_evaluation {
-                pts.into_iter()
-                    .map(|pt| {
-                        if pt.is_u_min() {
-                            if let Some(closest) = boundary_evaluation.closest_point_at_u_min(&pt) {
-                                return closest;
-                            }
-                        }
-                        if pt.is_u_max() {
-                            if let Some(closest) = boundary_evaluation.closest_point_at_u_max(&pt) {
-                                return closest;
-                            }
-                        }
-                        if pt.is_v_min() {
-                            if let Some(closest) = boundary_evaluation.closest_point_at_v_min(&pt) {
-                                return closest;
-                            }
-                        }
-                        if pt.is_v_max() {
-                            if let Some(closest) = boundary_evaluation.closest_point_at_v_max(&pt) {
-                                return closest;
-                            }
-                        }
-                        pt
-                    })
-                    .collect_vec()
+            let (pts, snapped) = if let Some(boundary_evaluation) = boundary_evaluation {
+                let closest = pts
+                    .iter()
+                    .map(|pt| boundary_evaluation.closest_point_on_boundary(pt))
+                    .collect_vec();
+                let snapped = pts
+                    .iter()
+                    .zip(&closest)
+                    .any(|(pt, c)| c.as_ref().is_some_and(|c| c.uv() != pt.uv()));
+                let pts = pts
+                    .into_iter()
+                    .zip(closest)
+                    .map(|(pt, c)| c.unwrap_or(pt))
+                    .collect_vec();
+                (pts, snapped)
             } else {
-                pts
+                (pts, false)
             };
 
             let base_index = self.points.len();
@@ -119,6 +108,13 @@ where
                 self.uvs.push(uv);
             }
 
+            if snapped {
+                // the boundary moved corners of the node, which is not a rectangle anymore
+                let faces = triangulate_polygon(&self.uvs, ids);
+                self.faces.extend(faces);
+                return;
+            }
+
             match n {
                 4 => {
                     self.faces.push([ids[0], ids[1], ids[3]]);
@@ -184,3 +180,52 @@ where
         }
     }
 }
+
+/// Triangulate a simple polygon in the parameter space by clipping its ears
+fn triangulate_polygon<T: FloatingPoint>(
+    uvs: &[Vector2<T>],
+    mut polygon: Vec<usize>,
+) -> Vec<[usize; 3]> {
+    let cross = |a: usize, b: usize, c: usize| (uvs[b] - uvs[a]).perp(&(uvs[c] - uvs[b]));
+
+    // snapped corners may coincide
+    polygon.dedup_by(|a, b| uvs[*a] == uvs[*b]);
+    while polygon.len() > 1 && uvs[polygon[0]] == uvs[polygon[polygon.len() - 1]] {
+        polygon.pop();
+    }
+
+    let mut faces = vec![];
+    while polygon.len() >= 3 {
+        let n = polygon.len();
+        let ear = (0..n)
+            .map(|i| {
+                let [a, b, c] = [polygon[(i + n - 1) % n], polygon[i], polygon[(i + 1) % n]];
+                (i, [a, b, c], cross(a, b, c))
+            })
+            .filter(|(_, [a, b, c], area)| {
+                let blocked = |p: &usize| {
+                    cross(*a, *b, *p) >= T::zero()
+                        && cross(*b, *c, *p) >= T::zero()
+                        && cross(*c, *a, *p) >= T::zero()
+                };
+                *area > T::zero()
+                    && !polygon
+                        .iter()
+                        .filter(|p| !matches!(uvs[**p], q if q == uvs[*a] || q == uvs[*b] || q == uvs[*c]))
+                        .any(blocked)
+            })
+            .max_by(|x, y| x.2.partial_cmp(&y.2).unwrap_or(std::cmp::Ordering::Equal));
+        match ear {
+            Some((i, face, _)) => {
+                faces.push(face);
+                polygon.remove(i);
+            }
+            None => {
+                // the rest has no area, but connects the neighbors
+                faces.extend((1..n - 1).map(|i| [polygon[0], polygon[i], polygon[i + 1]]));
+                break;
+            }
+        }
+    }
+    faces
+}
-- 
2.43.0


From 664ee840fcf1a139c336a293463e7959ae2e65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 25/49] fix: trimming curves of parabolic arcs are subdivided
 to the tolerance

---
 src/tessellation/trimmed_surface.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 6acf354..6ba5ed5 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -335,6 +335,9 @@ fn iterate_uv_curve_tessellation<T: FloatingPoint>(
             // if the curve is a linear curve, we don't need to tessellate it by normal
             false
         } else {
+            // compare the directions, because the derivatives of parabolas change evenly
+            let [n1, n2, n3] =
+                [n1, n2, n3].map(|n| n.try_normalize(T::default_epsilon()).unwrap_or(n));
             let diff = n2 - n1;
             let diff2 = n3 - n2;
             (diff - diff2).norm() > normal_tolerance
-- 
2.43.0


From b7c208baac3984aa9352e46c6df2fbd052a63cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 26/49] fix: inverted trimmed surfaces mirror their trimming
 curves

---
 src/surface/trimmed_surface.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index 755dcde..c5977e4 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
 
 use argmin::core::ArgminFloat;
-use nalgebra::{ComplexField, Matrix4, Point3, Vector3, U3};
+use nalgebra::{ComplexField, Matrix3, Matrix4, Point3, Vector3, U3};
 
 use crate::{
     curve::{NurbsCurve2D, NurbsCurve3D},
@@ -190,11 +190,20 @@ impl<'a, T: FloatingPoint> Transformable<&'a Matrix4<T>> for TrimmedSurface<T> {
 impl<T: FloatingPoint> Invertible for TrimmedSurface<T> {
     /// Reverse the direction of the surface
     fn invert(&mut self) {
+        // the parameters of the surface are mirrored within its knots
+        let u = self.surface.u_knots().first() + self.surface.u_knots().last();
+        let v = self.surface.v_knots().first() + self.surface.v_knots().last();
+        let (o, i) = (T::zero(), T::one());
+        let mirror = Matrix3::new(-i, o, u, o, -i, v, o, o, i);
+
         self.surface.invert();
-        if let Some(curve) = self.exterior.as_mut() {
-            curve.invert();
-        }
-        self.interiors.iter_mut().for_each(|curve| curve.invert());
+        self.exterior
+            .iter_mut()
+            .chain(self.interiors.iter_mut())
+            .for_each(|curve| {
+                curve.transform(&mirror);
+                curve.invert();
+            });
     }
 }
 
-- 
2.43.0


From 2a66fc7dd27bbac48b53d93dfbf422c7966587b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 27/49] fix: contains for points level with a vertex or a joint
 of the boundary

---
 src/contains/contains_compound_curve.rs | 15 ++++++++++++--
 src/contains/contains_curve.rs          | 26 +++++++++++++++++++------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/contains/contains_compound_curve.rs b/src/contains/contains_compound_curve.rs
index 1b43f01..6f3a917 100644
--- a/src/contains/contains_compound_curve.rs
+++ b/src/contains/contains_compound_curve.rs
@@ -1,8 +1,9 @@
 use argmin::core::ArgminFloat;
+use itertools::Itertools;
 use nalgebra::{Const, Point2};
 
 use crate::{
-    contains::contains_curve::x_ray_intersection,
+    contains::contains_curve::{crosses_joint, x_ray_intersection},
     misc::FloatingPoint,
     prelude::{BoundingBox, CurveIntersectionSolverOptions},
     region::CompoundCurve,
@@ -63,6 +64,16 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for CompoundCurve<T,
             .collect();
 
         let count = intersections?.iter().map(|its| its.len()).sum::<usize>();
-        Ok(count % 2 == 1)
+        let joints = self
+            .spans()
+            .iter()
+            .circular_tuple_windows()
+            .filter(|(a, b)| {
+                let end = a.point_at(a.knots_domain().1);
+                let start = b.point_at(b.knots_domain().0);
+                crosses_joint(&end, &start, point)
+            })
+            .count();
+        Ok((count + joints) % 2 == 1)
     }
 }
diff --git a/src/contains/contains_curve.rs b/src/contains/contains_curve.rs
index fcdfc0f..dd1b7a5 100644
--- a/src/contains/contains_curve.rs
+++ b/src/contains/contains_curve.rs
@@ -56,12 +56,25 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for NurbsCurve<T, Con
 
         // curve & ray intersections
         match x_ray_intersection(self, point, size.x * T::from_f64(2.).unwrap(), option) {
-            Ok(its) => Ok(its.len() % 2 == 1),
+            Ok(its) => {
+                let (start, end) = self.knots_domain();
+                let joint = crosses_joint(&self.point_at(end), &self.point_at(start), point);
+                Ok((its.len() % 2 == 1) != joint)
+            }
             Err(e) => Err(e),
         }
     }
 }
 
+/// Check if the ray passes between the two ends that meet at a joint (they may differ by rounding).
+pub fn crosses_joint<T: FloatingPoint>(
+    end: &Point2<T>,
+    start: &Point2<T>,
+    point: &Point2<T>,
+) -> bool {
+    (point.y < end.y) != (point.y < start.y) && point.x <= end.x
+}
+
 pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
     curve: &NurbsCurve<T, U3>,
     point: &Point2<T>,
@@ -84,8 +97,8 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
         .pairs()
         .iter()
         .filter_map(|(item, _)| {
-            let curve = item.curve();
-            let (start, end) = curve.knots_domain();
+            // evaluate on the undivided curve, so that adjacent pieces agree on the point between them
+            let (start, end) = item.curve().knots_domain();
             let p_start = curve.point_at(start);
             let p_end = curve.point_at(end);
 
@@ -110,7 +123,7 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
                 let dy = p.y - point.y;
 
                 if Float::abs(dy) < option.minimum_distance {
-                    return Some((p, t));
+                    return Some((p, t, y_forward));
                 }
 
                 let over = dy > T::zero();
@@ -124,7 +137,7 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
 
             None
         })
-        .filter(|(p, _)| point.x <= p.x)
+        .filter(|(p, _, _)| point.x <= p.x)
         .collect_vec();
 
     intersections.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(Ordering::Equal));
@@ -134,8 +147,9 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
         .into_iter()
         .coalesce(|x, y| {
             // merge intersections that are close
+            // (but an upward & a downward one are distinct: the curve touches the ray there)
             let dt = x.0 - y.0;
-            if dt.norm() < eps {
+            if x.2 == y.2 && dt.norm() < eps {
                 Ok(x)
             } else {
                 Err((x, y))
-- 
2.43.0


From 89d3eb271b869e8abda1703bd2688d0e48c2d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 28/49] fix: closest parameter of a curve that turns sharply at
 its knots

---
 src/curve/nurbs_curve.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index e645f5c..0b97de4 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1,3 +1,4 @@
+use std::cmp::Ordering;
 use std::f64::consts::{FRAC_PI_2, TAU};
 use std::vec;
 
@@ -1669,7 +1670,13 @@ where
     {
         let (min_u, max_u) = self.knots_domain();
         let samples = self.control_points.len() * self.degree;
-        let pts = self.sample_regular_range_with_parameter(min_u, max_u, samples);
+        let mut pts = self.sample_regular_range_with_parameter(min_u, max_u, samples);
+
+        // the pieces of the curve may turn sharply at the knots between them
+        let knots = self.knots.iter().filter(|k| min_u < **k && **k < max_u);
+        pts.extend(knots.dedup().map(|k| (*k, self.point_at(*k))));
+        pts.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(Ordering::Equal));
+        pts.dedup_by(|a, b| a.0 == b.0);
 
         let mut min = <T as RealField>::max_value().unwrap();
         let mut u = min_u;
-- 
2.43.0


From 0c6eb11813e620c97ca0250b4ab995ae856263d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 29/49] fix: chains are extended at both ends and keep
 consecutive parameters when inverted

---
 src/region/compound_curve.rs | 57 ++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 003e82b..268e9cd 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -40,11 +40,21 @@ where
         let mut curves = spans.clone();
         let mut connected = vec![curves.remove(0)];
         while !curves.is_empty() {
-            let current = connected.len() - 1;
-            let last = &connected[current];
-            let found = curves.iter().enumerate().find_map(|(i, c)| {
-                CurveDirection::new(last, c, epsilon).map(|direction| (i, direction))
-            });
+            // a closed piece or a single one can be extended at both of its ends,
+            // prefer the end of the chain to its start
+            let (first, last) = (&connected[0], &connected[connected.len() - 1]);
+            let single = connected.len() == 1;
+            let find = |piece: &NurbsCurve<T, D>, end: bool, start: bool| {
+                curves.iter().enumerate().find_map(|(i, c)| {
+                    CurveDirection::new(piece, c, epsilon)
+                        .filter(|direction| match direction {
+                            CurveDirection::Forward | CurveDirection::Facing => end,
+                            CurveDirection::Backward | CurveDirection::Opposite => start,
+                        })
+                        .map(|direction| (i, direction))
+                })
+            };
+            let found = find(last, true, single).or_else(|| find(first, single, true));
             match found {
                 Some((index, direction)) => {
                     let next = curves.remove(index);
@@ -53,17 +63,13 @@ where
                             connected.push(next);
                         }
                         CurveDirection::Backward => {
-                            connected.insert(current, next);
+                            connected.insert(0, next);
                         }
                         CurveDirection::Facing => {
                             connected.push(next.inverse());
                         }
                         CurveDirection::Opposite => {
-                            if current == 0 {
-                                connected.insert(current, next.inverse());
-                            } else {
-                                println!("Cannot handle opposite direction");
-                            }
+                            connected.insert(0, next.inverse());
                         }
                     }
                 }
@@ -76,14 +82,7 @@ where
 
         // Align knot vectors
         // The first knot vector starts at 0, the rest are aligned to the previous knot vector
-        let mut knot_offset = T::zero();
-        connected.iter_mut().for_each(|curve| {
-            let start = curve.knots().first();
-            curve.knots_mut().iter_mut().for_each(|v| {
-                *v = *v - start + knot_offset;
-            });
-            knot_offset = curve.knots().last();
-        });
+        align_knots(&mut connected, T::zero());
 
         Self { spans: connected }
     }
@@ -269,11 +268,31 @@ where
     DefaultAllocator: Allocator<D>,
 {
     fn invert(&mut self) {
+        let start = self.spans.first().map(|span| span.knots_domain().0);
         self.spans.iter_mut().for_each(|span| span.invert());
         self.spans.reverse();
+        if let Some(start) = start {
+            align_knots(&mut self.spans, start);
+        }
     }
 }
 
+/// Shift the knot vectors of the spans so that the domain of the first one begins at `start`
+/// and each of the others begins where the previous one ends
+fn align_knots<T: FloatingPoint, D: DimName>(spans: &mut [NurbsCurve<T, D>], start: T)
+where
+    DefaultAllocator: Allocator<D>,
+{
+    let mut knot_offset = start;
+    spans.iter_mut().for_each(|curve| {
+        let (start, _) = curve.knots_domain();
+        curve.knots_mut().iter_mut().for_each(|v| {
+            *v = *v - start + knot_offset;
+        });
+        knot_offset = curve.knots_domain().1;
+    });
+}
+
 #[cfg(feature = "serde")]
 impl<T, D: DimName> serde::Serialize for CompoundCurve<T, D>
 where
-- 
2.43.0


From 0b766fb75c37c34cb1d8d11db8b46abf0b46ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 30/49] fix: chains cut at a joint

---
 src/trim/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/trim/mod.rs b/src/trim/mod.rs
index 797b2d0..654e733 100644
--- a/src/trim/mod.rs
+++ b/src/trim/mod.rs
@@ -55,9 +55,9 @@ where
                 let (d0, d1) = curve.knots_domain();
 
                 // use epsilon to avoid to trim at the terminal (start / end) of the curve
-                let curve_domain = (d0 + eps)..=(d1 - eps);
+                let splits = |t: T| d0 < t && t < d1 && d0 + eps <= t && t <= d1 - eps;
 
-                match (curve_domain.contains(&min), curve_domain.contains(&max)) {
+                match (splits(min), splits(max)) {
                     (true, true) => {
                         if inside {
                             curve.try_trim_range((min, max))
@@ -90,7 +90,8 @@ where
                         )
                     }
                     (false, false) => {
-                        let contains = range.contains(&d0);
+                        // the range begins and ends outside of the curve or at its terminals
+                        let contains = range.contains(&((d0 + d1) / T::from_f64(2.).unwrap()));
                         match (inside, contains) {
                             (true, true) => Ok(vec![curve.clone()]),
                             (true, false) => Ok(vec![]),
-- 
2.43.0


From 403909cca25df40fb61f98b33f17d652bdbb35e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 31/49] fix: merge curve intersections only where both
 parameters are near, relative to the domains

---
 .../curve_curve/intersection_curve_curve.rs           | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index d40e762..6a0e6ba 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -170,7 +170,10 @@ where
         // println!("sorted: {:?}", sorted.iter().map(|it| it.a()).collect_vec());
 
         // group near parameter results & extract the closest one in each group
-        let parameter_minimum_distance = T::from_f64(1e-3).unwrap();
+        let parameter_ratio = T::from_f64(1e-3).unwrap();
+        let a_minimum_distance = self.knots_domain_interval() * parameter_ratio;
+        let b_minimum_distance = other.knots_domain_interval() * parameter_ratio;
+        let point_minimum_distance = options.minimum_distance * T::from_f64(10.).unwrap();
         let groups = sorted
             .into_iter()
             .map(|pt| vec![pt])
@@ -179,7 +182,11 @@ where
                 let y0 = &y[y.len() - 1];
                 let da = Float::abs(x0.a().1 - y0.a().1);
                 let db = Float::abs(x0.b().1 - y0.b().1);
-                if da < parameter_minimum_distance || db < parameter_minimum_distance {
+                let near_a = da < a_minimum_distance;
+                let near_b = db < b_minimum_distance;
+                // a point may have several parameters on one of the curves (at the seam of a closed curve)
+                let same_point = (&x0.a().0 - &y0.a().0).norm() < point_minimum_distance;
+                if (near_a && near_b) || ((near_a || near_b) && same_point) {
                     // merge near parameter results
                     let group = [x, y].concat();
                     Ok(group)
-- 
2.43.0


From 766a90cb029d0e00d829fdf1eaac6c7c3df341e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 32/49] fix: report intersections at the seam of a closed curve
 once

---
 .../curve_curve/intersection_curve_curve.rs   | 50 ++++++++++---------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index 6a0e6ba..94f951c 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -4,7 +4,7 @@ use argmin::core::{ArgminFloat, Executor, State};
 use itertools::Itertools;
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Matrix2, OPoint,
-    Vector2, U1,
+    OVector, Vector2, U1,
 };
 use num_traits::Float;
 
@@ -135,16 +135,13 @@ where
                 match res {
                     Ok(r) => {
                         // println!("{}", r.state().get_termination_status());
-                        r.state().get_best_param().and_then(|param| {
-                            if (a_domain.0..=a_domain.1).contains(&param[0])
-                                && (b_domain.0..=b_domain.1).contains(&param[1])
-                            {
-                                let p0 = self.point_at(param[0]);
-                                let p1 = other.point_at(param[1]);
-                                Some(CurveCurveIntersection::new((p0, param[0]), (p1, param[1])))
-                            } else {
-                                None
-                            }
+                        r.state().get_best_param().map(|param| {
+                            // a solution at the end of a domain may exceed it by the accuracy of the solver
+                            let ta = Float::max(a_domain.0, Float::min(a_domain.1, param[0]));
+                            let tb = Float::max(b_domain.0, Float::min(b_domain.1, param[1]));
+                            let p0 = self.point_at(ta);
+                            let p1 = other.point_at(tb);
+                            CurveCurveIntersection::new((p0, ta), (p1, tb))
                         })
                     }
                     Err(_e) => {
@@ -174,19 +171,18 @@ where
         let a_minimum_distance = self.knots_domain_interval() * parameter_ratio;
         let b_minimum_distance = other.knots_domain_interval() * parameter_ratio;
         let point_minimum_distance = options.minimum_distance * T::from_f64(10.).unwrap();
-        let groups = sorted
+        let is_same = |x: &CurveCurveIntersection<_, T>, y: &CurveCurveIntersection<_, T>| {
+            let near_a = Float::abs(x.a().1 - y.a().1) < a_minimum_distance;
+            let near_b = Float::abs(x.b().1 - y.b().1) < b_minimum_distance;
+            // a point may have several parameters on one of the curves (at the seam of a closed curve)
+            let delta: OVector<T, DimNameDiff<D, U1>> = &x.a().0 - &y.a().0;
+            (near_a && near_b) || ((near_a || near_b) && delta.norm() < point_minimum_distance)
+        };
+        let mut groups = sorted
             .into_iter()
             .map(|pt| vec![pt])
             .coalesce(|x, y| {
-                let x0 = &x[x.len() - 1];
-                let y0 = &y[y.len() - 1];
-                let da = Float::abs(x0.a().1 - y0.a().1);
-                let db = Float::abs(x0.b().1 - y0.b().1);
-                let near_a = da < a_minimum_distance;
-                let near_b = db < b_minimum_distance;
-                // a point may have several parameters on one of the curves (at the seam of a closed curve)
-                let same_point = (&x0.a().0 - &y0.a().0).norm() < point_minimum_distance;
-                if (near_a && near_b) || ((near_a || near_b) && same_point) {
+                if is_same(&x[x.len() - 1], &y[y.len() - 1]) {
                     // merge near parameter results
                     let group = [x, y].concat();
                     Ok(group)
@@ -194,9 +190,15 @@ where
                     Err((x, y))
                 }
             })
-            .collect::<Vec<Vec<CurveCurveIntersection<OPoint<T, DimNameDiff<D, U1>>, T>>>>()
-            .into_iter()
-            .collect_vec();
+            .collect::<Vec<Vec<CurveCurveIntersection<OPoint<T, DimNameDiff<D, U1>>, T>>>>();
+
+        // the first and the last group may be one at the seam of a closed curve
+        if let [first, .., last] = groups.as_slice() {
+            if is_same(&last[last.len() - 1], &first[0]) {
+                let last = groups.pop().unwrap_or_default();
+                groups[0].extend(last);
+            }
+        }
 
         /*
         println!("groups: {:?}", groups.len());
-- 
2.43.0


From f3dbf24ca93b3a1ef2a293bd16bf20db9ff6ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 33/49] fix: report intersections at the joints of both
 compound curves once, and only those

---
 .../intersection_compound_curve.rs            | 154 +++++++++++++-----
 1 file changed, 114 insertions(+), 40 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_compound_curve.rs b/src/intersects/curve_curve/intersection_compound_curve.rs
index 2a462b5..4352205 100644
--- a/src/intersects/curve_curve/intersection_compound_curve.rs
+++ b/src/intersects/curve_curve/intersection_compound_curve.rs
@@ -1,6 +1,10 @@
+use std::cmp::Ordering;
+
 use argmin::core::ArgminFloat;
 use itertools::Itertools;
-use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, U1};
+use nalgebra::{
+    allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, OVector, U1,
+};
 use num_traits::Float;
 
 use crate::{
@@ -29,43 +33,9 @@ where
         other: &'a NurbsCurve<T, D>,
         options: Self::Option,
     ) -> Self::Output {
-        let res: anyhow::Result<Vec<_>> = self
-            .spans()
-            .iter()
-            .map(|span| {
-                span.find_intersections(other, options.clone())
-                    .map(|intersections| {
-                        intersections
-                            .into_iter()
-                            .map(|it| CompoundCurveIntersection::new(span, other, it))
-                            .collect_vec()
-                    })
-            })
-            .collect();
-
-        let mut res = res?;
-        let eps = T::from_f64(1e-2).unwrap();
-
-        (0..res.len()).circular_tuple_windows().for_each(|(a, b)| {
-            if a != b {
-                let ia = res[a].last();
-                let ib = res[b].first();
-                let cull = match (ia, ib) {
-                    (Some(ia), Some(ib)) => {
-                        // cull the last point in res[a] if it is too close to the first point in res[b]
-                        let da = Float::abs(ia.a().0.knots_domain().1 - ia.a().2);
-                        let db = Float::abs(ib.a().0.knots_domain().0 - ib.a().2);
-                        da < eps && db < eps
-                    }
-                    _ => false,
-                };
-                if cull {
-                    res[a].pop();
-                }
-            }
-        });
-
-        Ok(res.into_iter().flatten().collect())
+        let tolerance = joint_tolerance(&options);
+        let intersections = find_span_intersections(self, other, &options)?;
+        Ok(cull_joint_duplicates(intersections, tolerance))
     }
 }
 
@@ -86,16 +56,120 @@ where
         other: &'a CompoundCurve<T, D>,
         options: Self::Option,
     ) -> Self::Output {
+        let tolerance = joint_tolerance(&options);
         let res: anyhow::Result<Vec<_>> = other
             .spans()
             .iter()
-            .map(|span| self.find_intersections(span, options.clone()))
+            .map(|span| find_span_intersections(self, span, &options))
             .collect();
 
-        Ok(res?.into_iter().flatten().collect())
+        Ok(cull_joint_duplicates(
+            res?.into_iter().flatten().collect(),
+            tolerance,
+        ))
     }
 }
 
+/// Find the intersections of each span of the compound curve with the other curve
+fn find_span_intersections<'a, T, D>(
+    compound: &'a CompoundCurve<T, D>,
+    other: &'a NurbsCurve<T, D>,
+    options: &Option<CurveIntersectionSolverOptions<T>>,
+) -> anyhow::Result<Vec<CompoundCurveIntersection<'a, T, D>>>
+where
+    T: FloatingPoint + ArgminFloat,
+    D: DimName + DimNameSub<U1>,
+    DefaultAllocator: Allocator<D>,
+    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+{
+    let res: anyhow::Result<Vec<_>> = compound
+        .spans()
+        .iter()
+        .map(|span| {
+            span.find_intersections(other, options.clone())
+                .map(|intersections| {
+                    intersections
+                        .into_iter()
+                        .map(|it| CompoundCurveIntersection::new(span, other, it))
+                        .collect_vec()
+                })
+        })
+        .collect();
+    Ok(res?.into_iter().flatten().collect())
+}
+
+/// Distance below which two intersections at a joint are regarded as the same one:
+/// curves that touch are within the minimum distance over a length of its square root
+fn joint_tolerance<T: FloatingPoint + ArgminFloat>(
+    options: &Option<CurveIntersectionSolverOptions<T>>,
+) -> T {
+    let minimum_distance = options
+        .as_ref()
+        .map(|options| options.minimum_distance)
+        .unwrap_or_else(|| CurveIntersectionSolverOptions::default().minimum_distance);
+    Float::sqrt(minimum_distance)
+}
+
+/// An intersection at a joint between two spans is found on both of them.
+/// Cull the one at the end of a span if there is the same one at the start of another span.
+fn cull_joint_duplicates<'a, T, D>(
+    intersections: Vec<CompoundCurveIntersection<'a, T, D>>,
+    tolerance: T,
+) -> Vec<CompoundCurveIntersection<'a, T, D>>
+where
+    T: FloatingPoint + ArgminFloat,
+    D: DimName + DimNameSub<U1>,
+    DefaultAllocator: Allocator<D>,
+    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+{
+    let eps = T::from_f64(1e-2).unwrap();
+
+    // order of two parameters: `Some(Less)` if the first one is at the end of its span and the second one is at the start of another span,
+    // `Some(Equal)` if both are on the same span, `None` if they are not adjacent.
+    let order = |c0: &NurbsCurve<T, D>, t0: T, c1: &NurbsCurve<T, D>, t1: T| {
+        if std::ptr::eq(c0, c1) {
+            return Some(Ordering::Equal);
+        }
+        let is_near = |c: &NurbsCurve<T, D>, t: T, end: T| {
+            Float::abs(t - end) <= c.knots_domain_interval() * eps
+        };
+        let is_start = |c: &NurbsCurve<T, D>, t: T| is_near(c, t, c.knots_domain().0);
+        let is_end = |c: &NurbsCurve<T, D>, t: T| is_near(c, t, c.knots_domain().1);
+        if is_end(c0, t0) && is_start(c1, t1) {
+            Some(Ordering::Less)
+        } else if is_start(c0, t0) && is_end(c1, t1) {
+            Some(Ordering::Greater)
+        } else {
+            None
+        }
+    };
+
+    let culled = intersections
+        .iter()
+        .map(|x| {
+            intersections.iter().any(|y| {
+                let delta: OVector<T, DimNameDiff<D, U1>> = &x.a().1 - &y.a().1;
+                if delta.norm() >= tolerance {
+                    return false;
+                }
+                let a = order(x.a_curve(), x.a().2, y.a_curve(), y.a().2);
+                let b = order(x.b_curve(), x.b().2, y.b_curve(), y.b().2);
+                match (a, b) {
+                    (Some(a), Some(b)) => a.then(b) == Ordering::Less,
+                    _ => false,
+                }
+            })
+        })
+        .collect_vec();
+
+    intersections
+        .into_iter()
+        .zip(culled)
+        .filter(|(_, culled)| !culled)
+        .map(|(it, _)| it)
+        .collect()
+}
+
 #[cfg(test)]
 mod tests {
     use crate::prelude::*;
-- 
2.43.0


From caad9aa804e04f8370fe699414537dd05efe94d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 34/49] fix: converge below the minimum distance before
 intersections are filtered by it

---
 src/intersects/curve_curve/intersection_curve_curve.rs    | 8 +++++++-
 .../surface_curve/intersection_surface_curve.rs           | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index 94f951c..f1695a0 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -78,6 +78,12 @@ where
     ) -> Self::Output {
         let options = option.unwrap_or_default();
 
+        // the cost is the squared distance: the solver has to go on until it is well below the minimum distance
+        let cost_tolerance = Float::min(
+            options.cost_tolerance,
+            options.minimum_distance * options.minimum_distance * T::from_f64(1e-2).unwrap(),
+        );
+
         let ta = CurveBoundingBoxTree::new(
             self,
             Some(
@@ -120,7 +126,7 @@ where
                 // Set up solver
                 let solver = CurveIntersectionBFGS::<T>::new()
                     .with_step_size_tolerance(options.step_size_tolerance)
-                    .with_cost_tolerance(options.cost_tolerance);
+                    .with_cost_tolerance(cost_tolerance);
 
                 // Run solver
                 let res = Executor::new(problem, solver)
diff --git a/src/intersects/surface_curve/intersection_surface_curve.rs b/src/intersects/surface_curve/intersection_surface_curve.rs
index 2db60c2..c74bc63 100644
--- a/src/intersects/surface_curve/intersection_surface_curve.rs
+++ b/src/intersects/surface_curve/intersection_surface_curve.rs
@@ -65,6 +65,12 @@ where
     ) -> Self::Output {
         let options = option.unwrap_or_default();
 
+        // the cost is the squared distance: the solver has to go on until it is well below the minimum distance
+        let cost_tolerance = Float::min(
+            options.cost_tolerance,
+            options.minimum_distance * options.minimum_distance * T::from_f64(1e-2).unwrap(),
+        );
+
         let div = T::one() / T::from_usize(options.knot_domain_division).unwrap();
         let interval = self.knots_domain_interval();
         let ta = SurfaceBoundingBoxTree::new(
@@ -101,7 +107,7 @@ where
                 // Set up solver
                 let solver = SurfaceCurveIntersectionBFGS::<T>::new()
                     .with_step_size_tolerance(options.step_size_tolerance)
-                    .with_cost_tolerance(options.cost_tolerance);
+                    .with_cost_tolerance(cost_tolerance);
 
                 // Run solver
                 let res = Executor::new(problem, solver)
-- 
2.43.0


From 51ff335918413297543a4395326c2c968250cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 35/49] fix: report intersections of a curve with a surface at
 its seam

---
 .../intersection_surface_curve.rs             | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/intersects/surface_curve/intersection_surface_curve.rs b/src/intersects/surface_curve/intersection_surface_curve.rs
index c74bc63..e1a7ae8 100644
--- a/src/intersects/surface_curve/intersection_surface_curve.rs
+++ b/src/intersects/surface_curve/intersection_surface_curve.rs
@@ -122,20 +122,15 @@ where
                 match res {
                     Ok(r) => {
                         // println!("{}", r.state().get_termination_status());
-                        r.state().get_best_param().and_then(|param| {
-                            if (surface_u_domain.0..=surface_u_domain.1).contains(&param.y)
-                                && (surface_v_domain.0..=surface_v_domain.1).contains(&param.z)
-                                && (curve_domain.0..=curve_domain.1).contains(&param.x)
-                            {
-                                let p0 = self.point_at(param.y, param.z);
-                                let p1 = other.point_at(param.x);
-                                Some(SurfaceCurveIntersection::new(
-                                    (p0, (param.y, param.z)),
-                                    (p1, param.x),
-                                ))
-                            } else {
-                                None
-                            }
+                        r.state().get_best_param().map(|param| {
+                            // a solution at the end of a domain (e.g. on the seam) may exceed it by the accuracy of the solver
+                            let clamp = |t: T, d: (T, T)| Float::max(d.0, Float::min(d.1, t));
+                            let u = clamp(param.y, surface_u_domain);
+                            let v = clamp(param.z, surface_v_domain);
+                            let t = clamp(param.x, curve_domain);
+                            let p0 = self.point_at(u, v);
+                            let p1 = other.point_at(t);
+                            SurfaceCurveIntersection::new((p0, (u, v)), (p1, t))
                         })
                     }
                     Err(_e) => {
-- 
2.43.0


From ff6862b217566f3f6f9abe881c48529fe69fe22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:10 +0000
Subject: [PATCH 36/49] fix: merge surface intersections relative to the domain
 of the curve

---
 src/intersects/surface_curve/intersection_surface_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intersects/surface_curve/intersection_surface_curve.rs b/src/intersects/surface_curve/intersection_surface_curve.rs
index e1a7ae8..1e08f1c 100644
--- a/src/intersects/surface_curve/intersection_surface_curve.rs
+++ b/src/intersects/surface_curve/intersection_surface_curve.rs
@@ -154,7 +154,7 @@ where
             .collect_vec();
 
         // group near parameter results & extract the closest one in each group
-        let parameter_minimum_distance = T::from_f64(1e-3).unwrap();
+        let parameter_minimum_distance = other.knots_domain_interval() * T::from_f64(1e-3).unwrap();
         let groups = sorted
             .into_iter()
             .map(|pt| vec![pt])
-- 
2.43.0


From c9905a05eade236352b4d7810541b4de6256d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 37/49] fix: return the holes of a union as interiors of its
 region

---
 src/boolean/clip.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/boolean/clip.rs b/src/boolean/clip.rs
index fb04904..6afd864 100644
--- a/src/boolean/clip.rs
+++ b/src/boolean/clip.rs
@@ -103,6 +103,7 @@ where
         + EndPoints<T, U2>
         + Into<CompoundCurve<T, U3>>
         + TrimRange<T, U3>,
+    CompoundCurve<T, U3>: Contains<T, U2, Option = O>,
 {
     let deg = intersections
         .into_iter()
@@ -395,5 +396,41 @@ where
         }
     }
 
+    if operation == BooleanOperation::Union {
+        regions = nest_holes(regions, option)?;
+    }
+
     Ok(Clip::new(regions, info))
 }
+
+/// The union of two crossing curves has a single outer boundary,
+/// the other traced boundaries enclose the holes of it.
+fn nest_holes<T: FloatingPoint, O: Clone>(
+    mut regions: Vec<Region<T>>,
+    option: O,
+) -> anyhow::Result<Vec<Region<T>>>
+where
+    CompoundCurve<T, U3>: Contains<T, U2, Option = O>,
+{
+    for outer in 0..regions.len() {
+        let mut encloses_others = true;
+        for (i, region) in regions.iter().enumerate() {
+            if i == outer {
+                continue;
+            }
+            let span = &region.exterior().spans()[0];
+            let (start, end) = span.knots_domain();
+            let point = span.point_at((start + end) * T::from_f64(0.5).unwrap());
+            if !regions[outer].exterior().contains(&point, option.clone())? {
+                encloses_others = false;
+                break;
+            }
+        }
+        if encloses_others {
+            let exterior = regions.remove(outer).into_exterior();
+            let interiors = regions.into_iter().map(|r| r.into_exterior()).collect();
+            return Ok(vec![Region::new(exterior, interiors)]);
+        }
+    }
+    Ok(regions)
+}
-- 
2.43.0


From 61a4e488e8ebcd73b9d682cc22ba5359671b4980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 38/49] fix: consider the pieces of a curve at the height of
 the point in its containment

---
 src/contains/contains_curve.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/contains/contains_curve.rs b/src/contains/contains_curve.rs
index dd1b7a5..dadde94 100644
--- a/src/contains/contains_curve.rs
+++ b/src/contains/contains_curve.rs
@@ -82,7 +82,13 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
     option: Option<CurveIntersectionSolverOptions<T>>,
 ) -> anyhow::Result<Vec<Point2<T>>> {
     let option = option.unwrap_or_default();
-    let ray = NurbsCurve::polyline(&[*point, point + Vector2::x() * ray_length], true);
+    // the ray is slanted a bit, so that its bounding box also covers the pieces of the curve
+    // that miss the ray only because of rounding
+    let margin = Vector2::y() * option.minimum_distance;
+    let ray = NurbsCurve::polyline(
+        &[point - margin, point + Vector2::x() * ray_length + margin],
+        true,
+    );
     let ta = CurveBoundingBoxTree::new(
         curve,
         Some(curve.knots_domain_interval() / T::from_usize(option.knot_domain_division).unwrap()),
-- 
2.43.0


From ddabe3f87a2c0920bb76b025c4a195258231685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 39/49] fix: try another initial parameter where the
 intersection solver does not reach the pair

---
 .../curve_curve/intersection_curve_curve.rs   | 99 +++++++++++--------
 1 file changed, 56 insertions(+), 43 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index f1695a0..bf42128 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -109,52 +109,65 @@ where
                 let ca = a.curve_owned();
                 let cb = b.curve_owned();
 
-                let problem = CurveIntersectionProblem::new(&ca, &cb);
-
-                // let inv = T::from_f64(0.5).unwrap();
-                // let d0 = ca.knots_domain();
-                // let d1 = cb.knots_domain();
-
-                // Define initial parameter vector
-                let init_param = Vector2::<T>::new(
-                    ca.knots_domain().0,
-                    cb.knots_domain().0,
-                    // (d0.0 + d0.1) * inv,
-                    // (d1.0 + d1.1) * inv,
-                );
-
-                // Set up solver
-                let solver = CurveIntersectionBFGS::<T>::new()
-                    .with_step_size_tolerance(options.step_size_tolerance)
-                    .with_cost_tolerance(cost_tolerance);
-
-                // Run solver
-                let res = Executor::new(problem, solver)
-                    .configure(|state| {
-                        state
-                            .param(init_param)
-                            .inv_hessian(Matrix2::identity())
-                            .max_iters(options.max_iters)
-                    })
-                    .run();
-
-                match res {
-                    Ok(r) => {
-                        // println!("{}", r.state().get_termination_status());
-                        r.state().get_best_param().map(|param| {
-                            // a solution at the end of a domain may exceed it by the accuracy of the solver
-                            let ta = Float::max(a_domain.0, Float::min(a_domain.1, param[0]));
-                            let tb = Float::max(b_domain.0, Float::min(b_domain.1, param[1]));
-                            let p0 = self.point_at(ta);
-                            let p1 = other.point_at(tb);
-                            CurveCurveIntersection::new((p0, ta), (p1, tb))
+                let (a0, a1) = ca.knots_domain();
+                let (b0, b1) = cb.knots_domain();
+                let half = T::from_f64(0.5).unwrap();
+
+                // Define initial parameter vectors
+                let init_params = [
+                    Vector2::<T>::new(a0, b0),
+                    Vector2::<T>::new((a0 + a1) * half, (b0 + b1) * half),
+                ];
+
+                let solve = |init_param: Vector2<T>| {
+                    let problem = CurveIntersectionProblem::new(&ca, &cb);
+
+                    // Set up solver
+                    let solver = CurveIntersectionBFGS::<T>::new()
+                        .with_step_size_tolerance(options.step_size_tolerance)
+                        .with_cost_tolerance(cost_tolerance);
+
+                    // Run solver
+                    Executor::new(problem, solver)
+                        .configure(|state| {
+                            state
+                                .param(init_param)
+                                .inv_hessian(Matrix2::identity())
+                                .max_iters(options.max_iters)
                         })
-                    }
-                    Err(_e) => {
-                        // println!("{}", e);
-                        None
+                        .run()
+                        .ok()
+                        .and_then(|r| r.state().get_best_param().cloned())
+                };
+
+                // the solver may get stuck or leave the pair for another solution,
+                // in which case the next initial parameter is tried
+                let is_solution = |param: &Vector2<T>| {
+                    let (da, db) = (a1 - a0, b1 - b0);
+                    let delta = ca.point_at(param[0]) - cb.point_at(param[1]);
+                    (a0 - da..=a1 + da).contains(&param[0])
+                        && (b0 - db..=b1 + db).contains(&param[1])
+                        && delta.norm() < options.minimum_distance
+                };
+                let mut solution = None;
+                for init_param in init_params {
+                    match solve(init_param) {
+                        Some(param) if is_solution(&param) => {
+                            solution = Some(param);
+                            break;
+                        }
+                        other => solution = solution.or(other),
                     }
                 }
+
+                solution.map(|param| {
+                    // a solution at the end of a domain may exceed it by the accuracy of the solver
+                    let ta = Float::max(a_domain.0, Float::min(a_domain.1, param[0]));
+                    let tb = Float::max(b_domain.0, Float::min(b_domain.1, param[1]));
+                    let p0 = self.point_at(ta);
+                    let p1 = other.point_at(tb);
+                    CurveCurveIntersection::new((p0, ta), (p1, tb))
+                })
             })
             .filter(|it| {
                 // filter out intersections that are too close
-- 
2.43.0


From 8cdca3de07cb36010c12e8fa77e2973c2abceef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 40/49] fix: respect the holes of both regions in boolean
 operations

---
 src/boolean/boolean_region.rs | 162 +++++++++++++++++++++-------------
 1 file changed, 99 insertions(+), 63 deletions(-)

diff --git a/src/boolean/boolean_region.rs b/src/boolean/boolean_region.rs
index 89b24cb..3d58b51 100644
--- a/src/boolean/boolean_region.rs
+++ b/src/boolean/boolean_region.rs
@@ -1,5 +1,4 @@
 use argmin::core::ArgminFloat;
-use itertools::Itertools;
 use nalgebra::Const;
 use nalgebra::U3;
 
@@ -42,38 +41,27 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
     ) -> Self::Output {
         match operation {
             BooleanOperation::Union => {
-                let exterior =
-                    self.exterior()
-                        .boolean(BooleanOperation::Union, other, option.clone())?;
-
-                let exterior = exterior
-                    .into_regions()
-                    .into_iter()
-                    .next()
-                    .map(|region| region.into_exterior())
-                    .ok_or(anyhow::anyhow!("No exterior region found"))?;
-
-                let interior_differences = self
-                    .interiors()
-                    .iter()
-                    .map(|interior| {
-                        interior.boolean(BooleanOperation::Difference, other, option.clone())
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?;
+                let mut regions = self
+                    .exterior()
+                    .boolean(BooleanOperation::Union, other, option.clone())?
+                    .into_regions();
+                if regions.len() != 1 {
+                    // the regions are apart
+                    let regions = vec![self.clone(), other.clone().into()];
+                    return Ok(Clip::new(regions, Default::default()));
+                }
 
-                let interiors = interior_differences
-                    .into_iter()
-                    .flat_map(|c| {
-                        c.into_regions()
-                            .into_iter()
-                            .map(|region| region.into_exterior())
-                    })
-                    .collect();
+                for interior in self.interiors().iter() {
+                    let difference =
+                        interior.boolean(BooleanOperation::Difference, other, option.clone())?;
+                    for region in difference.into_regions() {
+                        let (exterior, islands) = region.into_tuple();
+                        regions[0].interiors_mut().push(exterior);
+                        regions.extend(islands.into_iter().map(|it| it.into()));
+                    }
+                }
 
-                Ok(Clip::new(
-                    vec![Region::new(exterior, interiors)],
-                    Default::default(),
-                ))
+                Ok(Clip::new(regions, Default::default()))
             }
             BooleanOperation::Intersection => {
                 // difference other and interiors
@@ -82,14 +70,7 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
                     let mut next_clips = vec![];
                     for clip in clip_regions.iter() {
                         let c = clip.boolean(BooleanOperation::Difference, it, option.clone())?;
-                        let mut regions = c.into_regions();
-                        let mut interiors = clip.interiors().iter().cloned().collect_vec();
-                        distribute_interiors_to_regions(
-                            &mut regions,
-                            &mut interiors,
-                            option.clone(),
-                        )?;
-                        next_clips.extend(regions);
+                        next_clips.extend(c.into_regions());
                     }
                     clip_regions = next_clips;
                 }
@@ -118,27 +99,47 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
                 Ok(Clip::new(regions, Default::default()))
             }
             BooleanOperation::Difference => {
-                // union other and interiors
-                let mut current_clip: CompoundCurve<T, U3> = other.clone();
-                let mut interiors = vec![];
+                let mut regions = self
+                    .exterior()
+                    .boolean(BooleanOperation::Difference, other, option.clone())?
+                    .into_regions();
+
+                let is_nested = regions.iter().any(|r| !r.interiors().is_empty());
+                if !is_nested {
+                    for interior in self.interiors() {
+                        regions = regions
+                            .iter()
+                            .map(|r| {
+                                r.boolean(BooleanOperation::Difference, interior, option.clone())
+                            })
+                            .collect::<anyhow::Result<Vec<_>>>()?
+                            .into_iter()
+                            .flat_map(|c| c.into_regions())
+                            .collect();
+                    }
+                    return Ok(Clip::new(regions, Default::default()));
+                }
 
+                // union other and interiors
+                let mut clip_regions: Vec<Region<T>> = vec![other.clone().into()];
                 for interior in self.interiors() {
-                    let union =
-                        current_clip.boolean(BooleanOperation::Union, interior, option.clone())?;
-                    let mut regions_iter = union.into_regions().into_iter();
-                    let head = regions_iter.next();
-                    if let Some(head) = head {
-                        current_clip = head.into_exterior();
-                    }
-                    regions_iter.for_each(|region| interiors.push(region.into_exterior()));
+                    let union = clip_regions[0].boolean(
+                        BooleanOperation::Union,
+                        interior,
+                        option.clone(),
+                    )?;
+                    clip_regions.splice(0..1, union.into_regions());
                 }
 
-                let clip = self.exterior().boolean(
-                    BooleanOperation::Difference,
-                    &current_clip,
-                    option.clone(),
-                )?;
-                let mut regions = clip.into_regions();
+                // islands are left in the interiors of the union
+                let mut regions: Vec<Region<T>> = vec![];
+                let mut interiors = vec![];
+                for region in clip_regions {
+                    let (exterior, islands) = region.into_tuple();
+                    interiors.push(exterior);
+                    regions.extend(islands.into_iter().map(|it| it.into()));
+                }
+                regions.push(self.exterior().clone().into());
                 distribute_interiors_to_regions(&mut regions, &mut interiors, option.clone())?;
                 Ok(Clip::new(regions, Default::default()))
             }
@@ -159,19 +160,54 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a Region<T>> for Region<T> {
     ) -> Self::Output {
         let clip = self.boolean(operation, other.exterior(), option.clone())?;
         let mut regions = clip.into_regions();
+        let mut islands = vec![];
+
+        let difference = |regions: Vec<Region<T>>, curve: &CompoundCurve<T, U3>| {
+            let clips = regions
+                .iter()
+                .map(|r| r.boolean(BooleanOperation::Difference, curve, option.clone()))
+                .collect::<anyhow::Result<Vec<_>>>()?;
+            anyhow::Ok(clips.into_iter().flat_map(|c| c.into_regions()).collect())
+        };
 
         for interior in other.interiors().iter() {
             match operation {
-                BooleanOperation::Union | BooleanOperation::Intersection => {
-                    let clips = regions
-                        .iter()
-                        .map(|r| r.boolean(BooleanOperation::Difference, interior, option.clone()))
-                        .collect::<anyhow::Result<Vec<_>>>()?;
-                    regions = clips.into_iter().flat_map(|c| c.into_regions()).collect();
+                BooleanOperation::Union => {
+                    // only the parts of the interior which are not covered by self remain open
+                    let mut open = interior
+                        .boolean(
+                            BooleanOperation::Difference,
+                            self.exterior(),
+                            option.clone(),
+                        )?
+                        .into_regions();
+                    for it in self.interiors() {
+                        open.extend(
+                            interior
+                                .boolean(BooleanOperation::Intersection, it, option.clone())?
+                                .into_regions(),
+                        );
+                    }
+                    for region in open.iter() {
+                        regions = difference(regions, region.exterior())?;
+                    }
+                    if open.iter().any(|r| !r.interiors().is_empty()) {
+                        // self is inside of the interior
+                        islands.push(self.clone());
+                    }
+                }
+                BooleanOperation::Intersection => {
+                    regions = difference(regions, interior)?;
+                }
+                BooleanOperation::Difference => {
+                    islands.extend(
+                        self.boolean(BooleanOperation::Intersection, interior, option.clone())?
+                            .into_regions(),
+                    );
                 }
-                BooleanOperation::Difference => {}
             };
         }
+        regions.extend(islands);
 
         Ok(Clip::new(regions, Default::default()))
     }
-- 
2.43.0


From bd46e42431802cf795ea48b31989a6e2266f3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:40 +0000
Subject: [PATCH 41/49] fix: refuse a malformed or repeated exterior of a
 serialized trimmed surface

---
 src/surface/trimmed_surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index c5977e4..f1cd703 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -311,7 +311,7 @@ where
                             if exterior.is_some() {
                                 return Err(de::Error::duplicate_field("exterior"));
                             }
-                            exterior = map.next_value().ok();
+                            exterior = Some(map.next_value::<Option<_>>()?);
                         }
                         Field::Interiors => {
                             if interiors.is_some() {
@@ -324,7 +324,7 @@ where
 
                 Ok(Self::Value {
                     surface: surface.ok_or_else(|| de::Error::missing_field("surface"))?,
-                    exterior,
+                    exterior: exterior.flatten(),
                     interiors: interiors.ok_or_else(|| de::Error::missing_field("interiors"))?,
                 })
             }
-- 
2.43.0


From d27a9f9ac77866026f7c839af6b18f84d9a7c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 42/49] fix: refuse serialized curves and surfaces whose knots
 do not fit their control points

---
 src/curve/nurbs_curve.rs     |  8 ++++++--
 src/knot/knot_vector.rs      | 20 ++++++++++++++++++++
 src/surface/nurbs_surface.rs | 16 +++++++++++++---
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0b97de4..f999bd4 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2343,10 +2343,14 @@ where
                         }
                     }
                 }
-                let control_points =
+                let control_points: Vec<OPoint<T, D>> =
                     control_points.ok_or_else(|| de::Error::missing_field("control_points"))?;
                 let degree = degree.ok_or_else(|| de::Error::missing_field("degree"))?;
-                let knots = knots.ok_or_else(|| de::Error::missing_field("knots"))?;
+                let knots: KnotVector<T> =
+                    knots.ok_or_else(|| de::Error::missing_field("knots"))?;
+                knots
+                    .ensure_valid(degree, control_points.len())
+                    .map_err(de::Error::custom)?;
 
                 Ok(Self::Value {
                     control_points,
diff --git a/src/knot/knot_vector.rs b/src/knot/knot_vector.rs
index 3caaf51..3a81942 100644
--- a/src/knot/knot_vector.rs
+++ b/src/knot/knot_vector.rs
@@ -38,6 +38,26 @@ impl<T: RealField + Copy> KnotVector<T> {
         self.0.len()
     }
 
+    /// Ensure that the knots are those of a curve of the degree with the number of control points.
+    #[cfg(feature = "serde")]
+    pub(crate) fn ensure_valid(&self, degree: usize, control_points: usize) -> anyhow::Result<()> {
+        anyhow::ensure!(
+            control_points > degree,
+            "Too few control points, got {control_points} for degree {degree}"
+        );
+        anyhow::ensure!(
+            self.0.len() == control_points + degree + 1,
+            "Invalid number of knots, got {}, expected {}",
+            self.0.len(),
+            control_points + degree + 1
+        );
+        anyhow::ensure!(
+            self.0.windows(2).all(|w| w[0] <= w[1]),
+            "The knots must be in ascending order"
+        );
+        Ok(())
+    }
+
     pub fn is_empty(&self) -> bool {
         self.0.is_empty()
     }
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 1a9c7ba..f078279 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1669,12 +1669,22 @@ where
                         }
                     }
                 }
-                let control_points =
+                let control_points: Vec<Vec<OPoint<T, D>>> =
                     control_points.ok_or_else(|| de::Error::missing_field("control_points"))?;
                 let u_degree = u_degree.ok_or_else(|| de::Error::missing_field("u_degree"))?;
                 let v_degree = v_degree.ok_or_else(|| de::Error::missing_field("v_degree"))?;
-                let u_knots = u_knots.ok_or_else(|| de::Error::missing_field("u_knots"))?;
-                let v_knots = v_knots.ok_or_else(|| de::Error::missing_field("v_knots"))?;
+                let u_knots: KnotVector<T> =
+                    u_knots.ok_or_else(|| de::Error::missing_field("u_knots"))?;
+                let v_knots: KnotVector<T> =
+                    v_knots.ok_or_else(|| de::Error::missing_field("v_knots"))?;
+                u_knots
+                    .ensure_valid(u_degree, control_points.len())
+                    .map_err(de::Error::custom)?;
+                for row in control_points.iter() {
+                    v_knots
+                        .ensure_valid(v_degree, row.len())
+                        .map_err(de::Error::custom)?;
+                }
 
                 Ok(Self::Value {
                     control_points,
-- 
2.43.0


From 393515347b6f007ca840d02fadb65f791dd1c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 43/49] fix: elevate curves with superfluous copies of their
 end knots

---
 src/curve/nurbs_curve.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index f999bd4..580715e 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1088,6 +1088,24 @@ where
             return clamped.try_elevate_degree(target_degree);
         }
 
+        // superfluous copies of the end knots belong to control points without any effect
+        let (d, m) = (self.degree, self.knots.len() - 1);
+        let at_start = (0..m - d)
+            .take_while(|i| self.knots[*i] == self.knots[i + d + 1])
+            .count();
+        let at_end = (0..m - d)
+            .take_while(|i| self.knots[m - i] == self.knots[m - i - d - 1])
+            .count();
+        if at_start + at_end > 0 && at_start + at_end < self.control_points.len() - d {
+            let mut knots = self.knots.to_vec();
+            let mut control_points = self.control_points.clone();
+            knots.drain(..at_start);
+            knots.truncate(knots.len() - at_end);
+            control_points.drain(..at_start);
+            control_points.truncate(control_points.len() - at_end);
+            return Self::try_new(d, control_points, knots)?.try_elevate_degree(target_degree);
+        }
+
         let n = self.knots.len() - self.degree - 2;
         let new_degree = self.degree;
         let knots = &self.knots;
-- 
2.43.0


From f897d84a3c057d4c1f4ae5abc6468bea6267301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 44/49] fix: refuse to remove knots down to the start of the
 domain

---
 src/curve/nurbs_curve.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 580715e..8682a59 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1383,7 +1383,8 @@ where
         let p = self.degree();
         let ord = p + 1;
 
-        if r <= p {
+        // the copies at the start of the domain have to remain
+        if r < p + s {
             return Err(anyhow::anyhow!(
                 "Knot is too close to the start of the curve"
             ));
-- 
2.43.0


From 489bf791d8f04f63012b2c087668e55a62481206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:05 +0000
Subject: [PATCH 45/49] fix: report curves that touch once, however their
 pieces are cut

---
 .../curve_curve/intersection_curve_curve.rs    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index bf42128..b46f818 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -190,12 +190,28 @@ where
         let a_minimum_distance = self.knots_domain_interval() * parameter_ratio;
         let b_minimum_distance = other.knots_domain_interval() * parameter_ratio;
         let point_minimum_distance = options.minimum_distance * T::from_f64(10.).unwrap();
+        // curves that touch are within the minimum distance all the way between two solutions
+        let is_touching = |x: &CurveCurveIntersection<_, T>, y: &CurveCurveIntersection<_, T>| {
+            let range = T::from_f64(50.).unwrap();
+            let da = y.a().1 - x.a().1;
+            let db = y.b().1 - x.b().1;
+            Float::abs(da) < a_minimum_distance * range
+                && Float::abs(db) < b_minimum_distance * range
+                && [0.25, 0.5, 0.75].into_iter().all(|ratio| {
+                    let ratio = T::from_f64(ratio).unwrap();
+                    let delta =
+                        self.point_at(x.a().1 + da * ratio) - other.point_at(x.b().1 + db * ratio);
+                    delta.norm() < options.minimum_distance
+                })
+        };
         let is_same = |x: &CurveCurveIntersection<_, T>, y: &CurveCurveIntersection<_, T>| {
             let near_a = Float::abs(x.a().1 - y.a().1) < a_minimum_distance;
             let near_b = Float::abs(x.b().1 - y.b().1) < b_minimum_distance;
             // a point may have several parameters on one of the curves (at the seam of a closed curve)
             let delta: OVector<T, DimNameDiff<D, U1>> = &x.a().0 - &y.a().0;
-            (near_a && near_b) || ((near_a || near_b) && delta.norm() < point_minimum_distance)
+            (near_a && near_b)
+                || ((near_a || near_b) && delta.norm() < point_minimum_distance)
+                || is_touching(x, y)
         };
         let mut groups = sorted
             .into_iter()
-- 
2.43.0


From 214a02e674ac7a24702585e9198b0afe3c3f8a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:54 +0000
Subject: [PATCH 46/49] fix: find intersections of fast curves, whose steps
 have to be smaller

---
 .../curve_curve/intersection_curve_curve.rs      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index b46f818..aafa492 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -122,9 +122,23 @@ where
                 let solve = |init_param: Vector2<T>| {
                     let problem = CurveIntersectionProblem::new(&ca, &cb);
 
+                    // the steps have to be well below the minimum distance, however fast the curves are
+                    let speed = Float::max(
+                        ca.tangent_at(init_param[0]).norm(),
+                        cb.tangent_at(init_param[1]).norm(),
+                    );
+                    let step_size_tolerance = if speed > T::zero() {
+                        Float::min(
+                            options.step_size_tolerance,
+                            options.minimum_distance * T::from_f64(1e-2).unwrap() / speed,
+                        )
+                    } else {
+                        options.step_size_tolerance
+                    };
+
                     // Set up solver
                     let solver = CurveIntersectionBFGS::<T>::new()
-                        .with_step_size_tolerance(options.step_size_tolerance)
+                        .with_step_size_tolerance(step_size_tolerance)
                         .with_cost_tolerance(cost_tolerance);
 
                     // Run solver
-- 
2.43.0


From 039ab425dffe47f27fe5f33f2a5e2a2d972e29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:54 +0000
Subject: [PATCH 47/49] fix: find intersections of fast surfaces and curves,
 whose steps have to be smaller

---
 .../surface_curve/intersection_surface_curve.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/intersects/surface_curve/intersection_surface_curve.rs b/src/intersects/surface_curve/intersection_surface_curve.rs
index 1e08f1c..f229e5d 100644
--- a/src/intersects/surface_curve/intersection_surface_curve.rs
+++ b/src/intersects/surface_curve/intersection_surface_curve.rs
@@ -104,9 +104,24 @@ where
                 let init_param =
                     Vector3::new(curve_parameter, surface_parameter.0, surface_parameter.1);
 
+                // the steps have to be well below the minimum distance, however fast the surface and the curve are
+                let derivatives = surface.rational_derivatives(init_param.y, init_param.z, 1);
+                let speed = Float::max(
+                    curve.tangent_at(init_param.x).norm(),
+                    Float::max(derivatives[1][0].norm(), derivatives[0][1].norm()),
+                );
+                let step_size_tolerance = if speed > T::zero() {
+                    Float::min(
+                        options.step_size_tolerance,
+                        options.minimum_distance * T::from_f64(1e-2).unwrap() / speed,
+                    )
+                } else {
+                    options.step_size_tolerance
+                };
+
                 // Set up solver
                 let solver = SurfaceCurveIntersectionBFGS::<T>::new()
-                    .with_step_size_tolerance(options.step_size_tolerance)
+                    .with_step_size_tolerance(step_size_tolerance)
                     .with_cost_tolerance(cost_tolerance);
 
                 // Run solver
-- 
2.43.0


From d1119805c12076b7339d3693cb88e97ebb34de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:29 +0000
Subject: [PATCH 48/49] fix: find large curves closed, up to the rounding of
 their coordinates

---
 src/curve/nurbs_curve.rs     | 14 +++++++++++++-
 src/region/compound_curve.rs |  9 +++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 8682a59..d984a84 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1567,7 +1567,7 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let eps = T::default_epsilon() * T::from_usize(10).unwrap();
+        let eps = T::default_epsilon() * T::from_usize(10).unwrap() * self.coordinate_scale();
         match self.knots.is_clamped(self.degree) {
             true => {
                 let pts = self.dehomogenized_control_points();
@@ -1584,6 +1584,18 @@ where
         }
     }
 
+    /// The largest coordinate of the control points (at least one), which rounding errors are relative to
+    pub(crate) fn coordinate_scale(&self) -> T
+    where
+        D: DimNameSub<U1>,
+        DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+    {
+        self.dehomogenized_control_points()
+            .iter()
+            .flat_map(|p| p.coords.iter())
+            .fold(T::one(), |scale, v| RealField::max(scale, v.abs()))
+    }
+
     /// Try to refine the curve by inserting knots
     pub fn try_refine_knot(&mut self, knots_to_insert: Vec<T>) -> anyhow::Result<()> {
         if knots_to_insert.is_empty() {
diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 268e9cd..1371f40 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -3,7 +3,7 @@ use std::cmp::Ordering;
 use argmin::core::ArgminFloat;
 use nalgebra::{
     allocator::Allocator, Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, OMatrix,
-    OPoint, U1,
+    OPoint, RealField, U1,
 };
 
 use crate::{
@@ -148,7 +148,12 @@ where
     {
         let start = self.spans.first().map(|s| s.point_at(s.knots_domain().0));
         let end = self.spans.last().map(|s| s.point_at(s.knots_domain().1));
-        let eps = T::default_epsilon() * T::from_usize(10).unwrap();
+        let scale = self
+            .spans
+            .iter()
+            .map(|s| s.coordinate_scale())
+            .fold(T::one(), RealField::max);
+        let eps = T::default_epsilon() * T::from_usize(10).unwrap() * scale;
         match (start, end) {
             (Some(start), Some(end)) => {
                 let delta = start - end;
-- 
2.43.0


From 79167544f86448b0b6243ee532efb181a8fbbd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:40 +0000
Subject: [PATCH 49/49] fix: keep small triangles of trimmed regions

---
 src/tessellation/tessellation_region.rs | 3 ++-
 src/tessellation/trimmed_surface.rs     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tessellation/tessellation_region.rs b/src/tessellation/tessellation_region.rs
index 5effa27..8fe681f 100644
--- a/src/tessellation/tessellation_region.rs
+++ b/src/tessellation/tessellation_region.rs
@@ -94,7 +94,8 @@ impl<T: FloatingPoint + SpadeNum> Tessellation for Region<T> {
 
                 let (a, b) = (tri[1] - tri[0], tri[2] - tri[1]);
                 let area = a.x * b.y - a.y * b.x;
-                if ComplexField::abs(area) < T::default_epsilon() {
+                let size = a.norm_squared() + b.norm_squared();
+                if ComplexField::abs(area) <= size * T::default_epsilon() {
                     return None;
                 }
 
diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 6ba5ed5..b7e8c0a 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -221,7 +221,8 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
 
             let (a, b) = (tri[1] - tri[0], tri[2] - tri[1]);
             let area = a.x * b.y - a.y * b.x;
-            if ComplexField::abs(area) < T::default_epsilon() {
+            let size = a.norm_squared() + b.norm_squared();
+            if ComplexField::abs(area) <= size * T::default_epsilon() {
                 return None;
             }
 
-- 
2.43.0

