From 9c2fd79297ca92be86edda062dfc54c19e7aead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 01/15] fix: Matrix33::inverse takes the affine shortcut only
 for affine matrices

The test lacked the absolute value, so a matrix with a negative entry in the
last column was inverted as if that column were (0, 0, 1).
---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 5e45db9..92e0de2 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -267,7 +267,7 @@ where
 
     /// Matrix inverse
     pub fn inverse(self) -> Option<Matrix33<T>> {
-        if self[0][2] > T::epsilon() || self[1][2] > T::epsilon() || (self[2][2] - T::one()).abs() > T::epsilon() {
+        if self[0][2] != T::zero() || self[1][2] != T::zero() || self[2][2] != T::one() {
             let mut mtx_s = Matrix33::new([
                 self[1][1] * self[2][2] - self[2][1] * self[1][2],
                 self[2][1] * self[0][2] - self[0][1] * self[2][2],
-- 
2.43.0


From 3214a5f87370de9b147d5e98ef44d57656103a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 02/15] fix: Matrix33::inverse keeps the last entry of an
 affine inverse at one

The loop divides all nine entries by the determinant of the upper 2x2 block,
including the constant one in the corner.
---
 src/math.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math.rs b/src/math.rs
index 92e0de2..30217cb 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -328,6 +328,7 @@ where
                 }
             }
 
+            mtx_s[2][2] = T::one();
             mtx_s[2][0] = -self[2][0] * mtx_s[0][0] - self[2][1] * mtx_s[1][0];
             mtx_s[2][1] = -self[2][0] * mtx_s[0][1] - self[2][1] * mtx_s[1][1];
 
-- 
2.43.0


From 311f2e9e0d10e2c7185a83a9c4096c4a3159b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 03/15] fix: Matrix33::gj_inverse chooses pivots in the
 eliminated matrix

Pivots were looked up in the original matrix, so a zero pivot appearing during
elimination was missed and invertible matrices gave NaN or no result.
---
 src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 30217cb..be6e111 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -199,10 +199,10 @@ where
         // Forward elimination
         for i in 0..2 {
             let mut pivot = i;
-            let mut pivot_size: T = self[i][i].abs();
+            let mut pivot_size: T = mtx_t[i][i].abs();
 
             for j in (i + 1)..3 {
-                let tmp = self[j][i].abs();
+                let tmp = mtx_t[j][i].abs();
                 if tmp > pivot_size {
                     pivot = j;
                     pivot_size = tmp;
-- 
2.43.0


From e182b25723cfe277e7d634064b30b944cd4f4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 04/15] fix: calculate_interval also checks the last interval
 of a VSPD

---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 6c82bfa..62218e4 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -439,7 +439,7 @@ fn calculate_interval(samples: &[Sample]) -> Interval<f64> {
         panic!("Must have at least 2 samples");
     }
     let assumed_interval = samples[1].nm - samples[0].nm;
-    for i in 1..samples.len() - 1 {
+    for i in 1..samples.len() {
         // This is safe because we guarantee we're in bounds in the for loop
         let interval = unsafe { samples.get_unchecked(i).nm - samples.get_unchecked(i - 1).nm };
         if !interval.approx_eq(assumed_interval, F64Margin { ulps: 2, epsilon: 1.0e-11 }) {
-- 
2.43.0


From 50e0087f977cfd3de5a9459701b016b6a1b8cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 05/15] fix: xyz_slice_to_rgb_avx_planes handles the tail and
 short input planes

The scalar tail started at the wrong element, leaving zeros for some lengths,
and planes shorter than the first were read out of bounds.
---
 src/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 9c42ab8..7e1d9b1 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -94,11 +94,12 @@ where
 
 #[cfg(all(target_arch = "x86_64", target_feature = "avx"))]
 pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys: &[f32], zs: &[f32]) -> (Vec<f32>, Vec<f32>, Vec<f32>) {
+    assert!(ys.len() >= xs.len() && zs.len() >= xs.len());
     let mut result_r = vec![0.0f32; xs.len()];
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
     let num_iters = xs.len() / S::VF32_WIDTH;
-    let start_remaining = xs.len() - num_iters;
+    let start_remaining = num_iters * S::VF32_WIDTH;
 
     let m0 = unsafe { S::set1_ps(mtx.x[0]) };
     let m1 = unsafe { S::set1_ps(mtx.x[1]) };
-- 
2.43.0


From c00a3410cb6bf5518e36f168eb015a4feaec7be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 06/15] fix: cct rejects NaN temperatures

---
 src/illuminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/illuminant.rs b/src/illuminant.rs
index ae3b692..eb6f37d 100644
--- a/src/illuminant.rs
+++ b/src/illuminant.rs
@@ -47,7 +47,7 @@ pub mod xy {
     {
         let t2 = t * t;
         let t3 = t2 * t;
-        if t < 4000.0 || t > 25000.0 {
+        if !(t >= 4000.0 && t <= 25000.0) {
             Err(TemperatureOutOfBound)
         } else if t <= 7000.0 {
             let xd = -4.607e9 / t3 + 2.9678e6 / t2 + 0.09911e3 / t + 0.244063;
-- 
2.43.0


From e656fa987b5c059bbeb57e70555f580d41b4d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 07/15] fix: SpdShape iteration does not lose the end
 wavelength to rounding

(380.7 - 380.0) / 0.1 is just below 7 in floating point, so truncating it
dropped the last wavelength of the shape.
---
 src/vspd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 62218e4..5aa1f20 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -77,7 +77,7 @@ where
         };
         SpdShapeIterator::<T> {
             current: 0,
-            end: ((self.end - self.start) / interval).to_usize().unwrap() + 1,
+            end: ((self.end - self.start) / interval + T::from(1.0e-6).unwrap()).to_usize().unwrap() + 1,
             start: self.start,
             interval,
         }
@@ -224,7 +224,7 @@ impl VSPD {
                 panic!("Cannot create a VSPD with varying interval");
             }
         };
-        let num_samples_from_shape = ((shape.end - shape.start) / interval) as usize + 1;
+        let num_samples_from_shape = ((shape.end - shape.start) / interval + 1.0e-6) as usize + 1;
         if num_samples_from_shape != values.len() {
             panic!(
                 "Length of values slice did not match requested shape. SpdShape has {} samples, but values slice had {} values.",
-- 
2.43.0


From 7c9c0be6643b4a52e75325d2e055ac91668c5c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 08/15] fix: VSPD reports its last sample as the end of its
 shape

When the requested end was not on the sampling grid the shape claimed a range
the samples did not cover.
---
 src/vspd.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 5aa1f20..d71b192 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -206,8 +206,12 @@ impl VSPD {
         if samples.len() < 2 {
             panic!("VSPD must have at least 2 samples. SpdShape given was: {}", shape);
         }
+        let end = samples[samples.len() - 1].nm;
 
-        VSPD { samples, shape }
+        VSPD {
+            samples,
+            shape: SpdShape { end, ..shape },
+        }
     }
 
     /// Create a new [VSPD] of the given [SpdShape] with the values of each [Sample]
@@ -233,8 +237,12 @@ impl VSPD {
             );
         }
         let samples: Vec<Sample> = shape.iter().zip(values.iter()).map(|(nm, v)| Sample { nm, v: *v }).collect();
+        let end = samples[samples.len() - 1].nm;
 
-        VSPD { samples, shape }
+        VSPD {
+            samples,
+            shape: SpdShape { end, ..shape },
+        }
     }
 
     /// Get this SPD's [SpdShape]
@@ -306,6 +314,7 @@ impl VSPD {
 
         let mut samples = Vec::<Sample>::new();
         samples.extend(shape.iter().map(|nm| Sample::new(nm, interp.evaluate(nm))));
+        shape.end = samples[samples.len() - 1].nm;
 
         VSPD { samples, shape }
     }
-- 
2.43.0


From 7356307ea2eacb21e3dcb1aca487c82535e385aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 09/15] fix: VSPD::extrapolate pads on the SPD's own grid and
 reports the result's shape

Padding started from the requested start, so the padded samples were not on the
SPD's grid when the two differed, and the returned shape was the requested one
even where it did not describe the samples.
---
 src/vspd.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index d71b192..6dc263e 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -335,9 +335,6 @@ impl VSPD {
     pub fn extrapolate(&self, shape: SpdShape<f64>) -> VSPD {
         let extrap = ExtrapolatorConstant::new(self);
         let mut samples = Vec::<Sample>::new();
-        let start = self.start().min(shape.start);
-        let end = self.end().max(shape.end);
-        let mut x = start;
 
         // use this SPD's interval unless it's varying, in which case use the
         // given shape's interval. If that is also varying, panic
@@ -351,20 +348,29 @@ impl VSPD {
             },
         };
 
-        while x < self.start() {
+        // pad outwards in whole intervals so that a uniform SPD stays uniform
+        let num_before = ((self.start() - shape.start) / interval + 1.0e-6) as usize;
+        for i in (1..=num_before).rev() {
+            let x = self.start() - i as f64 * interval;
             samples.push(Sample::new(x, extrap.evaluate(x)));
-            x += interval;
         }
         samples.extend(self.samples.iter());
-        x = self.end() + interval;
-        while x <= end {
+        let num_after = ((shape.end - self.end()) / interval + 1.0e-6) as usize;
+        for i in 1..=num_after {
+            let x = self.end() + i as f64 * interval;
             samples.push(Sample::new(x, extrap.evaluate(x)));
-            x += interval;
         }
 
+        let start = samples[0].nm;
+        let end = samples[samples.len() - 1].nm;
+
         VSPD {
             samples,
-            shape: SpdShape::new(shape.start, shape.end, interval),
+            shape: SpdShape {
+                start,
+                end,
+                interval: self.shape.interval,
+            },
         }
     }
 
-- 
2.43.0


From eb6fe4b6954ea089bfdb3d6e1c43d080ec481b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 10/15] fix: VSPD::trim reports a uniform interval when the
 remaining samples are uniform

---
 src/vspd.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 6dc263e..1c0da95 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -389,14 +389,15 @@ impl VSPD {
 
         let start = samples.first().unwrap().nm;
         let end = samples.last().unwrap().nm;
+        // what is left of a varying SPD may be uniform
+        let interval = match self.shape.interval {
+            Interval::Varying if samples.len() > 1 => calculate_interval(&samples),
+            interval => interval,
+        };
 
         VSPD {
             samples,
-            shape: SpdShape::<f64> {
-                start,
-                end,
-                interval: self.shape.interval,
-            },
+            shape: SpdShape::<f64> { start, end, interval },
         }
     }
 
-- 
2.43.0


From 89be14da2d575d0178d3535dfb85c6af7f84a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 11/15] fix: VSPD::align returns samples on the requested grid

When the SPD started between two wavelengths of the requested shape the result
was sampled relative to the SPD's own start, so e.g. to_xyz paired its values
with colour matching functions of other wavelengths.
---
 src/vspd.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 1c0da95..fcdd5ea 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -322,7 +322,14 @@ impl VSPD {
     /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by first
     /// interpolating then extrapolating
     pub fn align(&self, shape: SpdShape<f64>) -> VSPD {
-        self.interpolate(shape).extrapolate(shape)
+        let mut overlap = shape;
+        if let Interval::Uniform(interval) = shape.interval {
+            // start on the requested grid even if this SPD starts between two
+            // of its wavelengths
+            let skip = ((self.start() - shape.start) / interval - 1.0e-6).ceil().max(0.0);
+            overlap.start = shape.start + skip * interval;
+        }
+        self.interpolate(overlap).extrapolate(shape)
     }
 
     /// Create a new VSPD by extrapolating the boundaries of the domain of this
-- 
2.43.0


From ed086f1b52b8bfe8409d898dd9096265987b278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 12/15] fix: VSPD::to_xyz integrates varying SPDs over the full
 visible range

Uniform SPDs are extrapolated to 360-780nm, varying ones were integrated and
normalized over their own range only, so the same reflectance gave another colour.
---
 src/vspd.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index fcdd5ea..40448a4 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -424,10 +424,7 @@ impl VSPD {
         // first figure out our interval. If it's varying then we need to
         // interpolate to make it uniform
         match self.interval() {
-            Interval::Varying => {
-                let spd = self.align(SpdShape::new(self.shape.start, self.shape.end, 1.0));
-                spd_to_xyz_integration(&spd, &illuminant, &cmf, spd.shape)
-            }
+            Interval::Varying => spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308()),
             Interval::Uniform(interval) => {
                 match interval.to_usize().unwrap() {
                     1 => {
-- 
2.43.0


From cbd14ed323047b2ccc724e4c85a343bae154360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 13/15] fix: VSPD::to_xyz uses the 10nm weights only for SPDs
 on their grid

The interval was truncated to an integer (10.5nm used the 10nm weights), and the
start was not checked, so samples at 365, 375, ... got the weights of 360, 370, ...
---
 src/vspd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 40448a4..1caaa50 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -426,18 +426,18 @@ impl VSPD {
         match self.interval() {
             Interval::Varying => spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308()),
             Interval::Uniform(interval) => {
-                match interval.to_usize().unwrap() {
-                    1 => {
+                match interval {
+                    i if i == 1.0 => {
                         // just integrate
                         spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308())
                     }
-                    5 => {
+                    i if i == 5.0 => {
                         // Integrate at 5nm
                         let mut shape = SpdShape::astm_e308();
                         shape.interval = Interval::Uniform(5.0);
                         spd_to_xyz_integration(self, &illuminant, &cmf, shape)
                     }
-                    10 => {
+                    i if i == 10.0 && (self.start() - 360.0) % 10.0 == 0.0 => {
                         // use ASTME308 weighting factors
                         spd_to_xyz_tristimulus_weighting_factors_astme308(self, &illuminant, &cmf)
                     }
-- 
2.43.0


From e043db540788d4f3dd5eff437a8e11fec45fbd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 14/15] fix: InterpolatorSprague extends spectra of fewer than
 six samples linearly

The boundary polynomials need six samples; with fewer the sums were cut short
and even a constant spectrum was distorted by a factor of up to ten.
---
 src/interpolation.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/interpolation.rs b/src/interpolation.rs
index 52643b0..b83b5bb 100644
--- a/src/interpolation.rs
+++ b/src/interpolation.rs
@@ -112,11 +112,22 @@ where
             .map(|(c, s)| *c * s.v)
             .sum::<f64>();
 
-        y.push(y1 / 209.0);
-        y.push(y2 / 209.0);
-        y.extend(vspd.iter().map(|s| s.v));
-        y.push(y3 / 209.0);
-        y.push(y4 / 209.0);
+        if vspd.len() < 6 {
+            // too few samples for the boundary polynomials, extend linearly
+            let (y0, y1) = (vspd.samples[0].v, vspd.samples[1].v);
+            y.push(y0 + 2.0 * (y0 - y1));
+            y.push(y0 + (y0 - y1));
+            y.extend(vspd.iter().map(|s| s.v));
+            let (y0, y1) = (vspd.samples[vspd.len() - 1].v, vspd.samples[vspd.len() - 2].v);
+            y.push(y0 + (y0 - y1));
+            y.push(y0 + 2.0 * (y0 - y1));
+        } else {
+            y.push(y1 / 209.0);
+            y.push(y2 / 209.0);
+            y.extend(vspd.iter().map(|s| s.v));
+            y.push(y3 / 209.0);
+            y.push(y4 / 209.0);
+        }
 
         InterpolatorSprague { x, y }
     }
-- 
2.43.0


From 039e195512a39e33bc31e2a80ef4ea136ca2ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:51 +0000
Subject: [PATCH 15/15] fix: linspace with a single step yields the start
 instead of NaN

---
 src/vspd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 1caaa50..6fec965 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -736,7 +736,8 @@ impl Iterator for FloatRange {
 }
 
 pub fn linspace(start: f64, end: f64, steps: usize) -> FloatRange {
-    let delta = (end - start) / (steps - 1) as f64;
+    // a single step has no spacing
+    let delta = if steps > 1 { (end - start) / (steps - 1) as f64 } else { 0.0 };
     FloatRange {
         current: 0,
         steps,
-- 
2.43.0

