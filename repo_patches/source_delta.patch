From 01e0a3032cdeed5d2eefa0b0a51c0985614573c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 01/45] fix: replace and overlay reach the last row and column
 of the bottom image

---
 src/compose.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compose.rs b/src/compose.rs
index ce70659..eab7212 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -215,8 +215,8 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x + top.width());
+    let y_end = min(bottom.height(), y + top.height());
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
@@ -262,8 +262,8 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x + top.width());
+    let y_end = min(bottom.height(), y + top.height());
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
-- 
2.43.0


From f5ce26cfff7adc3e9c43502f7635b73795797512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 02/45] fix: overlay blends the top image's pixels, not the
 bottom's own

---
 src/compose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compose.rs b/src/compose.rs
index eab7212..73f3028 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -268,7 +268,7 @@ where
     for y_bot in y..y_end {
         for x_bot in x..x_end {
             let mut bottom_pixel = *bottom.get_pixel(x_bot, y_bot);
-            let top_pixel = bottom.get_pixel(x_bot - x, y_bot - y);
+            let top_pixel = top.get_pixel(x_bot - x, y_bot - y);
 
             bottom_pixel.blend(top_pixel);
 
-- 
2.43.0


From f74e1b692feeac07e175fcc785d2c1a9b463120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 03/45] fix: local_maxima compares against items in the last
 row

---
 src/suppress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppress.rs b/src/suppress.rs
index b7af9d6..1a4644d 100644
--- a/src/suppress.rs
+++ b/src/suppress.rs
@@ -133,7 +133,7 @@ where
         let mut is_max = true;
         let row_lower = cy.saturating_sub(radius);
         let row_upper = if cy + radius + 1 > height {
-            height
+            height + 1
         } else {
             cy + radius + 1
         };
-- 
2.43.0


From 3219a94dd33e8aa913ab81d25969fe7eeaa3fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 04/45] fix: find_vertical_seam starts each row's comparison
 from the pixel above

---
 src/seam_carving.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 44d195c..ed4c60e 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -93,6 +93,8 @@ where
 
     for y in (1..height).rev() {
         let above = gradients.get_pixel(last_x, y - 1)[0];
+        min_x = last_x;
+        min_energy = above;
         if last_x > 0 {
             let left = gradients.get_pixel(last_x - 1, y - 1)[0];
             if left < above {
-- 
2.43.0


From 63ec4da5915f41dc25bc3dbf996f82a3f159d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 05/45] fix: Rect edges and intersection no longer overflow for
 representable rectangles

---
 src/rect.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rect.rs b/src/rect.rs
index 4c64403..7372814 100644
--- a/src/rect.rs
+++ b/src/rect.rs
@@ -62,14 +62,14 @@ impl Rect {
     ///
     /// See the [struct-level documentation](Rect) for examples.
     pub fn bottom(&self) -> i32 {
-        self.top + (self.height as i32) - 1
+        (self.top as i64 + self.height as i64 - 1) as i32
     }
 
     /// Greatest x-coordinate reached by rect.
     ///
     /// See the [struct-level documentation](Rect) for examples.
     pub fn right(&self) -> i32 {
-        self.left + (self.width as i32) - 1
+        (self.left as i64 + self.width as i64 - 1) as i32
     }
 
     /// Width of rect.
@@ -117,8 +117,8 @@ impl Rect {
         Some(Rect {
             left,
             top,
-            width: (right - left) as u32 + 1,
-            height: (bottom - top) as u32 + 1,
+            width: (right as i64 - left as i64 + 1) as u32,
+            height: (bottom as i64 - top as i64 + 1) as u32,
         })
     }
 }
-- 
2.43.0


From b16fcd0b8988dd562626a0ecbec1343d55f10a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 06/45] fix: sum_image_pixels no longer overflows when the
 integral image fits its type

---
 src/integral_image.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/integral_image.rs b/src/integral_image.rs
index 39fe947..56e9709 100644
--- a/src/integral_image.rs
+++ b/src/integral_image.rs
@@ -265,7 +265,9 @@ where
         integral_image.get_pixel(right + 1, top).data(),
         integral_image.get_pixel(left, bottom + 1).data(),
     );
-    P::sub(P::sub(P::add(a, b), c), d)
+    // In this order no intermediate value exceeds the sums themselves, so this
+    // cannot overflow when the integral image itself is representable.
+    P::sub(P::sub(a, c), P::sub(d, b))
 }
 
 /// Computes the variance of [left, right] * [top, bottom] in F, where `integral_image` is the
-- 
2.43.0


From a4f34acc35054e3092b0b20fe52ad9b91d341e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 07/45] fix: adaptive_threshold accepts every block radius and
 delta without overflow

---
 src/contrast.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index c9024f1..73b7473 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -1,6 +1,6 @@
 //! Functions for manipulating the contrast of images.
 
-use std::cmp::{max, min};
+use std::cmp::min;
 
 use image::{GrayImage, Luma, Pixel};
 #[cfg(feature = "rayon")]
@@ -26,19 +26,19 @@ pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> G
             let current_pixel = image.get_pixel(x, y);
             // Traverse all neighbors in (2 * block_radius + 1) x (2 * block_radius + 1)
             let (y_low, y_high) = (
-                max(0, y as i32 - (block_radius as i32)) as u32,
-                min(image.height() - 1, y + block_radius),
+                y.saturating_sub(block_radius),
+                min(image.height() - 1, y.saturating_add(block_radius)),
             );
             let (x_low, x_high) = (
-                max(0, x as i32 - (block_radius as i32)) as u32,
-                min(image.width() - 1, x + block_radius),
+                x.saturating_sub(block_radius),
+                min(image.width() - 1, x.saturating_add(block_radius)),
             );
 
             // Number of pixels in the block, adjusted for edge cases.
             let w = (y_high - y_low + 1) * (x_high - x_low + 1);
             let mean = sum_image_pixels(&integral, x_low, y_low, x_high, y_high)[0] / w;
 
-            if current_pixel[0] as i32 >= mean as i32 - delta {
+            if current_pixel[0] as i64 >= mean as i64 - delta as i64 {
                 out.put_pixel(x, y, Luma::white());
             }
         }
-- 
2.43.0


From 948e4f445bb32b9c6643b44c7fe760f235b59334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 08/45] fix: non-maximum suppression accepts every radius
 without overflow

---
 src/suppress.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/suppress.rs b/src/suppress.rs
index 1a4644d..63f7db4 100644
--- a/src/suppress.rs
+++ b/src/suppress.rs
@@ -32,8 +32,8 @@ where
             let mut mi = image.get_pixel(x, y)[0];
 
             // These mins are necessary for when radius > min(width, height)
-            for cy in y..cmp::min(height, y + radius + 1) {
-                for cx in x..cmp::min(width, x + radius + 1) {
+            for cy in y..cmp::min(height, y.saturating_add(radius).saturating_add(1)) {
+                for cx in x..cmp::min(width, x.saturating_add(radius).saturating_add(1)) {
                     let ci = unsafe { image.unsafe_get_pixel(cx, cy)[0] };
                     if ci < mi {
                         continue;
@@ -48,13 +48,13 @@ where
 
             let x0 = best_x.saturating_sub(radius);
             let x1 = x;
-            let x2 = cmp::min(width, x + radius + 1);
-            let x3 = cmp::min(width, best_x + radius + 1);
+            let x2 = cmp::min(width, x.saturating_add(radius).saturating_add(1));
+            let x3 = cmp::min(width, best_x.saturating_add(radius).saturating_add(1));
 
             let y0 = best_y.saturating_sub(radius);
             let y1 = y;
-            let y2 = cmp::min(height, y + radius + 1);
-            let y3 = cmp::min(height, best_y + radius + 1);
+            let y2 = cmp::min(height, y.saturating_add(radius).saturating_add(1));
+            let y3 = cmp::min(height, best_y.saturating_add(radius).saturating_add(1));
 
             // Above initial r * r block
             let mut failed = contains_greater_value(image, best_x, best_y, mi, y0, y1, x0, x3);
@@ -132,17 +132,17 @@ where
 
         let mut is_max = true;
         let row_lower = cy.saturating_sub(radius);
-        let row_upper = if cy + radius + 1 > height {
+        let row_upper = if cy.saturating_add(radius) >= height {
             height + 1
         } else {
             cy + radius + 1
         };
         for y in row_lower..row_upper {
             for c in &ts_by_row[y as usize] {
-                if c.x() + radius < cx {
+                if c.x().saturating_add(radius) < cx {
                     continue;
                 }
-                if c.x() > cx + radius {
+                if c.x() > cx.saturating_add(radius) {
                     break;
                 }
                 if c.score() > cs {
-- 
2.43.0


From 32278536ac82455881f1102d56b2215c2d9a0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 09/45] fix: draw_vertical_seams maps every seam back to its
 original columns

---
 src/seam_carving.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index ed4c60e..333abd8 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -176,13 +176,16 @@ pub fn draw_vertical_seams(image: &GrayImage, seams: &[VerticalSeam]) -> Image<R
     for seam in seams {
         for (y, x) in (0..height).rev().zip(&seam.0) {
             let mut x_original = *x;
-            for o in &offsets[y as usize] {
-                if *o < *x {
+            // Columns of the original image that earlier seams removed, in increasing order
+            let removed: &mut Vec<u32> = &mut offsets[y as usize];
+            for o in removed.iter() {
+                if *o <= x_original {
                     x_original += 1;
                 }
             }
             out.put_pixel(x_original, y, Rgb([255, 0, 0]));
-            offsets[y as usize].push(x_original);
+            let position = removed.partition_point(|o| *o < x_original);
+            removed.insert(position, x_original);
         }
     }
 
-- 
2.43.0


From 1adfa809b2c59d198d9a3dd801f037b44a90ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 10/45] fix: draw_cross clips positions at the ends of the i32
 range

---
 src/drawing/cross.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/drawing/cross.rs b/src/drawing/cross.rs
index bb3be8c..72511ad 100644
--- a/src/drawing/cross.rs
+++ b/src/drawing/cross.rs
@@ -28,14 +28,14 @@ where
                    0u8, 1u8, 0u8];
 
     for sy in -1..2 {
-        let iy = y + sy;
-        if iy < 0 || iy >= height as i32 {
+        let iy = y as i64 + sy;
+        if iy < 0 || iy >= height as i64 {
             continue;
         }
 
         for sx in -1..2 {
-            let ix = x + sx;
-            if ix < 0 || ix >= width as i32 {
+            let ix = x as i64 + sx;
+            if ix < 0 || ix >= width as i64 {
                 continue;
             }
 
-- 
2.43.0


From de594db166215b58398ea96644baeebacb7af880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 11/45] fix: draw_filled_rect leaves an empty canvas alone
 instead of panicking

---
 src/drawing/rect.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawing/rect.rs b/src/drawing/rect.rs
index ee2c99e..4f20d3e 100644
--- a/src/drawing/rect.rs
+++ b/src/drawing/rect.rs
@@ -52,6 +52,9 @@ pub fn draw_filled_rect_mut<C>(canvas: &mut C, rect: Rect, color: C::Pixel)
 where
     C: Canvas,
 {
+    if canvas.width() == 0 || canvas.height() == 0 {
+        return;
+    }
     let canvas_bounds = Rect::at(0, 0).of_size(canvas.width(), canvas.height());
     if let Some(intersection) = canvas_bounds.intersect(rect) {
         for dy in 0..intersection.height() {
-- 
2.43.0


From 8c5f00a6901c18ddf996b4e1ecc6e5baa1f3d55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 12/45] fix: flood_fill terminates when the fill colour equals
 the seed's colour

---
 src/drawing/fill.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drawing/fill.rs b/src/drawing/fill.rs
index 74c05ab..fe74b89 100644
--- a/src/drawing/fill.rs
+++ b/src/drawing/fill.rs
@@ -18,6 +18,10 @@ where
     P: Pixel + PartialEq,
 {
     let target = *image.get_pixel(x, y);
+    if target == fill_with {
+        // Nothing to change, and the pixels already filled could not be told from those to fill
+        return;
+    }
 
     let mut stack = Vec::new();
 
-- 
2.43.0


From 1895c0b1dd7d8c5b6d24174e39b51cb4a78756ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 13/45] fix: BRIEF descriptors keep the first test result of
 every 128-bit chunk

---
 src/binary_descriptors/brief.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 4283ce3..a74d134 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -179,10 +179,10 @@ pub(crate) fn brief_impl(
             };
 
             // if p0 < p1, then record true for this test; otherwise, record false
+            descriptor_chunk <<= 1;
             descriptor_chunk += (local_pixel_average(integral_image, p0.x, p0.y, 2)
                 < local_pixel_average(integral_image, p1.x, p1.y, 2))
                 as u128;
-            descriptor_chunk <<= 1;
         }
         // save the final chunk too
         descriptor.bits.push(descriptor_chunk);
-- 
2.43.0


From 1341780bee5570a0a28ec6eee6685b8e27c609fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 14/45] fix: BRIEF patch averages no longer overflow when the
 integral image fits its type

---
 src/binary_descriptors/brief.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index a74d134..afb0d1d 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -104,7 +104,7 @@ fn local_pixel_average(integral_image: &Image<Luma<u32>>, x: u32, y: u32, radius
             integral_image.unsafe_get_pixel(x_min, y_max)[0],
         )
     };
-    let total_intensity = bottom_right + top_left - top_right - bottom_left;
+    let total_intensity = bottom_right - top_right - (bottom_left - top_left);
     (total_intensity / pixel_area) as u8
 }
 
-- 
2.43.0


From 278a254d67766098d3e441703649174729593bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 15/45] fix: brief reports far-away keypoints instead of
 overflowing

---
 src/binary_descriptors/brief.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index afb0d1d..e4323f2 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -135,9 +135,9 @@ pub(crate) fn brief_impl(
     for keypoint in keypoints {
         // if the keypoint is too close to the edge, return an error
         if keypoint.x <= BRIEF_PATCH_RADIUS
-            || keypoint.x + BRIEF_PATCH_RADIUS >= width
+            || keypoint.x.saturating_add(BRIEF_PATCH_RADIUS) >= width
             || keypoint.y <= BRIEF_PATCH_RADIUS
-            || keypoint.y + BRIEF_PATCH_RADIUS >= height
+            || keypoint.y.saturating_add(BRIEF_PATCH_RADIUS) >= height
         {
             return Err(format!(
                 "Found keypoint within {} px of image edge: ({}, {})",
-- 
2.43.0


From f71df5292ecfb80a54dd05702c80022daea72826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 16/45] fix: distance transforms without any foreground pixel
 are saturated, so dilating an empty image stays empty

---
 src/distance_transform.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/distance_transform.rs b/src/distance_transform.rs
index f6f588b..fd3af49 100644
--- a/src/distance_transform.rs
+++ b/src/distance_transform.rs
@@ -3,6 +3,7 @@
 
 use crate::definitions::Image;
 use image::{GenericImage, GenericImageView, GrayImage, Luma};
+#[cfg(test)]
 use std::cmp::min;
 
 /// How to measure distance between coordinates.
@@ -128,7 +129,9 @@ fn distance_transform_impl_linf_or_l1<const IS_LINF: bool>(
     image: &mut GrayImage,
     from: DistanceFrom,
 ) {
-    let max_distance = Luma([min(image.width() + image.height(), 255u32) as u8]);
+    // Larger than every real distance that can be represented, as in the L2 case: pixels with no
+    // foreground (or background) pixel anywhere must not look as if one were within reach.
+    let max_distance = Luma([u8::MAX]);
 
     // We use an unsafe code block for optimisation purposes here
     // We use the 'unsafe_get_pixel' and 'check' unsafe functions,
-- 
2.43.0


From e76d54970becbc8f4cf285d93b6d0347e32ba6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:08 +0000
Subject: [PATCH 17/45] fix: grayscale morphology of images without columns
 panicked

---
 src/morphology.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/morphology.rs b/src/morphology.rs
index badb683..88c0209 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -542,6 +542,9 @@ fn mask_reduce<F: Fn(u8, u8) -> u8>(
     operator: F,
 ) -> GrayImage {
     let mut result = GrayImage::from_pixel(image.width(), image.height(), Luma([neutral]));
+    if image.width() == 0 {
+        return result;
+    }
     for (y, line_group) in lines!(mask) {
         let y = i64::from(y);
         let line = line_group.collect::<Vec<_>>();
-- 
2.43.0


From e40f42fe203d32e29e7b4236406d168d227e702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 18/45] fix: connected_components panicked when every pixel is
 its own component

---
 src/region_labelling.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/region_labelling.rs b/src/region_labelling.rs
index 3a8be91..8388b87 100644
--- a/src/region_labelling.rs
+++ b/src/region_labelling.rs
@@ -141,7 +141,9 @@ where
         return out;
     }
 
-    let mut forest = DisjointSetForest::new(image_size);
+    // Labels start from 1, so there can be a label equal to the image size.
+    let num_labels = image_size + 1;
+    let mut forest = DisjointSetForest::new(num_labels);
     let mut adj_labels = [0u32; 4];
     let mut next_label = 1;
 
@@ -216,7 +218,7 @@ where
     }
 
     // Make components start at 1
-    let mut output_labels = vec![0u32; image_size];
+    let mut output_labels = vec![0u32; num_labels];
     let mut count = 1;
 
     unsafe {
-- 
2.43.0


From e91df39eb97644f66bf412fc100d5556181597f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 19/45] fix: translate overflowed for extreme vertical offsets

---
 src/geometric_transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 87ef25e..91ca5d3 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -473,7 +473,7 @@ where
     let mut out = Image::new(width, height);
 
     for y in 0..height {
-        let y_in = cmp::max(0, cmp::min(y as i32 - ty, h - 1));
+        let y_in = cmp::max(0, cmp::min((y as i32).saturating_sub(ty), h - 1));
 
         if tx > 0 {
             let p_min = *image.get_pixel(0, y_in as u32);
-- 
2.43.0


From b583cbafc9910a68b738fdcb302a603fa636478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 20/45] fix: FAST-12 missed corners whose span leaves out the
 top or bottom circle pixel

---
 src/corners.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 51f17be..02c9f0c 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -365,8 +365,8 @@ fn is_corner_fast12(image: &GrayImage, threshold: u8, x: u32, y: u32) -> bool {
         )
     };
 
-    let mut above = p0 > high_thresh && p8 > high_thresh;
-    let mut below = p0 < low_thresh && p8 < low_thresh;
+    let mut above = p0 > high_thresh || p8 > high_thresh;
+    let mut below = p0 < low_thresh || p8 < low_thresh;
 
     if !above && !below {
         return false;
@@ -396,12 +396,9 @@ fn is_corner_fast12(image: &GrayImage, threshold: u8, x: u32, y: u32) -> bool {
     // JUSTIFICATION - see comment at the start of this function
     let pixels = unsafe { get_circle(image, x, y, p0, p4, p8, p12) };
 
-    // Exactly one of above or below is true
-    if above {
-        has_bright_span(&pixels, 12, high_thresh)
-    } else {
-        has_dark_span(&pixels, 12, low_thresh)
-    }
+    // above and below could both be true
+    (above && has_bright_span(&pixels, 12, high_thresh))
+        || (below && has_dark_span(&pixels, 12, low_thresh))
 }
 
 /// # Safety
-- 
2.43.0


From 4550bc5955b3d9e2bbd060d3fea0498e09874928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 21/45] fix: enumerate_haar_features overflowed for frames 255
 pixels wide or high

---
 src/haar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haar.rs b/src/haar.rs
index 8eb7cd3..89f3707 100644
--- a/src/haar.rs
+++ b/src/haar.rs
@@ -327,8 +327,8 @@ impl<T> Size<T> {
 
 // Returns the valid block sizes for a feature of shape `feature_shape` in a frame of size `frame_size`.
 fn block_sizes(feature_shape: Size<Blocks>, frame_size: Size<Pixels>) -> Vec<Size<Pixels>> {
-    (1..frame_size.width / feature_shape.width + 1)
-        .cartesian_product(1..frame_size.height / feature_shape.height + 1)
+    (1..=frame_size.width / feature_shape.width)
+        .cartesian_product(1..=frame_size.height / feature_shape.height)
         .map(|(w, h)| Size::new(w, h))
         .collect()
 }
-- 
2.43.0


From c17aa48df4df45fd8c9b7469168ec188dfec5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 22/45] fix: HOG option checks return an error instead of
 panicking on zero or oversized options

---
 src/hog.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hog.rs b/src/hog.rs
index 793ae09..39e7827 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -86,6 +86,11 @@ impl HogSpec {
         height: usize,
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
+        if options.orientations == 0 || options.cell_side == 0 || options.block_stride == 0 {
+            return Err(Self::invalid_options_message(&[
+                "orientations, cell side and block stride must be positive".to_owned(),
+            ]));
+        }
         let mut errors: Vec<String> = vec![];
         if width % options.cell_side != 0 {
             errors.push(format!(
@@ -113,6 +118,12 @@ impl HogSpec {
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
         let mut errors: Vec<String> = vec![];
+        if options.block_side > cells_wide || options.block_side > cells_high {
+            return Err(Self::invalid_options_message(&[format!(
+                "block side {} exceeds cells wide {} or cells high {}",
+                options.block_side, cells_wide, cells_high
+            )]));
+        }
         if (cells_wide - options.block_side) % options.block_stride != 0 {
             errors.push(format!(
                 "block stride {} does not evenly divide (cells wide {} - block side {})",
@@ -183,7 +194,7 @@ impl HogSpec {
 /// `block_side` long and blocks are staggered by `block_stride`. Assumes that
 /// options are compatible.
 fn num_blocks(num_cells: usize, block_side: usize, block_stride: usize) -> usize {
-    (num_cells + block_stride - block_side) / block_stride
+    (num_cells - block_side) / block_stride + 1
 }
 
 /// Computes the HoG descriptor of an image, or None if the provided
-- 
2.43.0


From f890e627de3f37a709a8de2a9199150427d634f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 23/45] fix: canny no longer panics on images with a zero side

---
 src/edges.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/edges.rs b/src/edges.rs
index 38ce3d9..d9f61a2 100644
--- a/src/edges.rs
+++ b/src/edges.rs
@@ -60,8 +60,8 @@ fn non_maximum_suppression(
 ) -> Image<Luma<f32>> {
     const RADIANS_TO_DEGREES: f32 = 180f32 / f32::consts::PI;
     let mut out = Image::from_pixel(g.width(), g.height(), Luma([0.0]));
-    for y in 1..g.height() - 1 {
-        for x in 1..g.width() - 1 {
+    for y in 1..g.height().saturating_sub(1) {
+        for x in 1..g.width().saturating_sub(1) {
             let x_gradient = gx[(x, y)][0] as f32;
             let y_gradient = gy[(x, y)][0] as f32;
             let mut angle = (y_gradient).atan2(x_gradient) * RADIANS_TO_DEGREES;
@@ -118,8 +118,8 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
     let mut out = Image::from_pixel(input.width(), input.height(), min_brightness);
     // Stack. Possible optimization: Use previously allocated memory, i.e. gx.
     let mut edges = Vec::with_capacity(((input.width() * input.height()) / 2) as usize);
-    for y in 1..input.height() - 1 {
-        for x in 1..input.width() - 1 {
+    for y in 1..input.height().saturating_sub(1) {
+        for x in 1..input.width().saturating_sub(1) {
             let inp_pix = *input.get_pixel(x, y);
             let out_pix = *out.get_pixel(x, y);
             // If the edge strength is higher than high_thresh, mark it as an edge.
-- 
2.43.0


From 2ebee380071af544d5b20c2c14190c5527c3c8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 24/45] fix: Kernel::new rejects dimensions whose product
 overflows u32

In release builds width * height wrapped, so a kernel could claim more
elements than its data and the filters would read out of bounds.
---
 src/kernel.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kernel.rs b/src/kernel.rs
index 70a2c38..df220b4 100644
--- a/src/kernel.rs
+++ b/src/kernel.rs
@@ -23,7 +23,10 @@ where
     /// 2. If `width * height != data.len() as u32`.
     pub const fn new(data: &'a [K], width: u32, height: u32) -> Kernel<'a, K> {
         assert!(width > 0 && height > 0, "width and height must be non-zero");
-        assert!(width * height == data.len() as u32);
+        match width.checked_mul(height) {
+            Some(len) => assert!(len as usize == data.len()),
+            None => panic!("width * height must not overflow u32"),
+        }
         Kernel {
             data,
             width,
-- 
2.43.0


From a2f8c7f657b5d78513458eca2f4b9116df373936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 25/45] fix: bilinear and bicubic interpolation at a position
 that is not a number

The bounds test was false for NaN, so the pixels were read (unchecked) at (0, 0)..., outside of small images.
---
 src/geometric_transformations.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 91ca5d3..7aac3bb 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -770,8 +770,11 @@ where
 
     let mut col: [P; 4] = [default, default, default, default];
 
+    // default if out of bound, or if the position is not a number
     let (width, height) = image.dimensions();
-    if left < 0f32 || right >= width as f32 || top < 0f32 || bottom >= height as f32 {
+    let in_bounds =
+        left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
+    if !in_bounds {
         default
     } else {
         for row in top as u32..bottom as u32 {
@@ -830,9 +833,11 @@ where
     let right_weight = x - left;
     let bottom_weight = y - top;
 
-    // default if out of bound
+    // default if out of bound, or if the position is not a number
     let (width, height) = image.dimensions();
-    if left < 0f32 || right >= width as f32 || top < 0f32 || bottom >= height as f32 {
+    let in_bounds =
+        left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
+    if !in_bounds {
         default
     } else {
         let (tl, tr, bl, br) = unsafe {
-- 
2.43.0


From 736c2726132696fb20534913120c537a37f70e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 26/45] fix: warping into an image of width zero panicked

---
 src/geometric_transformations.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 7aac3bb..d470348 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -641,6 +641,9 @@ where
     Fi: Fn(f32, f32) -> P + Send + Sync,
 {
     let width = out.width();
+    if width == 0 {
+        return;
+    }
     let raw_out = out.as_mut();
     let pitch = P::CHANNEL_COUNT as usize * width as usize;
 
-- 
2.43.0


From edc4a74b7d27be29e1db1dd61547956ea319a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 27/45] fix: rounding in bilinear interpolation could leave the
 range of the pixels

(1 - w) * u + w * u can round below u and is then truncated: a constant image of 255 gave pixels of 254.
---
 src/geometric_transformations.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index d470348..45a1995 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -798,6 +798,11 @@ where
     }
 }
 
+// Written as an offset from u so that rounding can't take the result out of the range of u and v.
+fn lerp(u: f32, v: f32, weight: f32) -> f32 {
+    u + weight * (v - u)
+}
+
 fn blend_bilinear<P>(
     top_left: P,
     top_right: P,
@@ -811,15 +816,15 @@ where
     P::Subpixel: Into<f32> + Clamp<f32>,
 {
     let top = top_left.map2(&top_right, |u, v| {
-        P::Subpixel::clamp((1f32 - right_weight) * u.into() + right_weight * v.into())
+        P::Subpixel::clamp(lerp(u.into(), v.into(), right_weight))
     });
 
     let bottom = bottom_left.map2(&bottom_right, |u, v| {
-        P::Subpixel::clamp((1f32 - right_weight) * u.into() + right_weight * v.into())
+        P::Subpixel::clamp(lerp(u.into(), v.into(), right_weight))
     });
 
     top.map2(&bottom, |u, v| {
-        P::Subpixel::clamp((1f32 - bottom_weight) * u.into() + bottom_weight * v.into())
+        P::Subpixel::clamp(lerp(u.into(), v.into(), bottom_weight))
     })
 }
 
-- 
2.43.0


From 8cb1134ddc80d28955cf85f17f4924f6ab491d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 28/45] fix: the accumulator size overflowed in detect_lines
 for images with a side of 65536 or more

---
 src/hough.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hough.rs b/src/hough.rs
index 659a481..7035ee0 100644
--- a/src/hough.rs
+++ b/src/hough.rs
@@ -40,7 +40,7 @@ pub fn detect_lines(image: &GrayImage, options: LineDetectionOptions) -> Vec<Pol
     let (width, height) = image.dimensions();
 
     // The maximum possible radius is the diagonal of the image.
-    let rmax = ((width * width + height * height) as f64).sqrt() as i32;
+    let rmax = ((width as f64).powi(2) + (height as f64).powi(2)).sqrt() as i32;
 
     // Measure angles in degrees, and use bins of width 1 pixel and height 1 degree.
     // We use the convention that distances are positive for angles in (0, 180] and
-- 
2.43.0


From e313b5295bb6a07d6187580932e6bf33150dcd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 29/45] fix: bilateral_filter overflowed i16 in the spatial
 lookup index for radii above 90

---
 src/filter/bilateral.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 1cbd4a5..381fa55 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -147,8 +147,10 @@ where
                 // Safety: we clamped `window_x` and `window_y` to be in bounds.
                 let window_pixel = unsafe { image.unsafe_get_pixel(window_x, window_y) };
 
-                let spatial_distance = spatial_distance_lookup
-                    [(window_len * (w_y + radius) + (w_x + radius)) as usize];
+                // the lookup table can have more than i16::MAX elements
+                let lookup_index =
+                    i32::from(window_len) * i32::from(w_y + radius) + i32::from(w_x + radius);
+                let spatial_distance = spatial_distance_lookup[lookup_index as usize];
                 let color_distance = color_distance.color_distance(&center_pixel, &window_pixel);
                 let weight = spatial_distance * color_distance;
 
-- 
2.43.0


From bfa2018390f8c990f7e9daeb05a5b7d9f62d7f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 30/45] fix: orientation of a corner near the top or left edge
 used offsets from the wrong centre

---
 src/corners.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 02c9f0c..f33bddf 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -124,7 +124,9 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
     let y_max = u32::min(y + radius + 1, height);
     let x_max = u32::min(x + radius + 1, width);
 
-    let (mut x_count, mut y_count) = (-(radius as i32), (radius as i32));
+    // Offsets from the centre of the first column and row of the (possibly clipped) window.
+    let (x_start, y_start) = (x_min as i32 - x as i32, y as i32 - y_min as i32);
+    let (mut x_count, mut y_count) = (x_start, y_start);
 
     for y in y_min..y_max {
         for x in x_min..x_max {
@@ -146,7 +148,7 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
             x_centroid += x_count * (pixel as i32);
             x_count += 1;
         }
-        x_count = -(radius as i32);
+        x_count = x_start;
     }
 
     for x in x_min..x_max {
@@ -156,7 +158,7 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
             y_centroid += y_count * (pixel as i32);
             y_count -= 1;
         }
-        y_count = radius as i32;
+        y_count = y_start;
     }
 
     // Important note: we flip the sign here because there are two coordinate
-- 
2.43.0


From 1930e6f4fb9e44c422eccd49b089cbac8c99be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 31/45] fix: oriented_fast panicked on small images, large edge
 radii and a target of zero corners

---
 src/corners.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index f33bddf..0a819c8 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -180,10 +180,15 @@ pub fn oriented_fast(
     seed: Option<u64>,
 ) -> Vec<OrientedFastCorner> {
     let (width, height) = image.dimensions();
-    let (min_x, max_x) = (edge_radius, width - edge_radius);
-    let (min_y, max_y) = (edge_radius, height - edge_radius);
+    let (min_x, max_x) = (edge_radius, width.saturating_sub(edge_radius));
+    let (min_y, max_y) = (edge_radius, height.saturating_sub(edge_radius));
     let mut corners = vec![];
 
+    // No pixel is far enough from the edges.
+    if min_x >= max_x || min_y >= max_y {
+        return vec![];
+    }
+
     let local_threshold = if let Some(t) = threshold {
         t
     } else {
@@ -207,14 +212,14 @@ pub fn oriented_fast(
             .collect();
         fast_scores.sort();
         let target_corner_fraction = (target_num_corners as f32) / ((width * height) as f32);
-        let fraction_idx = (NUM_SAMPLE_POINTS as f32 * (1. - target_corner_fraction)) as usize;
+        let fraction_idx = (sample_size as f32 * (1. - target_corner_fraction)) as usize;
 
-        fast_scores[fraction_idx]
+        fast_scores[fraction_idx.min(sample_size - 1)]
     };
 
     // Iterate over every pixel in the image and find potential corners.
-    for y in edge_radius..height - edge_radius {
-        for x in edge_radius..width - edge_radius {
+    for y in min_y..max_y {
+        for x in min_x..max_x {
             if is_corner_fast9(image, local_threshold, x, y) {
                 let score = fast_corner_score(image, local_threshold, x, y, Fast::Nine);
                 corners.push(Corner::new(x, y, score as f32));
-- 
2.43.0


From d54ea87efb3dd33b5939235e236f22f630578df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:40 +0000
Subject: [PATCH 32/45] fix: Projection::from_matrix with a last coefficient of
 zero gave a projection of NaNs

---
 src/geometric_transformations.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 45a1995..ccc4695 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -678,6 +678,10 @@ fn class_from_matrix(mx: [f32; 9]) -> TransformationClass {
 }
 
 fn normalize(mx: [f32; 9]) -> [f32; 9] {
+    // the matrix is homogeneous: when its last coefficient can't be scaled to one any scale will do
+    if mx[8] == 0.0 {
+        return mx;
+    }
     [
         mx[0] / mx[8],
         mx[1] / mx[8],
-- 
2.43.0


From fc10c046592ed281142ac5ab12c66a2e8f5b647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 33/45] fix: from_control_points returned projections missing
 the control points, its singular value decomposition being inaccurate for
 some systems

---
 src/geometric_transformations.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index ccc4695..f8d50f5 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -128,8 +128,7 @@ impl Projection {
 
     /// Calculates a projection from a set of four control point pairs.
     pub fn from_control_points(from: [(f32, f32); 4], to: [(f32, f32); 4]) -> Option<Projection> {
-        use approx::AbsDiffEq;
-        use nalgebra::{linalg::SVD, OMatrix, OVector, U8};
+        use nalgebra::{OMatrix, OVector, U8};
 
         let (xf1, yf1, xf2, yf2, xf3, yf3, xf4, yf4) = (
             from[0].0 as f64,
@@ -167,8 +166,8 @@ impl Projection {
 
         let b = OVector::<_, U8>::from_row_slice(&[-y1, x1, -y2, x2, -y3, x3, -y4, x4]);
 
-        SVD::try_new(a, true, true, f64::default_epsilon(), 0)
-            .and_then(|svd| svd.solve(&b, f64::default_epsilon()).ok())
+        a.full_piv_lu()
+            .solve(&b)
             .and_then(|h| {
                 let mut transform = [
                     h[0] as f32,
-- 
2.43.0


From 55070236ac6d9d147e509aa7d5056d0134d91a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 34/45] fix: from_control_points failed when the origin is sent
 to infinity

---
 src/geometric_transformations.rs | 71 ++++++++++++++++----------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index f8d50f5..b6d82dc 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -130,15 +130,20 @@ impl Projection {
     pub fn from_control_points(from: [(f32, f32); 4], to: [(f32, f32); 4]) -> Option<Projection> {
         use nalgebra::{OMatrix, OVector, U8};
 
+        // The last coefficient of the solution is fixed to one, so the origin can't be sent to
+        // infinity: solve in coordinates relative to the center of the source points.
+        let cx = from.iter().map(|p| p.0 as f64).sum::<f64>() / 4.0;
+        let cy = from.iter().map(|p| p.1 as f64).sum::<f64>() / 4.0;
+
         let (xf1, yf1, xf2, yf2, xf3, yf3, xf4, yf4) = (
-            from[0].0 as f64,
-            from[0].1 as f64,
-            from[1].0 as f64,
-            from[1].1 as f64,
-            from[2].0 as f64,
-            from[2].1 as f64,
-            from[3].0 as f64,
-            from[3].1 as f64,
+            from[0].0 as f64 - cx,
+            from[0].1 as f64 - cy,
+            from[1].0 as f64 - cx,
+            from[1].1 as f64 - cy,
+            from[2].0 as f64 - cx,
+            from[2].1 as f64 - cy,
+            from[3].0 as f64 - cx,
+            from[3].1 as f64 - cy,
         );
 
         let (x1, y1, x2, y2, x3, y3, x4, y4) = (
@@ -166,30 +171,28 @@ impl Projection {
 
         let b = OVector::<_, U8>::from_row_slice(&[-y1, x1, -y2, x2, -y3, x3, -y4, x4]);
 
-        a.full_piv_lu()
-            .solve(&b)
-            .and_then(|h| {
-                let mut transform = [
-                    h[0] as f32,
-                    h[1] as f32,
-                    h[2] as f32,
-                    h[3] as f32,
-                    h[4] as f32,
-                    h[5] as f32,
-                    h[6] as f32,
-                    h[7] as f32,
-                    1.0,
-                ];
-
-                transform = normalize(transform);
-                let class = class_from_matrix(transform);
-
-                try_inverse(&transform).map(|inverse| Projection {
-                    transform,
-                    inverse,
-                    class,
-                })
+        a.full_piv_lu().solve(&b).and_then(|h| {
+            let mut transform = [
+                h[0] as f32,
+                h[1] as f32,
+                (h[2] - h[0] * cx - h[1] * cy) as f32,
+                h[3] as f32,
+                h[4] as f32,
+                (h[5] - h[3] * cx - h[4] * cy) as f32,
+                h[6] as f32,
+                h[7] as f32,
+                (1.0 - h[6] * cx - h[7] * cy) as f32,
+            ];
+
+            transform = normalize(transform);
+            let class = class_from_matrix(transform);
+
+            try_inverse(&transform).map(|inverse| Projection {
+                transform,
+                inverse,
+                class,
             })
+        })
     }
 
     // Helper functions used as optimization in warp.
@@ -778,8 +781,7 @@ where
 
     // default if out of bound, or if the position is not a number
     let (width, height) = image.dimensions();
-    let in_bounds =
-        left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
+    let in_bounds = left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
     if !in_bounds {
         default
     } else {
@@ -846,8 +848,7 @@ where
 
     // default if out of bound, or if the position is not a number
     let (width, height) = image.dimensions();
-    let in_bounds =
-        left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
+    let in_bounds = left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
     if !in_bounds {
         default
     } else {
-- 
2.43.0


From 85d4a145f79cb89da8cff3d63ec065ba6de3884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 35/45] fix: otsu_level overflowed on images with more than 16
 million bright pixels

---
 src/contrast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index 73b7473..5e565e0 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -58,7 +58,7 @@ pub fn otsu_level(image: &GrayImage) -> u8 {
     let total_pixel_sum = hist.channels[0]
         .iter()
         .enumerate()
-        .fold(0f64, |sum, (t, h)| sum + (t as u32 * h) as f64);
+        .fold(0f64, |sum, (t, h)| sum + (t as u64 * u64::from(*h)) as f64);
 
     // Sum of all pixel intensities in the background class.
     let mut background_pixel_sum = 0f64;
@@ -83,7 +83,7 @@ pub fn otsu_level(image: &GrayImage) -> u8 {
             break;
         };
 
-        background_pixel_sum += (threshold as u32 * hist_count) as f64;
+        background_pixel_sum += (threshold as u64 * u64::from(*hist_count)) as f64;
         let foreground_pixel_sum = total_pixel_sum - background_pixel_sum;
 
         let background_mean = background_pixel_sum / (background_weight as f64);
-- 
2.43.0


From e6ae1e783cf55cb687bcde269f3d0edf8fd9ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 36/45] fix: drawing a line that ends at i32::MAX panicked or
 did not end

---
 src/drawing/line.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index 2e8f962..44b8170 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -62,10 +62,14 @@ impl Iterator for BresenhamLineIter {
                 (self.x, self.y)
             };
 
-            self.x += 1;
+            match self.x.checked_add(1) {
+                Some(x) => self.x = x,
+                // No coordinate is larger: this was the last point.
+                None => self.end_x = i32::MIN,
+            }
             self.error -= self.dy;
             if self.error < 0f32 {
-                self.y += self.y_step;
+                self.y = self.y.saturating_add(self.y_step);
                 self.error += self.dx;
             }
 
-- 
2.43.0


From 696cd7b8d814271ba1b57ece489a54788ab730f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 37/45] fix: antialiased lines used wrong rows and weights at
 negative coordinates

---
 src/drawing/line.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index 44b8170..164e7fe 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -288,8 +288,9 @@ fn plot_wu_line<I, T, B>(
     let mut fy = start.1 as f32;
 
     for x in start.0..(end.0 + 1) {
-        plotter.plot(x, fy as i32, color, 1.0 - fy.fract());
-        plotter.plot(x, fy as i32 + 1, color, fy.fract());
+        let y = fy.floor();
+        plotter.plot(x, y as i32, color, 1.0 - (fy - y));
+        plotter.plot(x, y as i32 + 1, color, fy - y);
         fy += gradient;
     }
 }
-- 
2.43.0


From 9d41d603509d60bd23196327336b780a506a30d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 38/45] fix: ellipses with a radius above 46340 overflowed

---
 src/drawing/conics.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index 9f4a9e0..4a6e486 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -124,8 +124,8 @@ where
     F: FnMut(i32, i32, i32, i32),
 {
     let (x0, y0) = center;
-    let w2 = (width_radius * width_radius) as f32;
-    let h2 = (height_radius * height_radius) as f32;
+    let w2 = (width_radius as f32).powi(2);
+    let h2 = (height_radius as f32).powi(2);
     let mut x = 0;
     let mut y = height_radius;
     let mut px = 0.0;
@@ -150,7 +150,7 @@ where
     }
 
     // Left and right regions.
-    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * (y - 1).pow(2) as f32) - w2 * h2;
+    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * ((y - 1) as f32).powi(2)) - w2 * h2;
     while y > 0 {
         y -= 1;
         py += -2.0 * w2;
-- 
2.43.0


From 849a32cf99bbadc8a9f3ac090037c2c47f4eb0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 39/45] fix: flat ellipses did not reach their left and right
 ends

---
 src/drawing/conics.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index 4a6e486..0331767 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -164,6 +164,13 @@ where
 
         render_func(x0, y0, x, y);
     }
+
+    // A flat ellipse reaches the horizontal axis before its left and right ends.
+    while x < width_radius {
+        x += 1;
+
+        render_func(x0, y0, x, y);
+    }
 }
 
 /// Draws the outline of a circle on an image.
-- 
2.43.0


From 0eaf5096b3b309351144563d8c127bab652146c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 40/45] fix: convex_hull: compute turns in 64 bits, points may
 be more than 46340 apart

---
 src/geometry.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index c904efd..d99aa1f 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -261,7 +261,9 @@ enum Orientation {
 
 /// Determines whether p -> q -> r is a left turn, a right turn, or the points are collinear.
 fn orientation(p: Point<i32>, q: Point<i32>, r: Point<i32>) -> Orientation {
-    let val = (q.y - p.y) * (r.x - q.x) - (q.x - p.x) * (r.y - q.y);
+    let (pq_x, pq_y) = (q.x as i64 - p.x as i64, q.y as i64 - p.y as i64);
+    let (qr_x, qr_y) = (r.x as i64 - q.x as i64, r.y as i64 - q.y as i64);
+    let val = pq_y * qr_x - pq_x * qr_y;
     match val.cmp(&0) {
         Ordering::Equal => Orientation::Collinear,
         Ordering::Greater => Orientation::Clockwise,
-- 
2.43.0


From a8826aa5874286e986151f0d9d6e2215523b1f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 41/45] fix: convex_hull: repeated points made the sort order
 inconsistent and the start point a second corner

---
 src/geometry.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index d99aa1f..a1b3246 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -193,24 +193,18 @@ where
     if points.is_empty() {
         return vec![];
     }
-    let mut start_point_pos = 0;
     let mut start_point = points[0];
-    for (i, &point) in points.iter().enumerate().skip(1) {
+    for &point in points.iter().skip(1) {
         if point.y < start_point.y || point.y == start_point.y && point.x < start_point.x {
-            start_point_pos = i;
             start_point = point;
         }
     }
-    points.swap(0, start_point_pos);
-    points.remove(0);
+    points.retain(|p| *p != start_point);
     points.sort_by(
         |a, b| match orientation(start_point.to_i32(), a.to_i32(), b.to_i32()) {
             Orientation::Collinear => {
-                if distance(start_point, *a) < distance(start_point, *b) {
-                    Ordering::Less
-                } else {
-                    Ordering::Greater
-                }
+                let (a, b) = (distance(start_point, *a), distance(start_point, *b));
+                a.partial_cmp(&b).unwrap()
             }
             Orientation::Clockwise => Ordering::Greater,
             Orientation::CounterClockwise => Ordering::Less,
-- 
2.43.0


From 97a24d388d61b7c8b18fa9786b3affd27e4bfae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 42/45] fix: min_area_rect: consider the edge that closes the
 hull

---
 src/geometry.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a1b3246..e51e1d4 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -120,9 +120,10 @@ where
     T: NumCast + Copy,
 {
     let mut edge_angles: Vec<f64> = points
-        .windows(2)
-        .map(|e| {
-            let edge = e[1].to_f64() - e[0].to_f64();
+        .iter()
+        .zip(points.iter().cycle().skip(1))
+        .map(|(start, end)| {
+            let edge = end.to_f64() - start.to_f64();
             ((edge.y.atan2(edge.x) + PI) % (PI / 2.)).abs()
         })
         .collect();
-- 
2.43.0


From 116400652331d422a1a445ae63167a08bc7471ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 43/45] fix: approximate_polygon_dp: do not split at the last
 point, rounding could make it the farthest

---
 src/geometry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index e51e1d4..cb7910f 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -36,7 +36,7 @@ where
     let mut index = 0;
     let end = curve.len() - 1;
     let line = Line::from_points(curve[0].to_f64(), curve[end].to_f64());
-    for (i, point) in curve.iter().enumerate().skip(1) {
+    for (i, point) in curve.iter().enumerate().take(end).skip(1) {
         let d = line.distance_from_point(point.to_f64());
         if d > dmax {
             index = i;
-- 
2.43.0


From 39e70af4d88124f763d2680072d1878a32491cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 44/45] fix: approximate_polygon_dp: use the distance from the
 point where both ends coincide

---
 src/geometry.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index cb7910f..4d3f9b6 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -35,9 +35,14 @@ where
     let mut dmax = 0.0;
     let mut index = 0;
     let end = curve.len() - 1;
-    let line = Line::from_points(curve[0].to_f64(), curve[end].to_f64());
+    let (first, last) = (curve[0].to_f64(), curve[end].to_f64());
+    let line = Line::from_points(first, last);
     for (i, point) in curve.iter().enumerate().take(end).skip(1) {
-        let d = line.distance_from_point(point.to_f64());
+        let d = if first == last {
+            distance(first, point.to_f64())
+        } else {
+            line.distance_from_point(point.to_f64())
+        };
         if d > dmax {
             index = i;
             dmax = d;
-- 
2.43.0


From c4d509294e23b73719e4f84dbfe24b6cf61b5f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:32 +0000
Subject: [PATCH 45/45] fix: contours: regions touching the left image edge get
 an outer border

---
 src/contours.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/contours.rs b/src/contours.rs
index dcdafb3..0618d31 100644
--- a/src/contours.rs
+++ b/src/contours.rs
@@ -107,16 +107,15 @@ where
             }
 
             if let Some((adj, border_type)) = if image_values[at(x, y)] == 1
-                && x > 0
-                && image_values[at(x - 1, y)] == 0
+                && (x == 0 || image_values[at(x - 1, y)] == 0)
             {
-                Some((Point::new(x - 1, y), BorderType::Outer))
+                Some((Point::new(x as i32 - 1, y as i32), BorderType::Outer))
             } else if image_values[at(x, y)] > 0 && x + 1 < width && image_values[at(x + 1, y)] == 0
             {
                 if image_values[at(x, y)] > 1 {
                     parent_border_num = image_values[at(x, y)] as usize;
                 }
-                Some((Point::new(x + 1, y), BorderType::Hole))
+                Some((Point::new(x as i32 + 1, y as i32), BorderType::Hole))
             } else {
                 None
             } {
@@ -138,7 +137,7 @@ where
 
                 let mut contour_points = Vec::new();
                 let curr = Point::new(x, y);
-                rotate_to_value(&mut diffs, adj.to_i32() - curr.to_i32());
+                rotate_to_value(&mut diffs, adj - curr.to_i32());
 
                 if let Some(pos1) = diffs.iter().find_map(|diff| {
                     get_position_if_non_zero_pixel(&image_values, curr.to_i32() + *diff)
-- 
2.43.0

