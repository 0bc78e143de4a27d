@@ include C05.vs
@@ enum contrast.rs ThresholdType
@@ text
pub open spec fn thresholded(p: u8, t: u8, k: ThresholdType) -> u8 {
  match k {
    ThresholdType::Binary => if p > t { 255 } else { 0 },
    ThresholdType::BinaryInverted => if p > t { 0 } else { 255 },
    ThresholdType::Truncate => if p > t { t } else { p },
    ThresholdType::ToZero => if p > t { 0 } else { p },
    ThresholdType::ToZeroInverted => if p > t { p } else { 0 },
  }
}
pub open spec fn is_thresholded(o: &GrayImage, t: u8, k: ThresholdType, n: &GrayImage) -> bool {
  n.w() == o.w() && n.h() == o.h()
  && forall|x: int, y: int| n.inb(x, y) ==> #[trigger] n.px(x, y) == luma(thresholded(o.px(x, y).0@[0], t, k))
}
@@ fn contrast.rs threshold_mut
@ spec
  ensures is_thresholded(old(image), threshold, threshold_type, final(image)),
@ opts

@ begin
  let ghost o = *image;
@ end
  proof { assert forall|x: int, y: int| image.inb(x, y) implies #[trigger] image.px(x, y) == luma(thresholded(o.px(x, y).0@[0], threshold, threshold_type)) by {
    lemma_pk(&o, x, y); lemma_pk(image, x, y); } }
@ loop 0
  invariant threshold_type == ThresholdType::Binary, end__0 == o.np(), image.w() == o.w(), image.h() == o.h(),
    forall|i: int| 0 <= i < o.np() ==> (#[trigger] image.pk(i)).0@[0] == if i < k__0 { thresholded(o.pk(i).0@[0], threshold, threshold_type) } else { o.pk(i).0@[0] },
@ loop 1
  invariant threshold_type == ThresholdType::BinaryInverted, end__1 == o.np(), image.w() == o.w(), image.h() == o.h(),
    forall|i: int| 0 <= i < o.np() ==> (#[trigger] image.pk(i)).0@[0] == if i < k__1 { thresholded(o.pk(i).0@[0], threshold, threshold_type) } else { o.pk(i).0@[0] },
@ loop 2
  invariant threshold_type == ThresholdType::Truncate, end__2 == o.np(), image.w() == o.w(), image.h() == o.h(),
    forall|i: int| 0 <= i < o.np() ==> (#[trigger] image.pk(i)).0@[0] == if i < k__2 { thresholded(o.pk(i).0@[0], threshold, threshold_type) } else { o.pk(i).0@[0] },
@ loop 3
  invariant threshold_type == ThresholdType::ToZero, end__3 == o.np(), image.w() == o.w(), image.h() == o.h(),
    forall|i: int| 0 <= i < o.np() ==> (#[trigger] image.pk(i)).0@[0] == if i < k__3 { thresholded(o.pk(i).0@[0], threshold, threshold_type) } else { o.pk(i).0@[0] },
@ loop 4
  invariant threshold_type == ThresholdType::ToZeroInverted, end__4 == o.np(), image.w() == o.w(), image.h() == o.h(),
    forall|i: int| 0 <= i < o.np() ==> (#[trigger] image.pk(i)).0@[0] == if i < k__4 { thresholded(o.pk(i).0@[0], threshold, threshold_type) } else { o.pk(i).0@[0] },
@@ fn contrast.rs threshold
@ as threshold_alloc
@ spec
  ensures is_thresholded(image, threshold, threshold_type, &r),
@@ text
impl WithU32 for Luma<u8> { type Out = Luma<u32>; proof fn ax_out() {} }
impl Luma<u8> {
  /// HasBlack / HasWhite for Luma<u8> (definitions.rs; the constants are read from the real impls by C03's harness)
  pub fn black() -> (r: Self) ensures r == luma(0u8) { Luma([0u8]) }
  pub fn white() -> (r: Self) ensures r == luma(255u8) { Luma([255u8]) }
}
/// window of radius rad around v, clipped to [0, n)
pub open spec fn lo(v: int, rad: int) -> int { if v - rad < 0 { 0 } else { v - rad } }
pub open spec fn hi(v: int, rad: int, n: int) -> int { if v + rad >= n { n - 1 } else { v + rad } }
pub open spec fn win_sum(im: &GrayImage, x: int, y: int, rad: int) -> int
{ rect_sum(im, false, 0, lo(x, rad), lo(y, rad), hi(x, rad, im.w() as int) + 1, hi(y, rad, im.h() as int) + 1) }
pub open spec fn win_n(im: &GrayImage, x: int, y: int, rad: int) -> int
{ (hi(y, rad, im.h() as int) - lo(y, rad) + 1) * (hi(x, rad, im.w() as int) - lo(x, rad) + 1) }
pub open spec fn adaptive(im: &GrayImage, x: int, y: int, rad: int, delta: int) -> bool
{ im.px(x, y).0@[0] >= win_sum(im, x, y, rad) / win_n(im, x, y, rad) - delta }
pub proof fn lemma_rsum_le(im: &GrayImage, x: int, j: int) requires x >= 0 ensures 0 <= rsum(im, false, 0, x, j) <= 255 * x decreases x
{ if x > 0 { lemma_rsum_le(im, x - 1, j); } }
pub proof fn lemma_isum_le(im: &GrayImage, x: int, y: int) requires x >= 0, y >= 0 ensures 0 <= isum(im, false, 0, x, y) <= 255 * x * y decreases y
{ if y > 0 { lemma_isum_le(im, x, y - 1); lemma_rsum_le(im, x, y - 1); assert(255 * x * y == 255 * x * (y - 1) + 255 * x) by(nonlinear_arith); } }
@@ fn contrast.rs adaptive_threshold
@ spec
  requires block_radius > 0, image.w() < u32::MAX, image.h() < u32::MAX, image.np() * 255 <= u32::MAX,
  ensures r.w() == image.w(), r.h() == image.h(),
    forall|x: int, y: int| r.inb(x, y) ==> #[trigger] r.px(x, y) == luma(if adaptive(image, x, y, block_radius as int, delta as int) { 255u8 } else { 0u8 }),
@ subst
integral_image::<_, u32>(image)
=>> { proof { lemma_isum_le(image, image.w() as int, image.h() as int); assert(255 * image.w() * image.h() == 255 * image.np()) by(nonlinear_arith) requires image.np() == image.w() * image.h(); } integral_image(image) }
@ subst
let mean = sum_image_pixels(&integral, x_low, y_low, x_high, y_high)[0] / w;
=>> let s__ = sum_image_pixels(&integral, x_low, y_low, x_high, y_high);
    let mean = s__[0] / w;
    proof { assert(<Luma<u32> as ArrayData>::seq(s__) == s__@); 
     assert(mean == win_sum(image, x as int, y as int, block_radius as int) / win_n(image, x as int, y as int, block_radius as int)); }
@ before let mean = sum_image_pixels
   proof { let l = x_low as int; let t = y_low as int; let r = x_high + 1; let b = y_high + 1;
    assert(rect_mono(&integral, l, t, r, b, 0) && rect_sum(image, false, 0, l, t, r, b) == integral.px(r, b).ch()[0] - integral.px(r, t).ch()[0] - integral.px(l, b).ch()[0] + integral.px(l, t).ch()[0]) by {
      lemma_rect(image, false, 0, l, t, r, b); lemma_rect_pos(image, false, 0, l, t, r, b); lemma_isum_mono(image, false, 0, l, t, l, b); lemma_isum_mono(image, false, 0, r, t, r, b);
      assert(integral.px(r, b).ch()[0] == isum(image, false, 0, r, b)); assert(integral.px(r, t).ch()[0] == isum(image, false, 0, r, t));
      assert(integral.px(l, b).ch()[0] == isum(image, false, 0, l, b)); assert(integral.px(l, t).ch()[0] == isum(image, false, 0, l, t)); }
   }
@ before let w = 
   proof { assert(1 <= (y_high - y_low + 1) * (x_high - x_low + 1) <= image.np()) by(nonlinear_arith) requires 1 <= y_high - y_low + 1 <= image.h(), 1 <= x_high - x_low + 1 <= image.w(), image.np() == image.w() * image.h(); }
@ loop 0
  invariant out.w() == image.w(), out.h() == image.h(), is_integral(image, false, &integral), end__0 == image.h(),
    forall|i: int, j: int| out.inb(i, j) ==> #[trigger] out.px(i, j) == luma(if j < y && adaptive(image, i, j, block_radius as int, delta as int) { 255u8 } else { 0u8 }),
@ loop 1
  invariant out.w() == image.w(), out.h() == image.h(), is_integral(image, false, &integral), end__1 == image.w(), 0 <= y < image.h(),
    forall|i: int, j: int| out.inb(i, j) ==> #[trigger] out.px(i, j) == luma(if (j < y || j == y && i < x) && adaptive(image, i, j, block_radius as int, delta as int) { 255u8 } else { 0u8 }),
