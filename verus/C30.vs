@@ include prelude.rs
@@ include ieee.rs
@@ text
pub trait Clamp<K>: Copy { fn clamp(x: K) -> Self; }
#[verifier::external_body]
pub fn blend_bilinear<P: Pixel>(top_left: P, top_right: P, bottom_left: P, bottom_right: P, right_weight: f32, bottom_weight: f32) -> P { unimplemented!() }
#[verifier::external_body]
pub fn blend_cubic<P: Pixel>(px0: &P, px1: &P, px2: &P, px3: &P, x: f32) -> P { unimplemented!() }
@@ fn geometric_transformations.rs interpolate_nearest
@ begin
  broadcast use ieee;
@@ fn geometric_transformations.rs interpolate_bilinear
@ begin
  broadcast use ieee;
@ before let (tl
  proof { add_mono(left, 1, right); add_mono(top, 1, bottom); lt_rounded(right, width); lt_rounded(bottom, height); }
@@ fn geometric_transformations.rs interpolate_bicubic
@ spec
  requires image.w() <= 16777216, image.h() <= 16777216
@ begin
  broadcast use ieee;
@ subst?
top as usize
=>> f2us(top)
@ loop 0
  invariant flt(fr(right), rn(width as real)), flt(fr(bottom), rn(height as real)), start__0 <= row <= end__0,
    start__0 == fv(top).floor(), end__0 == start__0 + 4, end__0 <= height, width == image.w(), height == image.h(), fr(left) is Fin, fr(top) is Fin, fv(left) >= 0real,
    fv(left) + 4real < width as real,
@ loop 0 before
  proof { sub_exact(fr(x), left, right, width); sub_exact(fr(y), top, bottom, height); add_exact(left, 4, right, width); add_exact(top, 4, bottom, height); }
