@@ include prelude.rs
@@ text
/// a pixel type whose subpixels are u32 and that has as many channels as P  (`ChannelMap<P, u32>`)
pub trait WithU32: Pixel<Subpixel = u8> { type Out: Pixel<Subpixel = u32>; proof fn ax_out() ensures Self::Out::cc() == Self::cc(); }

pub open spec fn val<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, i: int, j: int) -> int {
  let v = im.px(i, j).ch()[c] as int; if sq { v * v } else { v }
}
/// sum of channel c over columns [0, x) of row j
pub open spec fn rsum<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, x: int, j: int) -> int decreases x {
  if x <= 0 { 0 } else { rsum(im, sq, c, x - 1, j) + val(im, sq, c, x - 1, j) }
}
/// sum of channel c over columns [0, x) and rows [0, y)
pub open spec fn isum<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, x: int, y: int) -> int decreases y {
  if y <= 0 { 0 } else { isum(im, sq, c, x, y - 1) + rsum(im, sq, c, x, y - 1) }
}
/// sum of channel c over columns [l, r) of row j, and over the rectangle [l, r) x [t, b)
pub open spec fn rseg<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, l: int, r: int, j: int) -> int decreases r - l {
  if r <= l { 0 } else { rseg(im, sq, c, l, r - 1, j) + val(im, sq, c, r - 1, j) }
}
pub open spec fn rect_sum<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, l: int, t: int, r: int, b: int) -> int decreases b - t {
  if b <= t { 0 } else { rect_sum(im, sq, c, l, t, r, b - 1) + rseg(im, sq, c, l, r, b - 1) }
}
pub proof fn lemma_val<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, i: int, j: int)
  ensures 0 <= val(im, sq, c, i, j) <= 65025
{ let v = im.px(i, j).ch()[c] as int; assert(0 <= v * v <= 65025) by(nonlinear_arith) requires 0 <= v <= 255; }
pub proof fn lemma_rsum_mono<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, x: int, x2: int, j: int)
  requires 0 <= x <= x2
  ensures 0 <= rsum(im, sq, c, x, j) <= rsum(im, sq, c, x2, j)
  decreases x2
{ if x2 > 0 { lemma_val(im, sq, c, x2 - 1, j); if x < x2 { lemma_rsum_mono(im, sq, c, x, x2 - 1, j); } else { lemma_rsum_mono(im, sq, c, x - 1, x2 - 1, j); } } }
pub proof fn lemma_isum_mono<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, x: int, y: int, x2: int, y2: int)
  requires 0 <= x <= x2, 0 <= y <= y2
  ensures 0 <= isum(im, sq, c, x, y) <= isum(im, sq, c, x2, y2)
  decreases y2
{ if y2 > 0 {
    lemma_rsum_mono(im, sq, c, x, x2, y2 - 1);
    if y < y2 { lemma_isum_mono(im, sq, c, x, y, x2, y2 - 1); } else { lemma_isum_mono(im, sq, c, x, y - 1, x2, y2 - 1); }
} }
pub proof fn lemma_rseg<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, l: int, r: int, j: int)
  requires 0 <= l <= r
  ensures rseg(im, sq, c, l, r, j) == rsum(im, sq, c, r, j) - rsum(im, sq, c, l, j)
  decreases r - l
{ if l < r { lemma_rseg(im, sq, c, l, r - 1, j); } }
/// inclusion-exclusion
pub proof fn lemma_rect<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, l: int, t: int, r: int, b: int)
  requires 0 <= l <= r, 0 <= t <= b
  ensures rect_sum(im, sq, c, l, t, r, b) == isum(im, sq, c, r, b) - isum(im, sq, c, r, t) - isum(im, sq, c, l, b) + isum(im, sq, c, l, t)
  decreases b - t
{ if t < b { lemma_rect(im, sq, c, l, t, r, b - 1); lemma_rseg(im, sq, c, l, r, b - 1); } }
pub proof fn lemma_isum0<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, y: int)
  ensures isum(im, sq, c, 0, y) == 0 decreases y
{ if y > 0 { lemma_isum0(im, sq, c, y - 1); } }
/// the totals fit u32
pub open spec fn fits<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool) -> bool {
  forall|c: int| 0 <= c < P::cc() ==> #[trigger] isum(im, sq, c, im.w() as int, im.h() as int) <= u32::MAX
}
pub open spec fn is_integral<P: Pixel<Subpixel = u8>, Q: Pixel<Subpixel = u32>>(im: &Image<P>, sq: bool, out: &Image<Q>) -> bool {
  out.w() == im.w() + 1 && out.h() == im.h() + 1 && Q::cc() == P::cc()
  && forall|x: int, y: int, c: int| 0 <= x <= im.w() && 0 <= y <= im.h() && 0 <= c < P::cc() ==> #[trigger] out.px(x, y).ch()[c] == isum(im, sq, c, x, y)
}
@@ fn integral_image.rs integral_image_impl
@ sigsub <P, T>(image: &Image<P>, square: bool) -> (r: Image<ChannelMap<P, T>>) =>> <P>(image: &Image<P>, square: bool) -> (r: Image<P::Out>)
@ sigsub P: Pixel<Subpixel = u8> + WithChannel<T>, =>> P: WithU32,
@ sigsub T: From<u8> + Primitive + AddAssign, =>>
@ spec
  requires image.w() < u32::MAX, image.h() < u32::MAX, fits(image, square),
  ensures is_integral(image, square, &r),
@ subst
let mut out = Image::new(out_width, out_height);
=>> let mut out: Image<P::Out> = Image::<P::Out>::new(out_width, out_height);
   proof { P::ax_out(); zero_px::<P::Out>().ax_cc(); assert forall|c: int| 0 <= c < P::cc() implies #[trigger] zero_px::<P::Out>().ch()[c] == 0 by { ax_zero_u32::<P::Out>(c); }
     assert forall|x: int, y: int, c: int| 0 <= x < out_width && 0 <= y < out_height && 0 <= c < P::cc() implies #[trigger] out.px(x, y).ch()[c] == 0 by {} 
     assert forall|x: int, y: int, c: int| #![auto] in_width == 0 && 0 <= x <= in_width && 0 <= y <= in_height implies isum(image, square, c, x, y) == 0 by { lemma_isum0(image, square, c, y); } }
@ subst
let zero = T::zero();
=>> let zero = 0u32;
@ subst
sum.iter_mut().for_each(|x| { *x = zero; });
=>> { let end__z = sum.len(); for z__ in 0..end__z
   invariant sum@.len() == P::cc(), end__z == sum@.len(), forall|c: int| 0 <= c < z__ ==> #[trigger] sum@[c] == 0
   { let x = &mut sum[z__]; *x = zero; } }
@ subst
for (s, &c) in sum.iter_mut().zip(input.channels())
=>> let chans__ = input.channels(); let end__z = if sum.len() < chans__.len() { sum.len() } else { chans__.len() };
    for z__ in 0..end__z
  invariant sum@.len() == P::cc(), y < in_height, x < in_width,
    end__z == P::cc(), chans__@ == input.ch(), chans__@.len() == P::cc(),
    forall|c: int| 0 <= c < P::cc() ==> #[trigger] sum@[c] == rsum(image, square, c, if c < z__ { x + 1 } else { x as int }, y as int),
@ subst
let pix: T = c.into();
=>> let c = chans__[z__]; let pix: u32 = c as u32;
   assert(c as int * c as int <= 65025) by(nonlinear_arith) requires c <= 255;
   proof { lemma_rsum_mono(image, square, z__ as int, x as int + 1, in_width as int, y as int);
     lemma_isum_mono(image, square, z__ as int, in_width as int, y as int + 1, in_width as int, in_height as int);
     lemma_isum_mono(image, square, z__ as int, in_width as int, y as int, in_width as int, y as int); }
@ subst
*s += if square { pix * pix } else { pix };
=>> let s = &mut sum[z__]; *s += if square { pix * pix } else { pix };
@ before let current = out.get_pixel_mut
  let ghost before = out;
@ loops 3
@ loop 2
  invariant current.ch().len() == P::cc(), P::Out::cc() == P::cc(), end__2 == P::cc(), sum@.len() == P::cc(), x < in_width, y < in_height, above.ch().len() == P::cc(),
    forall|c: int| 0 <= c < P::cc() ==> #[trigger] sum@[c] == rsum(image, square, c, x + 1, y as int),
    forall|k: int| 0 <= k < P::cc() ==> #[trigger] above.ch()[k] == isum(image, square, k, x + 1, y as int),
    forall|k: int| 0 <= k < c ==> #[trigger] current.ch()[k] == isum(image, square, k, x + 1, y + 1),
@ loop 2 before
  proof { (*current).ax_cc(); above.ax_cc(); }
@ loop 2 begin
  proof { lemma_isum_mono(image, square, c as int, x + 1, y + 1, in_width as int, in_height as int);
    assert(isum(image, square, c as int, x + 1, y + 1) == isum(image, square, c as int, x + 1, y as int) + rsum(image, square, c as int, x + 1, y as int)); }
@ loop 2 after
  assert forall|i: int, j: int, c: int| 0 <= i <= in_width && 0 <= j <= in_height && 0 <= c < P::cc() implies #[trigger] out.px(i, j).ch()[c] == if j <= y || (j == y + 1 && i <= x + 1) { isum(image, square, c, i, j) } else { 0 } by {
     assert(before.px(i, j).ch()[c] == if j <= y || (j == y + 1 && i <= x) { isum(image, square, c, i, j) } else { 0 });
  }
@ loop 0
  invariant P::Out::cc() == P::cc(), sum@.len() == P::cc(), out.w() == in_width + 1, out.h() == in_height + 1,
    forall|i: int, j: int, c: int| 0 <= i <= in_width && 0 <= j <= in_height && 0 <= c < P::cc() ==> #[trigger] out.px(i, j).ch()[c] == if j <= y { isum(image, square, c, i, j) } else { 0 },
@ loop 0 begin
  proof { assert forall|c: int, j: int| j == y + 1 implies #[trigger] isum(image, square, c, 0, j) == 0 by { lemma_isum0(image, square, c, j); } }
@ loop 1
  invariant P::Out::cc() == P::cc(), sum@.len() == P::cc(), out.w() == in_width + 1, out.h() == in_height + 1, 0 <= y < in_height,
    forall|c: int| 0 <= c < P::cc() ==> #[trigger] sum@[c] == rsum(image, square, c, x as int, y as int),
    forall|i: int, j: int, c: int| 0 <= i <= in_width && 0 <= j <= in_height && 0 <= c < P::cc() ==> #[trigger] out.px(i, j).ch()[c] == if j <= y || (j == y + 1 && i <= x) { isum(image, square, c, i, j) } else { 0 },

@@ fn integral_image.rs integral_image
@ sigsub <P, T>(image: &Image<P>) -> (r: Image<ChannelMap<P, T>>) =>> <P>(image: &Image<P>) -> (r: Image<P::Out>)
@ sigsub P: Pixel<Subpixel = u8> + WithChannel<T>, =>> P: WithU32,
@ sigsub T: From<u8> + Primitive + AddAssign, =>>
@ spec
  requires image.w() < u32::MAX, image.h() < u32::MAX, fits(image, false),
  ensures is_integral(image, false, &r),
@@ fn integral_image.rs integral_squared_image
@ sigsub <P, T>(image: &Image<P>) -> (r: Image<ChannelMap<P, T>>) =>> <P>(image: &Image<P>) -> (r: Image<P::Out>)
@ sigsub P: Pixel<Subpixel = u8> + WithChannel<T>, =>> P: WithU32,
@ sigsub T: From<u8> + Primitive + AddAssign, =>>
@ spec
  requires image.w() < u32::MAX, image.h() < u32::MAX, fits(image, true),
  ensures is_integral(image, true, &r),
@@ text
/// ArrayData with T = u32
pub trait ArrayData: Pixel<Subpixel = u32> {
  type DataType;
  spec fn seq(d: Self::DataType) -> Seq<u32>;
  fn data(&self) -> (r: Self::DataType) ensures Self::seq(r) == self.ch(), Self::seq(r).len() == Self::cc();
  fn add(lhs: Self::DataType, other: Self::DataType) -> (r: Self::DataType)
    requires Self::seq(lhs).len() == Self::cc(), Self::seq(other).len() == Self::cc(),
       forall|i: int| 0 <= i < Self::cc() ==> #[trigger] Self::seq(lhs)[i] + Self::seq(other)[i] <= u32::MAX,
    ensures Self::seq(r).len() == Self::cc(), forall|i: int| 0 <= i < Self::cc() ==> #[trigger] Self::seq(r)[i] == Self::seq(lhs)[i] + Self::seq(other)[i];
  fn sub(lhs: Self::DataType, other: Self::DataType) -> (r: Self::DataType)
    requires Self::seq(lhs).len() == Self::cc(), Self::seq(other).len() == Self::cc(),
       forall|i: int| 0 <= i < Self::cc() ==> #[trigger] Self::seq(lhs)[i] >= Self::seq(other)[i],
    ensures Self::seq(r).len() == Self::cc(), forall|i: int| 0 <= i < Self::cc() ==> #[trigger] Self::seq(r)[i] == Self::seq(lhs)[i] - Self::seq(other)[i];
}
@@ text
impl ArrayData for Luma<u32> { type DataType = [u32; 1];
  open spec fn seq(d: [u32; 1]) -> Seq<u32> { d@ }
@@ fn integral_image.rs <Luma<T> as ArrayData>::data
@ hdr
none
@ nopub
@@ fn integral_image.rs <Luma<T> as ArrayData>::add
@ hdr
none
@ nopub
@@ fn integral_image.rs <Luma<T> as ArrayData>::sub
@ hdr
none
@ nopub
@@ text
}
@@ text
impl ArrayData for Rgb<u32> { type DataType = [u32; 3];
  open spec fn seq(d: [u32; 3]) -> Seq<u32> { d@ }
@@ fn integral_image.rs <Rgb<T> as ArrayData>::data
@ hdr
none
@ nopub
@@ fn integral_image.rs <Rgb<T> as ArrayData>::add
@ hdr
none
@ nopub
@@ fn integral_image.rs <Rgb<T> as ArrayData>::sub
@ hdr
none
@ nopub
@@ text
}
@@ text
impl ArrayData for Rgba<u32> { type DataType = [u32; 4];
  open spec fn seq(d: [u32; 4]) -> Seq<u32> { d@ }
@@ fn integral_image.rs <Rgba<T> as ArrayData>::data
@ hdr
none
@ nopub
@@ fn integral_image.rs <Rgba<T> as ArrayData>::add
@ hdr
none
@ nopub
@@ fn integral_image.rs <Rgba<T> as ArrayData>::sub
@ hdr
none
@ nopub
@@ text
}
@@ text
pub open spec fn rect_mono<P: Pixel<Subpixel = u32>>(im: &Image<P>, l: int, t: int, r: int, b: int, c: int) -> bool {
  im.px(r, b).ch()[c] >= im.px(r, t).ch()[c] && im.px(l, b).ch()[c] >= im.px(l, t).ch()[c]
  && im.px(r, b).ch()[c] - im.px(r, t).ch()[c] >= im.px(l, b).ch()[c] - im.px(l, t).ch()[c]
}
@@ fn integral_image.rs sum_image_pixels
@ begin
  proof { assert forall|c: int| 0 <= c < P::cc() implies integral_image.px(left as int, bottom + 1).ch()[c] >= #[trigger] integral_image.px(left as int, top as int).ch()[c] by {
     assert(rect_mono(integral_image, left as int, top as int, right + 1, bottom + 1, c)); } 
   assert forall|c: int| 0 <= c < P::cc() implies #[trigger] integral_image.px(right + 1, bottom + 1).ch()[c] >= integral_image.px(right + 1, top as int).ch()[c] && 
       integral_image.px(right + 1, bottom + 1).ch()[c] - integral_image.px(right + 1, top as int).ch()[c] >= integral_image.px(left as int, bottom + 1).ch()[c] - integral_image.px(left as int, top as int).ch()[c] by {
     assert(rect_mono(integral_image, left as int, top as int, right + 1, bottom + 1, c)); } }
@ sigsub P: Pixel + ArrayData + Copy, =>> P: ArrayData,
@ spec
  requires left <= right, top <= bottom, right < u32::MAX, bottom < u32::MAX, right + 1 < integral_image.w(), bottom + 1 < integral_image.h(),
    // the entries are those of some integral image: monotone differences, as inclusion-exclusion needs
    forall|c: int| 0 <= c < P::cc() ==> #[trigger] rect_mono(integral_image, left as int, top as int, right + 1, bottom + 1, c),
  ensures P::seq(r).len() == P::cc(), forall|c: int| 0 <= c < P::cc() ==> #[trigger] P::seq(r)[c] ==
     integral_image.px(right + 1, bottom + 1).ch()[c] - integral_image.px(right + 1, top as int).ch()[c]
      - integral_image.px(left as int, bottom + 1).ch()[c] + integral_image.px(left as int, top as int).ch()[c],
@@ text
/// the property itself: summing through the integral image gives the rectangle's pixel sum
pub fn c05_rectangle_sum<P: WithU32>(image: &Image<P>, left: u32, top: u32, right: u32, bottom: u32) -> (r: <P::Out as ArrayData>::DataType)
  where P::Out: ArrayData
  requires left <= right < image.w() < u32::MAX, top <= bottom < image.h() < u32::MAX, fits(image, false),
  ensures forall|c: int| 0 <= c < P::cc() ==> #[trigger] P::Out::seq(r)[c] == rect_sum(image, false, c, left as int, top as int, right + 1, bottom + 1)
{
  let integral = integral_image(image);
  proof { assert forall|c: int| 0 <= c < P::cc() implies {
      let a = integral.px(right + 1, bottom + 1).ch()[c]; let b = integral.px(left as int, top as int).ch()[c];
      let cc = integral.px(right + 1, top as int).ch()[c]; let d = integral.px(left as int, bottom + 1).ch()[c];
      #[trigger] rect_mono(&integral, left as int, top as int, right + 1, bottom + 1, c) && rect_sum(image, false, c, left as int, top as int, right + 1, bottom + 1) == a - cc - d + b } by {
    lemma_rect(image, false, c, left as int, top as int, right + 1, bottom + 1);
    lemma_rect_pos(image, false, c, left as int, top as int, right + 1, bottom + 1);
    lemma_isum_mono(image, false, c, left as int, top as int, left as int, bottom + 1);
    lemma_isum_mono(image, false, c, right + 1, top as int, right + 1, bottom + 1);
  } }
  let r = sum_image_pixels(&integral, left, top, right, bottom);
  proof { assert forall|c: int| 0 <= c < P::cc() implies #[trigger] P::Out::seq(r)[c] == rect_sum(image, false, c, left as int, top as int, right + 1, bottom + 1) by {
    assert(rect_mono(&integral, left as int, top as int, right + 1, bottom + 1, c)); } }
  r
}
pub proof fn lemma_rseg_pos<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, l: int, r: int, j: int)
  ensures rseg(im, sq, c, l, r, j) >= 0 decreases r - l
{ if l < r { lemma_rseg_pos(im, sq, c, l, r - 1, j); lemma_val(im, sq, c, r - 1, j); } }
pub proof fn lemma_rect_pos<P: Pixel<Subpixel = u8>>(im: &Image<P>, sq: bool, c: int, l: int, t: int, r: int, b: int)
  ensures rect_sum(im, sq, c, l, t, r, b) >= 0 decreases b - t
{ if t < b { lemma_rect_pos(im, sq, c, l, t, r, b - 1); lemma_rseg_pos(im, sq, c, l, r, b - 1); } }
