@@ uses C08.vs
@@ include float.rs
@@ text
pub mod kernel { pub use super::*; }
impl Num for i32 { open spec fn zero_() -> i32 { 0 } fn zero() -> (r: i32) { 0 } }
impl Num for i16 { open spec fn zero_() -> i16 { 0 } fn zero() -> (r: i16) { 0 } }
impl Into<i32> for u8 { open spec fn into_(self) -> i32 { self as i32 } fn into(self) -> (r: i32) { self as i32 } }
impl Into<i16> for u8 { open spec fn into_(self) -> i16 { self as i16 } fn into(self) -> (r: i16) { self as i16 } }
pub proof fn ok_i32() ensures num_ok::<i32>() { reveal(num_ok); }
pub proof fn ok_i16() ensures num_ok::<i16>() { reveal(num_ok); }
impl<T: Primitive, U: Primitive> WithChannel<U> for Luma<T> { type Out = Luma<U>; proof fn ax_out() {} }
impl Clamp<i32> for i16 { open spec fn clamp_(x: i32) -> i16 { if x < -32768 { -32768i16 } else if x > 32767 { 32767 } else { x as i16 } }
  #[verifier::external_body] fn clamp(x: i32) -> (r: i16) { unimplemented!() } }
impl Clamp<i16> for i16 { open spec fn clamp_(x: i16) -> i16 { x }
  #[verifier::external_body] fn clamp(x: i16) -> (r: i16) { unimplemented!() } }
impl Clamp<i32> for u8 { open spec fn clamp_(x: i32) -> u8 { if x < 0 { 0 } else if x > 255 { 255 } else { x as u8 } }
  #[verifier::external_body] fn clamp(x: i32) -> (r: u8) { unimplemented!() } }
pub open spec fn is3<K: Num>(k: Kernel<K>, d: Seq<K>) -> bool { k.wf() && k.width == 3 && k.height == 3 && k.data@ == d }
pub open spec fn is3w<K: Num>(k: Kernel<K>, d: Seq<K>) -> bool { k.wf() && k.width == 3 && k.height == 3 && k.data@ =~= d }
/// sums of a kernel with entries of at most b in magnitude stay within 255 * b * (number of terms)
pub proof fn corr_i32<P: Pixel<Subpixel = u8>>(im: &Image<P>, k: Seq<i32>, kw: int, kh: int, b: int, c: int, x: int, y: int, n: int)
  requires 0 <= n <= k.len(), k.len() * 255 * b <= i32::MAX, 0 <= b, forall|j: int| 0 <= j < k.len() ==> -b <= #[trigger] k[j] <= b
  ensures -(n * 255 * b) <= corr(im, k, kw, kh, c, x, y, n) <= n * 255 * b, n < k.len() ==> -(255 * b) <= term(im, k, kw, kh, c, x, y, n) <= 255 * b
    && step_ok(im, k, kw, kh, c, x, y, n),
  decreases n
{
  if n > 0 { corr_i32(im, k, kw, kh, b, c, x, y, n - 1); }
  assert(((n - 1) * 255 * b) + 255 * b == n * 255 * b && ((n + 1) * 255 * b) == n * 255 * b + 255 * b) by(nonlinear_arith);
  assert(n < k.len() ==> (n + 1) * 255 * b <= k.len() * 255 * b) by(nonlinear_arith) requires 0 <= b, n <= k.len();
  assert(n * 255 * b <= k.len() * 255 * b) by(nonlinear_arith) requires 0 <= b, n <= k.len();
  if n < k.len() {
    let s = samp(im, c, x + n % kw - kw / 2, y + n / kw - kh / 2);
    assert(-(255 * b) <= s * k[n] <= 255 * b) by(nonlinear_arith) requires 0 <= s <= 255, -b <= k[n] <= b, 0 <= b;
    assert(255 * b <= i32::MAX) by(nonlinear_arith) requires (n + 1) * 255 * b <= i32::MAX, 0 <= n, 0 <= b;
  }
}
pub proof fn fits_i32<P: Pixel<Subpixel = u8>>(im: &Image<P>, k: Seq<i32>, kw: int, kh: int, b: int)
  requires k.len() * 255 * b <= i32::MAX, 0 <= b, forall|j: int| 0 <= j < k.len() ==> -b <= #[trigger] k[j] <= b
  ensures fits(im, k, kw, kh)
{ assert forall|c: int, x: int, y: int, j: int| 0 <= c < P::cc() && im.inb(x, y) && 0 <= j < k.len() implies #[trigger] step_ok(im, k, kw, kh, c, x, y, j) by { corr_i32(im, k, kw, kh, b, c, x, y, j); }
  lemma_fits(im, k, kw, kh); }
/// sums of a kernel with entries of at most b in magnitude stay within 255 * b * (number of terms)
pub proof fn corr_i16<P: Pixel<Subpixel = u8>>(im: &Image<P>, k: Seq<i16>, kw: int, kh: int, b: int, c: int, x: int, y: int, n: int)
  requires 0 <= n <= k.len(), k.len() * 255 * b <= i16::MAX, 0 <= b, forall|j: int| 0 <= j < k.len() ==> -b <= #[trigger] k[j] <= b
  ensures -(n * 255 * b) <= corr(im, k, kw, kh, c, x, y, n) <= n * 255 * b, n < k.len() ==> -(255 * b) <= term(im, k, kw, kh, c, x, y, n) <= 255 * b
    && step_ok(im, k, kw, kh, c, x, y, n),
  decreases n
{
  if n > 0 { corr_i16(im, k, kw, kh, b, c, x, y, n - 1); }
  assert(((n - 1) * 255 * b) + 255 * b == n * 255 * b && ((n + 1) * 255 * b) == n * 255 * b + 255 * b) by(nonlinear_arith);
  assert(n < k.len() ==> (n + 1) * 255 * b <= k.len() * 255 * b) by(nonlinear_arith) requires 0 <= b, n <= k.len();
  assert(n * 255 * b <= k.len() * 255 * b) by(nonlinear_arith) requires 0 <= b, n <= k.len();
  if n < k.len() {
    let s = samp(im, c, x + n % kw - kw / 2, y + n / kw - kh / 2);
    assert(-(255 * b) <= s * k[n] <= 255 * b) by(nonlinear_arith) requires 0 <= s <= 255, -b <= k[n] <= b, 0 <= b;
    assert(255 * b <= i16::MAX) by(nonlinear_arith) requires (n + 1) * 255 * b <= i16::MAX, 0 <= n, 0 <= b;
  }
}
pub proof fn fits_i16<P: Pixel<Subpixel = u8>>(im: &Image<P>, k: Seq<i16>, kw: int, kh: int, b: int)
  requires k.len() * 255 * b <= i16::MAX, 0 <= b, forall|j: int| 0 <= j < k.len() ==> -b <= #[trigger] k[j] <= b
  ensures fits(im, k, kw, kh)
{ assert forall|c: int, x: int, y: int, j: int| 0 <= c < P::cc() && im.inb(x, y) && 0 <= j < k.len() implies #[trigger] step_ok(im, k, kw, kh, c, x, y, j) by { corr_i16(im, k, kw, kh, b, c, x, y, j); }
  lemma_fits(im, k, kw, kh); }
@@ text
pub open spec fn k_sobel_horizontal_3x3() -> Seq<i32> { seq![-1i32, 0i32, 1i32, -2i32, 0i32, 2i32, -1i32, 0i32, 1i32] }
@@ const kernel.rs SOBEL_HORIZONTAL_3X3
@ spec
  ensures is3(SOBEL_HORIZONTAL_3X3, k_sobel_horizontal_3x3()),
@@ text
pub open spec fn k_sobel_vertical_3x3() -> Seq<i32> { seq![-1i32, -2i32, -1i32, 0i32, 0i32, 0i32, 1i32, 2i32, 1i32] }
@@ const kernel.rs SOBEL_VERTICAL_3X3
@ spec
  ensures is3(SOBEL_VERTICAL_3X3, k_sobel_vertical_3x3()),
@@ text
pub open spec fn k_scharr_horizontal_3x3() -> Seq<i32> { seq![-3i32, 0i32, 3i32, -10i32, 0i32, 10i32, -3i32, 0i32, 3i32] }
@@ const kernel.rs SCHARR_HORIZONTAL_3X3
@ spec
  ensures is3(SCHARR_HORIZONTAL_3X3, k_scharr_horizontal_3x3()),
@@ text
pub open spec fn k_scharr_vertical_3x3() -> Seq<i32> { seq![-3i32, -10i32, -3i32, 0i32, 0i32, 0i32, 3i32, 10i32, 3i32] }
@@ const kernel.rs SCHARR_VERTICAL_3X3
@ spec
  ensures is3(SCHARR_VERTICAL_3X3, k_scharr_vertical_3x3()),
@@ text
pub open spec fn k_prewitt_horizontal_3x3() -> Seq<i32> { seq![-1i32, 0i32, 1i32, -1i32, 0i32, 1i32, -1i32, 0i32, 1i32] }
@@ const kernel.rs PREWITT_HORIZONTAL_3X3
@ spec
  ensures is3(PREWITT_HORIZONTAL_3X3, k_prewitt_horizontal_3x3()),
@@ text
pub open spec fn k_prewitt_vertical_3x3() -> Seq<i32> { seq![-1i32, -1i32, -1i32, 0i32, 0i32, 0i32, 1i32, 1i32, 1i32] }
@@ const kernel.rs PREWITT_VERTICAL_3X3
@ spec
  ensures is3(PREWITT_VERTICAL_3X3, k_prewitt_vertical_3x3()),
@@ text
pub open spec fn k_four_laplacian_3x3() -> Seq<i16> { seq![0i16, 1i16, 0i16, 1i16, -4i16, 1i16, 0i16, 1i16, 0i16] }
@@ const kernel.rs FOUR_LAPLACIAN_3X3
@ spec
  ensures is3(FOUR_LAPLACIAN_3X3, k_four_laplacian_3x3()),
@@ fn gradients.rs horizontal_sobel
@ spec
  ensures clamped_to(image, k_sobel_horizontal_3x3(), 3, 3, &r),
@ begin
  proof { ok_i32(); fits_i32(image, k_sobel_horizontal_3x3(), 3, 3, 10); }
@@ fn gradients.rs vertical_sobel
@ spec
  ensures clamped_to(image, k_sobel_vertical_3x3(), 3, 3, &r),
@ begin
  proof { ok_i32(); fits_i32(image, k_sobel_vertical_3x3(), 3, 3, 10); }
@@ fn gradients.rs horizontal_scharr
@ spec
  ensures clamped_to(image, k_scharr_horizontal_3x3(), 3, 3, &r),
@ begin
  proof { ok_i32(); fits_i32(image, k_scharr_horizontal_3x3(), 3, 3, 10); }
@@ fn gradients.rs vertical_scharr
@ spec
  ensures clamped_to(image, k_scharr_vertical_3x3(), 3, 3, &r),
@ begin
  proof { ok_i32(); fits_i32(image, k_scharr_vertical_3x3(), 3, 3, 10); }
@@ fn gradients.rs horizontal_prewitt
@ spec
  ensures clamped_to(image, k_prewitt_horizontal_3x3(), 3, 3, &r),
@ begin
  proof { ok_i32(); fits_i32(image, k_prewitt_horizontal_3x3(), 3, 3, 10); }
@@ fn gradients.rs vertical_prewitt
@ spec
  ensures clamped_to(image, k_prewitt_vertical_3x3(), 3, 3, &r),
@ begin
  proof { ok_i32(); fits_i32(image, k_prewitt_vertical_3x3(), 3, 3, 10); }
@@ fn filter/mod.rs laplacian_filter
@ spec
  ensures clamped_to(image, k_four_laplacian_3x3(), 3, 3, &r),
@ begin
  proof { ok_i16(); fits_i16(image, k_four_laplacian_3x3(), 3, 3, 4); }
@@ text
pub open spec fn k_sharpen() -> Seq<i32> { seq![0i32, -1i32, 0i32, -1i32, 5i32, -1i32, 0i32, -1i32, 0i32] }
@@ fn filter/sharpen.rs sharpen3x3
@ spec
  ensures clamped_to(image, k_sharpen(), 3, 3, &r),
@ tail
  proof { ok_i32(); fits_i32(image, k_sharpen(), 3, 3, 5); assert(identity_minus_laplacian.data@ =~= k_sharpen()); }
@@ text
pub trait HasBlack: Sized { fn black() -> (r: Self); }
impl<T: Primitive> HasBlack for Luma<T> { #[verifier::external_body] fn black() -> (r: Self) { unimplemented!() } }
/// the integer gradient magnitude (below 2^24, where f32 is exact)
pub open spec fn mag(h: int, v: int, o: u16) -> bool { h * h + v * v < 16777216 ==> o * o <= h * h + v * v < (o + 1) * (o + 1) }
pub open spec fn clamp16(v: i32) -> i16 { <i16 as Clamp<i32>>::clamp_(v) }
/// a kernel's contents
#[verifier::ext_equal]
pub ghost struct Kd { pub data: Seq<i32>, pub w: int, pub h: int }
pub open spec fn kd(k: Kernel<i32>) -> Kd { Kd { data: k.data@, w: k.width as int, h: k.height as int } }
pub open spec fn kd3(d: Seq<i32>) -> Kd { Kd { data: d, w: 3, h: 3 } }
/// p holds in every channel the magnitude of the clamped horizontal and vertical correlations there
pub open spec fn mag_px<P: Pixel<Subpixel = u8>, Q: Pixel<Subpixel = u16>>(im: &Image<P>, hk: Kd, vk: Kd, x: int, y: int, p: Q) -> bool {
  forall|c: int| 0 <= c < P::cc() ==> mag(clamp16(corr(im, hk.data, hk.w, hk.h, c, x, y, hk.data.len() as int)) as int,
    clamp16(corr(im, vk.data, vk.w, vk.h, c, x, y, vk.data.len() as int)) as int, #[trigger] p.ch()[c])
}
pub open spec fn grad_px<P: Pixel<Subpixel = u8> + WithChannel<u16>, Q, F: Fn(<P as WithChannel<u16>>::Out) -> Q>(im: &Image<P>, hk: Kd, vk: Kd, f: F, x: int, y: int, q: Q) -> bool {
  exists|p: <P as WithChannel<u16>>::Out| mag_px(im, hk, vk, x, y, p) && #[trigger] f.ensures((p,), q)
}
pub open spec fn grads<P: Pixel<Subpixel = u8> + WithChannel<u16>, Q: Pixel, F: Fn(<P as WithChannel<u16>>::Out) -> Q>(im: &Image<P>, hk: Kd, vk: Kd, f: F, r: &Image<Q>) -> bool {
  r.w() == im.w() && r.h() == im.h() && forall|x: int, y: int| r.inb(x, y) ==> #[trigger] grad_px(im, hk, vk, f, x, y, r.px(x, y))
}
@@ fn gradients.rs gradient_magnitude
@ spec
  ensures rep(dx) is Some && rep(dy) is Some ==> mag(rep(dx)->0, rep(dy)->0, r),
@ begin
  broadcast use f32_ops, ax_isqrt;
  proof { let a = rep(dx)->0; let b = rep(dy)->0; assert(a * a >= 0 && b * b >= 0) by(nonlinear_arith); }
@@ fn gradients.rs gradients
@ sigsub ChannelMap<P, u16>: HasBlack =>> <P as WithChannel<u16>>::Out: HasBlack
@ sigsub Fn(ChannelMap<P, u16>) =>> Fn(<P as WithChannel<u16>>::Out)
@ spec
  requires horizontal_kernel.wf(), vertical_kernel.wf(), fits(image, horizontal_kernel.data@, horizontal_kernel.width as int, horizontal_kernel.height as int),
    fits(image, vertical_kernel.data@, vertical_kernel.width as int, vertical_kernel.height as int), forall|p: <P as WithChannel<u16>>::Out| #[trigger] f.requires((p,)),
  ensures grads(image, kd(horizontal_kernel), kd(vertical_kernel), f, &r),
@ begin
  broadcast use ax_f32_i16;
  proof { ok_i32(); <P as WithChannel<u16>>::ax_out(); <P as WithChannel<i16>>::ax_out(); }
  let ghost hk = kd(horizontal_kernel); let ghost vk = kd(vertical_kernel);
@ subst
ChannelMap::<P, u16>::black()
=>> <<P as WithChannel<u16>>::Out as HasBlack>::black()
@ subst
for (h, v, p) in multizip((h.channels(), v.channels(), p.channels_mut())) {
=>> let ghost p1 = p; proof { p1.ax_cc(); h.ax_cc(); v.ax_cc(); }
  let hc__ = h.channels(); let vc__ = v.channels(); let pc__ = p.channels_mut(); let n__ = pc__.len();
  let mut c__ = 0usize;
  while c__ < n__
    invariant c__ <= n__, n__ == P::cc(), hc__@.len() == n__, vc__@.len() == n__, pc__@.len() == n__, hc__@ == h.ch(), vc__@ == v.ch(),
      forall|c: int| 0 <= c < c__ ==> mag(h.ch()[c] as int, v.ch()[c] as int, #[trigger] pc__@[c]),
    decreases n__ - c__
  { let h = &hc__[c__]; let v = &vc__[c__]; let p = &mut pc__[c__]; c__ += 1;
@ loop 0
  invariant out.same_dims(image), width == image.w(), height == image.h(),
    forall|i: int, j: int| 0 <= i < width && 0 <= j < y ==> #[trigger] grad_px(image, hk, vk, f, i, j, out.px(i, j)),
@ loop 1
  invariant out.same_dims(image), width == image.w(), height == image.h(), 0 <= y < height,
    forall|i: int, j: int| 0 <= i < width && 0 <= j < height && (j < y || j == y && i < x) ==> #[trigger] grad_px(image, hk, vk, f, i, j, out.px(i, j)),
@ loop 1 begin
  let ghost out0 = out;
@@ text
/// every sample is the magnitude there
pub open spec fn mags(im: &GrayImage, hk: Kd, vk: Kd, r: &Image<Luma<u16>>) -> bool {
  r.w() == im.w() && r.h() == im.h() && forall|x: int, y: int| r.inb(x, y) ==> #[trigger] mag_px(im, hk, vk, x, y, r.px(x, y))
}
/// `gradients` with a function that keeps the magnitude
pub fn grads_id<F: Fn(Luma<u16>) -> Luma<u16>>(image: &GrayImage, horizontal_kernel: Kernel<i32>, vertical_kernel: Kernel<i32>, f: F) -> (r: Image<Luma<u16>>)
  requires horizontal_kernel.wf(), vertical_kernel.wf(), fits(image, horizontal_kernel.data@, horizontal_kernel.width as int, horizontal_kernel.height as int),
    fits(image, vertical_kernel.data@, vertical_kernel.width as int, vertical_kernel.height as int), forall|p: Luma<u16>| #[trigger] f.requires((p,)),
    forall|p: Luma<u16>, q: Luma<u16>| #[trigger] f.ensures((p,), q) ==> q == p,
  ensures mags(image, kd(horizontal_kernel), kd(vertical_kernel), &r),
{ let r: Image<Luma<u16>> = gradients(image, horizontal_kernel, vertical_kernel, f);
  proof { assert forall|x: int, y: int| r.inb(x, y) implies #[trigger] mag_px(image, kd(horizontal_kernel), kd(vertical_kernel), x, y, r.px(x, y)) by {
    assert(grad_px(image, kd(horizontal_kernel), kd(vertical_kernel), f, x, y, r.px(x, y))); } }
  r }
@@ fn gradients.rs gradients_grayscale
@ spec
  requires horizontal_kernel.wf(), vertical_kernel.wf(), fits(image, horizontal_kernel.data@, horizontal_kernel.width as int, horizontal_kernel.height as int),
    fits(image, vertical_kernel.data@, vertical_kernel.width as int, vertical_kernel.height as int),
  ensures mags(image, kd(horizontal_kernel), kd(vertical_kernel), &r),
@ closure 0
|p: Luma<u16>| -> (r: Luma<u16>) ensures r == p
@ subst
gradients(
=>> grads_id(
@@ fn gradients.rs sobel_gradients
@ spec
  ensures mags(image, kd3(k_sobel_horizontal_3x3()), kd3(k_sobel_vertical_3x3()), &r),
@ begin
  proof { fits_i32(image, k_sobel_horizontal_3x3(), 3, 3, 10); fits_i32(image, k_sobel_vertical_3x3(), 3, 3, 10); }
@@ fn gradients.rs prewitt_gradients
@ spec
  ensures mags(image, kd3(k_prewitt_horizontal_3x3()), kd3(k_prewitt_vertical_3x3()), &r),
@ begin
  proof { fits_i32(image, k_prewitt_horizontal_3x3(), 3, 3, 10); fits_i32(image, k_prewitt_vertical_3x3(), 3, 3, 10); }
@@ fn gradients.rs sobel_gradient_map
@ sigsub ChannelMap<P, u16>: HasBlack =>> <P as WithChannel<u16>>::Out: HasBlack
@ sigsub Fn(ChannelMap<P, u16>) =>> Fn(<P as WithChannel<u16>>::Out)
@ spec
  requires forall|p: <P as WithChannel<u16>>::Out| #[trigger] f.requires((p,)),
  ensures grads(image, kd3(k_sobel_horizontal_3x3()), kd3(k_sobel_vertical_3x3()), f, &r),
@ begin
  proof { fits_i32(image, k_sobel_horizontal_3x3(), 3, 3, 10); fits_i32(image, k_sobel_vertical_3x3(), 3, 3, 10); }
