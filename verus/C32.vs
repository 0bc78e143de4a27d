@@ include prelude.rs
@@ include ieee.rs
@@ text
/// f32 multiplication; nothing is assumed about it on infinities and NaN
pub uninterp spec fn fmulr(a: FR, b: FR) -> FR;
pub broadcast axiom fn ax_fmulr(a: f32, b: f32, o: f32) requires #[trigger] mul_ensures::<f32>(a, b, o) ensures fr(o) == fmulr(fr(a), fr(b));
pub broadcast axiom fn ax_fmulr_fin(a: real, b: real) ensures #[trigger] fmulr(FR::Fin(a), FR::Fin(b)) == rn(a * b);
pub broadcast axiom fn ax_f3() ensures #[trigger] fr(3f32) == FR::Fin(3real);
pub broadcast axiom fn ax_f5() ensures #[trigger] fr(5f32) == FR::Fin(5real);
pub broadcast group ieee2 { ieee, ax_fmulr, ax_f3, ax_f5 }
#[verifier::external_body]
pub fn minus_half() -> (r: f32) ensures fis(r, -(1real / 2real)) { -0.5 }
/// integer to f32: a function of the integer
pub uninterp spec fn int_f(n: int) -> f32;
pub broadcast axiom fn ax_int_f(n: int) ensures fr(#[trigger] int_f(n)) == rn(n as real);
#[verifier::external_body]
pub fn us_f32(n: usize) -> (r: f32) ensures r == int_f(n as int) { n as f32 }
/// `definitions::Clamp<f32>` (impls checked by C03) and `Into<f32>` of the channel type
pub trait Clamp<K>: Copy { spec fn clamp_(x: FR) -> Self; fn clamp(x: f32) -> (r: Self) ensures r == Self::clamp_(fr(x)); }
pub trait Into<K>: Copy { spec fn into_(self) -> FR; fn into_f32(self) -> (r: f32) ensures fr(r) == self.into_(); }
impl Clamp<f32> for u8 {
  open spec fn clamp_(x: FR) -> u8 { ftoi(x, 0, 255) as u8 }
  #[verifier::external_body] fn clamp(x: f32) -> (r: u8) { unimplemented!() }
}
impl Into<f32> for u8 {
  open spec fn into_(self) -> FR { FR::Fin(self as real) }
  #[verifier::external_body] fn into_f32(self) -> (r: f32) { unimplemented!() }
}
/// Pixel::map2
#[verifier::external_body]
pub fn pmap2<P: Pixel, F: Fn(P::Subpixel, P::Subpixel) -> P::Subpixel>(a: &P, b: &P, f: F) -> (r: P)
  requires forall|u: P::Subpixel, v: P::Subpixel| f.requires((u, v)),
  ensures forall|c: int| 0 <= c < P::cc() ==> f.ensures((a.ch()[c], b.ch()[c]), #[trigger] r.ch()[c])
{ unimplemented!() }
// ---------------------------------------------------------------- interpolation
pub open spec fn fsub(a: FR, b: FR) -> FR { fadd(a, fneg(b)) }
pub open spec fn flerp(u: FR, v: FR, w: FR) -> FR { fadd(u, fmulr(w, fsub(v, u))) }
pub open spec fn mix<S: Into<f32> + Clamp<f32>>(u: S, v: S, w: FR) -> S { S::clamp_(flerp(u.into_(), v.into_(), w)) }
pub open spec fn is_mix<P: Pixel>(r: P, u: P, v: P, w: FR) -> bool where P::Subpixel: Into<f32> + Clamp<f32> {
  forall|c: int| 0 <= c < P::cc() ==> #[trigger] r.ch()[c] == mix(u.ch()[c], v.ch()[c], w) }
pub open spec fn is_blend<P: Pixel>(r: P, tl: P, tr: P, bl: P, br: P, rw: FR, bw: FR) -> bool where P::Subpixel: Into<f32> + Clamp<f32> {
  forall|c: int| 0 <= c < P::cc() ==> #[trigger] r.ch()[c] == mix(mix(tl.ch()[c], tr.ch()[c], rw), mix(bl.ch()[c], br.ch()[c], rw), bw) }
/// Catmull-Rom, evaluated in the order of the formula
pub open spec fn cub(p0: FR, p1: FR, p2: FR, p3: FR, x: FR) -> FR {
  let two = FR::Fin(2real); let three = FR::Fin(3real); let four = FR::Fin(4real); let five = FR::Fin(5real); let half = FR::Fin(1real / 2real);
  let c3 = fsub(fadd(fmulr(three, fsub(p1, p2)), p3), p0);
  let c2 = fadd(fsub(fadd(fsub(fmulr(two, p0), fmulr(five, p1)), fmulr(four, p2)), p3), fmulr(x, c3));
  let c1 = fadd(fsub(p2, p0), fmulr(x, c2));
  fadd(p1, fmulr(fmulr(half, x), c1)) }
pub open spec fn is_cub<P: Pixel>(r: P, p0: P, p1: P, p2: P, p3: P, x: FR) -> bool where P::Subpixel: Into<f32> + Clamp<f32> {
  forall|c: int| 0 <= c < P::cc() ==> #[trigger] r.ch()[c] == <P::Subpixel as Clamp<f32>>::clamp_(cub(p0.ch()[c].into_(), p1.ch()[c].into_(), p2.ch()[c].into_(), p3.ch()[c].into_(), x)) }
pub open spec fn half() -> FR { FR::Fin(1real / 2real) }
pub open spec fn mhalf() -> FR { FR::Fin(-(1real / 2real)) }
/// the pixel whose unit square holds (x, y): index floor(x + 1/2) (rounded sum), the default outside
pub open spec fn nearest<P>(im: &Image<P>, x: FR, y: FR, d: P) -> P {
  if flt(x, mhalf()) || flt(y, mhalf()) { d } else {
    let i = ftoi(fadd(x, half()), 0, u32::MAX as int); let j = ftoi(fadd(y, half()), 0, u32::MAX as int);
    if im.inb(i, j) { im.px(i, j) } else { d } } }
pub open spec fn fl(x: FR) -> int { x->Fin_0.floor() }
/// x is finite and the columns floor(x) - a ..= floor(x) + b lie in 0..n
pub open spec fn fits(x: FR, a: int, b: int, n: int) -> bool { x is Fin && fl(x) - a >= 0 && fl(x) + b < n }
/// the position's distance from the column floor(x)
pub open spec fn frac(x: FR) -> FR { fsub(x, FR::Fin(fl(x) as real)) }
pub open spec fn is_bilinear<P: Pixel>(r: P, im: &Image<P>, x: FR, y: FR, d: P) -> bool where P::Subpixel: Into<f32> + Clamp<f32> {
  if fits(x, 0, 1, im.w() as int) && fits(y, 0, 1, im.h() as int) {
    let (i, j) = (fl(x), fl(y));
    is_blend(r, im.px(i, j), im.px(i + 1, j), im.px(i, j + 1), im.px(i + 1, j + 1), frac(x), frac(y))
  } else { r == d } }
pub open spec fn is_row<P: Pixel>(q: P, im: &Image<P>, i: int, j: int, x: FR) -> bool where P::Subpixel: Into<f32> + Clamp<f32> {
  is_cub(q, im.px(i - 1, j), im.px(i, j), im.px(i + 1, j), im.px(i + 2, j), frac(x)) }
pub open spec fn is_bicubic<P: Pixel>(r: P, im: &Image<P>, x: FR, y: FR, d: P) -> bool where P::Subpixel: Into<f32> + Clamp<f32> {
  if fits(x, 1, 3, im.w() as int) && fits(y, 1, 3, im.h() as int) {
    let (i, j) = (fl(x), fl(y));
    exists|a: P, b: P, c: P, e: P| is_row(a, im, i, j - 1, x) && is_row(b, im, i, j, x) && is_row(c, im, i, j + 1, x) && is_row(e, im, i, j + 2, x)
      && #[trigger] is_cub(r, a, b, c, e, frac(y))
  } else { r == d } }
@@ enum geometric_transformations.rs Interpolation
@ opts
#[derive(Clone, Copy)]
@@ text
pub open spec fn is_sample<P: Pixel>(r: P, im: &Image<P>, k: Interpolation, x: FR, y: FR, d: P) -> bool where P::Subpixel: Into<f32> + Clamp<f32> {
  match k { Interpolation::Nearest => r == nearest(im, x, y, d), Interpolation::Bilinear => is_bilinear(r, im, x, y, d), Interpolation::Bicubic => is_bicubic(r, im, x, y, d) } }
// ---------------------------------------------------------------- range of the bilinear form, 8-bit pixels
pub proof fn lemma_mix(u: u8, v: u8, w: FR) requires w is Fin, 0real <= w->Fin_0 <= 1real
  ensures u <= v ==> u <= mix(u, v, w) <= v, u >= v ==> v <= mix(u, v, w) <= u
{
  broadcast use ax_fmulr_fin;
  let d = v as int - u as int; let t = w->Fin_0; let dr = d as real;
  ax_rn_int(d); ax_rn_int(0); ax_rn_int(u as int); ax_rn_int(v as int);
  assert(v as real - u as real == dr); assert(v as real + (-(u as real)) == dr);
  assert(u as int + d == v as int);
  if d >= 0 { assert(0real <= t * dr <= dr) by(nonlinear_arith) requires 0real <= t <= 1real, dr >= 0real; ax_rn_mono(0real, t * dr); ax_rn_mono(t * dr, dr); }
  else { assert(dr <= t * dr <= 0real) by(nonlinear_arith) requires 0real <= t <= 1real, dr <= 0real; ax_rn_mono(dr, t * dr); ax_rn_mono(t * dr, 0real); }
  let p = rn(t * dr);
  assert(p is Fin);
  let z = u as real + p->Fin_0;
  if d >= 0 { ax_rn_mono(u as real, z); ax_rn_mono(z, v as real); } else { ax_rn_mono(v as real, z); ax_rn_mono(z, u as real); }
  assert(flerp(u.into_(), v.into_(), w) == rn(z)) by { assert(u.into_() == FR::Fin(u as real)); assert(v.into_() == FR::Fin(v as real)); assert(v as real + (-(u as real)) == dr); assert(fsub(v.into_(), u.into_()) == rn(v as real + (-(u as real)))); assert(fsub(v.into_(), u.into_()) == FR::Fin(dr));
    assert(fmulr(FR::Fin(t), FR::Fin(dr)) == p); assert(w == FR::Fin(t)); }
  let q = rn(z);
  assert(q is Fin);
  assert(mix(u, v, w) == ftoi(q, 0, 255) as u8);
}
pub proof fn lemma_frac(x: f32) requires fr(x) is Fin, fv(x).floor() >= 0 ensures frac(fr(x)) is Fin, 0real <= frac(fr(x))->Fin_0 <= 1real
{ let t = fv(x) - fv(x).floor() as real; assert(fv(x) + (-(fv(x).floor() as real)) == t); ax_rn_int(0); ax_rn_int(1); ax_rn_mono(0real, t); ax_rn_mono(t, 1real); }
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max2(a: int, b: int) -> int { if a >= b { a } else { b } }
/// C32: a bilinear sample lies within the range of the four pixels around the position
pub proof fn theorem_range(im: &Image<Luma<u8>>, x: f32, y: f32, d: Luma<u8>, r: Luma<u8>)
  requires is_bilinear(r, im, fr(x), fr(y), d), fits(fr(x), 0, 1, im.w() as int), fits(fr(y), 0, 1, im.h() as int)
  ensures ({ let (i, j) = (fl(fr(x)), fl(fr(y))); let (a, b, c, e) = (im.px(i, j).0@[0] as int, im.px(i + 1, j).0@[0] as int, im.px(i, j + 1).0@[0] as int, im.px(i + 1, j + 1).0@[0] as int);
    min2(min2(a, b), min2(c, e)) <= r.0@[0] <= max2(max2(a, b), max2(c, e)) })
{ lemma_frac(x); lemma_frac(y);
  let (i, j) = (fl(fr(x)), fl(fr(y))); let (a, b, c, e) = (im.px(i, j).0@[0], im.px(i + 1, j).0@[0], im.px(i, j + 1).0@[0], im.px(i + 1, j + 1).0@[0]);
  assert(r.ch()[0] == mix(mix(a, b, frac(fr(x))), mix(c, e, frac(fr(x))), frac(fr(y))));
  lemma_mix(a, b, frac(fr(x))); lemma_mix(c, e, frac(fr(x))); lemma_mix(mix(a, b, frac(fr(x))), mix(c, e, frac(fr(x))), frac(fr(y))); }
/// C32: at integer positions the nearest pixel is the pixel itself
pub proof fn theorem_nearest_int(im: &Image<Luma<u8>>, x: f32, y: f32, i: int, j: int, d: Luma<u8>)
  requires fis(x, i as real), fis(y, j as real), im.inb(i, j), i <= 4194304, j <= 4194304
  ensures nearest(im, fr(x), fr(y), d) == im.px(i, j)
{ assert(i as real + 1real / 2real == (2 * i + 1) as real / 2real); assert(j as real + 1real / 2real == (2 * j + 1) as real / 2real); ax_rn_half(2 * i + 1); ax_rn_half(2 * j + 1); }
@@ fn geometric_transformations.rs lerp
@ spec
  ensures fr(r) == flerp(fr(u), fr(v), fr(weight))
@ begin
  broadcast use ieee2;
@@ fn geometric_transformations.rs blend_bilinear
@ spec
  ensures is_blend(r, top_left, top_right, bottom_left, bottom_right, fr(right_weight), fr(bottom_weight))
@ subst
.into()
=>> .into_f32()
@ subst
top_left.map2(&top_right,
=>> pmap2(&top_left, &top_right,
@ subst
bottom_left.map2(&bottom_right,
=>> pmap2(&bottom_left, &bottom_right,
@ subst
top.map2(&bottom,
=>> pmap2(&top, &bottom,
@ closure 0
|u: P::Subpixel, v: P::Subpixel| -> (q: P::Subpixel) ensures q == mix(u, v, fr(right_weight))
@ closure 1
|u: P::Subpixel, v: P::Subpixel| -> (q: P::Subpixel) ensures q == mix(u, v, fr(right_weight))
@ closure 2
|u: P::Subpixel, v: P::Subpixel| -> (q: P::Subpixel) ensures q == mix(u, v, fr(bottom_weight))
@@ fn geometric_transformations.rs blend_cubic
@ spec
  ensures is_cub(r, *px0, *px1, *px2, *px3, fr(x))
@ begin
  broadcast use ieee2;
@ subst
.into()
=>> .into_f32()
@ loop 0
  invariant forall|c: int| 0 <= c < i ==> #[trigger] outp.ch()[c] == <P::Subpixel as Clamp<f32>>::clamp_(cub(px0.ch()[c].into_(), px1.ch()[c].into_(), px2.ch()[c].into_(), px3.ch()[c].into_(), fr(x)))
@@ fn geometric_transformations.rs interpolate_nearest
@ spec
  ensures r == nearest(image, fr(x), fr(y), default)
@ begin
  broadcast use ieee2;
@ subst
-0.5
=>> minus_half()
@@ text
/// the float test of the support is the exact one
pub proof fn lemma_fits(x: FR, a: int, b: int, l: f32, r: f32, w: u32)
  requires 0 <= a <= 1, 1 <= b <= 3, w <= 16777216, fr(l) == (if a == 0 { ffloor(x) } else { fadd(ffloor(x), FR::Fin(-1real)) }), fr(r) == fadd(fr(l), FR::Fin((a + b) as real))
  ensures fits(x, a, b, w as int) == (fle(FR::Fin(0real), fr(l)) && flt(fr(r), rn(w as real))),
    fits(x, a, b, w as int) ==> fis(l, (fl(x) - a) as real) && fis(r, (fl(x) + b) as real)
{
  ax_rn_int(w as int); ax_rn_val(l); ax_rn_val(r);
  if x is Fin {
    let n = fl(x) - a;
    assert(fl(x) as real + (-1real) == (fl(x) - 1) as real);
    if 0 <= n && n + a + b < w { ax_rn_int(n); ax_rn_int(n + a + b); assert(n as real + (a + b) as real == (n + a + b) as real); }
    else if fle(FR::Fin(0real), fr(l)) && flt(fr(r), rn(w as real)) {
      assert(fr(l) is Fin) by { if fr(l) == FR::PInf { } }
      ax_rn_int(16777216); ax_rn_int(-1);
      if n < 0 { if a == 1 { ax_rn_mono(n as real, -1real); } assert(false); }
      if n > 16777216 { if a == 1 { ax_rn_mono(16777216real, n as real); } ax_rn_mono(fv(l), fv(l) + (a + b) as real); ax_rn_mono(16777216real, fv(l)); assert(false); }
      ax_rn_int(n);
      assert(n as real + (a + b) as real == (n + a + b) as real);
      ax_rn_mono(w as real, (n + a + b) as real);
      assert(false);
    }
  }
}
@@ fn geometric_transformations.rs interpolate_bilinear
@ spec
  requires image.w() <= 16777216, image.h() <= 16777216
  ensures is_bilinear(r, image, fr(x), fr(y), default)
@ begin
  broadcast use ieee2;
@ before let in_bounds
  proof { lemma_fits(fr(x), 0, 1, left, right, width); lemma_fits(fr(y), 0, 1, top, bottom, height); }
@@ fn geometric_transformations.rs interpolate_bicubic
@ spec
  requires image.w() <= 16777216, image.h() <= 16777216
  ensures is_bicubic(r, image, fr(x), fr(y), default)
@ begin
  broadcast use ieee2;
@ subst?
top as usize
=>> f2us(top)
@ before let in_bounds
  proof { assert(0real + 1real == 1real); assert(-(1real) == -1real); lemma_fits(fr(x), 1, 3, left, right, width); lemma_fits(fr(y), 1, 3, top, bottom, height); }
@ loop 0
  invariant start__0 <= row <= end__0, start__0 == fl(fr(y)) - 1, end__0 == start__0 + 4, end__0 <= height, fits(fr(x), 1, 3, width as int), fits(fr(y), 1, 3, height as int),
    fis(left, (fl(fr(x)) - 1) as real), fis(top, (fl(fr(y)) - 1) as real),
    width == image.w(), height == image.h(), fr(x_weight) == frac(fr(x)), fr(y_weight) == frac(fr(y)),
    forall|k: int| 0 <= k < row - start__0 ==> is_row(#[trigger] col@[k], image, fl(fr(x)), start__0 + k, fr(x)),
@@ text
// ---------------------------------------------------------------- warping
/// every output pixel is get_pixel at the mapping of its own coordinates
pub open spec fn is_warp<P: Pixel, Fc: Fn(f32, f32) -> (f32, f32), Fi: Fn(f32, f32) -> P>(out: &Image<P>, mapping: Fc, get_pixel: Fi, x: int, y: int) -> bool {
  exists|q: (f32, f32)| #[trigger] mapping.ensures((int_f(x), int_f(y)), q) && get_pixel.ensures(q, out.px(x, y)) }
/// the output pixel is the interpolated source at the mapping of its own coordinates
pub open spec fn is_warped<P: Pixel, Fc: Fn(f32, f32) -> (f32, f32)>(out: &Image<P>, im: &Image<P>, mapping: Fc, k: Interpolation, d: P, x: int, y: int) -> bool where P::Subpixel: Into<f32> + Clamp<f32> {
  exists|q: (f32, f32)| #[trigger] mapping.ensures((int_f(x), int_f(y)), q) && is_sample(out.px(x, y), im, k, fr(q.0), fr(q.1), d) }
@@ fn geometric_transformations.rs warp_inner
@ sigsub + Send + Sync =>>
@ sigsub Send + Sync =>> Copy
@ spec
  requires forall|a: f32, b: f32| mapping.requires((a, b)), forall|a: f32, b: f32| get_pixel.requires((a, b)),
  ensures final(out).same_dims(old(out)), forall|x: int, y: int| old(out).inb(x, y) ==> #[trigger] is_warp(final(out), mapping, get_pixel, x, y)
@ subst
let raw_out = out.as_mut();
=>>
@ subst
let chunks = raw_out.par_chunks_mut(pitch);
=>>
@ subst
let chunks = raw_out.chunks_mut(pitch);
=>>
@ subst
chunks.enumerate().for_each(|(y, row)| {
        for (x, slice) in row.chunks_mut(P::CHANNEL_COUNT as usize).enumerate() {
=>> assert(pitch == P::cc() * out.w() as int);
  for y in 0..(out.height() as usize)
    invariant out.same_dims(old(out)), width == old(out).w(), forall|i: int, j: int| old(out).inb(i, j) && j < y ==> #[trigger] is_warp(out, mapping, get_pixel, i, j)
  {
    for x in 0..(width as usize)
      invariant y < old(out).h(), out.same_dims(old(out)), width == old(out).w(), forall|i: int, j: int| old(out).inb(i, j) && (j < y || j == y && i < x) ==> #[trigger] is_warp(out, mapping, get_pixel, i, j)
    {
      let ghost o0 = *out;
@ subst
x as f32
=>> us_f32(x)
@ subst
y as f32
=>> us_f32(y)
@ subst
*P::from_slice_mut(slice) = get_pixel(px, py);
        }
    });
=>> let v__ = get_pixel(px, py);
      out.put_pixel(x as u32, y as u32, v__);
      proof { assert(is_warp(out, mapping, get_pixel, x as int, y as int)) by { assert(mapping.ensures((int_f(x as int), int_f(y as int)), (px, py))); assert(get_pixel.ensures((px, py), out.px(x as int, y as int))); }
        assert forall|i: int, j: int| old(out).inb(i, j) && (j < y || j == y && i < x) implies #[trigger] is_warp(out, mapping, get_pixel, i, j) by {
          assert(is_warp(&o0, mapping, get_pixel, i, j)); assert(out.px(i, j) == o0.px(i, j)); } }
    } }
@ before let pitch
  proof { out.px(0, 0).ax_cc(); let c = P::cc() as int; let w = width as int; assert(0 <= c * w <= 4 * 0xffff_ffff) by(nonlinear_arith) requires 0 <= c <= 4, 0 <= w <= 0xffff_ffff; }
@@ fn geometric_transformations.rs warp_into_with
@ sigsub + Send + Sync =>>
@ sigsub Send + Sync =>> Copy
@ spec
  requires image.w() <= 16777216, image.h() <= 16777216, forall|a: f32, b: f32| mapping.requires((a, b)),
  ensures final(out).same_dims(old(out)), forall|x: int, y: int| old(out).inb(x, y) ==> #[trigger] is_warped(final(out), image, mapping, interpolation, default, x, y)
@ begin
  broadcast use ieee2;
@ closure 0
|x: f32, y: f32| -> (q: P) ensures is_sample(q, image, Interpolation::Nearest, fr(x), fr(y), default)
@ closure 1
|x: f32, y: f32| -> (q: P) ensures is_sample(q, image, Interpolation::Bilinear, fr(x), fr(y), default)
@ closure 2
|x: f32, y: f32| -> (q: P) ensures is_sample(q, image, Interpolation::Bicubic, fr(x), fr(y), default)
@ subst
use Interpolation as I;
=>>
@ subst
I::
=>> Interpolation::
@ end
  proof { assert forall|x: int, y: int| old(out).inb(x, y) implies #[trigger] is_warped(out, image, mapping, interpolation, default, x, y) by {
    match interpolation { Interpolation::Nearest => { assert(is_warp(out, mapping, nn, x, y)); }, Interpolation::Bilinear => { assert(is_warp(out, mapping, bl, x, y)); }, Interpolation::Bicubic => { assert(is_warp(out, mapping, bc, x, y)); } } } }
@@ fn geometric_transformations.rs warp_with
@ sigsub + Send + Sync =>>
@ sigsub + Sync + Send =>>
@ sigsub Send + Sync =>> Copy
@ spec
  requires image.w() <= 16777216, image.h() <= 16777216, forall|a: f32, b: f32| mapping.requires((a, b)),
  ensures r.same_dims(image), forall|x: int, y: int| image.inb(x, y) ==> #[trigger] is_warped(&r, image, mapping, interpolation, default, x, y)
@@ text
// ---------------------------------------------------------------- projections
/// f32 operations as functions of their operands (NaN payloads identified)
pub uninterp spec fn add32(a: f32, b: f32) -> f32;
pub uninterp spec fn mul32(a: f32, b: f32) -> f32;
pub uninterp spec fn div32(a: f32, b: f32) -> f32;
pub broadcast axiom fn ax_add32(a: f32, b: f32, o: f32) requires #[trigger] add_ensures::<f32>(a, b, o) ensures o == add32(a, b);
pub broadcast axiom fn ax_mul32(a: f32, b: f32, o: f32) requires #[trigger] mul_ensures::<f32>(a, b, o) ensures o == mul32(a, b);
pub broadcast axiom fn ax_div32(a: f32, b: f32, o: f32) requires #[trigger] div_ensures::<f32>(a, b, o) ensures o == div32(a, b);
pub broadcast group fun32 { ax_add32, ax_mul32, ax_div32, ax_fareq, ax_fmreq, ax_fdreq }
@@ enum geometric_transformations.rs TransformationClass
@ opts
#[derive(Clone, Copy)]
@@ struct geometric_transformations.rs Projection
@ opts
#[derive(Clone, Copy)]
@@ text
/// a row of the matrix applied to (x, y, 1)
pub open spec fn dot(t: Seq<f32>, i: int, x: f32, y: f32) -> f32 { add32(add32(mul32(t[i], x), mul32(t[i + 1], y)), t[i + 2]) }
/// the image of (x, y) under the matrix t of the given class
pub open spec fn apply(t: Seq<f32>, c: TransformationClass, x: f32, y: f32) -> (f32, f32) {
  match c {
    TransformationClass::Translation => (add32(x, t[2]), add32(y, t[5])),
    TransformationClass::Affine => (dot(t, 0, x, y), dot(t, 3, x, y)),
    TransformationClass::Projection => (div32(dot(t, 0, x, y), dot(t, 6, x, y)), div32(dot(t, 3, x, y), dot(t, 6, x, y))) } }
/// the output pixel is the interpolated source at the inverse projection of its coordinates
pub open spec fn is_projected<P: Pixel>(out: &Image<P>, im: &Image<P>, p: &Projection, k: Interpolation, d: P, x: int, y: int) -> bool where P::Subpixel: Into<f32> + Clamp<f32> {
  let q = apply(p.inverse@, p.class, int_f(x), int_f(y)); is_sample(out.px(x, y), im, k, fr(q.0), fr(q.1), d) }
@@ fn geometric_transformations.rs Projection::invert
@ spec
  ensures r.transform@ == self.inverse@, r.inverse@ == self.transform@, r.class == self.class
@@ fn geometric_transformations.rs Projection::map_projective
@ spec
  ensures r == apply(self.transform@, TransformationClass::Projection, x, y)
@ begin
  broadcast use fun32;
@@ fn geometric_transformations.rs Projection::map_affine
@ spec
  ensures r == apply(self.transform@, TransformationClass::Affine, x, y)
@ begin
  broadcast use fun32;
@@ fn geometric_transformations.rs Projection::map_translation
@ spec
  ensures r == apply(self.transform@, TransformationClass::Translation, x, y)
@ begin
  broadcast use fun32;
@@ fn geometric_transformations.rs warp_into
@ sigsub + Send + Sync =>>
@ sigsub Send + Sync =>> Copy
@ sigsub + Sync =>>
@ spec
  requires image.w() <= 16777216, image.h() <= 16777216,
  ensures final(out).same_dims(old(out)), forall|x: int, y: int| old(out).inb(x, y) ==> #[trigger] is_projected(final(out), image, projection, interpolation, default, x, y)
@ closure 0
|x: f32, y: f32| -> (q: P) ensures is_sample(q, image, Interpolation::Nearest, fr(x), fr(y), default)
@ closure 1
|x: f32, y: f32| -> (q: P) ensures is_sample(q, image, Interpolation::Bilinear, fr(x), fr(y), default)
@ closure 2
|x: f32, y: f32| -> (q: P) ensures is_sample(q, image, Interpolation::Bicubic, fr(x), fr(y), default)
@ closure 3
|x: f32, y: f32| -> (q: (f32, f32)) ensures q == apply(projection.transform@, TransformationClass::Projection, x, y)
@ closure 4
|x: f32, y: f32| -> (q: (f32, f32)) ensures q == apply(projection.transform@, TransformationClass::Affine, x, y)
@ closure 5
|x: f32, y: f32| -> (q: (f32, f32)) ensures q == apply(projection.transform@, TransformationClass::Translation, x, y)
@ subst
use Interpolation as I;
    use TransformationClass as TC;
=>>
@ subst
I::
=>> Interpolation::
@ subst
TC::
=>> TransformationClass::
@ end
  proof { assert forall|x: int, y: int| old(out).inb(x, y) implies #[trigger] is_projected(out, image, p0__, interpolation, default, x, y) by {
    match (interpolation, projection.class) {
      (Interpolation::Nearest, TransformationClass::Translation) => { assert(is_warp(out, wt, nn, x, y)); },
      (Interpolation::Nearest, TransformationClass::Affine) => { assert(is_warp(out, wa, nn, x, y)); },
      (Interpolation::Nearest, TransformationClass::Projection) => { assert(is_warp(out, wp, nn, x, y)); },
      (Interpolation::Bilinear, TransformationClass::Translation) => { assert(is_warp(out, wt, bl, x, y)); },
      (Interpolation::Bilinear, TransformationClass::Affine) => { assert(is_warp(out, wa, bl, x, y)); },
      (Interpolation::Bilinear, TransformationClass::Projection) => { assert(is_warp(out, wp, bl, x, y)); },
      (Interpolation::Bicubic, TransformationClass::Translation) => { assert(is_warp(out, wt, bc, x, y)); },
      (Interpolation::Bicubic, TransformationClass::Affine) => { assert(is_warp(out, wa, bc, x, y)); },
      (Interpolation::Bicubic, TransformationClass::Projection) => { assert(is_warp(out, wp, bc, x, y)); },
    } } }
@ begin
  let ghost p0__ = projection;
@@ fn geometric_transformations.rs warp
@ sigsub + Send + Sync =>>
@ sigsub Send + Sync =>> Copy
@ spec
  requires image.w() <= 16777216, image.h() <= 16777216,
  ensures r.same_dims(image), forall|x: int, y: int| image.inb(x, y) ==> #[trigger] is_projected(&r, image, projection, interpolation, default, x, y)
