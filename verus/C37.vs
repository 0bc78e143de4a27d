@@ include prelude.rs
@@ text
// f32 operations as deterministic functions (NaN payloads identified); nothing else is assumed about them here
pub uninterp spec fn fadd(a: f32, b: f32) -> f32;
pub uninterp spec fn fmul(a: f32, b: f32) -> f32;
pub uninterp spec fn fdiv(a: f32, b: f32) -> f32;
pub uninterp spec fn fexp(a: f32) -> f32;
pub uninterp spec fn fpow(a: f32, n: i32) -> f32;
pub uninterp spec fn f_i16(v: i16) -> f32;
pub uninterp spec fn f_of<S>(v: S) -> f32;
pub uninterp spec fn of_f<S>(x: f32) -> S;
pub uninterp spec fn mhalf() -> f32;
pub broadcast axiom fn ax_areq(a: f32, b: f32) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_mreq(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_dreq(a: f32, b: f32) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_add(a: f32, b: f32, o: f32) requires #[trigger] add_ensures::<f32>(a, b, o) ensures o == fadd(a, b);
pub broadcast axiom fn ax_mul(a: f32, b: f32, o: f32) requires #[trigger] mul_ensures::<f32>(a, b, o) ensures o == fmul(a, b);
pub broadcast axiom fn ax_div(a: f32, b: f32, o: f32) requires #[trigger] div_ensures::<f32>(a, b, o) ensures o == fdiv(a, b);
pub broadcast group fops { ax_areq, ax_mreq, ax_dreq, ax_add, ax_mul, ax_div }
pub assume_specification[ f32::powi ](x: f32, n: i32) -> (r: f32) ensures r == fpow(x, n);
pub assume_specification[ f32::exp ](x: f32) -> (r: f32) ensures r == fexp(x);
#[verifier::external_body]
pub fn minus_half() -> (r: f32) ensures r == mhalf() { -0.5 }
/// `f32::from` and `AsPrimitive::as_` of the pixel's channel type
#[verifier::external_body]
pub fn chan_f32<S: Copy>(v: S) -> (r: f32) ensures r == f_of(v) { unimplemented!() }
#[verifier::external_body]
pub fn f32_chan<S: Copy>(x: f32) -> (r: S) ensures r == of_f::<S>(x) { unimplemented!() }
#[verifier::external_body]
pub fn i16_f32(v: i16) -> (r: f32) ensures r == f_i16(v) { f32::from(v) }
pub fn i16_i32(v: i16) -> (r: i32) ensures r == v { v as i32 }
/// Pixel::from_slice: panics on a wrong length
#[verifier::external_body]
pub fn pixel_from_slice<P: Pixel>(s: &Vec<P::Subpixel>) -> (r: P) requires s@.len() == P::cc() ensures r.ch() == s@ { unimplemented!() }
pub trait ColorDistance<P: Pixel> { spec fn cd(&self, a: P, b: P) -> f32;
  fn color_distance(&self, pixel1: &P, pixel2: &P) -> (r: f32) ensures r == self.cd(*pixel1, *pixel2); }
pub open spec fn gw(x: f32, s: f32) -> f32 { fexp(fdiv(fmul(mhalf(), x), s)) }
/// the weight of the offset (dx, dy)
pub open spec fn sw(sigma: f32, dx: int, dy: int) -> f32 { gw(fadd(fpow(f_i16(dx as i16), 2), fpow(f_i16(dy as i16), 2)), fpow(sigma, 2)) }
pub open spec fn cl(v: int, n: int) -> int { if v < 0 { 0 } else if v > n - 1 { n - 1 } else { v } }
/// the i-th (weight, pixel) of the window around (x, y), row by row, positions clamped to the image
pub open spec fn entry<P: Pixel, C: ColorDistance<P>>(im: &Image<P>, c: &C, rad: int, sigma: f32, x: int, y: int, i: int) -> (f32, P) {
  let n = 2 * rad + 1; let dy = i / n - rad; let dx = i % n - rad;
  let v = im.px(cl(x + dx, im.w() as int), cl(y + dy, im.h() as int));
  (fmul(sw(sigma, dx, dy), c.cd(im.px(x, y), v)), v) }
pub open spec fn window<P: Pixel, C: ColorDistance<P>>(im: &Image<P>, c: &C, rad: int, sigma: f32, x: int, y: int) -> Seq<(f32, P)> {
  Seq::new(((2 * rad + 1) * (2 * rad + 1)) as nat, |i: int| entry(im, c, rad, sigma, x, y, i)) }
pub open spec fn wsum<P: Pixel>(s: Seq<(f32, P)>, n: int) -> f32 decreases n { if n <= 1 { s[0].0 } else { fadd(wsum(s, n - 1), s[n - 1].0) } }
pub open spec fn term<P: Pixel>(e: (f32, P), c: int) -> f32 { fmul(e.0, f_of(e.1.ch()[c])) }
pub open spec fn csum<P: Pixel>(s: Seq<(f32, P)>, c: int, n: int) -> f32 decreases n { if n <= 1 { term(s[0], c) } else { fadd(csum(s, c, n - 1), term(s[n - 1], c)) } }
/// every channel is (sum of weight * value) / (sum of weights)
pub open spec fn is_mean<P: Pixel>(r: P, s: Seq<(f32, P)>) -> bool {
  forall|c: int| 0 <= c < P::cc() ==> #[trigger] r.ch()[c] == of_f::<P::Subpixel>(fdiv(csum(s, c, s.len() as int), wsum(s, s.len() as int))) }
/// the table of weights of the offsets, row by row
pub open spec fn spatial(t: Seq<f32>, rad: int, sigma: f32) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == sw(sigma, i % (2 * rad + 1) - rad, i / (2 * rad + 1) - rad) }
pub proof fn lemma_index(rad: int, dx: int, dy: int) requires rad >= 0, -rad <= dx <= rad, -rad <= dy
  ensures ((2 * rad + 1) * (dy + rad) + dx + rad) % (2 * rad + 1) == dx + rad, ((2 * rad + 1) * (dy + rad) + dx + rad) / (2 * rad + 1) == dy + rad
{ let n = 2 * rad + 1; assert(n * (dy + rad) + dx + rad == (dy + rad) * n + (dx + rad)) by(nonlinear_arith);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse((dy + rad) * n + (dx + rad), n, dy + rad, dx + rad); }
pub proof fn lemma_bound(rad: int, dx: int, dy: int) requires 0 <= rad <= 255, -rad <= dx <= rad, -rad <= dy <= rad
  ensures 0 <= (2 * rad + 1) * (dy + rad) <= 511 * 510, (2 * rad + 1) * (dy + rad) + dx + rad < (2 * rad + 1) * (2 * rad + 1)
{ assert(0 <= (2 * rad + 1) * (dy + rad) <= 511 * 510) by(nonlinear_arith) requires 0 <= rad <= 255, -rad <= dy <= rad;
  assert((2 * rad + 1) * (dy + rad) <= (2 * rad + 1) * (2 * rad)) by(nonlinear_arith) requires 0 <= rad <= 255, -rad <= dy <= rad;
  assert((2 * rad + 1) * (2 * rad) + 2 * rad + 1 == (2 * rad + 1) * (2 * rad + 1)) by(nonlinear_arith); }
@@ fn filter/bilateral.rs gaussian_weight
@ spec
  ensures r == gw(x_squared, sigma_squared)
@ begin
  broadcast use fops;
@ subst
-0.5
=>> minus_half()
@@ fn filter/bilateral.rs weighted_average
@ sigsub impl Iterator<Item = (f32, P)> =>> Vec<(f32, P)>
@ sigsub <P as image::Pixel>::Subpixel: 'static, =>>
@ sigsub f32: From<P::Subpixel> + AsPrimitive<P::Subpixel>, =>>
@ spec
  requires weights_and_values@.len() >= 1
  ensures is_mean(r, weights_and_values@)
@ begin
  broadcast use fops;
@ subst
weights_and_values
        .map(|(w, v)| {
            (
                w,
                v.channels().iter().map(|s| w * f32::from(*s)).collect_vec(),
            )
        })
        .reduce(|(w1, channels1), (w2, channels2)| {
=>> { let mut acc__: Option<(f32, Vec<f32>)> = None;
  for i__ in 0..weights_and_values.len()
    invariant i__ == 0 ==> acc__ is None, i__ > 0 ==> acc__ is Some && (acc__->0).0 == wsum(weights_and_values@, i__ as int) && (acc__->0).1@.len() == P::cc() && forall|c: int| 0 <= c < P::cc() ==> #[trigger] (acc__->0).1@[c] == csum(weights_and_values@, c, i__ as int)
  { let (w, v) = weights_and_values[i__];
    let mut channels2: Vec<f32> = Vec::new();
    for k__ in 0..v.channels().len() invariant channels2@.len() == k__, w == weights_and_values@[i__ as int].0, v == weights_and_values@[i__ as int].1, forall|c: int| 0 <= c < k__ ==> #[trigger] channels2@[c] == term(weights_and_values@[i__ as int], c)
    { let s = &v.channels()[k__]; channels2.push(w * chan_f32(*s)); }
    let w2 = w;
    acc__ = match acc__ { None => Some((w2, channels2)), Some((w1, channels1)) => Some({
@ subst
channels1
                    .into_iter()
                    .zip_eq(channels2)
                    .map(|(c1, c2)| c1 + c2)
                    .collect_vec(),
=>> { let mut s__: Vec<f32> = Vec::new();
  for k__ in 0..channels1.len() invariant channels1@.len() == channels2@.len(), s__@.len() == k__, forall|c: int| 0 <= c < k__ ==> #[trigger] s__@[c] == fadd(channels1@[c], channels2@[c])
  { let (c1, c2) = (channels1[k__], channels2[k__]); s__.push(c1 + c2); } s__ },
@ subst
})
        .expect("cannot find a weighted average given no weights and values");
=>> }) }; } acc__.unwrap() };
@ subst
let channel_averages = weighted_channel_sums.iter().map(|x| x / weights_sum);
=>> let mut channel_averages: Vec<f32> = Vec::new();
  for k__ in 0..weighted_channel_sums.len() invariant channel_averages@.len() == k__, forall|c: int| 0 <= c < k__ ==> #[trigger] channel_averages@[c] == fdiv(weighted_channel_sums@[c], weights_sum)
  { let x = weighted_channel_sums[k__]; channel_averages.push(x / weights_sum); }
  let mut casts: Vec<P::Subpixel> = Vec::new();
  for k__ in 0..channel_averages.len() invariant casts@.len() == k__, forall|c: int| 0 <= c < k__ ==> #[trigger] casts@[c] == of_f::<P::Subpixel>(channel_averages@[c])
  { casts.push(f32_chan::<P::Subpixel>(channel_averages[k__])); }
@ subst
*P::from_slice(
        &channel_averages
            .map(<f32 as AsPrimitive<P::Subpixel>>::as_)
            .collect_vec(),
    )
=>> pixel_from_slice::<P>(&casts)
@@ fn filter/bilateral.rs bilateral_filter
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@ sigsub image: &I =>> image: &Image<P>
@ sigsub <I, P, C> =>> <P, C>
@ sigsub I: GenericImage<Pixel = P>, =>>
@ sigsub <P as image::Pixel>::Subpixel: 'static, =>>
@ sigsub f32: From<P::Subpixel> + AsPrimitive<P::Subpixel>, =>>
@ spec
  requires 1 <= image.w() <= 0x7fff_ff00, 1 <= image.h() <= 0x7fff_ff00
  ensures r.w() == image.w(), r.h() == image.h(),
    forall|x: u32, y: u32| x < image.w() && y < image.h() ==> is_mean(#[trigger] r.px(x as int, y as int), window(image, &color_distance, radius as int, spatial_sigma, x as int, y as int))
@ begin
  broadcast use fops;
  let ghost (gw0, gh0) = (image.w() as u32, image.h() as u32);
  assert(!gw0 > 0x7fff_ffffu32) by(bit_vector) requires gw0 <= 0x7fff_ffffu32;
  assert(!gh0 > 0x7fff_ffffu32) by(bit_vector) requires gh0 <= 0x7fff_ffffu32;
@ subst?
i16::from(radius)
=>> (radius as i16)
@ subst
i32::from(
=>> i16_i32(
@ subst
let window_range = -radius..=radius;
=>> let end__r: i16 = radius + 1; proof { assert((2 * radius + 1) * 0 == 0); assert((2 * radius + 1) * (radius + 1 + radius) == (2 * radius + 1) * (2 * radius + 1)); }
@ subst
window_range
        .clone()
        .cartesian_product(window_range.clone())
        .map(|(w_y, w_x)| {
            gaussian_weight(
=>> { let mut sp__: Vec<f32> = Vec::new();
 for w_y in -radius..end__r
   invariant sp__@.len() == (2 * radius + 1) * (w_y + radius), spatial(sp__@, radius as int, spatial_sigma)
 { for w_x in -radius..end__r
   invariant sp__@.len() == (2 * radius + 1) * (w_y + radius) + w_x + radius, spatial(sp__@, radius as int, spatial_sigma), -radius <= w_y <= radius
  { let ghost sp0 = sp__@; let e__ = 
            gaussian_weight(
@ subst
        })
        .collect_vec();
=>> ; sp__.push(e__); proof { lemma_index(radius as int, w_x as int, w_y as int); } } 
   proof { assert((2 * radius + 1) * (w_y + 1 + radius) == (2 * radius + 1) * (w_y + radius) + 2 * radius + 1) by(nonlinear_arith); } } sp__ };
@ subst
<f32 as From<i16>>::from(
=>> i16_f32(
@ subst
debug_assert!(image.in_bounds(x, y));
=>>
@ subst
debug_assert!(image.in_bounds(window_x, window_y));
=>>
@ subst
window_range
            .clone()
            .cartesian_product(window_range.clone())
            .map(|(w_y, w_x)| {
                let window_y
=>> { let mut win__: Vec<(f32, P)> = Vec::new();
 for w_y in -radius..end__r
   invariant win__@.len() == (2 * radius + 1) * (w_y + radius), forall|i: int| 0 <= i < win__@.len() ==> #[trigger] win__@[i] == entry(image, color_distance0, radius as int, spatial_sigma, x as int, y as int, i)
 { for w_x in -radius..end__r
   invariant win__@.len() == (2 * radius + 1) * (w_y + radius) + w_x + radius, -radius <= w_y <= radius, forall|i: int| 0 <= i < win__@.len() ==> #[trigger] win__@[i] == entry(image, color_distance0, radius as int, spatial_sigma, x as int, y as int, i)
  { proof { lemma_index(radius as int, w_x as int, w_y as int); lemma_bound(radius as int, w_x as int, w_y as int); } let e__ = {
                let window_y
@ subst
                (weight, window_pixel)
            });
=>> (weight, window_pixel) };
   win__.push(e__); }
   proof { assert((2 * radius + 1) * (w_y + 1 + radius) == (2 * radius + 1) * (w_y + radius) + 2 * radius + 1) by(nonlinear_arith); } }
   proof { assert((2 * radius + 1) * (2 * radius + 1) >= 1) by(nonlinear_arith) requires radius >= 0; assert(win__@ =~= window(image, color_distance0, radius as int, spatial_sigma, x as int, y as int)); } win__ };
@ closure 1
|x: u32, y: u32| -> (q: P) requires x < width, y < height ensures is_mean(q, window(image, color_distance0, radius as int, spatial_sigma, x as int, y as int))
@ subst
color_distance.color_distance(
=>> color_distance0.color_distance(
@ before let bilateral_pixel_filter
  let color_distance0 = &color_distance;
