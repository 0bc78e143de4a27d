@@ include prelude.rs
@@ include float.rs
@@ text
/// `map_without_alpha` of the image crate: f on every colour channel, the alpha channel (if any) kept
pub trait PixelU8: Pixel<Subpixel = u8> {
  spec fn colour(c: int) -> bool;
  fn map_without_alpha<F: Fn(u8) -> u8>(&self, f: F) -> (r: Self)
    requires forall|c: u8| f.requires((c,))
    ensures forall|c: int| 0 <= c < Self::cc() ==> if Self::colour(c) { f.ensures((self.ch()[c],), #[trigger] r.ch()[c]) } else { r.ch()[c] == self.ch()[c] };
}
/// linear stretch by definition
pub open spec fn stretched(c: int, a: int, b: int, lo: int, hi: int) -> int { if c <= a { lo } else if c >= b { hi } else { (c - a) * (hi - lo) / (b - a) + lo } }
pub open spec fn px_stretched<P: PixelU8>(p: P, o: P, a: int, b: int, lo: int, hi: int) -> bool {
  forall|c: int| 0 <= c < P::cc() ==> (#[trigger] o.ch()[c]) == if P::colour(c) { stretched(p.ch()[c] as int, a, b, lo, hi) } else { p.ch()[c] as int }
}
pub proof fn lemma_stretch(c: int, a: int, b: int, lo: int, hi: int)
  requires 0 <= a < c < b <= 255, 0 <= lo <= hi <= 255
  ensures 0 <= (c - a) * (hi - lo) <= 65025, lo <= (c - a) * (hi - lo) / (b - a) + lo <= hi
{
  assert(0 <= (c - a) * (hi - lo) <= 65025) by(nonlinear_arith) requires 0 <= c - a <= 255, 0 <= hi - lo <= 255;
  assert((c - a) * (hi - lo) <= (hi - lo) * (b - a)) by(nonlinear_arith) requires 0 <= c - a <= b - a, hi - lo >= 0;
  let n = (c - a) * (hi - lo); let d = b - a;
  lemma_fundamental_div_mod(n, d); lemma_mod_bound(n, d);
  assert(0 <= n / d <= hi - lo) by(nonlinear_arith) requires 0 <= n, n <= (hi - lo) * d, d > 0, n == d * (n / d) + n % d, 0 <= n % d < d;
}
@@ fn map.rs map_pixels_mut
@ spec
  requires forall|p: P| f.requires((p,)),
  ensures final(image).w() == old(image).w(), final(image).h() == old(image).h(),
    forall|x: int, y: int| final(image).inb(x, y) ==> f.ensures((old(image).px(x, y),), #[trigger] final(image).px(x, y)),
@ subst
image.pixels_mut().for_each(|pixel| *pixel = f(*pixel))
=>> let ghost o = *image; let e__ = image.len_px();
    for k__ in 0..e__
      invariant e__ == o.np(), image.w() == o.w(), image.h() == o.h(), forall|p: P| f.requires((p,)),
        forall|k: int| k__ <= k < o.np() ==> #[trigger] image.pk(k) == o.pk(k),
        forall|k: int| 0 <= k < k__ ==> f.ensures((o.pk(k),), #[trigger] image.pk(k)),
    { let pixel = image.px_at_mut(k__); *pixel = f(*pixel); }
   proof { assert forall|x: int, y: int| image.inb(x, y) implies f.ensures((o.px(x, y),), #[trigger] image.px(x, y)) by {
       lemma_pk(image, x, y); lemma_pk(&o, x, y); let k = y * image.w() + x; assert(f.ensures((o.pk(k),), image.pk(k))); } }
@@ fn contrast.rs stretch_contrast_mut
@ sigsub P: Pixel<Subpixel = u8>, =>> P: PixelU8,
@ spec
  requires input_min < input_max, output_min <= output_max,
  ensures final(image).w() == old(image).w(), final(image).h() == old(image).h(),
    forall|x: int, y: int| final(image).inb(x, y) ==> px_stretched(old(image).px(x, y), #[trigger] final(image).px(x, y), input_min as int, input_max as int, output_min as int, output_max as int),
@ closure 0
|p: P| -> (o: P) ensures px_stretched(p, o, input_min as int, input_max as int, output_min as int, output_max as int)
@ closure 1
|c: u8| -> (o: u8) ensures o == stretched(c as int, input_min as int, input_max as int, output_min as int, output_max as int)
@ after let c = u16::from(c);
  proof { if input_min < c < input_max { lemma_stretch(c as int, input_min as int, input_max as int, output_min as int, output_max as int); } }
@@ fn contrast.rs stretch_contrast
@ sigsub P: Pixel<Subpixel = u8>, =>> P: PixelU8,
@ spec
  requires input_lower < input_upper, output_lower <= output_upper,
  ensures r.w() == image.w(), r.h() == image.h(),
    forall|x: int, y: int| r.inb(x, y) ==> px_stretched(image.px(x, y), #[trigger] r.px(x, y), input_lower as int, input_upper as int, output_lower as int, output_upper as int),
@@ text
// ---- order of f32 values. fle(a, b): neither is NaN and a <= b.  The axioms state monotonicity of the correctly rounded operations.
pub uninterp spec fn fle(a: f32, b: f32) -> bool;
/// neither NaN nor infinite
pub uninterp spec fn fin(a: f32) -> bool;
pub uninterp spec fn fu32(n: u32) -> f32;
pub uninterp spec fn fto8(a: f32) -> u8;
pub uninterp spec fn fmin(a: f32, b: f32) -> f32;
pub uninterp spec fn fabs(a: f32) -> f32;
pub uninterp spec fn fsub(a: f32, b: f32) -> f32;
pub broadcast axiom fn ax_cast_u32(v: u32, o: f32) requires #[trigger] vstd::float::float_cast_spec(v, o) ensures o == fu32(v);
pub broadcast axiom fn ax_cast_u8(v: f32, o: u8) requires #[trigger] vstd::float::float_cast_spec(v, o) ensures o == fto8(v);
pub broadcast axiom fn ax_sub(a: f32, b: f32, o: f32) requires #[trigger] sub_ensures::<f32>(a, b, o) ensures o == fsub(a, b);
pub broadcast axiom fn ax_gt(a: f32, b: f32, o: bool) requires #[trigger] gt_ensures::<f32>(a, b, o), fin(a), fin(b) ensures o == !fle(a, b);
pub broadcast axiom fn ax_lt(a: f32, b: f32, o: bool) requires #[trigger] lt_ensures::<f32>(a, b, o), fin(a), fin(b) ensures o == !fle(b, a);
pub axiom fn ax_total(a: f32, b: f32) requires fin(a), fin(b) ensures fle(a, b) || fle(b, a), fle(a, a);
pub axiom fn ax_trans(a: f32, b: f32, c: f32) requires fle(a, b), fle(b, c) ensures fle(a, c);
pub axiom fn ax_cast_mono(a: u32, b: u32) requires a <= b ensures fle(fu32(a), fu32(b)), fin(fu32(a)), fin(fu32(b));
/// division of integers in u32 by a positive one: finite, monotone in the numerator, n / n == m / m (== 1)
pub axiom fn ax_frac(a: u32, b: u32, n: u32) requires a <= b, n >= 1 ensures fle(fdiv(fu32(a), fu32(n)), fdiv(fu32(b), fu32(n))), fin(fdiv(fu32(a), fu32(n))), fin(fdiv(fu32(b), fu32(n)));
pub axiom fn ax_one(n: u32, m: u32) requires n >= 1, m >= 1 ensures fdiv(fu32(n), fu32(n)) == fdiv(fu32(m), fu32(m));
pub axiom fn ax_scale_mono(k: f32, a: f32, b: f32) requires fle(a, b), rep(k) == Some(255int) ensures fle(fmul(k, a), fmul(k, b));
pub axiom fn ax_min_mono(k: f32, a: f32, b: f32) requires fle(a, b), rep(k) == Some(255int) ensures fle(fmin(k, a), fmin(k, b));
pub axiom fn ax_to8_mono(a: f32, b: f32) requires fle(a, b) ensures fto8(a) <= fto8(b);
pub broadcast axiom fn ax_lit255() ensures #[trigger] rep(255f32) == Some(255int);
/// |c - x| for c <= a <= b grows, for a <= b <= c shrinks
pub axiom fn ax_dist_above(c: f32, a: f32, b: f32) requires fle(c, a), fle(a, b), fin(a), fin(b), fin(c) ensures fle(fabs(fsub(c, a)), fabs(fsub(c, b)));
pub axiom fn ax_dist_below(c: f32, a: f32, b: f32) requires fle(a, b), fle(b, c), fin(a), fin(b), fin(c) ensures fle(fabs(fsub(c, b)), fabs(fsub(c, a)));
/// distances of such fractions are finite
pub axiom fn ax_dist_fin(a: u32, n: u32, b: u32, m: u32) requires n >= 1, m >= 1 ensures fin(fabs(fsub(fdiv(fu32(a), fu32(n)), fdiv(fu32(b), fu32(m)))));
pub assume_specification[ f32::min ](a: f32, b: f32) -> (r: f32) ensures r == fmin(a, b);
pub assume_specification[ f32::abs ](a: f32) -> (r: f32) ensures r == fabs(a);
pub trait GetUnchecked { fn get_unchecked(&self, i: usize) -> (r: &u32) requires i < self.n_() ensures *r == self.at_(i as int); spec fn n_(&self) -> int; spec fn at_(&self, i: int) -> u32; }
impl GetUnchecked for [u32; 256] { open spec fn n_(&self) -> int { 256 } open spec fn at_(&self, i: int) -> u32 { self@[i] }
  #[verifier::external_body] fn get_unchecked(&self, i: usize) -> (r: &u32) { unimplemented!() } }
/// what C28 needs of cumulative_histogram (its full contract is discharged in C10): non-decreasing, ending at the pixel count
pub struct CumulativeChannelHistogram { pub channels: Vec<[u32; 256]> }
pub open spec fn is_cum(h: Seq<u32>, n: int) -> bool { (forall|i: int, j: int| 0 <= i <= j < 256 ==> (#[trigger] h[i]) <= (#[trigger] h[j])) && h[255] == n }
#[verifier::external_body]
pub fn cumulative_histogram<P: Pixel<Subpixel = u8>>(image: &Image<P>) -> (r: CumulativeChannelHistogram)
  requires image.np() <= u32::MAX
  ensures r.channels@.len() == P::cc(), forall|c: int| 0 <= c < P::cc() ==> is_cum((#[trigger] r.channels@[c])@, image.np())
{ unimplemented!() }
pub open spec fn nondecreasing(t: Seq<int>) -> bool { t.len() == 256 && forall|i: int, j: int| 0 <= i <= j < 256 ==> (#[trigger] t[i]) <= (#[trigger] t[j]) }
/// one non-decreasing 256-entry table applied to every pixel
pub open spec fn by_table(a: &GrayImage, b: &GrayImage, t: Seq<int>) -> bool { nondecreasing(t) && b.w() == a.w() && b.h() == a.h() && forall|x: int, y: int| b.inb(x, y) ==> (#[trigger] b.px(x, y)).0@[0] == t[a.px(x, y).0@[0] as int] }
pub open spec fn eq_entry(h: Seq<u32>, v: int) -> u8 { fto8(fmin(255f32, fmul(255f32, fdiv(fu32(h[v]), fu32(h[255]))))) }
pub open spec fn eq_table(h: Seq<u32>) -> Seq<int> { Seq::new(256, |v: int| eq_entry(h, v) as int) }
pub proof fn lemma_eq(h: Seq<u32>, n: int) requires is_cum(h, n), n > 0 ensures nondecreasing(eq_table(h))
{
  broadcast use ax_lit255;
  assert forall|i: int, j: int| 0 <= i <= j < 256 implies eq_entry(h, i) <= eq_entry(h, j) by {
    let a = fdiv(fu32(h[i]), fu32(h[255])); let b = fdiv(fu32(h[j]), fu32(h[255]));
    ax_frac(h[i], h[j], h[255]); ax_scale_mono(255f32, a, b); ax_min_mono(255f32, fmul(255f32, a), fmul(255f32, b));
    ax_to8_mono(fmin(255f32, fmul(255f32, a)), fmin(255f32, fmul(255f32, b)));
  }
}
@@ fn contrast.rs equalize_histogram_mut
@ spec
  requires old(image).np() <= u32::MAX,
  ensures exists|t: Seq<int>| by_table(old(image), final(image), t),
@ begin
  broadcast use f32_ops, ax_cast_u32, ax_cast_u8, ax_lit255;
@ subst
#[cfg(feature = "rayon")]
let iter = image.par_iter_mut();
#[cfg(not(feature = "rayon"))]
let iter = image.iter_mut();
iter.for_each(|p| {
=>> let ghost o = *image; let e__ = image.len_px(); let ghost t = eq_table(hist@);
    for k__ in 0..e__
      invariant e__ == o.np(), image.w() == o.w(), image.h() == o.h(), hist@.len() == 256,
        total == fu32(hist@[255]), t == eq_table(hist@),
        forall|k: int| k__ <= k < o.np() ==> (#[trigger] image.pk(k)).0@[0] == o.pk(k).0@[0],
        forall|k: int| 0 <= k < k__ ==> (#[trigger] image.pk(k)).0@[0] == t[o.pk(k).0@[0] as int],
    { broadcast use f32_ops, ax_cast_u32, ax_cast_u8, ax_lit255; let p = image.sub_at_mut(k__);
@ subst
as u8; });
=>> as u8; }
@ end
  proof {
    if o.np() > 0 { lemma_eq(hist@, o.np()); } 
    let tt = if o.np() > 0 { t } else { Seq::new(256, |v: int| 0int) };
    assert forall|x: int, y: int| image.inb(x, y) implies (#[trigger] image.px(x, y)).0@[0] == tt[o.px(x, y).0@[0] as int] by { lemma_pk(image, x, y); lemma_pk(&o, x, y); let k = y * image.w() + x; assert(image.pk(k).0@[0] == t[o.pk(k).0@[0] as int]); }
    assert(by_table(&o, image, tt));
  }
@@ text
/// the fraction of pixels that are at most v
pub open spec fn fr(h: Seq<u32>, v: int) -> f32 { fdiv(fu32(h[v]), fu32(h[255])) }
pub open spec fn away(t: Seq<u32>, y: int, s: Seq<u32>, v: int) -> f32 { fabs(fsub(fr(t, y), fr(s, v))) }
pub open spec fn pick(t: Seq<u32>, y: int, s: Seq<u32>, v: int) -> int { if y == 0 { 0 } else if !fle(away(t, y, s, v), away(t, y - 1, s, v)) { y - 1 } else { y } }
/// y is where value v of the source lands in the target
pub open spec fn lands(t: Seq<u32>, y: int, s: Seq<u32>, v: int) -> bool { 0 <= y <= 255 && fle(fr(s, v), fr(t, y)) && (y > 0 ==> fle(fr(t, y - 1), fr(s, v))) }
pub proof fn lemma_fr(h: Seq<u32>, n: int, a: int, b: int) requires is_cum(h, n), n > 0, 0 <= a <= b <= 255 ensures fle(fr(h, a), fr(h, b)), fin(fr(h, a)), fin(fr(h, b)) { ax_frac(h[a], h[b], h[255]); }
pub proof fn lemma_pick(t: Seq<u32>, nt: int, s: Seq<u32>, ns: int, y: int, v: int)
  requires is_cum(t, nt), nt > 0, is_cum(s, ns), ns > 0, lands(t, y, s, v), lands(t, y, s, v + 1), 0 <= v < 255
  ensures pick(t, y, s, v) <= pick(t, y, s, v + 1)
{
  if y > 0 {
    lemma_fr(s, ns, v, v + 1); lemma_fr(t, nt, y - 1, y);
    ax_dist_above(fr(t, y - 1), fr(s, v), fr(s, v + 1)); ax_dist_below(fr(t, y), fr(s, v), fr(s, v + 1));
    if fle(away(t, y, s, v), away(t, y - 1, s, v)) {
      ax_trans(away(t, y, s, v + 1), away(t, y, s, v), away(t, y - 1, s, v));
      ax_trans(away(t, y, s, v + 1), away(t, y - 1, s, v), away(t, y - 1, s, v + 1));
    }
  }
}
@@ fn contrast.rs histogram_lut
@ spec
  requires exists|n: int| n > 0 && is_cum(source_histc@, n), exists|n: int| n > 0 && is_cum(target_histc@, n),
  ensures forall|i: int, j: int| 0 <= i <= j < 256 ==> (#[trigger] r@[i]) <= (#[trigger] r@[j]), forall|i: int| 0 <= i < 256 ==> (#[trigger] r@[i]) <= 255,
@ begin
  broadcast use f32_ops, ax_cast_u32, ax_cast_u8, ax_gt, ax_lt, ax_sub;
  let ghost sh = source_histc@; let ghost th = target_histc@;
  let ghost ns = choose|n: int| n > 0 && is_cum(source_histc@, n); let ghost nt = choose|n: int| n > 0 && is_cum(target_histc@, n);
@ loop 0
  invariant is_cum(sh, ns), ns > 0, is_cum(th, nt), nt > 0, sh == source_histc@, th == target_histc@, y <= 255, s == 0 ==> y == 0,
    start__0 == 0, end__0 == 256, source_total == fu32(sh[255]), target_total == fu32(th[255]),
    s > 0 ==> lands(th, y as int, sh, s - 1) && lut@[s - 1] == pick(th, y as int, sh, s - 1),
    y > 0 ==> prev_target_fraction == fr(th, y - 1),
    forall|i: int, j: int| 0 <= i <= j < s ==> (#[trigger] lut@[i]) <= (#[trigger] lut@[j]), forall|i: int| 0 <= i < 256 ==> (#[trigger] lut@[i]) <= 255,
@ loop 0 begin
  let ghost y0 = y; let ghost lut0 = lut@;
  broadcast use f32_ops, ax_cast_u32, ax_cast_u8, ax_gt, ax_lt, ax_sub;
  proof { if s > 0 { lemma_fr(sh, ns, s - 1, s as int); if y > 0 { ax_trans(fr(th, y - 1), fr(sh, s - 1), fr(sh, s as int)); } } lemma_fr(sh, ns, s as int, s as int); }
@ loop 1
  invariant y0 <= y <= 255, target_fraction == fr(th, y as int), y > 0 ==> prev_target_fraction == fr(th, y - 1), y > 0 ==> fle(fr(th, y - 1), fr(sh, s as int)),
    source_fraction == fr(sh, s as int), fin(source_fraction),
  decreases 256 - y,
@ loop 1 begin
  broadcast use f32_ops, ax_cast_u32, ax_cast_u8, ax_gt, ax_lt, ax_sub;
  proof { lemma_fr(th, nt, y as int, y as int); ax_total(source_fraction, target_fraction); }
@ loop 1 after
  proof {
    lemma_fr(th, nt, y as int, y as int);
    if y == 255 { ax_one(sh[255], th[255]); lemma_fr(sh, ns, s as int, 255); }
    assert(fle(fr(sh, s as int), fr(th, y as int)));
    ax_dist_fin(th[y as int], th[255], sh[s as int], sh[255]);
    if y > 0 { ax_dist_fin(th[y - 1], th[255], sh[s as int], sh[255]); }
    if s > 0 && y == y0 { lemma_pick(th, nt, sh, ns, y as int, s - 1); }
  }
@ loop 0 end
  proof { assert(lut@[s as int] == pick(th, y as int, sh, s as int)); }
@@ fn contrast.rs match_histogram_mut
@ spec
  requires 0 < old(image).np() <= u32::MAX, 0 < target.np() <= u32::MAX,
  ensures exists|t: Seq<int>| by_table(old(image), final(image), t),
@ begin
  let ghost o = *image;
@ loop 0 before
  let ghost t = Seq::new(256, |i: int| lut@[i] as int);
@ loop 0
  invariant end__0 == o.np(), image.w() == o.w(), image.h() == o.h(), t == Seq::new(256, |i: int| lut@[i] as int), forall|i: int| 0 <= i < 256 ==> (#[trigger] lut@[i]) <= 255,
    forall|k: int| k__0 <= k < o.np() ==> (#[trigger] image.pk(k)).0@[0] == o.pk(k).0@[0],
    forall|k: int| 0 <= k < k__0 ==> (#[trigger] image.pk(k)).0@[0] == t[o.pk(k).0@[0] as int],
@ end
  proof {
    assert forall|x: int, y: int| image.inb(x, y) implies (#[trigger] image.px(x, y)).0@[0] == t[o.px(x, y).0@[0] as int] by { lemma_pk(image, x, y); lemma_pk(&o, x, y); let k = y * image.w() + x; assert(image.pk(k).0@[0] == t[o.pk(k).0@[0] as int]); }
    assert(by_table(&o, image, t));
  }
@@ fn contrast.rs match_histogram
@ spec
  requires 0 < image.np() <= u32::MAX, 0 < target.np() <= u32::MAX,
  ensures exists|t: Seq<int>| by_table(image, &r, t),
@ after let mut out = image.clone();
  let ghost c = out;
@ tail
  proof { let t = choose|t: Seq<int>| by_table(&c, &out, t); assert(by_table(image, &out, t)); }
@@ fn contrast.rs equalize_histogram
@ spec
  requires image.np() <= u32::MAX,
  ensures exists|t: Seq<int>| by_table(image, &r, t),
@ after let mut out = image.clone();
  let ghost c = out;
@ tail
  proof { let t = choose|t: Seq<int>| by_table(&c, &out, t); assert(by_table(image, &out, t)); }
