@@ uses C10.vs
@@ include dreal.vs
@@ text
/// sum of the values of all pixels up to level t
pub open spec fn lsum(im: &GrayImage, t: int) -> int decreases t + 1 { if t < 0 { 0 } else { lsum(im, t - 1) + t * cnt(im, 0, t, im.np()) } }
pub open spec fn lo(im: &GrayImage, t: int) -> int { cnt_le(im, 0, t, im.np()) }
pub open spec fn sq(x: real) -> real { x * x }
/// (pixels up to t) * (pixels above t) * (difference of their means)^2: the between-class variance times the squared number of pixels
pub open spec fn between_var(im: &GrayImage, t: int) -> real {
  let (n, s, m, u) = (lo(im, t), lsum(im, t), im.np() - lo(im, t), lsum(im, 255) - lsum(im, t));
  (n as real) * (m as real) * sq(s as real / n as real - u as real / m as real) }
/// both classes are inhabited
pub open spec fn splits(im: &GrayImage, t: int) -> bool { 0 <= t < 256 && 0 < lo(im, t) < im.np() }
/// the best level among those below n
pub open spec fn best(im: &GrayImage, b: int, l: real, n: int) -> bool {
  0 <= b < 256 && l >= 0real && (forall|t: int| 0 <= t < n && splits(im, t) ==> #[trigger] between_var(im, t) <= l)
  && ((l == 0real && b == 0) || (b < n && splits(im, b) && l == between_var(im, b) && forall|t: int| 0 <= t < b && splits(im, t) ==> #[trigger] between_var(im, t) < l)) }
pub proof fn lemma_lsum(im: &GrayImage, t: int) requires -1 <= t <= 255 ensures 0 <= lsum(im, t) <= 255 * lo(im, t) decreases t + 1
{ lemma_cnt(im, 0, t, im.np()); if t >= 0 { lemma_lsum(im, t - 1); let c = cnt(im, 0, t, im.np()); assert(0 <= t * c <= 255 * c) by(nonlinear_arith) requires 0 <= t <= 255, c >= 0; } else { } }
pub proof fn lemma_lo_mono(im: &GrayImage, a: int, b: int) requires a <= b ensures lo(im, a) <= lo(im, b) decreases b - a
{ if a < b { lemma_cnt(im, 0, b, im.np()); lemma_lo_mono(im, a, b - 1); } }
/// above the last occupied level nothing splits the image
pub proof fn lemma_full(im: &GrayImage, a: int) ensures lo(im, a) >= im.np() ==> forall|t: int| t >= a ==> !splits(im, t)
{ if lo(im, a) >= im.np() { lemma_full0(im, a); } }
pub proof fn lemma_full0(im: &GrayImage, a: int) requires lo(im, a) >= im.np() ensures forall|t: int| t >= a ==> !splits(im, t)
{ assert forall|t: int| t >= a implies !splits(im, t) by { lemma_lo_mono(im, a, t); } }
/// the mean of the lower class is at most t, the mean of the upper class at least t + 1
pub proof fn lemma_means(im: &GrayImage, t: int, n: int) requires -1 <= t <= n <= 255 ensures lsum(im, t) <= t * lo(im, t), lsum(im, n) - lsum(im, t) >= (t + 1) * (lo(im, n) - lo(im, t)) decreases t + n + 2
{ if n == t { assert((t + 1) * (lo(im, n) - lo(im, t)) == 0) by(nonlinear_arith) requires lo(im, n) == lo(im, t); }
  lemma_cnt(im, 0, t, im.np()); lemma_cnt(im, 0, n, im.np());
  if n > t { lemma_means(im, t, n - 1); let c = cnt(im, 0, n, im.np());
    assert(lsum(im, n) == lsum(im, n - 1) + n * c); assert(lo(im, n) == lo(im, n - 1) + c);
    assert((t + 1) * (lo(im, n) - lo(im, t)) == (t + 1) * (lo(im, n - 1) - lo(im, t)) + (t + 1) * c) by(nonlinear_arith) requires lo(im, n) == lo(im, n - 1) + c;
    assert((t + 1) * c <= n * c) by(nonlinear_arith) requires t + 1 <= n, c >= 0; }
  else if t >= 0 { lemma_means(im, t - 1, t - 1); let c = cnt(im, 0, t, im.np()); lemma_cnt(im, 0, t - 1, im.np());
    assert(lo(im, t) == lo(im, t - 1) + c); let l = lo(im, t - 1);
    if t > 0 { lemma_lo_mono(im, -1, t - 1); }
    assert((t - 1) * l + t * c <= t * (l + c)) by(nonlinear_arith) requires l >= 0; assert(t * lo(im, t) == t * (l + c)); assert(lsum(im, t) == lsum(im, t - 1) + t * c); }
  if t < 0 { assert(lsum(im, t) == 0); assert(t * lo(im, t) == 0) by(nonlinear_arith) requires lo(im, t) == 0; } }
pub proof fn lemma_positive(im: &GrayImage, t: int) requires splits(im, t), lo(im, 255) == im.np() ensures between_var(im, t) > 0real
{ lemma_means(im, t, 255);
  let (n, s, m, u) = (lo(im, t) as real, lsum(im, t) as real, (im.np() - lo(im, t)) as real, (lsum(im, 255) - lsum(im, t)) as real); let tr = t as real;
  assert(s <= tr * n) by { assert((t * lo(im, t)) as real == tr * n) by(nonlinear_arith) requires tr == t as real, n == lo(im, t) as real; }
  assert(u >= (tr + 1real) * m) by { assert(((t + 1) * (im.np() - lo(im, t))) as real == (tr + 1real) * m) by(nonlinear_arith) requires tr == t as real, m == (im.np() - lo(im, t)) as real; }
  assert(s / n <= tr) by(nonlinear_arith) requires n > 0real, s <= tr * n;
  assert(u / m >= tr + 1real) by(nonlinear_arith) requires m > 0real, u >= (tr + 1real) * m;
  let d = s / n - u / m; assert(d <= -1real);
  assert(sq(d) > 0real) by(nonlinear_arith) requires d <= -1real, sq(d) == d * d;
  let q = sq(d); assert(n * m * q > 0real) by { assert(n * m > 0real) by(nonlinear_arith) requires n > 0real, m > 0real; let nm = n * m; assert(nm * q > 0real) by(nonlinear_arith) requires nm > 0real, q > 0real; } }
pub proof fn lemma_final(im: &GrayImage, b: int, l: real) requires best(im, b, l, 256), lo(im, 255) == im.np()
  ensures forall|t: int| splits(im, t) ==> #[trigger] between_var(im, t) <= between_var(im, b), (exists|t: int| #[trigger] splits(im, t)) ==> splits(im, b), !(exists|t: int| #[trigger] splits(im, t)) ==> b == 0
{ assert forall|t: int| splits(im, t) implies between_var(im, t) <= between_var(im, b) && splits(im, b) by { lemma_positive(im, t); } }
pub open spec fn wsum(h: Seq<u32>, n: int) -> int decreases n { if n <= 0 { 0 } else { wsum(h, n - 1) + (n - 1) * h[n - 1] } }
pub proof fn lemma_wsum(im: &GrayImage, h: Seq<u32>, n: int) requires h.len() == 256, 0 <= n <= 256, forall|v: int| 0 <= v < 256 ==> #[trigger] h[v] == cnt(im, 0, v, im.np()) ensures wsum(h, n) == lsum(im, n - 1) decreases n
{ if n > 0 { lemma_wsum(im, h, n - 1); } }
pub proof fn lemma_term(t: int, h: int) requires 0 <= t <= 256, 0 <= h <= 0xffff_ffff ensures 0 <= t * h <= 256 * 0xffff_ffff { assert(0 <= t * h <= 256 * 0xffff_ffff) by(nonlinear_arith) requires 0 <= t <= 256, 0 <= h <= 0xffff_ffff; }
@@ fn contrast.rs otsu_level
@ opts
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ spec
  requires image.np() <= u32::MAX
  ensures forall|t: int| splits(image, t) ==> #[trigger] between_var(image, t) <= between_var(image, r as int), (exists|t: int| #[trigger] splits(image, t)) ==> splits(image, r as int), !(exists|t: int| #[trigger] splits(image, t)) ==> r == 0,
@ begin
  broadcast use dreal;
  proof { lemma_cnt(image, 0, -1, image.np()); assert(Luma::<u8>::cc() == 1); }
@ subst
hist.channels[0]
        .iter()
        .enumerate()
        .fold(0f64, |sum, (t, h)| sum + (t as u64 * u64::from(*h)) as f64);
=>> { let mut sum = 0f64; let h__ = hist.channels[0]; let mut t: usize = 0;
  while t < 256 invariant t <= 256, dv(sum) == wsum(h__@, t as int) as real, decreases 256 - t,
  { let h = &h__[t]; proof { lemma_term(t as int, *h as int); assert(wsum(h__@, t + 1) == wsum(h__@, t as int) + t * h__@[t as int]); }
    sum = sum + (t as u64 * u64::from(*h)) as f64; t = t + 1; }
  proof { lemma_wsum(image, h__@, 256); }
  sum };
@ subst
background_weight += hist_count;
=>> background_weight += *hist_count;
@ subst
for (threshold, hist_count) in hist.channels[0].iter().enumerate() {
=>> let h__ = hist.channels[0]; let mut i__: usize = 0;
  while i__ < 256
    invariant i__ <= 256, background_weight == lo(image, i__ - 1), dv(background_pixel_sum) == lsum(image, i__ - 1) as real ,
      best(image, best_threshold as int, dv(largest_variance), i__ as int),
    ensures best(image, best_threshold as int, dv(largest_variance), 256),
    decreases 256 - i__
  { let threshold = i__; let hist_count = &h__[i__];
    proof { lemma_cnt(image, 0, i__ as int, image.np()); lemma_lsum(image, i__ as int); lemma_lsum(image, i__ - 1); lemma_cnt(image, 0, i__ - 1, image.np()); lemma_term(i__ as int, *hist_count as int); lemma_full(image, i__ as int); assert(lo(image, i__ as int) == lo(image, i__ - 1) + *hist_count); }
    i__ = i__ + 1;
@ before if intra_class_variance
  proof { let t = threshold as int; assert(dv(background_pixel_sum) == lsum(image, t) as real); assert(dv(foreground_pixel_sum) == (lsum(image, 255) - lsum(image, t)) as real); assert(splits(image, t)); assert(dv(intra_class_variance) == between_var(image, t)); }
@ tail
  proof { lemma_cnt(image, 0, 255, image.np()); lemma_final(image, best_threshold as int, dv(largest_variance)); }
@ floats
background_pixel_sum
