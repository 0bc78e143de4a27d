@@ include prelude.rs
@@ include float.rs
@@ inline template_matching.rs ImageTemplate::slide_window_at
@@ inline template_matching.rs ImageTemplateMask::slide_window_at
@@ text
pub type F = spec_fn(int, int) -> int;
/// sum of f over a w x h block, row by row
pub open spec fn rowsum(f: F, y: int, n: int) -> int decreases n { if n <= 0 { 0 } else { rowsum(f, y, n - 1) + f(n - 1, y) } }
pub open spec fn total(f: F, w: int, h: int) -> int decreases h { if h <= 0 { 0 } else { total(f, w, h - 1) + rowsum(f, h - 1, w) } }
pub open spec fn nonneg(f: F) -> bool { forall|x: int, y: int| #[trigger] f(x, y) >= 0 }
pub open spec fn upto(f: F, w: int, x: int, y: int) -> int { total(f, w, y) + rowsum(f, y, x) }
pub proof fn lemma_rows(f: F, y: int, a: int, b: int) requires nonneg(f), 0 <= a <= b ensures 0 <= rowsum(f, y, a) <= rowsum(f, y, b) decreases b
{ if a < b { lemma_rows(f, y, a, b - 1); } else if a > 0 { lemma_rows(f, y, a - 1, a - 1); } }
pub proof fn lemma_tot(f: F, w: int, a: int, b: int) requires nonneg(f), 0 <= w, 0 <= a <= b ensures 0 <= total(f, w, a) <= total(f, w, b) decreases b
{ if a < b { lemma_tot(f, w, a, b - 1); lemma_rows(f, b - 1, 0, w); } else if a > 0 { lemma_tot(f, w, a - 1, a - 1); lemma_rows(f, a - 1, 0, w); } }
/// a prefix of the scan never exceeds the whole
pub proof fn lemma_upto(f: F, w: int, h: int, x: int, y: int)
  requires nonneg(f), 0 <= x < w, 0 <= y < h
  ensures 0 <= upto(f, w, x, y), upto(f, w, x + 1, y) == upto(f, w, x, y) + f(x, y), upto(f, w, x + 1, y) <= total(f, w, h), f(x, y) <= total(f, w, h)
{ lemma_rows(f, y, 0, x); lemma_rows(f, y, x + 1, w); lemma_tot(f, w, 0, y); lemma_tot(f, w, y + 1, h); }
/// a float holding the exact total whenever that total is exactly representable
pub open spec fn holds(v: f32, n: int, tot: int) -> bool { tot <= 16777216 ==> ri(v, n) }
pub open spec fn iv(im: &GrayImage, x: int, y: int) -> int { im.px(x, y).0@[0] as int }
pub open spec fn sq(a: int) -> int { a * a }
pub proof fn lemma_sq(a: int) ensures sq(a) >= 0 { assert(a * a >= 0) by(nonlinear_arith); }
// the summands of the definition, for the placement (x, y)
pub open spec fn f_sse(im: &GrayImage, t: &GrayImage, x: int, y: int) -> F { |dx: int, dy: int| sq(iv(t, dx, dy) - iv(im, x + dx, y + dy)) }
pub open spec fn f_cc(im: &GrayImage, t: &GrayImage, x: int, y: int) -> F { |dx: int, dy: int| iv(im, x + dx, y + dy) * iv(t, dx, dy) }
pub open spec fn f_ii(im: &GrayImage, x: int, y: int) -> F { |dx: int, dy: int| sq(iv(im, x + dx, y + dy)) }
pub open spec fn f_tt(t: &GrayImage) -> F { |dx: int, dy: int| sq(iv(t, dx, dy)) }
pub open spec fn f_ssem(im: &GrayImage, t: &GrayImage, m: &GrayImage, x: int, y: int) -> F { |dx: int, dy: int| sq((iv(t, dx, dy) - iv(im, x + dx, y + dy)) * iv(m, dx, dy)) }
pub open spec fn f_ccm(im: &GrayImage, t: &GrayImage, m: &GrayImage, x: int, y: int) -> F { |dx: int, dy: int| iv(t, dx, dy) * iv(im, x + dx, y + dy) * iv(m, dx, dy) * iv(m, dx, dy) }
pub open spec fn f_iim(im: &GrayImage, m: &GrayImage, x: int, y: int) -> F { |dx: int, dy: int| sq(iv(im, x + dx, y + dy) * iv(m, dx, dy)) }
pub open spec fn f_ttm(t: &GrayImage, m: &GrayImage) -> F { |dx: int, dy: int| sq(iv(t, dx, dy) * iv(m, dx, dy)) }
pub proof fn lemma_nonneg(im: &GrayImage, t: &GrayImage, m: &GrayImage, x: int, y: int)
  ensures nonneg(f_sse(im, t, x, y)), nonneg(f_cc(im, t, x, y)), nonneg(f_ii(im, x, y)), nonneg(f_tt(t)), nonneg(f_ssem(im, t, m, x, y)), nonneg(f_ccm(im, t, m, x, y)), nonneg(f_iim(im, m, x, y)), nonneg(f_ttm(t, m)),
{
  assert(forall|a: int| #[trigger] sq(a) >= 0) by { assert forall|a: int| #[trigger] sq(a) >= 0 by { lemma_sq(a); } }
  assert forall|dx: int, dy: int| #[trigger] f_cc(im, t, x, y)(dx, dy) >= 0 by { let a = iv(im, x + dx, y + dy); let b = iv(t, dx, dy); assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; }
  assert forall|dx: int, dy: int| #[trigger] f_ccm(im, t, m, x, y)(dx, dy) >= 0 by { let a = iv(im, x + dx, y + dy); let b = iv(t, dx, dy); let c = iv(m, dx, dy); assert(b * a * c * c >= 0) by(nonlinear_arith) requires a >= 0, b >= 0, c >= 0; }
}
/// bounds that make the intermediate float values exact
pub proof fn lemma_bounds(a: int, b: int, c: int)
  requires 0 <= a <= 255, 0 <= b <= 255, 0 <= c <= 255
  ensures exact(a * b), exact((b - a) * (b - a)), exact((b - a) * c), exact(a * c), exact(b * c), exact(a * a), exact(b * a), exact(b * a * c), b * a == a * b
{
  assert(0 <= a * b <= 65025) by(nonlinear_arith) requires 0 <= a <= 255, 0 <= b <= 255;
  assert(0 <= a * c <= 65025) by(nonlinear_arith) requires 0 <= a <= 255, 0 <= c <= 255;
  assert(0 <= b * c <= 65025) by(nonlinear_arith) requires 0 <= b <= 255, 0 <= c <= 255;
  assert(0 <= a * a <= 65025) by(nonlinear_arith) requires 0 <= a <= 255;
  assert(b * a == a * b) by(nonlinear_arith);
  assert(0 <= (b * a) * c <= 16581375) by(nonlinear_arith) requires 0 <= b * a <= 65025, 0 <= c <= 255;
  assert((b - a) * c == b * c - a * c) by(nonlinear_arith);
  assert(0 <= (b - a) * (b - a) <= 65025) by(nonlinear_arith) requires -255 <= b - a <= 255;
}
/// num / sqrt(ii * tt), or num when that norm is not positive
pub open spec fn normed(num: f32, ii: f32, tt: f32) -> f32 { let d = fsqrt(fmul(ii, tt)); if fgt0(d) { fdiv(num, d) } else { num } }
pub open spec fn score_normed(r: f32, num: int, ii: int, tt: int) -> bool {
  exists|n: f32, i: f32, t: f32| r == #[trigger] normed(n, i, t) && holds(n, num, num) && holds(i, ii, ii) && holds(t, tt, tt)
}
/// the k-th prefix sum in storage order
pub open spec fn lin(f: F, w: int, k: int) -> int decreases k { if k <= 0 { 0 } else { lin(f, w, k - 1) + f((k - 1) % w, (k - 1) / w) } }
pub proof fn lemma_lin(f: F, w: int, x: int, y: int)
  requires 0 <= x <= w, 0 < w, 0 <= y
  ensures lin(f, w, y * w + x) == upto(f, w, x, y)
  decreases y, x
{
  if x > 0 {
    lemma_lin(f, w, x - 1, y); assert(y * w + x - 1 == y * w + (x - 1));
    assert((y * w + x - 1) % w == x - 1 && (y * w + x - 1) / w == y) by { lemma_fundamental_div_mod_converse(y * w + x - 1, w, y, x - 1); }
    assert(y * w >= 0) by(nonlinear_arith) requires y >= 0, w > 0;
    assert(y * w + x > 0); assert(lin(f, w, y * w + x) == lin(f, w, y * w + x - 1) + f(x - 1, y));
  } else if y > 0 {
    lemma_lin(f, w, w, y - 1); assert((y - 1) * w + w == y * w + 0) by(nonlinear_arith);
    assert(total(f, w, y) == total(f, w, y - 1) + rowsum(f, y - 1, w));
    assert((y - 1) * w + w == y * w) by(nonlinear_arith);
  } else { assert(y * w == 0) by(nonlinear_arith) requires y == 0; }
}
pub proof fn lemma_lin_step(f: F, w: int, h: int, k: int)
  requires nonneg(f), 0 <= k < w * h, 0 < w
  ensures 0 <= lin(f, w, k), lin(f, w, k + 1) == lin(f, w, k) + f(k % w, k / w), lin(f, w, k + 1) <= total(f, w, h), f(k % w, k / w) <= total(f, w, h)
{
  lemma_mod_bound(k, w); lemma_fundamental_div_mod(k, w);
  let x = k % w; let y = k / w;
  assert(0 <= y < h) by(nonlinear_arith) requires 0 <= k < w * h, w > 0, k == w * y + x, 0 <= x < w;
  assert(w * y == y * w) by(nonlinear_arith);
  lemma_lin(f, w, x, y); lemma_upto(f, w, h, x, y);
}
pub proof fn lemma_lin_end(f: F, w: int, h: int) requires 0 < w, 0 <= h ensures lin(f, w, w * h) == total(f, w, h)
{ lemma_lin(f, w, 0, h); assert(w * h == h * w) by(nonlinear_arith); }
pub proof fn lemma_empty(f: F, h: int) requires 0 <= h ensures total(f, 0, h) == 0 decreases h { if h > 0 { lemma_empty(f, h - 1); } }

pub trait OutputDims {
  spec fn ok(&self) -> bool;
  spec fn out(&self) -> (int, int);
  fn output_dims(&self) -> (r: (u32, u32)) requires self.ok() ensures r.0 == self.out().0, r.1 == self.out().1;
}
@@ struct template_matching.rs ImageTemplate
@@ struct template_matching.rs ImageTemplateMask
@@ enum template_matching.rs MatchTemplateMethod
@@ text
pub open spec fn fits(im: &GrayImage, t: &GrayImage) -> bool { 1 <= t.w() <= im.w() && 1 <= t.h() <= im.h() }
@@ fn template_matching.rs ImageTemplate::new
@ spec
  requires fits(image, template),
  ensures r.image == image, r.template == template,
@@ fn template_matching.rs ImageTemplateMask::new
@ sigsub fn new =>> fn new
@ spec
  requires fits(image, template), mask.same_dims(template),
  ensures r.inner.image == image, r.inner.template == template, r.mask == mask,
@ subst?
assert_eq!(
            template.dimensions(),
            mask.dimensions(),
            "the template and mask must be the same size"
        );
=>> { let (tw__, th__) = template.dimensions(); let (mw__, mh__) = mask.dimensions(); if !(tw__ == mw__ && th__ == mh__) { vpanic(); } }
@@ text
impl<'a> OutputDims for ImageTemplate<'a> {
  open spec fn ok(&self) -> bool { fits(self.image, self.template) }
  open spec fn out(&self) -> (int, int) { (self.image.w() - self.template.w() + 1, self.image.h() - self.template.h() + 1) }
@@ fn template_matching.rs <ImageTemplate<'_> as OutputDims>::output_dims
@ hdr
none
@ nopub
@@ text
}
impl<'a> OutputDims for ImageTemplateMask<'a> {
  open spec fn ok(&self) -> bool { self.inner.ok() && self.mask.same_dims(self.inner.template) }
  open spec fn out(&self) -> (int, int) { self.inner.out() }
@@ fn template_matching.rs <ImageTemplateMask<'_> as OutputDims>::output_dims
@ hdr
none
@ nopub
@@ text
}
pub trait MatchTemplate<'a>: Sized {
  type Input: OutputDims;
  spec fn ready(&self, input: &Self::Input) -> bool;
  /// r is the defined score of the placement (x, y)
  spec fn good(input: &Self::Input, x: int, y: int, r: f32) -> bool;
  fn init(input: &Self::Input) -> (r: Self) requires input.ok() ensures r.ready(input);
  fn score_at(&self, at: (u32, u32), input: &Self::Input) -> (r: f32)
    requires input.ok(), self.ready(input), at.0 < input.out().0, at.1 < input.out().1,
    ensures Self::good(input, at.0 as int, at.1 as int, r);
@@ fn template_matching.rs MatchTemplate::match_template
@ hdr
none
@ nopub
@ spec
  requires input.ok(),
  ensures r.w() == input.out().0, r.h() == input.out().1, forall|x: int, y: int| r.inb(x, y) ==> Self::good(input, x, y, (#[trigger] r.px(x, y)).0@[0]),
@ closure 0
|x: u32, y: u32| -> (r: Luma<f32>) requires x < input.out().0, y < input.out().1 ensures Self::good(input, x as int, y as int, r.0@[0])
@@ text
}
@@ fn template_matching.rs methods::square_sum
@ spec
  ensures holds(r, total(f_tt(input), input.w() as int, input.h() as int), total(f_tt(input), input.w() as int, input.h() as int)),
@ subst
input.iter().map(|&x| (x as f32 * x as f32)).sum()
=>> broadcast use {f32_ops, ax_f32_zero};
  let ghost f = f_tt(input); let ghost w = input.w() as int; let ghost h = input.h() as int;
  let mut s__: f32 = 0f32; let n__ = input.len_px();
  proof { lemma_nonneg(input, input, input, 0, 0); if w == 0 { lemma_empty(f, h); assert(w * h == 0) by(nonlinear_arith) requires w == 0; } else { lemma_lin_end(f, w, h); } }
  for k__ in 0..n__
    invariant n__ == input.np(), f == f_tt(input), w == input.w(), h == input.h(), nonneg(f), holds(s__, lin(f, w, k__ as int), total(f, w, h)),
  {
    let x = *input.px_at(k__);
    proof { lemma_kp(input, k__ as int); reveal(Image::pk); lemma_lin_step(f, w, h, k__ as int); lemma_bounds(x.0@[0] as int, 0, 0); }
    s__ = s__ + (x[0] as f32 * x[0] as f32);
  }
  s__
@@ fn template_matching.rs methods::mult_square_sum
@ spec
  requires a.same_dims(b),
  ensures holds(r, total(f_ttm(a, b), a.w() as int, a.h() as int), total(f_ttm(a, b), a.w() as int, a.h() as int)),
@ subst
a.iter()
            .zip(b.iter())
            .map(|(&x, &y)| (x as f32 * y as f32).powi(2))
            .sum()
=>> broadcast use {f32_ops, ax_f32_zero};
  let ghost f = f_ttm(a, b); let ghost w = a.w() as int; let ghost h = a.h() as int;
  let mut s__: f32 = 0f32; let n__ = a.len_px();
  proof { lemma_nonneg(a, a, b, 0, 0); if w == 0 { lemma_empty(f, h); assert(w * h == 0) by(nonlinear_arith) requires w == 0; } else { lemma_lin_end(f, w, h); } }
  for k__ in 0..n__
    invariant n__ == a.np(), n__ == b.np(), a.same_dims(b), f == f_ttm(a, b), w == a.w(), h == a.h(), nonneg(f), holds(s__, lin(f, w, k__ as int), total(f, w, h)),
  {
    let x = *a.px_at(k__); let y = *b.px_at(k__);
    proof { lemma_kp(a, k__ as int); lemma_kp(b, k__ as int); reveal(Image::pk); lemma_lin_step(f, w, h, k__ as int); lemma_bounds(x.0@[0] as int, 0, y.0@[0] as int); }
    s__ = s__ + (x[0] as f32 * y[0] as f32).powi(2);
  }
  s__
@@ struct template_matching.rs methods::Sse
@@ text
impl<'a> MatchTemplate<'a> for Sse {
  type Input = ImageTemplate<'a>;
  open spec fn ready(&self, input: &Self::Input) -> bool { true }
  open spec fn good(input: &Self::Input, x: int, y: int, r: f32) -> bool { holds(r, total(f_sse(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int), total(f_sse(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int)) }
@@ fn template_matching.rs methods::<Sse as MatchTemplate<'a>>::init
@ hdr
none
@ nopub
@ sigsub _: &Self::Input =>> input: &Self::Input
@@ fn template_matching.rs methods::<Sse as MatchTemplate<'a>>::score_at
@ hdr
none
@ nopub
@ floats
score
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(40)]
@ begin
  broadcast use {f32_ops, ax_f32_mul_comm, ax_f32_zero};
  let ghost x = at.0 as int; let ghost y = at.1 as int; let ghost fs = f_sse(input.image, input.template, x, y);
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); lemma_nonneg(input.image, input.template, input.image, x, y); }
@ loop 0
  invariant start__0 == 0, end__0 == input.template.h(), holds(score, upto(fs, input.template.w() as int, 0, dy as int), total(fs, input.template.w() as int, input.template.h() as int)),
@ loop 1
  invariant start__1 == 0, end__1 == input.template.w(), 0 <= dy < input.template.h(), holds(score, upto(fs, input.template.w() as int, dx as int, dy as int), total(fs, input.template.w() as int, input.template.h() as int)),
@ loop 1 begin
  proof { lemma_upto(fs, input.template.w() as int, input.template.h() as int, dx as int, dy as int); lemma_bounds(iv(input.image, at.0 + dx, at.1 + dy), iv(input.template, dx as int, dy as int), iv(input.image, at.0 as int, at.1 as int)); }
@@ text
}
@@ struct template_matching.rs methods::SseNormalized
@@ text
impl<'a> MatchTemplate<'a> for SseNormalized {
  type Input = ImageTemplate<'a>;
  open spec fn ready(&self, input: &Self::Input) -> bool { holds(self.template_squared_sum, total(f_tt(input.template), input.template.w() as int, input.template.h() as int), total(f_tt(input.template), input.template.w() as int, input.template.h() as int)) }
  open spec fn good(input: &Self::Input, x: int, y: int, r: f32) -> bool { score_normed(r, total(f_sse(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int), total(f_ii(input.image, x, y), input.template.w() as int, input.template.h() as int), total(f_tt(input.template), input.template.w() as int, input.template.h() as int)) }
@@ fn template_matching.rs methods::<SseNormalized as MatchTemplate<'a>>::init
@ hdr
none
@ nopub
@@ fn template_matching.rs methods::<SseNormalized as MatchTemplate<'a>>::score_at
@ hdr
none
@ nopub
@ floats
score ii
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(40)]
@ begin
  broadcast use {f32_ops, ax_f32_mul_comm, ax_f32_zero};
  let ghost x = at.0 as int; let ghost y = at.1 as int; let ghost fs = f_sse(input.image, input.template, x, y); let ghost fi = f_ii(input.image, x, y);
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); lemma_nonneg(input.image, input.template, input.image, x, y); let t__ = typed(self.template_squared_sum); }
@ loop 0
  invariant start__0 == 0, end__0 == input.template.h(), holds(score, upto(fs, input.template.w() as int, 0, dy as int), total(fs, input.template.w() as int, input.template.h() as int)), holds(ii, upto(fi, input.template.w() as int, 0, dy as int), total(fi, input.template.w() as int, input.template.h() as int)),
@ loop 1
  invariant start__1 == 0, end__1 == input.template.w(), 0 <= dy < input.template.h(), holds(score, upto(fs, input.template.w() as int, dx as int, dy as int), total(fs, input.template.w() as int, input.template.h() as int)), holds(ii, upto(fi, input.template.w() as int, dx as int, dy as int), total(fi, input.template.w() as int, input.template.h() as int)),
@ loop 1 begin
  proof { lemma_upto(fs, input.template.w() as int, input.template.h() as int, dx as int, dy as int); lemma_upto(fi, input.template.w() as int, input.template.h() as int, dx as int, dy as int); lemma_bounds(iv(input.image, at.0 + dx, at.1 + dy), iv(input.template, dx as int, dy as int), iv(input.image, at.0 as int, at.1 as int)); }
@ tail
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); assert(norm == fsqrt(fmul(ii, self.template_squared_sum))); assert(holds(score, total(f_sse(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int), total(f_sse(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int))); assert(holds(ii, total(f_ii(input.image, x, y), input.template.w() as int, input.template.h() as int), total(f_ii(input.image, x, y), input.template.w() as int, input.template.h() as int))); assert(holds(self.template_squared_sum, total(f_tt(input.template), input.template.w() as int, input.template.h() as int), total(f_tt(input.template), input.template.w() as int, input.template.h() as int))); let g__ = normed(score, ii, self.template_squared_sum); assert(score_normed(g__, total(f_sse(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int), total(f_ii(input.image, x, y), input.template.w() as int, input.template.h() as int), total(f_tt(input.template), input.template.w() as int, input.template.h() as int))); }
@@ text
}
@@ struct template_matching.rs methods::Ccorr
@@ text
impl<'a> MatchTemplate<'a> for Ccorr {
  type Input = ImageTemplate<'a>;
  open spec fn ready(&self, input: &Self::Input) -> bool { true }
  open spec fn good(input: &Self::Input, x: int, y: int, r: f32) -> bool { holds(r, total(f_cc(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int), total(f_cc(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int)) }
@@ fn template_matching.rs methods::<Ccorr as MatchTemplate<'a>>::init
@ hdr
none
@ nopub
@ sigsub _: &Self::Input =>> input: &Self::Input
@@ fn template_matching.rs methods::<Ccorr as MatchTemplate<'a>>::score_at
@ hdr
none
@ nopub
@ floats
score
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(40)]
@ begin
  broadcast use {f32_ops, ax_f32_mul_comm, ax_f32_zero};
  let ghost x = at.0 as int; let ghost y = at.1 as int; let ghost fs = f_cc(input.image, input.template, x, y);
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); lemma_nonneg(input.image, input.template, input.image, x, y); }
@ loop 0
  invariant start__0 == 0, end__0 == input.template.h(), holds(score, upto(fs, input.template.w() as int, 0, dy as int), total(fs, input.template.w() as int, input.template.h() as int)),
@ loop 1
  invariant start__1 == 0, end__1 == input.template.w(), 0 <= dy < input.template.h(), holds(score, upto(fs, input.template.w() as int, dx as int, dy as int), total(fs, input.template.w() as int, input.template.h() as int)),
@ loop 1 begin
  proof { lemma_upto(fs, input.template.w() as int, input.template.h() as int, dx as int, dy as int); lemma_bounds(iv(input.image, at.0 + dx, at.1 + dy), iv(input.template, dx as int, dy as int), iv(input.image, at.0 as int, at.1 as int)); }
@@ text
}
@@ struct template_matching.rs methods::CcorrNormalized
@@ text
impl<'a> MatchTemplate<'a> for CcorrNormalized {
  type Input = ImageTemplate<'a>;
  open spec fn ready(&self, input: &Self::Input) -> bool { holds(self.template_squared_sum, total(f_tt(input.template), input.template.w() as int, input.template.h() as int), total(f_tt(input.template), input.template.w() as int, input.template.h() as int)) }
  open spec fn good(input: &Self::Input, x: int, y: int, r: f32) -> bool { score_normed(r, total(f_cc(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int), total(f_ii(input.image, x, y), input.template.w() as int, input.template.h() as int), total(f_tt(input.template), input.template.w() as int, input.template.h() as int)) }
@@ fn template_matching.rs methods::<CcorrNormalized as MatchTemplate<'a>>::init
@ hdr
none
@ nopub
@@ fn template_matching.rs methods::<CcorrNormalized as MatchTemplate<'a>>::score_at
@ hdr
none
@ nopub
@ floats
score ii
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(40)]
@ begin
  broadcast use {f32_ops, ax_f32_mul_comm, ax_f32_zero};
  let ghost x = at.0 as int; let ghost y = at.1 as int; let ghost fs = f_cc(input.image, input.template, x, y); let ghost fi = f_ii(input.image, x, y);
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); lemma_nonneg(input.image, input.template, input.image, x, y); let t__ = typed(self.template_squared_sum); }
@ loop 0
  invariant start__0 == 0, end__0 == input.template.h(), holds(score, upto(fs, input.template.w() as int, 0, dy as int), total(fs, input.template.w() as int, input.template.h() as int)), holds(ii, upto(fi, input.template.w() as int, 0, dy as int), total(fi, input.template.w() as int, input.template.h() as int)),
@ loop 1
  invariant start__1 == 0, end__1 == input.template.w(), 0 <= dy < input.template.h(), holds(score, upto(fs, input.template.w() as int, dx as int, dy as int), total(fs, input.template.w() as int, input.template.h() as int)), holds(ii, upto(fi, input.template.w() as int, dx as int, dy as int), total(fi, input.template.w() as int, input.template.h() as int)),
@ loop 1 begin
  proof { lemma_upto(fs, input.template.w() as int, input.template.h() as int, dx as int, dy as int); lemma_upto(fi, input.template.w() as int, input.template.h() as int, dx as int, dy as int); lemma_bounds(iv(input.image, at.0 + dx, at.1 + dy), iv(input.template, dx as int, dy as int), iv(input.image, at.0 as int, at.1 as int)); }
@ tail
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); assert(norm == fsqrt(fmul(ii, self.template_squared_sum))); assert(holds(score, total(f_cc(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int), total(f_cc(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int))); assert(holds(ii, total(f_ii(input.image, x, y), input.template.w() as int, input.template.h() as int), total(f_ii(input.image, x, y), input.template.w() as int, input.template.h() as int))); assert(holds(self.template_squared_sum, total(f_tt(input.template), input.template.w() as int, input.template.h() as int), total(f_tt(input.template), input.template.w() as int, input.template.h() as int))); let g__ = normed(score, ii, self.template_squared_sum); assert(score_normed(g__, total(f_cc(input.image, input.template, x, y), input.template.w() as int, input.template.h() as int), total(f_ii(input.image, x, y), input.template.w() as int, input.template.h() as int), total(f_tt(input.template), input.template.w() as int, input.template.h() as int))); }
@@ text
}
@@ struct template_matching.rs methods::SseWithMask
@@ text
impl<'a> MatchTemplate<'a> for SseWithMask {
  type Input = ImageTemplateMask<'a>;
  open spec fn ready(&self, input: &Self::Input) -> bool { true }
  open spec fn good(input: &Self::Input, x: int, y: int, r: f32) -> bool { holds(r, total(f_ssem(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ssem(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int)) }
@@ fn template_matching.rs methods::<SseWithMask as MatchTemplate<'a>>::init
@ hdr
none
@ nopub
@ sigsub _: &Self::Input =>> input: &Self::Input
@@ fn template_matching.rs methods::<SseWithMask as MatchTemplate<'a>>::score_at
@ hdr
none
@ nopub
@ floats
score
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(40)]
@ begin
  broadcast use {f32_ops, ax_f32_mul_comm, ax_f32_zero};
  let ghost x = at.0 as int; let ghost y = at.1 as int; let ghost fs = f_ssem(input.inner.image, input.inner.template, input.mask, x, y);
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); lemma_nonneg(input.inner.image, input.inner.template, input.mask, x, y); }
@ loop 0
  invariant start__0 == 0, end__0 == input.inner.template.h(), holds(score, upto(fs, input.inner.template.w() as int, 0, dy as int), total(fs, input.inner.template.w() as int, input.inner.template.h() as int)),
@ loop 1
  invariant start__1 == 0, end__1 == input.inner.template.w(), 0 <= dy < input.inner.template.h(), holds(score, upto(fs, input.inner.template.w() as int, dx as int, dy as int), total(fs, input.inner.template.w() as int, input.inner.template.h() as int)),
@ loop 1 begin
  proof { lemma_upto(fs, input.inner.template.w() as int, input.inner.template.h() as int, dx as int, dy as int); lemma_bounds(iv(input.inner.image, at.0 + dx, at.1 + dy), iv(input.inner.template, dx as int, dy as int), iv(input.mask, dx as int, dy as int)); }
@@ text
}
@@ struct template_matching.rs methods::SseNormalizedWithMask
@@ text
impl<'a> MatchTemplate<'a> for SseNormalizedWithMask {
  type Input = ImageTemplateMask<'a>;
  open spec fn ready(&self, input: &Self::Input) -> bool { holds(self.template_mask_squared_sum, total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int)) }
  open spec fn good(input: &Self::Input, x: int, y: int, r: f32) -> bool { score_normed(r, total(f_ssem(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_iim(input.inner.image, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int)) }
@@ fn template_matching.rs methods::<SseNormalizedWithMask as MatchTemplate<'a>>::init
@ hdr
none
@ nopub
@@ fn template_matching.rs methods::<SseNormalizedWithMask as MatchTemplate<'a>>::score_at
@ hdr
none
@ nopub
@ floats
score im_im
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(40)]
@ begin
  broadcast use {f32_ops, ax_f32_mul_comm, ax_f32_zero};
  let ghost x = at.0 as int; let ghost y = at.1 as int; let ghost fs = f_ssem(input.inner.image, input.inner.template, input.mask, x, y); let ghost fi = f_iim(input.inner.image, input.mask, x, y);
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); lemma_nonneg(input.inner.image, input.inner.template, input.mask, x, y); let t__ = typed(self.template_mask_squared_sum); }
@ loop 0
  invariant start__0 == 0, end__0 == input.inner.template.h(), holds(score, upto(fs, input.inner.template.w() as int, 0, dy as int), total(fs, input.inner.template.w() as int, input.inner.template.h() as int)), holds(im_im, upto(fi, input.inner.template.w() as int, 0, dy as int), total(fi, input.inner.template.w() as int, input.inner.template.h() as int)),
@ loop 1
  invariant start__1 == 0, end__1 == input.inner.template.w(), 0 <= dy < input.inner.template.h(), holds(score, upto(fs, input.inner.template.w() as int, dx as int, dy as int), total(fs, input.inner.template.w() as int, input.inner.template.h() as int)), holds(im_im, upto(fi, input.inner.template.w() as int, dx as int, dy as int), total(fi, input.inner.template.w() as int, input.inner.template.h() as int)),
@ loop 1 begin
  proof { lemma_upto(fs, input.inner.template.w() as int, input.inner.template.h() as int, dx as int, dy as int); lemma_upto(fi, input.inner.template.w() as int, input.inner.template.h() as int, dx as int, dy as int); lemma_bounds(iv(input.inner.image, at.0 + dx, at.1 + dy), iv(input.inner.template, dx as int, dy as int), iv(input.mask, dx as int, dy as int)); }
@ tail
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); assert(norm == fsqrt(fmul(im_im, self.template_mask_squared_sum))); assert(holds(score, total(f_ssem(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ssem(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int))); assert(holds(im_im, total(f_iim(input.inner.image, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_iim(input.inner.image, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int))); assert(holds(self.template_mask_squared_sum, total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int))); let g__ = normed(score, im_im, self.template_mask_squared_sum); assert(score_normed(g__, total(f_ssem(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_iim(input.inner.image, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int))); }
@@ text
}
@@ struct template_matching.rs methods::CcorrWithMask
@@ text
impl<'a> MatchTemplate<'a> for CcorrWithMask {
  type Input = ImageTemplateMask<'a>;
  open spec fn ready(&self, input: &Self::Input) -> bool { true }
  open spec fn good(input: &Self::Input, x: int, y: int, r: f32) -> bool { holds(r, total(f_ccm(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ccm(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int)) }
@@ fn template_matching.rs methods::<CcorrWithMask as MatchTemplate<'a>>::init
@ hdr
none
@ nopub
@ sigsub _: &Self::Input =>> input: &Self::Input
@@ fn template_matching.rs methods::<CcorrWithMask as MatchTemplate<'a>>::score_at
@ hdr
none
@ nopub
@ floats
score
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(40)]
@ begin
  broadcast use {f32_ops, ax_f32_mul_comm, ax_f32_zero};
  let ghost x = at.0 as int; let ghost y = at.1 as int; let ghost fs = f_ccm(input.inner.image, input.inner.template, input.mask, x, y);
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); lemma_nonneg(input.inner.image, input.inner.template, input.mask, x, y); }
@ loop 0
  invariant start__0 == 0, end__0 == input.inner.template.h(), holds(score, upto(fs, input.inner.template.w() as int, 0, dy as int), total(fs, input.inner.template.w() as int, input.inner.template.h() as int)),
@ loop 1
  invariant start__1 == 0, end__1 == input.inner.template.w(), 0 <= dy < input.inner.template.h(), holds(score, upto(fs, input.inner.template.w() as int, dx as int, dy as int), total(fs, input.inner.template.w() as int, input.inner.template.h() as int)),
@ loop 1 begin
  proof { lemma_upto(fs, input.inner.template.w() as int, input.inner.template.h() as int, dx as int, dy as int); lemma_bounds(iv(input.inner.image, at.0 + dx, at.1 + dy), iv(input.inner.template, dx as int, dy as int), iv(input.mask, dx as int, dy as int)); }
@@ text
}
@@ struct template_matching.rs methods::CcorrNormalizedWithMask
@@ text
impl<'a> MatchTemplate<'a> for CcorrNormalizedWithMask {
  type Input = ImageTemplateMask<'a>;
  open spec fn ready(&self, input: &Self::Input) -> bool { holds(self.template_mask_squared_sum, total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int)) }
  open spec fn good(input: &Self::Input, x: int, y: int, r: f32) -> bool { score_normed(r, total(f_ccm(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_iim(input.inner.image, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int)) }
@@ fn template_matching.rs methods::<CcorrNormalizedWithMask as MatchTemplate<'a>>::init
@ hdr
none
@ nopub
@@ fn template_matching.rs methods::<CcorrNormalizedWithMask as MatchTemplate<'a>>::score_at
@ hdr
none
@ nopub
@ floats
score im_im
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(40)]
@ begin
  broadcast use {f32_ops, ax_f32_mul_comm, ax_f32_zero};
  let ghost x = at.0 as int; let ghost y = at.1 as int; let ghost fs = f_ccm(input.inner.image, input.inner.template, input.mask, x, y); let ghost fi = f_iim(input.inner.image, input.mask, x, y);
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); lemma_nonneg(input.inner.image, input.inner.template, input.mask, x, y); let t__ = typed(self.template_mask_squared_sum); }
@ loop 0
  invariant start__0 == 0, end__0 == input.inner.template.h(), holds(score, upto(fs, input.inner.template.w() as int, 0, dy as int), total(fs, input.inner.template.w() as int, input.inner.template.h() as int)), holds(im_im, upto(fi, input.inner.template.w() as int, 0, dy as int), total(fi, input.inner.template.w() as int, input.inner.template.h() as int)),
@ loop 1
  invariant start__1 == 0, end__1 == input.inner.template.w(), 0 <= dy < input.inner.template.h(), holds(score, upto(fs, input.inner.template.w() as int, dx as int, dy as int), total(fs, input.inner.template.w() as int, input.inner.template.h() as int)), holds(im_im, upto(fi, input.inner.template.w() as int, dx as int, dy as int), total(fi, input.inner.template.w() as int, input.inner.template.h() as int)),
@ loop 1 begin
  proof { lemma_upto(fs, input.inner.template.w() as int, input.inner.template.h() as int, dx as int, dy as int); lemma_upto(fi, input.inner.template.w() as int, input.inner.template.h() as int, dx as int, dy as int); lemma_bounds(iv(input.inner.image, at.0 + dx, at.1 + dy), iv(input.inner.template, dx as int, dy as int), iv(input.mask, dx as int, dy as int)); }
@ tail
  proof { broadcast use ax_f32_zero; assert(ri(0f32, 0)); assert(norm == fsqrt(fmul(im_im, self.template_mask_squared_sum))); assert(holds(score, total(f_ccm(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ccm(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int))); assert(holds(im_im, total(f_iim(input.inner.image, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_iim(input.inner.image, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int))); assert(holds(self.template_mask_squared_sum, total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int))); let g__ = normed(score, im_im, self.template_mask_squared_sum); assert(score_normed(g__, total(f_ccm(input.inner.image, input.inner.template, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_iim(input.inner.image, input.mask, x, y), input.inner.template.w() as int, input.inner.template.h() as int), total(f_ttm(input.inner.template, input.mask), input.inner.template.w() as int, input.inner.template.h() as int))); }
@@ text
}
@@ text
type M = MatchTemplateMethod;
/// the documented score of each method, without and with a mask
pub open spec fn score_ok(m: MatchTemplateMethod, im: &GrayImage, t: &GrayImage, x: int, y: int, r: f32) -> bool {
  let w = t.w() as int; let h = t.h() as int;
  let sse = total(f_sse(im, t, x, y), w, h); let cc = total(f_cc(im, t, x, y), w, h); let ii = total(f_ii(im, x, y), w, h); let tt = total(f_tt(t), w, h);
  match m {
    M::SumOfSquaredErrors => holds(r, sse, sse),
    M::SumOfSquaredErrorsNormalized => score_normed(r, sse, ii, tt),
    M::CrossCorrelation => holds(r, cc, cc),
    M::CrossCorrelationNormalized => score_normed(r, cc, ii, tt),
  }
}
pub open spec fn score_mask_ok(m: MatchTemplateMethod, im: &GrayImage, t: &GrayImage, mk: &GrayImage, x: int, y: int, r: f32) -> bool {
  let w = t.w() as int; let h = t.h() as int;
  let sse = total(f_ssem(im, t, mk, x, y), w, h); let cc = total(f_ccm(im, t, mk, x, y), w, h); let ii = total(f_iim(im, mk, x, y), w, h); let tt = total(f_ttm(t, mk), w, h);
  match m {
    M::SumOfSquaredErrors => holds(r, sse, sse),
    M::SumOfSquaredErrorsNormalized => score_normed(r, sse, ii, tt),
    M::CrossCorrelation => holds(r, cc, cc),
    M::CrossCorrelationNormalized => score_normed(r, cc, ii, tt),
  }
}
@@ fn template_matching.rs match_template
@ spec
  requires fits(image, template),
  ensures r.w() == image.w() - template.w() + 1, r.h() == image.h() - template.h() + 1,
    forall|x: int, y: int| r.inb(x, y) ==> score_ok(method, image, template, x, y, (#[trigger] r.px(x, y)).0@[0]),
@ subst?
use MatchTemplateMethod as M;
=>>
@ subst?
methods::
=>>
@@ fn template_matching.rs match_template_with_mask
@ spec
  requires fits(image, template), mask.same_dims(template),
  ensures r.w() == image.w() - template.w() + 1, r.h() == image.h() - template.h() + 1,
    forall|x: int, y: int| r.inb(x, y) ==> score_mask_ok(method, image, template, mask, x, y, (#[trigger] r.px(x, y)).0@[0]),
@ subst?
use MatchTemplateMethod as M;
=>>
@ subst?
methods::
=>>
@@ struct template_matching.rs Extremes
@@ text
pub open spec fn raster(a: (u32, u32), x: int, y: int) -> bool { a.1 < y || (a.1 == y && a.0 < x) }
/// the pixel order of find_extremes, as a lawful total order
pub trait Ordered: Primitive + PartialOrd {
  spec fn key(&self) -> int;
  proof fn law(a: Self, b: Self)
    ensures Self::obeys_partial_cmp_spec(), a.partial_cmp_spec(&b) == (if a.key() < b.key() { Some(Ordering::Less) } else if a.key() > b.key() { Some(Ordering::Greater) } else { Some(Ordering::Equal) });
}
pub open spec fn kk<T: Ordered>(im: &Image<Luma<T>>, x: int, y: int) -> int { im.px(x, y).0@[0].key() }
pub open spec fn kp<T: Ordered>(im: &Image<Luma<T>>, k: int) -> int { im.pk(k).0@[0].key() }
pub proof fn lemma_before(w: int, i: int, j: int, g: int)
  requires w >= 1, 0 <= i < w, 0 <= j, 0 <= g, j < g / w || (j == g / w && i < g % w)
  ensures j * w + i < g
{ lemma_fundamental_div_mod(g, w); lemma_mod_bound(g, w); let q = g / w;
  if j < q { assert(j * w + w <= q * w) by(nonlinear_arith) requires j + 1 <= q, w >= 1; } assert(w * q == q * w) by(nonlinear_arith); }
@@ fn template_matching.rs find_extremes
@ sigsub T: Primitive =>> T: Ordered
@ spec
  requires image.w() > 0, image.h() > 0,
  ensures
    ({ let (x, y) = (r.max_value_location.0 as int, r.max_value_location.1 as int); image.inb(x, y) && r.max_value == image.px(x, y).0@[0]
      && (forall|i: int, j: int| image.inb(i, j) ==> #[trigger] kk(image, i, j) <= kk(image, x, y)) && (forall|i: int, j: int| image.inb(i, j) && (j < y || (j == y && i < x)) ==> #[trigger] kk(image, i, j) < kk(image, x, y)) }),
    ({ let (x, y) = (r.min_value_location.0 as int, r.min_value_location.1 as int); image.inb(x, y) && r.min_value == image.px(x, y).0@[0]
      && (forall|i: int, j: int| image.inb(i, j) ==> #[trigger] kk(image, i, j) >= kk(image, x, y)) && (forall|i: int, j: int| image.inb(i, j) && (j < y || (j == y && i < x)) ==> #[trigger] kk(image, i, j) > kk(image, x, y)) }),
@ begin
  proof { assert forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == (if a.key() < b.key() { Some(Ordering::Less) } else if a.key() > b.key() { Some(Ordering::Greater) } else { Some(Ordering::Equal) }) by { T::law(a, b); } T::law(image.px(0, 0).0@[0], image.px(0, 0).0@[0]); }
@ before for (x, y, p) in
  let ghost mut gm: int = 0; let ghost mut gn: int = 0; let ghost w = image.w() as int;
  proof { lemma_pk(image, 0, 0); assert(0 * w + 0 == 0) by(nonlinear_arith); assert(1 <= image.np()) by(nonlinear_arith) requires image.w() >= 1, image.h() >= 1, image.np() == image.w() as int * image.h() as int; assert(0int % w == 0 && 0int / w == 0) by { lemma_fundamental_div_mod_converse(0, w, 0, 0); } }
@ loop 0
  invariant w == image.w(), w >= 1, end__0 == image.np(), 0 <= gm < image.np(), 0 <= gn < image.np(), gm < k__0 || gm == 0, gn < k__0 || gn == 0,
    max_value == image.pk(gm).0@[0], max_value_location.0 == gm % w, max_value_location.1 == gm / w,
    min_value == image.pk(gn).0@[0], min_value_location.0 == gn % w, min_value_location.1 == gn / w,
    forall|j: int| 0 <= j < k__0 ==> #[trigger] kp(image, j) <= kp(image, gm), forall|j: int| 0 <= j < gm ==> #[trigger] kp(image, j) < kp(image, gm),
    forall|j: int| 0 <= j < k__0 ==> #[trigger] kp(image, j) >= kp(image, gn), forall|j: int| 0 <= j < gn ==> #[trigger] kp(image, j) > kp(image, gn),
@ loop 0 end
  proof { let k = k__0 as int; let gm0 = gm; let gn0 = gn; assert(kp(image, gm0) <= kp(image, gm0)); if kp(image, k) > kp(image, gm0) { gm = k; } if kp(image, k) < kp(image, gn0) { gn = k; } }
@ tail
  proof { lemma_kp(image, gm); lemma_kp(image, gn); reveal(Image::pk);
    assert forall|i: int, j: int| image.inb(i, j) implies #[trigger] kk(image, i, j) <= kp(image, gm) && kk(image, i, j) >= kp(image, gn)
        && ((j < gm / w || (j == gm / w && i < gm % w)) ==> kk(image, i, j) < kp(image, gm)) && ((j < gn / w || (j == gn / w && i < gn % w)) ==> kk(image, i, j) > kp(image, gn)) by {
      lemma_pk(image, i, j); let k = j * w + i; assert(kk(image, i, j) == kp(image, k));
      if j < gm / w || (j == gm / w && i < gm % w) { lemma_before(w, i, j, gm); } if j < gn / w || (j == gn / w && i < gn % w) { lemma_before(w, i, j, gn); }
    } }
