@@ include prelude.rs
@@ include ieee.rs
@@ text
pub type Sub = u32;
@@ include nms.vs
@@ text
pub uninterp spec fn fsin(x: FR) -> FR;
pub uninterp spec fn fcos(x: FR) -> FR;
pub uninterp spec fn frad(x: FR) -> FR;
/// std: the sine and cosine of a finite number lie between -1 and 1
pub axiom fn ax_trig(x: FR) ensures fsin(x) is Fin, fcos(x) is Fin, -1real <= fsin(x)->Fin_0 <= 1real, -1real <= fcos(x)->Fin_0 <= 1real;
pub assume_specification[ f32::to_radians ](x: f32) -> (r: f32) ensures fr(r) == frad(fr(x));
pub assume_specification[ f32::sin_cos ](x: f32) -> (r: (f32, f32)) ensures fr(r.0) == fsin(fr(x)), fr(r.1) == fcos(fr(x));
/// floor of the length of the diagonal (f64 arithmetic, exact for sides up to 2^23)
#[verifier::external_body]
pub fn diagonal(w: u32, h: u32) -> (r: i32) requires w <= 8388608, h <= 8388608 ensures r >= 0, r * r <= w * w + h * h < (r + 1) * (r + 1)
{ ((w as f64).powi(2) + (h as f64).powi(2)).sqrt() as i32 }
pub open spec fn sin_of(m: int) -> real { fsin(frad(rn(m as real)))->Fin_0 }
pub open spec fn cos_of(m: int) -> real { fcos(frad(rn(m as real)))->Fin_0 }
/// the signed distance bin of pixel (x, y) at m degrees: x cos m + y sin m in f32, truncated
pub open spec fn rho(x: int, y: int, m: int) -> int { ftoi(fadd(rn(x as real * cos_of(m)), rn(y as real * sin_of(m))), i32::MIN as int, i32::MAX as int) }
/// does the pixel with raster index k vote for (m, d)?
pub open spec fn votes_for(im: &GrayImage, k: int, rmax: int, d: int, m: int) -> bool {
  im.pk(k).0@[0] > 0 && rho(k % (im.w() as int), k / (im.w() as int), m) + rmax == d }
/// how many of the first k pixels vote for (m, d)
pub open spec fn votes(im: &GrayImage, k: int, rmax: int, d: int, m: int) -> int decreases k {
  if k <= 0 { 0 } else { votes(im, k - 1, rmax, d, m) + if votes_for(im, k - 1, rmax, d, m) { 1int } else { 0 } } }
pub proof fn lemma_votes_bound(im: &GrayImage, k: int, rmax: int, d: int, m: int) requires k >= 0 ensures 0 <= votes(im, k, rmax, d, m) <= k decreases k
{ if k > 0 { lemma_votes_bound(im, k - 1, rmax, d, m); } }
/// bins of angles below m hold the votes of k + 1 pixels, the others of k
#[verifier::opaque]
pub open spec fn acc_ok(acc: &Image<Luma<u32>>, im: &GrayImage, rmax: int, k: int, m: int) -> bool {
  forall|d: int, a: int| acc.inb(d, a) ==> (#[trigger] acc.px(d, a)).0@[0] == votes(im, if a < m { k + 1 } else { k }, rmax, d, a) }
pub proof fn lemma_acc_next(acc: &Image<Luma<u32>>, im: &GrayImage, rmax: int, k: int)
  requires acc_ok(acc, im, rmax, k, 180), acc.h() == 180 ensures acc_ok(acc, im, rmax, k + 1, 0) { reveal(acc_ok); }
pub proof fn lemma_acc_skip(acc: &Image<Luma<u32>>, im: &GrayImage, rmax: int, k: int)
  requires acc_ok(acc, im, rmax, k, 0), k >= 0, im.pk(k).0@[0] == 0 ensures acc_ok(acc, im, rmax, k + 1, 0) { reveal(acc_ok); }
/// the bin distances are small
pub proof fn lemma_rho(xi: int, yi: int, m: int)
  requires 0 <= xi <= 8388608, 0 <= yi <= 8388608, 0 <= m < 180
  ensures fcos(frad(rn(m as real))) is Fin, fsin(frad(rn(m as real))) is Fin, rn(xi as real) == FR::Fin(xi as real), rn(yi as real) == FR::Fin(yi as real), -16777216 <= rho(xi, yi, m) <= 16777216
{
  ax_rn_int(xi); ax_rn_int(yi);
  ax_trig(frad(rn(m as real)));
  let a = xi as real * cos_of(m); let b = yi as real * sin_of(m);
  lemma_unit(xi as real, cos_of(m)); lemma_unit(yi as real, sin_of(m));
  ax_rn_int(8388608); ax_rn_int(-8388608); ax_rn_int(16777216); ax_rn_int(-16777216);
  assert(8388608 as real == 8388608real); assert(-8388608 as real == -8388608real); assert(16777216 as real == 16777216real); assert(-16777216 as real == -16777216real);
  ax_rn_mono(a, 8388608real); ax_rn_mono(-8388608real, a);
  ax_rn_mono(b, 8388608real); ax_rn_mono(-8388608real, b);
  let p = rn(a)->Fin_0; let q = rn(b)->Fin_0;
  ax_rn_mono(p + q, 16777216real); ax_rn_mono(-16777216real, p + q);
  lemma_trunc(rn(p + q)->Fin_0);
}
pub proof fn lemma_trunc(v: real) requires -16777216real <= v <= 16777216real ensures -16777216 <= trunc(v) <= 16777216 {}
pub proof fn lemma_unit(x: real, c: real) requires 0real <= x <= 8388608real, -1real <= c <= 1real ensures -8388608real <= x * c <= 8388608real
{ assert(-8388608real <= x * c <= 8388608real) by(nonlinear_arith) requires 0real <= x <= 8388608real, -1real <= c <= 1real; }
pub proof fn lemma_diag(w: int, h: int, r: int) requires 0 <= w <= 8388608, 0 <= h <= 8388608, r >= 0, r * r <= w * w + h * h ensures r <= 16777216
{ assert(r <= 16777216) by(nonlinear_arith) requires 0 <= w <= 8388608, 0 <= h <= 8388608, r >= 0, r * r <= w * w + h * h; }
/// the lines reported for the first k bins (raster order: angle by angle)
pub open spec fn reported(acc: &Image<Luma<u32>>, rad: int, thr: int, k: int) -> Seq<int> decreases k {
  if k <= 0 { Seq::empty() } else if nms(acc, rad, (k - 1) % (acc.w() as int), (k - 1) / (acc.w() as int)) >= thr { reported(acc, rad, thr, k - 1).push(k - 1) } else { reported(acc, rad, thr, k - 1) } }
pub open spec fn is_line(l: PolarLine, k: int, w: int, rmax: int) -> bool { fr(l.r) == rn((k % w - rmax) as real) && l.angle_in_degrees == k / w }
pub open spec fn lines_ok(v: Seq<PolarLine>, acc: &Image<Luma<u32>>, rmax: int, rad: int, thr: int, k: int) -> bool {
  let s = reported(acc, rad, thr, k);
  v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> is_line(#[trigger] v[i], s[i], acc.w() as int, rmax) }
/// exactly the bins that keep their votes under suppression and reach the threshold
pub proof fn lemma_reported(acc: &Image<Luma<u32>>, rad: int, thr: int, k: int, b: int)
  requires 0 <= b < k ensures reported(acc, rad, thr, k).contains(b) == (nms(acc, rad, b % (acc.w() as int), b / (acc.w() as int)) >= thr) decreases k
{
  let p = reported(acc, rad, thr, k - 1); let n = reported(acc, rad, thr, k);
  lemma_reported_range(acc, rad, thr, k - 1);
  if b < k - 1 { lemma_reported(acc, rad, thr, k - 1, b);
    if n != p { if p.contains(b) { let i = choose|i: int| 0 <= i < p.len() && p[i] == b; assert(n[i] == b); } if n.contains(b) { let i = choose|i: int| 0 <= i < n.len() && n[i] == b; assert(p[i] == b); } } }
  else { if n != p { assert(n[p.len() as int] == b); } else { if n.contains(b) { let i = choose|i: int| 0 <= i < n.len() && n[i] == b; assert(p[i] < k - 1); } } }
}
pub proof fn lemma_reported_range(acc: &Image<Luma<u32>>, rad: int, thr: int, k: int)
  ensures forall|i: int| 0 <= i < reported(acc, rad, thr, k).len() ==> 0 <= #[trigger] reported(acc, rad, thr, k)[i] < k decreases k
{ if k > 0 { lemma_reported_range(acc, rad, thr, k - 1);
  let n = reported(acc, rad, thr, k); let p = reported(acc, rad, thr, k - 1);
  assert forall|i: int| 0 <= i < n.len() implies 0 <= #[trigger] n[i] < k by { if i < p.len() { assert(n[i] == p[i]); } } } }
pub proof fn lemma_dm(x: int, y: int, w: int) requires 0 <= x < w, 0 <= y ensures (y * w + x) % w == x, (y * w + x) / w == y
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x); }
pub proof fn lemma_vote_inc(acc: &Image<Luma<u32>>, im: &GrayImage, rmax: int, k: int, d: int, m: int)
  requires acc_ok(acc, im, rmax, k, m), acc.inb(d, m), k >= 0 ensures acc.px(d, m).0@[0] == votes(im, k, rmax, d, m), acc.px(d, m).0@[0] <= k
{ reveal(acc_ok); lemma_votes_bound(im, k, rmax, d, m); }
pub proof fn lemma_vote_out(acc: &Image<Luma<u32>>, im: &GrayImage, rmax: int, k: int, d: int, m: int)
  requires acc_ok(acc, im, rmax, k, m), !acc.inb(d, m), 0 <= m < 180, acc.h() == 180, k >= 0, d == rho(k % (im.w() as int), k / (im.w() as int), m) + rmax
  ensures acc_ok(acc, im, rmax, k, m + 1) { reveal(acc_ok); }
pub proof fn lemma_vote_put(a0: &Image<Luma<u32>>, a1: &Image<Luma<u32>>, im: &GrayImage, rmax: int, k: int, d: int, m: int)
  requires acc_ok(a0, im, rmax, k, m), a0.inb(d, m), k >= 0, d == rho(k % (im.w() as int), k / (im.w() as int), m) + rmax, im.pk(k).0@[0] > 0, a1.w() == a0.w(), a1.h() == a0.h(),
    a1.px(d, m).0@[0] == votes(im, k, rmax, d, m) + 1, forall|i: int, j: int| a0.inb(i, j) && !(i == d && j == m) ==> #[trigger] a1.px(i, j) == a0.px(i, j)
  ensures acc_ok(a1, im, rmax, k, m + 1) { reveal(acc_ok); 
  assert forall|i: int, j: int| a1.inb(i, j) implies (#[trigger] a1.px(i, j)).0@[0] == votes(im, if j < m + 1 { k + 1 } else { k }, rmax, i, j) by { if i == d && j == m {} else { assert(a1.px(i, j) == a0.px(i, j)); } } }
@@ struct hough.rs PolarLine
@@ struct hough.rs LineDetectionOptions
@@ fn hough.rs detect_lines
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@ spec
  requires image.w() <= 8388608, image.h() <= 8388608, image.np() < 0x1_0000_0000, 
  ensures exists|acc: Image<Luma<u32>>, rmax: int| rmax >= 0 && rmax * rmax <= image.w() * image.w() + image.h() * image.h() < (rmax + 1) * (rmax + 1) && acc.w() == 2 * rmax + 1 && acc.h() == 180
     && #[trigger] acc_ok(&acc, image, rmax, image.np(), 0) && lines_ok(r@, &acc, rmax, options.suppression_radius as int, options.vote_threshold as int, acc.np())
@ begin
  broadcast use ieee, ax_zero_sub;
@ subst?
((width as f64).powi(2) + (height as f64).powi(2)).sqrt() as i32
=>> diagonal(width, height); proof { lemma_diag(width as int, height as int, rmax as int); }
@ subst
(0..180u32)
        .map(|deg| (deg as f32).to_radians())
        .map(f32::sin_cos)
        .collect();
=>> Vec::new(); let mut lut = lut;
  for deg in 0..180u32 invariant lut@.len() == deg, forall|m: int| 0 <= m < deg ==> fr((#[trigger] lut@[m]).0) == fsin(frad(rn(m as real))) && fr(lut@[m].1) == fcos(frad(rn(m as real)))
  { let a = (deg as f32).to_radians(); lut.push(a.sin_cos()); }
  proof { ax_zero_sub::<Luma<u32>>(0); reveal(acc_ok); assert(acc_ok(&acc, image, rmax as int, 0, 0)); }
@ subst
for (m, (s, c)) in lut.iter().enumerate() {
=>> for m in 0..lut.len()
  invariant acc_ok(&acc, image, rmax as int, y * width + x, m as int), acc.w() == 2 * rmax + 1, acc.h() == 180, x < width, y < height, width == image.w(), height == image.h(),
    0 <= y * width + x < image.np(), image.pk(y * width + x).0@[0] > 0, (y * width + x) % (width as int) == x, (y * width + x) / (width as int) == y
 { let (s, c) = lut[m]; let ghost acc0 = acc; proof { lemma_rho(x as int, y as int, m as int); }
@ before if d <=
  proof { 
    assert(d == rho(x as int, y as int, m as int) + rmax);
    if d <= 2 * rmax && d >= 0 { lemma_vote_inc(&acc, image, rmax as int, y * width + x, d as int, m as int); }
    else { lemma_vote_out(&acc, image, rmax as int, y * width + x, d as int, m as int); }
  }
@ after acc.unsafe_put_pixel(d as u32, m as u32, Luma([vote_incr]));
  proof { lemma_vote_put(&acc0, &acc, image, rmax as int, y * width + x, d as int, m as int); }
@ loop 0 before
  proof { assert(0 * width == 0); }
@ tail
  proof { assert(height * width == width * height) by(nonlinear_arith); assert(180 * acc.w() == acc.w() * 180); assert(acc_ok(&acc, image, rmax as int, image.np(), 0)); }
@ loop 0
  invariant acc_ok(&acc, image, rmax as int, y * width, 0), acc.w() == 2 * rmax + 1, acc.h() == 180, start__0 == 0, end__0 == height, width == image.w(), height == image.h()
@ loop 1
  invariant acc_ok(&acc, image, rmax as int, y * width + x, 0), acc.w() == 2 * rmax + 1, acc.h() == 180, start__1 == 0, end__1 == width, y < height, width == image.w(), height == image.h()
@ loop 1 begin
  proof { lemma_pk(image, x as int, y as int); lemma_dm(x as int, y as int, width as int); ax_rn_int(x as int); ax_rn_int(y as int); }
@ loop 1 end
  proof { if p > 0 { lemma_acc_next(&acc, image, rmax as int, y * width + x); } else { lemma_acc_skip(&acc, image, rmax as int, y * width + x); } }
@ loop 0 end
  proof { assert((y + 1) * width == y * width + width) by(nonlinear_arith); }
@ loop 2 before
  proof { assert(0 * acc.w() == 0); }
@ loop 2
  invariant lines_ok(lines@, &acc, rmax as int, options.suppression_radius as int, options.vote_threshold as int, m * acc.w()), start__2 == 0, end__2 == acc.h(), acc.w() == 2 * rmax + 1, acc.h() == 180
@ loop 3
  invariant lines_ok(lines@, &acc, rmax as int, options.suppression_radius as int, options.vote_threshold as int, m * acc.w() + r), start__3 == 0, end__3 == acc.w(), acc.w() == 2 * rmax + 1, acc.h() == 180, m < 180
@ loop 3 begin
  proof { lemma_dm(r as int, m as int, acc.w() as int); }
@ loop 2 end
  proof { assert((m + 1) * acc.w() == m * acc.w() + acc.w()) by(nonlinear_arith); }
