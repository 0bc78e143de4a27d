@@ include prelude.rs
@@ text
use core::ops::{Add, Mul};
/// the accumulator type: `num::Num`
pub trait Num: Copy + Sized + Add<Self, Output = Self> + Mul<Self, Output = Self> { spec fn zero_() -> Self; fn zero() -> (r: Self) ensures r == Self::zero_(); }
/// lossless conversion of a subpixel into the accumulator type (`std::convert::Into`)
pub trait Into<K>: Copy { spec fn into_(self) -> K; fn into(self) -> (r: K) ensures r == self.into_(); }
/// `definitions::Clamp` (the impls are checked by C03)
pub trait Clamp<K>: Copy { spec fn clamp_(x: K) -> Self; fn clamp(x: K) -> (r: Self) ensures r == Self::clamp_(x); }
/// `a * b` and `a + b` of the accumulator type, given by their Rust operators
pub open spec fn nmul<K: Num>(a: K, b: K) -> K { a.mul_spec(b) }
pub open spec fn nadd<K: Num>(a: K, b: K) -> K { a.add_spec(b) }
/// the operators compute fixed commutative functions
#[verifier::opaque]
pub open spec fn num_ok<K: Num>() -> bool {
  K::obeys_add_spec() && K::obeys_mul_spec()
  && (forall|a: K, b: K| #[trigger] a.add_spec(b) == b.add_spec(a)) && (forall|a: K, b: K| #[trigger] a.mul_spec(b) == b.mul_spec(a))
  && (forall|a: K, b: K| #[trigger] a.mul_req(b) == b.mul_req(a)) && (forall|a: K, b: K| #[trigger] a.add_req(b) == b.add_req(a))
}
pub broadcast axiom fn ax_num_clone<K: Num>(a: K, b: K) requires #[trigger] cloned(a, b) ensures a == b;
pub open spec fn cl(v: int, n: int) -> int { if v < 0 { 0 } else if v >= n { n - 1 } else { v } }
/// channel c at (x, y), the image being continued by its border pixels
pub open spec fn samp<P: Pixel>(im: &Image<P>, c: int, x: int, y: int) -> P::Subpixel { im.px(cl(x, im.w() as int), cl(y, im.h() as int)).ch()[c] }
/// the terms of the correlation at (x, y) with the row-major kernel k of width kw and height kh, term j
pub open spec fn term<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, c: int, x: int, y: int, j: int) -> K where P::Subpixel: Into<K>
{ nmul(samp(im, c, x + j % kw - kw / 2, y + j / kw - kh / 2).into_(), k[j]) }
/// the sum of the first n terms
pub open spec fn corr<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, c: int, x: int, y: int, n: int) -> K where P::Subpixel: Into<K> decreases n
{ if n <= 0 { K::zero_() } else { nadd(corr(im, k, kw, kh, c, x, y, n - 1), term(im, k, kw, kh, c, x, y, n - 1)) } }
pub open spec fn step_ok<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, c: int, x: int, y: int, j: int) -> bool where P::Subpixel: Into<K> {
  samp(im, c, x + j % kw - kw / 2, y + j / kw - kh / 2).into_().mul_req(k[j]) && corr(im, k, kw, kh, c, x, y, j).add_req(term(im, k, kw, kh, c, x, y, j))
}
/// no partial sum leaves the accumulator's range (always true of floats)
#[verifier::opaque]
pub open spec fn fits<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int) -> bool where P::Subpixel: Into<K> {
  forall|c: int, x: int, y: int, j: int| #![trigger term(im, k, kw, kh, c, x, y, j)] 0 <= c < P::cc() && im.inb(x, y) && 0 <= j < k.len() ==> step_ok(im, k, kw, kh, c, x, y, j)
}
pub proof fn lemma_fits<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int) where P::Subpixel: Into<K>
  requires forall|c: int, x: int, y: int, j: int| 0 <= c < P::cc() && im.inb(x, y) && 0 <= j < k.len() ==> #[trigger] step_ok(im, k, kw, kh, c, x, y, j)
  ensures fits(im, k, kw, kh) { reveal(fits); }
pub proof fn lemma_term<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, c: int, x: int, y: int, kx: int, ky: int) where P::Subpixel: Into<K>
  requires 0 <= kx < kw, 0 <= ky < kh, k.len() == kw * kh
  ensures term(im, k, kw, kh, c, x, y, ky * kw + kx) == nmul(samp(im, c, x + kx - kw / 2, y + ky - kh / 2).into_(), k[ky * kw + kx]), 0 <= ky * kw + kx < k.len()
{ assert((ky * kw + kx) % kw == kx && (ky * kw + kx) / kw == ky) by { lemma_fundamental_div_mod_converse(ky * kw + kx, kw, ky, kx); }
  assert(0 <= ky * kw + kx < kw * kh) by(nonlinear_arith) requires 0 <= kx < kw, 0 <= ky < kh; }
/// THE PROPERTY for a general kernel: every output sample is f of the correlation there
pub open spec fn filtered<P: Pixel, K: Num, Q: Pixel, F: Fn(K) -> Q::Subpixel>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, f: F, r: &Image<Q>) -> bool where P::Subpixel: Into<K> {
  r.w() == im.w() && r.h() == im.h()
  && forall|x: int, y: int| r.inb(x, y) ==> #[trigger] pix_filtered(im, k, kw, kh, f, x, y, r.px(x, y))
}
pub open spec fn pix_filtered<P: Pixel, K: Num, Q: Pixel, F: Fn(K) -> Q::Subpixel>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, f: F, x: int, y: int, q: Q) -> bool where P::Subpixel: Into<K> {
  forall|c: int| 0 <= c < P::cc() ==> f.ensures((corr(im, k, kw, kh, c, x, y, k.len() as int),), #[trigger] q.ch()[c])
}
pub open spec fn clamped_px<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, x: int, y: int, q: P) -> bool where P::Subpixel: Into<K> + Clamp<K> {
  forall|c: int| 0 <= c < P::cc() ==> #[trigger] q.ch()[c] == <P::Subpixel as Clamp<K>>::clamp_(corr(im, k, kw, kh, c, x, y, k.len() as int))
}
/// every output sample is the clamped correlation
pub open spec fn clamped<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, r: &Image<P>) -> bool where P::Subpixel: Into<K> + Clamp<K> {
  r.w() == im.w() && r.h() == im.h() && forall|x: int, y: int| r.inb(x, y) ==> #[trigger] clamped_px(im, k, kw, kh, x, y, r.px(x, y))
}
/// acc holds the sums of the first n terms of every channel
#[verifier::opaque]
pub open spec fn acc_is<P: Pixel, K: Num>(acc: Seq<K>, im: &Image<P>, k: Seq<K>, kw: int, kh: int, x: int, y: int, n: int) -> bool where P::Subpixel: Into<K> {
  acc.len() == P::cc() && forall|c: int| 0 <= c < P::cc() ==> #[trigger] acc[c] == corr(im, k, kw, kh, c, x, y, n)
}
#[verifier::opaque]
pub open spec fn zeros<P: Pixel, K: Num>(acc: Seq<K>) -> bool { acc.len() == P::cc() && forall|c: int| 0 <= c < P::cc() ==> #[trigger] acc[c] == K::zero_() }
pub proof fn lemma_zeros<P: Pixel, K: Num>(acc: Seq<K>, im: &Image<P>, k: Seq<K>, kw: int, kh: int, x: int, y: int) where P::Subpixel: Into<K>
  requires zeros::<P, K>(acc) ensures acc_is(acc, im, k, kw, kh, x, y, 0), acc.len() == P::cc() { reveal(acc_is); reveal(zeros); }
/// the clamped sums
#[verifier::opaque]
pub open spec fn clamped_ch<P: Pixel, K: Num>(acc: Seq<K>, v: Seq<P::Subpixel>) -> bool where P::Subpixel: Clamp<K> {
  forall|c: int| 0 <= c < P::cc() ==> #[trigger] v[c] == <P::Subpixel as Clamp<K>>::clamp_(acc[c])
}
/// the pixels before (x, y) in row-major order hold the clamped correlation
#[verifier::opaque]
pub open spec fn part<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, out: &Image<P>, x: int, y: int) -> bool where P::Subpixel: Into<K> + Clamp<K> {
  forall|i: int, j: int| im.inb(i, j) && (j < y || j == y && i < x) ==> #[trigger] clamped_px(im, k, kw, kh, i, j, out.px(i, j))
}
pub proof fn lemma_part_start<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, out: &Image<P>) where P::Subpixel: Into<K> + Clamp<K>
  ensures part(im, k, kw, kh, out, 0, 0) { reveal(part); }
pub proof fn lemma_part_row<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, out: &Image<P>, y: int) where P::Subpixel: Into<K> + Clamp<K>
  requires part(im, k, kw, kh, out, im.w() as int, y) ensures part(im, k, kw, kh, out, 0, y + 1) { reveal(part); }
pub proof fn lemma_part_end<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, out: &Image<P>) where P::Subpixel: Into<K> + Clamp<K>
  requires part(im, k, kw, kh, out, 0, im.h() as int), out.same_dims(im) ensures clamped(im, k, kw, kh, out) { reveal(part); }
pub proof fn lemma_part_step<P: Pixel, K: Num>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, o0: &Image<P>, o1: &Image<P>, acc: Seq<K>, x: int, y: int) where P::Subpixel: Into<K> + Clamp<K>
  requires part(im, k, kw, kh, o0, x, y), acc_is(acc, im, k, kw, kh, x, y, k.len() as int),
    forall|i: int, j: int| !(i == x && j == y) ==> #[trigger] o1.px(i, j) == o0.px(i, j),
    clamped_ch::<P, K>(acc, o1.px(x, y).ch()),
  ensures part(im, k, kw, kh, o1, x + 1, y)
{ reveal(part); reveal(acc_is); reveal(clamped_ch);
  assert forall|i: int, j: int| im.inb(i, j) && (j < y || j == y && i < x + 1) implies #[trigger] clamped_px(im, k, kw, kh, i, j, o1.px(i, j)) by {
    if !(i == x && j == y) { assert(clamped_px(im, k, kw, kh, i, j, o0.px(i, j))); assert(o1.px(i, j) == o0.px(i, j)); } } }
/// a2 is a1 with one more weighted sample added in every channel
pub open spec fn summed<P: Pixel, K: Num>(a1: Seq<K>, p: P, k: K, a2: Seq<K>) -> bool where P::Subpixel: Into<K> {
  a2.len() == P::cc() && forall|c: int| 0 <= c < P::cc() ==> #[trigger] a2[c] == nadd(a1[c], nmul(p.ch()[c].into_(), k))
}
pub open spec fn can_sum<P: Pixel, K: Num>(a1: Seq<K>, p: P, k: K) -> bool where P::Subpixel: Into<K> {
  a1.len() == P::cc() && forall|c: int| 0 <= c < P::cc() ==> (#[trigger] p.ch()[c]).into_().mul_req(k) && a1[c].add_req(nmul(p.ch()[c].into_(), k))
}
pub proof fn lemma_pre<P: Pixel, K: Num>(acc: Seq<K>, im: &Image<P>, k: Seq<K>, kw: int, kh: int, x: int, y: int, kx: int, ky: int, p: P) where P::Subpixel: Into<K>
  requires acc_is(acc, im, k, kw, kh, x, y, ky * kw + kx), fits(im, k, kw, kh), im.inb(x, y), 0 <= kx < kw, 0 <= ky < kh, k.len() == kw * kh,
    p == im.px(cl(x + kx - kw / 2, im.w() as int), cl(y + ky - kh / 2, im.h() as int)),
  ensures can_sum(acc, p, k[ky * kw + kx]), 0 <= ky * kw + kx < k.len()
{ reveal(acc_is); reveal(fits); lemma_term(im, k, kw, kh, 0, x, y, kx, ky);
  assert forall|c: int| 0 <= c < P::cc() implies (#[trigger] p.ch()[c]).into_().mul_req(k[ky * kw + kx]) && acc[c].add_req(nmul(p.ch()[c].into_(), k[ky * kw + kx])) by {
    lemma_term(im, k, kw, kh, c, x, y, kx, ky); assert(acc[c] == corr(im, k, kw, kh, c, x, y, ky * kw + kx));
    let j = ky * kw + kx; let t = term(im, k, kw, kh, c, x, y, j);
    assert(j % kw == kx && j / kw == ky) by { lemma_fundamental_div_mod_converse(j, kw, ky, kx); } } }
pub proof fn lemma_post<P: Pixel, K: Num>(a1: Seq<K>, a2: Seq<K>, im: &Image<P>, k: Seq<K>, kw: int, kh: int, x: int, y: int, kx: int, ky: int, p: P) where P::Subpixel: Into<K>
  requires acc_is(a1, im, k, kw, kh, x, y, ky * kw + kx), 0 <= kx < kw, 0 <= ky < kh, k.len() == kw * kh, summed(a1, p, k[ky * kw + kx], a2),
    p == im.px(cl(x + kx - kw / 2, im.w() as int), cl(y + ky - kh / 2, im.h() as int)),
  ensures acc_is(a2, im, k, kw, kh, x, y, ky * kw + kx + 1)
{ reveal(acc_is); assert forall|c: int| 0 <= c < P::cc() implies #[trigger] a2[c] == corr(im, k, kw, kh, c, x, y, ky * kw + kx + 1) by {
    lemma_term(im, k, kw, kh, c, x, y, kx, ky); assert(a1[c] == corr(im, k, kw, kh, c, x, y, ky * kw + kx)); } }
@@ struct kernel.rs Kernel
@ opts
#[derive(Copy, Clone)]
@@ text
impl<'a, K: Copy> Kernel<'a, K> {
  pub open spec fn wf(&self) -> bool { self.width > 0 && self.height > 0 && self.data@.len() == self.width * self.height && self.data@.len() <= u32::MAX }
}
pub proof fn lemma_at(x: int, y: int, w: int, h: int) requires 0 <= x < w, 0 <= y < h ensures 0 <= y * w + x < w * h, 0 <= y * w <= w * h
{ assert(0 <= y * w + x < w * h && 0 <= y * w <= w * h) by(nonlinear_arith) requires 0 <= x < w, 0 <= y < h; }
@@ fn kernel.rs Kernel::new
@ const
@ maypanic
@ spec
  ensures r.wf(), r.data@ == data@, r.width == width, r.height == height
@@ fn kernel.rs Kernel::get
@ spec
  requires self.wf(), x < self.width, y < self.height
  ensures r == self.data@[y * self.width + x]
@ begin
  proof { lemma_at(x as int, y as int, self.width as int, self.height as int); }
@@ fn kernel.rs Kernel::get_unchecked
@ unchecked
@ spec
  requires self.wf(), x < self.width, y < self.height
  ensures r == self.data@[y * self.width + x]
@ begin
  proof { lemma_at(x as int, y as int, self.width as int, self.height as int); }
@@ fn filter/mod.rs accumulate
@ spec
  requires num_ok::<K>(), can_sum(old(acc)@, *pixel, weight),
  ensures summed(old(acc)@, *pixel, weight, final(acc)@),
@ begin
  proof { reveal(num_ok); }
@ subst
acc.iter_mut().zip(pixel.channels()).for_each(|(a, &c)| {
=>> let chs__ = pixel.channels(); let n__ = if acc.len() < chs__.len() { acc.len() } else { chs__.len() };
  for i__ in 0..n__
   invariant acc@.len() == P::cc(), n__ == P::cc(), chs__@ == pixel.ch(), chs__@.len() == P::cc(),
     forall|c: int| i__ <= c < P::cc() ==> #[trigger] acc@[c] == old(acc)@[c],
     forall|c: int| 0 <= c < i__ ==> #[trigger] acc@[c] == nadd(old(acc)@[c], nmul(pixel.ch()[c].into_(), weight)),
  { let c = chs__[i__]; proof { assert(pixel.ch()[i__ as int].into_().mul_req(weight)); } let a = &mut acc[i__];
@ subst?
c.into()
=>> Into::<K>::into(c)
@ subst
; });
=>> ; }
@@ fn filter/mod.rs clamp_and_reset
@ spec
  requires old(acc)@.len() == P::cc(), old(out_channels)@.len() == P::cc(),
  ensures final(acc)@.len() == P::cc(), final(out_channels)@.len() == P::cc(),
    zero == K::zero_() ==> zeros::<P, K>(final(acc)@), clamped_ch::<P, K>(old(acc)@, final(out_channels)@),
@ begin
  proof { reveal(zeros); reveal(clamped_ch); }
@ subst
for (accumulator, pixel_channel) in acc.iter_mut().zip(out_channels.iter_mut()) {
=>> let n__ = if acc.len() < out_channels.len() { acc.len() } else { out_channels.len() };
  for i__ in 0..n__
   invariant acc@.len() == P::cc(), out_channels@.len() == P::cc(), n__ == P::cc(),
     forall|c: int| i__ <= c < P::cc() ==> #[trigger] acc@[c] == old(acc)@[c],
     forall|c: int| 0 <= c < i__ ==> #[trigger] acc@[c] == zero,
     forall|c: int| 0 <= c < i__ ==> #[trigger] out_channels@[c] == <P::Subpixel as Clamp<K>>::clamp_(old(acc)@[c]),
  { let accumulator = &mut acc[i__]; let pixel_channel = &mut out_channels[i__];
@@ fn filter/mod.rs filter
@ sigsub F: FnMut(K) =>> F: Fn(K)
@ sigsub mut f: F =>> f: F
@ spec
  requires P::cc() == Q::cc(), kernel.wf(), num_ok::<K>(), fits(image, kernel.data@, kernel.width as int, kernel.height as int), forall|k: K| #[trigger] f.requires((k,)),
  ensures filtered(image, kernel.data@, kernel.width as int, kernel.height as int, f, &r),
@ begin
  broadcast use ax_num_clone; proof { reveal(acc_is); }
  let ghost kd = kernel.data@; let ghost kw = kernel.width as int; let ghost kh = kernel.height as int;
@ subst
for (a, c) in acc.iter_mut().zip(out_channels) {
=>> let n__ = if acc.len() < out_channels.len() { acc.len() } else { out_channels.len() };
  let ghost acc0 = acc@;
  proof { assert(acc_is(acc0, image, kd, kw, kh, x as int, y as int, kd.len() as int)); }
  for i__ in 0..n__
   invariant acc@.len() == P::cc(), out_channels@.len() == P::cc(), n__ == P::cc(), acc_is(acc0, image, kd, kw, kh, x as int, y as int, kd.len() as int),
     forall|c: int| i__ <= c < P::cc() ==> #[trigger] acc@[c] == acc0[c],
     forall|c: int| 0 <= c < i__ ==> #[trigger] acc@[c] == zero,
     forall|c: int| 0 <= c < i__ ==> f.ensures((acc0[c],), #[trigger] out_channels@[c]),
  { let a = &mut acc[i__]; let c = &mut out_channels[i__];
@ loops 4
@ loop 0
  invariant out.same_dims(image), acc_is(acc@, image, kd, kw, kh, 0, 0, 0), width == image.w(), height == image.h(),
    forall|i: int, j: int| 0 <= i < width && 0 <= j < y ==> #[trigger] pix_filtered(image, kd, kw, kh, f, i, j, out.px(i, j)),
@ loop 1
  invariant out.same_dims(image), acc_is(acc@, image, kd, kw, kh, 0, 0, 0), width == image.w(), height == image.h(), 0 <= y < height,
    forall|i: int, j: int| 0 <= i < width && 0 <= j < height && (j < y || j == y && i < x) ==> #[trigger] pix_filtered(image, kd, kw, kh, f, i, j, out.px(i, j)),
@ loop 1 begin
  let ghost out0 = out;
@ loop 2
  invariant acc_is(acc@, image, kd, kw, kh, x as int, y as int, k_y * kw), width == image.w(), height == image.h(), 0 <= y < height, 0 <= x < width,
@ loop 2 begin
  proof { assert((k_y + 1) * kw == k_y * kw + kw) by(nonlinear_arith); }
@ loop 3
  invariant acc_is(acc@, image, kd, kw, kh, x as int, y as int, k_y * kw + k_x), width == image.w(), height == image.h(), 0 <= y < height, 0 <= x < width, 0 <= k_y < k_height,
     y_p == cl(y + k_y - kh / 2, height as int),
@ before accumulate(
  let ghost a1 = acc@;
  proof { lemma_pre(a1, image, kd, kw, kh, x as int, y as int, k_x as int, k_y as int, image.px(x_p as int, y_p as int)); }
@ loop 3 end
  proof { lemma_post(a1, acc@, image, kd, kw, kh, x as int, y as int, k_x as int, k_y as int, image.px(x_p as int, y_p as int)); }
@ loop 2 after
  proof { assert(kh * kw == kd.len()) by(nonlinear_arith) requires kd.len() == kw * kh; }
@ loop 1 end
  proof { assert forall|c: int| 0 <= c < Q::cc() implies f.ensures((corr(image, kd, kw, kh, c, x as int, y as int, kd.len() as int),), #[trigger] out.px(x as int, y as int).ch()[c]) by { assert(acc0[c] == corr(image, kd, kw, kh, c, x as int, y as int, kd.len() as int)); }
    assert forall|i: int, j: int| 0 <= i < width && 0 <= j < height && (j < y || j == y && i < x + 1) implies #[trigger] pix_filtered(image, kd, kw, kh, f, i, j, out.px(i, j)) by {
      if !(i == x && j == y) { assert(pix_filtered(image, kd, kw, kh, f, i, j, out0.px(i, j))); assert(out.px(i, j) == out0.px(i, j)); } } }
@@ fn filter/mod.rs horizontal_filter
@ opts
#[verifier::rlimit(250)]
#[verifier::loop_isolation(false)]
@ spec
  requires num_ok::<K>(), image.w() + kernel@.len() <= i32::MAX, image.h() + kernel@.len() <= i32::MAX, fits(image, kernel@, kernel@.len() as int, 1),
  ensures clamped(image, kernel@, kernel@.len() as int, 1, &r),
@ begin
  broadcast use ax_num_clone;
  let ghost kd = kernel@; let ghost kw = kernel@.len() as int;
@ subst
for (i, k) in kernel.iter().enumerate() {
=>> let ghost out0 = out;
  proof { lemma_zeros(acc@, image, kd, kw, 1, x as int, y as int); }
  let ke__ = kernel.len();
  for i in 0..ke__
    invariant acc@.len() == P::cc(), acc_is(acc@, image, kd, kw, 1, x as int, y as int, i as int), 0 <= x < width, 0 <= y < height, out == out0, ke__ == kw,
  { let k = &kernel[i];
@ subst
accumulate(&mut acc, &p, *k);
=>> let ghost a1 = acc@;
   proof { lemma_pre(a1, image, kd, kw, 1, x as int, y as int, i as int, 0, p); }
   accumulate(&mut acc, &p, *k);
   proof { lemma_post(a1, acc@, image, kd, kw, 1, x as int, y as int, i as int, 0, p); }
@ subst
clamp_and_reset::<P, K>(&mut acc, out_channels, zero);
=>> let ghost a1 = acc@;
   clamp_and_reset::<P, K>(&mut acc, out_channels, zero);
   proof { lemma_part_step(image, kd, kw, 1, &out0, &out, a1, x as int, y as int); }
@ before let half_k
  proof { assert(zeros::<P, K>(acc@)) by { reveal(zeros); } lemma_part_start(image, kd, kw, 1, &out); }
@ tail
  proof { lemma_part_end(image, kd, kw, 1, &out); }
@ before return out
  proof { lemma_part_end(image, kd, kw, 1, &out); }
@ loops 6
@ loop 0
  invariant out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, kw, 1, &out, 0, y as int),
@ loop 0 end
  proof { lemma_part_row(image, kd, kw, 1, &out, y as int); }
@ loop 1
  invariant 0 <= y < height, out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, kw, 1, &out, x as int, y as int),
@ loop 2
  invariant out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, kw, 1, &out, 0, y as int),
@ loop 2 end
  proof { lemma_part_row(image, kd, kw, 1, &out, y as int); }
@ loop 3
  invariant 0 <= y < height, out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, kw, 1, &out, x as int, y as int),
@ loop 4
  invariant 0 <= y < height, out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, kw, 1, &out, x as int, y as int),
@ loop 5
  invariant 0 <= y < height, out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, kw, 1, &out, x as int, y as int),
@@ fn filter/mod.rs vertical_filter
@ opts
#[verifier::rlimit(250)]
#[verifier::loop_isolation(false)]
@ spec
  requires num_ok::<K>(), image.w() + kernel@.len() <= i32::MAX, image.h() + kernel@.len() <= i32::MAX, fits(image, kernel@, 1, kernel@.len() as int),
  ensures clamped(image, kernel@, 1, kernel@.len() as int, &r),
@ begin
  broadcast use ax_num_clone;
  let ghost kd = kernel@; let ghost kw = kernel@.len() as int;
@ subst
for (i, k) in kernel.iter().enumerate() {
=>> let ghost out0 = out;
  proof { lemma_zeros(acc@, image, kd, 1, kw, x as int, y as int); }
  let ke__ = kernel.len();
  for i in 0..ke__
    invariant acc@.len() == P::cc(), acc_is(acc@, image, kd, 1, kw, x as int, y as int, i as int), 0 <= x < width, 0 <= y < height, out == out0, ke__ == kw,
  { let k = &kernel[i];
@ subst
accumulate(&mut acc, &p, *k);
=>> let ghost a1 = acc@;
   proof { lemma_pre(a1, image, kd, 1, kw, x as int, y as int, 0, i as int, p); }
   accumulate(&mut acc, &p, *k);
   proof { lemma_post(a1, acc@, image, kd, 1, kw, x as int, y as int, 0, i as int, p); }
@ subst
clamp_and_reset::<P, K>(&mut acc, out_channels, zero);
=>> let ghost a1 = acc@;
   clamp_and_reset::<P, K>(&mut acc, out_channels, zero);
   proof { lemma_part_step(image, kd, 1, kw, &out0, &out, a1, x as int, y as int); }
@ before let half_k
  proof { assert(zeros::<P, K>(acc@)) by { reveal(zeros); } lemma_part_start(image, kd, 1, kw, &out); }
@ tail
  proof { lemma_part_end(image, kd, 1, kw, &out); }
@ before return out
  proof { lemma_part_end(image, kd, 1, kw, &out); }
@ loops 8
@ loop 0
  invariant out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, 1, kw, &out, 0, y as int),
@ loop 0 end
  proof { lemma_part_row(image, kd, 1, kw, &out, y as int); }
@ loop 1
  invariant 0 <= y < height, out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, 1, kw, &out, x as int, y as int),
@ loop 2
  invariant out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, 1, kw, &out, 0, y as int),
@ loop 2 end
  proof { lemma_part_row(image, kd, 1, kw, &out, y as int); }
@ loop 3
  invariant 0 <= y < height, out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, 1, kw, &out, x as int, y as int),
@ loop 4
  invariant out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, 1, kw, &out, 0, y as int),
@ loop 4 end
  proof { lemma_part_row(image, kd, 1, kw, &out, y as int); }
@ loop 5
  invariant 0 <= y < height, out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, 1, kw, &out, x as int, y as int),
@ loop 6
  invariant out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, 1, kw, &out, 0, y as int),
@ loop 6 end
  proof { lemma_part_row(image, kd, 1, kw, &out, y as int); }
@ loop 7
  invariant 0 <= y < height, out.same_dims(image), zeros::<P, K>(acc@), part(image, kd, 1, kw, &out, x as int, y as int),
@@ fn filter/mod.rs separable_filter
@ spec
  requires num_ok::<K>(), h_kernel@.len() == v_kernel@.len(), image.w() + h_kernel@.len() <= i32::MAX, image.h() + h_kernel@.len() <= i32::MAX,
    fits(image, h_kernel@, h_kernel@.len() as int, 1), forall|h: &Image<P>| #[trigger] h.same_dims(image) && clamped(image, h_kernel@, h_kernel@.len() as int, 1, h) ==> fits(h, v_kernel@, 1, v_kernel@.len() as int),
  ensures separated(image, h_kernel@, v_kernel@, &r),
@ subst
let h = horizontal_filter(image, h_kernel);
=>> let h = horizontal_filter(image, h_kernel); proof { assert(h.same_dims(image)); }
@@ fn filter/mod.rs separable_filter_equal
@ spec
  requires num_ok::<K>(), image.w() + kernel@.len() <= i32::MAX, image.h() + kernel@.len() <= i32::MAX,
    fits(image, kernel@, kernel@.len() as int, 1), forall|h: &Image<P>| #[trigger] h.same_dims(image) && clamped(image, kernel@, kernel@.len() as int, 1, h) ==> fits(h, kernel@, 1, kernel@.len() as int),
  ensures separated(image, kernel@, kernel@, &r),
@@ text
/// vertical correlation of the clamped horizontal correlation
pub open spec fn separated<P: Pixel, K: Num>(im: &Image<P>, hk: Seq<K>, vk: Seq<K>, r: &Image<P>) -> bool where P::Subpixel: Into<K> + Clamp<K> {
  exists|h: &Image<P>| #[trigger] clamped(im, hk, hk.len() as int, 1, h) && clamped(h, vk, 1, vk.len() as int, r)
}
/// `P: WithChannel<S>`, `ChannelMap<P, S>`
pub trait WithChannel<C: Primitive>: Pixel { type Out: Pixel<Subpixel = C>; proof fn ax_out() ensures Self::Out::cc() == Self::cc(); }
/// every output sample is the correlation clamped to the output's subpixel type
pub open spec fn clamped_to<P: Pixel, K: Num, S: Primitive + Clamp<K>, Q: Pixel<Subpixel = S>>(im: &Image<P>, k: Seq<K>, kw: int, kh: int, r: &Image<Q>) -> bool where P::Subpixel: Into<K> {
  r.w() == im.w() && r.h() == im.h() && forall|x: int, y: int, c: int| r.inb(x, y) && 0 <= c < P::cc() ==> #[trigger] r.px(x, y).ch()[c] == <S as Clamp<K>>::clamp_(corr(im, k, kw, kh, c, x, y, k.len() as int))
}
@@ text
/// applies `filter`, and reads its postcondition for an f that clamps
pub fn filtered_clamp<P: Pixel, K: Num, F: Fn(K) -> Q::Subpixel, Q: Pixel>(image: &Image<P>, kernel: Kernel<K>, f: F) -> (r: Image<Q>) where P::Subpixel: Into<K>, Q::Subpixel: Clamp<K>
  requires kernel.wf(), num_ok::<K>(), fits(image, kernel.data@, kernel.width as int, kernel.height as int), P::cc() == Q::cc(), forall|k: K| f.requires((k,)),
    forall|k: K, q: Q::Subpixel| #[trigger] f.ensures((k,), q) ==> q == <Q::Subpixel as Clamp<K>>::clamp_(k),
  ensures clamped_to::<P, K, Q::Subpixel, Q>(image, kernel.data@, kernel.width as int, kernel.height as int, &r),
{ let r: Image<Q> = filter(image, kernel, f);
  proof { assert forall|x: int, y: int, c: int| r.inb(x, y) && 0 <= c < P::cc() implies #[trigger] r.px(x, y).ch()[c] == <Q::Subpixel as Clamp<K>>::clamp_(corr(image, kernel.data@, kernel.width as int, kernel.height as int, c, x, y, kernel.data@.len() as int)) by {
    assert(pix_filtered(image, kernel.data@, kernel.width as int, kernel.height as int, f, x, y, r.px(x, y))); } }
  r }
@@ fn filter/mod.rs filter_clamped
@ sigsub Image<ChannelMap<P, S>> =>> Image<<P as WithChannel<S>>::Out>
@ sigsub K: Num + Copy + From<<P as image::Pixel>::Subpixel>, =>> K: Num + Copy,
@ spec
  requires kernel.wf(), num_ok::<K>(), fits(image, kernel.data@, kernel.width as int, kernel.height as int),
  ensures clamped_to(image, kernel.data@, kernel.width as int, kernel.height as int, &r),
@ begin
  proof { <P as WithChannel<S>>::ax_out(); }
@ subst?
S::clamp
=>> (|q0: K| -> (q1: S) ensures q1 == <S as Clamp<K>>::clamp_(q0) { S::clamp(q0) })
@ subst?
filter(image, kernel,
=>> filtered_clamp(image, kernel,
