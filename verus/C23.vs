@@ include prelude.rs
@@ text
use std::marker::PhantomData;
use core::ops::Range;
@@ enum haar.rs Sign
@ opts
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@ enum haar.rs HaarFeatureType
@ opts
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@ struct haar.rs Pixels
@ opts
#[derive(Copy, Clone)]
@@ struct haar.rs Blocks
@ opts
#[derive(Copy, Clone)]
@@ struct haar.rs Size
@ opts
#[derive(Copy, Clone)]
@@ struct haar.rs HaarFeature
@ opts
#[derive(Copy, Clone)]
@@ text
/// number of blocks of each type, horizontally and vertically
pub open spec fn bx(t: HaarFeatureType) -> int { match t { HaarFeatureType::TwoRegionHorizontal => 2, HaarFeatureType::ThreeRegionHorizontal => 3, HaarFeatureType::TwoRegionVertical => 1, HaarFeatureType::ThreeRegionVertical => 1, HaarFeatureType::FourRegion => 2 } }
pub open spec fn by_(t: HaarFeatureType) -> int { match t { HaarFeatureType::TwoRegionHorizontal => 1, HaarFeatureType::ThreeRegionHorizontal => 1, HaarFeatureType::TwoRegionVertical => 2, HaarFeatureType::ThreeRegionVertical => 3, HaarFeatureType::FourRegion => 2 } }
/// the feature with these parameters lies inside a w x h frame
pub open spec fn fits5(t: HaarFeatureType, w: int, h: int, bw: int, bh: int, l: int, tp: int) -> bool {
  bw >= 1 && bh >= 1 && l >= 0 && tp >= 0 && l + bx(t) * bw <= w && tp + by_(t) * bh <= h
}
impl HaarFeature {
  pub open spec fn fits(&self, w: int, h: int) -> bool { fits5(self.feature_type, w, h, self.block_size.width as int, self.block_size.height as int, self.left as int, self.top as int) }
  pub open spec fn is(&self, s: Sign, bw: int, bh: int, l: int, t: int) -> bool { self.sign == s && self.block_size.width == bw && self.block_size.height == bh && self.left == l && self.top == t }
  pub open spec fn same(&self, o: HaarFeature) -> bool { self.feature_type == o.feature_type && self.is(o.sign, o.block_size.width as int, o.block_size.height as int, o.left as int, o.top as int) }
  /// pixel column/row of block boundary number k
  pub open spec fn bc(&self, k: int) -> int { self.left + k * self.block_size.width }
  pub open spec fn br(&self, k: int) -> int { self.top + k * self.block_size.height }
}
// ---- pixel sums and integral images
pub open spec fn seg(im: &GrayImage, l: int, r: int, y: int) -> int decreases r - l { if l >= r { 0 } else { seg(im, l, r - 1, y) + im.px(r - 1, y).0@[0] } }
/// pixel sum of the block [l, r) x [t, b)
pub open spec fn block(im: &GrayImage, l: int, t: int, r: int, b: int) -> int decreases b - t { if t >= b { 0 } else { block(im, l, t, r, b - 1) + seg(im, l, r, b - 1) } }
pub open spec fn is_integral(i: &Image<Luma<u32>>, im: &GrayImage) -> bool {
  i.w() == im.w() + 1 && i.h() == im.h() + 1 && forall|x: int, y: int| 0 <= x <= im.w() && 0 <= y <= im.h() && x <= 255 && y <= 255 ==> #[trigger] i.px(x, y).0@[0] == block(im, 0, 0, x, y)
}
pub proof fn lemma_seg(im: &GrayImage, l: int, m: int, r: int, y: int) requires l <= m <= r ensures seg(im, l, r, y) == seg(im, l, m, y) + seg(im, m, r, y), 0 <= seg(im, l, r, y) <= 255 * (r - l) decreases r - l
{ if m < r { lemma_seg(im, l, m, r - 1, y); } else if l < r { lemma_seg(im, l, r - 1, r - 1, y); } }
pub proof fn lemma_block(im: &GrayImage, l: int, m: int, r: int, t: int, n: int, b: int)
  requires l <= m <= r, t <= n <= b
  ensures block(im, l, t, r, b) == block(im, l, t, m, b) + block(im, m, t, r, b), block(im, l, t, r, b) == block(im, l, t, r, n) + block(im, l, n, r, b), 0 <= block(im, l, t, r, b) <= 255 * ((r - l) * (b - t))
  decreases b - t
{
  if t < b {
    lemma_seg(im, l, m, r, b - 1);
    lemma_block(im, l, m, r, t, if n < b { n } else { b - 1 }, b - 1);
    assert((r - l) * (b - t) == (r - l) * (b - 1 - t) + (r - l)) by(nonlinear_arith);
  } else { assert((r - l) * (b - t) == 0) by(nonlinear_arith) requires b == t; }
}
/// the rectangle identity
pub proof fn lemma_rect(i: &Image<Luma<u32>>, im: &GrayImage, l: int, t: int, r: int, b: int)
  requires is_integral(i, im), 0 <= l <= r <= im.w(), 0 <= t <= b <= im.h(), r <= 255, b <= 255
  ensures block(im, l, t, r, b) == i.px(l, t).0@[0] - i.px(r, t).0@[0] - i.px(l, b).0@[0] + i.px(r, b).0@[0],
    0 <= i.px(r, b).0@[0] <= 16581375, 0 <= i.px(l, b).0@[0] <= 16581375, 0 <= i.px(r, t).0@[0] <= 16581375, 0 <= i.px(l, t).0@[0] <= 16581375
{
  lemma_block(im, 0, l, r, 0, t, b); lemma_block(im, 0, l, r, 0, t, t); lemma_block(im, 0, l, l, 0, t, b); lemma_block(im, 0, 0, l, 0, 0, t); lemma_block(im, l, r, r, 0, t, b);
  assert((r - 0) * (b - 0) <= 65025) by(nonlinear_arith) requires 0 <= r <= 255, 0 <= b <= 255;
  assert((l - 0) * (b - 0) <= 65025) by(nonlinear_arith) requires 0 <= l <= 255, 0 <= b <= 255;
  assert((r - 0) * (t - 0) <= 65025) by(nonlinear_arith) requires 0 <= r <= 255, 0 <= t <= 255;
  assert((l - 0) * (t - 0) <= 65025) by(nonlinear_arith) requires 0 <= l <= 255, 0 <= t <= 255;
}
/// pixel sum of block (i, j) of the feature
pub open spec fn blk(f: &HaarFeature, im: &GrayImage, i: int, j: int) -> int { block(im, f.bc(i), f.br(j), f.bc(i + 1), f.br(j + 1)) }
/// the value the positive feature denotes: sum over its blocks of (-1)^(i+j) * pixel sum
pub open spec fn positive(f: &HaarFeature, im: &GrayImage) -> int {
  match f.feature_type {
    HaarFeatureType::TwoRegionHorizontal => blk(f, im, 0, 0) - blk(f, im, 1, 0),
    HaarFeatureType::ThreeRegionHorizontal => blk(f, im, 0, 0) - blk(f, im, 1, 0) + blk(f, im, 2, 0),
    HaarFeatureType::TwoRegionVertical => blk(f, im, 0, 0) - blk(f, im, 0, 1),
    HaarFeatureType::ThreeRegionVertical => blk(f, im, 0, 0) - blk(f, im, 0, 1) + blk(f, im, 0, 2),
    HaarFeatureType::FourRegion => blk(f, im, 0, 0) - blk(f, im, 1, 0) - blk(f, im, 0, 1) + blk(f, im, 1, 1),
  }
}
pub open spec fn denotes(f: &HaarFeature, im: &GrayImage) -> int { if f.sign is Positive { positive(f, im) } else { -positive(f, im) } }
@@ fn haar.rs Size::new
@ spec
  ensures r.width == width, r.height == height,
@@ fn haar.rs HaarFeatureType::shape
@ spec
  ensures r.width == bx(*self), r.height == by_(*self),
@@ fn haar.rs HaarFeature::block_width
@ spec
  ensures r == self.block_size.width,
@@ fn haar.rs HaarFeature::block_height
@ spec
  ensures r == self.block_size.height,
@@ fn haar.rs HaarFeature::block_boundary
@ spec
  requires self.bc(x as int) <= 255, self.br(y as int) <= 255,
  ensures r.0 == self.bc(x as int), r.1 == self.br(y as int),
@ begin
  proof { assert(x * self.block_size.width >= 0 && y * self.block_size.height >= 0) by(nonlinear_arith) requires x >= 0, y >= 0, self.block_size.width >= 0, self.block_size.height >= 0; }
@@ fn haar.rs read
@ spec
  requires location.0 < integral.w(), location.1 < integral.h(), integral.px(location.0 as int, location.1 as int).0@[0] <= 16581375,
  ensures r == integral.px(location.0 as int, location.1 as int).0@[0],
@@ fn haar.rs feature_size
@ spec
  requires bx(feature_type) * block_size.width <= 255, by_(feature_type) * block_size.height <= 255,
  ensures r.width == bx(feature_type) * block_size.width, r.height == by_(feature_type) * block_size.height,
@@ fn haar.rs HaarFeature::evaluate
@ sigsub integral: =>> Ghost(im): Ghost<&GrayImage>, integral:
@ spec
  requires is_integral(integral, im), self.fits(255, 255), self.fits(im.w() as int, im.h() as int),
  ensures r == denotes(self, im),
@ begin
  proof {
    let w = self.block_size.width as int; let h = self.block_size.height as int; let t = self.feature_type;
    assert forall|i: int, j: int| 0 <= i < bx(t) && 0 <= j < by_(t) implies self.bc(i + 1) == self.bc(i) + w && self.br(j + 1) == self.br(j) + h
      && #[trigger] blk(self, im, i, j) == integral.px(self.bc(i), self.br(j)).0@[0] - integral.px(self.bc(i + 1), self.br(j)).0@[0] - integral.px(self.bc(i), self.br(j + 1)).0@[0] + integral.px(self.bc(i + 1), self.br(j + 1)).0@[0]
      && integral.px(self.bc(i), self.br(j)).0@[0] <= 16581375 && integral.px(self.bc(i + 1), self.br(j)).0@[0] <= 16581375 && integral.px(self.bc(i), self.br(j + 1)).0@[0] <= 16581375 && integral.px(self.bc(i + 1), self.br(j + 1)).0@[0] <= 16581375 by {
      assert((i + 1) * w == i * w + w && (j + 1) * h == j * h + h) by(nonlinear_arith);
      assert(0 <= i * w && (i + 1) * w <= bx(t) * w) by(nonlinear_arith) requires 0 <= i < bx(t), w >= 1;
      assert(0 <= j * h && (j + 1) * h <= by_(t) * h) by(nonlinear_arith) requires 0 <= j < by_(t), h >= 1;
      lemma_rect(integral, im, self.bc(i), self.br(j), self.bc(i + 1), self.br(j + 1));
    }
    assert(0 * w == 0 && 1 * w == w && 2 * w == w + w && 3 * w == w + w + w && 0 * h == 0 && 1 * h == h && 2 * h == h + h && 3 * h == h + h + h) by(nonlinear_arith);
    let b00 = blk(self, im, 0, 0); let b10 = blk(self, im, 1, 0); let b20 = blk(self, im, 2, 0); let b01 = blk(self, im, 0, 1); let b02 = blk(self, im, 0, 2); let b11 = blk(self, im, 1, 1);
  }
@ before let mul = 
  proof { assert(sum == positive(self, im)); }
@ tail
  proof {
    assert(-200000000 <= sum <= 200000000);
    assert(mul == 1 ==> self.sign == Sign::Positive); assert(mul == -1 ==> self.sign == Sign::Negative); assert(mul == 1 || mul == -1);
    assert(mul == 1 ==> sum * mul == sum) by(nonlinear_arith); assert(mul == -1 ==> sum * mul == -sum) by(nonlinear_arith);
  }
@@ text
// ---- enumeration
/// the pairs (a + i, b + j), i < n, j < m, in lexicographic order
pub open spec fn pairs(v: Seq<(u8, u8)>, a: int, n: int, b: int, m: int) -> bool {
  v.len() == n * m && forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> 0 <= i * m + j < v.len() && #[trigger] at2(v, m, i, j) == (a + i, b + j)
}
pub open spec fn at2(v: Seq<(u8, u8)>, m: int, i: int, j: int) -> (int, int) { (v[i * m + j].0 as int, v[i * m + j].1 as int) }
/// a (half-open or inclusive) range of u8: first value and number of values
pub trait ByteRange { spec fn first(&self) -> int; spec fn howmany(&self) -> int; }
impl ByteRange for Range<u8> {
  open spec fn first(&self) -> int { self.start as int }
  open spec fn howmany(&self) -> int { if self.start < self.end { self.end - self.start } else { 0 } }
}
impl ByteRange for core::ops::RangeInclusive<u8> {
  open spec fn first(&self) -> int { self@.start as int }
  open spec fn howmany(&self) -> int { if !self@.exhausted && self@.start <= self@.end { self@.end - self@.start + 1 } else { 0 } }
}
/// assumed contract of itertools' cartesian_product and of map/collect on it
pub struct VPairs { pub v: Vec<(u8, u8)> }
pub trait CartesianProduct: Sized + ByteRange { fn cartesian_product<R: ByteRange>(self, o: R) -> (r: VPairs) ensures pairs(r.v@, self.first(), self.howmany(), o.first(), o.howmany()); }
impl CartesianProduct for Range<u8> { #[verifier::external_body] fn cartesian_product<R: ByteRange>(self, o: R) -> VPairs { unimplemented!() } }
impl CartesianProduct for core::ops::RangeInclusive<u8> { #[verifier::external_body] fn cartesian_product<R: ByteRange>(self, o: R) -> VPairs { unimplemented!() } }
pub struct VMapped<F> { pub v: Vec<(u8, u8)>, pub f: F }
impl VPairs {
  pub fn map<F: Fn((u8, u8)) -> Size<Pixels>>(self, f: F) -> (r: VMapped<F>) ensures r.v == self.v, r.f == f { VMapped { v: self.v, f } }
  pub fn collect(self) -> (r: Vec<(u8, u8)>) ensures r == self.v { self.v }
}
impl<F: Fn((u8, u8)) -> Size<Pixels>> VMapped<F> {
  #[verifier::external_body]
  pub fn collect(self) -> (r: Vec<Size<Pixels>>)
    requires forall|i: int| 0 <= i < self.v@.len() ==> call_requires(self.f, (#[trigger] self.v@[i],))
    ensures r@.len() == self.v@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(self.f, (self.v@[i],), #[trigger] r@[i]),
      forall|m: int, i: int, j: int| #![trigger szat(r@, m, i, j)] at2(self.v@, m, i, j).0 >= 0 && (0 <= i * m + j < r@.len() ==> call_ensures(self.f, (self.v@[i * m + j],), r@[i * m + j]))
  { unimplemented!() }
}
pub open spec fn szat(v: Seq<Size<Pixels>>, m: int, i: int, j: int) -> (int, int) { (v[i * m + j].width as int, v[i * m + j].height as int) }
@@ fn haar.rs block_sizes
@ spec
  requires feature_shape.width >= 1, feature_shape.height >= 1,
  ensures ({
    let n = (frame_size.width / feature_shape.width) as int; let m = (frame_size.height / feature_shape.height) as int;
    &&& r@.len() == n * m
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> #[trigger] szat(r@, m, i, j) == (1 + i, 1 + j)
  }),
@ closure 0
|q__: (u8, u8)| -> (z: Size<Pixels>) ensures z.width == q__.0, z.height == q__.1
@@ fn haar.rs start_positions
@ spec
  requires inner >= 1,
  ensures r.first() == 0, r.start == 0, r.howmany() == if inner > outer { 0 } else { outer - inner + 1 },
@@ fn haar.rs feature_positions
@ spec
  requires 1 <= feature_size.width <= frame_size.width, 1 <= feature_size.height <= frame_size.height,
  ensures pairs(r@, 0, frame_size.width - feature_size.width + 1, 0, frame_size.height - feature_size.height + 1),
@@ text
/// position of a feature in the listing order: by type, block width, block height, left, top, sign
pub open spec fn tix(t: HaarFeatureType) -> int { match t { HaarFeatureType::TwoRegionHorizontal => 0, HaarFeatureType::ThreeRegionHorizontal => 1, HaarFeatureType::TwoRegionVertical => 2, HaarFeatureType::ThreeRegionVertical => 3, HaarFeatureType::FourRegion => 4 } }
pub open spec fn key6(t: int, bw: int, bh: int, l: int, tp: int, s: int) -> int { ((((t * 512 + bw) * 512 + bh) * 512 + l) * 512 + tp) * 2 + s }
impl HaarFeature {
  pub open spec fn key(&self) -> int { key6(tix(self.feature_type), self.block_size.width as int, self.block_size.height as int, self.left as int, self.top as int, if self.sign is Positive { 0 } else { 1 }) }
}
pub open spec fn listed(v: Seq<HaarFeature>, f: HaarFeature) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).same(f) }
/// v holds exactly the features that fit and have key in [k0, k1), in order
#[verifier::opaque]
pub open spec fn upto(v: Seq<HaarFeature>, w: int, h: int, k0: int, k1: int) -> bool {
  (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).fits(w, h) && k0 <= v[i].key() < k1)
  && (forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).key() < (#[trigger] v[j]).key())
  && (forall|f: HaarFeature| #[trigger] f.fits(w, h) && k0 <= f.key() < k1 ==> listed(v, f))
}
pub proof fn lemma_key_same(f: HaarFeature, g: HaarFeature) requires f.key() == g.key() ensures f.same(g) { }
pub proof fn lemma_push(v: Seq<HaarFeature>, f: HaarFeature, w: int, h: int, k0: int)
  requires upto(v, w, h, k0, f.key()), f.fits(w, h), k0 <= f.key()
  ensures upto(v.push(f), w, h, k0, f.key() + 1)
{
  reveal(upto);
  let u = v.push(f);
  assert forall|g: HaarFeature| #[trigger] g.fits(w, h) && k0 <= g.key() < f.key() + 1 implies listed(u, g) by {
    if g.key() == f.key() { lemma_key_same(f, g); assert(u[v.len() as int].same(g)); }
    else { assert(listed(v, g)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).same(g); assert(u[i].same(g)); }
  }
}
pub proof fn lemma_gap(v: Seq<HaarFeature>, w: int, h: int, k0: int, k1: int, k2: int)
  requires upto(v, w, h, k0, k1), k1 <= k2, forall|f: HaarFeature| #[trigger] f.fits(w, h) ==> !(k1 <= f.key() < k2)
  ensures upto(v, w, h, k0, k2)
{ reveal(upto); }
pub proof fn lemma_none(w: int, h: int, k0: int) ensures upto(Seq::empty(), w, h, k0, k0) { reveal(upto); }
pub proof fn lemma_join(a: Seq<HaarFeature>, b: Seq<HaarFeature>, w: int, h: int, k0: int, k1: int, k2: int)
  requires upto(a, w, h, k0, k1), upto(b, w, h, k1, k2), k0 <= k1 <= k2
  ensures upto(a + b, w, h, k0, k2)
{
  reveal(upto);
  let c = a + b;
  assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).fits(w, h) && k0 <= c[i].key() < k2 by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } }
  assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).key() < (#[trigger] c[j]).key() by {
    if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); }
    if j < a.len() { assert(c[j] == a[j]); } else { assert(c[j] == b[j - a.len()]); }
  }
  assert forall|g: HaarFeature| #[trigger] g.fits(w, h) && k0 <= g.key() < k2 implies listed(c, g) by {
    if g.key() < k1 { assert(listed(a, g)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).same(g); assert(c[i].same(g)); }
    else { assert(listed(b, g)); let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).same(g); assert(c[a.len() + i].same(g)); }
  }
}
/// sum over block sizes 1..=n of the number of positions of k blocks in a side of length s
pub open spec fn ss(s: int, k: int, n: int) -> int decreases n { if n <= 0 { 0 } else { ss(s, k, n - 1) + (s - k * n + 1) } }
pub open spec fn ntype(t: HaarFeatureType, w: int, h: int) -> int { 2 * (ss(w, bx(t), w / bx(t)) * ss(h, by_(t), h / by_(t))) }
pub proof fn lemma_div(s: int, k: int, b: int) requires s >= 0, k >= 1, b >= 1 ensures (b <= s / k) == (k * b <= s)
{
  assert(s == k * (s / k) + s % k && 0 <= s % k < k) by(nonlinear_arith) requires k >= 1;
  let q = s / k;
  if b <= q { assert(k * b <= k * q) by(nonlinear_arith) requires b <= q, k >= 1; } else { assert(k * b >= k * q + k) by(nonlinear_arith) requires b >= q + 1, k >= 1; }
}
@@ text
/// where in the listing a feature of a given type stands
pub proof fn lemma_dec(f: HaarFeature, t: int, bw: int, bh: int, l: int, tp: int)
  ensures
    key6(t, bw, bh, l, tp, 0) <= f.key() < key6(t, bw, bh, l + 1, 0, 0) && 0 <= bw && 0 <= bh && 0 <= l && 0 <= tp && bw < 256 && bh < 256 && l < 256 ==> tix(f.feature_type) == t && f.block_size.width == bw && f.block_size.height == bh && f.left == l && f.top >= tp,
    key6(t, bw, bh, l, 0, 0) <= f.key() < key6(t, bw, bh + 1, 0, 0, 0) && 0 <= bw && 0 <= bh && 0 <= l && bw < 256 && bh < 256 ==> tix(f.feature_type) == t && f.block_size.width == bw && f.block_size.height == bh && f.left >= l,
    key6(t, bw, bh, 0, 0, 0) <= f.key() < key6(t, bw + 1, 1, 0, 0, 0) && 0 <= bw && 0 <= bh && bw < 256 ==> tix(f.feature_type) == t && ((f.block_size.width == bw && f.block_size.height >= bh) || f.block_size.height == 0),
    key6(t, bw, 1, 0, 0, 0) <= f.key() < key6(t + 1, 0, 0, 0, 0, 0) && 0 <= bw ==> tix(f.feature_type) == t && f.block_size.width >= bw,
    key6(t, 0, 0, 0, 0, 0) <= f.key() < key6(t, 1, 1, 0, 0, 0) ==> f.block_size.width == 0 || f.block_size.height == 0,
{ }
pub proof fn lemma_start(w: int, h: int, ft: HaarFeatureType) ensures upto(Seq::empty(), w, h, key6(tix(ft), 0, 0, 0, 0, 0), key6(tix(ft), 1, 1, 0, 0, 0))
{
  let t = tix(ft); let k0 = key6(t, 0, 0, 0, 0, 0);
  lemma_none(w, h, k0);
  assert forall|f: HaarFeature| #[trigger] f.fits(w, h) implies !(k0 <= f.key() < key6(t, 1, 1, 0, 0, 0)) by { lemma_dec(f, t, 0, 0, 0, 0); }
  lemma_gap(Seq::empty(), w, h, k0, k0, key6(t, 1, 1, 0, 0, 0));
}
/// all tops of a column done
pub proof fn lemma_col(v: Seq<HaarFeature>, w: int, h: int, k0: int, ft: HaarFeatureType, bw: int, bh: int, l: int, tp: int)
  requires upto(v, w, h, k0, key6(tix(ft), bw, bh, l, tp, 0)), tp + by_(ft) * bh > h, 0 <= bw < 256, 0 <= bh < 256, 0 <= l < 256, 0 <= tp <= 256
  ensures upto(v, w, h, k0, key6(tix(ft), bw, bh, l + 1, 0, 0))
{
  assert forall|f: HaarFeature| #[trigger] f.fits(w, h) implies !(key6(tix(ft), bw, bh, l, tp, 0) <= f.key() < key6(tix(ft), bw, bh, l + 1, 0, 0)) by { lemma_dec(f, tix(ft), bw, bh, l, tp); }
  lemma_gap(v, w, h, k0, key6(tix(ft), bw, bh, l, tp, 0), key6(tix(ft), bw, bh, l + 1, 0, 0));
}
/// all positions of a block size done
pub proof fn lemma_blk(v: Seq<HaarFeature>, w: int, h: int, k0: int, ft: HaarFeatureType, bw: int, bh: int, l: int)
  requires upto(v, w, h, k0, key6(tix(ft), bw, bh, l, 0, 0)), l + bx(ft) * bw > w, 0 <= bw < 256, 0 <= bh < 256, 0 <= l <= 256
  ensures upto(v, w, h, k0, key6(tix(ft), bw, bh + 1, 0, 0, 0))
{
  assert forall|f: HaarFeature| #[trigger] f.fits(w, h) implies !(key6(tix(ft), bw, bh, l, 0, 0) <= f.key() < key6(tix(ft), bw, bh + 1, 0, 0, 0)) by { lemma_dec(f, tix(ft), bw, bh, l, 0); }
  lemma_gap(v, w, h, k0, key6(tix(ft), bw, bh, l, 0, 0), key6(tix(ft), bw, bh + 1, 0, 0, 0));
}
/// all block heights of a block width done
pub proof fn lemma_bw(v: Seq<HaarFeature>, w: int, h: int, k0: int, ft: HaarFeatureType, bw: int, bh: int)
  requires upto(v, w, h, k0, key6(tix(ft), bw, bh, 0, 0, 0)), by_(ft) * bh > h, 0 <= bw < 256, 0 <= bh <= 256, h >= 0
  ensures upto(v, w, h, k0, key6(tix(ft), bw + 1, 1, 0, 0, 0))
{
  assert forall|f: HaarFeature| #[trigger] f.fits(w, h) implies !(key6(tix(ft), bw, bh, 0, 0, 0) <= f.key() < key6(tix(ft), bw + 1, 1, 0, 0, 0)) by { lemma_dec(f, tix(ft), bw, bh, 0, 0); if f.block_size.height >= bh { assert(by_(ft) * f.block_size.height >= by_(ft) * bh) by(nonlinear_arith) requires f.block_size.height >= bh, by_(ft) >= 1; } }
  lemma_gap(v, w, h, k0, key6(tix(ft), bw, bh, 0, 0, 0), key6(tix(ft), bw + 1, 1, 0, 0, 0));
}
/// all block widths done
pub proof fn lemma_type(v: Seq<HaarFeature>, w: int, h: int, k0: int, ft: HaarFeatureType, bw: int)
  requires upto(v, w, h, k0, key6(tix(ft), bw, 1, 0, 0, 0)), bx(ft) * bw > w || by_(ft) > h, 0 <= bw <= 256, h >= 0
  ensures upto(v, w, h, k0, key6(tix(ft) + 1, 0, 0, 0, 0, 0))
{
  assert forall|f: HaarFeature| #[trigger] f.fits(w, h) implies !(key6(tix(ft), bw, 1, 0, 0, 0) <= f.key() < key6(tix(ft) + 1, 0, 0, 0, 0, 0)) by { lemma_dec(f, tix(ft), bw, 1, 0, 0);
    if f.block_size.width >= bw { assert(bx(ft) * f.block_size.width >= bx(ft) * bw) by(nonlinear_arith) requires f.block_size.width >= bw, bx(ft) >= 1; }
    if f.block_size.height >= 1 { assert(by_(ft) * f.block_size.height >= by_(ft)) by(nonlinear_arith) requires f.block_size.height >= 1, by_(ft) >= 1; } }
  lemma_gap(v, w, h, k0, key6(tix(ft), bw, 1, 0, 0, 0), key6(tix(ft) + 1, 0, 0, 0, 0, 0));
}
/// index arithmetic of a nested product: idx = i * m + j < n * m
pub proof fn lemma_ij(i: int, j: int, n: int, m: int)
  requires 0 <= i <= n, 0 <= j < m || (j == 0 && m == 0), m >= 0
  ensures (i * m + j < n * m) ==> i < n && j < m, i * m + j == n * m && m > 0 ==> i == n && j == 0, (i + 1) * m == i * m + m, i < n && j < m ==> i * m + j < n * m
{
  assert((i + 1) * m == i * m + m) by(nonlinear_arith);
  if m == 0 { assert(i * m == 0 && n * m == 0) by(nonlinear_arith) requires m == 0; }
  else if i == n { } else { assert(i * m + m <= n * m) by(nonlinear_arith) requires i + 1 <= n, m >= 0; }
}
@@ fn haar.rs haar_features_of_type
@ spec
  ensures upto(r@, frame_size.width as int, frame_size.height as int, key6(tix(feature_type), 0, 0, 0, 0, 0), key6(tix(feature_type) + 1, 0, 0, 0, 0, 0)), r@.len() == ntype(feature_type, frame_size.width as int, frame_size.height as int),
@ opts
#[verifier::loop_isolation(true)]
#[verifier::rlimit(60)]
@ begin
  let ghost w = frame_size.width as int; let ghost h = frame_size.height as int; let ghost ti = tix(feature_type);
  let ghost ax = bx(feature_type); let ghost ay = by_(feature_type); let ghost n = w / ax; let ghost m = h / ay; let ghost k0 = key6(ti, 0, 0, 0, 0, 0);
  let ghost mut i = 0int; let ghost mut j = 0int;
@ loop 0 before
  proof { lemma_start(w, h, feature_type); assert(features@ =~= Seq::<HaarFeature>::empty()); assert(ss(w, ax, 0) == 0 && ss(h, ay, 0) == 0);
    assert(0 * ss(h, ay, m) + (w - ax * (0 + 1) + 1) * 0 == 0) by(nonlinear_arith); }
@ loop 0 iter it
@ loop 0
  invariant w == frame_size.width, h == frame_size.height, ti == tix(feature_type), ax == bx(feature_type), ay == by_(feature_type), n == w / ax, m == h / ay, k0 == key6(ti, 0, 0, 0, 0, 0),
    it.seq().len() == n * m, forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> #[trigger] szat(it.seq(), m, i, j) == (1 + i, 1 + j),
    0 <= i, 0 <= j, it.index@ == i * m + j, j < m || (j == 0 && m == 0 && i == 0), i <= n,
    upto(features@, w, h, k0, key6(ti, 1 + i, 1 + j, 0, 0, 0)),
    features@.len() == 2 * (ss(w, ax, i) * ss(h, ay, m) + (w - ax * (i + 1) + 1) * ss(h, ay, j)),
@ loop 0 begin
  let ghost bw = 1 + i; let ghost bh = 1 + j;
  let ghost pw = w - ax * bw + 1; let ghost ph = h - ay * bh + 1; let ghost len0 = features@.len() as int;
  let ghost mut p = 0int; let ghost mut q = 0int;
  proof {
    lemma_ij(i, j, n, m);
    assert(szat(it.seq(), m, i, j) == (1 + i, 1 + j)); assert(block_size.width == bw && block_size.height == bh);
    lemma_div(w, ax, bw); lemma_div(h, ay, bh);
    assert(0 * ph == 0) by(nonlinear_arith);
    assert(ax * bw >= 1 && ay * bh >= 1) by(nonlinear_arith) requires ax >= 1, ay >= 1, bw >= 1, bh >= 1;
  }
@ loop 1 iter it1
@ loop 1
  invariant w == frame_size.width, h == frame_size.height, ti == tix(feature_type), ax == bx(feature_type), ay == by_(feature_type), k0 == key6(ti, 0, 0, 0, 0, 0),
    bw == block_size.width, bh == block_size.height, pw == w - ax * bw + 1, ph == h - ay * bh + 1, pw >= 1, ph >= 1, bw >= 1, bh >= 1,
    pairs(it1.seq(), 0, pw, 0, ph), 0 <= p <= pw, 0 <= q < ph, it1.index@ == p * ph + q,
    upto(features@, w, h, k0, key6(ti, bw, bh, p, q, 0)), features@.len() == len0 + 2 * (p * ph + q),
@ loop 1 begin
  proof { lemma_ij(p, q, pw, ph); assert(at2(it1.seq(), ph, p, q) == (0 + p, 0 + q)); assert(left == p && top == q); }
@ loop 2 iter it2
@ loop 2
  invariant w == frame_size.width, h == frame_size.height, ti == tix(feature_type), ax == bx(feature_type), ay == by_(feature_type), k0 == key6(ti, 0, 0, 0, 0, 0),
    bw == block_size.width, bh == block_size.height, pw == w - ax * bw + 1, ph == h - ay * bh + 1, bw >= 1, bh >= 1,
    p == left, q == top, p < pw, q < ph,
    it2.seq().len() == 2, *it2.seq()[0] == Sign::Positive, *it2.seq()[1] == Sign::Negative,
    upto(features@, w, h, k0, key6(ti, bw, bh, p, q, it2.index@ as int)), features@.len() == len0 + 2 * (p * ph + q) + it2.index@,
@ loop 2 begin
  let ghost v0 = features@;
@ loop 2 end
  proof { let f = features@.last(); assert(features@ =~= v0.push(f)); lemma_push(v0, f, w, h, k0); }
@ loop 1 end
  proof {
    lemma_ij(p, q, pw, ph);
    assert(key6(ti, bw, bh, p, q, 2) == key6(ti, bw, bh, p, q + 1, 0));
    q = q + 1;
    if q == ph { lemma_col(features@, w, h, k0, feature_type, bw, bh, p, q); q = 0; p = p + 1; }
  }
@ loop 0 end
  proof {
    lemma_ij(p, q, pw, ph); assert(p == pw && q == 0);
    lemma_blk(features@, w, h, k0, feature_type, bw, bh, p);
    assert(ss(h, ay, j + 1) == ss(h, ay, j) + ph);
    assert(pw * ss(h, ay, j + 1) == pw * ss(h, ay, j) + pw * ph) by(nonlinear_arith) requires ss(h, ay, j + 1) == ss(h, ay, j) + ph;
    j = j + 1;
    if j == m {
      lemma_div(h, ay, m + 1); lemma_bw(features@, w, h, k0, feature_type, bw, 1 + j);
      assert(ss(w, ax, i + 1) == ss(w, ax, i) + pw);
      assert(ss(w, ax, i + 1) * ss(h, ay, m) == ss(w, ax, i) * ss(h, ay, m) + pw * ss(h, ay, m)) by(nonlinear_arith) requires ss(w, ax, i + 1) == ss(w, ax, i) + pw;
      assert((w - ax * (i + 1 + 1) + 1) * ss(h, ay, 0) == 0) by(nonlinear_arith) requires ss(h, ay, 0) == 0;
      i = i + 1; j = 0;
    }
  }
@ loop 0 after
  proof {
    lemma_ij(i, j, n, m); lemma_div(w, ax, n + 1); lemma_div(h, ay, 1);
    if m == 0 { assert(ss(h, ay, m) == 0); assert(n * m == 0 && ss(w, ax, n) * ss(h, ay, m) == 0 && ss(w, ax, 0) * ss(h, ay, m) == 0) by(nonlinear_arith) requires m == 0, ss(h, ay, m) == 0; }
    else { assert(i == n && j == 0); }
    assert((w - ax * (i + 1) + 1) * ss(h, ay, 0) == 0) by(nonlinear_arith) requires ss(h, ay, 0) == 0;
    lemma_type(features@, w, h, k0, feature_type, 1 + i);
  }
@@ text
/// assumed contract of into_iter().flat_map(f).collect() on an array: the results of f concatenated in order
pub struct VFlat<F> { pub arr: [HaarFeatureType; 5], pub f: F }
pub open spec fn flat5<F: Fn(HaarFeatureType) -> Vec<HaarFeature>>(z: VFlat<F>, p: Seq<Vec<HaarFeature>>, r: Seq<HaarFeature>) -> bool {
  p.len() == 5 && (forall|i: int| 0 <= i < 5 ==> call_ensures(z.f, (z.arr@[i],), #[trigger] p[i])) && r == p[0]@ + p[1]@ + p[2]@ + p[3]@ + p[4]@
}
pub trait FlatMap5 { fn flat_map<F: Fn(HaarFeatureType) -> Vec<HaarFeature>>(self, f: F) -> (r: VFlat<F>) ensures r.arr == self.types5(), r.f == f; spec fn types5(&self) -> [HaarFeatureType; 5]; }
impl FlatMap5 for [HaarFeatureType; 5] {
  open spec fn types5(&self) -> [HaarFeatureType; 5] { *self }
  fn flat_map<F: Fn(HaarFeatureType) -> Vec<HaarFeature>>(self, f: F) -> VFlat<F> { VFlat { arr: self, f } }
}
impl<F: Fn(HaarFeatureType) -> Vec<HaarFeature>> VFlat<F> {
  #[verifier::external_body]
  pub fn collect(self) -> (r: Vec<HaarFeature>)
    requires forall|i: int| 0 <= i < 5 ==> call_requires(self.f, (#[trigger] self.arr@[i],))
    ensures exists|p: Seq<Vec<HaarFeature>>| flat5(self, p, r@)
  { unimplemented!() }
}
/// every feature that fits is listed, only those, each once, and there are ntype + .. of them
pub open spec fn nall(w: int, h: int) -> int { ntype(HaarFeatureType::TwoRegionHorizontal, w, h) + ntype(HaarFeatureType::ThreeRegionHorizontal, w, h) + ntype(HaarFeatureType::TwoRegionVertical, w, h) + ntype(HaarFeatureType::ThreeRegionVertical, w, h) + ntype(HaarFeatureType::FourRegion, w, h) }
pub open spec fn exactly_the_fitting(v: Seq<HaarFeature>, w: int, h: int) -> bool {
  (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).fits(w, h))
  && (forall|i: int, j: int| 0 <= i < j < v.len() ==> !(#[trigger] v[i]).same(#[trigger] v[j]))
  && (forall|f: HaarFeature| #[trigger] f.fits(w, h) ==> listed(v, f))
}
pub proof fn lemma_exact(v: Seq<HaarFeature>, w: int, h: int)
  requires upto(v, w, h, key6(0, 0, 0, 0, 0, 0), key6(5, 0, 0, 0, 0, 0))
  ensures exactly_the_fitting(v, w, h)
{ reveal(upto); assert forall|f: HaarFeature| #[trigger] f.fits(w, h) implies listed(v, f) by { assert(key6(0, 0, 0, 0, 0, 0) <= f.key() < key6(5, 0, 0, 0, 0, 0)); } }
@@ fn haar.rs enumerate_haar_features
@ spec
  ensures exactly_the_fitting(r@, frame_width as int, frame_height as int), r@.len() == nall(frame_width as int, frame_height as int),
@ closure 0
|feature_type: HaarFeatureType| -> (z: Vec<HaarFeature>) ensures upto(z@, frame_size.width as int, frame_size.height as int, key6(tix(feature_type), 0, 0, 0, 0, 0), key6(tix(feature_type) + 1, 0, 0, 0, 0, 0)), z@.len() == ntype(feature_type, frame_size.width as int, frame_size.height as int)
@ subst
feature_types.into_iter()
=>> let z__f = feature_types
@ subst
.collect()
=>> ; let ghost gz = z__f; let r__f = z__f.collect(); proof {
    let w = frame_width as int; let h = frame_height as int;
    let p = choose|p: Seq<Vec<HaarFeature>>| flat5(gz, p, r__f@);
    let a = gz.arr@;
    assert(a[0] == HaarFeatureType::TwoRegionHorizontal && a[1] == HaarFeatureType::ThreeRegionHorizontal && a[2] == HaarFeatureType::TwoRegionVertical && a[3] == HaarFeatureType::ThreeRegionVertical && a[4] == HaarFeatureType::FourRegion);
    assert forall|i: int| 0 <= i < 5 implies upto((#[trigger] p[i])@, w, h, key6(tix(a[i]), 0, 0, 0, 0, 0), key6(tix(a[i]) + 1, 0, 0, 0, 0, 0)) && p[i]@.len() == ntype(a[i], w, h) by { }
    lemma_join(p[0]@, p[1]@, w, h, key6(0, 0, 0, 0, 0, 0), key6(1, 0, 0, 0, 0, 0), key6(2, 0, 0, 0, 0, 0));
    lemma_join(p[0]@ + p[1]@, p[2]@, w, h, key6(0, 0, 0, 0, 0, 0), key6(2, 0, 0, 0, 0, 0), key6(3, 0, 0, 0, 0, 0));
    lemma_join(p[0]@ + p[1]@ + p[2]@, p[3]@, w, h, key6(0, 0, 0, 0, 0, 0), key6(3, 0, 0, 0, 0, 0), key6(4, 0, 0, 0, 0, 0));
    lemma_join(p[0]@ + p[1]@ + p[2]@ + p[3]@, p[4]@, w, h, key6(0, 0, 0, 0, 0, 0), key6(4, 0, 0, 0, 0, 0), key6(5, 0, 0, 0, 0, 0));
    lemma_exact(r__f@, w, h);
  } r__f
@@ text
/// m (m + 1) is even
pub proof fn lemma_even(m: int) requires m >= 0 ensures (m * (m + 1)) % 2 == 0, 2 * ((m * (m + 1)) / 2) == m * (m + 1) decreases m
{ if m > 0 { lemma_even(m - 1); assert(m * (m + 1) == (m - 1) * (m - 1 + 1) + 2 * m) by(nonlinear_arith); } }
/// closed form of the number of positions
pub proof fn lemma_ss(s: int, k: int, n: int) requires n >= 0 ensures 2 * ss(s, k, n) == 2 * (n * (s + 1)) - k * (n * (n + 1)) decreases n
{
  if n > 0 {
    lemma_ss(s, k, n - 1);
    assert(n * (s + 1) == (n - 1) * (s + 1) + (s + 1) && k * (n * (n + 1)) == k * ((n - 1) * (n - 1 + 1)) + 2 * (k * n)) by(nonlinear_arith);
  } else { assert(0 * (s + 1) == 0 && k * (0 * 1) == 0) by(nonlinear_arith); }
}
/// number of positions of k blocks of all sizes in a side of length s
pub open spec fn npos(s: int, k: int) -> int { ss(s, k, s / k) }
pub proof fn lemma_npos(s: int, k: int) requires 0 <= s <= 255, 1 <= k <= 3 ensures 0 <= npos(s, k), k == 1 ==> npos(s, k) <= 32640, k == 2 ==> npos(s, k) <= 16256, k == 3 ==> npos(s, k) <= 10965,
  npos(s, k) == (s / k) * (s + 1) - k * (((s / k) * (s / k + 1)) / 2), 0 <= (s / k) * (s + 1) <= 65280, 0 <= ((s / k) * (s / k + 1)) <= 65280
{
  let m = s / k;
  lemma_even(m); lemma_ss(s, k, m);
  assert(k * m <= s < k * m + k) by(nonlinear_arith) requires m == s / k, k >= 1;
  assert(k * (m * (m + 1)) == k * (2 * ((m * (m + 1)) / 2))) by(nonlinear_arith) requires 2 * ((m * (m + 1)) / 2) == m * (m + 1);
  assert(0 <= m * (s + 1) <= 65280) by(nonlinear_arith) requires 0 <= m <= 255, 0 <= s <= 255;
  assert(0 <= m * (m + 1) <= 65280) by(nonlinear_arith) requires 0 <= m <= 255;
  if k == 1 { assert(k * (m * (m + 1)) == 1 * (m * (m + 1)) && k * ((m * (m + 1)) / 2) == 1 * ((m * (m + 1)) / 2)) by(nonlinear_arith) requires k == 1; assert(m * (s + 1) == m * (m + 1)) by(nonlinear_arith) requires m == s; }
  if k == 2 { assert(k * (m * (m + 1)) == 2 * (m * (m + 1)) && k * ((m * (m + 1)) / 2) == 2 * ((m * (m + 1)) / 2)) by(nonlinear_arith) requires k == 2;
    assert(2 * (m * (s + 1)) - 2 * (m * (m + 1)) == 2 * (m * (s - m))) by(nonlinear_arith);
    assert(0 <= m * (s - m) <= 16256) by(nonlinear_arith) requires 0 <= m <= 127, m <= s - m <= 128;
  }
  if k == 3 { assert(k * (m * (m + 1)) == 3 * (m * (m + 1)) && k * ((m * (m + 1)) / 2) == 3 * ((m * (m + 1)) / 2)) by(nonlinear_arith) requires k == 3;
    assert(2 * (m * (s + 1)) - 3 * (m * (m + 1)) == m * (2 * s - 3 * m - 1)) by(nonlinear_arith);
    assert(0 <= m * (2 * s - 3 * m - 1) <= 21930) by(nonlinear_arith) requires 0 <= m <= 85, 3 * m <= s <= 3 * m + 2, s <= 255, m == 0 || 3 * m - 1 >= 0;
  }
}
@@ fn haar.rs num_features
@ spec
  requires image_side <= 255, 1 <= num_blocks <= 3,
  ensures r == npos(image_side as int, num_blocks as int),
@ begin
  proof { lemma_npos(image_side as int, num_blocks as int); lemma_even((image_side / num_blocks) as int); }
@@ fn haar.rs number_of_haar_features
@ spec
  requires width <= 255, height <= 255,
  ensures r == nall(width as int, height as int),
@ begin
  proof {
    let w = width as int; let h = height as int;
    lemma_npos(w, 1); lemma_npos(w, 2); lemma_npos(w, 3); lemma_npos(h, 1); lemma_npos(h, 2); lemma_npos(h, 3);
    assert(0 <= npos(w, 2) * npos(h, 1) <= 16256 * 32640) by(nonlinear_arith) requires 0 <= npos(w, 2) <= 16256, 0 <= npos(h, 1) <= 32640;
    assert(0 <= npos(w, 1) * npos(h, 2) <= 16256 * 32640) by(nonlinear_arith) requires 0 <= npos(h, 2) <= 16256, 0 <= npos(w, 1) <= 32640;
    assert(0 <= npos(w, 3) * npos(h, 1) <= 10965 * 32640) by(nonlinear_arith) requires 0 <= npos(w, 3) <= 10965, 0 <= npos(h, 1) <= 32640;
    assert(0 <= npos(w, 1) * npos(h, 3) <= 10965 * 32640) by(nonlinear_arith) requires 0 <= npos(h, 3) <= 10965, 0 <= npos(w, 1) <= 32640;
    assert(0 <= npos(w, 2) * npos(h, 2) <= 16256 * 16256) by(nonlinear_arith) requires 0 <= npos(h, 2) <= 16256, 0 <= npos(w, 2) <= 16256;
  }
