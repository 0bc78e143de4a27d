@@ include C05.vs
@@ text
// ---------------------------------------------------------------- bit strings
pub open spec fn bit64(v: u64, k: int) -> bool { 0 <= k < 64 && (v >> (k as u64)) & 1u64 == 1u64 }
/// number of the first n positions satisfying f
pub open spec fn count(f: spec_fn(int) -> bool, n: int) -> nat decreases n { if n <= 0 { 0 } else { count(f, n - 1) + (if f(n - 1) { 1nat } else { 0 }) } }
pub open spec fn diff64(a: u64, b: u64) -> spec_fn(int) -> bool { |k: int| bit64(a, k) != bit64(b, k) }
/// std: number of one bits
pub assume_specification[ u64::count_ones ](x: u64) -> (r: u32) ensures r == count(|k: int| bit64(x, k), 64);
pub proof fn lemma_count_ext(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, n: int)
  requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) == g(k) ensures count(f, n) == count(g, n) decreases n
{ if n > 0 { lemma_count_ext(f, g, n - 1); } }
pub proof fn lemma_count_zero(f: spec_fn(int) -> bool, n: int)
  ensures count(f, n) == 0 <==> forall|k: int| 0 <= k < n ==> !#[trigger] f(k), count(f, n) <= (if n > 0 { n } else { 0 }) decreases n
{ if n > 0 { lemma_count_zero(f, n - 1); } }
pub proof fn lemma_count_tri(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, h: spec_fn(int) -> bool, n: int)
  requires forall|k: int| 0 <= k < n && #[trigger] h(k) ==> f(k) || g(k) ensures count(h, n) <= count(f, n) + count(g, n) decreases n
{ if n > 0 { lemma_count_tri(f, g, h, n - 1); } }
pub open spec fn ham64(a: u64, b: u64) -> nat { count(diff64(a, b), 64) }
proof fn lemma_eq64(a: u64, b: u64) requires forall|k: u64| 0 <= k < 64 ==> #[trigger] bit64(a, k as int) == bit64(b, k as int) ensures a == b
{
  assert forall|k: u64| k < 64 implies #[trigger] ((a >> k) & 1u64) == ((b >> k) & 1u64) by { assert(bit64(a, k as int) == bit64(b, k as int)); assert((a >> k) & 1u64 == 0 || (a >> k) & 1u64 == 1) by(bit_vector); assert((b >> k) & 1u64 == 0 || (b >> k) & 1u64 == 1) by(bit_vector); }
  assert(a == b) by(bit_vector) requires forall|k: u64| k < 64 ==> #[trigger] ((a >> k) & 1u64) == ((b >> k) & 1u64);
}
/// the property: a metric
proof fn lemma_metric64(a: u64, b: u64, c: u64)
  ensures ham64(a, b) == ham64(b, a), ham64(a, b) == 0 <==> a == b, ham64(a, c) <= ham64(a, b) + ham64(b, c), ham64(a, b) <= 64
{
  lemma_count_ext(diff64(a, b), diff64(b, a), 64); lemma_count_zero(diff64(a, b), 64); lemma_count_tri(diff64(a, b), diff64(b, c), diff64(a, c), 64);
  if ham64(a, b) == 0 { assert forall|k: u64| 0 <= k < 64 implies #[trigger] bit64(a, k as int) == bit64(b, k as int) by { assert(!diff64(a, b)(k as int)); } lemma_eq64(a, b); }
}
proof fn lemma_set(v: u64, r: u64, n: u64, on: bool)
  requires n < 64, r == (if on { v | (1u64 << n) } else { v & !(1u64 << n) })
  ensures forall|k: int| 0 <= k < 64 ==> #[trigger] bit64(r, k) == if k == n { on } else { bit64(v, k) }
{
  assert forall|k: int| 0 <= k < 64 implies #[trigger] bit64(r, k) == (if k == n { on } else { bit64(v, k) }) by {
    let j = k as u64;
    if on { assert((r >> j) & 1u64 == if j == n { 1u64 } else { (v >> j) & 1u64 }) by(bit_vector) requires n < 64, j < 64, r == v | (1u64 << n); }
    else { assert((r >> j) & 1u64 == if j == n { 0u64 } else { (v >> j) & 1u64 }) by(bit_vector) requires n < 64, j < 64, r == v & !(1u64 << n); }
  }
}
@@ struct image_hash/bits.rs Bits64
@@ const image_hash/bits.rs Bits64::N
@@ fn image_hash/bits.rs Bits64::zeros
@ spec
  ensures r.0 == 0,
@@ fn image_hash/bits.rs Bits64::set_bit_at
@ spec
  requires n < 64,
  ensures forall|k: int| 0 <= k < 64 ==> #[trigger] bit64(final(self).0, k) == if k == n { true } else { bit64(old(self).0, k) },
@ end
  proof { lemma_set(old(self).0, self.0, n as u64, true); }
@@ fn image_hash/bits.rs Bits64::unset_bit_at
@ spec
  requires n < 64,
  ensures forall|k: int| 0 <= k < 64 ==> #[trigger] bit64(final(self).0, k) == if k == n { false } else { bit64(old(self).0, k) },
@ end
  proof { lemma_set(old(self).0, self.0, n as u64, false); }
@@ fn image_hash/bits.rs Bits64::bit_at
@ spec
  requires n < 64,
  ensures r == bit64(self.0, n as int),
@ tail
  proof { let v = self.0; let j = n as u64; assert((bit != 0) == ((v >> j) & 1u64 == 1u64)) by(bit_vector) requires j < 64, bit == v & (1u64 << j); }
@@ fn image_hash/bits.rs Bits64::xor
@ spec
  ensures r.0 == self.0 ^ other.0,
@@ fn image_hash/bits.rs Bits64::hamming_distance
@ spec
  ensures r == ham64(self.0, other.0),
@ begin
  proof { let a = self.0; let b = other.0; let x = a ^ b;
    assert forall|k: int| 0 <= k < 64 implies #[trigger] bit64(x, k) == diff64(a, b)(k) by { let j = k as u64; assert(((x >> j) & 1u64 == 1u64) == (((a >> j) & 1u64 == 1u64) != ((b >> j) & 1u64 == 1u64))) by(bit_vector) requires x == a ^ b; }
    lemma_count_ext(|k: int| bit64(x, k), diff64(a, b), 64); }
@@ fn image_hash/bits.rs Bits64::new
@ sigsub impl IntoIterator<Item = bool> =>> Vec<bool>
@ spec
  requires v@.len() == 64,
  ensures forall|k: int| 0 <= k < 64 ==> #[trigger] bit64(r.0, k) == v@[k],
@ subst
for bit in v {
=>> for i__ in 0..v.len() invariant v@.len() == 64, n == i__, forall|k: int| 0 <= k < i__ ==> #[trigger] bit64(bits.0, k) == v@[k], { let bit = v[i__];
@ loops 0
@ subst?
let mut n = 0;
=>> let mut n: usize = 0;
@@ text
// ---------------------------------------------------------------- binary descriptors
pub open spec fn bit128(v: u128, k: int) -> bool { 0 <= k < 128 && (v >> (k as u128)) & 1u128 == 1u128 }
pub assume_specification[ u128::count_ones ](x: u128) -> (r: u32) ensures r == count(|k: int| bit128(x, k), 128);
pub open spec fn diff128(a: u128, b: u128) -> spec_fn(int) -> bool { |k: int| bit128(a, k) != bit128(b, k) }
pub open spec fn ham128(a: u128, b: u128) -> nat { count(diff128(a, b), 128) }
/// bit k of a chunked bit string
pub open spec fn sbit(s: Seq<u128>, k: int) -> bool { bit128(s[k / 128], k % 128) }
pub open spec fn hams(a: Seq<u128>, b: Seq<u128>, n: int) -> nat decreases n { if n <= 0 { 0 } else { hams(a, b, n - 1) + ham128(a[n - 1], b[n - 1]) } }
/// chunk by chunk or bit by bit: the same number
pub proof fn lemma_hams(a: Seq<u128>, b: Seq<u128>, n: int)
  requires 0 <= n ensures hams(a, b, n) == count(|k: int| sbit(a, k) != sbit(b, k), n * 128), hams(a, b, n) <= 128 * n decreases n
{
  if n > 0 { lemma_hams(a, b, n - 1); let f = |k: int| sbit(a, k) != sbit(b, k); lemma_count_zero(diff128(a[n - 1], b[n - 1]), 128); lemma_shift(f, diff128(a[n - 1], b[n - 1]), (n - 1) * 128, 128); }
}
proof fn lemma_shift(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, base: int, m: int)
  requires 0 <= m, 0 <= base, forall|k: int| 0 <= k < m ==> #[trigger] g(k) == f(base + k) ensures count(f, base + m) == count(f, base) + count(g, m) decreases m
{ if m > 0 { lemma_shift(f, g, base, m - 1); assert(g(m - 1) == f(base + (m - 1))); } }
proof fn lemma_xor128(a: u128, b: u128)
  ensures count(|k: int| bit128(a ^ b, k), 128) == ham128(a, b)
{
  let x = a ^ b;
  assert forall|k: int| 0 <= k < 128 implies #[trigger] bit128(x, k) == diff128(a, b)(k) by { let j = k as u128; assert(((x >> j) & 1u128 == 1u128) == (((a >> j) & 1u128 == 1u128) != ((b >> j) & 1u128 == 1u128))) by(bit_vector) requires x == a ^ b; }
  lemma_count_ext(|k: int| bit128(x, k), diff128(a, b), 128);
}
proof fn lemma_shl_add(p: u128, v: u128)
  requires v == 0 || v == 1 ensures (p << 1u128) as int + v <= u128::MAX, forall|k: int| 0 <= k < 128 ==> #[trigger] bit128(((p << 1u128) + v) as u128, k) == if k == 0 { v == 1 } else { bit128(p, k - 1) }
{
  assert((p << 1u128) <= 0xffffffff_ffffffff_ffffffff_fffffffeu128) by(bit_vector);
  let q = ((p << 1u128) + v) as u128;
  assert forall|k: int| 0 <= k < 128 implies #[trigger] bit128(q, k) == (if k == 0 { v == 1 } else { bit128(p, k - 1) }) by {
    let j = k as u128; let i = (k - 1) as u128;
    if k == 0 { assert(q & 1u128 == v) by(bit_vector) requires q == add(p << 1u128, v), v == 0u128 || v == 1u128; assert(q >> 0u128 == q) by(bit_vector); }
    else { assert((q >> j) & 1u128 == (p >> i) & 1u128) by(bit_vector) requires q == add(p << 1u128, v), v == 0u128 || v == 1u128, 0u128 < j < 128u128, i == sub(j, 1u128); }
  }
}
@@ struct point.rs Point
@ opts
#[derive(Clone, Copy)]
@@ struct corners.rs Corner
@ opts
#[derive(Clone, Copy)]
@@ struct binary_descriptors/brief.rs BriefDescriptor
@@ struct binary_descriptors/brief.rs TestPair
@ opts
#[derive(Clone, Copy)]
@@ const binary_descriptors/constants.rs BRIEF_PATCH_RADIUS
@@ const binary_descriptors/constants.rs BRIEF_PATCH_DIAMETER
@@ text
pub trait BinaryDescriptor {
  spec fn nbits(&self) -> int;
  spec fn bitv(&self, k: int) -> bool;
  fn get_size(&self) -> (r: u32) requires self.nbits() <= u32::MAX ensures r == self.nbits();
  fn hamming_distance(&self, other: &Self) -> (r: u32)
    requires self.nbits() == other.nbits(), self.nbits() <= u32::MAX
    ensures r == count(|k: int| self.bitv(k) != other.bitv(k), self.nbits());
  fn get_bit_subset(&self, bits: &[u32]) -> (r: u128)
    requires bits@.len() <= 128, forall|i: int| 0 <= i < bits@.len() ==> #[trigger] bits@[i] < self.nbits(),
    ensures forall|i: int| 0 <= i < bits@.len() ==> bit128(r, bits@.len() - 1 - i) == self.bitv(#[trigger] bits@[i] as int);
}
impl BinaryDescriptor for BriefDescriptor {
  open spec fn nbits(&self) -> int { self.bits@.len() as int * 128 }
  open spec fn bitv(&self, k: int) -> bool { sbit(self.bits@, k) }
@@ fn binary_descriptors/brief.rs <BriefDescriptor as BinaryDescriptor>::get_size
@ hdr
none
@ nopub
@@ fn binary_descriptors/brief.rs <BriefDescriptor as BinaryDescriptor>::hamming_distance
@ hdr
none
@ nopub
@ subst
self.bits
            .iter()
            .zip(other.bits.iter())
            .fold(0, |acc, x| acc + (x.0 ^ x.1).count_ones())
=>>
  let mut acc__: u32 = 0;
  for i__ in 0..self.bits.len()
    invariant self.bits@.len() == other.bits@.len(), self.bits@.len() * 128 <= u32::MAX, acc__ == hams(self.bits@, other.bits@, i__ as int), i__ <= self.bits@.len(),
  { let x = (&self.bits[i__], &other.bits[i__]); let acc = acc__;
    proof { lemma_xor128(*x.0, *x.1); lemma_hams(self.bits@, other.bits@, i__ as int); lemma_count_zero(diff128(*x.0, *x.1), 128); }
    acc__ = acc + (*x.0 ^ *x.1).count_ones(); }
  proof { lemma_hams(self.bits@, other.bits@, self.bits@.len() as int); lemma_count_ext(|k: int| sbit(self.bits@, k) != sbit(other.bits@, k), |k: int| self.bitv(k) != other.bitv(k), self.bits@.len() as int * 128); }
  acc__
@@ fn binary_descriptors/brief.rs <BriefDescriptor as BinaryDescriptor>::get_bit_subset
@ hdr
none
@ nopub
@ subst?
let mut subset = 0;
=>> let mut subset: u128 = 0;
@ subst
for b in bits {
=>> for i__ in 0..bits.len()
   invariant bits@.len() <= 128, forall|i: int| 0 <= i < bits@.len() ==> #[trigger] bits@[i] < self.bits@.len() * 128,
     forall|i: int| 0 <= i < i__ ==> bit128(subset, i__ - 1 - i) == self.bitv(#[trigger] bits@[i] as int),
 { let b = &bits[i__]; let ghost p0 = subset; let ghost w = self.bits@[*b as int / 128]; let ghost j = (*b % 128) as u128;
   proof { let v = (w >> j) % 2; assert(v == (w >> j) & 1u128) by(bit_vector) requires v == (w >> j) % 2; assert(v == 0 || v == 1); lemma_shl_add(p0, v); 
     assert(subset << 1 == subset << 1u128) by(bit_vector);
     assert forall|k: int| 0 <= k < 128 implies #[trigger] bit128(((p0 << 1u128) + v) as u128, k) == (if k == 0 { v == 1 } else { bit128(p0, k - 1) }) by {}
     assert(self.bitv(bits@[i__ as int] as int) == (v == 1)); assert((w >> (*b % 128)) == w >> j) by(bit_vector) requires j == (*b % 128) as u128; }
@ loops 0
@@ text
}
@@ text
// ---------------------------------------------------------------- BRIEF
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
/// mean of the window of the given radius around (x, y) clipped to the image (0 if it is empty)
pub open spec fn wmean(im: &GrayImage, x: int, y: int, radius: int) -> int {
  let l = imax(x - radius, 0); let t = imax(y - radius, 0); let r = imin(x + radius + 1, im.w() as int); let b = imin(y + radius + 1, im.h() as int);
  let area = (b - t) * (r - l);
  if radius == 0 || area <= 0 { 0 } else { rect_sum(im, false, 0, l, t, r, b) / area }
}
proof fn lemma_rect_le(im: &GrayImage, l: int, t: int, r: int, b: int)
  requires 0 <= l <= r, 0 <= t <= b ensures 0 <= rect_sum(im, false, 0, l, t, r, b) <= 255 * ((b - t) * (r - l)) decreases b - t
{ if t < b { lemma_rect_le(im, l, t, r, b - 1); lemma_rseg_le(im, l, r, b - 1); assert((b - t) * (r - l) == (b - 1 - t) * (r - l) + (r - l)) by(nonlinear_arith); } }
proof fn lemma_rseg_le(im: &GrayImage, l: int, r: int, j: int)
  requires 0 <= l <= r ensures 0 <= rseg(im, false, 0, l, r, j) <= 255 * (r - l) decreases r - l
{ if l < r { lemma_rseg_le(im, l, r - 1, j); } }
@@ fn binary_descriptors/brief.rs local_pixel_average
@ sigsub (integral_image =>> (Ghost(im): Ghost<&GrayImage>, integral_image
@ spec
  requires is_integral(im, false, integral_image), fits(im, false), integral_image.w() <= u32::MAX - 64, integral_image.h() <= u32::MAX - 64, x + radius + 1 <= u32::MAX, y + radius + 1 <= u32::MAX, radius <= 15, x <= im.w() + radius, y <= im.h() + radius,
  ensures r as int == wmean(im, x as int, y as int, radius as int),
@ before let pixel_area
  proof { assert(x_min <= x_max && y_min <= y_max); assert((y_max - y_min) * (x_max - x_min) <= 31 * 31) by(nonlinear_arith) requires 0 <= y_max - y_min <= 31, 0 <= x_max - x_min <= 31; assert((y_max - y_min) * (x_max - x_min) >= 0) by(nonlinear_arith) requires 0 <= y_max - y_min <= 31, 0 <= x_max - x_min <= 31; }
@ before let total_intensity
  proof { let (l, t, r, b) = (x_min as int, y_min as int, x_max as int, y_max as int);
    lemma_rect(im, false, 0, l, t, r, b); lemma_rect_le(im, l, t, r, b); lemma_isum_mono(im, false, 0, r, t, r, b); lemma_isum_mono(im, false, 0, l, t, l, b);
    assert(bottom_right == integral_image.px(r, b).ch()[0]); assert(top_left == integral_image.px(l, t).ch()[0]); assert(top_right == integral_image.px(r, t).ch()[0]); assert(bottom_left == integral_image.px(l, b).ch()[0]); }
@ tail
  proof { assert(total_intensity / pixel_area <= 255) by(nonlinear_arith) requires 0 <= total_intensity <= 255 * pixel_area, pixel_area > 0; }
@@ text
pub open spec fn pair_ok(p: TestPair) -> bool { p.p0.x < 31 && p.p0.y < 31 && p.p1.x < 31 && p.p1.y < 31 }
/// the outcome of one pairwise test of the patch around a keypoint
pub open spec fn test_of(im: &GrayImage, kx: int, ky: int, p: TestPair) -> bool {
  wmean(im, kx - 15 + p.p0.x + 1, ky - 15 + p.p0.y + 1, 2) < wmean(im, kx - 15 + p.p1.x + 1, ky - 15 + p.p1.y + 1, 2)
}
pub open spec fn key_ok(im: &GrayImage, k: Point<u32>) -> bool { 15 < k.x && k.x + 15 <= im.w() && 15 < k.y && k.y + 15 <= im.h() }
/// every pair's test has a bit of its own: test i is bit 127 - i % 128 of chunk i / 128
pub open spec fn described(im: &GrayImage, k: Point<u32>, pairs: Seq<TestPair>, d: BriefDescriptor) -> bool {
  d.corner.x == k.x && d.corner.y == k.y && d.bits@.len() * 128 == pairs.len()
  && forall|i: int| 0 <= i < pairs.len() ==> bit128(d.bits@[i / 128], 127 - i % 128) == test_of(im, k.x as int, k.y as int, #[trigger] pairs[i])
}
#[verifier::external_body]
pub fn zero_f32() -> (r: f32) { 0. }
@@ fn binary_descriptors/brief.rs brief_impl
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@ sigsub integral_image: =>> Ghost(im): Ghost<&GrayImage>, integral_image:
@ spec
  requires is_integral(im, false, integral_image), fits(im, false), integral_image.w() <= u32::MAX - 64, integral_image.h() <= u32::MAX - 64,
    forall|i: int| 0 <= i < test_pairs@.len() ==> #[trigger] pair_ok(test_pairs@[i]), length >= 128,
  ensures r is Ok <==> length % 128 == 0 && length == test_pairs@.len() && (forall|k: int| 0 <= k < keypoints@.len() ==> key_ok(im, #[trigger] keypoints@[k])),
    r is Ok ==> r->Ok_0@.len() == keypoints@.len() && forall|k: int| 0 <= k < keypoints@.len() ==> #[trigger] described(im, keypoints@[k], test_pairs@, r->Ok_0@[k]),
@ subst
for keypoint in keypoints {
=>> for ki__ in 0..keypoints.len()
   invariant descriptors@.len() == ki__, forall|k: int| 0 <= k < ki__ ==> key_ok(im, #[trigger] keypoints@[k]) && described(im, keypoints@[k], test_pairs@, descriptors@[k]),
 { let keypoint = &keypoints[ki__];
@ subst
for (idx, test_pair) in test_pairs.iter().enumerate() {
=>> for idx in 0..test_pairs.len()
   invariant key_ok(im, *keypoint), descriptor.corner.x == keypoint.x, descriptor.corner.y == keypoint.y, test_pairs@.len() == length, length % 128 == 0,
     patch_top_left.x == keypoint.x - 15, patch_top_left.y == keypoint.y - 15, 
     descriptor.bits@.len() == (if idx == 0 { 0 } else { (idx - 1) / 128 }),
     forall|i: int| 0 <= i < descriptor.bits@.len() * 128 ==> bit128(descriptor.bits@[i / 128], 127 - i % 128) == test_of(im, keypoint.x as int, keypoint.y as int, #[trigger] test_pairs@[i]),
     ({ let b = descriptor.bits@.len() * 128; forall|i: int| b <= i < idx ==> bit128(descriptor_chunk, idx - 1 - i) == test_of(im, keypoint.x as int, keypoint.y as int, #[trigger] test_pairs@[i]) }),
 { let test_pair = &test_pairs[idx]; let ghost bits0 = descriptor.bits@; assert(pair_ok(test_pairs@[idx as int]));
@ loops 0
@ before descriptor_chunk <<= 1
   let ghost c0 = descriptor_chunk;
   proof { let v: u128 = if test_of(im, keypoint.x as int, keypoint.y as int, *test_pair) { 1 } else { 0 }; lemma_shl_add(c0, v);
     assert(c0 << 1 == c0 << 1u128) by(bit_vector); }
@ subst
score: 0.,
=>> score: zero_f32(),
@ subst
local_pixel_average(integral_image, 
=>> local_pixel_average(Ghost(im), integral_image, 
@@ text
// ---------------------------------------------------------------- matching
#[verifier::external_body]
pub struct StdRng { x: u8 }
impl StdRng {
  #[verifier::external_body] pub fn seed_from_u64(s: u64) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] pub fn from_entropy() -> (r: Self) { unimplemented!() }
  /// a number of the half-open range (which must not be empty)
  #[verifier::external_body] pub fn below(&mut self, n: u32) -> (r: u32) requires n > 0 ensures r < n { unimplemented!() }
}
/// std's HashMap as a finite map
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> HashMap<K, V> {
  pub uninterp spec fn m(&self) -> Map<K, V>;
  #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self.m().dom().contains(*k), r is Some ==> *r->0 == self.m()[*k] { unimplemented!() }
  #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
    ensures r is Some <==> old(self).m().dom().contains(*k), r is Some ==> *r->0 == old(self).m()[*k] && final(self).m() == old(self).m().insert(*k, *final(r->0)), r is None ==> final(self).m() == old(self).m() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k, v) { unimplemented!() }
}
/// floor of log2 of a number that is at least 1 (computed in f32)
#[verifier::external_body]
pub fn log2_len(n: usize) -> (r: i32) requires n >= 1 ensures 0 <= r <= 64 { (n as f32).log2() as i32 }
pub open spec fn from_db<T>(v: Seq<&T>, db: Seq<T>) -> bool { forall|i: int| 0 <= i < v.len() ==> exists|j: int| 0 <= j < db.len() && *#[trigger] v[i] == #[trigger] db[j] }
pub open spec fn table_ok<T>(t: HashMap<u128, Vec<&T>>, db: Seq<T>) -> bool { forall|h: u128| #[trigger] t.m().dom().contains(h) ==> from_db(t.m()[h]@, db) }
pub open spec fn bits_ok(b: Seq<u32>, n: int) -> bool { b.len() <= 128 && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < n }
pub open spec fn entry_ok<T>(e: (Vec<u32>, HashMap<u128, Vec<&T>>), db: Seq<T>, n: int) -> bool { bits_ok(e.0@, n) && table_ok(e.1, db) }
pub open spec fn dist<T: BinaryDescriptor>(a: T, b: T) -> nat { count(|k: int| a.bitv(k) != b.bitv(k), a.nbits()) }
pub open spec fn pair_of<T: BinaryDescriptor>(p: (&T, &T), d1: Seq<T>, d2: Seq<T>, threshold: int) -> bool {
  dist(*p.0, *p.1) < threshold && (exists|i: int| 0 <= i < d1.len() && *p.0 == #[trigger] d1[i]) && (exists|j: int| 0 <= j < d2.len() && *p.1 == #[trigger] d2[j])
}
proof fn lemma_dist_sym<T: BinaryDescriptor>(a: T, b: T) requires a.nbits() == b.nbits() ensures dist(a, b) == dist(b, a)
{ lemma_count_ext(|k: int| a.bitv(k) != b.bitv(k), |k: int| b.bitv(k) != a.bitv(k), a.nbits()); }
pub open spec fn all_n<T: BinaryDescriptor>(a: Seq<T>, b: Seq<T>, n: int) -> bool {
  0 < n <= u32::MAX && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).nbits() == n) && (forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).nbits() == n)
}
@@ fn binary_descriptors/mod.rs match_binary_descriptors
@ spec
  requires exists|n: int| #[trigger] all_n(d1@, d2@, n),
  ensures forall|k: int| 0 <= k < r@.len() ==> pair_of(#[trigger] r@[k], d1@, d2@, threshold as int),
@ begin
  let ghost n = choose|n: int| #[trigger] all_n(d1@, d2@, n);
@ subst?
let l = 3;
=>> let l: usize = 3;
@ subst
(database.len() as f32).log2() as i32
=>> log2_len(database.len())
@ subst
let bits = (0..k)
            .map(|_| rng.gen_range(0..queries[0].get_size()))
            .collect::<Vec<u32>>();
=>> let mut bits: Vec<u32> = Vec::new();
  for i__ in 0..k invariant bits@.len() == i__, 0 <= k <= 64, bits_ok(bits@, n), queries@.len() > 0, queries@[0].nbits() == n, 0 < n <= u32::MAX,
  { let b__ = rng.below(queries[0].get_size()); bits.push(b__); }
@ subst
for d in database.iter() {
=>> for di__ in 0..database.len() invariant bits_ok(bits@, n), 0 < n <= u32::MAX, table_ok(new_hashmap, database@), forall|i: int| 0 <= i < database@.len() ==> (#[trigger] database@[i]).nbits() == n,
  { let d = &database[di__]; let ghost t0 = new_hashmap;
@ subst
for _ in 0..l {
=>> for u__ in 0..l invariant forall|i: int| 0 <= i < hash_tables@.len() ==> entry_ok(#[trigger] hash_tables@[i], database@, n),
  {
@ subst
for query in queries.iter() {
=>> for qi__ in 0..queries.len() invariant forall|i: int| 0 <= i < matches@.len() ==> pair_of(#[trigger] matches@[i], d1@, d2@, threshold as int),
  { let query = &queries[qi__];
@ subst
for (bits, table) in hash_tables.iter() {
=>> for ti__ in 0..hash_tables.len() invariant from_db(candidates@, database@),
  { let bits = &hash_tables[ti__].0; let table = &hash_tables[ti__].1; assert(entry_ok(hash_tables@[ti__ as int], database@, n));
@ subst
for new_candidate in m.clone() {
=>> for mi__ in 0..m.len() invariant from_db(candidates@, database@), from_db(m@, database@),
  { let new_candidate = m[mi__];
@ subst
for c in candidates {
=>> for ci__ in 0..candidates.len() invariant best_score == u32::MAX || best_candidate is Some, best_candidate is Some ==> (exists|j: int| 0 <= j < database@.len() && *best_candidate->0 == #[trigger] database@[j]) && dist(*query, *best_candidate->0) == best_score,
  { let c = candidates[ci__];
@ subst
let mut best_candidate = None;
=>> let mut best_candidate: Option<&T> = None;
@ loops 0
@ before if best_score < threshold
  proof { if best_score < threshold { let c = *best_candidate->0; let j = choose|j: int| 0 <= j < database@.len() && c == #[trigger] database@[j]; lemma_dist_sym(*query, c); assert(*query == queries@[qi__ as int]);
    if swapped { assert(d1@[j] == c && d2@[qi__ as int] == *query); assert(pair_of((&c, query), d1@, d2@, threshold as int)); } else { assert(d2@[j] == c && d1@[qi__ as int] == *query); assert(pair_of((query, &c), d1@, d2@, threshold as int)); } } }
