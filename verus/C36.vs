@@ include prelude.rs
@@ text
/// rand: a generator is a state; a sample is a function of the state, and so is the next state
#[verifier::external_body] pub struct StdRng { x: u8 }
impl StdRng { pub uninterp spec fn st(&self) -> int; }
pub struct SeedableRng;
pub uninterp spec fn seeded(seed: u64) -> int;
impl SeedableRng { #[verifier::external_body] pub fn seed_from_u64(seed: u64) -> (r: StdRng) ensures r.st() == seeded(seed) { unimplemented!() } }
pub struct Normal { pub mean: f64, pub dev: f64 }
pub struct Uniform { pub lo: f64, pub hi: f64 }
pub uninterp spec fn dev_ok(x: f64) -> bool;
pub uninterp spec fn nsample(mean: f64, dev: f64, s: int) -> f64;
pub uninterp spec fn nnext(mean: f64, dev: f64, s: int) -> int;
pub uninterp spec fn usample(lo: f64, hi: f64, s: int) -> f64;
pub uninterp spec fn unext(lo: f64, hi: f64, s: int) -> int;
impl Normal {
  /// fails exactly for a standard deviation that is not finite
  #[verifier::external_body] pub fn new(mean: f64, dev: f64) -> (r: Result<Normal, ()>) ensures r.is_ok() == dev_ok(dev), r matches Ok(n) ==> n.mean == mean && n.dev == dev { unimplemented!() }
  #[verifier::external_body] pub fn sample(&self, rng: &mut StdRng) -> (r: f64) ensures r == nsample(self.mean, self.dev, old(rng).st()), final(rng).st() == nnext(self.mean, self.dev, old(rng).st()) { unimplemented!() }
}
impl Uniform {
  #[verifier::external_body] pub fn new(lo: f64, hi: f64) -> (r: Uniform) ensures r.lo == lo, r.hi == hi { unimplemented!() }
  #[verifier::external_body] pub fn sample(&self, rng: &mut StdRng) -> (r: f64) ensures r == usample(self.lo, self.hi, old(rng).st()), final(rng).st() == unext(self.lo, self.hi, old(rng).st()) { unimplemented!() }
}
/// f64 operations are fixed functions
pub uninterp spec fn dadd(a: f64, b: f64) -> f64;
pub uninterp spec fn dgt(a: f64, b: f64) -> bool;
pub uninterp spec fn dge(a: f64, b: f64) -> bool;
pub broadcast axiom fn ax_dadd(a: f64, b: f64, o: f64) requires #[trigger] add_ensures::<f64>(a, b, o) ensures o == dadd(a, b);
pub broadcast axiom fn ax_dareq(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_dgt(a: f64, b: f64, o: bool) requires #[trigger] gt_ensures::<f64>(a, b, o) ensures o == dgt(a, b);
pub broadcast axiom fn ax_dge(a: f64, b: f64, o: bool) requires #[trigger] ge_ensures::<f64>(a, b, o) ensures o == dge(a, b);
pub broadcast group dfl { ax_dadd, ax_dareq, ax_dgt, ax_dge }
pub trait Into<T>: Sized { spec fn into_(self) -> T; fn into_f64(self) -> (r: T) ensures r == self.into_(); }
pub trait Clamp<T>: Sized { spec fn clamp_(x: T) -> Self; fn clamp(x: T) -> (r: Self) ensures r == Self::clamp_(x); }
pub trait HasBlack: Sized { spec fn black_() -> Self; fn black() -> (r: Self) ensures r == Self::black_(); }
pub trait HasWhite: Sized { spec fn white_() -> Self; fn white() -> (r: Self) ensures r == Self::white_(); }
/// state of the generator before draw k of the normal distribution
pub open spec fn nstate(mean: f64, dev: f64, seed: u64, k: int) -> int decreases k { if k <= 0 { seeded(seed) } else { nnext(mean, dev, nstate(mean, dev, seed, k - 1)) } }
/// channel c of pixel k is changed by draw k * channels + c
pub open spec fn noisy<P: Pixel>(a: &Image<P>, b: &Image<P>, mean: f64, dev: f64, seed: u64, n: int) -> bool where P::Subpixel: Into<f64> + Clamp<f64> {
  b.w() == a.w() && b.h() == a.h() && (forall|k: int| 0 <= k < n ==> npix(a.pk(k), #[trigger] b.pk(k), mean, dev, seed, k)) && forall|k: int| n <= k < a.np() ==> #[trigger] b.pk(k) == a.pk(k) }
pub open spec fn npix<P: Pixel>(p: P, q: P, mean: f64, dev: f64, seed: u64, k: int) -> bool where P::Subpixel: Into<f64> + Clamp<f64> {
  forall|c: int| 0 <= c < P::cc() ==> #[trigger] q.ch()[c] == nval(p.ch()[c], mean, dev, seed, k * P::cc() + c) }
pub open spec fn nval<S: Into<f64> + Clamp<f64>>(v: S, mean: f64, dev: f64, seed: u64, k: int) -> S { S::clamp_(dadd(v.into_(), nsample(mean, dev, nstate(mean, dev, seed, k)))) }
/// salt and pepper: pixel k in generator state s
pub open spec fn hit(rate: f64, s: int) -> bool { !dgt(usample(0.0, 1.0, s), rate) }
pub open spec fn sstate(rate: f64, seed: u64, k: int) -> int decreases k { if k <= 0 { seeded(seed) } else { let s = sstate(rate, seed, k - 1); let t = unext(0.0, 1.0, s); if hit(rate, s) { unext(0.0, 1.0, t) } else { t } } }
pub open spec fn spix<P: HasBlack + HasWhite>(p: P, rate: f64, s: int) -> P { if hit(rate, s) { if dge(usample(0.0, 1.0, unext(0.0, 1.0, s)), 0.5) { P::white_() } else { P::black_() } } else { p } }
pub open spec fn salted<P: Pixel + HasBlack + HasWhite>(a: &Image<P>, b: &Image<P>, rate: f64, seed: u64, n: int) -> bool {
  b.w() == a.w() && b.h() == a.h() && (forall|k: int| 0 <= k < n ==> #[trigger] b.pk(k) == spix(a.pk(k), rate, sstate(rate, seed, k))) && forall|k: int| n <= k < a.np() ==> #[trigger] b.pk(k) == a.pk(k) }
/// equal inputs give equal outputs, and every pixel is unchanged, black or white
pub proof fn theorem_salt<P: Pixel + HasBlack + HasWhite>(a: &Image<P>, b: &Image<P>, c: &Image<P>, rate: f64, seed: u64) requires salted(a, b, rate, seed, a.np()), salted(a, c, rate, seed, a.np())
  ensures forall|k: int| 0 <= k < a.np() ==> #[trigger] b.pk(k) == c.pk(k) && (b.pk(k) == a.pk(k) || b.pk(k) == P::black_() || b.pk(k) == P::white_()) {}
pub proof fn theorem_noise<P: Pixel>(a: &Image<P>, b: &Image<P>, c: &Image<P>, mean: f64, dev: f64, seed: u64) where P::Subpixel: Into<f64> + Clamp<f64>
  requires noisy(a, b, mean, dev, seed, a.np()), noisy(a, c, mean, dev, seed, a.np())
  ensures forall|k: int| 0 <= k < a.np() ==> #[trigger] b.pk(k).ch() =~= c.pk(k).ch()
{ assert forall|k: int| 0 <= k < a.np() implies #[trigger] b.pk(k).ch() =~= c.pk(k).ch() by { b.pk(k).ax_cc(); c.pk(k).ax_cc(); assert(npix(a.pk(k), b.pk(k), mean, dev, seed, k)); assert(npix(a.pk(k), c.pk(k), mean, dev, seed, k)); } }
@@ fn noise.rs gaussian_noise_mut
@ spec
  requires dev_ok(stddev)
  ensures noisy(old(image), final(image), mean, stddev, seed, old(image).np())
@ begin
  broadcast use dfl;
  let ghost o = *image;
@ subst
.into()
=>> .into_f64()
@ subst
for c in p.channels_mut() {
=>> let ghost k = k__0 as int; let ghost cc = P::cc() as int; let ch__ = p.channels_mut(); let n__ = ch__.len(); let ghost c0 = ch__@;
  proof { assert(c0 == o.pk(k).ch()); assert((k + 1) * cc == k * cc + cc) by(nonlinear_arith); }
  for c__ in 0..n__
    invariant n__ == cc, ch__@.len() == cc, cc == P::cc(), rng.st() == nstate(mean, stddev, seed, k * cc + c__), normal.mean == mean, normal.dev == stddev, k * cc >= 0,
      forall|i: int| c__ <= i < cc ==> #[trigger] ch__@[i] == c0[i], forall|i: int| 0 <= i < c__ ==> #[trigger] ch__@[i] == nval(c0[i], mean, stddev, seed, k * cc + i),
  { let c = &mut ch__[c__];
@ loop 0
  invariant noisy(&o, image, mean, stddev, seed, k__0 as int), rng.st() == nstate(mean, stddev, seed, k__0 * P::cc()), normal.mean == mean, normal.dev == stddev, k__0 * P::cc() >= 0,
@@ fn noise.rs gaussian_noise
@ spec
  requires dev_ok(stddev)
  ensures noisy(image, &r, mean, stddev, seed, image.np())
@ begin
  proof { reveal(Image::pk); }
@@ fn noise.rs salt_and_pepper_noise_mut
@ spec
  ensures salted(old(image), final(image), rate, seed, old(image).np())
@ begin
  broadcast use dfl;
  let ghost o = *image;
@ loop 0
  invariant salted(&o, image, rate, seed, k__0 as int), rng.st() == sstate(rate, seed, k__0 as int), uniform.lo == 0.0f64, uniform.hi == 1.0f64,
@@ fn noise.rs salt_and_pepper_noise
@ spec
  ensures salted(image, &r, rate, seed, image.np())
@ begin
  proof { reveal(Image::pk); }
