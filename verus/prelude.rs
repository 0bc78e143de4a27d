// Stand-ins for the `image` crate and std functions used by the extracted code. Everything marked external_body /
// assume_specification / axiom here is an ASSUMED contract (listed in the evidence as the trusted base).
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use core::cmp::{self, min, max, Ordering};
use core::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;

#[verifier::external_body]
pub fn vpanic() -> (r: !) requires false { panic!() }
#[verifier::external_body]
#[verifier::exec_allows_no_decreases_clause]
pub const fn vhalt() -> (r: !) { panic!() }

#[verifier::external_body]
pub fn vfmt() -> (r: String) { unimplemented!() }
pub fn bor(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }

pub assume_specification<T: Ord + core::marker::Destruct> [core::cmp::min::<T>] (a: T, b: T) -> (r: T)
  ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { b } else { a });
pub assume_specification<T: Ord + core::marker::Destruct> [core::cmp::max::<T>] (a: T, b: T) -> (r: T)
  ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { a } else { b });
pub assume_specification[ i32::abs ](x: i32) -> (r: i32) requires x != i32::MIN ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[ u32::abs_diff ](x: u32, y: u32) -> (r: u32) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[ u8::abs_diff ](x: u8, y: u8) -> (r: u8) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification<T> [<[T]>::swap] (v: &mut [T], i: usize, j: usize)
  requires i < old(v)@.len(), j < old(v)@.len()
  ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]);

pub trait Primitive: Copy + Sized {
}
impl Primitive for u8 {}
impl Primitive for i8 {}
impl Primitive for u16 {}
impl Primitive for i16 {}
impl Primitive for u32 {}
impl Primitive for i32 {}
impl Primitive for u64 {}
impl Primitive for i64 {}
impl Primitive for f32 {}
impl Primitive for f64 {}

pub trait Pixel: Copy + Clone + Sized {
    type Subpixel: Primitive;
    /// the channel values
    spec fn ch(&self) -> Seq<Self::Subpixel>;
    /// CHANNEL_COUNT
    spec fn cc() -> nat;
    proof fn ax_cc(&self) ensures self.ch().len() == Self::cc(), 1 <= Self::cc() <= 4;
    fn channel_count() -> (r: u8) ensures r == Self::cc(), 1 <= r <= 4;
    fn channels(&self) -> (r: &[Self::Subpixel]) ensures r@ == self.ch(), r@.len() == Self::cc();
    fn channels_mut(&mut self) -> (r: &mut [Self::Subpixel]) ensures r@ == old(self).ch(), r@.len() == Self::cc(), final(self).ch() == final(r)@;
    fn blend(&mut self, other: &Self) ensures *final(self) == blended(*old(self), *other);
}
pub uninterp spec fn blended<P>(a: P, b: P) -> P;

#[verifier::ext_equal]
pub struct Luma<T>(pub [T; 1]);
#[verifier::ext_equal]
pub struct LumaA<T>(pub [T; 2]);
#[verifier::ext_equal]
pub struct Rgb<T>(pub [T; 3]);
#[verifier::ext_equal]
pub struct Rgba<T>(pub [T; 4]);
impl<T: Primitive> Copy for Luma<T> {}
impl<T: Primitive> Clone for Luma<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T: Primitive> Copy for LumaA<T> {}
impl<T: Primitive> Clone for LumaA<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T: Primitive> Copy for Rgb<T> {}
impl<T: Primitive> Clone for Rgb<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T: Primitive> Copy for Rgba<T> {}
impl<T: Primitive> Clone for Rgba<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T: Primitive> Pixel for Luma<T> { type Subpixel = T;
  open spec fn ch(&self) -> Seq<T> { self.0@ }
  open spec fn cc() -> nat { 1 }
  proof fn ax_cc(&self) {}
  fn channel_count() -> (r: u8) { 1 }
  #[verifier::external_body] fn channels(&self) -> (r: &[T]) { unimplemented!() }
  #[verifier::external_body] fn channels_mut(&mut self) -> (r: &mut [T]) { unimplemented!() }
  #[verifier::external_body] fn blend(&mut self, other: &Self) { unimplemented!() } }
impl<T: Primitive> Pixel for LumaA<T> { type Subpixel = T;
  open spec fn ch(&self) -> Seq<T> { self.0@ }
  open spec fn cc() -> nat { 2 }
  proof fn ax_cc(&self) {}
  fn channel_count() -> (r: u8) { 2 }
  #[verifier::external_body] fn channels(&self) -> (r: &[T]) { unimplemented!() }
  #[verifier::external_body] fn channels_mut(&mut self) -> (r: &mut [T]) { unimplemented!() }
  #[verifier::external_body] fn blend(&mut self, other: &Self) { unimplemented!() } }
impl<T: Primitive> Pixel for Rgb<T> { type Subpixel = T;
  open spec fn ch(&self) -> Seq<T> { self.0@ }
  open spec fn cc() -> nat { 3 }
  proof fn ax_cc(&self) {}
  fn channel_count() -> (r: u8) { 3 }
  #[verifier::external_body] fn channels(&self) -> (r: &[T]) { unimplemented!() }
  #[verifier::external_body] fn channels_mut(&mut self) -> (r: &mut [T]) { unimplemented!() }
  #[verifier::external_body] fn blend(&mut self, other: &Self) { unimplemented!() } }
impl<T: Primitive> Pixel for Rgba<T> { type Subpixel = T;
  open spec fn ch(&self) -> Seq<T> { self.0@ }
  open spec fn cc() -> nat { 4 }
  proof fn ax_cc(&self) {}
  fn channel_count() -> (r: u8) { 4 }
  #[verifier::external_body] fn channels(&self) -> (r: &[T]) { unimplemented!() }
  #[verifier::external_body] fn channels_mut(&mut self) -> (r: &mut [T]) { unimplemented!() }
  #[verifier::external_body] fn blend(&mut self, other: &Self) { unimplemented!() } }
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for Luma<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < 1 } }
impl<T> Index<usize> for Luma<T> { type Output = T;
  #[verifier::external_body]
  fn index(&self, i: usize) -> (r: &T) ensures *r == self.0@[i as int] { &self.0[i] } }
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for LumaA<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < 2 } }
impl<T> Index<usize> for LumaA<T> { type Output = T;
  #[verifier::external_body]
  fn index(&self, i: usize) -> (r: &T) ensures *r == self.0@[i as int] { &self.0[i] } }
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for Rgb<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < 3 } }
impl<T> Index<usize> for Rgb<T> { type Output = T;
  #[verifier::external_body]
  fn index(&self, i: usize) -> (r: &T) ensures *r == self.0@[i as int] { &self.0[i] } }
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for Rgba<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < 4 } }
impl<T> Index<usize> for Rgba<T> { type Output = T;
  #[verifier::external_body]
  fn index(&self, i: usize) -> (r: &T) ensures *r == self.0@[i as int] { &self.0[i] } }
pub open spec fn luma<T>(v: T) -> Luma<T> { Luma([v]) }

#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct Image<P> { v: Vec<P>, w: u32, h: u32 }
pub type GrayImage = Image<Luma<u8>>;

/// the all-zero pixel that freshly allocated images hold
pub uninterp spec fn zero_px<P>() -> P;
pub broadcast axiom fn ax_zero_luma_u8() ensures #[trigger] zero_px::<Luma<u8>>() == luma(0u8);
pub broadcast axiom fn ax_zero_luma_u32() ensures #[trigger] zero_px::<Luma<u32>>() == luma(0u32);

pub broadcast axiom fn ax_zero_u32<P: Pixel<Subpixel = u32>>(c: int) requires 0 <= c < P::cc() ensures #[trigger] zero_px::<P>().ch()[c] == 0;
pub broadcast axiom fn ax_zero_u8<P: Pixel<Subpixel = u8>>(c: int) requires 0 <= c < P::cc() ensures #[trigger] zero_px::<P>().ch()[c] == 0;

/// an allocated image has at most isize::MAX pixels
pub axiom fn ax_image_fits<P>(i: &Image<P>) ensures i.w() as int * i.h() as int <= isize::MAX;

impl<P: Pixel> Image<P> {
    #[verifier::external_body]
    pub fn new(w: u32, h: u32) -> (r: Self)
        ensures r.w() == w, r.h() == h,
          forall|x: int, y: int| 0 <= x < w && 0 <= y < h ==> #[trigger] r.px(x, y) == zero_px::<P>()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_pixel(w: u32, h: u32, p: P) -> (r: Self)
        ensures r.w() == w, r.h() == h,
          forall|x: int, y: int| 0 <= x < w && 0 <= y < h ==> #[trigger] r.px(x, y) == p
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_fn<F: Fn(u32, u32) -> P>(w: u32, h: u32, f: F) -> (r: Self)
        requires forall|x: u32, y: u32| x < w && y < h ==> #[trigger] f.requires((x, y)),
        ensures r.w() == w, r.h() == h,
          forall|x: u32, y: u32| x < w && y < h ==> f.ensures((x, y), #[trigger] r.px(x as int, y as int))
    { unimplemented!() }
}
impl<P> Image<P> {
    pub uninterp spec fn w(&self) -> u32;
    pub uninterp spec fn h(&self) -> u32;
    pub uninterp spec fn px(&self, x: int, y: int) -> P;
    /// number of pixels, and the k-th pixel in row-major order
    pub open spec fn np(&self) -> int { self.w() as int * self.h() as int }
    #[verifier::opaque]
    pub open spec fn pk(&self, k: int) -> P { self.px(k % (self.w() as int), k / (self.w() as int)) }
    #[verifier::external_body]
    pub fn len_px(&self) -> (r: usize) ensures r == self.np() { unimplemented!() }
    #[verifier::external_body]
    pub fn px_at(&self, k: usize) -> (r: &P) requires k < self.np() ensures *r == self.pk(k as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn px_at_mut(&mut self, k: usize) -> (r: &mut P) requires k < old(self).np()
      ensures *r == old(self).pk(k as int), final(self).w() == old(self).w(), final(self).h() == old(self).h(),
        forall|i: int| 0 <= i < old(self).np() ==> #[trigger] final(self).pk(i) == if i == k { *final(r) } else { old(self).pk(i) } { unimplemented!() }
  /// `enumerate_pixels` / `enumerate_pixels_mut` item k
  #[verifier::external_body]
  pub fn enum_at(&self, k: usize) -> (r: (u32, u32, &P)) requires k < self.np()
    ensures r.0 == k as int % self.w() as int, r.1 == k as int / self.w() as int, *r.2 == self.pk(k as int) { unimplemented!() }
  #[verifier::external_body]
  pub fn enum_at_mut(&mut self, k: usize) -> (r: (u32, u32, &mut P)) requires k < old(self).np()
    ensures r.0 == k as int % old(self).w() as int, r.1 == k as int / old(self).w() as int, *r.2 == old(self).pk(k as int),
      final(self).w() == old(self).w(), final(self).h() == old(self).h(),
      forall|i: int| 0 <= i < old(self).np() ==> #[trigger] final(self).pk(i) == if i == k { *final(r.2) } else { old(self).pk(i) } { unimplemented!() }
    pub open spec fn same_dims<Q>(&self, o: &Image<Q>) -> bool { self.w() == o.w() && self.h() == o.h() }
    pub open spec fn inb(&self, x: int, y: int) -> bool { 0 <= x < self.w() && 0 <= y < self.h() }
    #[verifier::external_body]
    pub fn width(&self) -> (r: u32) ensures r == self.w() { unimplemented!() }
    #[verifier::external_body]
    pub fn height(&self) -> (r: u32) ensures r == self.h() { unimplemented!() }
    #[verifier::external_body]
    pub fn dimensions(&self) -> (r: (u32, u32)) ensures r.0 == self.w(), r.1 == self.h() { unimplemented!() }
    #[verifier::external_body]
    pub fn in_bounds(&self, x: u32, y: u32) -> (r: bool) ensures r == (x < self.w() && y < self.h()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pixel(&self, x: u32, y: u32) -> (r: &P)
        requires x < self.w(), y < self.h()
        ensures *r == self.px(x as int, y as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pixel_checked(&self, x: u32, y: u32) -> (r: Option<&P>)
        ensures match r { Some(p) => x < self.w() && y < self.h() && *p == self.px(x as int, y as int), None => !(x < self.w() && y < self.h()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn unsafe_get_pixel(&self, x: u32, y: u32) -> (r: P)
        requires x < self.w(), y < self.h()
        ensures r == self.px(x as int, y as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_pixel(&mut self, x: u32, y: u32, p: P)
        requires x < old(self).w(), y < old(self).h()
        ensures final(self).w() == old(self).w(), final(self).h() == old(self).h(),
          forall|i: int, j: int| #[trigger] final(self).px(i, j) == if i == x && j == y { p } else { old(self).px(i, j) } { unimplemented!() }
    #[verifier::external_body]
    pub fn unsafe_put_pixel(&mut self, x: u32, y: u32, p: P)
        requires x < old(self).w(), y < old(self).h()
        ensures final(self).w() == old(self).w(), final(self).h() == old(self).h(),
          forall|i: int, j: int| #[trigger] final(self).px(i, j) == if i == x && j == y { p } else { old(self).px(i, j) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pixel_mut(&mut self, x: u32, y: u32) -> (r: &mut P)
        requires x < old(self).w(), y < old(self).h()
        ensures *r == old(self).px(x as int, y as int),
          final(self).w() == old(self).w(), final(self).h() == old(self).h(),
          forall|i: int, j: int| #[trigger] final(self).px(i, j) == if i == x && j == y { *final(r) } else { old(self).px(i, j) } { unimplemented!() }
}
impl<P> Clone for Image<P> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.w() == self.w(), r.h() == self.h(), forall|x: int, y: int| #[trigger] r.px(x, y) == self.px(x, y)
    { unimplemented!() }
}
impl<T: Primitive> Image<Luma<T>> {
    /// `iter_mut` of a one-channel image, element k
    #[verifier::external_body]
    pub fn sub_at_mut(&mut self, k: usize) -> (r: &mut T) requires k < old(self).np()
      ensures *r == old(self).pk(k as int).0@[0], final(self).w() == old(self).w(), final(self).h() == old(self).h(),
        forall|i: int| 0 <= i < old(self).np() ==> (#[trigger] final(self).pk(i)).0@[0] == if i == k { *final(r) } else { old(self).pk(i).0@[0] } { unimplemented!() }
}
/// row-major position <-> coordinates
pub proof fn lemma_pk<P>(im: &Image<P>, x: int, y: int)
  requires im.inb(x, y)
  ensures 0 <= y * im.w() + x < im.np(), im.pk(y * im.w() + x) == im.px(x, y)
{
  reveal(Image::pk);
  let w = im.w() as int; let h = im.h() as int;
  assert((y * w + x) % w == x && (y * w + x) / w == y) by { lemma_fundamental_div_mod_converse(y * w + x, w, y, x); }
  assert(y * w + x < w * h) by(nonlinear_arith) requires 0 <= y < h, 0 <= x < w;
  assert(y * w >= 0) by(nonlinear_arith) requires 0 <= y, 0 <= w;
}
pub proof fn lemma_kp<P>(im: &Image<P>, k: int)
  requires 0 <= k < im.np()
  ensures im.inb(k % (im.w() as int), k / (im.w() as int)), im.w() > 0,
{
  let w = im.w() as int; let h = im.h() as int;
  assert(w > 0) by { if w == 0 { assert(w * h == 0) by(nonlinear_arith) requires w == 0; } }
  lemma_mod_bound(k, w); lemma_fundamental_div_mod(k, w);
  assert(0 <= k / w < h) by(nonlinear_arith) requires 0 <= k < w * h, w > 0, k == w * (k / w) + k % w, 0 <= k % w < w;
}
// the crate stays inside verus!{} until the end of the generated file
