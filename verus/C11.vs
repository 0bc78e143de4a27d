@@ include prelude.rs
@@ text
/// `Pix: WithChannel<C>`: same pixel layout with subpixel type C (`ChannelMap<Pix, C>`)
pub trait WithChannel<C: Primitive>: Pixel { type Out: Pixel<Subpixel = C>; proof fn ax_out() ensures Self::Out::cc() == Self::cc(); }
pub trait CopyVec<T> { spec fn sq(&self) -> Seq<T>; fn copied_vec(&self) -> (r: Vec<T>) ensures r@ == self.sq(); }
impl<T: Copy> CopyVec<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ }
  /// `<[T]>::to_vec` for a Copy type
  #[verifier::external_body] fn copied_vec(&self) -> (r: Vec<T>) { self.to_vec() } }
impl<P: Pixel> Image<P> {
  /// `ImageBuffer::from_vec`: Some exactly when the buffer is long enough; samples are row-major, channels innermost
  #[verifier::external_body]
  pub fn from_vec(w: u32, h: u32, v: Vec<P::Subpixel>) -> (r: Option<Self>)
    ensures r.is_some() == (w * h * P::cc() <= v@.len()),
      r.is_some() ==> r.unwrap().w() == w && r.unwrap().h() == h
        && forall|k: int, c: int| 0 <= k < w * h && 0 <= c < P::cc() ==> #[trigger] r.unwrap().pk(k).ch()[c] == v@[k * P::cc() + c] { unimplemented!() }
  /// number of samples; `iter()` / `iter_mut()` element i is channel i % cc of pixel i / cc
  #[verifier::external_body]
  pub fn len_sub(&self) -> (r: usize) ensures r == self.np() * P::cc() { unimplemented!() }
  #[verifier::external_body]
  pub fn gsub_at(&self, i: usize) -> (r: &P::Subpixel) requires i < self.np() * P::cc() ensures *r == self.pk(i as int / P::cc() as int).ch()[i as int % P::cc() as int] { unimplemented!() }
  #[verifier::external_body]
  pub fn gsub_at_mut(&mut self, i: usize) -> (r: &mut P::Subpixel) requires i < old(self).np() * P::cc()
    ensures *r == old(self).pk(i as int / P::cc() as int).ch()[i as int % P::cc() as int],
      final(self).w() == old(self).w(), final(self).h() == old(self).h(),
      forall|k: int, c: int| 0 <= k < old(self).np() && 0 <= c < P::cc() ==> #[trigger] final(self).pk(k).ch()[c] == if k == i as int / P::cc() as int && c == i as int % P::cc() as int { *final(r) } else { old(self).pk(k).ch()[c] }
   { unimplemented!() }
}
pub proof fn lemma_idx(i: int, c: int, k: int, cc: int)
  requires 0 <= i < k, 0 <= c < cc
  ensures 0 <= i * cc + c < k * cc
{ assert(0 <= i * cc + c < k * cc) by(nonlinear_arith) requires 0 <= i < k, 0 <= c < cc; }
pub proof fn lemma_all_idx(k: int, cc: int)
  requires k >= 0, cc >= 1
  ensures (k + 1) * cc == k * cc + cc, k * cc >= 0, forall|i: int, c: int| 0 <= i < k && 0 <= c < cc ==> 0 <= #[trigger] (i * cc + c) < k * cc
{ assert((k + 1) * cc == k * cc + cc && k * cc >= 0) by(nonlinear_arith) requires k >= 0, cc >= 1;
  assert forall|i: int, c: int| 0 <= i < k && 0 <= c < cc implies 0 <= #[trigger] (i * cc + c) < k * cc by { lemma_idx(i, c, k, cc); } }
/// the samples of the first k results, flattened
pub open spec fn flat<Q: Pixel>(v: Seq<Q::Subpixel>, qs: Seq<Q>) -> bool {
  v.len() == qs.len() * Q::cc() && forall|i: int, c: int| 0 <= i < qs.len() && 0 <= c < Q::cc() ==> #[trigger] v[i * Q::cc() + c] == qs[i].ch()[c]
}
pub proof fn lemma_flat_push<Q: Pixel>(v: Seq<Q::Subpixel>, qs: Seq<Q>, q: Q)
  requires flat(v, qs)
  ensures flat(v + q.ch(), qs.push(q))
{
  q.ax_cc(); let cc = Q::cc() as int; let n = qs.len() as int;
  lemma_all_idx(n, cc);
  let v2 = v + q.ch(); let q2 = qs.push(q);
  assert forall|i: int, c: int| 0 <= i < q2.len() && 0 <= c < cc implies #[trigger] v2[i * cc + c] == q2[i].ch()[c] by {
    if i < n { assert(v[i * cc + c] == qs[i].ch()[c]); lemma_idx(i, c, n, cc); }
  }
}
pub open spec fn np_of(w: u32, h: u32) -> int { w as int * h as int }
pub open spec fn hit<P: Pixel, Q: Pixel, F: Fn(P) -> Q>(f: F, p: P, o: Q) -> bool { exists|q: Q| f.ensures((p,), q) && o.ch() == #[trigger] q.ch() }
pub open spec fn hit_at<P: Pixel, Q: Pixel, F: Fn(u32, u32, P) -> Q>(f: F, x: int, y: int, p: P, o: Q) -> bool { exists|q: Q| f.ensures((x as u32, y as u32, p), q) && o.ch() == #[trigger] q.ch() }
pub open spec fn hit2<P: Pixel, Q: Pixel, R: Pixel, F: Fn(P, Q) -> R>(f: F, p: P, p2: Q, o: R) -> bool { exists|q: R| f.ensures((p, p2), q) && o.ch() == #[trigger] q.ch() }
/// r is the image of `image` under f: at every position the value f returned there
pub open spec fn mapped<P: Pixel, Q: Pixel, F: Fn(P) -> Q>(image: &Image<P>, f: F, r: &Image<Q>) -> bool {
  r.w() == image.w() && r.h() == image.h()
  && forall|x: int, y: int| r.inb(x, y) ==> hit(f, image.px(x, y), #[trigger] r.px(x, y))
}
pub open spec fn mapped_at<P: Pixel, Q: Pixel, F: Fn(u32, u32, P) -> Q>(image: &Image<P>, f: F, r: &Image<Q>) -> bool {
  r.w() == image.w() && r.h() == image.h()
  && forall|x: int, y: int| r.inb(x, y) ==> hit_at(f, x, y, image.px(x, y), #[trigger] r.px(x, y))
}
pub open spec fn mapped_sub<P: Pixel, Q: Pixel, F: Fn(P::Subpixel) -> Q::Subpixel>(image: &Image<P>, f: F, r: &Image<Q>) -> bool {
  r.w() == image.w() && r.h() == image.h() && Q::cc() == P::cc()
  && forall|x: int, y: int, c: int| r.inb(x, y) && 0 <= c < P::cc() ==> f.ensures((image.px(x, y).ch()[c],), #[trigger] r.px(x, y).ch()[c])
}
pub open spec fn mapped2<P: Pixel, Q: Pixel, R: Pixel, F: Fn(P, Q) -> R>(i1: &Image<P>, i2: &Image<Q>, f: F, r: &Image<R>) -> bool {
  r.w() == i1.w() && r.h() == i1.h()
  && forall|x: int, y: int| r.inb(x, y) ==> hit2(f, i1.px(x, y), i2.px(x, y), #[trigger] r.px(x, y))
}
/// an image built from the flattened results has, at k, the k-th result
pub proof fn lemma_built<Q: Pixel>(v: Seq<Q::Subpixel>, qs: Seq<Q>, r: &Image<Q>)
  requires flat(v, qs), qs.len() == r.np(), forall|k: int, c: int| 0 <= k < r.np() && 0 <= c < Q::cc() ==> #[trigger] r.pk(k).ch()[c] == v[k * Q::cc() + c]
  ensures forall|k: int| 0 <= k < r.np() ==> #[trigger] r.pk(k).ch() =~= qs[k].ch()
{ assert forall|k: int| 0 <= k < r.np() implies #[trigger] r.pk(k).ch() =~= qs[k].ch() by {
    r.pk(k).ax_cc(); qs[k].ax_cc();
    assert forall|c: int| 0 <= c < Q::cc() implies r.pk(k).ch()[c] == qs[k].ch()[c] by { assert(v[k * Q::cc() + c] == qs[k].ch()[c]); } } }
@@ fn map.rs map_pixels
@ spec
  requires forall|p: P| f.requires((p,)),
  ensures mapped(image, f, &r),
@ subst
image
            .pixels()
            .flat_map(|pixel| f(*pixel).channels().to_vec())
            .collect(),
=>> v__,
@ begin
  let mut v__: Vec<Q::Subpixel> = Vec::new(); let ghost mut qs: Seq<Q> = Seq::empty();
  let e__ = image.len_px();
  for k__ in 0..e__
    invariant e__ == image.np(), forall|p: P| f.requires((p,)), flat::<Q>(v__@, qs), qs.len() == k__,
      forall|k: int| 0 <= k < k__ ==> f.ensures((image.pk(k),), #[trigger] qs[k]),
  { let pixel = image.px_at(k__);
    let q__ = f(*pixel); let mut w__ = q__.channels().copied_vec(); 
    proof { lemma_flat_push::<Q>(v__@, qs, q__); qs = qs.push(q__); }
    v__.append(&mut w__);
  }
  let ghost vs = v__@;
@ subst
Image::from_vec(
=>> let out__ = Image::from_vec(
@ subst
.expect("of course the length is good, it's just a map")
=>> .unwrap();
   proof { lemma_built::<Q>(vs, qs, &out__);
     assert forall|x: int, y: int| out__.inb(x, y) implies hit(f, image.px(x, y), #[trigger] out__.px(x, y)) by {
       lemma_pk(image, x, y); lemma_pk(&out__, x, y); let k = y * image.w() + x; assert(f.ensures((image.pk(k),), qs[k]) && out__.pk(k).ch() =~= qs[k].ch()); } }
   out__
@@ fn map.rs map_pixels_mut
@ spec
  requires forall|p: P| f.requires((p,)),
  ensures final(image).w() == old(image).w(), final(image).h() == old(image).h(),
    forall|x: int, y: int| final(image).inb(x, y) ==> f.ensures((old(image).px(x, y),), #[trigger] final(image).px(x, y)),
@ subst
image.pixels_mut().for_each(|pixel| *pixel = f(*pixel))
=>> let ghost o = *image; let e__ = image.len_px();
    for k__ in 0..e__
      invariant e__ == o.np(), image.w() == o.w(), image.h() == o.h(), forall|p: P| f.requires((p,)),
        forall|k: int| k__ <= k < o.np() ==> #[trigger] image.pk(k) == o.pk(k),
        forall|k: int| 0 <= k < k__ ==> f.ensures((o.pk(k),), #[trigger] image.pk(k)),
    { let pixel = image.px_at_mut(k__); *pixel = f(*pixel); }
   proof { assert forall|x: int, y: int| image.inb(x, y) implies f.ensures((o.px(x, y),), #[trigger] image.px(x, y)) by {
       lemma_pk(image, x, y); lemma_pk(&o, x, y); let k = y * image.w() + x; assert(f.ensures((o.pk(k),), image.pk(k))); } }
@@ fn map.rs map_enumerated_pixels
@ spec
  requires forall|x: u32, y: u32, p: P| f.requires((x, y, p)),
  ensures mapped_at(image, f, &r),
@ subst
image
            .enumerate_pixels()
            .flat_map(|(x, y, pixel)| f(x, y, *pixel).channels().to_vec())
            .collect(),
=>> v__,
@ begin
  let mut v__: Vec<Q::Subpixel> = Vec::new(); let ghost mut qs: Seq<Q> = Seq::empty();
  let e__ = image.len_px();
  for k__ in 0..e__
    invariant e__ == image.np(), forall|x: u32, y: u32, p: P| f.requires((x, y, p)), flat::<Q>(v__@, qs), qs.len() == k__,
      forall|k: int| 0 <= k < k__ ==> f.ensures(((k % image.w() as int) as u32, (k / image.w() as int) as u32, image.pk(k)), #[trigger] qs[k]),
  { let (x, y, pixel) = image.enum_at(k__);
    let q__ = f(x, y, *pixel); let mut w__ = q__.channels().copied_vec(); 
    proof { lemma_flat_push::<Q>(v__@, qs, q__); qs = qs.push(q__); }
    v__.append(&mut w__);
  }
  let ghost vs = v__@;
@ subst
Image::from_vec(
=>> let out__ = Image::from_vec(
@ subst
.expect("of course the length is good, it's just a map")
=>> .unwrap();
   proof { lemma_built::<Q>(vs, qs, &out__);
     assert forall|x: int, y: int| out__.inb(x, y) implies hit_at(f, x, y, image.px(x, y), #[trigger] out__.px(x, y)) by {
       lemma_pk(image, x, y); lemma_pk(&out__, x, y); let k = y * image.w() + x; lemma_fundamental_div_mod_converse(k, image.w() as int, y, x);
       assert(f.ensures((x as u32, y as u32, image.pk(k)), qs[k]) && out__.pk(k).ch() =~= qs[k].ch()); } }
   out__
@@ fn map.rs map_enumerated_pixels_mut
@ spec
  requires forall|x: u32, y: u32, p: P| f.requires((x, y, p)),
  ensures final(image).w() == old(image).w(), final(image).h() == old(image).h(),
    forall|x: int, y: int| final(image).inb(x, y) ==> f.ensures((x as u32, y as u32, old(image).px(x, y)), #[trigger] final(image).px(x, y)),
@ subst
image
        .enumerate_pixels_mut()
        .for_each(|(x, y, pixel)| *pixel = f(x, y, *pixel))
=>> let ghost o = *image; let e__ = image.len_px();
    for k__ in 0..e__
      invariant e__ == o.np(), image.w() == o.w(), image.h() == o.h(), forall|x: u32, y: u32, p: P| f.requires((x, y, p)),
        forall|k: int| k__ <= k < o.np() ==> #[trigger] image.pk(k) == o.pk(k),
        forall|k: int| 0 <= k < k__ ==> f.ensures(((k % o.w() as int) as u32, (k / o.w() as int) as u32, o.pk(k)), #[trigger] image.pk(k)),
    { let (x, y, pixel) = image.enum_at_mut(k__); *pixel = f(x, y, *pixel); }
   proof { assert forall|x: int, y: int| image.inb(x, y) implies f.ensures((x as u32, y as u32, o.px(x, y)), #[trigger] image.px(x, y)) by {
       lemma_pk(image, x, y); lemma_pk(&o, x, y); let k = y * image.w() + x; lemma_fundamental_div_mod_converse(k, image.w() as int, y, x); assert(f.ensures((x as u32, y as u32, o.pk(k)), image.pk(k))); } }
@@ fn map.rs map_pixels2
@ spec
  requires forall|p: P, q: Q| f.requires((p, q)), image1.w() == image2.w(), image1.h() == image2.h(),
  ensures mapped2(image1, image2, f, &r),
@ subst
image1
            .pixels()
            .zip(image2.pixels())
            .flat_map(|(pixel1, pixel2)| f(*pixel1, *pixel2).channels().to_vec())
            .collect(),
=>> v__,
@ begin
  let mut v__: Vec<R::Subpixel> = Vec::new(); let ghost mut qs: Seq<R> = Seq::empty();
  let e1__ = image1.len_px(); let e2__ = image2.len_px(); let e__ = if e1__ < e2__ { e1__ } else { e2__ };
  for k__ in 0..e__
    invariant e__ == image1.np(), image1.np() == image2.np(), forall|p: P, q: Q| f.requires((p, q)), flat::<R>(v__@, qs), qs.len() == k__,
      forall|k: int| 0 <= k < k__ ==> f.ensures((image1.pk(k), image2.pk(k)), #[trigger] qs[k]),
  { let pixel1 = image1.px_at(k__); let pixel2 = image2.px_at(k__);
    let q__ = f(*pixel1, *pixel2); let mut w__ = q__.channels().copied_vec(); 
    proof { lemma_flat_push::<R>(v__@, qs, q__); qs = qs.push(q__); }
    v__.append(&mut w__);
  }
  let ghost vs = v__@;
@ subst
Image::from_vec(
=>> let out__ = Image::from_vec(
@ subst
.expect("of course the length is good, it's just a map")
=>> .unwrap();
   proof { lemma_built::<R>(vs, qs, &out__);
     assert forall|x: int, y: int| out__.inb(x, y) implies hit2(f, image1.px(x, y), image2.px(x, y), #[trigger] out__.px(x, y)) by {
       lemma_pk(image1, x, y); lemma_pk(image2, x, y); lemma_pk(&out__, x, y); let k = y * image1.w() + x; assert(f.ensures((image1.pk(k), image2.pk(k)), qs[k]) && out__.pk(k).ch() =~= qs[k].ch()); } }
   out__
@@ fn map.rs map_subpixels
@ sigsub Image<ChannelMap<P, S>> =>> Image<<P as WithChannel<S>>::Out>
@ spec
  requires forall|p: P::Subpixel| f.requires((p,)),
  ensures mapped_sub(image, f, &r),
@ subst
image.iter().map(|subpixel| f(*subpixel)).collect(),
=>> v__,
@ begin
  let mut v__: Vec<S> = Vec::new();
  let ghost cc = P::cc() as int;
  let e__ = image.len_sub();
  proof { P::ax_out(); lemma_cc_pos::<P>(); assert(image.np() >= 0) by(nonlinear_arith) requires image.np() == image.w() * image.h(); }
  for k__ in 0..e__
    invariant cc == P::cc(), cc >= 1, e__ == image.np() * cc, forall|p: P::Subpixel| f.requires((p,)), v__@.len() == k__,
      forall|i: int| 0 <= i < k__ ==> f.ensures((image.pk(i / cc).ch()[i % cc],), #[trigger] v__@[i]),
  { let subpixel = image.gsub_at(k__); v__.push(f(*subpixel)); }
  let ghost vs = v__@;
@ subst
Image::from_vec(
=>> let out__ = Image::<<P as WithChannel<S>>::Out>::from_vec(
@ subst
.expect("of course the length is good, it's just a map")
=>> .unwrap();
   proof { 
     assert forall|x: int, y: int, c: int| out__.inb(x, y) && 0 <= c < P::cc() implies f.ensures((image.px(x, y).ch()[c],), #[trigger] out__.px(x, y).ch()[c]) by {
       lemma_pk(image, x, y); lemma_pk(&out__, x, y); let k = y * image.w() + x; lemma_idx(k, c, image.np(), cc); lemma_fundamental_div_mod_converse(k * cc + c, cc, k, c);
       assert(f.ensures((image.pk((k * cc + c) / cc).ch()[(k * cc + c) % cc],), vs[k * cc + c])); } }
   out__
@@ fn map.rs map_subpixels_mut
@ spec
  requires forall|p: P::Subpixel| f.requires((p,)),
  ensures final(image).w() == old(image).w(), final(image).h() == old(image).h(),
    forall|x: int, y: int, c: int| final(image).inb(x, y) && 0 <= c < P::cc() ==> f.ensures((old(image).px(x, y).ch()[c],), #[trigger] final(image).px(x, y).ch()[c]),
@ subst
image
        .iter_mut()
        .for_each(|subpixel| *subpixel = f(*subpixel));
=>> let ghost o = *image; let e__ = image.len_sub(); let ghost cc = P::cc() as int;
    proof { lemma_cc_pos::<P>(); assert(image.np() >= 0) by(nonlinear_arith) requires image.np() == image.w() * image.h();  }
    for k__ in 0..e__
      invariant cc == P::cc(), cc >= 1, e__ == o.np() * cc, image.w() == o.w(), image.h() == o.h(), forall|p: P::Subpixel| f.requires((p,)),
        forall|k: int, c: int| 0 <= k < o.np() && 0 <= c < cc && k * cc + c >= k__ ==> #[trigger] image.pk(k).ch()[c] == o.pk(k).ch()[c],
        forall|k: int, c: int| 0 <= k < o.np() && 0 <= c < cc && k * cc + c < k__ ==> f.ensures((o.pk(k).ch()[c],), #[trigger] image.pk(k).ch()[c]),
    { proof { let q = k__ as int / cc; let m = k__ as int % cc; lemma_fundamental_div_mod(k__ as int, cc); lemma_mod_bound(k__ as int, cc);
        assert(q * cc + m == k__) by(nonlinear_arith) requires k__ == cc * q + m;
        assert(0 <= q < o.np()) by(nonlinear_arith) requires q * cc + m == k__, 0 <= m < cc, 0 <= k__ < o.np() * cc;
        assert forall|k: int, c: int| 0 <= k < o.np() && 0 <= c < cc && #[trigger] (k * cc + c) == k__ implies k == q && c == m by { lemma_fundamental_div_mod_converse(k__ as int, cc, k, c); } }
      let subpixel = image.gsub_at_mut(k__); *subpixel = f(*subpixel); }
   proof { assert forall|x: int, y: int, c: int| image.inb(x, y) && 0 <= c < P::cc() implies f.ensures((o.px(x, y).ch()[c],), #[trigger] image.px(x, y).ch()[c]) by {
       lemma_pk(image, x, y); lemma_pk(&o, x, y); let k = y * image.w() + x; lemma_idx(k, c, image.np(), cc); assert(f.ensures((o.pk(k).ch()[c],), image.pk(k).ch()[c])); } }
@@ text
pub proof fn lemma_cc_pos<P: Pixel>() ensures P::cc() >= 1 { zero_px::<P>().ax_cc(); }
pub trait Zero: Primitive { spec fn zero_v() -> Self; fn zero() -> (r: Self) ensures r == Self::zero_v(); }
@@ fn map.rs into_red_channel
@ sigsub C: Primitive, =>> C: Zero,
@ sigsub Rgb<C>: Pixel<Subpixel = C>, =>>
@ spec
  ensures r.w() == image.w(), r.h() == image.h(), forall|x: int, y: int| r.inb(x, y) ==> #[trigger] r.px(x, y).0@[0] == image.px(x, y).0@[0],
@ closure 0
|p: Rgb<C>| -> (r: Luma<C>) ensures r.ch()[0] == p.0@[0]
@@ fn map.rs into_green_channel
@ sigsub C: Primitive, =>> C: Zero,
@ sigsub Rgb<C>: Pixel<Subpixel = C>, =>>
@ spec
  ensures r.w() == image.w(), r.h() == image.h(), forall|x: int, y: int| r.inb(x, y) ==> #[trigger] r.px(x, y).0@[0] == image.px(x, y).0@[1],
@ closure 0
|p: Rgb<C>| -> (r: Luma<C>) ensures r.ch()[0] == p.0@[1]
@@ fn map.rs into_blue_channel
@ sigsub C: Primitive, =>> C: Zero,
@ sigsub Rgb<C>: Pixel<Subpixel = C>, =>>
@ spec
  ensures r.w() == image.w(), r.h() == image.h(), forall|x: int, y: int| r.inb(x, y) ==> #[trigger] r.px(x, y).0@[0] == image.px(x, y).0@[2],
@ closure 0
|p: Rgb<C>| -> (r: Luma<C>) ensures r.ch()[0] == p.0@[2]
@@ fn map.rs from_red_channel
@ sigsub C: Primitive, =>> C: Zero,
@ sigsub Rgb<C>: Pixel<Subpixel = C>, =>>
@ spec
  ensures r.w() == image.w(), r.h() == image.h(), forall|x: int, y: int| r.inb(x, y) ==> #[trigger] r.px(x, y).0@ =~= seq![image.px(x, y).0@[0], C::zero_v(), C::zero_v()],
@ closure 0
|p: Luma<C>| -> (r: Rgb<C>) ensures r.ch() =~= seq![p.0@[0], C::zero_v(), C::zero_v()]
@@ fn map.rs from_green_channel
@ sigsub C: Primitive, =>> C: Zero,
@ sigsub Rgb<C>: Pixel<Subpixel = C>, =>>
@ spec
  ensures r.w() == image.w(), r.h() == image.h(), forall|x: int, y: int| r.inb(x, y) ==> #[trigger] r.px(x, y).0@ =~= seq![C::zero_v(), image.px(x, y).0@[0], C::zero_v()],
@ closure 0
|p: Luma<C>| -> (r: Rgb<C>) ensures r.ch() =~= seq![C::zero_v(), p.0@[0], C::zero_v()]
@@ fn map.rs from_blue_channel
@ sigsub C: Primitive, =>> C: Zero,
@ sigsub Rgb<C>: Pixel<Subpixel = C>, =>>
@ spec
  ensures r.w() == image.w(), r.h() == image.h(), forall|x: int, y: int| r.inb(x, y) ==> #[trigger] r.px(x, y).0@ =~= seq![C::zero_v(), C::zero_v(), image.px(x, y).0@[0]],
@ closure 0
|p: Luma<C>| -> (r: Rgb<C>) ensures r.ch() =~= seq![C::zero_v(), C::zero_v(), p.0@[0]]
