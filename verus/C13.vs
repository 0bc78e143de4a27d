@@ include C12.vs
@@ text
/// a source within distance k
pub open spec fn dilated(o: &GrayImage, r: &GrayImage, norm: Norm, k: int) -> bool {
  r.same_dims(o) && forall|x: int, y: int| o.inb(x, y) ==> #[trigger] r.px(x, y) == luma(if nearn(o, true, norm, x, y, k) { 255u8 } else { 0u8 })
}
pub open spec fn eroded(o: &GrayImage, r: &GrayImage, norm: Norm, k: int) -> bool {
  r.same_dims(o) && forall|x: int, y: int| o.inb(x, y) ==> #[trigger] r.px(x, y) == luma(if nearn(o, false, norm, x, y, k) { 0u8 } else { 255u8 })
}
pub proof fn lemma_within_mono(norm: Norm, dx: int, dy: int, v: int, k: int)
  requires within(norm, dx, dy, v), 0 <= v <= k ensures within(norm, dx, dy, k)
{ assert(v * v <= k * k) by(nonlinear_arith) requires 0 <= v <= k; }
pub proof fn lemma_le(o: &GrayImage, fg: bool, norm: Norm, x: int, y: int, v: int, k: int)
  requires dist_n(o, fg, norm, x, y, v), 0 <= k < 255 ensures (v <= k) == nearn(o, fg, norm, x, y, k)
{
  if v <= k {
    let (sx, sy) = choose|sx: int, sy: int| #[trigger] src(o, fg, sx, sy) && within(norm, x - sx, y - sy, v);
    lemma_within_mono(norm, x - sx, y - sy, v, k); assert(src(o, fg, sx, sy));
  }
}
@@ fn morphology.rs dilate_mut
@ spec
  requires k < 255, l2ok(norm, old(image)),
  ensures dilated(old(image), final(image), norm, k as int),
@ begin
  let ghost o = *image;
@ loop 0 before
  let ghost d = *image;
@ loop 0
  invariant end__0 == d.np(), image.same_dims(&d),
    forall|i: int| 0 <= i < d.np() ==> (#[trigger] image.pk(i)).0@[0] == if i < k__0 { if d.pk(i).0@[0] <= k { 255u8 } else { 0u8 } } else { d.pk(i).0@[0] },
@ end
  proof { assert forall|x: int, y: int| o.inb(x, y) implies #[trigger] image.px(x, y) == luma(if nearn(&o, true, norm, x, y, k as int) { 255u8 } else { 0u8 }) by {
    lemma_pk(&d, x, y); lemma_pk(&*image, x, y); lemma_le(&o, true, norm, x, y, d.px(x, y).0@[0] as int, k as int); } }
@@ fn morphology.rs erode_mut
@ spec
  requires k < 255, l2ok(norm, old(image)),
  ensures eroded(old(image), final(image), norm, k as int),
@ begin
  let ghost o = *image;
@ loop 0 before
  let ghost d = *image;
@ loop 0
  invariant end__0 == d.np(), image.same_dims(&d),
    forall|i: int| 0 <= i < d.np() ==> (#[trigger] image.pk(i)).0@[0] == if i < k__0 { if d.pk(i).0@[0] <= k { 0u8 } else { 255u8 } } else { d.pk(i).0@[0] },
@ end
  proof { assert forall|x: int, y: int| o.inb(x, y) implies #[trigger] image.px(x, y) == luma(if nearn(&o, false, norm, x, y, k as int) { 0u8 } else { 255u8 }) by {
    lemma_pk(&d, x, y); lemma_pk(&*image, x, y); lemma_le(&o, false, norm, x, y, d.px(x, y).0@[0] as int, k as int); } }
@@ text
/// opening and closing as compositions
pub open spec fn opened(o: &GrayImage, r: &GrayImage, norm: Norm, k: int) -> bool { exists|m: GrayImage| #[trigger] eroded(o, &m, norm, k) && dilated(&m, r, norm, k) }
pub open spec fn closed(o: &GrayImage, r: &GrayImage, norm: Norm, k: int) -> bool { exists|m: GrayImage| #[trigger] dilated(o, &m, norm, k) && eroded(&m, r, norm, k) }
pub proof fn lemma_dil_ext(a: &GrayImage, b: &GrayImage, r: &GrayImage, norm: Norm, k: int)
  requires a.same_dims(b), forall|x: int, y: int| #[trigger] a.px(x, y) == b.px(x, y)
  ensures dilated(a, r, norm, k) ==> dilated(b, r, norm, k), eroded(a, r, norm, k) ==> eroded(b, r, norm, k),
    opened(a, r, norm, k) ==> opened(b, r, norm, k), closed(a, r, norm, k) ==> closed(b, r, norm, k),
{
  assert forall|m: GrayImage| #[trigger] dilated(a, &m, norm, k) implies dilated(b, &m, norm, k) by {
    assert forall|x: int, y: int| b.inb(x, y) implies #[trigger] m.px(x, y) == luma(if nearn(b, true, norm, x, y, k) { 255u8 } else { 0u8 }) by { lemma_nearn_ext(a, b, norm, true, x, y, k); } }
  assert forall|m: GrayImage| #[trigger] eroded(a, &m, norm, k) implies eroded(b, &m, norm, k) by {
    assert forall|x: int, y: int| b.inb(x, y) implies #[trigger] m.px(x, y) == luma(if nearn(b, false, norm, x, y, k) { 0u8 } else { 255u8 }) by { lemma_nearn_ext(a, b, norm, false, x, y, k); } }
  assert(dilated(a, r, norm, k) ==> dilated(b, r, norm, k)); assert(eroded(a, r, norm, k) ==> eroded(b, r, norm, k));
}
@@ fn morphology.rs open_mut
@ spec
  requires k < 255, l2ok(norm, old(image)),
  ensures opened(old(image), final(image), norm, k as int),
@ begin
  let ghost o = *image;
@ after erode_mut(image, norm, k);
  proof { assert(eroded(&o, &*image, norm, k as int)); }
@@ fn morphology.rs close_mut
@ spec
  requires k < 255, l2ok(norm, old(image)),
  ensures closed(old(image), final(image), norm, k as int),
@ begin
  let ghost o = *image;
@ after dilate_mut(image, norm, k);
  proof { assert(dilated(&o, &*image, norm, k as int)); }
@@ fn morphology.rs dilate
@ spec
  requires k < 255, l2ok(norm, image),
  ensures dilated(image, &r, norm, k as int),
@ after let mut out = image.clone();
  let ghost c = out;
@ tail
  proof { lemma_dil_ext(&c, image, &out, norm, k as int); }
@@ fn morphology.rs erode
@ spec
  requires k < 255, l2ok(norm, image),
  ensures eroded(image, &r, norm, k as int),
@ after let mut out = image.clone();
  let ghost c = out;
@ tail
  proof { lemma_dil_ext(&c, image, &out, norm, k as int); }
@@ fn morphology.rs open
@ spec
  requires k < 255, l2ok(norm, image),
  ensures opened(image, &r, norm, k as int),
@ after let mut out = image.clone();
  let ghost c = out;
@ tail
  proof { lemma_dil_ext(&c, image, &out, norm, k as int); }
@@ fn morphology.rs close
@ spec
  requires k < 255, l2ok(norm, image),
  ensures closed(image, &r, norm, k as int),
@ after let mut out = image.clone();
  let ghost c = out;
@ tail
  proof { lemma_dil_ext(&c, image, &out, norm, k as int); }
