@@ include prelude.rs
@@ text
/// the k-th neighbour: clockwise from the one directly above
pub open spec fn nb(k: int) -> (int, int) {
  if k == 0 { (0, -1) } else if k == 1 { (1, -1) } else if k == 2 { (1, 0) } else if k == 3 { (1, 1) } else if k == 4 { (0, 1) } else if k == 5 { (-1, 1) } else if k == 6 { (-1, 0) } else { (-1int, -1int) }
}
pub open spec fn darker(im: &GrayImage, x: int, y: int, k: int) -> bool { im.px(x + nb(k).0, y + nb(k).1).0@[0] < im.px(x, y).0@[0] }
pub open spec fn bit(b: u8, k: u8) -> bool { (b >> k) & 1u8 == 1u8 }
proof fn lemma_step(p: u8, q: u8, i: u8, v: u8)
  requires i < 8, v == 0 || v == 1, q == p | ((1u8 & v) << i), forall|k: u8| i <= k < 8 ==> !bit(p, k)
  ensures forall|k: u8| i < k < 8 ==> !bit(q, k), bit(q, i) == (v == 1), forall|k: u8| k < i ==> #[trigger] bit(q, k) == bit(p, k)
{
  assert(!bit(p, i));
  assert((q >> i) & 1u8 == v) by(bit_vector) requires i < 8, v == 0u8 || v == 1u8, q == p | ((1u8 & v) << i), (p >> i) & 1u8 != 1u8;
  assert forall|k: u8| k < 8 && k != i implies bit(q, k) == bit(p, k) by {
    assert((q >> k) & 1u8 == (p >> k) & 1u8) by(bit_vector) requires i < 8, k < 8, k != i, v == 0u8 || v == 1u8, q == p | ((1u8 & v) << i); }
}
@@ fn local_binary_patterns.rs local_binary_pattern
@ sigsub <I> =>>
@ sigsub image: &I =>> image: &GrayImage
@ sigsub I: GenericImage<Pixel = Luma<u8>>, =>>
@ spec
  ensures
    r is Some <==> 1 <= x <= image.w() - 2 && 1 <= y <= image.h() - 2,
    r is Some ==> forall|k: u8| 0 <= k < 8 ==> #[trigger] bit(r->0, k) == darker(image, x as int, y as int, k as int),
@ before for i in 0..8
  proof { assert forall|k: u8| k < 8 implies !bit(0u8, k) by { assert((0u8 >> k) & 1u8 == 0u8) by(bit_vector); } }
@ loop 0
  invariant start__0 == 0, end__0 == 8, center == image.px(x as int, y as int).0@[0], forall|k: int| 0 <= k < 8 ==> #[trigger] neighbors@[k] == image.px(x + nb(k).0, y + nb(k).1).0@[0],
    forall|k: u8| k < i ==> #[trigger] bit(pattern, k) == darker(image, x as int, y as int, k as int), forall|k: u8| i <= k < 8 ==> !bit(pattern, k),
@ loop 0 begin
  let ghost p0 = pattern;
@ loop 0 end
  proof { lemma_step(p0, pattern, i as u8, if neighbors@[i as int] < center { 1u8 } else { 0u8 }); assert(neighbors@[i as int] == image.px(x + nb(i as int).0, y + nb(i as int).1).0@[0]); }
