@@ include prelude.rs
@@ text
/// ChannelMap / gradient energies: `gradients(image, sobel, closure)` is used through this contract only: one energy per
/// pixel, each the mean of u16 magnitudes and so at most 65535
pub uninterp spec fn energy_of<P>(image: &Image<P>) -> Image<Luma<u32>>;
#[verifier::external_body]
pub fn gradient_energies<P: Pixel<Subpixel = u8>>(image: &Image<P>) -> (r: Image<Luma<u32>>)
  ensures r == energy_of(image), r.w() == image.w(), r.h() == image.h(),
    forall|x: int, y: int| r.inb(x, y) ==> (#[trigger] r.px(x, y)).0@[0] <= 65535 { unimplemented!() }
pub open spec fn en(g: &Image<Luma<u32>>, x: int, y: int) -> int { g.px(x, y).0@[0] as int }
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
/// least energy of a connected path from row 0 to (x, y)
pub open spec fn best(g: &Image<Luma<u32>>, x: int, y: int) -> int decreases y {
  if y <= 0 { en(g, x, y) } else {
    let a = best(g, x, y - 1);
    let b = if x > 0 { min2(a, best(g, x - 1, y - 1)) } else { a };
    let c = if x < g.w() - 1 { min2(b, best(g, x + 1, y - 1)) } else { b };
    c + en(g, x, y) }
}
/// s lists one column per row, bottom row first; consecutive columns differ by at most one
pub open spec fn is_seam<P>(g: &Image<P>, s: Seq<u32>) -> bool {
  s.len() == g.h() && (forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) < g.w())
  && forall|k: int| 0 <= k < s.len() - 1 ==> -1 <= #[trigger] s[k] - s[k + 1] <= 1
}
/// energy of the entries k.. of s (rows h-1-k, h-2-k, .., 0)
pub open spec fn energy_from(g: &Image<Luma<u32>>, s: Seq<u32>, k: int) -> int decreases s.len() - k {
  if k >= s.len() { 0 } else { en(g, s[k] as int, g.h() - 1 - k) + energy_from(g, s, k + 1) }
}
pub proof fn lemma_bound(g: &Image<Luma<u32>>, x: int, y: int)
  requires g.inb(x, y), forall|x: int, y: int| g.inb(x, y) ==> (#[trigger] g.px(x, y)).0@[0] <= 65535
  ensures 0 <= best(g, x, y) <= 65535 * (y + 1)
  decreases y
{
  assert(g.px(x, y).0@[0] <= 65535);
  if y > 0 { lemma_bound(g, x, y - 1); if x > 0 { lemma_bound(g, x - 1, y - 1); } if x < g.w() - 1 { lemma_bound(g, x + 1, y - 1); } }
}
/// no seam is cheaper than the table entry its bottom pixel has
pub proof fn lemma_lower(g: &Image<Luma<u32>>, s: Seq<u32>, k: int)
  requires is_seam(g, s), 0 <= k < s.len()
  ensures best(g, s[k] as int, g.h() - 1 - k) <= energy_from(g, s, k)
  decreases s.len() - k
{
  if k < s.len() - 1 { lemma_lower(g, s, k + 1); assert(-1 <= s[k] - s[k + 1] <= 1); assert(s[k] < g.w() && s[k + 1] < g.w()); 
    assert(energy_from(g, s, k) == en(g, s[k] as int, g.h() - 1 - k) + energy_from(g, s, k + 1));
    let x = s[k] as int; let y = g.h() - 1 - k; let z = s[k + 1] as int; assert(z == x || z == x - 1 || z == x + 1); }
  else { assert(energy_from(g, s, k + 1) == 0); }
}
/// a seam that always continues with a cheapest predecessor costs exactly its table entry
pub proof fn lemma_exact(g: &Image<Luma<u32>>, s: Seq<u32>, k: int)
  requires is_seam(g, s), 0 <= k < s.len(),
    forall|i: int| 0 <= i < s.len() - 1 ==> best(g, (#[trigger] s[i]) as int, g.h() - 1 - i) == en(g, s[i] as int, g.h() - 1 - i) + best(g, s[i + 1] as int, g.h() - 2 - i)
  ensures best(g, s[k] as int, g.h() - 1 - k) == energy_from(g, s, k)
  decreases s.len() - k
{
  if k < s.len() - 1 { lemma_exact(g, s, k + 1); assert(s[k] < g.w()); } else { assert(energy_from(g, s, k + 1) == 0); }
}
@@ struct seam_carving.rs VerticalSeam
@@ fn seam_carving.rs set_path_energy
@ spec
  requires y >= 1, old(path_energies).inb(x as int, y as int),
    forall|i: int| 0 <= i < old(path_energies).w() ==> (#[trigger] old(path_energies).px(i, y - 1)).0@[0] + old(path_energies).px(x as int, y as int).0@[0] <= u32::MAX,
  ensures final(path_energies).same_dims(old(path_energies)),
    forall|i: int, j: int| !(i == x && j == y) ==> #[trigger] final(path_energies).px(i, j) == old(path_energies).px(i, j),
    ({ let g = old(path_energies); let a = en(g, x as int, y - 1);
       let b = if x > 0 { min2(a, en(g, x - 1, y - 1)) } else { a };
       let c = if x < g.w() - 1 { min2(b, en(g, x + 1, y - 1)) } else { b };
       en(final(path_energies), x as int, y as int) == c + en(g, x as int, y as int) }),
@@ fn seam_carving.rs find_vertical_seam
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(40)]
@ sigsub  + WithChannel<u16> + WithChannel<i16> =>>
@ sigsub <P as WithChannel<u16>>::Pixel: HasBlack, =>>
@ spec
  requires image.w() >= 2, 1 <= image.h() <= 65537,
  ensures is_seam(image, r.0@),
    forall|s: Seq<u32>| is_seam(image, s) ==> energy_from(&energy_of(image), r.0@, 0) <= #[trigger] energy_from(&energy_of(image), s, 0),
@ subst
let mut gradients = gradients(
        image,
        kernel::SOBEL_HORIZONTAL_3X3,
        kernel::SOBEL_VERTICAL_3X3,
        |p| {
            let gradient_sum: u16 = p.channels().iter().sum();
            let gradient_mean: u16 = gradient_sum / P::CHANNEL_COUNT as u16;
            Luma([gradient_mean as u32])
        },
    );
=>> let mut gradients = gradient_energies(image);
    let ghost g = gradients;
@ loop 0
  invariant start__0 == 1, end__0 == height, gradients.same_dims(&g), g.same_dims(image),
    forall|i: int, j: int| 0 <= i < width && 0 <= j < y ==> (#[trigger] gradients.px(i, j)).0@[0] == best(&g, i, j),
    forall|i: int, j: int| 0 <= i < width && y <= j < height ==> #[trigger] gradients.px(i, j) == g.px(i, j),
@ loop 1
  invariant start__1 == 0, end__1 == width, gradients.same_dims(&g),
    forall|i: int, j: int| 0 <= i < width && 0 <= j < y ==> (#[trigger] gradients.px(i, j)).0@[0] == best(&g, i, j),
    forall|i: int| 0 <= i < x ==> (#[trigger] gradients.px(i, y as int)).0@[0] == best(&g, i, y as int),
    forall|i: int| x <= i < width ==> #[trigger] gradients.px(i, y as int) == g.px(i, y as int),
    forall|i: int, j: int| 0 <= i < width && y < j < height ==> #[trigger] gradients.px(i, j) == g.px(i, j),
@ loop 1 begin
  proof { assert(g.px(x as int, y as int).0@[0] <= 65535);
    assert forall|i: int| 0 <= i < width implies (#[trigger] gradients.px(i, y - 1)).0@[0] + gradients.px(x as int, y as int).0@[0] <= u32::MAX by { lemma_bound(&g, i, y - 1); } }
@ loop 2
  invariant start__2 == 1, end__2 == width, min_x < x, x <= width, min_energy == best(&g, min_x as int, height - 1),
    forall|i: int| 0 <= i < x ==> min_energy <= #[trigger] best(&g, i, height - 1),
@ loop 2 begin
  proof { assert(gradients.px(x as int, height - 1).0@[0] == best(&g, x as int, height - 1)); }
@ before let mut seam = 
  proof { assert(min_x < width); }
@ loop 3 iter it
@ loop 3
  invariant start__3 == 1, end__3 == height, 1 <= it.index@ + 1 <= height, seam@.len() == it.index@ + 1, last_x == seam@[it.index@ as int], last_x < width,
    forall|k: int| 0 <= k < seam@.len() ==> (#[trigger] seam@[k]) < width,
    forall|i: int| 0 <= i < width ==> best(&g, seam@[0] as int, height - 1) <= #[trigger] best(&g, i, height - 1),
    forall|k: int| 0 <= k < seam@.len() - 1 ==> -1 <= #[trigger] seam@[k] - seam@[k + 1] <= 1,
    forall|k: int| 0 <= k < seam@.len() - 1 ==> best(&g, (#[trigger] seam@[k]) as int, height - 1 - k) == en(&g, seam@[k] as int, height - 1 - k) + best(&g, seam@[k + 1] as int, height - 2 - k),
@ loop 3 begin
  let ghost s0 = seam@;
  proof { assert(gradients.px(last_x as int, y - 1).0@[0] == best(&g, last_x as int, y - 1));
    if last_x > 0 { assert(gradients.px(last_x - 1, y - 1).0@[0] == best(&g, last_x - 1, y - 1)); }
    if last_x < width - 1 { assert(gradients.px(last_x + 1, y - 1).0@[0] == best(&g, last_x + 1, y - 1)); } }
@ loop 3 end
  proof { let k = s0.len() - 1; 
     assert forall|k: int| 0 <= k < seam@.len() - 1 implies -1 <= #[trigger] seam@[k] - seam@[k + 1] <= 1 by { if k < s0.len() - 1 { assert(-1 <= s0[k] - s0[k + 1] <= 1); } }
     assert forall|k: int| 0 <= k < seam@.len() - 1 implies best(&g, (#[trigger] seam@[k]) as int, height - 1 - k) == en(&g, seam@[k] as int, height - 1 - k) + best(&g, seam@[k + 1] as int, height - 2 - k) by { 
       if k < s0.len() - 1 { assert(best(&g, s0[k] as int, height - 1 - k) == en(&g, s0[k] as int, height - 1 - k) + best(&g, s0[k + 1] as int, height - 2 - k)); } else { assert(y == height - 1 - k); } } }
@ tail
  proof { assert forall|s: Seq<u32>| is_seam(image, s) implies energy_from(&energy_of(image), seam@, 0) <= #[trigger] energy_from(&energy_of(image), s, 0) by {
     lemma_exact(&g, seam@, 0); lemma_lower(&g, s, 0); assert(s[0] < width); } }
@@ fn seam_carving.rs remove_vertical_seam
@ spec
  requires is_seam(image, seam.0@), image.w() >= 1,
  ensures r.w() == image.w() - 1, r.h() == image.h(),
    forall|x: int, y: int| 0 <= x < image.w() - 1 && 0 <= y < image.h() ==> #[trigger] r.px(x, y) == (if x < seam.0@[image.h() - 1 - y] { image.px(x, y) } else { image.px(x + 1, y) }),
@ loop 0
  invariant start__0 == 0, end__0 == height, out.w() == width - 1, out.h() == height,
    forall|i: int, j: int| 0 <= i < width - 1 && 0 <= j < y ==> #[trigger] out.px(i, j) == (if i < seam.0@[height - 1 - j] { image.px(i, j) } else { image.px(i + 1, j) }),
@ loop 0 begin
  let ghost o1 = out;
  proof { assert(seam.0@[height - 1 - y] < width); }
@ loop 1
  invariant start__1 == 0, end__1 == x_seam, out.w() == width - 1, out.h() == height,
    forall|i: int, j: int| #[trigger] out.px(i, j) == (if j == y && 0 <= i < x { image.px(i, j) } else { o1.px(i, j) }),
@ loop 2
  invariant start__2 == x_seam + 1, end__2 == width, out.w() == width - 1, out.h() == height,
    forall|i: int, j: int| #[trigger] out.px(i, j) == (if j == y && 0 <= i < x_seam { image.px(i, j) } else if j == y && x_seam <= i < x - 1 { image.px(i + 1, j) } else { o1.px(i, j) }),
@@ fn seam_carving.rs shrink_width
@ sigsub  + WithChannel<u16> + WithChannel<i16> =>>
@ sigsub <P as WithChannel<u16>>::Pixel: HasBlack, =>>
@ spec
  requires 1 <= target_width <= image.w(), 1 <= image.h() <= 65537,
  ensures r.w() == target_width, r.h() == image.h(), exists|ms: Seq<Image<P>>| ms.len() == image.w() - target_width + 1 && #[trigger] chain(image, ms, &r),
@ before for _ in
  let ghost mut ms: Seq<Image<P>> = seq![result];
@ loop 0
  invariant start__0 == 0, end__0 == iterations, iterations == image.w() - target_width, result.w() == image.w() - u__0, result.h() == image.h(), ms.len() == u__0 + 1, chain(image, ms, &result),
@ loop 0 begin
  let ghost prev = result; let ghost m0 = ms;
@ loop 0 end
  proof { assert(carve_step(&prev, &result)); ms = ms.push(result);
    assert forall|k: int| 0 <= k < ms.len() - 1 implies #[trigger] carve_step(&ms[k], &ms[k + 1]) by { if k < m0.len() - 1 { assert(carve_step(&m0[k], &m0[k + 1])); } } }
@ tail
  proof { assert(chain(image, ms, &result)); }
@@ text
/// one least-energy seam removed
pub open spec fn carve_step<P>(a: &Image<P>, b: &Image<P>) -> bool {
  exists|s: Seq<u32>| #[trigger] is_seam(a, s) && (forall|t: Seq<u32>| is_seam(a, t) ==> energy_from(&energy_of(a), s, 0) <= #[trigger] energy_from(&energy_of(a), t, 0))
    && b.w() == a.w() - 1 && b.h() == a.h()
    && forall|x: int, y: int| 0 <= x < a.w() - 1 && 0 <= y < a.h() ==> #[trigger] b.px(x, y) == (if x < s[a.h() - 1 - y] { a.px(x, y) } else { a.px(x + 1, y) })
}
pub open spec fn same_img<P>(a: &Image<P>, b: &Image<P>) -> bool { a.same_dims(b) && forall|x: int, y: int| a.inb(x, y) ==> #[trigger] a.px(x, y) == b.px(x, y) }
pub open spec fn chain<P>(a: &Image<P>, ms: Seq<Image<P>>, b: &Image<P>) -> bool {
  ms.len() > 0 && same_img(&ms[0], a) && ms[ms.len() - 1] == *b && forall|k: int| 0 <= k < ms.len() - 1 ==> #[trigger] carve_step(&ms[k], &ms[k + 1])
}
