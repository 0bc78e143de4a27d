@@ include prelude.rs
@@ text
pub assume_specification[ i32::saturating_sub ](a: i32, b: i32) -> (r: i32) ensures r == (if a - b > i32::MAX { i32::MAX as int } else if a - b < i32::MIN { i32::MIN as int } else { a - b });
pub assume_specification[ i32::unsigned_abs ](a: i32) -> (r: u32) ensures r == (if a < 0 { -a } else { a as int });
/// an allocated image has at most isize::MAX channel values
pub axiom fn ax_subpixels_fit<P: Pixel>(i: &Image<P>) ensures i.np() * P::cc() <= isize::MAX;
/// `(*dst)[d..][..len].copy_from_slice(&(**src)[s..][..len])` on whole pixels
#[verifier::external_body]
pub fn copy_channels<P: Pixel>(dst: &mut Image<P>, d: usize, src: &Image<P>, s: usize, len: usize, Ghost(dp): Ghost<int>, Ghost(sp): Ghost<int>, Ghost(n): Ghost<int>)
  requires d == dp * P::cc(), s == sp * P::cc(), len == n * P::cc(), 0 <= dp, 0 <= sp, 0 <= n, dp + n <= old(dst).np(), sp + n <= src.np()
  ensures final(dst).same_dims(old(dst)), forall|i: int| 0 <= i < old(dst).np() ==> #[trigger] final(dst).pk(i) == if dp <= i < dp + n { src.pk(i - dp + sp) } else { old(dst).pk(i) } { unimplemented!() }
pub open spec fn clampi(v: int, hi: int) -> int { if v < 0 { 0 } else if v > hi { hi } else { v } }
/// what the translated image holds at (x, y)
pub open spec fn moved<P>(im: &Image<P>, t: (int, int), x: int, y: int) -> P { im.px(clampi(x - t.0, im.w() - 1), clampi(y - t.1, im.h() - 1)) }
pub open spec fn rows<P>(im: &Image<P>, out: &Image<P>, t: (int, int), y: int) -> bool { forall|i: int, j: int| 0 <= i < im.w() && 0 <= j < y ==> #[trigger] out.px(i, j) == moved(im, t, i, j) }
/// columns lo..hi of row y are done
pub open spec fn cols<P>(im: &Image<P>, out: &Image<P>, t: (int, int), y: int, lo: int, hi: int) -> bool { forall|i: int| lo <= i < hi ==> #[trigger] out.px(i, y) == moved(im, t, i, y) }
/// a copy of part of row y
pub proof fn lemma_copy<P: Pixel>(im: &Image<P>, o: &Image<P>, n: &Image<P>, t: (int, int), y: int, yi: int, dx: int, sx: int, len: int)
  requires o.same_dims(im), n.same_dims(im), 0 <= y < im.h(), 0 <= yi < im.h(), 0 <= dx, 0 <= sx, 0 <= len, dx + len <= im.w(), sx + len <= im.w(), yi == clampi(y - t.1, im.h() - 1), sx - dx == -t.0,
    ({ let dp = y * im.w() + dx; let sp = yi * im.w() + sx; forall|i: int| 0 <= i < o.np() ==> #[trigger] n.pk(i) == if dp <= i < dp + len { im.pk(i - dp + sp) } else { o.pk(i) } }),
    rows(im, o, t, y),
  ensures rows(im, n, t, y), cols(im, n, t, y, dx, dx + len), forall|i: int| 0 <= i < im.w() && !(dx <= i < dx + len) ==> #[trigger] n.px(i, y) == o.px(i, y)
{
  let w = im.w() as int;
  assert forall|i: int, j: int| 0 <= i < w && 0 <= j <= y implies #[trigger] n.px(i, j) == (if j == y && dx <= i < dx + len { im.px(i - dx + sx, yi) } else { o.px(i, j) }) by {
    lemma_pk(n, i, j); lemma_pk(o, i, j); assert(n.pk(j * w + i) == n.px(i, j));
    if j < y { assert(j * w + i < y * w) by(nonlinear_arith) requires 0 <= j < y, 0 <= i < w; }
    else if dx <= i < dx + len { lemma_pk(im, i - dx + sx, yi); }
  }
}
pub proof fn lemma_idx(w: int, h: int, y: int, x: int) requires 0 <= y < h, 0 <= x <= w ensures 0 <= y * w, y * w + x <= w * h
{ assert(0 <= y * w) by(nonlinear_arith) requires 0 <= y, 0 <= w; assert(y * w + x <= w * h) by(nonlinear_arith) requires 0 <= y < h, 0 <= x <= w; }
pub proof fn lemma_ch(a: int, b: int, c: int) requires 0 <= a <= b, 1 <= c, b * c <= isize::MAX ensures 0 <= a * c <= b * c, a * c <= isize::MAX, a <= isize::MAX
{ assert(0 <= a * c <= b * c) by(nonlinear_arith) requires 0 <= a <= b, 1 <= c; assert(a <= a * c) by(nonlinear_arith) requires 0 <= a, 1 <= c; }
@@ fn geometric_transformations.rs translate
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@ spec
  requires 0 < image.w() <= i32::MAX, 0 < image.h() <= i32::MAX,
  ensures r.same_dims(image), forall|x: int, y: int| image.inb(x, y) ==> #[trigger] r.px(x, y) == moved(image, (t.0 as int, t.1 as int), x, y),
@ begin
let ghost ww = image.w() as int; let ghost hh = image.h() as int; let ghost tt = (t.0 as int, t.1 as int); let ghost cc = P::cc() as int;
proof { ax_subpixels_fit(image); image.px(0, 0).ax_cc(); }
@ loop 0
invariant out.same_dims(image), rows(image, &out, tt, y as int),
@ loop 0 begin
let ghost yi = clampi(y - tt.1, hh - 1); let ghost at = (if tx >= 0 { tx as int } else { -tx }); let ghost len = if at < ww { ww - at } else { 0 };
proof { lemma_idx(ww, hh, yi, ww); lemma_idx(ww, hh, y as int, ww); lemma_idx(ww, hh, yi, if at < ww { at } else { 0 }); lemma_idx(ww, hh, y as int, if at < ww { at } else { 0 }); 
  lemma_ch(yi * ww, ww * hh, cc); lemma_ch(y * ww, ww * hh, cc); if at < ww { lemma_ch(yi * ww + at, ww * hh, cc); lemma_ch(y * ww + at, ww * hh, cc); } lemma_ch(len, ww * hh, cc); }
@ loop 1
invariant out.same_dims(image), rows(image, &out, tt, y as int), cols(image, &out, tt, y as int, 0, x as int), 0 <= end__1 <= w, end__1 <= tx, y_in == yi, p_min == image.px(0, yi),
@ loop 1 after
let ghost o1 = out;
@ loop 2
invariant out.same_dims(image), rows(image, &out, tt, y as int), cols(image, &out, tt, y as int, start__2 as int, x as int), y_in == yi, p_max == image.px(ww - 1, yi),
@ loop 2 after
let ghost o1 = out;
@ subst
(*out)[out_base..][..len].copy_from_slice(&(**image)[in_base..][..len]);
=>> copy_channels(&mut out, out_base, image, in_base, len, Ghost(y * ww + if tx > 0 { tx as int } else { 0 }), Ghost(yi * ww + if tx > 0 { 0 } else { -tx }), Ghost(if tx > 0 { ww - tx } else { ww + tx }));
  proof { if tx > 0 { lemma_copy(image, &o1, &out, tt, y as int, yi, tx as int, 0, ww - tx); } else { lemma_copy(image, &o1, &out, tt, y as int, yi, 0, -tx, ww + tx); } }
