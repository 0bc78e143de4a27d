@@ include prelude.rs
@@ include ieee.rs
@@ include canvas.vs
@@ text
use core::mem::swap;
pub assume_specification[ i32::saturating_add ](a: i32, b: i32) -> (r: i32) ensures r == sat(a + b, i32::MIN as int, i32::MAX as int);
/// the integer an f32 holds
pub open spec fn fi(x: f32) -> int { fv(x).floor() }
pub open spec fn isint(x: f32, bound: int) -> bool { fr(x) == FR::Fin(fi(x) as real) && -bound <= fi(x) <= bound }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn ints(s: (f32, f32), e: (f32, f32), b: int) -> bool { isint(s.0, b) && isint(s.1, b) && isint(e.0, b) && isint(e.1, b) }
/// a segment between integer points, with coordinates up to 2^22 (2^23 if parallel to an axis), so that all f32 arithmetic is exact
pub open spec fn line_dom(s: (f32, f32), e: (f32, f32)) -> bool { ints(s, e, 8388608) && (ints(s, e, 4194304) || fi(s.0) == fi(e.0) || fi(s.1) == fi(e.1)) }
/// the segment in the coordinates of its major axis, going up: from (a0, b0) to a1, with slope s * dy / dx
pub struct Seg { pub steep: bool, pub a0: int, pub b0: int, pub a1: int, pub dx: int, pub dy: int, pub s: int }
pub open spec fn seg4(steep: bool, a: int, b: int, c: int, d: int) -> Seg {
  if a <= c { Seg { steep, a0: a, b0: b, a1: c, dx: c - a, dy: iabs(d - b), s: if b < d { 1int } else { -1int } } }
  else { Seg { steep, a0: c, b0: d, a1: a, dx: a - c, dy: iabs(d - b), s: if d < b { 1int } else { -1int } } } }
pub open spec fn seg(s: (f32, f32), e: (f32, f32)) -> Seg { 
  if iabs(fi(e.1) - fi(s.1)) > iabs(fi(e.0) - fi(s.0)) { seg4(true, fi(s.1), fi(s.0), fi(e.1), fi(e.0)) } else { seg4(false, fi(s.0), fi(s.1), fi(e.0), fi(e.1)) } }
/// k steps along the major axis, m along the minor one: m is within half a step of the ideal k * dy / dx
pub open spec fn close(g: Seg, k: int, m: int) -> bool { if g.dx == 0 { m == 0 } else { -g.dx <= 2 * (m * g.dx - k * g.dy) < g.dx } }
pub open spec fn on_seg(g: Seg, u: int, v: int) -> bool { g.a0 <= u <= g.a1 && close(g, u - g.a0, g.s * (v - g.b0)) }
/// the pixels of a line
pub open spec fn line(g: Seg) -> spec_fn(int, int) -> bool { |i: int, j: int| if g.steep { on_seg(g, j, i) } else { on_seg(g, i, j) } }
pub open spec fn pt(g: Seg, k: int, m: int) -> (int, int) { if g.steep { (g.b0 + g.s * m, g.a0 + k) } else { (g.a0 + k, g.b0 + g.s * m) } }
pub open spec fn between(a: int, v: int, b: int) -> bool { a <= v <= b || b <= v <= a }
pub open spec fn seg_of(x0: int, y0: int, x1: int, y1: int) -> spec_fn(int, int) -> bool { |i: int, j: int| between(x0, i, x1) && between(y0, j, y1) }
/// twice the error term after k steps, m of them diagonal
pub open spec fn err2(g: Seg, k: int, m: int) -> int { g.dx - 2 * (k * g.dy) + 2 * (m * g.dx) }
pub open spec fn small_seg(g: Seg) -> bool { 0 <= g.dy <= g.dx <= 16777216 && (g.dx <= 8388608 || g.dy == 0) && -8388608 <= g.a0 && g.a1 == g.a0 + g.dx <= 8388608 && -8388608 <= g.b0 <= 8388608 && (g.s == 1 || g.s == -1) }
/// bound on the points still to come
pub open spec fn left(it: BresenhamLineIter) -> int { if it.x > it.end_x { 0 } else { it.end_x - it.x + 1 } }
/// the iterator has made k steps, m of them diagonal
pub open spec fn at(it: BresenhamLineIter, g: Seg, k: int, m: int) -> bool {
  small_seg(g) && fr(it.dx) == FR::Fin(g.dx as real) && fr(it.dy) == FR::Fin(g.dy as real) && fr(it.error) == FR::Fin(err2(g, k, m) as real / 2real)
  && it.x == g.a0 + k && it.y == g.b0 + g.s * m && it.end_x == g.a1 && it.is_steep == g.steep && it.y_step == g.s && 0 <= k <= g.dx + 1 && 0 <= m <= k
  && 0 <= err2(g, k, m) && (if g.dx == 0 { m == 0 } else { err2(g, k, m) < 2 * g.dx }) }
pub proof fn lemma_close(g: Seg, k: int, m: int) requires g.dx > 0 ensures close(g, k, m) == (0 <= err2(g, k, m) < 2 * g.dx) {}
/// one pixel per step along the major axis
pub proof fn lemma_unique(g: Seg, k: int, m: int, n: int) requires g.dx >= 0, close(g, k, m), close(g, k, n) ensures m == n
{ if g.dx > 0 && m != n { assert(m * g.dx - n * g.dx == (m - n) * g.dx) by(nonlinear_arith);
    assert((m - n) * g.dx >= g.dx || (m - n) * g.dx <= -g.dx) by(nonlinear_arith) requires g.dx > 0, m != n; } }
pub proof fn lemma_step(g: Seg, k: int, m: int) requires g.dx >= g.dy >= 0, 0 <= err2(g, k, m), g.dx > 0 ==> err2(g, k, m) < 2 * g.dx
  ensures err2(g, k + 1, m) == err2(g, k, m) - 2 * g.dy, err2(g, k + 1, m + 1) == err2(g, k, m) - 2 * g.dy + 2 * g.dx
{ assert((k + 1) * g.dy == k * g.dy + g.dy) by(nonlinear_arith); assert((m + 1) * g.dx == m * g.dx + g.dx) by(nonlinear_arith); }
/// exactness of a half integer
pub proof fn half_exact(n: int) requires -16777216 <= n <= 16777216 ensures rn(n as real / 2real) == FR::Fin(n as real / 2real) { ax_rn_half(n); }
/// both ends of the segment are drawn; consecutive points are neighbours; every point is within half a pixel of the segment
pub proof fn theorem_line(s: (f32, f32), e: (f32, f32)) requires line_dom(s, e)
  ensures line(seg(s, e))(fi(s.0), fi(s.1)), line(seg(s, e))(fi(e.0), fi(e.1)),
    forall|k: int, m: int, n: int| #[trigger] close(seg(s, e), k, m) && #[trigger] close(seg(s, e), k + 1, n) ==> m <= n <= m + 1 || n == m,
    forall|k: int, m: int| #[trigger] close(seg(s, e), k, m) ==> 2 * iabs(m * seg(s, e).dx - k * seg(s, e).dy) <= seg(s, e).dx || seg(s, e).dx == 0
{ let g = seg(s, e);
  lemma_ends(g);
  assert forall|k: int, m: int, n: int| #[trigger] close(g, k, m) && #[trigger] close(g, k + 1, n) implies m <= n <= m + 1 || n == m by {
    if g.dx > 0 { lemma_step2(g, k, m, n); } } }
pub proof fn lemma_ends(g: Seg) requires 0 <= g.dy <= g.dx, g.s == 1 || g.s == -1, g.a1 == g.a0 + g.dx ensures on_seg(g, g.a0, g.b0), on_seg(g, g.a1, g.b0 + g.s * g.dy), on_seg(g, g.a1, g.b0 + g.dy) || g.s != 1, on_seg(g, g.a1, g.b0 - g.dy) || g.s != -1
{ let z: int = 0; let d = g.dy; assert(z * g.dy == 0 && z * g.dx == 0 && g.s * z == 0) by(nonlinear_arith) requires z == 0;
  assert(g.dx * g.dy == g.dy * g.dx) by(nonlinear_arith);
  assert(g.s * (g.s * d) == d) by(nonlinear_arith) requires g.s == 1 || g.s == -1;
  assert(close(g, 0, 0)); assert(close(g, g.dx, g.dy)); }
pub proof fn lemma_step2(g: Seg, k: int, m: int, n: int) requires 0 <= g.dy <= g.dx, g.dx > 0, close(g, k, m), close(g, k + 1, n) ensures m <= n <= m + 1
{ lemma_close(g, k, m); lemma_close(g, k + 1, n); lemma_step(g, k, m);
  if err2(g, k + 1, m) >= 0 { lemma_unique(g, k + 1, m, n); } else { lemma_unique(g, k + 1, m + 1, n); } }
/// a segment along an axis is drawn exactly
pub proof fn theorem_axis(s: (f32, f32), e: (f32, f32)) requires line_dom(s, e), fi(s.0) == fi(e.0) || fi(s.1) == fi(e.1)
  ensures line(seg(s, e)) == seg_of(fi(s.0), fi(s.1), fi(e.0), fi(e.1))
{ let g = seg(s, e);
  assert forall|i: int, j: int| #[trigger] line(g)(i, j) == seg_of(fi(s.0), fi(s.1), fi(e.0), fi(e.1))(i, j) by {
    let (u, v) = if g.steep { (j, i) } else { (i, j) };
    let k = u - g.a0; let m = g.s * (v - g.b0);
    assert(g.dy == 0); assert(k * g.dy == 0) by(nonlinear_arith) requires g.dy == 0;
    if m == 0 { assert(v == g.b0) by(nonlinear_arith) requires m == 0, m == g.s * (v - g.b0), g.s == 1 || g.s == -1; assert(m * g.dx == 0) by(nonlinear_arith) requires m == 0; }
    else { assert(v != g.b0); assert(iabs(m * g.dx) >= g.dx) by(nonlinear_arith) requires m != 0, g.dx >= 0; } }
  assert(line(g) =~= seg_of(fi(s.0), fi(s.1), fi(e.0), fi(e.1))); }
@@ struct drawing/line.rs BresenhamLineIter
@ opts
#[derive(Clone, Copy)]
@@ fn drawing/line.rs BresenhamLineIter::new
@ spec
  ensures line_dom(start, end) ==> at(r, seg(start, end), 0, 0)
@ begin
  broadcast use ieee;
  proof { if line_dom(start, end) {
    let (a, b, c, d) = (fi(start.0), fi(start.1), fi(end.0), fi(end.1));
    rn_int(c - a); rn_int(a - c); rn_int(d - b); rn_int(b - d); half_exact(c - a); half_exact(a - c); half_exact(d - b); half_exact(b - d);
    floor_int(a); floor_int(b); floor_int(c); floor_int(d); floor_int(-a); floor_int(-b); floor_int(-c); floor_int(-d);
    let g = seg(start, end); assert(0 * g.dy == 0 && 0 * g.dx == 0 && g.s * 0 == 0);
    assert((c - a) as real == c as real - a as real && (d - b) as real == d as real - b as real && (a - c) as real == a as real - c as real && (b - d) as real == b as real - d as real);
  } }
@@ fn drawing/line.rs <BresenhamLineIter as Iterator>::next
@ hdr
impl BresenhamLineIter
@ floats
error
@ spec
  ensures old(self).x > old(self).end_x ==> r is None && *final(self) == *old(self),
    old(self).x <= old(self).end_x ==> r == Some(if old(self).is_steep { (old(self).y, old(self).x) } else { (old(self).x, old(self).y) })
      && left(*final(self)) < left(*old(self)),
    forall|g: Seg, k: int, m: int| #[trigger] at(*old(self), g, k, m) && k <= g.dx ==> at(*final(self), g, k + 1, m) || at(*final(self), g, k + 1, m + 1)
@ begin
  broadcast use ieee;
@ ret
  proof { assert forall|g: Seg, k: int, m: int| #[trigger] at(*old(self), g, k, m) && k <= g.dx implies at(*final(self), g, k + 1, m) || at(*final(self), g, k + 1, m + 1) by {
    lemma_step(g, k, m); let e = err2(g, k, m);
    assert((e - 2 * g.dy) as real / 2real == e as real / 2real - g.dy as real);
    assert((e - 2 * g.dy + 2 * g.dx) as real / 2real == (e - 2 * g.dy) as real / 2real + g.dx as real);
    if g.dy > 0 { half_exact(e - 2 * g.dy); if e < 2 * g.dy { half_exact(e - 2 * g.dy + 2 * g.dx); } }
    assert(g.s * (m + 1) == g.s * m + g.s) by(nonlinear_arith);
  } }
@@ text
/// drawn so far: the pixels of the first k steps
pub open spec fn upto(g: Seg, k: int) -> spec_fn(int, int) -> bool { |i: int, j: int| line(g)(i, j) && (if g.steep { j } else { i }) < g.a0 + k }
/// the pixel that `at` points to is the only new one
pub proof fn lemma_new(g: Seg, k: int, m: int, i: int, j: int) requires small_seg(g), 0 <= k <= g.dx, 0 <= err2(g, k, m), if g.dx == 0 { m == 0 } else { err2(g, k, m) < 2 * g.dx }
  ensures upto(g, k + 1)(i, j) == (upto(g, k)(i, j) || (i, j) == pt(g, k, m))
{ let (u, v) = if g.steep { (j, i) } else { (i, j) };
  assert(close(g, k, m)) by { if g.dx > 0 { lemma_close(g, k, m); } }
  assert(g.s * (g.s * m) == m) by(nonlinear_arith) requires g.s == 1 || g.s == -1;
  let n = g.s * (v - g.b0);
  assert(g.s * n == v - g.b0) by(nonlinear_arith) requires g.s == 1 || g.s == -1, n == g.s * (v - g.b0);
  if u == g.a0 + k { if close(g, k, n) { lemma_unique(g, k, m, n); } } }
@@ fn drawing/line.rs draw_line_segment_mut
@ opts
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ spec
  requires old(canvas).cw() <= i32::MAX, old(canvas).chh() <= i32::MAX,
  ensures line_dom(start, end) ==> painted(old(canvas), final(canvas), line(seg(start, end)), color),
@ begin
  let ghost o = *canvas; let ghost g = seg(start, end); let ghost mut k: int = 0; let ghost mut m: int = 0;
@ subst
let in_bounds = |x, y| x >= 0 && x < width as i32 && y >= 0 && y < height as i32;
=>> let in_bounds = |x: i32, y: i32| -> (r: bool) ensures r == (0 <= x < width && 0 <= y < height) { x >= 0 && x < width as i32 && y >= 0 && y < height as i32 };
@ subst
for point in line_iterator {
=>> let mut line_iterator = line_iterator; loop
  invariant canvas.cw() == o.cw(), canvas.chh() == o.chh(), width == o.cw(), height == o.chh(),
    line_dom(start, end) ==> at(line_iterator, g, k, m) && painted(&o, canvas, upto(g, k), color),
  ensures line_dom(start, end) ==> painted(&o, canvas, line(g), color),
  decreases left(line_iterator),
  { let point = match line_iterator.next() { Some(point) => point, None => break };
  proof { if line_dom(start, end) {
    assert((point.0 as int, point.1 as int) == pt(g, k, m));
    assert forall|i: int, j: int| #[trigger] upto(g, k + 1)(i, j) == (upto(g, k)(i, j) || (i, j) == pt(g, k, m)) by { lemma_new(g, k, m, i, j); }
    if at(line_iterator, g, k + 1, m) { k = k + 1; } else { k = k + 1; m = m + 1; } } }
@@ fn drawing/line.rs draw_line_segment
@ sigsub draw_line_segment<I> =>> draw_line_segment<P: Pixel>
@ sigsub image: &I =>> image: &Image<P>
@ sigsub color: I::Pixel =>> color: P
@ sigsub Image<I::Pixel> =>> Image<P>
@ sigsub where I: GenericImage, =>>
@ spec
  requires image.w() <= i32::MAX, image.h() <= i32::MAX,
  ensures line_dom(start, end) ==> painted(image, &r, line(seg(start, end)), color),
