@@ include C04.vs
@@ include canvas.vs
@@ include line.vs
@@ text
pub open spec fn outline(r: Rect) -> spec_fn(int, int) -> bool {
  |i: int, j: int| r.has(i, j) && (i == r.left || i == r.r() || j == r.top || j == r.b())
}
/// the coordinates of all four sides are exact in f32
pub open spec fn exact(r: Rect) -> bool { -8388608 <= r.left && r.r() <= 8388608 && -8388608 <= r.top && r.b() <= 8388608 }
pub open spec fn inner(r: Rect) -> spec_fn(int, int) -> bool { |i: int, j: int| r.has(i, j) }
pub broadcast proof fn lemma_corner(v: i32, x: f32) requires #[trigger] vstd::float::float_cast_spec(v, x), -8388608 <= v <= 8388608 ensures fi(x) == v, isint(x, 8388608)
{ broadcast use ax_i32_f; rn_int(v as int); floor_int(v as int); }
/// the line between two corners
pub broadcast proof fn lemma_side(s: (f32, f32), e: (f32, f32)) requires ints(s, e, 8388608), fi(s.0) == fi(e.0) || fi(s.1) == fi(e.1)
  ensures line_dom(s, e), #[trigger] line(seg(s, e)) == seg_of(fi(s.0), fi(s.1), fi(e.0), fi(e.1))
{ theorem_axis(s, e); }
@@ fn drawing/mod.rs draw_if_in_bounds
@ spec
  requires old(canvas).cw() <= i32::MAX, old(canvas).chh() <= i32::MAX,
  ensures painted(old(canvas), final(canvas), |i: int, j: int| i == x && j == y, color),
@@ fn drawing/cross.rs draw_cross_mut
@ spec
  ensures painted(old(canvas), final(canvas), plus(x as int, y as int), color),
@ begin
  let ghost o = *canvas; let ghost X = x as int; let ghost Y = y as int;
@ subst
let idx = |x, y| (3 * (y + 1) + x + 1) as usize;
=>> let idx = |x: i64, y: i64| -> (r: usize) requires -1 <= x <= 1, -1 <= y <= 1 ensures r == 3 * (y + 1) + x + 1 { (3 * (y + 1) + x + 1) as usize };
@ loop 0
  invariant start__0 == -1, end__0 == 2, canvas.cw() == o.cw(), canvas.chh() == o.chh(), stencil@ =~= seq![0u8, 1, 0, 1, 1, 1, 0, 1, 0],
    forall|i: int, j: int| on(&o, i, j) ==> #[trigger] canvas.cpx(i, j) == (if stencil_of(i - X, j - Y) && j < Y + sy { C::put(o.cpx(i, j), color) } else { o.cpx(i, j) }),
@ loop 1
  invariant start__1 == -1, end__1 == 2, canvas.cw() == o.cw(), canvas.chh() == o.chh(), iy == Y + sy, 0 <= iy < o.chh(), -1 <= sy < 2, stencil@ =~= seq![0u8, 1, 0, 1, 1, 1, 0, 1, 0],
    forall|i: int, j: int| on(&o, i, j) ==> #[trigger] canvas.cpx(i, j) == (if stencil_of(i - X, j - Y) && (j < Y + sy || (j == Y + sy && i < X + sx)) { C::put(o.cpx(i, j), color) } else { o.cpx(i, j) }),
@@ fn drawing/cross.rs draw_cross
@ sigsub draw_cross<I> =>> draw_cross<P: Pixel>
@ sigsub image: &I =>> image: &Image<P>
@ sigsub color: I::Pixel =>> color: P
@ sigsub Image<I::Pixel> =>> Image<P>
@ sigsub where     I: GenericImage, =>>
@ spec
  ensures painted(image, &r, plus(x as int, y as int), color),
@@ fn drawing/rect.rs draw_filled_rect_mut
@ spec
  requires rect.ok(), old(canvas).cw() <= i32::MAX, old(canvas).chh() <= i32::MAX,
  ensures painted(old(canvas), final(canvas), inner(rect), color),
@ begin
  let ghost o = *canvas;
@ loop 0
  invariant start__0 == 0, end__0 == intersection.height, canvas.cw() == o.cw(), canvas.chh() == o.chh(), intersection.ok(), 0 <= intersection.left, 0 <= intersection.top,
    forall|i: int, j: int| #[trigger] canvas.cpx(i, j) == (if intersection.has(i, j) && j < intersection.top + dy { C::put(o.cpx(i, j), color) } else { o.cpx(i, j) }),
@ loop 1
  invariant start__1 == 0, end__1 == intersection.width, canvas.cw() == o.cw(), canvas.chh() == o.chh(), intersection.ok(), 0 <= intersection.left, 0 <= intersection.top,
    forall|i: int, j: int| #[trigger] canvas.cpx(i, j) == (if intersection.has(i, j) && (j < intersection.top + dy || (j == intersection.top + dy && i < intersection.left + dx)) { C::put(o.cpx(i, j), color) } else { o.cpx(i, j) }),
@ before for dy in
  proof { assert(intersection.has(intersection.left as int, intersection.top as int)); assert(canvas_bounds.has(intersection.left as int, intersection.top as int));
    assert(intersection.has(intersection.r(), intersection.b())); assert(canvas_bounds.has(intersection.r(), intersection.b()));
    assert forall|i: int, j: int| on(&o, i, j) implies (#[trigger] intersection.has(i, j) <==> rect.has(i, j)) by { assert(canvas_bounds.has(i, j)); } }
@ loop 0 after
  proof { assert forall|i: int, j: int| on(&o, i, j) implies #[trigger] canvas.cpx(i, j) == (if rect.has(i, j) { C::put(o.cpx(i, j), color) } else { o.cpx(i, j) }) by { assert(intersection.has(i, j) <==> rect.has(i, j)); } }
@ end
  proof { 
    assert forall|i: int, j: int| on(&o, i, j) implies #[trigger] canvas_bounds.has(i, j) by { }
    assert forall|i: int, j: int| on(&o, i, j) implies #[trigger] canvas.cpx(i, j) == (if rect.has(i, j) { C::put(o.cpx(i, j), color) } else { o.cpx(i, j) }) by { assert(canvas_bounds.has(i, j)); } }
@@ fn drawing/rect.rs draw_filled_rect
@ sigsub draw_filled_rect<I> =>> draw_filled_rect<P: Pixel>
@ sigsub image: &I =>> image: &Image<P>
@ sigsub color: I::Pixel =>> color: P
@ sigsub Image<I::Pixel> =>> Image<P>
@ sigsub where     I: GenericImage, =>>
@ spec
  requires rect.ok(), image.w() <= i32::MAX, image.h() <= i32::MAX,
  ensures painted(image, &r, inner(rect), color),
@@ fn drawing/rect.rs draw_hollow_rect_mut
@ spec
  requires rect.ok(), old(canvas).cw() <= i32::MAX, old(canvas).chh() <= i32::MAX, opaque::<C>(),
    exact(rect),
  ensures painted(old(canvas), final(canvas), outline(rect), color),
@ begin
  let ghost o = *canvas;
  broadcast use lemma_corner, lemma_side;
@@ fn drawing/rect.rs draw_hollow_rect
@ sigsub draw_hollow_rect<I> =>> draw_hollow_rect<P: Pixel>
@ sigsub image: &I =>> image: &Image<P>
@ sigsub color: I::Pixel =>> color: P
@ sigsub Image<I::Pixel> =>> Image<P>
@ sigsub where     I: GenericImage, =>>
@ spec
  requires rect.ok(), image.w() <= i32::MAX, image.h() <= i32::MAX,
    exact(rect),
  ensures painted(image, &r, outline(rect), color),
