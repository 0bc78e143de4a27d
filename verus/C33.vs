@@ include line.vs
@@ text
pub open spec fn mn(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn mx(a: int, b: int) -> int { if a < b { b } else { a } }
/// (a, b), 0 <= a, b: b is the integer nearest to sqrt(r^2 - a^2), for a <= b
pub open spec fn on_arc(r: int, a: int, b: int) -> bool { if r == 0 { a == 0 && b == 0 } else { b * b - b < r * r - a * a <= b * b + b } }
/// the pixels of a circle of radius r about the origin
pub open spec fn circ(r: int, i: int, j: int) -> bool { r >= 0 && on_arc(r, mn(iabs(i), iabs(j)), mx(iabs(i), iabs(j))) }
/// the pixels of a disk: between two pixels of the circle in the same row
pub open spec fn disk(r: int, i: int, j: int) -> bool { exists|k: int| iabs(i) <= k && #[trigger] circ(r, k, j) }
pub open spec fn circle_at(r: int, x: int, y: int) -> spec_fn(int, int) -> bool { |i: int, j: int| circ(r, i - x, j - y) }
pub open spec fn disk_at(r: int, x: int, y: int) -> spec_fn(int, int) -> bool { |i: int, j: int| disk(r, i - x, j - y) }
/// drawn so far
pub open spec fn circ_upto(r: int, x: int, y: int, n: int) -> spec_fn(int, int) -> bool { |i: int, j: int| circ(r, i - x, j - y) && mn(iabs(i - x), iabs(j - y)) < n }
pub open spec fn span(r: int, i: int, j: int, n: int) -> bool { exists|k: int| iabs(i) <= k && #[trigger] circ(r, k, j) && mn(k, iabs(j)) < n }
pub open spec fn disk_upto(r: int, x: int, y: int, n: int) -> spec_fn(int, int) -> bool { |i: int, j: int| span(r, i - x, j - y, n) }
/// the octant walk: at (x, y) with the error of the next midpoint
pub open spec fn walk(r: int, x: int, y: int, p: int) -> bool {
  0 <= x && p == (x + 1) * (x + 1) + y * y - y - r * r && (x <= y ==> on_arc(r, x, y)) && (r > 0 ==> r * r - x * x <= y * y + y) && y <= r && x <= y + 2 && (x == 0 ==> y == r) && (r == 0 ==> x <= y || y < 0) && (r > 0 ==> y >= 0) && (r < 0 ==> y == r) }
pub proof fn lemma_start(r: int) ensures r >= 0 ==> walk(r, 0, r, 1 - r)
{ assert((0int + 1) * (0int + 1) == 1); assert(0int * 0int == 0); if r > 0 { assert(r * r >= r) by(nonlinear_arith) requires r > 0; } else if r == 0 { assert(r * r == 0); } }
pub proof fn sq_inc(x: int) ensures (x + 1) * (x + 1) == x * x + 2 * x + 1, (x - 1) * (x - 1) == x * x - 2 * x + 1 { assert((x + 1) * (x + 1) == x * x + 2 * x + 1) by(nonlinear_arith); assert((x - 1) * (x - 1) == x * x - 2 * x + 1) by(nonlinear_arith); }
pub proof fn sq_mono(a: int, b: int) requires 0 <= a <= b ensures a * a <= b * b { assert(a * a <= b * b) by(nonlinear_arith) requires 0 <= a <= b; }
pub proof fn lemma_walk(r: int, x: int, y: int, p: int) requires r >= 0, x <= y, walk(r, x, y, p)
  ensures p < 0 ==> walk(r, x + 1, y, p + 2 * (x + 1) + 1), p >= 0 ==> walk(r, x + 1, y - 1, p + 2 * (x + 1 - (y - 1)) + 1), -2 * r <= p <= 2 * r + 1
{ sq_inc(x); sq_inc(y); sq_inc(x + 1);
  if r == 0 { assert(r * r == 0 && x * x == 0 && y * y == 0); } }
/// each column of the octant has one pixel
pub proof fn lemma_arc_unique(r: int, a: int, b: int, c: int) requires 0 <= b, 0 <= c, on_arc(r, a, b), on_arc(r, a, c) ensures b == c
{ if r != 0 { if b < c { sq_mono(b + 1, c); sq_inc(b); sq_inc(c - 1); assert(c * c - c >= (b + 1) * (b + 1) - (b + 1)) by(nonlinear_arith) requires c >= b + 1, b >= 0; }
    if c < b { assert(b * b - b >= (c + 1) * (c + 1) - (c + 1)) by(nonlinear_arith) requires b >= c + 1, c >= 0; sq_inc(c); } } }
/// the walk ends beyond the diagonal
pub proof fn lemma_arc_end(r: int, x: int, y: int, p: int, a: int, b: int) requires r >= 0, walk(r, x, y, p), x > y, x <= a <= b ensures !on_arc(r, a, b)
{ if r == 0 { } else { sq_mono(x, a); sq_inc(y); assert(b * b - b >= (y + 1) * (y + 1) - (y + 1)) by(nonlinear_arith) requires b >= y + 1, y >= 0; } }
/// the eight pixels of a step
pub open spec fn eight(x: int, y: int, i: int, j: int) -> bool { (iabs(i) == x && iabs(j) == y) || (iabs(i) == y && iabs(j) == x) }
pub proof fn lemma_eight(r: int, x: int, y: int, i: int, j: int) requires r >= 0, 0 <= x <= y, on_arc(r, x, y)
  ensures (circ(r, i, j) && mn(iabs(i), iabs(j)) < x + 1) == ((circ(r, i, j) && mn(iabs(i), iabs(j)) < x) || eight(x, y, i, j))
{ if circ(r, i, j) && mn(iabs(i), iabs(j)) == x { lemma_arc_unique(r, x, y, mx(iabs(i), iabs(j))); } }
/// the four rows of a step
pub proof fn lemma_rows(r: int, x: int, y: int, i: int, j: int) requires r >= 0, 0 <= x <= y, on_arc(r, x, y)
  ensures span(r, i, j, x + 1) == (span(r, i, j, x) || (iabs(i) <= x && iabs(j) == y) || (iabs(i) <= y && iabs(j) == x))
{ if span(r, i, j, x + 1) { let k = choose|k: int| iabs(i) <= k && #[trigger] circ(r, k, j) && mn(k, iabs(j)) < x + 1; lemma_eight(r, x, y, k, j); 
    if mn(k, iabs(j)) < x { assert(span(r, i, j, x)); } }
  if span(r, i, j, x) { let k = choose|k: int| iabs(i) <= k && #[trigger] circ(r, k, j) && mn(k, iabs(j)) < x; assert(circ(r, k, j)); }
  if iabs(i) <= x && iabs(j) == y { assert(circ(r, x, j)); }
  if iabs(i) <= y && iabs(j) == x { assert(circ(r, y, j)); } }
pub open spec fn circ_dom(c: (i32, i32), r: i32) -> bool { -0x4000_0000 <= r <= 0x2000_0000 && -0x4000_0000 <= c.0 <= 0x4000_0000 && -0x4000_0000 <= c.1 <= 0x4000_0000 }
pub open spec fn disk_dom(c: (i32, i32), r: i32) -> bool { -4194304 <= r <= 4194304 && -4194304 <= c.0 <= 4194304 && -4194304 <= c.1 <= 4194304 }
/// every pixel of the circle is within about half a pixel of it: its squared distance from the centre differs from r^2 by r at most
pub proof fn theorem_circle(r: int, i: int, j: int) requires circ(r, i, j) ensures r * r - r <= i * i + j * j <= r * r + r
{ let (a, b) = (mn(iabs(i), iabs(j)), mx(iabs(i), iabs(j)));
  assert(a * a + b * b == i * i + j * j) by(nonlinear_arith) requires (a == iabs(i) && b == iabs(j)) || (a == iabs(j) && b == iabs(i)), iabs(i) == i || iabs(i) == -i, iabs(j) == j || iabs(j) == -j;
  if r == 0 { } else if b > r { assert(b * b - b >= (r + 1) * (r + 1) - (r + 1)) by(nonlinear_arith) requires b >= r + 1, r >= 0; sq_inc(r); assert(a * a >= 0) by(nonlinear_arith); } }
/// neighbouring columns of an octant have neighbouring pixels
pub proof fn theorem_connected(r: int, a: int, b: int, c: int) requires r >= 0, 0 <= a < b, a + 1 <= c, on_arc(r, a, b), on_arc(r, a + 1, c) ensures b - 1 <= c <= b
{ if r == 0 { } else { sq_inc(a); sq_inc(b);
  if c > b { assert(c * c - c >= (b + 1) * (b + 1) - (b + 1)) by(nonlinear_arith) requires c >= b + 1, b >= 0; sq_inc(b); }
  if c < b - 1 { assert(c * c + c <= (b - 2) * (b - 2) + (b - 2)) by(nonlinear_arith) requires 0 <= c <= b - 2; sq_inc(b - 1); } } }
/// the integer nearest to the square root of n
pub open spec fn near_sqrt(n: int, b: int) -> bool { 0 <= b && (n > 0 ==> b * b - b < n) && n <= b * b + b && (n == 0 ==> b == 0) }
pub proof fn lemma_near(n: int) requires n >= 0 ensures exists|b: int| #[trigger] near_sqrt(n, b) decreases n
{ if n == 0 { assert(near_sqrt(0, 0)); }
  else if n == 1 { assert(near_sqrt(1, 1)); }
  else { lemma_near(n - 1); let b = choose|b: int| #[trigger] near_sqrt(n - 1, b);
    if n <= b * b + b { assert(near_sqrt(n, b)); } else { sq_inc(b); assert(near_sqrt(n, b + 1)); } } }
/// the disk holds every point within r of the centre, its outline, and nothing outside the outline
pub proof fn theorem_disk(r: int, i: int, j: int) requires r >= 0
  ensures i * i + j * j <= r * r ==> disk(r, i, j), circ(r, i, j) ==> disk(r, i, j), disk(r, i, j) ==> i * i + j * j <= r * r + r
{ if circ(r, i, j) { assert(circ(r, iabs(i), j)); }
  if disk(r, i, j) { let k = choose|k: int| iabs(i) <= k && #[trigger] circ(r, k, j); theorem_circle(r, k, j); sq_mono(iabs(i), k);
    assert(iabs(i) * iabs(i) == i * i) by(nonlinear_arith) requires iabs(i) == i || iabs(i) == -i; }
  if i * i + j * j <= r * r {
    assert(i * i >= 0 && j * j >= 0) by(nonlinear_arith); 
    let n = r * r - j * j; lemma_near(n); let b = choose|b: int| #[trigger] near_sqrt(n, b); let c = iabs(j); let a = iabs(i);
    assert(c * c == j * j) by(nonlinear_arith) requires c == j || c == -j;
    assert(a * a == i * i) by(nonlinear_arith) requires a == i || a == -i;
    if a > b { sq_mono(b + 1, a); sq_inc(b); }
    if r == 0 { assert(j == 0) by(nonlinear_arith) requires j * j <= 0; assert(circ(r, 0, j)); }
    else { if n == 0 { assert(c == r) by(nonlinear_arith) requires c * c == r * r, c >= 0, r > 0; assert(0int * 0int == 0); assert(r * r > 0) by(nonlinear_arith) requires r > 0; assert(circ(r, 0, j)); } else {
      assert(circ(r, b, j)); } } } }
@@ fn drawing/mod.rs draw_if_in_bounds
@ spec
  requires old(canvas).cw() <= i32::MAX, old(canvas).chh() <= i32::MAX,
  ensures painted(old(canvas), final(canvas), |i: int, j: int| i == x && j == y, color),
@@ fn drawing/conics.rs draw_hollow_circle_mut
@ spec
  requires old(canvas).cw() <= i32::MAX, old(canvas).chh() <= i32::MAX, opaque::<C>(), circ_dom(center, radius),
  ensures painted(old(canvas), final(canvas), circle_at(radius as int, center.0 as int, center.1 as int), color),
@ begin
  let ghost o = *canvas; let ghost r = radius as int; proof { lemma_start(r); }
@ loop 0
  invariant canvas.cw() == o.cw(), canvas.chh() == o.chh(), r == radius, x0 == center.0, y0 == center.1, radius >= 0 ==> walk(r, x as int, y as int, p as int), radius < 0 ==> x == 0 && y == radius,
    painted(&o, canvas, circ_upto(r, x0 as int, y0 as int, x as int), color),
  decreases y - x + 3,
@ loop 0 begin
  proof { lemma_walk(r, x as int, y as int, p as int);
    assert forall|i: int, j: int| #[trigger] circ_upto(r, x0 as int, y0 as int, x + 1)(i, j) == (circ_upto(r, x0 as int, y0 as int, x as int)(i, j) || eight(x as int, y as int, i - x0, j - y0)) by { lemma_eight(r, x as int, y as int, i - x0, j - y0); } }
@ loop 0 after
  proof { assert forall|i: int, j: int| #[trigger] circ_upto(r, x0 as int, y0 as int, x as int)(i, j) == circle_at(r, x0 as int, y0 as int)(i, j) by {
    if r >= 0 && circ(r, i - x0, j - y0) && mn(iabs(i - x0), iabs(j - y0)) >= x { lemma_arc_end(r, x as int, y as int, p as int, mn(iabs(i - x0), iabs(j - y0)), mx(iabs(i - x0), iabs(j - y0))); } } }
@@ fn drawing/conics.rs draw_hollow_circle
@ sigsub draw_hollow_circle<I> =>> draw_hollow_circle<P: Pixel>
@ sigsub image: &I =>> image: &Image<P>
@ sigsub color: I::Pixel =>> color: P
@ sigsub Image<I::Pixel> =>> Image<P>
@ sigsub where I: GenericImage, =>>
@ spec
  requires image.w() <= i32::MAX, image.h() <= i32::MAX, circ_dom(center, radius),
  ensures painted(image, &r, circle_at(radius as int, center.0 as int, center.1 as int), color),
@@ text
pub broadcast proof fn lemma_cast(v: i32, x: f32) requires #[trigger] vstd::float::float_cast_spec(v, x), -8388608 <= v <= 8388608 ensures fi(x) == v, isint(x, 8388608)
{ broadcast use ax_i32_f; rn_int(v as int); floor_int(v as int); }
pub broadcast proof fn lemma_side(s: (f32, f32), e: (f32, f32)) requires ints(s, e, 8388608), fi(s.0) == fi(e.0) || fi(s.1) == fi(e.1)
  ensures line_dom(s, e), #[trigger] line(seg(s, e)) == seg_of(fi(s.0), fi(s.1), fi(e.0), fi(e.1))
{ theorem_axis(s, e); }
pub open spec fn rows(x: int, y: int, i: int, j: int) -> bool { (iabs(i) <= x && iabs(j) == y) || (iabs(i) <= y && iabs(j) == x) }
@@ fn drawing/conics.rs draw_filled_circle_mut
@ spec
  requires old(canvas).cw() <= i32::MAX, old(canvas).chh() <= i32::MAX, opaque::<C>(), disk_dom(center, radius),
  ensures painted(old(canvas), final(canvas), disk_at(radius as int, center.0 as int, center.1 as int), color),
@ begin
  broadcast use lemma_cast, lemma_side;
  let ghost o = *canvas; let ghost r = radius as int; proof { lemma_start(r); }
@ loop 0
  invariant canvas.cw() == o.cw(), canvas.chh() == o.chh(), r == radius, x0 == center.0, y0 == center.1, radius >= 0 ==> walk(r, x as int, y as int, p as int), radius < 0 ==> x == 0 && y == radius,
    painted(&o, canvas, disk_upto(r, x0 as int, y0 as int, x as int), color),
  decreases y - x + 3,
@ loop 0 begin
  proof { lemma_walk(r, x as int, y as int, p as int);
    assert forall|i: int, j: int| #[trigger] disk_upto(r, x0 as int, y0 as int, x + 1)(i, j) == (disk_upto(r, x0 as int, y0 as int, x as int)(i, j) || rows(x as int, y as int, i - x0, j - y0)) by { lemma_rows(r, x as int, y as int, i - x0, j - y0); } }
@ loop 0 after
  proof { assert forall|i: int, j: int| #[trigger] disk_upto(r, x0 as int, y0 as int, x as int)(i, j) == disk_at(r, x0 as int, y0 as int)(i, j) by {
    let (u, v) = (i - x0, j - y0);
    if span(r, u, v, x as int) { let k = choose|k: int| iabs(u) <= k && #[trigger] circ(r, k, v) && mn(k, iabs(v)) < x; assert(circ(r, k, v)); }
    if disk(r, u, v) { let k = choose|k: int| iabs(u) <= k && #[trigger] circ(r, k, v); 
      if mn(k, iabs(v)) >= x { lemma_arc_end(r, x as int, y as int, p as int, mn(k, iabs(v)), mx(k, iabs(v))); } assert(circ(r, k, v)); } } }
@@ fn drawing/conics.rs draw_filled_circle
@ sigsub draw_filled_circle<I> =>> draw_filled_circle<P: Pixel>
@ sigsub image: &I =>> image: &Image<P>
@ sigsub color: I::Pixel =>> color: P
@ sigsub Image<I::Pixel> =>> Image<P>
@ sigsub where I: GenericImage, =>>
@ spec
  requires image.w() <= i32::MAX, image.h() <= i32::MAX, disk_dom(center, radius),
  ensures painted(image, &r, disk_at(radius as int, center.0 as int, center.1 as int), color),
