@@ include prelude.rs
@@ text
#[derive(Clone, Copy)]
pub struct Point<T> { pub x: T, pub y: T }
pub type P32 = Point<i32>;
/// twice the signed area of the triangle o, a, b: positive when o -> a -> b turns left (y pointing up)
pub open spec fn cr(o: P32, a: P32, b: P32) -> int { (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x) }
pub open spec fn d2(a: P32, b: P32) -> int { (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) }
/// p comes after s in the order by row, then column
pub open spec fn above(s: P32, p: P32) -> bool { p.y > s.y || p.y == s.y && p.x > s.x }
/// cross product relative to the origin
pub open spec fn xp(ax: int, ay: int, bx: int, by: int) -> int { ax * by - ay * bx }
pub open spec fn xr(ax: int, ay: int, bx: int, by: int, cx: int, cy: int) -> int { (bx - ax) * (cy - ay) - (by - ay) * (cx - ax) }
pub proof fn lemma_rel(s: P32, a: P32, b: P32, c: P32) ensures cr(a, b, c) == xr(a.x - s.x, a.y - s.y, b.x - s.x, b.y - s.y, c.x - s.x, c.y - s.y), cr(s, a, b) == xp(a.x - s.x, a.y - s.y, b.x - s.x, b.y - s.y)
{ assert((b.x - s.x) - (a.x - s.x) == b.x - a.x); assert((c.y - s.y) - (a.y - s.y) == c.y - a.y); assert((b.y - s.y) - (a.y - s.y) == b.y - a.y); assert((c.x - s.x) - (a.x - s.x) == c.x - a.x); }
pub proof fn lemma_ex(a: int, b: int, c: int, d: int) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d { assert((a - b) * (c - d) == a * c - a * d - b * c + b * d) by(nonlinear_arith); }
pub proof fn lemma_m4(a: int, b: int, c: int, d: int) ensures (a * b) * (c * d) == (a * d) * (b * c), (a * b) * (c * d) == (a * c) * (b * d)
{ assert((a * b) * (c * d) == (a * d) * (b * c)) by(nonlinear_arith); assert((a * b) * (c * d) == (a * c) * (b * d)) by(nonlinear_arith); }
pub proof fn lemma_d3(a: int, b: int, c: int, d: int) ensures a * (b + c - d) == a * b + a * c - a * d, (b + c - d) * a == b * a + c * a - d * a, a * (-(b + c - d)) == a * d - a * b - a * c, a * b == b * a, a * c == c * a, a * d == d * a, (-a) * b == -(a * b), (-a) * c == -(a * c), (-a) * d == -(a * d)
{ assert(a * (b + c - d) == a * b + a * c - a * d) by(nonlinear_arith); assert((b + c - d) * a == b * a + c * a - d * a) by(nonlinear_arith); assert(a * (-(b + c - d)) == a * d - a * b - a * c) by(nonlinear_arith);
  assert(a * b == b * a && a * c == c * a && a * d == d * a) by(nonlinear_arith); assert((-a) * b == -(a * b) && (-a) * c == -(a * c) && (-a) * d == -(a * d)) by(nonlinear_arith); }
/// the turn at b in terms of the three cross products
pub proof fn lemma_xr(ax: int, ay: int, bx: int, by: int, cx: int, cy: int) ensures xr(ax, ay, bx, by, cx, cy) == xp(ax, ay, bx, by) + xp(bx, by, cx, cy) - xp(ax, ay, cx, cy)
{ lemma_ex(bx, ax, cy, ay); lemma_ex(by, ay, cx, ax); }
/// the relation between four points of the plane
pub proof fn lemma_pluecker(ax: int, ay: int, bx: int, by: int, cx: int, cy: int, qx: int, qy: int)
  ensures xp(ax, ay, bx, by) * xp(cx, cy, qx, qy) - xp(ax, ay, cx, cy) * xp(bx, by, qx, qy) + xp(ax, ay, qx, qy) * xp(bx, by, cx, cy) == 0
{ lemma_ex(ax * by, ay * bx, cx * qy, cy * qx); lemma_ex(ax * cy, ay * cx, bx * qy, by * qx); lemma_ex(ax * qy, ay * qx, bx * cy, by * cx);
  lemma_m4(ax, by, cx, qy); lemma_m4(ax, by, cy, qx); lemma_m4(ay, bx, cx, qy); lemma_m4(ay, bx, cy, qx); lemma_m4(ax, bx, cy, qy); lemma_m4(ay, by, cx, qx); }
pub proof fn lemma_anti(s: P32, a: P32, b: P32) ensures cr(s, a, b) == -cr(s, b, a), cr(s, a, a) == 0, cr(s, s, a) == 0, cr(s, a, s) == 0, cr(a, b, b) == 0, cr(a, b, s) == cr(s, a, b), cr(a, s, b) == -cr(s, a, b)
{ assert((a.x - s.x) * (b.y - s.y) - (a.y - s.y) * (b.x - s.x) == -((b.x - s.x) * (a.y - s.y) - (b.y - s.y) * (a.x - s.x))) by(nonlinear_arith);
  let (ax, ay) = (a.x - s.x, a.y - s.y); assert(ax * ay == ay * ax) by(nonlinear_arith);
  assert(0 * ay - 0 * ax == 0 && ax * 0 - ay * 0 == 0);
  let (bx, by) = (b.x - a.x, b.y - a.y); assert(bx * by == by * bx) by(nonlinear_arith);
  let (x, y, z, w, u, v) = (a.x as int, a.y as int, b.x as int, b.y as int, s.x as int, s.y as int);
  assert((z - x) * (v - y) - (w - y) * (u - x) == (x - u) * (w - v) - (y - v) * (z - u)) by(nonlinear_arith);
  assert((u - x) * (w - y) - (v - y) * (z - x) == -((x - u) * (w - v) - (y - v) * (z - u))) by(nonlinear_arith); }
/// with e = cr(x, y, z) seen from s: cr(a, b, p) = ab + bp - ap
pub proof fn lemma_turn(s: P32, a: P32, b: P32, p: P32) ensures cr(a, b, p) == cr(s, a, b) + cr(s, b, p) - cr(s, a, p)
{ lemma_rel(s, a, b, p); lemma_rel(s, b, p, a); lemma_rel(s, a, p, b); lemma_xr(a.x - s.x, a.y - s.y, b.x - s.x, b.y - s.y, p.x - s.x, p.y - s.y); }
pub proof fn lemma_four(s: P32, a: P32, b: P32, c: P32, q: P32) ensures cr(s, a, b) * cr(s, c, q) - cr(s, a, c) * cr(s, b, q) + cr(s, a, q) * cr(s, b, c) == 0
{ lemma_rel(s, a, b, c); lemma_rel(s, c, q, a); lemma_rel(s, a, c, b); lemma_rel(s, b, q, a); lemma_rel(s, a, q, b); lemma_rel(s, b, c, a);
  lemma_pluecker(a.x - s.x, a.y - s.y, b.x - s.x, b.y - s.y, c.x - s.x, c.y - s.y, q.x - s.x, q.y - s.y); }
/// two directions of the half-plane above s: collinear ones point the same way
pub proof fn lemma_ray(s: P32, a: P32, b: P32, q: P32) requires above(s, a), above(s, b), cr(s, a, b) == 0 ensures (cr(s, a, q) > 0) == (cr(s, b, q) > 0), (cr(s, a, q) < 0) == (cr(s, b, q) < 0)
{ let (ax, ay, bx, by, qx, qy) = (a.x - s.x, a.y - s.y, b.x - s.x, b.y - s.y, q.x - s.x, q.y - s.y);
  // ay * (b x q) == by * (a x q), and the same with x
  assert(ay * (bx * qy - by * qx) == by * (ax * qy - ay * qx)) by(nonlinear_arith) requires ax * by - ay * bx == 0;
  assert(ax * (bx * qy - by * qx) == bx * (ax * qy - ay * qx)) by(nonlinear_arith) requires ax * by - ay * bx == 0;
  let (u, v) = (cr(s, a, q), cr(s, b, q));
  if ay > 0 { if by == 0 { assert(ay * bx > 0) by(nonlinear_arith) requires ay > 0, bx > 0; assert(ax * by == 0) by(nonlinear_arith) requires by == 0; } else { lemma_sign(ay, v, by, u); } }
  else { if by > 0 { assert(ax * by > 0) by(nonlinear_arith) requires ax > 0, by > 0; assert(ay * bx == 0) by(nonlinear_arith) requires ay == 0; } lemma_sign(ax, v, bx, u); } }
pub proof fn lemma_sign(a: int, v: int, b: int, u: int) requires a > 0, b > 0, a * v == b * u ensures (u > 0) == (v > 0), (u < 0) == (v < 0)
{ assert((u > 0) == (v > 0) && (u < 0) == (v < 0)) by(nonlinear_arith) requires a > 0, b > 0, a * v == b * u; }
pub proof fn lemma_pos(d: int, f: int, a: int, b: int, c: int, e: int) requires d > 0, d * f == a * b + c * e, a >= 0, b >= 0, c >= 0, e >= 0 ensures f >= 0, (a > 0 && b > 0) || (c > 0 && e > 0) ==> f > 0
{ assert(a * b >= 0 && c * e >= 0) by(nonlinear_arith) requires a >= 0, b >= 0, c >= 0, e >= 0;
  if a > 0 && b > 0 { assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0; } if c > 0 && e > 0 { assert(c * e > 0) by(nonlinear_arith) requires c > 0, e > 0; }
  let t = a * b + c * e; assert(f >= 0) by(nonlinear_arith) requires d > 0, d * f == t, t >= 0; if t > 0 { assert(f > 0) by(nonlinear_arith) requires d > 0, d * f == t, t > 0; } }
/// a point left of b -> c and not before b in angle is left of a -> b
pub proof fn lemma_chain(s: P32, a: P32, b: P32, c: P32, p: P32) requires cr(s, b, c) > 0, cr(s, b, p) >= 0, cr(a, b, c) >= 0, cr(b, c, p) >= 0, cr(s, a, b) >= 0 ensures cr(a, b, p) >= 0
{ lemma_turn(s, a, b, p); lemma_turn(s, a, b, c); lemma_turn(s, b, c, p); lemma_four(s, a, b, c, p);
  let (ab, bc, ac, bp, ap, cp) = (cr(s, a, b), cr(s, b, c), cr(s, a, c), cr(s, b, p), cr(s, a, p), cr(s, c, p));
  // bc * (ab + bp - ap) == bp * (ab + bc - ac) + (bc + cp - bp) * ab
  lemma_d3(bc, ab, bp, ap); lemma_d3(bp, ab, bc, ac); lemma_d3(ab, bc, cp, bp);
  lemma_pos(bc, cr(a, b, p), bp, cr(a, b, c), cr(b, c, p), ab); }
/// the new edge b -> p has the points of the wedge below b on its left
pub proof fn lemma_new_edge(s: P32, a: P32, b: P32, p: P32, q: P32) requires cr(s, a, b) > 0, cr(s, q, b) >= 0, cr(a, b, p) >= 0, cr(a, b, q) >= 0, cr(s, b, p) >= 0 ensures cr(b, p, q) >= 0
{ lemma_turn(s, b, p, q); lemma_turn(s, a, b, p); lemma_turn(s, a, b, q); lemma_four(s, a, b, p, q); lemma_anti(s, q, b); lemma_anti(s, p, q);
  let (ab, bp, ap, bq, aq, pq) = (cr(s, a, b), cr(s, b, p), cr(s, a, p), cr(s, b, q), cr(s, a, q), cr(s, p, q));
  lemma_d3(ab, bp, pq, bq); lemma_d3(-bq, ab, bp, ap); lemma_d3(bq, ab, bp, ap); lemma_d3(bp, ab, bq, aq);
  lemma_pos(ab, cr(b, p, q), -bq, cr(a, b, p), cr(a, b, q), bp); }
/// dropping b: points of the two wedges around b stay below the line a -> p
pub proof fn lemma_drop(s: P32, a: P32, b: P32, p: P32, q: P32)
  requires above(s, b), above(s, p), cr(s, a, b) > 0, cr(s, b, p) >= 0, cr(s, a, p) >= 0, cr(a, b, p) <= 0, cr(s, a, q) > 0, cr(s, q, p) >= 0, cr(s, b, q) <= 0 ==> cr(a, b, q) >= 0, cr(s, b, q) > 0 ==> cr(b, p, q) >= 0
  ensures cr(a, p, q) >= 0
{ lemma_turn(s, a, p, q); lemma_turn(s, a, b, p); lemma_turn(s, a, b, q); lemma_turn(s, b, p, q); lemma_four(s, a, b, p, q); lemma_anti(s, p, q); lemma_anti(s, b, q); lemma_anti(s, q, p);
  let (ab, bp, ap, bq, aq, pq) = (cr(s, a, b), cr(s, b, p), cr(s, a, p), cr(s, b, q), cr(s, a, q), cr(s, p, q));
  if bq > 0 {
    if bp == 0 { lemma_ray(s, b, p, q); }
    lemma_d3(bp, ap, pq, aq); lemma_d3(-pq, ab, bp, ap); lemma_d3(pq, ab, bp, ap); lemma_d3(ap, bp, pq, bq);
    lemma_pos(bp, cr(a, p, q), -pq, -cr(a, b, p), cr(b, p, q), ap);
  } else {
    lemma_d3(ab, ap, pq, aq); lemma_d3(aq, ab, bp, ap); lemma_d3(ap, ab, bq, aq);
    lemma_pos(ab, cr(a, p, q), aq, -cr(a, b, p), cr(a, b, q), ap);
  } }
/// on one ray: the nearer point's cross products are the smaller ones
pub proof fn lemma_near(s: P32, q: P32, b: P32, p: P32) requires above(s, q), above(s, b), cr(s, q, b) == 0, d2(s, q) <= d2(s, b), above(s, p) ensures cr(s, b, p) >= 0 ==> cr(s, q, p) <= cr(s, b, p) && cr(b, p, q) >= 0, cr(s, b, p) <= 0 ==> cr(s, q, p) >= cr(s, b, p)
{ let (bx, by, qx, qy, px, py) = (b.x - s.x, b.y - s.y, q.x - s.x, q.y - s.y, p.x - s.x, p.y - s.y);
  assert(d2(s, q) == qx * qx + qy * qy) by(nonlinear_arith) requires d2(s, q) == (s.x - q.x) * (s.x - q.x) + (s.y - q.y) * (s.y - q.y), qx == q.x - s.x, qy == q.y - s.y;
  assert(d2(s, b) == bx * bx + by * by) by(nonlinear_arith) requires d2(s, b) == (s.x - b.x) * (s.x - b.x) + (s.y - b.y) * (s.y - b.y), bx == b.x - s.x, by == b.y - s.y;
  assert(qx * by - qy * bx == 0);
  let (u, v) = (cr(s, q, p), cr(s, b, p));
  assert(u == qx * py - qy * px); assert(v == bx * py - by * px);
  if by > 0 {
    if qy == 0 { assert(qx * by > 0) by(nonlinear_arith) requires qx > 0, by > 0; assert(qy * bx == 0) by(nonlinear_arith) requires qy == 0; }
    // by^2 |q|^2 == qy^2 |b|^2
    assert(by * by * (qx * qx + qy * qy) == qy * qy * (bx * bx + by * by)) by {
      let (f, g, qq, bb) = (by * by, qy * qy, qx * qx, bx * bx); lemma_m4(qx, by, qx, by); lemma_m4(qy, bx, qy, bx);
      assert(f * (qq + g) == f * qq + f * g) by(nonlinear_arith); assert(g * (bb + f) == g * bb + g * f) by(nonlinear_arith); assert(f * g == g * f && f * qq == qq * f) by(nonlinear_arith); }
    let (n, m) = (qx * qx + qy * qy, bx * bx + by * by);
    assert(m > 0) by(nonlinear_arith) requires m == bx * bx + by * by, by > 0;
    if qy > by { assert(qy * qy > by * by) by(nonlinear_arith) requires qy > by, by > 0; let (f, g) = (qy * qy, by * by); assert(g > 0) by(nonlinear_arith) requires g == by * by, by > 0; assert(false) by(nonlinear_arith) requires g * n == f * m, f > g, n <= m, m > 0, g > 0; }
    assert(by * u == qy * v) by {
      let (a, b, c, d) = (qx * py, qy * px, bx * py, by * px); lemma_ex(by, 0, a, b); lemma_ex(qy, 0, c, d);
      assert(by * (a - b) == by * a - by * b) by(nonlinear_arith); assert(qy * (c - d) == qy * c - qy * d) by(nonlinear_arith);
      assert(by * a == (qx * by) * py) by(nonlinear_arith) requires a == qx * py; assert(qy * c == (qy * bx) * py) by(nonlinear_arith) requires c == bx * py;
      assert(by * b == qy * d) by(nonlinear_arith) requires b == qy * px, d == by * px; }
    if v >= 0 { assert(u <= v) by(nonlinear_arith) requires by * u == qy * v, 0 <= qy <= by, by > 0, v >= 0; } else { assert(u >= v) by(nonlinear_arith) requires by * u == qy * v, 0 <= qy <= by, by > 0, v <= 0; }
    if v == 0 { assert(u == 0) by(nonlinear_arith) requires by * u == qy * v, v == 0, by > 0; }
  } else {
    assert(by == 0); assert(qx * 0 - qy * bx == 0); assert(qy == 0) by(nonlinear_arith) requires qx * 0 - qy * bx == 0, bx > 0;
    assert(qy * qy == 0 && by * by == 0) by(nonlinear_arith) requires qy == 0, by == 0; if qx > bx { assert(qx * qx > bx * bx) by(nonlinear_arith) requires qx > bx, bx > 0; }
    assert(0 <= qx * py <= bx * py) by(nonlinear_arith) requires 0 <= qx <= bx, py >= 0; assert(qy * px == 0 && by * px == 0) by(nonlinear_arith) requires qy == 0, by == 0;
  }
  lemma_turn(s, b, p, q); lemma_anti(s, p, q); lemma_anti(s, q, b); }
/// coordinates for which the turn fits 64 bits
pub open spec fn small(p: P32) -> bool { -0x4000_0000 < p.x < 0x4000_0000 && -0x4000_0000 < p.y < 0x4000_0000 }
/// angles about s are ordered
pub proof fn lemma_trans(s: P32, a: P32, b: P32, c: P32) requires above(s, a), above(s, b), above(s, c), cr(s, a, b) >= 0, cr(s, b, c) >= 0 ensures cr(s, a, c) >= 0, cr(s, a, b) > 0 || cr(s, b, c) > 0 ==> cr(s, a, c) > 0
{ let (ax, ay, bx, by, cx, cy) = (a.x - s.x, a.y - s.y, b.x - s.x, b.y - s.y, c.x - s.x, c.y - s.y); let (ab, bc, ac) = (cr(s, a, b), cr(s, b, c), cr(s, a, c));
  assert(by * ac == ay * bc + cy * ab) by(nonlinear_arith) requires ab == ax * by - ay * bx, bc == bx * cy - by * cx, ac == ax * cy - ay * cx;
  if by > 0 {
    if cy == 0 { assert(by * cx > 0) by(nonlinear_arith) requires by > 0, cx > 0; assert(bx * cy == 0) by(nonlinear_arith) requires cy == 0; assert(false); }
    if ay == 0 { assert(ax * by > 0) by(nonlinear_arith) requires by > 0, ax > 0; assert(ay * bx == 0) by(nonlinear_arith) requires ay == 0; }
    lemma_pos(by, ac, ay, bc, cy, ab);
  } else {
    assert(ax * by == 0) by(nonlinear_arith) requires by == 0;
    if ay > 0 { assert(ay * bx > 0) by(nonlinear_arith) requires ay > 0, bx > 0; assert(false); }
    assert(ay * bx == 0) by(nonlinear_arith) requires ay == 0; lemma_anti(s, a, b); lemma_ray(s, a, b, c); } }
/// the order in which the points are visited: by angle about s, then by distance
pub open spec fn order(s: P32, a: P32, b: P32) -> Ordering { if cr(s, a, b) > 0 { Ordering::Less } else if cr(s, a, b) < 0 { Ordering::Greater } else if d2(s, a) < d2(s, b) { Ordering::Less } else if d2(s, a) > d2(s, b) { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn all_above(s: P32, v: Seq<P32>) -> bool { forall|i: int| 0 <= i < v.len() ==> above(s, #[trigger] v[i]) && small(v[i]) }
pub open spec fn opp(a: Ordering) -> Ordering { match a { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
pub open spec fn total(s: P32, v: Seq<P32>) -> bool {
  (forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() ==> opp(#[trigger] order(s, v[i], v[j])) == order(s, v[j], v[i]))
  && forall|i: int, j: int, k: int| 0 <= i < v.len() && 0 <= j < v.len() && 0 <= k < v.len() && #[trigger] order(s, v[i], v[j]) != Ordering::Greater && #[trigger] order(s, v[j], v[k]) != Ordering::Greater ==> order(s, v[i], v[k]) != Ordering::Greater }
pub proof fn lemma_total(s: P32, v: Seq<P32>) requires all_above(s, v) ensures total(s, v)
{ assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() implies opp(#[trigger] order(s, v[i], v[j])) == order(s, v[j], v[i]) by { lemma_anti(s, v[i], v[j]); }
  assert forall|i: int, j: int, k: int| 0 <= i < v.len() && 0 <= j < v.len() && 0 <= k < v.len() && #[trigger] order(s, v[i], v[j]) != Ordering::Greater && #[trigger] order(s, v[j], v[k]) != Ordering::Greater implies order(s, v[i], v[k]) != Ordering::Greater by { lemma_trans(s, v[i], v[j], v[k]); } }
pub open spec fn sorted(s: P32, v: Seq<P32>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> cr(s, #[trigger] v[i], #[trigger] v[j]) >= 0 && (cr(s, v[i], v[j]) == 0 ==> d2(s, v[i]) <= d2(s, v[j])) }
pub open spec fn left(h: Seq<P32>, i: int, q: P32) -> bool { cr(h[i], h[i + 1], q) >= 0 }
pub open spec fn ang(h: Seq<P32>, i: int) -> bool { cr(h[0], h[i], h[i + 1]) > 0 }
pub open spec fn cvx(h: Seq<P32>, i: int) -> bool { cr(h[i], h[i + 1], h[i + 2]) > 0 }
/// a convex chain from s, counter-clockwise about s
pub open spec fn chain(s: P32, h: Seq<P32>) -> bool {
  h.len() >= 1 && h[0] == s && (forall|i: int| 1 <= i < h.len() ==> above(s, #[trigger] h[i])) && (forall|i: int| 1 <= i < h.len() - 1 ==> #[trigger] ang(h, i)) && forall|i: int| 0 <= i < h.len() - 2 ==> #[trigger] cvx(h, i) }
pub open spec fn among(p: P32, v: Seq<P32>, k: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] v[j] == p }
/// the points visited so far lie left of every edge of the chain
pub open spec fn holds(s: P32, v: Seq<P32>, k: int, h: Seq<P32>) -> bool {
  chain(s, h) && (forall|i: int| 1 <= i < h.len() ==> among(#[trigger] h[i], v, k)) && (forall|i: int, j: int| 0 <= i < h.len() - 1 && 0 <= j < k ==> #[trigger] left(h, i, v[j]))
  && (h.len() >= 2 ==> forall|j: int| 0 <= j < k && cr(s, h[1], #[trigger] v[j]) == 0 ==> d2(s, v[j]) <= d2(s, h[1])) }
pub open spec fn done(s: P32, v: Seq<P32>, k: int, h: Seq<P32>) -> bool { holds(s, v, k, h) && (k == 0 ==> h.len() == 1) && (k > 0 ==> h.len() >= 2 && h.last() == v[k - 1]) }
/// while the corners hidden by v[k] are dropped
pub open spec fn dropping(s: P32, v: Seq<P32>, k: int, h: Seq<P32>) -> bool {
  holds(s, v, k, h) && (forall|j: int| 0 <= j < k ==> cr(s, h.last(), #[trigger] v[j]) <= 0 || cr(h.last(), v[k], v[j]) >= 0) && (h.len() == 1 ==> forall|j: int| 0 <= j < k ==> cr(s, #[trigger] v[j], v[k]) == 0) }
pub proof fn lemma_enter(s: P32, v: Seq<P32>, k: int, h: Seq<P32>) requires 0 <= k < v.len(), done(s, v, k, h), sorted(s, v) ensures dropping(s, v, k, h)
{ assert forall|j: int| 0 <= j < k implies cr(s, h.last(), #[trigger] v[j]) <= 0 by { if j < k - 1 { lemma_anti(s, v[j], v[k - 1]); assert(cr(s, v[j], v[k - 1]) >= 0); } else { lemma_anti(s, v[j], v[j]); } } }
pub proof fn lemma_pop(s: P32, v: Seq<P32>, k: int, h: Seq<P32>) requires 0 <= k < v.len(), dropping(s, v, k, h), sorted(s, v), all_above(s, v), h.len() > 1, cr(h[h.len() - 2], h.last(), v[k]) <= 0 ensures dropping(s, v, k, h.drop_last())
{ hide(cr); hide(d2); let n = h.len() as int; let g = h.drop_last(); let (a, b, p) = (h[n - 2], h[n - 1], v[k]);
  assert(among(h[n - 1], v, k)); assert(cr(s, b, p) >= 0);
  assert forall|i: int| 1 <= i < g.len() implies above(s, #[trigger] g[i]) && among(g[i], v, k) by { assert(above(s, h[i]) && among(h[i], v, k)); }
  assert forall|i: int| 1 <= i < g.len() - 1 implies #[trigger] ang(g, i) by { assert(ang(h, i)); }
  assert forall|i: int| 0 <= i < g.len() - 2 implies #[trigger] cvx(g, i) by { assert(cvx(h, i)); }
  assert forall|i: int, j: int| 0 <= i < g.len() - 1 && 0 <= j < k implies #[trigger] left(g, i, v[j]) by { assert(left(h, i, v[j])); }
  if n == 2 {
    assert forall|j: int| 0 <= j < k implies cr(s, #[trigger] v[j], p) == 0 && cr(s, g.last(), v[j]) <= 0 by { assert(left(h, 0, v[j])); lemma_ray(s, b, p, v[j]); lemma_anti(s, p, v[j]); lemma_anti(s, v[j], p); }
  } else {
    assert(ang(h, n - 2)); assert(among(h[n - 2], v, k)); assert(cr(s, a, p) >= 0);
    assert forall|j: int| 0 <= j < k implies cr(s, g.last(), #[trigger] v[j]) <= 0 || cr(g.last(), p, v[j]) >= 0 by { if cr(s, a, v[j]) > 0 { assert(left(h, n - 2, v[j])); assert(cr(s, v[j], p) >= 0); lemma_drop(s, a, b, p, v[j]); } }
  } }
pub proof fn lemma_left_all(s: P32, v: Seq<P32>, k: int, h: Seq<P32>, i: int) requires 0 <= k < v.len(), holds(s, v, k, h), sorted(s, v), 0 <= i < h.len() - 1, cr(h[h.len() - 2], h.last(), v[k]) > 0 ensures left(h, i, v[k]) decreases h.len() - i
{ hide(cr); hide(d2); if i < h.len() - 2 { lemma_left_all(s, v, k, h, i + 1); assert(ang(h, i + 1)); assert(cvx(h, i)); assert(among(h[i + 1], v, k)); assert(cr(s, h[i + 1], v[k]) >= 0); if i == 0 { lemma_anti(s, h[1], h[1]); } else { assert(ang(h, i)); } lemma_chain(s, h[i], h[i + 1], h[i + 2], v[k]); } }
pub proof fn lemma_push(s: P32, v: Seq<P32>, k: int, h: Seq<P32>) requires 0 <= k < v.len(), dropping(s, v, k, h), sorted(s, v), all_above(s, v), h.len() == 1 || cr(h[h.len() - 2], h.last(), v[k]) > 0 ensures done(s, v, k + 1, h.push(v[k]))
{ hide(cr); hide(d2); let n = h.len() as int; let p = v[k]; let g = h.push(p); let b = h[n - 1];
  assert(among(p, v, k + 1)) by { assert(v[k] == p); }
  assert forall|i: int| 1 <= i < g.len() implies above(s, #[trigger] g[i]) && among(g[i], v, k + 1) by { if i < n { assert(above(s, h[i]) && among(h[i], v, k)); let j = choose|j: int| 0 <= j < k && v[j] == h[i]; assert(v[j] == g[i]); } }
  assert forall|j: int| 0 <= j < k implies cr(s, #[trigger] v[j], p) >= 0 by { }
  if n == 1 {
    assert forall|i: int, j: int| 0 <= i < g.len() - 1 && 0 <= j < k + 1 implies #[trigger] left(g, i, v[j]) by { lemma_anti(s, v[j], p); }
    assert forall|j: int| 0 <= j < k + 1 && cr(s, g[1], #[trigger] v[j]) == 0 implies d2(s, v[j]) <= d2(s, g[1]) by { if j < k { assert(cr(s, v[j], v[k]) == 0); } }
  } else {
    let a = h[n - 2];
    assert(above(s, h[n - 1]) && among(h[n - 1], v, k)); let jb = choose|j: int| 0 <= j < k && v[j] == b; assert(cr(s, v[jb], v[k]) >= 0);
    if n >= 3 { assert(ang(h, n - 2)); assert(above(s, h[n - 2])); }
    assert(cr(s, b, p) > 0) by { if n >= 3 && cr(s, b, p) == 0 { lemma_near(s, b, p, a); lemma_anti(s, a, b); lemma_anti(s, a, p); lemma_turn(s, a, b, p); } }
    assert forall|i: int| 1 <= i < g.len() - 1 implies #[trigger] ang(g, i) by { if i < n - 1 { assert(ang(h, i)); } }
    assert forall|i: int| 0 <= i < g.len() - 2 implies #[trigger] cvx(g, i) by { if i < n - 2 { assert(cvx(h, i)); } }
    assert forall|i: int, j: int| 0 <= i < g.len() - 1 && 0 <= j < k + 1 implies #[trigger] left(g, i, v[j]) by {
      if i < n - 1 { if j < k { assert(left(h, i, v[j])); } else { lemma_left_all(s, v, k, h, i); } }
      else if j == k { lemma_anti(b, p, p); }
      else { let q = v[j]; if cr(s, b, q) <= 0 { lemma_anti(s, q, b); assert(left(h, n - 2, q)); if n >= 3 { lemma_new_edge(s, a, b, p, q); } else { lemma_near(s, q, b, p); } } } }
    assert forall|j: int| 0 <= j < k + 1 && cr(s, g[1], #[trigger] v[j]) == 0 implies d2(s, v[j]) <= d2(s, g[1]) by { if j == k { assert(left(h, 0, v[jb])); assert(above(s, h[1])); lemma_ray(s, h[1], p, b); lemma_anti(s, p, b); } }
  } }
