@@ include hull.vs
@@ include dreal.vs
@@ text
/// num's conversions: exact on the integers used, the identity for i32 -> i32
pub trait NumCast: Sized + Copy {
  spec fn val(self) -> real;
  spec fn int32(self) -> Option<i32>;
  fn to_f64(&self) -> (r: Option<f64>) ensures r is Some, dv(r->0) == self.val();
  fn to_i32(&self) -> (r: Option<i32>) ensures r == self.int32();
}
impl NumCast for i32 {
  open spec fn val(self) -> real { self as real }
  open spec fn int32(self) -> Option<i32> { Some(self) }
  #[verifier::external_body]
  fn to_f64(&self) -> (r: Option<f64>) { Some(*self as f64) }
  fn to_i32(&self) -> (r: Option<i32>) { Some(*self) }
}
impl NumCast for f64 {
  open spec fn val(self) -> real { dv(self) }
  uninterp spec fn int32(self) -> Option<i32>;
  fn to_f64(&self) -> (r: Option<f64>) { Some(*self) }
  #[verifier::external_body]
  fn to_i32(&self) -> (r: Option<i32>) { unimplemented!() }
}
pub uninterp spec fn rsqrt(x: real) -> real;
pub axiom fn ax_rsqrt(x: real) requires x >= 0real ensures rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x;
pub assume_specification[ f64::sqrt ](x: f64) -> (r: f64) ensures dv(r) == rsqrt(dv(x));
pub assume_specification[ f64::powf ](x: f64, n: f64) -> (r: f64) ensures dv(n) == 2real ==> dv(r) == dv(x) * dv(x);
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures dv(r) == (if dv(x) < 0real { -dv(x) } else { dv(x) });
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rsq<T: NumCast>(p: Point<T>, q: Point<T>) -> real { (p.x.val() - q.x.val()) * (p.x.val() - q.x.val()) + (p.y.val() - q.y.val()) * (p.y.val() - q.y.val()) }
pub open spec fn dist<T: NumCast>(p: Point<T>, q: Point<T>) -> real { rsqrt(rsq(p, q)) }
pub open spec fn rcross<T: NumCast>(p: Point<T>, q: Point<T>) -> real { p.x.val() * q.y.val() - p.y.val() * q.x.val() }
/// length of the first n steps
pub open spec fn path_len<T: NumCast>(a: Seq<Point<T>>, n: int) -> real decreases n { if n <= 0 { 0real } else { path_len(a, n - 1) + dist(a[n - 1], a[n]) } }
/// shoelace sum of the first n points, the last point before the first
pub open spec fn shoelace<T: NumCast>(a: Seq<Point<T>>, n: int) -> real decreases n { if n <= 0 { 0real } else { shoelace(a, n - 1) + rcross(a[if n == 1 { a.len() - 1 } else { n - 2 }], a[n - 1]) } }
@@ fn point.rs Point::new
@ spec
  ensures r.x == x, r.y == y
@@ fn point.rs Point::to_f64
@ spec
  ensures dv(r.x) == self.x.val(), dv(r.y) == self.y.val()
@@ fn point.rs Point::to_i32
@ spec
  requires self.x.int32() is Some, self.y.int32() is Some
  ensures r.x == self.x.int32()->0, r.y == self.y.int32()->0
@@ fn point.rs distance_sq
@ spec
  ensures dv(r) == rsq(p, q)
@ begin
  broadcast use dreal;
@@ fn point.rs distance
@ spec
  ensures dv(r) == dist(p, q)
@@ enum geometry.rs Orientation
@ opts
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
@@ text
pub open spec fn turn(p: P32, q: P32, r: P32) -> Orientation { if cr(p, q, r) > 0 { Orientation::CounterClockwise } else if cr(p, q, r) < 0 { Orientation::Clockwise } else { Orientation::Collinear } }
@@ fn geometry.rs orientation
@ spec
  requires small(p), small(q), small(r),
  ensures o == turn(p, q, r)
@ sigsub (r: Orientation) =>> (o: Orientation)
@ before let val = pq_y * qr_x - pq_x * qr_y;
  proof { let (a, b, c, d) = (pq_x as int, pq_y as int, qr_x as int, qr_y as int); let m = 0x7fff_ffffint;
    assert(-m * m <= b * c <= m * m && -m * m <= a * d <= m * m) by(nonlinear_arith) requires -m <= a <= m, -m <= b <= m, -m <= c <= m, -m <= d <= m, m == 0x7fff_ffff;
    lemma_turn(p, p, q, r); let e = (q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x);
    assert(b * c - a * d == -e) by(nonlinear_arith) requires a == q.x - p.x, b == q.y - p.y, c == r.x - q.x, d == r.y - q.y, e == (q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x); }
@@ text
/// std's partial_cmp on finite floats
#[verifier::external_body]
pub fn f64_cmp(a: f64, b: f64) -> (r: Ordering) ensures dv(a) < dv(b) ==> r == Ordering::Less, dv(a) > dv(b) ==> r == Ordering::Greater, dv(a) == dv(b) ==> r == Ordering::Equal { a.partial_cmp(&b).unwrap() }
/// std's sort_by with a total order: the same points, none before a smaller one
#[verifier::external_body]
pub fn sort_by__<F: Fn(&P32, &P32) -> Ordering>(Ghost(s): Ghost<P32>, v: &mut Vec<P32>, f: F)
  requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> f.requires((&#[trigger] old(v)@[i], &#[trigger] old(v)@[j])),
    forall|a: P32, b: P32, o: Ordering| small(a) && small(b) && #[trigger] f.ensures((&a, &b), o) ==> o == order(s, a, b),
    total(s, old(v)@)
  ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]), forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@.contains(#[trigger] old(v)@[i]),
    forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> order(s, #[trigger] final(v)@[i], #[trigger] final(v)@[j]) != Ordering::Greater
{ v.sort_by(f) }
/// the float distances order integer points as their exact squares do
pub proof fn lemma_dist(s: P32, a: P32, b: P32) ensures dist(s, a) < dist(s, b) <==> d2(s, a) < d2(s, b), dist(s, a) == dist(s, b) <==> d2(s, a) == d2(s, b)
{ lemma_rsq(s, a); lemma_rsq(s, b); let (x, y) = (rsq(s, a), rsq(s, b)); let (u, v) = (rsqrt(x), rsqrt(y)); ax_rsqrt(x); ax_rsqrt(y);
  if u < v { assert(x < y) by(nonlinear_arith) requires 0real <= u < v, u * u == x, v * v == y; }
  if u > v { assert(x > y) by(nonlinear_arith) requires 0real <= v < u, u * u == x, v * v == y; } }
pub proof fn lemma_rsq(s: P32, a: P32) ensures rsq(s, a) == d2(s, a) as real, rsq(s, a) >= 0real
{ let (dx, dy) = (s.x - a.x, s.y - a.y); let (rx, ry) = (s.x.val() - a.x.val(), s.y.val() - a.y.val()); assert(rx == dx as real && ry == dy as real);
  assert((dx * dx) as real == rx * rx) by(nonlinear_arith) requires rx == dx as real; assert((dy * dy) as real == ry * ry) by(nonlinear_arith) requires ry == dy as real;
  assert(rx * rx >= 0real && ry * ry >= 0real) by(nonlinear_arith); }
/// the convex hull of v: corners among the points, strictly convex and counter-clockwise from the lowest (then leftmost) point, every point on or left of every edge
pub open spec fn is_hull(v: Seq<P32>, h: Seq<P32>) -> bool {
  (v.len() == 0 <==> h.len() == 0) && (v.len() > 0 ==> {
    &&& forall|i: int| 0 <= i < h.len() ==> v.contains(#[trigger] h[i])
    &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == h[0] || above(h[0], v[i])
    &&& chain(h[0], h)
    &&& forall|i: int, j: int| 0 <= i < h.len() - 1 && 0 <= j < v.len() ==> #[trigger] left(h, i, v[j])
    &&& forall|j: int| 0 <= j < v.len() ==> cr(h.last(), h[0], #[trigger] v[j]) >= 0
    &&& h.len() >= 2 ==> forall|j: int| 0 <= j < v.len() && cr(h[0], h[1], #[trigger] v[j]) == 0 ==> d2(h[0], v[j]) <= d2(h[0], h[1])
    &&& h.len() == 1 ==> forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == h[0]
  }) }
pub proof fn lemma_final(v0: Seq<P32>, s: P32, v: Seq<P32>, h: Seq<P32>)
  requires v0.contains(s), all_above(s, v), sorted(s, v), done(s, v, v.len() as int, h), forall|i: int| 0 <= i < v.len() ==> v0.contains(#[trigger] v[i]), forall|i: int| 0 <= i < v0.len() ==> #[trigger] v0[i] == s || v.contains(v0[i])
  ensures is_hull(v0, h)
{ hide(cr); hide(d2);
  let n = v.len() as int;
  assert forall|i: int| 0 <= i < h.len() implies v0.contains(#[trigger] h[i]) by { if i > 0 { assert(above(s, h[i]) && among(h[i], v, n)); let j = choose|j: int| 0 <= j < n && v[j] == h[i]; assert(v0.contains(v[j])); } }
  assert forall|i: int| 0 <= i < v0.len() implies #[trigger] v0[i] == h[0] || above(h[0], v0[i]) by { if v0[i] != s { let j = choose|j: int| 0 <= j < n && v[j] == v0[i]; assert(above(s, v[j])); } }
  assert forall|i: int, j: int| 0 <= i < h.len() - 1 && 0 <= j < v0.len() implies #[trigger] left(h, i, v0[j]) by {
    if v0[j] != s { let t = choose|t: int| 0 <= t < n && v[t] == v0[j]; assert(left(h, i, v[t])); } else { lemma_anti(s, h[i], h[i + 1]); if i > 0 { assert(ang(h, i)); } } }
  assert forall|j: int| 0 <= j < v0.len() implies cr(h.last(), h[0], #[trigger] v0[j]) >= 0 by {
    if v0[j] != s { let t = choose|t: int| 0 <= t < n && v[t] == v0[j]; lemma_anti(s, h.last(), v[t]); if t < n - 1 { assert(cr(s, v[t], v[n - 1]) >= 0); } } else { lemma_anti(s, h.last(), s); lemma_anti(h.last(), s, s); } }
  assert forall|j: int| h.len() >= 2 && 0 <= j < v0.len() && cr(h[0], h[1], #[trigger] v0[j]) == 0 implies d2(h[0], v0[j]) <= d2(h[0], h[1]) by { if v0[j] != s { let t = choose|t: int| 0 <= t < n && v[t] == v0[j]; } else { lemma_d2(s, h[1]); } }
}
pub proof fn lemma_sorted(s: P32, u: Seq<P32>, v: Seq<P32>) requires all_above(s, u), forall|i: int| 0 <= i < v.len() ==> u.contains(#[trigger] v[i]), forall|i: int, j: int| 0 <= i < j < v.len() ==> order(s, #[trigger] v[i], #[trigger] v[j]) != Ordering::Greater
  ensures all_above(s, v), sorted(s, v)
{ assert forall|i: int| 0 <= i < v.len() implies above(s, #[trigger] v[i]) && small(v[i]) by { let j = choose|j: int| 0 <= j < u.len() && u[j] == v[i]; assert(above(s, u[j])); } }
pub proof fn lemma_first(s: P32, v: Seq<P32>) ensures done(s, v, 0, seq![s]) { }
pub proof fn lemma_empty() ensures is_hull(Seq::empty(), Seq::empty()) { }
pub proof fn lemma_kept_small(s: P32, v: Seq<P32>, k: int, h: Seq<P32>) requires dropping(s, v, k, h), all_above(s, v), small(s), k <= v.len() ensures h.len() >= 1, forall|i: int| 0 <= i < h.len() ==> small(#[trigger] h[i])
{ hide(cr); hide(d2); assert forall|i: int| 0 <= i < h.len() implies small(#[trigger] h[i]) by { if i > 0 { assert(above(s, h[i]) && among(h[i], v, k)); let j = choose|j: int| 0 <= j < k && v[j] == h[i]; assert(small(v[j])); } } }
pub proof fn lemma_d2(a: P32, b: P32) ensures d2(a, a) == 0, d2(a, b) >= 0 { let (x, y) = (a.x - b.x, a.y - b.y); assert(x * x >= 0 && y * y >= 0) by(nonlinear_arith); }
@@ fn geometry.rs convex_hull
@ opts
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ sigsub impl Into<Vec<Point<T>>> =>> Vec<P32>
@ sigsub Vec<Point<T>> =>> Vec<P32>
@ sigsub convex_hull<T> =>> convex_hull
@ sigsub T: NumCast + Copy + Ord, =>>
@ sigsub where =>>
@ spec
  requires forall|i: int| 0 <= i < points@.len() ==> small(#[trigger] points@[i])
  ensures is_hull(points@, r@)
@ begin
  hide(cr); hide(d2); hide(dropping); hide(done); hide(sorted); hide(total); hide(is_hull); hide(dist);
  let ghost v0 = points@;
@ subst
points.into();
=>> points;
@ subst
vec![]
=>> Vec::new()
@ subst
for &point in points.iter().skip(1) {
=>> for j__ in 1..points.len()
    invariant points@ == v0, v0.contains(start_point), forall|i: int| 0 <= i < j__ ==> #[trigger] v0[i] == start_point || above(start_point, v0[i])
  { let point = points[j__];
@ subst
points.retain(|p| *p != start_point);
=>> let start_point = start_point;
  let ghost s = start_point;
  let mut kept__: Vec<P32> = Vec::new();
  for j__ in 0..points.len()
    invariant points@ == v0, all_above(s, kept__@), forall|i: int| 0 <= i < kept__@.len() ==> v0.contains(#[trigger] kept__@[i]), forall|i: int| 0 <= i < j__ ==> #[trigger] v0[i] == s || kept__@.contains(v0[i])
  { let p = &points[j__]; let ghost k0 = kept__@;
    if !((*p).x == start_point.x && (*p).y == start_point.y) { kept__.push(*p); assert(kept__@[k0.len() as int] == v0[j__ as int]); assert forall|i: int| 0 <= i < k0.len() implies kept__@.contains(#[trigger] k0[i]) by { assert(kept__@[i] == k0[i]); } } }
  points = kept__;
  let ghost v1 = points@;
  proof { lemma_total(s, v1); }
@ subst
points.sort_by(
=>> sort_by__(Ghost(s), &mut points,
@ closure 1
|a: &P32, b: &P32| -> (o: Ordering) requires small(*a), small(*b), small(start_point) ensures o == order(start_point, *a, *b)
@ before let (a, b) =
  proof { lemma_dist(start_point, *a, *b); }
@ subst
a.partial_cmp(&b).unwrap()
=>> f64_cmp(a, b)
@ subst
let mut iter = points.iter().peekable();
    let mut remaining_points = Vec::with_capacity(points.len());
    while let Some(mut p) = iter.next() {
        while iter.peek().is_some()
            && orientation(
                start_point.to_i32(),
                p.to_i32(),
                iter.peek().unwrap().to_i32(),
            ) == Orientation::Collinear
        {
            p = iter.next().unwrap();
        }
        remaining_points.push(p);
    }
=>> let ghost v = points@;
  proof { assert(s == start_point); lemma_sorted(s, v1, v); }
@ subst
let mut stack: Vec<Point<T>> = vec![Point::new(
        cast(start_point.x).unwrap(),
        cast(start_point.y).unwrap(),
    )];
=>> let mut stack: Vec<P32> = Vec::new(); stack.push(start_point); proof { lemma_first(s, v); assert(stack@ =~= seq![s]); }
@ subst
for p in points {
=>> for k__ in 0..points.len()
    invariant points@ == v, all_above(s, v), sorted(s, v), small(s), done(s, v, k__ as int, stack@)
  { let p = points[k__];
@ before while stack.len() > 1
  proof { lemma_enter(s, v, k__ as int, stack@); lemma_kept_small(s, v, k__ as int, stack@); }
@ loop 0
    invariant points@ == v, all_above(s, v), sorted(s, v), small(s), p == v[k__ as int], k__ < points.len(), dropping(s, v, k__ as int, stack@), stack@.len() >= 1, forall|i: int| 0 <= i < stack@.len() ==> small(#[trigger] stack@[i])
    ensures stack@.len() == 1 || cr(stack@[stack@.len() - 2], stack@.last(), p) > 0
    decreases stack@.len()
@ loop 0 begin
  proof { lemma_pop(s, v, k__ as int, stack@); lemma_kept_small(s, v, k__ as int, stack@.drop_last()); }
@ before stack.push(p);
  proof { lemma_push(s, v, k__ as int, stack@); }
@ before return vec![]
  proof { lemma_empty(); assert(v0 =~= Seq::empty()); }
@ tail
  proof { lemma_final(v0, s, v, stack@); }
@@ text
pub open spec fn ldist(a: real, b: real, c: real, x: real, y: real) -> real { rabs(a * x + b * y + c) / rsqrt(a * a + b * b) }
/// a field's value
pub fn fld__(x: f64) -> (r: f64) ensures r == x { x }
@@ struct point.rs Line
@@ fn point.rs Line::from_points
@ spec
  ensures dv(r.a) == dv(p.y) - dv(q.y), dv(r.b) == dv(q.x) - dv(p.x), dv(r.c) == rcross(p, q)
@ begin
  broadcast use dreal;
@ before Line { a, b, c }
  proof { assert(dv(q.x) * dv(p.y) == dv(p.y) * dv(q.x)) by(nonlinear_arith); }
@@ fn point.rs Line::distance_from_point
@ spec
  ensures dv(self.a) != 0real || dv(self.b) != 0real ==> dv(r) == ldist(dv(self.a), dv(self.b), dv(self.c), dv(point.x), dv(point.y))
@ begin
  hide(ldist);
  broadcast use dreal;
@ subst
let Line { a, b, c } = self;
=>> let a = fld__(self.a); let b = fld__(self.b); let c = fld__(self.c); proof { lemma_norm(dv(a), dv(b)); reveal(ldist); }
@@ text
pub proof fn lemma_norm(a: real, b: real) ensures a * a + b * b >= 0real, a != 0real || b != 0real ==> rsqrt(a * a + b * b) > 0real
{ assert(a * a >= 0real && b * b >= 0real && (a != 0real ==> a * a > 0real) && (b != 0real ==> b * b > 0real)) by(nonlinear_arith); let x = a * a + b * b; ax_rsqrt(x); if rsqrt(x) == 0real { assert(rsqrt(x) * rsqrt(x) == 0real) by(nonlinear_arith) requires rsqrt(x) == 0real; } }
/// the distance of r from the line through p and q, from p where they coincide
pub open spec fn seg_dist<T: NumCast>(p: Point<T>, q: Point<T>, r: Point<T>) -> real {
  if p.x.val() == q.x.val() && p.y.val() == q.y.val() { dist(p, r) } else { let (a, b) = (p.y.val() - q.y.val(), q.x.val() - p.x.val()); ldist(a, b, rcross(p, q), r.x.val(), r.y.val()) } }
/// every point between the kept ones i and j lies within e of the line through them
pub open spec fn flat<T: NumCast>(v: Seq<Point<T>>, e: real, i: int, j: int) -> bool { forall|k: int| i < k < j ==> seg_dist(v[i], v[j], #[trigger] v[k]) <= e }
pub open spec fn gap<T: NumCast>(v: Seq<Point<T>>, e: real, idx: Seq<int>, i: int) -> bool { (idx[i] < idx[i + 1] || v.len() == 1) && flat(v, e, idx[i], idx[i + 1]) }
/// idx names kept points from the first to the last
pub open spec fn approx<T: NumCast>(v: Seq<Point<T>>, e: real, idx: Seq<int>) -> bool {
  idx.len() >= 2 && idx[0] == 0 && idx.last() == v.len() - 1 && (forall|i: int| 0 <= i < idx.len() ==> 0 <= #[trigger] idx[i] < v.len())
  && forall|i: int| 0 <= i < idx.len() - 1 ==> #[trigger] gap(v, e, idx, i) }
pub open spec fn picked<T: NumCast>(v: Seq<Point<T>>, idx: Seq<int>) -> Seq<Point<T>> { Seq::new(idx.len(), |i: int| v[idx[i]]) }
pub open spec fn is_approx<T: NumCast>(v: Seq<Point<T>>, e: real, r: Seq<Point<T>>) -> bool { exists|idx: Seq<int>| #[trigger] approx(v, e, idx) && r == picked(v, idx) }
pub open spec fn is_approx_c<T: NumCast>(v: Seq<Point<T>>, e: real, r: Seq<Point<T>>, closed: bool) -> bool { if closed { exists|f: Seq<Point<T>>| #[trigger] is_approx(v, e, f) && r == f.drop_last() } else { is_approx(v, e, r) } }
pub proof fn lemma_join<T: NumCast>(v: Seq<Point<T>>, e: real, m: int, r1: Seq<Point<T>>, r2: Seq<Point<T>>)
  requires 0 < m < v.len() - 1, is_approx(v.take(m + 1), e, r1), is_approx(v.skip(m), e, r2) ensures is_approx(v, e, r1.drop_last() + r2)
{ hide(seg_dist); hide(flat);
  let (a, b) = (v.take(m + 1), v.skip(m));
  let i1 = choose|idx: Seq<int>| #[trigger] approx(a, e, idx) && r1 == picked(a, idx); let i2 = choose|idx: Seq<int>| #[trigger] approx(b, e, idx) && r2 == picked(b, idx);
  let n1 = i1.len() - 1; let idx = i1.drop_last() + Seq::new(i2.len(), |i: int| i2[i] + m);
  assert forall|i: int| 0 <= i < idx.len() implies 0 <= #[trigger] idx[i] < v.len() && (i < n1 ==> idx[i] == i1[i]) && (i >= n1 ==> idx[i] == i2[i - n1] + m) by { if i < n1 { assert(0 <= i1[i] < a.len()); } else { assert(0 <= i2[i - n1] < b.len()); } }
  assert(idx[n1] == m && i1[n1] == m);
  assert forall|i: int| 0 <= i < idx.len() - 1 implies #[trigger] gap(v, e, idx, i) by {
    reveal(flat); let (x, y) = (idx[i], idx[i + 1]);
    if i < n1 { assert(gap(a, e, i1, i)); assert(x == i1[i] && y == i1[i + 1]); assert forall|k: int| x < k < y implies seg_dist(v[x], v[y], #[trigger] v[k]) <= e by { assert(a[k] == v[k]); } }
    else { let t = i - n1; assert(gap(b, e, i2, t)); assert(x == i2[t] + m && y == i2[t + 1] + m); assert forall|k: int| x < k < y implies seg_dist(v[x], v[y], #[trigger] v[k]) <= e by { assert(b[k - m] == v[k]); } } }
  assert(approx(v, e, idx)); assert(r1.drop_last() + r2 =~= picked(v, idx)) by {
    assert forall|i: int| 0 <= i < idx.len() implies (r1.drop_last() + r2)[i] == v[#[trigger] idx[i]] by { if i < n1 { assert(a[i1[i]] == v[i1[i]]); } else { assert(b[i2[i - n1]] == v[i2[i - n1] + m]); } } } }
pub proof fn lemma_two<T: NumCast>(v: Seq<Point<T>>, e: real) requires v.len() >= 1, flat(v, e, 0, v.len() - 1) ensures is_approx(v, e, seq![v[0], v.last()])
{ let idx = seq![0int, v.len() - 1]; assert(approx(v, e, idx)); assert(seq![v[0], v.last()] =~= picked(v, idx)); }
/// the points compare equal exactly when their coordinates do
#[verifier::external_body]
pub fn pt_eq(a: Point<f64>, b: Point<f64>) -> (r: bool) ensures r == (dv(a.x) == dv(b.x) && dv(a.y) == dv(b.y)) { a.x == b.x && a.y == b.y }
#[verifier::external_body]
pub fn extend__<U>(a: &mut Vec<U>, b: Vec<U>) ensures final(a)@ == old(a)@ + b@ { a.extend(b) }
@@ fn geometry.rs approximate_polygon_dp
@ maypanic
@ spec
  requires curve@.len() >= 1
  ensures dv(epsilon) > 0real, is_approx_c(curve@, dv(epsilon), res@, closed), res@.len() >= (if closed { 1int } else { 2int })
  decreases curve@.len()
@ sigsub (r: =>> (res:
@ begin
  hide(is_approx); hide(seg_dist);
  broadcast use dreal;
@ subst
for (i, point) in curve.iter().enumerate().take(end).skip(1) {
=>> for i__ in 0..(if end > 0 { end - 1 } else { 0 })
    invariant end == curve@.len() - 1, dv(dmax) >= 0real, index == 0 ==> dv(dmax) == 0real, index != 0 ==> 1 <= index < end, forall|k: int| 0 < k <= i__ ==> seg_dist(curve@[0], curve@[end as int], #[trigger] curve@[k]) <= dv(dmax)
  { let i = i__ + 1; let point = &curve[i];
@ subst
if first == last
=>> if pt_eq(first, last)
@ before if d > dmax
  proof { assert(dv(d) == seg_dist(curve@[0], curve@[end as int], curve@[i as int])) by { reveal(seg_dist); } }
@ subst
&curve[0..=index]
=>> vstd::slice::slice_subrange(curve, 0, index + 1)
@ subst
&curve[index..=end]
=>> vstd::slice::slice_subrange(curve, index, end + 1)
@ subst
partial1.extend(partial2);
=>> extend__(&mut partial1, partial2); proof { lemma_join(curve@, dv(epsilon), index as int, r1__, r2__); }
@ before partial1.pop();
  let ghost r1__ = partial1@; let ghost r2__ = partial2@; proof { assert(curve@.subrange(0, index + 1) =~= curve@.take(index + 1)); assert(curve@.subrange(index as int, end + 1) =~= curve@.skip(index as int)); }
@ before vec![curve[0], curve[end]]
  proof { lemma_two(curve@, dv(epsilon)); }
@ before if closed {
  let ghost full__ = res@; proof { assert(is_approx(curve@, dv(epsilon), full__)); assert(full__.len() >= 2) by { reveal(is_approx); } }
@@ fn geometry.rs arc_length
@ floats
length
@ spec
  ensures dv(r) == path_len(arc@, arc@.len() - 1) + if closed && arc@.len() > 2 { dist(arc@[0], arc@.last()) } else { 0real }
@ begin
  broadcast use dreal;
@ subst
let mut length = arc.windows(2).map(|pts| distance(pts[0], pts[1])).sum();
=>> let mut length = 0f64;
  for k__ in 0..(if arc.len() > 0 { arc.len() - 1 } else { 0 })
    invariant dv(length) == path_len(arc@, k__ as int)
  { let pts = vstd::slice::slice_subrange(arc, k__, k__ + 2); let ghost l0__ = length; let d__ = distance(pts[0], pts[1]); length = length + d__; }
  proof { if arc@.len() == 0 { reveal_with_fuel(path_len, 1); } }
@@ fn geometry.rs oriented_contour_area
@ spec
  ensures dv(r) * 2real == (if points@.len() < 3 { 0real } else { shoelace(points@, points@.len() as int) })
@ begin
  broadcast use dreal;
@ subst
0.5 * points.iter().map(|p| p.to_f64()).fold(0.0, |mut accum, p| {
=>> let mut accum = 0f64;
  for k__ in 0..points.len()
    invariant points@.len() >= 3, dv(accum) == shoelace(points@, k__ as int), ({ let q = if k__ == 0 { points@.last() } else { points@[k__ - 1] }; dv(prev.x) == q.x.val() && dv(prev.y) == q.y.val() })
  { let p = points[k__].to_f64();
@ subst
accum })
=>> }
  proof { let (h, a) = (dv(0.5f64), dv(accum)); assert(h * a * 2real == a) by(nonlinear_arith) requires h * 2real == 1real; }
  0.5 * accum
@ before accum += prev.x * p.y - prev.y * p.x;
  let ghost a0__ = accum;
@ floats
accum
@@ fn geometry.rs contour_area
@ spec
  ensures dv(r) >= 0real, points@.len() < 3 ==> dv(r) == 0real, points@.len() >= 3 ==> dv(r) * 2real == rabs(shoelace(points@, points@.len() as int))
