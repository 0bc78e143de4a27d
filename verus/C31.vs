@@ include prelude.rs
@@ include conn.vs
@@ text
use core::ops::{Add, Sub};
use vstd::std_specs::ops::*;
#[derive(Clone, Copy)]
pub struct Point<T> { pub x: T, pub y: T }
/// num's conversions: exact
pub trait NumCast: Sized + Copy {
  spec fn int(self) -> int;
  fn to_i32(&self) -> (r: Option<i32>) ensures -0x8000_0000 <= self.int() <= 0x7fff_ffff ==> r is Some && r->0 == self.int();
}
impl NumCast for i32 { open spec fn int(self) -> int { self as int } fn to_i32(&self) -> (r: Option<i32>) { Some(*self) } }
impl NumCast for usize { open spec fn int(self) -> int { self as int } fn to_i32(&self) -> (r: Option<i32>) { if *self <= 0x7fff_ffff { Some(*self as i32) } else { None } } }
/// num::cast from usize to i32
pub fn cast(x: usize) -> (r: Option<i32>) ensures x <= 0x7fff_ffff ==> r is Some && r->0 == x { x.to_i32() }
pub fn same(a: Point<usize>, b: Point<usize>) -> (r: bool) ensures r == (a == b) { a.x == b.x && a.y == b.y }
pub fn same_i(a: Point<i32>, b: Point<i32>) -> (r: bool) ensures r == (a == b) { a.x == b.x && a.y == b.y }
/// the eight directions, clockwise from west (y pointing down)
pub open spec fn dx(k: int) -> int { let m = k % 8; if m == 0 || m == 1 || m == 7 { -1 } else if m == 2 || m == 6 { 0 } else { 1 } }
pub open spec fn dy(k: int) -> int { let m = k % 8; if 1 <= m <= 3 { -1 } else if m == 0 || m == 4 { 0 } else { 1 } }
pub open spec fn dirs(s: Seq<Point<i32>>, k: int) -> bool { s.len() == 8 && forall|i: int| 0 <= i < 8 ==> (#[trigger] s[i]).x == dx(k + i) && s[i].y == dy(k + i) }
/// foreground
pub open spec fn on(im: &GrayImage, t: u8, x: int, y: int) -> bool { im.inb(x, y) && im.px(x, y).0@[0] > t }
/// the neighbour in direction k is foreground
pub open spec fn nb(im: &GrayImage, t: u8, x: int, y: int, k: int) -> bool { on(im, t, x + dx(k), y + dy(k)) }
/// i is the first foreground neighbour of (x, y) clockwise from direction k
pub open spec fn cw(im: &GrayImage, t: u8, x: int, y: int, k: int, i: int) -> bool { 0 <= i < 8 && nb(im, t, x, y, k + i) && forall|j: int| 0 <= j < i ==> !#[trigger] nb(im, t, x, y, k + j) }
/// i is the first foreground neighbour of (x, y) counter-clockwise after direction k, which comes last
pub open spec fn ccw(im: &GrayImage, t: u8, x: int, y: int, k: int, i: int) -> bool { 0 <= i < 8 && nb(im, t, x, y, k + 7 - i) && forall|j: int| 0 <= j < i ==> !#[trigger] nb(im, t, x, y, k + 7 - j) }
/// a step of the walk: the pixel and the direction from it to the one before
pub struct St { pub x: int, pub y: int, pub k: int }
pub open spec fn state(im: &GrayImage, t: u8, s: St) -> bool { on(im, t, s.x, s.y) && 0 <= s.k < 8 && nb(im, t, s.x, s.y, s.k) }
/// the next step of border following: to the first foreground neighbour counter-clockwise after the one the walk came from
pub open spec fn next(im: &GrayImage, t: u8, s: St, n: St) -> bool { state(im, t, s) && exists|i: int| #[trigger] ccw(im, t, s.x, s.y, s.k, i) && n == moved(s, i) }
pub open spec fn moved(s: St, i: int) -> St { let d = s.k + 7 - i; St { x: s.x + dx(d), y: s.y + dy(d), k: (d + 4) % 8 } }
pub open spec fn code(im: &GrayImage, s: St) -> int { (s.y * im.w() + s.x) * 8 + s.k }
pub proof fn lemma_back(k: int) ensures dx(k + 4) == -dx(k), dy(k + 4) == -dy(k), dx((k + 4) % 8) == -dx(k), dy((k + 4) % 8) == -dy(k), dx(k % 8) == dx(k), dy(k % 8) == dy(k) { }
pub proof fn lemma_nb8(im: &GrayImage, t: u8, x: int, y: int, a: int, b: int) requires a % 8 == b % 8 ensures nb(im, t, x, y, a) == nb(im, t, x, y, b) { }
pub proof fn lemma_next_state(im: &GrayImage, t: u8, s: St, n: St) requires next(im, t, s, n) ensures state(im, t, n), s.x == n.x + dx(n.k), s.y == n.y + dy(n.k)
{ let i = choose|i: int| #[trigger] ccw(im, t, s.x, s.y, s.k, i) && n == moved(s, i); lemma_back(s.k + 7 - i); }
pub proof fn lemma_next_one(im: &GrayImage, t: u8, s: St, a: St, b: St) requires next(im, t, s, a), next(im, t, s, b) ensures a == b
{ let i = choose|i: int| #[trigger] ccw(im, t, s.x, s.y, s.k, i) && a == moved(s, i); let j = choose|j: int| #[trigger] ccw(im, t, s.x, s.y, s.k, j) && b == moved(s, j);
  if i < j { assert(!nb(im, t, s.x, s.y, s.k + 7 - i)); } if j < i { assert(!nb(im, t, s.x, s.y, s.k + 7 - j)); } }
/// border following can be retraced
pub proof fn lemma_next_inj(im: &GrayImage, t: u8, a: St, b: St, n: St) requires next(im, t, a, n), next(im, t, b, n) ensures a == b
{ lemma_next_state(im, t, a, n); lemma_next_state(im, t, b, n);
  let i = choose|i: int| #[trigger] ccw(im, t, a.x, a.y, a.k, i) && n == moved(a, i); let j = choose|j: int| #[trigger] ccw(im, t, b.x, b.y, b.k, j) && n == moved(b, j);
  assert((a.k + 7 - i + 4) % 8 == (b.k + 7 - j + 4) % 8); assert((a.k - i) % 8 == (b.k - j) % 8);
  if i < j { let l = j - i - 1; assert(!nb(im, t, b.x, b.y, b.k + 7 - l)); assert((b.k + 7 - l) % 8 == a.k % 8); lemma_nb8(im, t, a.x, a.y, b.k + 7 - l, a.k); }
  if j < i { let l = i - j - 1; assert(!nb(im, t, a.x, a.y, a.k + 7 - l)); assert((a.k + 7 - l) % 8 == b.k % 8); lemma_nb8(im, t, a.x, a.y, a.k + 7 - l, b.k); } }
pub proof fn lemma_code(im: &GrayImage, a: St, b: St) requires 0 <= a.k < 8, 0 <= b.k < 8, im.inb(a.x, a.y), im.inb(b.x, b.y) ensures 0 <= code(im, a) < 8 * im.np(), code(im, a) == code(im, b) ==> a == b
{ let (w, h) = (im.w(), im.h()); let p = a.y * w + a.x; let q = b.y * w + b.x;
  assert(0 <= p < w * h) by(nonlinear_arith) requires p == a.y * w + a.x, 0 <= a.x < w, 0 <= a.y < h;
  if p == q { if a.y < b.y { assert(b.y * w >= a.y * w + w) by(nonlinear_arith) requires b.y >= a.y + 1, w > 0; } if a.y > b.y { assert(a.y * w >= b.y * w + w) by(nonlinear_arith) requires a.y >= b.y + 1, w > 0; } } }
/// the walk so far: from s[0], by steps of border following, never twice the same step
pub open spec fn walked(im: &GrayImage, t: u8, s: Seq<St>) -> bool { s.len() >= 1 && (forall|i: int| 0 <= i < s.len() ==> state(im, t, #[trigger] s[i])) && (forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] nexts(im, t, s, i)) && forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
pub open spec fn nexts(im: &GrayImage, t: u8, s: Seq<St>, i: int) -> bool { next(im, t, s[i], s[i + 1]) }
pub proof fn lemma_walk_len(im: &GrayImage, t: u8, s: Seq<St>) requires walked(im, t, s) ensures s.len() <= 8 * im.np()
{ let c = Seq::new(s.len(), |i: int| code(im, s[i]));
  assert(c.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by { assert(state(im, t, s[i]) && state(im, t, s[j])); lemma_code(im, s[i], s[j]); if i < j { assert(s[i] != s[j]); } else { assert(s[j] != s[i]); } } }
  c.unique_seq_to_set(); let n = 8 * im.np();
  assert(c.to_set().subset_of(vstd::set_lib::set_int_range(0, n))) by { assert forall|v: int| c.to_set().contains(v) implies 0 <= v < n by { let i = choose|i: int| 0 <= i < c.len() && c[i] == v; assert(state(im, t, s[i])); lemma_code(im, s[i], s[i]); } }
  vstd::set_lib::lemma_int_range(0, n); vstd::set_lib::lemma_len_subset(c.to_set(), vstd::set_lib::set_int_range(0, n)); }
pub proof fn lemma_walk_on(im: &GrayImage, t: u8, s: Seq<St>, n: St) requires walked(im, t, s), next(im, t, s.last(), n), n != s[0] ensures walked(im, t, s.push(n))
{ lemma_next_state(im, t, s.last(), n); let u = s.push(n);
  assert forall|i: int| 0 <= i < u.len() - 1 implies #[trigger] nexts(im, t, u, i) by { if i < s.len() - 1 { assert(nexts(im, t, s, i)); } }
  assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i] != #[trigger] u[j] by { if j == s.len() && i > 0 && s[i] == n { assert(nexts(im, t, s, i - 1)); lemma_next_inj(im, t, s[i - 1], s.last(), n); } } }
/// std's iter().position and VecDeque::rotate_left
#[verifier::external_body]
pub fn position__(v: &Vec<Point<i32>>, value: Point<i32>) -> (r: Option<usize>) ensures r is Some ==> r->0 < v@.len() && v@[r->0 as int] == value, r is None ==> !v@.contains(value) { v.iter().position(|p| p.x == value.x && p.y == value.y) }
#[verifier::external_body]
pub fn rotate_left__(v: &mut Vec<Point<i32>>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.skip(n as int) + old(v)@.take(n as int) { v.rotate_left(n) }
pub proof fn lemma_dirs(s: Seq<Point<i32>>, k: int, i: int) requires dirs(s, k), 0 <= i < 8 ensures dirs(s.skip(i) + s.take(i), k + i)
{ let u = s.skip(i) + s.take(i); assert forall|j: int| 0 <= j < 8 implies (#[trigger] u[j]).x == dx(k + i + j) && u[j].y == dy(k + i + j) by { if j < 8 - i { assert(u[j] == s[i + j]); } else { assert(u[j] == s[i + j - 8]); } } }
pub proof fn lemma_dir_eq(a: int, b: int) requires dx(a) == dx(b), dy(a) == dy(b) ensures a % 8 == b % 8 { }
pub proof fn lemma_dirs_eq(s: Seq<Point<i32>>, a: int, b: int) requires dirs(s, a), a % 8 == b % 8 ensures dirs(s, b)
{ assert forall|l: int| 0 <= l < 8 implies (#[trigger] s[l]).x == dx(b + l) && s[l].y == dy(b + l) by { assert((a + l) % 8 == (b + l) % 8); } }
pub proof fn lemma_has(s: Seq<Point<i32>>, k: int, v: Point<i32>, j: int) requires dirs(s, k), at_dir(v, j) ensures s.contains(v)
{ let i = (j - k) % 8; assert((k + i) % 8 == j % 8); let p = s[i]; assert(p.x == v.x && p.y == v.y); assert(s[i] == v); }
pub proof fn lemma_turned(s: Seq<Point<i32>>, k: int, i: int, v: Point<i32>) requires dirs(s, k), 0 <= i < 8, s[i] == v ensures forall|j: int| #[trigger] at_dir(v, j) ==> dirs(s.skip(i) + s.take(i), j)
{ lemma_dirs(s, k, i); assert forall|j: int| #[trigger] at_dir(v, j) implies dirs(s.skip(i) + s.take(i), j) by { lemma_dir_eq(k + i, j); lemma_dirs_eq(s.skip(i) + s.take(i), k + i, j); } }
/// which neighbour p of q is
pub open spec fn at_dir(q: Point<i32>, k: int) -> bool { q.x == dx(k) && q.y == dy(k) }
@@ fn contours.rs rotate_to_value
@ sigsub rotate_to_value<T: Eq + Copy> =>> rotate_to_value
@ sigsub &mut VecDeque<T> =>> &mut Vec<Point<i32>>
@ sigsub value: T =>> value: Point<i32>
@ spec
  requires exists|k: int| #[trigger] dirs(old(values)@, k), exists|j: int| #[trigger] at_dir(value, j)
  ensures forall|j: int| #[trigger] at_dir(value, j) ==> dirs(final(values)@, j)
@ subst
values.iter().position(|x| *x == value)
=>> position__(values, value)
@ begin
  hide(dirs); hide(at_dir);
  let ghost v0 = values@; let ghost k = choose|k: int| #[trigger] dirs(v0, k); proof { lemma_has(v0, k, value, choose|j: int| #[trigger] at_dir(value, j)); assert(v0.len() == 8) by { reveal(dirs); } }
@ subst
values.rotate_left(rotate_pos);
=>> rotate_left__(values, rotate_pos);
  proof { lemma_turned(v0, k, rotate_pos as int, value); }
@@ text
impl AddSpecImpl<Point<i32>> for Point<i32> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Point<i32>) -> bool { -0x8000_0000 <= self.x + o.x <= 0x7fff_ffff && -0x8000_0000 <= self.y + o.y <= 0x7fff_ffff } open spec fn add_spec(self, o: Point<i32>) -> Point<i32> { Point { x: (self.x + o.x) as i32, y: (self.y + o.y) as i32 } } }
impl SubSpecImpl<Point<i32>> for Point<i32> { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Point<i32>) -> bool { -0x8000_0000 <= self.x - o.x <= 0x7fff_ffff && -0x8000_0000 <= self.y - o.y <= 0x7fff_ffff } open spec fn sub_spec(self, o: Point<i32>) -> Point<i32> { Point { x: (self.x - o.x) as i32, y: (self.y - o.y) as i32 } } }
@@ fn point.rs Point::new
@ spec
  ensures r.x == x, r.y == y
@@ fn point.rs Point::to_i32
@ spec
  requires -0x8000_0000 <= self.x.int() <= 0x7fff_ffff, -0x8000_0000 <= self.y.int() <= 0x7fff_ffff
  ensures r.x == self.x.int(), r.y == self.y.int()
@@ text
impl Add<Point<i32>> for Point<i32> { type Output = Point<i32>;
@@ fn point.rs <Point<T> as Add>::add
@ hdr
none
@ sigsub Point<T> =>> Point<i32>
@ nopub
@@ text
}
impl Sub<Point<i32>> for Point<i32> { type Output = Point<i32>;
@@ fn point.rs <Point<T> as Sub>::sub
@ hdr
none
@ sigsub Point<T> =>> Point<i32>
@ nopub
@@ text
}
@@ enum contours.rs BorderType
@ opts
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
@@ struct contours.rs Contour
@@ fn contours.rs Contour::new
@ spec
  ensures r.points == points, r.border_type == border_type, r.parent == parent
@@ text
pub type Cs = Seq<Contour<i32>>;
pub open spec fn idx(im: &GrayImage, x: int, y: int) -> int { x + im.w() * y }
pub open spec fn px_of(im: &GrayImage, p: int) -> int { p % (im.w() as int) }
pub open spec fn py_of(im: &GrayImage, p: int) -> int { p / (im.w() as int) }
pub open spec fn on_i(im: &GrayImage, t: u8, p: int) -> bool { 0 <= p < im.np() && on(im, t, px_of(im, p), py_of(im, p)) }
/// touching foreground pixels, by index
pub open spec fn adj(im: &GrayImage, t: u8, a: int, b: int) -> bool { on_i(im, t, a) && on_i(im, t, b) && -1 <= px_of(im, a) - px_of(im, b) <= 1 && -1 <= py_of(im, a) - py_of(im, b) <= 1 }
pub open spec fn touch(im: &GrayImage, t: u8) -> spec_fn(int, int) -> bool { |a: int, b: int| adj(im, t, a, b) }
/// in one region: an 8-connected path of foreground pixels leads from a to b
pub open spec fn linked(im: &GrayImage, t: u8, a: int, b: int) -> bool { conn(touch(im, t), a, b) }
/// the first pixel of its region in reading order
pub open spec fn first(im: &GrayImage, t: u8, p: int) -> bool { on_i(im, t, p) && forall|q: int| 0 <= q < p && on_i(im, t, q) ==> !#[trigger] linked(im, t, q, p) }
pub open spec fn pt(p: Point<i32>, s: St) -> bool { p.x == s.x && p.y == s.y }
pub open spec fn follows(im: &GrayImage, t: u8, s: Seq<St>, pts: Seq<Point<i32>>) -> bool { walked(im, t, s) && next(im, t, s.last(), s[0]) && pts.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> pt(#[trigger] pts[i], s[i]) }
pub open spec fn begins(im: &GrayImage, t: u8, a: int, s: St) -> bool { exists|i: int| #[trigger] cw(im, t, s.x, s.y, a, i) && s.k == (a + i) % 8 }
/// the border that passes its first point with the background in direction a
pub open spec fn traced(im: &GrayImage, t: u8, a: int, pts: Seq<Point<i32>>) -> bool {
  pts.len() >= 1 && on(im, t, pts[0].x as int, pts[0].y as int) && !nb(im, t, pts[0].x as int, pts[0].y as int, a)
  && ((pts.len() == 1 && forall|k: int| 0 <= k < 8 ==> !#[trigger] nb(im, t, pts[0].x as int, pts[0].y as int, k)) || exists|s: Seq<St>| #[trigger] follows(im, t, s, pts) && begins(im, t, a, s[0])) }
/// west of an outer border's first point and east of a hole border's is background, the latter inside the image
pub open spec fn side(b: BorderType) -> int { if b == BorderType::Outer { 0 } else { 4 } }
pub open spec fn border(im: &GrayImage, t: u8, c: Contour<i32>) -> bool { traced(im, t, side(c.border_type), c.points@) && (c.border_type == BorderType::Hole ==> c.points@[0].x + 1 < im.w()) }
/// the parent comes earlier and is a border of the other type
pub open spec fn parent_ok(cs: Cs, k: int) -> bool { cs[k].parent is Some ==> (cs[k].parent->0 < k && cs[cs[k].parent->0 as int].border_type != cs[k].border_type) }
pub open spec fn start(im: &GrayImage, c: Contour<i32>) -> int { idx(im, c.points@[0].x as int, c.points@[0].y as int) }
pub open spec fn good(im: &GrayImage, t: u8, cs: Cs, n: int) -> bool { forall|k: int| 0 <= k < cs.len() ==> border(im, t, #[trigger] cs[k]) && parent_ok(cs, k) && 0 <= start(im, cs[k]) < n && (k > 0 ==> start(im, cs[k - 1]) < start(im, cs[k])) }
pub open spec fn outer_at(im: &GrayImage, cs: Cs, p: int) -> bool { exists|k: int| 0 <= k < cs.len() && #[trigger] starts(im, cs, k, p) }
pub open spec fn starts(im: &GrayImage, cs: Cs, k: int, p: int) -> bool { cs[k].border_type == BorderType::Outer && start(im, cs[k]) == p }
/// the first pixel of each region met so far starts an outer border
pub open spec fn covered(im: &GrayImage, t: u8, cs: Cs, n: int) -> bool { forall|p: int| 0 <= p < n && #[trigger] first(im, t, p) ==> outer_at(im, cs, p) }
/// the table is zero exactly on the background and holds no border number above m
pub open spec fn table(im: &GrayImage, t: u8, v: Seq<i32>, m: int) -> bool { v.len() == im.np() && forall|p: int| 0 <= p < v.len() ==> (#[trigger] v[p] != 0 <==> on_i(im, t, p)) && -m <= v[p] <= m }
/// only pixels of regions with a border that starts before pixel n (or at pixel c) are marked
pub open spec fn from(im: &GrayImage, t: u8, p: int, n: int) -> bool { exists|q: int| 0 <= q < n && on_i(im, t, q) && #[trigger] linked(im, t, q, p) }
pub open spec fn marked(im: &GrayImage, t: u8, v: Seq<i32>, n: int) -> bool { forall|p: int| 0 <= p < v.len() && #[trigger] v[p] != 0 && v[p] != 1 ==> from(im, t, p, n) }
pub proof fn lemma_idx(im: &GrayImage, x: int, y: int) requires im.inb(x, y) ensures 0 <= idx(im, x, y) < im.np(), px_of(im, idx(im, x, y)) == x, py_of(im, idx(im, x, y)) == y
{ let (w, h) = (im.w(), im.h()); let p = x + w * y; assert(0 <= p < w * h) by(nonlinear_arith) requires p == x + w * y, 0 <= x < w, 0 <= y < h; assert(w * y == y * w) by(nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, w as int, y, x); }
pub proof fn lemma_touch(im: &GrayImage, t: u8, x: int, y: int, k: int) requires on(im, t, x, y), nb(im, t, x, y, k) ensures linked(im, t, idx(im, x, y), idx(im, x + dx(k), y + dy(k)))
{ lemma_idx(im, x, y); lemma_idx(im, x + dx(k), y + dy(k)); conn_step(touch(im, t), idx(im, x, y), idx(im, x + dx(k), y + dy(k))); }
/// the value at the first pixel of a region is still 1 when the scan arrives
pub proof fn lemma_unmarked(im: &GrayImage, t: u8, v: Seq<i32>, p: int, n: int) requires table(im, t, v, n), marked(im, t, v, p), first(im, t, p) ensures v[p] == 1
{ if v[p] != 1 { assert(v[p] != 0); assert(from(im, t, p, p)); let q = choose|q: int| 0 <= q < p && on_i(im, t, q) && #[trigger] linked(im, t, q, p); } }
pub proof fn lemma_west(im: &GrayImage, t: u8, x: int, y: int) requires first(im, t, idx(im, x, y)), im.inb(x, y) ensures !nb(im, t, x, y, 0)
{ if nb(im, t, x, y, 0) { lemma_idx(im, x, y); lemma_idx(im, x - 1, y); assert(dx(0) == -1 && dy(0) == 0 && dx(4) == 1 && dy(4) == 0); assert(nb(im, t, x - 1, y, 4)); lemma_touch(im, t, x - 1, y, 4); } }
pub proof fn lemma_mark(im: &GrayImage, t: u8, v: Seq<i32>, m: int, n: int, c: int, p: int, a: int, u: Seq<i32>)
  requires table(im, t, v, m), marked(im, t, v, n), on_i(im, t, c), on_i(im, t, p), linked(im, t, c, p), 0 <= c < n, a != 0, -m <= a <= m, u == v.update(p, a as i32), -0x8000_0000 <= a <= 0x7fff_ffff ensures table(im, t, u, m), marked(im, t, u, n)
{ assert(from(im, t, p, n)); assert forall|q: int| 0 <= q < u.len() && #[trigger] u[q] != 0 && u[q] != 1 implies from(im, t, q, n) by { if q != p { assert(v[q] == u[q]); } }
  assert forall|q: int| 0 <= q < u.len() implies (#[trigger] u[q] != 0 <==> on_i(im, t, q)) && -m <= u[q] <= m by { if q != p { assert(v[q] == u[q]); } } }
pub proof fn lemma_more(im: &GrayImage, t: u8, v: Seq<i32>, m: int, n: int) requires table(im, t, v, m), marked(im, t, v, n) ensures table(im, t, v, m + 1), marked(im, t, v, n + 1)
{ assert forall|q: int| 0 <= q < v.len() && #[trigger] v[q] != 0 && v[q] != 1 implies from(im, t, q, n + 1) by { assert(from(im, t, q, n)); let w = choose|w: int| 0 <= w < n && on_i(im, t, w) && #[trigger] linked(im, t, w, q); assert(linked(im, t, w, q)); } }
pub proof fn lemma_new(im: &GrayImage, t: u8, cs: Cs, c: Contour<i32>, n: int)
  requires good(im, t, cs, n), covered(im, t, cs, n), border(im, t, c), start(im, c) == n, parent_ok(cs.push(c), cs.len() as int), first(im, t, n) ==> c.border_type == BorderType::Outer
  ensures good(im, t, cs.push(c), n + 1), covered(im, t, cs.push(c), n + 1)
{ let u = cs.push(c); assert forall|k: int| 0 <= k < u.len() implies border(im, t, #[trigger] u[k]) && parent_ok(u, k) && 0 <= start(im, u[k]) < n + 1 && (k > 0 ==> start(im, u[k - 1]) < start(im, u[k])) by { if k > 0 { assert(u[k - 1] == cs[k - 1]); } if k < cs.len() { assert(u[k] == cs[k]); assert(parent_ok(cs, k)); } }
  assert forall|p: int| 0 <= p < n + 1 && #[trigger] first(im, t, p) implies outer_at(im, u, p) by { if p < n { let k = choose|k: int| 0 <= k < cs.len() && #[trigger] starts(im, cs, k, p); assert(starts(im, u, k, p)); } else { assert(starts(im, u, cs.len() as int, p)); } } }
pub open spec fn turned(s: Seq<Point<i32>>) -> bool { exists|k: int| #[trigger] dirs(s, k) }
/// std's vec! and VecDeque::from
#[verifier::external_body]
pub fn zeros__(v: i32, n: usize) -> (r: Vec<i32>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == v { vec![v; n] }
#[verifier::external_body]
pub fn vec8__(a: [Point<i32>; 8]) -> (r: Vec<Point<i32>>) ensures r@ == a@ { a.to_vec() }
#[verifier::external_body]
pub fn uabs__(x: i32) -> (r: u32) ensures r == if x < 0 { -x } else { x as int } { x.unsigned_abs() }
/// the closure get_position_if_non_zero_pixel
pub fn at_or_none(image: &Vec<i32>, width: usize, height: usize, curr: Point<i32>, Ghost(im): Ghost<&GrayImage>, Ghost(t): Ghost<u8>, Ghost(m): Ghost<int>) -> (r: Option<Point<usize>>)
  requires table(im, t, image@, m), width == im.w(), height == im.h(), im.w() <= 0x7fff_ffff, im.h() <= 0x7fff_ffff, im.np() <= 0x7fff_ffff
  ensures r is Some <==> on(im, t, curr.x as int, curr.y as int), r is Some ==> r->0.x == curr.x && r->0.y == curr.y
{
        let (x, y) = (curr.x, curr.y);
        let in_bounds = x > -1 && x < width as i32 && y > -1 && y < height as i32;
        if in_bounds { proof { lemma_idx(im, x as int, y as int); assert(0 <= width * y) by(nonlinear_arith) requires width >= 0, y >= 0; } }
        if in_bounds && image[x as usize + width * (y as usize)] != 0 {
            Some(Point::new(x as usize, y as usize))
        } else {
            None
        }
}
/// diffs.iter().find_map(..) over that closure
pub fn find_cw__(diffs: &Vec<Point<i32>>, image: &Vec<i32>, width: usize, height: usize, curr: Point<i32>, Ghost(im): Ghost<&GrayImage>, Ghost(t): Ghost<u8>, Ghost(m): Ghost<int>, Ghost(k): Ghost<int>) -> (r: Option<Point<usize>>)
  requires dirs(diffs@, k), table(im, t, image@, m), width == im.w(), height == im.h(), im.w() <= 0x7fff_ffff, im.h() <= 0x7fff_ffff, im.np() <= 0x7fff_ffff, im.inb(curr.x as int, curr.y as int)
  ensures r is None ==> forall|j: int| 0 <= j < 8 ==> !#[trigger] nb(im, t, curr.x as int, curr.y as int, k + j), r is Some ==> exists|i: int| #[trigger] cw(im, t, curr.x as int, curr.y as int, k, i) && r->0.x == curr.x + dx(k + i) && r->0.y == curr.y + dy(k + i)
{ for i in 0..8usize invariant dirs(diffs@, k), forall|j: int| 0 <= j < i ==> !#[trigger] nb(im, t, curr.x as int, curr.y as int, k + j), table(im, t, image@, m), width == im.w(), height == im.h(), im.w() <= 0x7fff_ffff, im.h() <= 0x7fff_ffff, im.np() <= 0x7fff_ffff, im.inb(curr.x as int, curr.y as int)
  { let d = diffs[i]; let r = at_or_none(image, width, height, curr + d, Ghost(im), Ghost(t), Ghost(m)); if r.is_some() { assert(cw(im, t, curr.x as int, curr.y as int, k, i as int)); return r; } }
  None }
/// diffs.iter().rev().find_map(..)
pub fn find_ccw__(diffs: &Vec<Point<i32>>, image: &Vec<i32>, width: usize, height: usize, curr: Point<i32>, Ghost(im): Ghost<&GrayImage>, Ghost(t): Ghost<u8>, Ghost(m): Ghost<int>, Ghost(k): Ghost<int>) -> (r: Option<Point<usize>>)
  requires dirs(diffs@, k), table(im, t, image@, m), width == im.w(), height == im.h(), im.w() <= 0x7fff_ffff, im.h() <= 0x7fff_ffff, im.np() <= 0x7fff_ffff, im.inb(curr.x as int, curr.y as int)
  ensures r is None ==> forall|j: int| 0 <= j < 8 ==> !#[trigger] nb(im, t, curr.x as int, curr.y as int, k + 7 - j), r is Some ==> exists|i: int| #[trigger] ccw(im, t, curr.x as int, curr.y as int, k, i) && r->0.x == curr.x + dx(k + 7 - i) && r->0.y == curr.y + dy(k + 7 - i)
{ for i in 0..8usize invariant dirs(diffs@, k), forall|j: int| 0 <= j < i ==> !#[trigger] nb(im, t, curr.x as int, curr.y as int, k + 7 - j), table(im, t, image@, m), width == im.w(), height == im.h(), im.w() <= 0x7fff_ffff, im.h() <= 0x7fff_ffff, im.np() <= 0x7fff_ffff, im.inb(curr.x as int, curr.y as int)
  { let d = diffs[7 - i]; assert(d.x == dx(k + 7 - i) && d.y == dy(k + 7 - i)) by { assert(k + 7 - i == k + (7 - i)); } let r = at_or_none(image, width, height, curr + d, Ghost(im), Ghost(t), Ghost(m)); if r.is_some() { assert(ccw(im, t, curr.x as int, curr.y as int, k, i as int)); return r; } }
  None }
pub proof fn lemma_skip(im: &GrayImage, t: u8, cs: Cs, n: int) requires good(im, t, cs, n), covered(im, t, cs, n), !first(im, t, n) ensures good(im, t, cs, n + 1), covered(im, t, cs, n + 1) { }
pub proof fn lemma_row(w: int, y: int) ensures w * (y + 1) == w * y + w { assert(w * (y + 1) == w * y + w) by(nonlinear_arith); }
/// whether the pixel starts an outer border when it is the first of its region
pub proof fn lemma_first_outer(im: &GrayImage, t: u8, v: Seq<i32>, x: int, y: int, m: int) requires im.inb(x, y), table(im, t, v, m), marked(im, t, v, idx(im, x, y)), first(im, t, idx(im, x, y)) ensures v[idx(im, x, y)] == 1, x > 0 ==> v[idx(im, x - 1, y)] == 0
{ let p = idx(im, x, y); lemma_idx(im, x, y); assert(v[p] == 1) by { if v[p] != 1 { assert(v[p] != 0); assert(from(im, t, p, p)); let q = choose|q: int| 0 <= q < p && on_i(im, t, q) && #[trigger] linked(im, t, q, p); } }
  lemma_west(im, t, x, y); if x > 0 { lemma_idx(im, x - 1, y); assert(dx(0) == -1 && dy(0) == 0); assert(!on(im, t, x - 1, y)); assert(!on_i(im, t, idx(im, x - 1, y))); } }
pub proof fn lemma_init(im: &GrayImage, t: u8, v: Seq<i32>) requires v.len() == im.np(), forall|p: int| 0 <= p < v.len() ==> #[trigger] v[p] == if on_i(im, t, p) { 1int } else { 0 } ensures table(im, t, v, 1), marked(im, t, v, 0), good(im, t, Seq::empty(), 0), covered(im, t, Seq::empty(), 0) { }
pub proof fn lemma_here(im: &GrayImage, t: u8, v: Seq<i32>, m: int, x: int, y: int) requires im.inb(x, y), table(im, t, v, m), marked(im, t, v, idx(im, x, y))
  ensures v[idx(im, x, y)] == 0 ==> !first(im, t, idx(im, x, y)), v[idx(im, x, y)] != 0 <==> on(im, t, x, y), -m <= v[idx(im, x, y)] <= m, x > 0 ==> (v[idx(im, x - 1, y)] == 0 <==> !nb(im, t, x, y, 0)), x == 0 ==> !nb(im, t, x, y, 0), x + 1 < im.w() ==> (v[idx(im, x + 1, y)] == 0 <==> !nb(im, t, x, y, 4)),
    first(im, t, idx(im, x, y)) ==> v[idx(im, x, y)] == 1 && !nb(im, t, x, y, 0), on_i(im, t, idx(im, x, y)) == on(im, t, x, y)
{ lemma_idx(im, x, y); if x > 0 { lemma_idx(im, x - 1, y); } if x + 1 < im.w() { lemma_idx(im, x + 1, y); } if first(im, t, idx(im, x, y)) { lemma_first_outer(im, t, v, x, y, m); lemma_west(im, t, x, y); } }
pub proof fn lemma_bright(im: &GrayImage, t: u8, x: int, y: int) requires im.inb(x, y) ensures on_i(im, t, idx(im, x, y)) == (im.px(x, y).0@[0] > t) { lemma_idx(im, x, y); }
pub proof fn lemma_val(im: &GrayImage, t: u8, v: Seq<i32>, m: int, p: int) requires table(im, t, v, m), 0 <= p < im.np() ensures -m <= v[p] <= m, v[p] != 0 <==> on_i(im, t, p) { }
pub proof fn lemma_len8(s: Seq<Point<i32>>) requires turned(s) ensures s.len() == 8 { }
pub proof fn lemma_good_at(im: &GrayImage, t: u8, cs: Cs, n: int) requires good(im, t, cs, n) ensures forall|k: int| 0 <= k < cs.len() ==> parent_ok(cs, k) { }
pub proof fn lemma_begin(im: &GrayImage, t: u8, a: int, i: int, s: St) requires cw(im, t, s.x, s.y, a, i), s.k == (a + i) % 8, on(im, t, s.x, s.y) ensures begins(im, t, a, s), state(im, t, s), walked(im, t, seq![s]), dx(s.k) == dx(a + i), dy(s.k) == dy(a + i)
{ lemma_nb8(im, t, s.x, s.y, s.k, a + i); }
pub proof fn lemma_at(im: &GrayImage, t: u8, s: Seq<St>) requires walked(im, t, s) ensures state(im, t, s.last()), on(im, t, s.last().x, s.last().y), im.inb(s.last().x, s.last().y), on_i(im, t, idx(im, s.last().x, s.last().y)), 0 <= idx(im, s.last().x, s.last().y) < im.np(), im.inb(s.last().x + dx(s.last().k), s.last().y + dy(s.last().k))
{ assert(state(im, t, s[s.len() - 1])); lemma_idx(im, s.last().x, s.last().y); }
/// the pixel the walk came from is found at the latest
pub proof fn lemma_found(im: &GrayImage, t: u8, s: St) requires state(im, t, s) ensures nb(im, t, s.x, s.y, s.k + 7 - 7) { }
pub proof fn lemma_step(im: &GrayImage, t: u8, s: St, i: int) requires state(im, t, s), ccw(im, t, s.x, s.y, s.k, i) ensures next(im, t, s, moved(s, i)), im.inb(moved(s, i).x, moved(s, i).y), moved(s, i).x == s.x + dx(s.k + 7 - i), moved(s, i).y == s.y + dy(s.k + 7 - i), s.x == moved(s, i).x + dx(moved(s, i).k), s.y == moved(s, i).y + dy(moved(s, i).k), 0 <= moved(s, i).k < 8
{ assert(next(im, t, s, moved(s, i))); lemma_next_state(im, t, s, moved(s, i)); }
pub proof fn lemma_closes(s: Seq<St>, n: St, s0: St) requires 0 <= n.k < 8, 0 <= s0.k < 8 ensures n == s0 <==> (n.x == s0.x && n.y == s0.y && n.x + dx(n.k) == s0.x + dx(s0.k) && n.y + dy(n.k) == s0.y + dy(s0.k))
{ if dx(n.k) == dx(s0.k) && dy(n.k) == dy(s0.k) { lemma_dir_eq(n.k, s0.k); } }
pub proof fn lemma_link(im: &GrayImage, t: u8, p: int, s: St, i: int) requires state(im, t, s), ccw(im, t, s.x, s.y, s.k, i), linked(im, t, p, idx(im, s.x, s.y)) ensures linked(im, t, p, idx(im, moved(s, i).x, moved(s, i).y))
{ lemma_touch(im, t, s.x, s.y, s.k + 7 - i); conn_trans(touch(im, t), p, idx(im, s.x, s.y), idx(im, moved(s, i).x, moved(s, i).y)); }
pub proof fn lemma_alone(im: &GrayImage, t: u8, a: int, x: int, y: int, pts: Seq<Point<i32>>) requires on(im, t, x, y), pts.len() == 1, pts[0].x == x, pts[0].y == y, !nb(im, t, x, y, a), forall|j: int| 0 <= j < 8 ==> !#[trigger] nb(im, t, x, y, a + j), 0 <= a < 8 ensures traced(im, t, a, pts)
{ assert forall|k: int| 0 <= k < 8 implies !#[trigger] nb(im, t, x, y, k) by { let j = (k - a) % 8; assert(!nb(im, t, x, y, a + j)); assert((a + j) % 8 == k % 8); lemma_nb8(im, t, x, y, a + j, k); } }
pub proof fn lemma_traced(im: &GrayImage, t: u8, a: int, s: Seq<St>, pts: Seq<Point<i32>>) requires follows(im, t, s, pts), begins(im, t, a, s[0]), !nb(im, t, s[0].x, s[0].y, a) ensures traced(im, t, a, pts)
{ assert(state(im, t, s[0])); assert(pt(pts[0], s[0])); }
@@ fn contours.rs find_contours_with_threshold
@ opts
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ sigsub find_contours_with_threshold<T> =>> find_contours_with_threshold
@ sigsub Vec<Contour<T>> =>> Vec<Contour<i32>>
@ sigsub where T: Num + NumCast + Copy + PartialEq + Eq, =>>
@ spec
  requires image.w() <= 0x7fff_ffff, image.h() <= 0x7fff_ffff, image.np() < 0x7fff_fff0
  ensures good(image, threshold, r@, image.np()), covered(image, threshold, r@, image.np())
@ begin
  hide(table); hide(marked); hide(good); hide(covered); hide(first); hide(dirs); hide(walked); hide(nb); hide(on); hide(next); hide(border); hide(traced); hide(dx); hide(dy); hide(linked);
  let ghost im = image; let ghost t = threshold;
@ subst
vec![0i32; height * width]
=>> { assert(0 <= height * width == im.np()) by(nonlinear_arith) requires height == im.h(), width == im.w(), im.np() == im.w() * im.h(); zeros__(0, height * width) }
@ closure 0
|x: usize, y: usize| -> (o: usize) requires x < width, y < height, width == im.w(), height == im.h(), im.np() <= 0x7fff_ffff ensures o == idx(im, x as int, y as int), o < im.np()
@ subst
x + width * y
=>> { proof { lemma_idx(im, x as int, y as int); assert(0 <= width * y) by(nonlinear_arith) requires width >= 0, y >= 0; } x + width * y }
@ subst
let get_position_if_non_zero_pixel = |image: &[i32], curr: Point<i32>| {
        let (x, y) = (curr.x, curr.y);
        let in_bounds = x > -1 && x < width as i32 && y > -1 && y < height as i32;

        if in_bounds && image[at(x as usize, y as usize)] != 0 {
            Some(Point::new(x as usize, y as usize))
        } else {
            None
        }
    };
=>>
@ loop 0 before
  proof { assert(width as int * 0 == 0) by(nonlinear_arith); }
@ loop 0
    invariant image_values@.len() == im.np(), forall|p: int| 0 <= p < image_values@.len() ==> #[trigger] image_values@[p] == if p < width * y && on_i(im, t, p) { 1int } else { 0 }
@ loop 1
    invariant image_values@.len() == im.np(), y < height, forall|p: int| 0 <= p < image_values@.len() ==> #[trigger] image_values@[p] == if p < width * y + x && on_i(im, t, p) { 1int } else { 0 }
@ loop 1 begin
  proof { lemma_idx(im, x as int, y as int); lemma_bright(im, t, x as int, y as int); }
@ loop 1 after
  proof { lemma_row(width as int, y as int); }
@ subst
VecDeque::from(vec![
=>> vec8__([
@ before let mut contours: Vec<Contour<T>> = Vec::new();
  proof { assert(turned(diffs@)) by { assert(dirs(diffs@, 0)) by { reveal(dirs); reveal(dx); reveal(dy); assert forall|i: int| 0 <= i < 8 implies (#[trigger] diffs@[i]).x == dx(0 + i) && diffs@[i].y == dy(0 + i) by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7); } } }
    lemma_init(im, t, image_values@); }
@ subst
let mut contours: Vec<Contour<T>> = Vec::new();
=>> let mut contours: Vec<Contour<i32>> = Vec::new(); proof { assert(contours@ =~= Seq::empty()); assert(width * height == im.np()) by(nonlinear_arith) requires height == im.h(), width == im.w(), im.np() == im.w() * im.h(); }
@ loop 2
    invariant turned(diffs@), contours@.len() == curr_border_num - 1, 1 <= curr_border_num <= 1 + width * y, table(im, t, image_values@, curr_border_num as int), marked(im, t, image_values@, width * y), good(im, t, contours@, width * y), covered(im, t, contours@, width * y), image_values@.len() == im.np()
@ loop 3
    invariant y < height, turned(diffs@), contours@.len() == curr_border_num - 1, 1 <= curr_border_num <= 1 + width * y + x, table(im, t, image_values@, curr_border_num as int), marked(im, t, image_values@, width * y + x), good(im, t, contours@, width * y + x), covered(im, t, contours@, width * y + x), 1 <= parent_border_num <= curr_border_num, image_values@.len() == im.np()
@ loop 3 begin
  let ghost p0 = idx(im, x as int, y as int); let ghost m0 = curr_border_num as int; let ghost cs0 = contours@;
  proof { lemma_idx(im, x as int, y as int); if x > 0 { lemma_idx(im, x - 1, y as int); } if x + 1 < width { lemma_idx(im, x + 1, y as int); } lemma_here(im, t, image_values@, m0, x as int, y as int); }
@ loop 3 after
  proof { lemma_row(width as int, y as int); }
@ subst
if image_values[at(x, y)] == 0 {
                continue;
            }
=>> if image_values[at(x, y)] == 0 { proof { lemma_skip(im, t, contours@, p0); lemma_more(im, t, image_values@, m0, p0); } } else {
@ loop 3 end
  }
@ subst
curr_border_num += 1;
=>> let ghost a = side(border_type);
    proof { lemma_more(im, t, image_values@, m0, p0); lemma_good_at(im, t, contours@, p0); }
    curr_border_num += 1;
@ before let mut contour_points = Vec::new();
  proof { if parent_border_num > 1 { assert(parent_ok(contours@, parent_border_num - 2)); } assert(parent is Some ==> parent->0 < contours@.len() && contours@[parent->0 as int].border_type != border_type); }
@ before rotate_to_value(&mut diffs, adj
  proof { assert(at_dir(Point { x: (adj.x - x) as i32, y: (adj.y - y) as i32 }, a)) by { reveal(dx); reveal(dy); } }
@ subst
diffs.iter().find_map(|diff| {
                    get_position_if_non_zero_pixel(&image_values, curr.to_i32() + *diff)
                })
=>> find_cw__(&diffs, &image_values, width, height, curr.to_i32(), Ghost(im), Ghost(t), Ghost(m0 + 1), Ghost(a))
@ before let mut pos2 = pos1;
  let ghost i0 = choose|i: int| #[trigger] cw(im, t, x as int, y as int, a, i) && pos1.x == x + dx(a + i) && pos1.y == y + dy(a + i);
  let ghost s0 = St { x: x as int, y: y as int, k: (a + i0) % 8 }; let ghost mut s = seq![s0]; let ghost mut i1 = 0int;
  proof { lemma_begin(im, t, a, i0, s0); conn_refl(touch(im, t), p0); assert(linked(im, t, p0, p0)) by { reveal(linked); } }
@ loop 4
    invariant walked(im, t, s), s.len() == contour_points@.len() + 1, s[0] == s0, s.last().x == pos3.x, s.last().y == pos3.y, pos2.x == pos3.x + dx(s.last().k), pos2.y == pos3.y + dy(s.last().k),
      forall|i: int| 0 <= i < contour_points@.len() ==> pt(#[trigger] contour_points@[i], s[i]), table(im, t, image_values@, curr_border_num as int), marked(im, t, image_values@, p0 + 1), turned(diffs@), linked(im, t, p0, idx(im, pos3.x as int, pos3.y as int)), image_values@.len() == im.np(), curr_border_num == m0 + 1
    ensures follows(im, t, s, contour_points@), s[0] == s0, s.len() >= 1
    decreases 8 * im.np() - s.len()
@ loop 4 after
  proof { lemma_traced(im, t, a, s, contour_points@); }
@ loop 4 begin
  proof { lemma_walk_len(im, t, s); lemma_at(im, t, s); }
@ before rotate_to_value(&mut diffs, pos2
  proof { assert(at_dir(Point { x: (pos2.x - pos3.x) as i32, y: (pos2.y - pos3.y) as i32 }, s.last().k)); }
@ subst
diffs
                            .iter()
                            .rev() // counter-clockwise
                            .find_map(|diff| {
                                get_position_if_non_zero_pixel(&image_values, pos3.to_i32() + *diff)
                            })
                            .unwrap();
=>> { let f__ = find_ccw__(&diffs, &image_values, width, height, pos3.to_i32(), Ghost(im), Ghost(t), Ghost(m0 + 1), Ghost(s.last().k));
    proof { lemma_found(im, t, s.last()); } f__.unwrap() };
  proof { i1 = choose|i: int| #[trigger] ccw(im, t, pos3.x as int, pos3.y as int, s.last().k, i) && pos4.x == pos3.x + dx(s.last().k + 7 - i) && pos4.y == pos3.y + dy(s.last().k + 7 - i); lemma_step(im, t, s.last(), i1); }
  let ghost n = moved(s.last(), i1);
@ subst
for diff in diffs.iter().rev() {
=>> proof { lemma_len8(diffs@); } for k__ in 0..8usize { let diff = &diffs[7 - k__];
@ subst
*diff == (pos4.to_i32() - pos3.to_i32())
=>> same_i(*diff, pos4.to_i32() - pos3.to_i32())
@ subst
*diff == Point::new(1, 0)
=>> same_i(*diff, Point::new(1, 0))
@ subst
image_values[at(pos3.x, pos3.y)] = -curr_border_num;
=>> proof { lemma_mark(im, t, image_values@, m0 + 1, p0 + 1, p0, idx(im, pos3.x as int, pos3.y as int), -(m0 + 1), image_values@.update(idx(im, pos3.x as int, pos3.y as int), (-(m0 + 1)) as i32)); } image_values[at(pos3.x, pos3.y)] = -curr_border_num;
@ subst
image_values[at(pos3.x, pos3.y)] = curr_border_num;
=>> proof { lemma_mark(im, t, image_values@, m0 + 1, p0 + 1, p0, idx(im, pos3.x as int, pos3.y as int), m0 + 1, image_values@.update(idx(im, pos3.x as int, pos3.y as int), (m0 + 1) as i32)); } image_values[at(pos3.x, pos3.y)] = curr_border_num;
@ subst
pos4 == curr && pos3 == pos1
=>> same(pos4, curr) && same(pos3, pos1)
@ before if pos4 == curr
  proof { lemma_closes(s, n, s0); }
@ before pos2 = pos3;
  proof { lemma_walk_on(im, t, s, n); lemma_link(im, t, p0, s.last(), i1); s = s.push(n); lemma_walk_len(im, t, s); }
@ before if image_values[at(x, y)] != 1
  proof { if contours@.len() == cs0.len() { assert(contours@ =~= cs0); lemma_skip(im, t, contours@, p0); lemma_more(im, t, image_values@, m0, p0); } lemma_val(im, t, image_values@, curr_border_num as int, p0); }
@ subst
image_values[at(x, y)] = -curr_border_num;
=>> proof { conn_refl(touch(im, t), p0); assert(linked(im, t, p0, p0)) by { reveal(linked); } lemma_mark(im, t, image_values@, m0 + 1, p0 + 1, p0, p0, -(m0 + 1), image_values@.update(p0, (-(m0 + 1)) as i32)); lemma_alone(im, t, a, x as int, y as int, contour_points@); } image_values[at(x, y)] = -curr_border_num;
@ before contours.push(
  let ghost c__ = contour_points@;
@ subst
contours.push(Contour::new(contour_points, border_type, parent));
=>> contours.push(Contour::new(contour_points, border_type, parent));
  proof { assert(border(im, t, contours@.last())) by { reveal(border); } lemma_new(im, t, cs0, contours@.last(), p0); assert(contours@ =~= cs0.push(contours@.last())); }
@ subst
image_values[at(x, y)].unsigned_abs()
=>> uabs__(image_values[at(x, y)])
@@ fn contours.rs find_contours
@ sigsub find_contours<T> =>> find_contours
@ sigsub Vec<Contour<T>> =>> Vec<Contour<i32>>
@ sigsub where T: Num + NumCast + Copy + PartialEq + Eq, =>>
@ spec
  requires image.w() <= 0x7fff_ffff, image.h() <= 0x7fff_ffff, image.np() < 0x7fff_fff0
  ensures good(image, 0, r@, image.np()), covered(image, 0, r@, image.np())
