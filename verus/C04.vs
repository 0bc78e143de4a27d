@@ include prelude.rs
@@ text
impl Copy for Rect {}
impl Clone for Rect { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Rect {
  pub open spec fn r(&self) -> int { self.left + self.width - 1 }
  pub open spec fn b(&self) -> int { self.top + self.height - 1 }
  pub open spec fn ok(&self) -> bool { self.width > 0 && self.height > 0 && self.r() <= i32::MAX && self.b() <= i32::MAX }
  pub open spec fn has(&self, x: int, y: int) -> bool { self.left <= x <= self.r() && self.top <= y <= self.b() }
}
@@ struct rect.rs Rect
@@ struct rect.rs RectPosition
@@ fn rect.rs Rect::at
@ spec
  ensures r.left == x, r.top == y,
@@ fn rect.rs RectPosition::of_size
@ spec
  requires width > 0, height > 0,
  ensures r.left == self.left, r.top == self.top, r.width == width, r.height == height,
@@ fn rect.rs Rect::top
@ spec
  ensures r == self.top,
@@ fn rect.rs Rect::left
@ spec
  ensures r == self.left,
@@ fn rect.rs Rect::width
@ spec
  ensures r == self.width,
@@ fn rect.rs Rect::height
@ spec
  ensures r == self.height,
@@ fn rect.rs Rect::bottom
@ spec
  requires self.ok(),
  ensures r == self.b(),
@@ fn rect.rs Rect::right
@ spec
  requires self.ok(),
  ensures r == self.r(),
@@ fn rect.rs Rect::intersect
@ spec
  requires self.ok(), other.ok(),
  ensures
    r.is_some() ==> r->0.ok() && forall|x: int, y: int| #[trigger] r->0.has(x, y) <==> self.has(x, y) && other.has(x, y),
    r.is_none() ==> forall|x: int, y: int| !(#[trigger] self.has(x, y) && other.has(x, y)),
@ subst?
cmp::max
=>> max
@ subst?
cmp::min
=>> min
@@ fn rect.rs <Rect as Region<i32>>::contains
@ hdr
impl Rect
@ spec
  requires self.ok(),
  ensures r == self.has(x as int, y as int),
@@ text
/// containment and intersection agree (stated over the contracts)
pub fn c04_agree(a: Rect, b: Rect, x: i32, y: i32) requires a.ok(), b.ok() {
  let i = a.intersect(b);
  let both = a.contains(x, y) && b.contains(x, y);
  match i { Some(k) => { let in_k = k.contains(x, y); assert(in_k == both); }, None => { assert(!both); } }
}
