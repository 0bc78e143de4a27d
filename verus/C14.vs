@@ include prelude.rs
@@ struct point.rs Point
@ opts
#[derive(Copy, Clone)]
@@ fn point.rs Point::new
@ spec
  ensures r.x == x, r.y == y,
@@ struct morphology.rs Mask
@@ text
/// (x, y) is an element of the mask
pub open spec fn has(s: Seq<Point<i16>>, x: int, y: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).x == x && s[i].y == y }
/// reading order
pub open spec fn before(ax: int, ay: int, bx: int, by: int) -> bool { ay < by || (ay == by && ax < bx) }
/// strictly increasing in reading order (hence no element twice)
pub open spec fn sorted(s: Seq<Point<i16>>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> before((#[trigger] s[i]).x as int, s[i].y as int, s[i + 1].x as int, s[i + 1].y as int) }
/// s holds exactly the elements of `inset` that precede (bx, by)
#[verifier::opaque]
pub open spec fn filled(s: Seq<Point<i16>>, inset: spec_fn(int, int) -> bool, bx: int, by: int) -> bool {
  sorted(s) && (forall|i: int| 0 <= i < s.len() ==> inset((#[trigger] s[i]).x as int, s[i].y as int) && before(s[i].x as int, s[i].y as int, bx, by))
  && (forall|x: int, y: int| #[trigger] inset(x, y) && before(x, y, bx, by) ==> has(s, x, y))
}
pub proof fn lemma_add(s: Seq<Point<i16>>, inset: spec_fn(int, int) -> bool, p: Point<i16>)
  requires filled(s, inset, p.x as int, p.y as int), inset(p.x as int, p.y as int)
  ensures filled(s.push(p), inset, p.x + 1, p.y as int)
{
  reveal(filled);
  let t = s.push(p);
  assert forall|i: int| 0 <= i < t.len() - 1 implies before((#[trigger] t[i]).x as int, t[i].y as int, t[i + 1].x as int, t[i + 1].y as int) by { assert(t[i] == s[i]); if i + 1 < s.len() { assert(t[i + 1] == s[i + 1]); } }
  assert forall|x: int, y: int| #[trigger] inset(x, y) && before(x, y, p.x + 1, p.y as int) implies has(t, x, y) by {
    if x == p.x && y == p.y { assert(t[s.len() as int] == p); }
    else { assert(has(s, x, y)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).x == x && s[i].y == y; assert(t[i] == s[i]); }
  }
}
pub proof fn lemma_skip(s: Seq<Point<i16>>, inset: spec_fn(int, int) -> bool, ax: int, ay: int, bx: int, by: int)
  requires filled(s, inset, ax, ay), forall|x: int, y: int| #[trigger] inset(x, y) && before(x, y, bx, by) ==> before(x, y, ax, ay), forall|x: int, y: int| before(x, y, ax, ay) ==> #[trigger] before(x, y, bx, by)
  ensures filled(s, inset, bx, by)
{ reveal(filled);
  assert forall|i: int| 0 <= i < s.len() implies inset((#[trigger] s[i]).x as int, s[i].y as int) && before(s[i].x as int, s[i].y as int, bx, by) by { assert(before(s[i].x as int, s[i].y as int, ax, ay)); } }
pub proof fn lemma_empty(inset: spec_fn(int, int) -> bool, bx: int, by: int)
  requires forall|x: int, y: int| #[trigger] inset(x, y) ==> !before(x, y, bx, by)
  ensures filled(Seq::empty(), inset, bx, by)
{ reveal(filled); }
/// the mask holds exactly the offsets of `inset`
pub open spec fn mask_is(m: &Mask, inset: spec_fn(int, int) -> bool) -> bool { sorted(m.elements@) && forall|x: int, y: int| has(m.elements@, x, y) == #[trigger] inset(x, y) }
pub proof fn lemma_done(s: Seq<Point<i16>>, inset: spec_fn(int, int) -> bool, bx: int, by: int)
  requires filled(s, inset, bx, by), forall|x: int, y: int| #[trigger] inset(x, y) ==> before(x, y, bx, by)
  ensures sorted(s), forall|x: int, y: int| has(s, x, y) == #[trigger] inset(x, y)
{ reveal(filled); }
pub open spec fn iabs(v: int) -> int { if v < 0 { -v } else { v } }
pub open spec fn in_square(r: int) -> spec_fn(int, int) -> bool { |x: int, y: int| -r <= x <= r && -r <= y <= r }
pub open spec fn in_diamond(r: int) -> spec_fn(int, int) -> bool { |x: int, y: int| iabs(x) + iabs(y) <= r }
pub open spec fn in_disk(r: int) -> spec_fn(int, int) -> bool { |x: int, y: int| x * x + y * y <= r * r }
/// foreground pixels of an image relative to the centre
pub open spec fn in_image(im: GrayImage, cx: int, cy: int) -> spec_fn(int, int) -> bool { |x: int, y: int| im.inb(x + cx, y + cy) && im.px(x + cx, y + cy).0@[0] != 0 }
@@ text
/// what every constructor guarantees: reading order, small offsets
pub open spec fn mask_wf(m: &Mask) -> bool { sorted(m.elements@) && forall|i: int| 0 <= i < m.elements@.len() ==> -512 < (#[trigger] m.elements@[i]).x < 512 && -512 < m.elements@[i].y < 512 }
pub proof fn lemma_wf(s: Seq<Point<i16>>, inset: spec_fn(int, int) -> bool)
  requires sorted(s), forall|x: int, y: int| has(s, x, y) == #[trigger] inset(x, y), forall|x: int, y: int| #[trigger] inset(x, y) ==> -512 < x < 512 && -512 < y < 512
  ensures forall|i: int| 0 <= i < s.len() ==> -512 < (#[trigger] s[i]).x < 512 && -512 < s[i].y < 512
{ assert forall|i: int| 0 <= i < s.len() implies -512 < (#[trigger] s[i]).x < 512 && -512 < s[i].y < 512 by { assert(has(s, s[i].x as int, s[i].y as int)); assert(inset(s[i].x as int, s[i].y as int)); } }
@@ fn morphology.rs Mask::new
@ spec
  requires elements@.len() <= 511 * 511, sorted(elements@),
  ensures r.elements@ == elements@,
@ subst
debug_assert!(elements.iter().tuple_windows().all(|(a, b)| {
            if a.y == b.y {
                a.x < b.x
            } else {
                a.y < b.y
            }
        }));
=>> assert(sorted(elements@));
@@ fn morphology.rs Mask::square
@ spec
  ensures mask_is(&r, in_square(radius as int)), mask_wf(&r),
@ subst
let radius = i16::from(radius);
=>> let ghost rr = radius as int; let radius = radius as i16;
@ subst
let range = -radius..=radius;
        let elements = range
            .clone()
            .cartesian_product(range)
            .map(|(y, x)| Point::new(x, y))
            .collect();
=>> let mut elements: Vec<Point<i16>> = Vec::new();
 proof { lemma_empty(in_square(rr), -rr, -rr); assert((-rr + rr) * (2 * rr + 1) == 0) by(nonlinear_arith); }
 for y in -radius..(radius + 1)
   invariant filled(elements@, in_square(rr), -rr, y as int), elements@.len() == (y + rr) * (2 * rr + 1), radius == rr, 0 <= rr <= 255,
 {
   for x in -radius..(radius + 1)
     invariant filled(elements@, in_square(rr), x as int, y as int), elements@.len() == (y + rr) * (2 * rr + 1) + (x + rr), -rr <= y <= rr, radius == rr, 0 <= rr <= 255,
   { proof { lemma_add(elements@, in_square(rr), Point { x, y }); }
     elements.push(Point::new(x, y)); }
   proof { lemma_skip(elements@, in_square(rr), rr + 1, y as int, -rr, y + 1); assert((y + rr) * (2 * rr + 1) + (2 * rr + 1) == (y + 1 + rr) * (2 * rr + 1)) by(nonlinear_arith); }
 }
 proof { lemma_done(elements@, in_square(rr), -rr, rr + 1); lemma_wf(elements@, in_square(rr)); assert((rr + 1 + rr) * (2 * rr + 1) <= 511 * 511) by(nonlinear_arith) requires 0 <= rr <= 255; }
@@ fn morphology.rs Mask::diamond
@ spec
  ensures mask_is(&r, in_diamond(radius as int)), mask_wf(&r),
@ subst
let cap = 1 + 2 * usize::from(radius) * (usize::from(radius) + 1);
=>> proof { assert(1 + 2 * radius * (radius + 1) <= 200000) by(nonlinear_arith) requires 0 <= radius <= 255; }
  let cap = 1 + 2 * (radius as usize) * (radius as usize + 1);
@ subst
let radius = i16::from(radius);
=>> let ghost rr = radius as int; let radius = radius as i16;
@ subst
let mut elements = Vec::with_capacity(cap);
=>> let mut elements: Vec<Point<i16>> = Vec::with_capacity(cap);
@ subst
let points = (-radius..=radius)
            .flat_map(|y| ((y.abs() - radius)..=(radius - y.abs())).map(move |x| Point::new(x, y)));
        elements.extend(points);
=>> proof { lemma_empty(in_diamond(rr), 0, -rr); assert(elements@ =~= Seq::empty()); }
 for y in -radius..(radius + 1)
   invariant filled(elements@, in_diamond(rr), iabs(y as int) - rr, y as int), elements@.len() <= (y + rr) * (2 * rr + 1), radius == rr, 0 <= rr <= 255,
 {
   let a = i16_abs(y);
   for x in (a - radius)..((radius - a) + 1)
     invariant filled(elements@, in_diamond(rr), x as int, y as int), elements@.len() <= (y + rr) * (2 * rr + 1) + (x + rr), -rr <= y <= rr, radius == rr, 0 <= rr <= 255, a == iabs(y as int),
   { proof { lemma_add(elements@, in_diamond(rr), Point { x, y }); }
     elements.push(Point::new(x, y)); }
   proof { lemma_skip(elements@, in_diamond(rr), rr - iabs(y as int) + 1, y as int, iabs(y + 1) - rr, y + 1); assert((y + rr) * (2 * rr + 1) + (2 * rr + 1) == (y + 1 + rr) * (2 * rr + 1)) by(nonlinear_arith); }
 }
 proof { lemma_done(elements@, in_diamond(rr), 1, rr + 1); lemma_wf(elements@, in_diamond(rr)); assert((rr + 1 + rr) * (2 * rr + 1) <= 511 * 511) by(nonlinear_arith) requires 0 <= rr <= 255; }
@@ text
#[verifier::external_body]
pub fn i16_abs(x: i16) -> (r: i16) requires x != i16::MIN ensures r == iabs(x as int) { x.abs() }

/// u32::pow(2)
#[verifier::external_body]
pub fn pow2(x: u32) -> (r: u32) requires x * x <= u32::MAX ensures r == x * x { x.pow(2) }
#[verifier::external_body]
pub fn i16_unsigned_abs(x: i16) -> (r: u16) ensures r == iabs(x as int) { x.unsigned_abs() }
/// hw is the half width of the disk's row at height h
pub open spec fn half(rr: int, h: int, hw: int) -> bool { 0 <= hw <= rr && hw * hw + h * h <= rr * rr < (hw + 1) * (hw + 1) + h * h }
pub proof fn lemma_half(rr: int, h: int, hw: int, x: int)
  requires half(rr, h, hw) ensures in_disk(rr)(x, h) == (-hw <= x <= hw)
{
  if -hw <= x <= hw { assert(x * x <= hw * hw) by(nonlinear_arith) requires -hw <= x <= hw; }
  else { assert(x * x >= (hw + 1) * (hw + 1)) by(nonlinear_arith) requires x >= hw + 1 || x <= -(hw + 1), hw >= 0; }
}
pub proof fn lemma_sq(a: int, b: int) requires 0 <= a <= b ensures a * a <= b * b, a * a >= 0 { assert(a * a <= b * b) by(nonlinear_arith) requires 0 <= a <= b; assert(a * a >= 0) by(nonlinear_arith); }
pub proof fn lemma_sq_lt(a: int, b: int) requires 0 <= a, 0 <= b, a * a < b * b ensures a < b { if a >= b { lemma_sq(b, a); } }
@@ text
pub open spec fn cur_ok(c: (i16, u8), rr: int, hh: int) -> bool { c.0 == hh && hh <= rr && half(rr, hh, c.1 as int) }
@@ fn morphology.rs Mask::disk
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@ spec
  ensures mask_is(&r, in_disk(radius as int)), mask_wf(&r),
@ subst
let radius_squared = u32::from(radius).pow(2);
=>> let ghost rr = radius as int; proof { lemma_sq(rr, 255); }
  let radius_squared = pow2(radius as u32);
@ subst
let half_widths_per_height = std::iter::successors(
            Some((-i16::from(radius), 0u8)),
            |&(last_height, last_half_width)| {
                if last_height == i16::from(radius) {
                    return None;
                };
                let next_height = last_height + 1;
                let height_squared = (u32::from(next_height.unsigned_abs())).pow(2);
                let next_half_width = if next_height <= 0 {
                    (u32::from(last_half_width)..)
                        .find(|x| (x + 1).pow(2) + height_squared > radius_squared)?
                } else {
                    (0u32..=last_half_width.into())
                        .rev()
                        .find(|&x| x.pow(2) + height_squared <= radius_squared)?
                };
                Some((next_height, next_half_width.try_into().unwrap()))
            },
        );
=>> let mut elements: Vec<Point<i16>> = Vec::new();
  let mut cur: Option<(i16, u8)> = Some((-(radius as i16), 0u8));
  let ghost mut hh: int = -rr;
  proof {
    assert forall|x: int, y: int| #[trigger] in_disk(rr)(x, y) implies !before(x, y, -rr, -rr) by { if before(x, y, -rr, -rr) {
       if y < -rr { assert(y * y > rr * rr && x * x >= 0) by(nonlinear_arith) requires y < -rr, rr >= 0; } else { assert(x * x > rr * rr && y * y >= 0) by(nonlinear_arith) requires x < -rr, rr >= 0; } } }
    lemma_empty(in_disk(rr), -rr, -rr); assert(half(rr, -rr, 0)) by { assert((-rr) * (-rr) == rr * rr) by(nonlinear_arith); } assert((-rr + rr) * (2 * rr + 1) == 0) by(nonlinear_arith); }
  while cur.is_some()
    invariant 0 <= rr <= 255, rr == radius, radius_squared == rr * rr, -rr <= hh <= rr + 1, filled(elements@, in_disk(rr), -rr, hh), elements@.len() <= (hh + rr) * (2 * rr + 1),
      cur is Some ==> cur_ok(cur->Some_0, rr, hh), cur is None ==> hh == rr + 1,
    decreases rr + 1 - hh
  {
    let (y, half_width) = cur.unwrap();
    let ghost hw = half_width as int;
    proof { assert forall|x: int| #[trigger] in_disk(rr)(x, hh) == (-hw <= x <= hw) by { lemma_half(rr, hh, hw, x); }
      lemma_skip(elements@, in_disk(rr), -rr, hh, -hw, hh); }
    for x in -(half_width as i16)..(half_width as i16 + 1)
      invariant filled(elements@, in_disk(rr), x as int, hh), y == hh, half(rr, hh, hw), hw == half_width, elements@.len() <= (hh + rr) * (2 * rr + 1) + (x + rr),
    { proof { lemma_half(rr, hh, hw, x as int); lemma_add(elements@, in_disk(rr), Point { x, y }); }
      elements.push(Point::new(x, y)); }
    proof {
      assert forall|x: int, y: int| #[trigger] in_disk(rr)(x, y) && before(x, y, -rr, hh + 1) implies before(x, y, hw + 1, hh) by { if y == hh { lemma_half(rr, hh, hw, x); }
         if y == hh + 1 { assert(x * x > rr * rr && y * y >= 0) by(nonlinear_arith) requires x < -rr, rr >= 0; } }
      lemma_skip(elements@, in_disk(rr), hw + 1, hh, -rr, hh + 1);
      assert((hh + rr) * (2 * rr + 1) + (2 * rr + 1) == (hh + 1 + rr) * (2 * rr + 1)) by(nonlinear_arith);
    }
    let last_height = y; let last_half_width = half_width;
    cur = if last_height == radius as i16 { None } else {
      let next_height = last_height + 1;
      let ghost nh = next_height as int;
      proof { lemma_sq(iabs(nh), rr); assert(iabs(nh) * iabs(nh) == nh * nh) by(nonlinear_arith); assert(iabs(hh) * iabs(hh) == hh * hh) by(nonlinear_arith); }
      let height_squared = pow2(i16_unsigned_abs(next_height) as u32);
      let next_half_width: u32 = if next_height <= 0 {
        proof { lemma_sq(iabs(nh), iabs(hh)); }
        let mut x: u32 = last_half_width as u32;
        proof { lemma_sq(x as int, rr); }
        while !({ proof { lemma_sq(x as int + 1, 256); } pow2(x + 1) + height_squared > radius_squared })
          invariant x * x + nh * nh <= rr * rr, x <= rr, 0 <= rr <= 255, height_squared == nh * nh, radius_squared == rr * rr, nh * nh <= 255 * 255, nh * nh >= 0, rr * rr <= 255 * 255,
          decreases rr - x
        { proof {  if x + 1 > rr { lemma_sq(rr + 1, x as int + 1); assert((rr + 1) * (rr + 1) > rr * rr) by(nonlinear_arith) requires rr >= 0; } } x = x + 1; }
        x
      } else {
        let mut x: u32 = last_half_width as u32;
        proof { lemma_sq(x as int, rr); lemma_sq(iabs(hh), iabs(nh));
          assert(rr * rr < (x + 1) * (x + 1) + nh * nh); }
        while !({ proof { lemma_sq(x as int, 255); } pow2(x) + height_squared <= radius_squared })
          invariant rr * rr < (x + 1) * (x + 1) + nh * nh, x <= rr, 0 <= rr <= 255, height_squared == nh * nh, radius_squared == rr * rr, nh * nh <= rr * rr, rr * rr <= 255 * 255,
          decreases x
        { proof { if x == 0 { assert(false); } } x = x - 1; }
        x
      };
      proof { assert(half(rr, nh, next_half_width as int)); }
      Some((next_height, next_half_width as u8))
    };
    proof { hh = hh + 1; }
  }
@ subst
let cap = half_widths_per_height
            .clone()
            .map(|(_, half_width)| 2 * usize::from(half_width) + 1)
            .sum();
        let mut elements = Vec::with_capacity(cap);
        let points = half_widths_per_height.flat_map(|(y, half_width)| {
            (-i16::from(half_width)..=i16::from(half_width)).map(move |x| Point::new(x, y))
        });
        elements.extend(points);
=>> proof {
  assert forall|x: int, y: int| #[trigger] in_disk(rr)(x, y) implies before(x, y, -rr, rr + 1) by { if y >= rr + 1 { assert(y * y > rr * rr && x * x >= 0) by(nonlinear_arith) requires y >= rr + 1, rr >= 0; } }
  lemma_done(elements@, in_disk(rr), -rr, rr + 1);
  assert forall|x: int, y: int| #[trigger] in_disk(rr)(x, y) implies -512 < x < 512 && -512 < y < 512 by {
    if iabs(x) > rr { assert(x * x > rr * rr && y * y >= 0) by(nonlinear_arith) requires x > rr || x < -rr, rr >= 0; }
    if iabs(y) > rr { assert(y * y > rr * rr && x * x >= 0) by(nonlinear_arith) requires y > rr || y < -rr, rr >= 0; } }
  lemma_wf(elements@, in_disk(rr)); assert((rr + 1 + rr) * (2 * rr + 1) <= 511 * 511) by(nonlinear_arith) requires 0 <= rr <= 255; }
@@ fn morphology.rs Mask::from_image
@ spec
  requires image.w() < 512, image.h() < 512,
  ensures mask_is(&r, in_image(*image, center_x as int, center_y as int)), mask_wf(&r),
@ subst
let center = Point::new(center_x, center_y).to_i16();
        let elements = image
            .enumerate_pixels()
            .filter(|(_, _, &p)| p[0] != 0)
            .map(|(x, y, _)| Point::new(x, y).to_i16())
            .map(|p| p - center)
            .collect();
=>> let center: Point<i16> = Point::new(center_x as i16, center_y as i16);
  let mut elements: Vec<Point<i16>> = Vec::new();
  let ghost cx = center_x as int; let ghost cy = center_y as int; let ghost ins = in_image(*image, cx, cy);
  proof { lemma_empty(ins, -cx, -cy); assert(0 * image.w() == 0); }
  for y in 0..image.height()
    invariant filled(elements@, ins, -cx, y - cy), elements@.len() <= y * image.w(), image.w() < 512, image.h() < 512,
  {
    for x in 0..image.width()
      invariant filled(elements@, ins, x - cx, y - cy), elements@.len() <= y * image.w() + x, image.w() < 512, image.h() < 512, y < image.h(),
    {
      let p = *image.get_pixel(x, y);
      proof { assert(y * image.w() <= 511 * 511) by(nonlinear_arith) requires 0 <= y <= 511, 0 <= image.w() <= 511; }
      if p[0] != 0 {
        let p = Point::new(x as i16, y as i16);
        proof { assert(ins(x - cx, y - cy)); lemma_add(elements@, ins, Point { x: (x - cx) as i16, y: (y - cy) as i16 }); }
        elements.push(Point::new(p.x - center.x, p.y - center.y));
      } else { proof { assert(!ins(x - cx, y - cy)); lemma_skip(elements@, ins, x - cx, y - cy, x + 1 - cx, y - cy); } }
    }
    proof { lemma_skip(elements@, ins, image.w() - cx, y - cy, -cx, y + 1 - cy); assert(y * image.w() + image.w() == (y + 1) * image.w()) by(nonlinear_arith); }
  }
  proof { lemma_done(elements@, ins, -cx, image.h() - cy); lemma_wf(elements@, ins); assert(image.h() * image.w() <= 511 * 511) by(nonlinear_arith) requires 0 <= image.h() <= 511, 0 <= image.w() <= 511; }

@@ text
/// the mask grouped by rows (the lines! macro over itertools::chunk_by)
pub type Lines = Seq<(i16, Vec<i16>)>;
pub open spec fn valid(l: Lines, i: int, j: int) -> bool { 0 <= i < l.len() && 0 <= j < l[i].1@.len() }
pub open spec fn lx(l: Lines, i: int, j: int) -> int { l[i].1@[j] as int }
pub open spec fn ly(l: Lines, i: int) -> int { l[i].0 as int }
pub open spec fn at(l: Lines, i: int, j: int, x: int, y: int) -> bool { valid(l, i, j) && lx(l, i, j) == x && ly(l, i) == y }
pub open spec fn lines_ok(l: Lines, s: Seq<Point<i16>>) -> bool {
  (forall|i: int, j: int| #[trigger] valid(l, i, j) ==> has(s, lx(l, i, j), ly(l, i)))
  && (forall|x: int, y: int| #[trigger] has(s, x, y) ==> exists|i: int, j: int| #[trigger] at(l, i, j, x, y))
  && (forall|i: int| 0 <= i < l.len() ==> -512 < (#[trigger] l[i]).0 < 512)
}
#[verifier::external_body]
pub fn lines(mask: &Mask) -> (r: Vec<(i16, Vec<i16>)>) requires mask_wf(mask) ensures lines_ok(r@, mask.elements@) { unimplemented!() }
pub fn usize_or0(v: i64) -> (r: usize) ensures r == (if v < 0 { 0 } else { v as int }) { if v < 0 { 0 } else { v as usize } }
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub open spec fn pick(up: bool, a: u8, b: u8) -> u8 { if up == (a >= b) { a } else { b } }
pub open spec fn dom(up: bool, a: u8, b: u8) -> bool { if up { a >= b } else { a <= b } }
pub open spec fn gr(im: GrayImage, x: int, y: int) -> u8 { im.px(x, y).0@[0] }
/// element (i2, j2) has already been combined into pixel (x, y) at loop position (i, y0, j, x0)
pub open spec fn applied(i: int, y0: int, j: int, x0: int, i2: int, j2: int, x: int, y: int) -> bool {
  i2 < i || (i2 == i && (y < y0 || (y == y0 && (j2 < j || (j2 == j && x < x0)))))
}
pub open spec fn cand(im: GrayImage, l: Lines, p: (int, int, int, int), i2: int, j2: int, x: int, y: int) -> bool {
  valid(l, i2, j2) && applied(p.0, p.1, p.2, p.3, i2, j2, x, y) && im.inb(x + lx(l, i2, j2), y + ly(l, i2))
}
pub open spec fn acc(im: GrayImage, l: Lines, nu: u8, up: bool, p: (int, int, int, int), x: int, y: int, v: u8) -> bool {
  dom(up, v, nu) && (forall|i2: int, j2: int| #[trigger] cand(im, l, p, i2, j2, x, y) ==> dom(up, v, gr(im, x + lx(l, i2, j2), y + ly(l, i2))))
  && (v == nu || exists|i2: int, j2: int| #[trigger] cand(im, l, p, i2, j2, x, y) && v == gr(im, x + lx(l, i2, j2), y + ly(l, i2)))
}
#[verifier::opaque]
pub open spec fn prog(im: GrayImage, res: GrayImage, l: Lines, nu: u8, up: bool, p: (int, int, int, int)) -> bool {
  forall|x: int, y: int| im.inb(x, y) ==> acc(im, l, nu, up, p, x, y, #[trigger] res.px(x, y).0@[0])
}
/// moving the loop position over pairs that fall outside the image
pub proof fn lemma_prog_skip(im: GrayImage, res: GrayImage, l: Lines, nu: u8, up: bool, p: (int, int, int, int), q: (int, int, int, int))
  requires prog(im, res, l, nu, up, p),
    forall|i2: int, j2: int, x: int, y: int| im.inb(x, y) ==> (#[trigger] cand(im, l, p, i2, j2, x, y) == cand(im, l, q, i2, j2, x, y)),
  ensures prog(im, res, l, nu, up, q)
{
  reveal(prog);
  assert forall|x: int, y: int| im.inb(x, y) implies acc(im, l, nu, up, q, x, y, #[trigger] res.px(x, y).0@[0]) by {
    let v = res.px(x, y).0@[0]; assert(acc(im, l, nu, up, p, x, y, v));
    assert forall|i2: int, j2: int| #[trigger] cand(im, l, q, i2, j2, x, y) implies dom(up, v, gr(im, x + lx(l, i2, j2), y + ly(l, i2))) by { assert(cand(im, l, p, i2, j2, x, y)); }
    if v != nu { let (i2, j2) = choose|i2: int, j2: int| #[trigger] cand(im, l, p, i2, j2, x, y) && v == gr(im, x + lx(l, i2, j2), y + ly(l, i2)); assert(cand(im, l, q, i2, j2, x, y)); }
  }
}
/// combining one pair
pub proof fn lemma_prog_step(im: GrayImage, res: GrayImage, res2: GrayImage, l: Lines, nu: u8, up: bool, i: int, y0: int, j: int, x0: int)
  requires prog(im, res, l, nu, up, (i, y0, j, x0)), valid(l, i, j), im.inb(x0, y0), im.inb(x0 + lx(l, i, j), y0 + ly(l, i)),
    forall|x: int, y: int| im.inb(x, y) && !(x == x0 && y == y0) ==> (#[trigger] res2.px(x, y)).0@[0] == res.px(x, y).0@[0],
    res2.px(x0, y0).0@[0] == pick(up, gr(im, x0 + lx(l, i, j), y0 + ly(l, i)), res.px(x0, y0).0@[0]),
  ensures prog(im, res2, l, nu, up, (i, y0, j, x0 + 1))
{
  reveal(prog);
  let p = (i, y0, j, x0); let q = (i, y0, j, x0 + 1);
  assert forall|x: int, y: int| im.inb(x, y) implies acc(im, l, nu, up, q, x, y, #[trigger] res2.px(x, y).0@[0]) by {
    let v = res.px(x, y).0@[0]; let v2 = res2.px(x, y).0@[0]; assert(acc(im, l, nu, up, p, x, y, v));
    assert forall|i2: int, j2: int| #[trigger] cand(im, l, q, i2, j2, x, y) implies dom(up, v2, gr(im, x + lx(l, i2, j2), y + ly(l, i2))) by {
      if !(x == x0 && y == y0 && i2 == i && j2 == j) { assert(cand(im, l, p, i2, j2, x, y)); } }
    if x == x0 && y == y0 { assert(cand(im, l, q, i, j, x0, y0)); }
    if v2 != nu && v2 == v { let (i2, j2) = choose|i2: int, j2: int| #[trigger] cand(im, l, p, i2, j2, x, y) && v == gr(im, x + lx(l, i2, j2), y + ly(l, i2)); assert(cand(im, l, q, i2, j2, x, y)); }
  }
}
/// v is the extreme of the image over the mask translated to (x, y) and clipped to the image
pub open spec fn hits(im: GrayImage, s: Seq<Point<i16>>, x: int, y: int, mx: int, my: int) -> bool { has(s, mx, my) && im.inb(x + mx, y + my) }
pub open spec fn extreme(im: GrayImage, s: Seq<Point<i16>>, up: bool, nu: u8, x: int, y: int, v: u8) -> bool {
  (forall|mx: int, my: int| #[trigger] hits(im, s, x, y, mx, my) ==> dom(up, v, gr(im, x + mx, y + my)))
  && (v == nu || exists|mx: int, my: int| #[trigger] hits(im, s, x, y, mx, my) && v == gr(im, x + mx, y + my))
}
pub proof fn lemma_prog_done(im: GrayImage, res: GrayImage, l: Lines, s: Seq<Point<i16>>, nu: u8, up: bool)
  requires prog(im, res, l, nu, up, (l.len() as int, 0int, 0int, 0int)), lines_ok(l, s)
  ensures forall|x: int, y: int| im.inb(x, y) ==> extreme(im, s, up, nu, x, y, #[trigger] res.px(x, y).0@[0])
{
  reveal(prog); let p = (l.len() as int, 0int, 0int, 0int);
  assert forall|x: int, y: int| im.inb(x, y) implies extreme(im, s, up, nu, x, y, #[trigger] res.px(x, y).0@[0]) by {
    let v = res.px(x, y).0@[0]; assert(acc(im, l, nu, up, p, x, y, v));
    assert forall|mx: int, my: int| #[trigger] hits(im, s, x, y, mx, my) implies dom(up, v, gr(im, x + mx, y + my)) by {
      let (i, j) = choose|i: int, j: int| #[trigger] at(l, i, j, mx, my); assert(cand(im, l, p, i, j, x, y)); }
    if v != nu { let (i, j) = choose|i: int, j: int| #[trigger] cand(im, l, p, i, j, x, y) && v == gr(im, x + lx(l, i, j), y + ly(l, i)); assert(hits(im, s, x, y, lx(l, i, j), ly(l, i))); }
  }
}
@@ fn morphology.rs mask_reduce
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@ sigsub neutral: u8, =>> neutral: u8, Ghost(up): Ghost<bool>,
@ spec
  requires mask_wf(mask), forall|a: u8, b: u8| #[trigger] operator.requires((a, b)), forall|a: u8, b: u8, c: u8| #[trigger] operator.ensures((a, b), c) ==> c == pick(up, a, b),
    forall|a: u8| dom(up, a, neutral),
  ensures r.same_dims(image), forall|x: int, y: int| image.inb(x, y) ==> extreme(*image, mask.elements@, up, neutral, x, y, #[trigger] r.px(x, y).0@[0]),
@ subst
for (y, line_group) in lines!(mask) {
=>> let lns = lines(mask); let ghost ll = lns@; let ghost im = *image; let ghost hgt = image.h() as int; let ghost wid = image.w() as int;
  proof { reveal(prog); }
  for li in 0..lns.len()
    invariant result.same_dims(image), image.w() > 0, lns@ == ll, prog(im, result, ll, neutral, up, (li as int, 0int, 0int, 0int)), lines_ok(ll, mask.elements@),
  { let y = lns[li].0; let line_group = &lns[li].1;
@ subst
let y = i64::from(y);
=>> let y = y as i64;
@ subst
line_group.collect::<Vec<_>>()
=>> line_group
@ subst
image
            .chunks(image.width() as usize)
            .skip(y.try_into().unwrap_or(0))
=>> umin(usize_or0(y), image.height() as usize)
@ subst
result
            .chunks_mut(image.width() as usize)
            .skip((-y).try_into().unwrap_or(0))
=>> umin(usize_or0(-y), result.height() as usize)
@ subst
for (input_row, output_row) in input_rows.zip(output_rows) {
=>> let n = umin(image.height() as usize - input_rows, result.height() as usize - output_rows);
  proof { lemma_prog_skip(im, result, ll, neutral, up, (li as int, 0int, 0int, 0int), (li as int, output_rows as int, 0int, 0int)); }
  for k in 0..n
    invariant result.same_dims(image), lns@ == ll, prog(im, result, ll, neutral, up, (li as int, output_rows + k, 0int, 0int)),
      n as int == (if hgt - input_rows < hgt - output_rows { hgt - input_rows } else { hgt - output_rows }),
  { let input_row = (input_rows + k) as u32; let output_row = (output_rows + k) as u32;
@ subst
for x in line.iter().copied() {
=>> for xi in 0..line.len()
    invariant result.same_dims(image), lns@ == ll, prog(im, result, ll, neutral, up, (li as int, output_row as int, xi as int, 0int)),
  { let x = line[xi]; proof { assert(valid(ll, li as int, xi as int)); assert(has(mask.elements@, lx(ll, li as int, xi as int), y as int)); }
@ subst
let inputs = input_row.iter().skip(x.try_into().unwrap_or(0));
=>> let inputs = umin(usize_or0(x as i64), image.width() as usize);
@ subst
let outputs = output_row.iter_mut().skip((-x).try_into().unwrap_or(0));
=>> let outputs = umin(usize_or0((-x) as i64), result.width() as usize);
@ subst
for (&input, output) in inputs.zip(outputs) {
=>> let m = umin(image.width() as usize - inputs, result.width() as usize - outputs);
  proof { lemma_prog_skip(im, result, ll, neutral, up, (li as int, output_row as int, xi as int, 0int), (li as int, output_row as int, xi as int, outputs as int)); }
  for t in 0..m
    invariant result.same_dims(image), lns@ == ll, prog(im, result, ll, neutral, up, (li as int, output_row as int, xi as int, outputs + t)),
      m as int == (if wid - inputs < wid - outputs { wid - inputs } else { wid - outputs }),
  { let input = image.get_pixel((inputs + t) as u32, input_row)[0]; let ghost o = result; let output = get_sub_mut(&mut result, (outputs + t) as u32, output_row);
@ subst
*output = operator(input, *output);
                }
            }
        }
    }
=>> *output = operator(input, *output);
   proof { lemma_prog_step(im, o, result, ll, neutral, up, li as int, output_row as int, xi as int, outputs + t); }
                }
   proof { lemma_prog_skip(im, result, ll, neutral, up, (li as int, output_row as int, xi as int, outputs + m), (li as int, output_row as int, xi + 1, 0int)); }
            }
   proof { lemma_prog_skip(im, result, ll, neutral, up, (li as int, output_row as int, line@.len() as int, 0int), (li as int, output_row + 1, 0int, 0int)); }
        }
   proof { lemma_prog_skip(im, result, ll, neutral, up, (li as int, output_rows + n, 0int, 0int), (li + 1, 0int, 0int, 0int)); }
    }
   proof { lemma_prog_done(im, result, ll, mask.elements@, neutral, up); }
@@ text
#[verifier::external_body]
pub fn get_sub_mut(im: &mut GrayImage, x: u32, y: u32) -> (r: &mut u8) requires x < old(im).w(), y < old(im).h()
  ensures *r == old(im).px(x as int, y as int).0@[0], final(im).same_dims(old(im)),
    final(im).px(x as int, y as int).0@[0] == *final(r), forall|i: int, j: int| !(i == x && j == y) ==> #[trigger] final(im).px(i, j) == old(im).px(i, j) { unimplemented!() }
pub open spec fn ext(im: &GrayImage, m: &Mask, up: bool, r: &GrayImage) -> bool {
  r.same_dims(im) && forall|x: int, y: int| im.inb(x, y) ==> extreme(*im, m.elements@, up, if up { 0u8 } else { 255u8 }, x, y, #[trigger] r.px(x, y).0@[0]) }
@@ fn morphology.rs grayscale_dilate
@ spec
  requires mask_wf(mask),
  ensures ext(image, mask, true, &r),
@ subst
mask_reduce(image, mask, u8::MIN, u8::max)
=>> mask_reduce(image, mask, u8::MIN, Ghost(true), |a: u8, b: u8| -> (c: u8) ensures c == pick(true, a, b) { max(a, b) })
@@ fn morphology.rs grayscale_erode
@ spec
  requires mask_wf(mask),
  ensures ext(image, mask, false, &r),
@ subst
mask_reduce(image, mask, u8::MAX, u8::min)
=>> mask_reduce(image, mask, u8::MAX, Ghost(false), |a: u8, b: u8| -> (c: u8) ensures c == pick(false, a, b) { min(a, b) })
@@ fn morphology.rs grayscale_open
@ spec
  requires mask_wf(mask),
  ensures exists|e: GrayImage| #[trigger] ext(image, mask, false, &e) && ext(&e, mask, true, &r),
@@ fn morphology.rs grayscale_close
@ spec
  requires mask_wf(mask),
  ensures exists|e: GrayImage| #[trigger] ext(image, mask, true, &e) && ext(&e, mask, false, &r),
