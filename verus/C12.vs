@@ uses C12e.vs
@@ text
pub open spec fn iabs(v: int) -> int { if v < 0 { -v } else { v } }
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
/// the two integer norms
pub open spec fn dst(inf: bool, dx: int, dy: int) -> int { if inf { imax(iabs(dx), iabs(dy)) } else { iabs(dx) + iabs(dy) } }
/// is (x, y) one of the pixels distances are measured from?
pub open spec fn src(o: &GrayImage, fg: bool, x: int, y: int) -> bool { o.inb(x, y) && ((o.px(x, y).0@[0] > 0) == fg) }
/// some such pixel lies within distance v
pub open spec fn near(o: &GrayImage, fg: bool, inf: bool, x: int, y: int, v: int) -> bool { exists|sx: int, sy: int| #[trigger] src(o, fg, sx, sy) && dst(inf, x - sx, y - sy) <= v }
/// THE PROPERTY (L1, LInf): v is the distance to the nearest such pixel, saturated at 255
pub open spec fn dist_is(o: &GrayImage, fg: bool, inf: bool, x: int, y: int, v: int) -> bool {
  (v < 255 ==> near(o, fg, inf, x, y, v)) && 0 <= v <= 255 && (forall|sx: int, sy: int| #[trigger] src(o, fg, sx, sy) ==> v <= dst(inf, x - sx, y - sy))
}
pub open spec fn dt_of(o: &GrayImage, r: &GrayImage, fg: bool, inf: bool) -> bool {
  r.same_dims(o) && forall|x: int, y: int| o.inb(x, y) ==> dist_is(o, fg, inf, x, y, (#[trigger] r.px(x, y)).0@[0] as int)
}
/// offsets reachable from a source by the moves of the first pass, and by those of the second
pub open spec fn fwd(inf: bool, dx: int, dy: int) -> bool { dy >= 0 && if inf { dx >= -dy } else { dx >= 0 } }
pub open spec fn val(im: &GrayImage, x: int, y: int) -> int { im.px(x, y).0@[0] as int }
pub open spec fn low(a: int, b: int) -> int { if b < a { b } else { a } }
/// value written by the first pass at (x, y)
pub open spec fn relax1(im: &GrayImage, inf: bool, x: int, y: int) -> int {
  let a = if x > 0 { low(255, val(im, x - 1, y) + 1) } else { 255 };
  if y > 0 {
    let b = low(a, val(im, x, y - 1) + 1);
    if inf {
      let c = if x > 0 { low(b, val(im, x - 1, y - 1) + 1) } else { b };
      if x < im.w() - 1 { low(c, val(im, x + 1, y - 1) + 1) } else { c }
    } else { b }
  } else { a }
}
/// value written by the second pass at (x, y)
pub open spec fn relax2(im: &GrayImage, inf: bool, x: int, y: int) -> int {
  let a = if x < im.w() - 1 { low(val(im, x, y), val(im, x + 1, y) + 1) } else { val(im, x, y) };
  if y < im.h() - 1 {
    let b = low(a, val(im, x, y + 1) + 1);
    if inf {
      let c = if x < im.w() - 1 { low(b, val(im, x + 1, y + 1) + 1) } else { b };
      if x > 0 { low(c, val(im, x - 1, y + 1) + 1) } else { c }
    } else { b }
  } else { a }
}
pub open spec fn sound(im: &GrayImage, o: &GrayImage, fg: bool, inf: bool, i: int, j: int) -> bool { val(im, i, j) == 255 || near(o, fg, inf, i, j, val(im, i, j)) }
/// state of the first pass just before (x, y)
#[verifier::opaque]
pub open spec fn p1(im: &GrayImage, o: &GrayImage, fg: bool, inf: bool, x: int, y: int) -> bool {
  &&& forall|i: int, j: int| o.inb(i, j) && (j < y || (j == y && i < x)) ==> #[trigger] sound(im, o, fg, inf, i, j)
  &&& forall|i: int, j: int, sx: int, sy: int| o.inb(i, j) && (j < y || (j == y && i < x)) && src(o, fg, sx, sy) && fwd(inf, i - sx, j - sy) ==> #[trigger] val(im, i, j) <= #[trigger] dst(inf, i - sx, j - sy)
  &&& forall|i: int, j: int| o.inb(i, j) && !(j < y || (j == y && i < x)) ==> #[trigger] im.px(i, j) == o.px(i, j)
}
/// state of the second pass: rows below y and pixels right of x are final; d is the image after the first pass
#[verifier::opaque]
pub open spec fn p2(im: &GrayImage, d: &GrayImage, o: &GrayImage, fg: bool, inf: bool, x: int, y: int) -> bool {
  &&& forall|i: int, j: int| o.inb(i, j) ==> #[trigger] sound(im, o, fg, inf, i, j)
  &&& forall|i: int, j: int, qx: int, qy: int| o.inb(i, j) && (j > y || (j == y && i > x)) && o.inb(qx, qy) && fwd(inf, qx - i, qy - j) ==> #[trigger] val(im, i, j) <= #[trigger] val(d, qx, qy) + dst(inf, i - qx, j - qy)
  &&& forall|i: int, j: int| o.inb(i, j) && !(j > y || (j == y && i > x)) ==> #[trigger] im.px(i, j) == d.px(i, j)
}
pub open spec fn upd(a: &GrayImage, b: &GrayImage, x: int, y: int, v: int) -> bool {
  b.same_dims(a) && val(b, x, y) == v && forall|i: int, j: int| !(i == x && j == y) ==> #[trigger] b.px(i, j) == a.px(i, j)
}
pub proof fn lemma_near(o: &GrayImage, fg: bool, inf: bool, x: int, y: int, qx: int, qy: int, v: int)
  requires near(o, fg, inf, qx, qy, v), dst(inf, x - qx, y - qy) <= 1
  ensures near(o, fg, inf, x, y, v + 1)
{
  let (sx, sy) = choose|sx: int, sy: int| #[trigger] src(o, fg, sx, sy) && dst(inf, qx - sx, qy - sy) <= v;
  assert(src(o, fg, sx, sy) && dst(inf, x - sx, y - sy) <= v + 1);
}
pub proof fn lemma_sound_q(im: &GrayImage, o: &GrayImage, fg: bool, inf: bool, x: int, y: int, qx: int, qy: int)
  requires sound(im, o, fg, inf, qx, qy), dst(inf, x - qx, y - qy) <= 1
  ensures val(im, qx, qy) + 1 < 255 ==> near(o, fg, inf, x, y, val(im, qx, qy) + 1), val(im, qx, qy) == 254 ==> near(o, fg, inf, x, y, 255),
{ if val(im, qx, qy) < 255 { lemma_near(o, fg, inf, x, y, qx, qy, val(im, qx, qy)); } }
#[verifier::rlimit(60)]
pub proof fn lemma_p1_step(a: &GrayImage, b: &GrayImage, o: &GrayImage, fg: bool, inf: bool, x: int, y: int)
  requires p1(a, o, fg, inf, x, y), a.same_dims(o), o.inb(x, y), upd(a, b, x, y, if src(o, fg, x, y) { 0 } else { relax1(a, inf, x, y) }),
  ensures p1(b, o, fg, inf, x + 1, y), b.same_dims(o)
{
  reveal(p1);
  let v = val(b, x, y);
  if src(o, fg, x, y) { assert(near(o, fg, inf, x, y, 0)) by { assert(dst(inf, 0, 0) == 0); } }
  else {
    if x > 0 { assert(sound(a, o, fg, inf, x - 1, y)); lemma_sound_q(a, o, fg, inf, x, y, x - 1, y); }
    if y > 0 { assert(sound(a, o, fg, inf, x, y - 1)); lemma_sound_q(a, o, fg, inf, x, y, x, y - 1);
      if inf {
        if x > 0 { assert(sound(a, o, fg, inf, x - 1, y - 1)); lemma_sound_q(a, o, fg, inf, x, y, x - 1, y - 1); }
        if x < o.w() - 1 { assert(sound(a, o, fg, inf, x + 1, y - 1)); lemma_sound_q(a, o, fg, inf, x, y, x + 1, y - 1); }
      } }
  }
  assert(sound(b, o, fg, inf, x, y));
  assert forall|i: int, j: int| o.inb(i, j) && (j < y || (j == y && i < x + 1)) implies #[trigger] sound(b, o, fg, inf, i, j) by {
    if !(i == x && j == y) { assert(sound(a, o, fg, inf, i, j)); assert(b.px(i, j) == a.px(i, j)); }
  }
  assert forall|i: int, j: int, sx: int, sy: int| o.inb(i, j) && (j < y || (j == y && i < x + 1)) && src(o, fg, sx, sy) && fwd(inf, i - sx, j - sy)
    implies #[trigger] val(b, i, j) <= #[trigger] dst(inf, i - sx, j - sy) by {
    if i == x && j == y {
      if !src(o, fg, x, y) {
        let dx = x - sx; let dy = y - sy;
        if inf {
          if dy == 0 { assert(dx > 0); assert(val(a, x - 1, y) <= dst(inf, (x - 1) - sx, y - sy)); }
          else if dx > 0 { assert(val(a, x - 1, y - 1) <= dst(inf, (x - 1) - sx, (y - 1) - sy)); }
          else if dx == 0 { assert(val(a, x, y - 1) <= dst(inf, x - sx, (y - 1) - sy)); }
          else { assert(val(a, x + 1, y - 1) <= dst(inf, (x + 1) - sx, (y - 1) - sy)); }
        } else {
          if dx > 0 { assert(val(a, x - 1, y) <= dst(inf, (x - 1) - sx, y - sy)); }
          else { assert(dy > 0); assert(val(a, x, y - 1) <= dst(inf, x - sx, (y - 1) - sy)); }
        }
      }
    } else { assert(b.px(i, j) == a.px(i, j)); assert(val(a, i, j) <= dst(inf, i - sx, j - sy)); }
  }
}
pub proof fn lemma_p1_row(a: &GrayImage, o: &GrayImage, fg: bool, inf: bool, y: int)
  requires p1(a, o, fg, inf, o.w() as int, y) ensures p1(a, o, fg, inf, 0, y + 1)
{ reveal(p1); }
pub proof fn lemma_p2_start(d: &GrayImage, o: &GrayImage, fg: bool, inf: bool)
  requires p1(d, o, fg, inf, 0, o.h() as int), d.same_dims(o)
  ensures p2(d, d, o, fg, inf, o.w() - 1, o.h() - 1)
{ reveal(p1); reveal(p2); }
#[verifier::rlimit(60)]
pub proof fn lemma_p2_step(a: &GrayImage, b: &GrayImage, d: &GrayImage, o: &GrayImage, fg: bool, inf: bool, x: int, y: int)
  requires p2(a, d, o, fg, inf, x, y), a.same_dims(o), o.inb(x, y), upd(a, b, x, y, relax2(a, inf, x, y)),
  ensures p2(b, d, o, fg, inf, x - 1, y), b.same_dims(o)
{
  reveal(p2);
  assert(sound(a, o, fg, inf, x, y));
  if x < o.w() - 1 { assert(sound(a, o, fg, inf, x + 1, y)); lemma_sound_q(a, o, fg, inf, x, y, x + 1, y); }
  if y < o.h() - 1 { assert(sound(a, o, fg, inf, x, y + 1)); lemma_sound_q(a, o, fg, inf, x, y, x, y + 1);
    if inf {
      if x < o.w() - 1 { assert(sound(a, o, fg, inf, x + 1, y + 1)); lemma_sound_q(a, o, fg, inf, x, y, x + 1, y + 1); }
      if x > 0 { assert(sound(a, o, fg, inf, x - 1, y + 1)); lemma_sound_q(a, o, fg, inf, x, y, x - 1, y + 1); }
    } }
  assert(sound(b, o, fg, inf, x, y));
  assert forall|i: int, j: int| o.inb(i, j) implies #[trigger] sound(b, o, fg, inf, i, j) by {
    if !(i == x && j == y) { assert(sound(a, o, fg, inf, i, j)); assert(b.px(i, j) == a.px(i, j)); }
  }
  assert forall|i: int, j: int, qx: int, qy: int| o.inb(i, j) && (j > y || (j == y && i > x - 1)) && o.inb(qx, qy) && fwd(inf, qx - i, qy - j)
    implies #[trigger] val(b, i, j) <= #[trigger] val(d, qx, qy) + dst(inf, i - qx, j - qy) by {
    if i == x && j == y {
      let dx = qx - x; let dy = qy - y;
      if dx == 0 && dy == 0 { assert(a.px(x, y) == d.px(x, y)); }
      else if inf {
          if dy == 0 { assert(dx > 0); assert(val(a, x + 1, y) <= val(d, qx, qy) + dst(inf, (x + 1) - qx, y - qy)); }
          else if dx > 0 { assert(val(a, x + 1, y + 1) <= val(d, qx, qy) + dst(inf, (x + 1) - qx, (y + 1) - qy)); }
          else if dx == 0 { assert(val(a, x, y + 1) <= val(d, qx, qy) + dst(inf, x - qx, (y + 1) - qy)); }
          else { assert(val(a, x - 1, y + 1) <= val(d, qx, qy) + dst(inf, (x - 1) - qx, (y + 1) - qy)); }
      } else {
          if dx > 0 { assert(val(a, x + 1, y) <= val(d, qx, qy) + dst(inf, (x + 1) - qx, y - qy)); }
          else { assert(dy > 0); assert(val(a, x, y + 1) <= val(d, qx, qy) + dst(inf, x - qx, (y + 1) - qy)); }
      }
    } else { assert(b.px(i, j) == a.px(i, j)); assert(val(a, i, j) <= val(d, qx, qy) + dst(inf, i - qx, j - qy)); }
  }
}
pub proof fn lemma_p2_row(a: &GrayImage, d: &GrayImage, o: &GrayImage, fg: bool, inf: bool, y: int)
  requires p2(a, d, o, fg, inf, -1, y) ensures p2(a, d, o, fg, inf, o.w() - 1, y - 1)
{ reveal(p2); }
#[verifier::rlimit(60)]
pub proof fn lemma_finish(a: &GrayImage, d: &GrayImage, o: &GrayImage, fg: bool, inf: bool, x: int)
  requires p1(d, o, fg, inf, 0, o.h() as int), p2(a, d, o, fg, inf, x, -1), a.same_dims(o), d.same_dims(o)
  ensures dt_of(o, a, fg, inf)
{
  reveal(p1); reveal(p2);
  assert forall|x: int, y: int| o.inb(x, y) implies dist_is(o, fg, inf, x, y, (#[trigger] a.px(x, y)).0@[0] as int) by {
    assert(sound(a, o, fg, inf, x, y));
    assert forall|sx: int, sy: int| #[trigger] src(o, fg, sx, sy) implies val(a, x, y) <= dst(inf, x - sx, y - sy) by {
      let dx = x - sx; let dy = y - sy;
      // the turning point of a shortest path: moves of the first pass up to it, of the second pass after it
      let (qx, qy) = if inf {
          if dy >= 0 { if dx >= -dy { (x, y) } else { (sx - dy, y) } }
          else { if dx <= -dy { (sx, sy) } else { (sx + (dx + dy), sy) } }
        } else { (imax(x, sx), imax(y, sy)) };
      assert(o.inb(qx, qy));
      assert(fwd(inf, qx - sx, qy - sy)); assert(fwd(inf, qx - x, qy - y));
      assert(val(d, qx, qy) <= dst(inf, qx - sx, qy - sy));
      assert(val(a, x, y) <= val(d, qx, qy) + dst(inf, x - qx, y - qy));
    }
  }
}
@@ enum distance_transform.rs DistanceFrom
@ opts
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@ enum distance_transform.rs Norm
@ opts
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@ text
pub open spec fn isfg(from: DistanceFrom) -> bool { from == DistanceFrom::Foreground }
@@ fn distance_transform.rs check
@ spec
  requires current_x < old(image).w(), current_y < old(image).h(), candidate_x < old(image).w(), candidate_y < old(image).h(),
  ensures upd(old(image), final(image), current_x as int, current_y as int, low(val(old(image), current_x as int, current_y as int), val(old(image), candidate_x as int, candidate_y as int) + 1)),
@@ fn distance_transform.rs distance_transform_impl_linf_or_l1
@ spec
  ensures dt_of(old(image), final(image), isfg(from), IS_LINF),
@ begin
  let ghost o = *image; let ghost fg = isfg(from);
  proof { reveal(p1); }
@ loop 0
  invariant image.same_dims(&o), p1(&*image, &o, fg, IS_LINF, 0, y as int), max_distance == luma(255u8),
@ loop 0 end
  proof { lemma_p1_row(&*image, &o, fg, IS_LINF, y as int); }
@ loop 1
  invariant image.same_dims(&o), p1(&*image, &o, fg, IS_LINF, x as int, y as int), y < o.h(), max_distance == luma(255u8),
@ loop 1 begin
  let ghost pre = *image; proof { reveal(p1); assert(pre.px(x as int, y as int) == o.px(x as int, y as int)); }
@ loop 1 end
  proof { lemma_p1_step(&pre, &*image, &o, fg, IS_LINF, x as int, y as int); }
@ loop 2 before
  let ghost d = *image; proof { lemma_p2_start(&d, &o, fg, IS_LINF); }
@ loop 2 iter it2
@ loop 2
  invariant image.same_dims(&o), d.same_dims(&o), p2(&*image, &d, &o, fg, IS_LINF, o.w() - 1, o.h() - 1 - it2.index@),
@ loop 3 iter it3
@ loop 3
  invariant image.same_dims(&o), d.same_dims(&o), y < o.h(), y == o.h() - 1 - it2.index@, p2(&*image, &d, &o, fg, IS_LINF, o.w() - 1 - it3.index@, y as int),
@ loop 3 begin
  let ghost pre = *image;
@ loop 3 end
  proof { lemma_p2_step(&pre, &*image, &d, &o, fg, IS_LINF, x as int, y as int); }
@ loop 2 end
  proof { lemma_p2_row(&*image, &d, &o, fg, IS_LINF, y as int); }
@ loop 2 after
  proof { lemma_finish(&*image, &d, &o, fg, IS_LINF, o.w() - 1); }
@@ text
/// offsets within distance v, in each norm (for L2: the true distance rounded up is at most v)
pub open spec fn within(norm: Norm, dx: int, dy: int, v: int) -> bool {
  match norm { Norm::L1 => iabs(dx) + iabs(dy) <= v, Norm::LInf => imax(iabs(dx), iabs(dy)) <= v, Norm::L2 => v >= 0 && dx * dx + dy * dy <= v * v }
}
pub open spec fn nearn(o: &GrayImage, fg: bool, norm: Norm, x: int, y: int, v: int) -> bool { exists|sx: int, sy: int| #[trigger] src(o, fg, sx, sy) && within(norm, x - sx, y - sy, v) }
/// v is the least integer such that a source lies within distance v, saturated at 255
pub open spec fn dist_n(o: &GrayImage, fg: bool, norm: Norm, x: int, y: int, v: int) -> bool {
  0 <= v <= 255 && (v < 255 ==> nearn(o, fg, norm, x, y, v)) && forall|u: int| 0 <= u < v ==> !#[trigger] nearn(o, fg, norm, x, y, u)
}
/// THE PROPERTY over the three norms
pub open spec fn dt_norm(o: &GrayImage, r: &GrayImage, norm: Norm, fg: bool) -> bool {
  r.same_dims(o) && forall|x: int, y: int| o.inb(x, y) ==> dist_n(o, fg, norm, x, y, (#[trigger] r.px(x, y)).0@[0] as int)
}
pub proof fn lemma_dt_norm(o: &GrayImage, r: &GrayImage, norm: Norm, fg: bool)
  requires norm != Norm::L2, dt_of(o, r, fg, norm == Norm::LInf)
  ensures dt_norm(o, r, norm, fg)
{
  let inf = norm == Norm::LInf;
  assert forall|x: int, y: int| o.inb(x, y) implies dist_n(o, fg, norm, x, y, (#[trigger] r.px(x, y)).0@[0] as int) by {
    let v = r.px(x, y).0@[0] as int;
    assert(dist_is(o, fg, inf, x, y, v));
    if v < 255 { let (sx, sy) = choose|sx: int, sy: int| #[trigger] src(o, fg, sx, sy) && dst(inf, x - sx, y - sy) <= v; assert(src(o, fg, sx, sy) && within(norm, x - sx, y - sy, v)); }
    assert forall|u: int| 0 <= u < v implies !#[trigger] nearn(o, fg, norm, x, y, u) by {
      if nearn(o, fg, norm, x, y, u) { let (sx, sy) = choose|sx: int, sy: int| #[trigger] src(o, fg, sx, sy) && within(norm, x - sx, y - sy, u); assert(v <= dst(inf, x - sx, y - sy)); }
    }
  }
}
/// sides for which the f64 arithmetic of the L2 arm is exact
pub open spec fn l2ok(norm: Norm, im: &GrayImage) -> bool { norm == Norm::L2 ==> im.w() <= side() && im.h() <= side() }
// f64::sqrt, clamp and ceil, and their composition on an exact integer: the least r with r * r >= n, at most 255 (correct rounding of the root)
pub uninterp spec fn dsqrt(x: f64) -> f64;
pub uninterp spec fn dclamp(x: f64, a: f64, b: f64) -> f64;
pub uninterp spec fn dceil(x: f64) -> f64;
pub assume_specification[ f64::sqrt ](x: f64) -> (r: f64) ensures r == dsqrt(x);
pub assume_specification[ f64::clamp ](x: f64, a: f64, b: f64) -> (r: f64) ensures r == dclamp(x, a, b);
pub assume_specification[ f64::ceil ](x: f64) -> (r: f64) ensures r == dceil(x);
pub open spec fn ceil_root(n: int, r: int) -> bool { 0 <= r <= 255 && (r < 255 ==> n <= r * r) && (r > 0 ==> (r - 1) * (r - 1) < n) }
pub broadcast axiom fn ax_ceil_root(x: f64, o: u8) requires #[trigger] vstd::float::float_cast_spec(dceil(dclamp(dsqrt(x), 0.0f64, 255.0f64)), o)
  ensures di(x) is Some && di(x)->0 >= 0 ==> ceil_root(di(x)->0, o as int), isinf(x) ==> o == 255;
pub open spec fn ceiled(v: f64, r: int) -> bool { (isinf(v) ==> r == 255) && (di(v) is Some && di(v)->0 >= 0 ==> ceil_root(di(v)->0, r)) }
pub fn typed64(x: f64) -> (r: f64) ensures r == x { x }
pub proof fn lemma_l2(o: &GrayImage, m: &GrayImage, fg: bool, x: int, y: int, v: f64, r: int)
  requires m.same_dims(o), forall|i: int, j: int| #[trigger] fgp(m, i, j) == src(o, fg, i, j), esq(m, x, y, v), isinf(v) ==> r == 255, di(v) is Some && di(v)->0 >= 0 ==> ceil_root(di(v)->0, r)
  ensures dist_n(o, fg, Norm::L2, x, y, r)
{
  if exists|sx: int, sy: int| #[trigger] fgp(m, sx, sy) {
    let (sx, sy) = choose|sx: int, sy: int| #[trigger] fgp(m, sx, sy) && di(v) == Some(d2(x - sx, y - sy)) && forall|tx: int, ty: int| #[trigger] fgp(m, tx, ty) ==> d2(x - sx, y - sy) <= d2(x - tx, y - ty);
    let n = d2(x - sx, y - sy);
    assert(n >= 0) by { let (a, b) = (x - sx, y - sy); assert(a * a >= 0) by(nonlinear_arith); assert(b * b >= 0) by(nonlinear_arith); }
    assert(fgp(m, sx, sy) && src(o, fg, sx, sy));
    assert forall|u: int| 0 <= u < r implies !#[trigger] nearn(o, fg, Norm::L2, x, y, u) by {
      if nearn(o, fg, Norm::L2, x, y, u) {
        let (tx, ty) = choose|tx: int, ty: int| #[trigger] src(o, fg, tx, ty) && within(Norm::L2, x - tx, y - ty, u);
        assert(fgp(m, tx, ty)); assert(u * u <= (r - 1) * (r - 1)) by(nonlinear_arith) requires 0 <= u <= r - 1; } }
  } else {
    assert forall|u: int| 0 <= u < r implies !#[trigger] nearn(o, fg, Norm::L2, x, y, u) by {
      if nearn(o, fg, Norm::L2, x, y, u) { let (tx, ty) = choose|tx: int, ty: int| #[trigger] src(o, fg, tx, ty) && within(Norm::L2, x - tx, y - ty, u); assert(fgp(m, tx, ty)); } }
  }
}
@@ fn distance_transform.rs distance_transform_impl
@ spec
  requires l2ok(norm, old(image)),
  ensures dt_norm(old(image), final(image), norm, isfg(from)),
@ begin
  broadcast use {e64, ax_ceil_root};
  let ghost o = *image; let ghost fg = isfg(from);
@ end
  proof { if norm != Norm::L2 { lemma_dt_norm(&o, &*image, norm, isfg(from)); } }
@ subst
image
                    .iter_mut()
                    .for_each(|p| *p = if *p == 0 { 1 } else { 0 }),
=>> { let e__ = image.len_px();
      for k__ in 0..e__
        invariant e__ == o.np(), image.same_dims(&o), forall|i: int| 0 <= i < o.np() ==> (#[trigger] image.pk(i)).0@[0] == if i < k__ { if o.pk(i).0@[0] == 0 { 1u8 } else { 0u8 } } else { o.pk(i).0@[0] },
      { let p = image.sub_at_mut(k__); *p = if *p == 0 { 1 } else { 0 }; } }
@ after let float_dist: Image<Luma<f64>> = euclidean_squared_distance_transform(image);
  let ghost m = *image;
  proof { assert forall|i: int, j: int| #[trigger] fgp(&m, i, j) == src(&o, fg, i, j) by { if o.inb(i, j) { lemma_pk(&o, i, j); lemma_pk(&m, i, j); } } }
@ subst
image
                .iter_mut()
                .zip(float_dist.iter())
                .for_each(|(u, v)| *u = v.sqrt().clamp(0.0, 255.0).ceil() as u8);
=>> let e__ = image.len_px();
    for k__ in 0..e__
      invariant e__ == o.np(), m.same_dims(&o), float_dist.same_dims(&o), image.same_dims(&o), forall|x: int, y: int| m.inb(x, y) ==> esq(&m, x, y, (#[trigger] float_dist.px(x, y)).0@[0]),
        forall|i: int, j: int| #[trigger] fgp(&m, i, j) == src(&o, fg, i, j),
        forall|i: int| 0 <= i < k__ ==> ceiled(float_dist.pk(i).0@[0], (#[trigger] image.pk(i)).0@[0] as int),
      { let u = image.sub_at_mut(k__); let v = typed64(float_dist.px_at(k__).0[0]); *u = v.sqrt().clamp(0.0, 255.0).ceil() as u8; }
    proof { assert forall|x: int, y: int| o.inb(x, y) implies dist_n(&o, fg, Norm::L2, x, y, (#[trigger] image.px(x, y)).0@[0] as int) by {
      lemma_pk(&*image, x, y); lemma_pk(&float_dist, x, y); let r = image.px(x, y).0@[0] as int; assert(ceiled(float_dist.pk(y * o.w() + x).0@[0], image.pk(y * o.w() + x).0@[0] as int)); lemma_l2(&o, &m, fg, x, y, float_dist.px(x, y).0@[0], r); } }
@@ fn distance_transform.rs distance_transform_mut
@ spec
  requires l2ok(norm, old(image)),
  ensures dt_norm(old(image), final(image), norm, true),
@@ text
pub proof fn lemma_nearn_ext(a: &GrayImage, b: &GrayImage, norm: Norm, fg: bool, x: int, y: int, v: int)
  requires a.same_dims(b), forall|x: int, y: int| #[trigger] a.px(x, y) == b.px(x, y)
  ensures nearn(a, fg, norm, x, y, v) == nearn(b, fg, norm, x, y, v)
{
  assert(forall|x: int, y: int| #[trigger] src(b, fg, x, y) == src(a, fg, x, y));
  if nearn(a, fg, norm, x, y, v) { let (sx, sy) = choose|sx: int, sy: int| #[trigger] src(a, fg, sx, sy) && within(norm, x - sx, y - sy, v); assert(src(b, fg, sx, sy)); }
  if nearn(b, fg, norm, x, y, v) { let (sx, sy) = choose|sx: int, sy: int| #[trigger] src(b, fg, sx, sy) && within(norm, x - sx, y - sy, v); assert(src(a, fg, sx, sy)); }
}
pub proof fn lemma_dt_ext(a: &GrayImage, b: &GrayImage, r: &GrayImage, norm: Norm, fg: bool)
  requires dt_norm(a, r, norm, fg), a.same_dims(b), forall|x: int, y: int| #[trigger] a.px(x, y) == b.px(x, y)
  ensures dt_norm(b, r, norm, fg)
{
  assert forall|x: int, y: int| b.inb(x, y) implies dist_n(b, fg, norm, x, y, (#[trigger] r.px(x, y)).0@[0] as int) by {
    let v = r.px(x, y).0@[0] as int;
    assert(dist_n(a, fg, norm, x, y, v));
    lemma_nearn_ext(a, b, norm, fg, x, y, v);
    assert forall|u: int| 0 <= u < v implies !#[trigger] nearn(b, fg, norm, x, y, u) by { lemma_nearn_ext(a, b, norm, fg, x, y, u); }
  }
}
@@ fn distance_transform.rs distance_transform
@ spec
  requires l2ok(norm, image),
  ensures dt_norm(image, &r, norm, true),
@ after let mut out = image.clone();
  let ghost c = out;
@ tail
  proof { lemma_dt_ext(&c, image, &out, norm, true); }
