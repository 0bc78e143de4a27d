@@ text
/// the samples start at zero (`Image::new`)
pub broadcast axiom fn ax_zero_sub<P: Pixel<Subpixel = Sub>>(c: int) requires 0 <= c < P::cc() ensures #[trigger] zero_px::<P>().ch()[c] == 0;
@@ text
pub open spec fn lex(ax: int, ay: int, bx: int, by: int) -> bool { ax < bx || (ax == bx && ay < by) }
/// pixel (a, b) beats (i, j)
pub open spec fn beats(im: &Image<Luma<Sub>>, a: int, b: int, i: int, j: int) -> bool {
  im.px(a, b).0@[0] > im.px(i, j).0@[0] || (im.px(a, b).0@[0] == im.px(i, j).0@[0] && lex(a, b, i, j))
}
pub open spec fn is_max(im: &Image<Luma<Sub>>, rad: int, i: int, j: int) -> bool {
  forall|a: int, b: int| im.inb(a, b) && i - rad <= a <= i + rad && j - rad <= b <= j + rad ==> !#[trigger] beats(im, a, b, i, j)
}
pub open spec fn nms(im: &Image<Luma<Sub>>, rad: int, i: int, j: int) -> Sub { if is_max(im, rad, i, j) { im.px(i, j).0@[0] } else { 0 as Sub } }
#[verifier::external_body]
pub fn tuple_lt(a: (u32, u32), b: (u32, u32)) -> (r: bool) ensures r == lex(a.0 as int, a.1 as int, b.0 as int, b.1 as int) { a < b }
@@ fn suppress.rs contains_greater_value
@ sigsub <I, C> =>>
@ sigsub image: &I =>> image: &Image<Luma<Sub>>
@ sigsub v: C =>> v: Sub
@ sigsub I: GenericImage<Pixel = Luma<C>>, =>>
@ sigsub C: Primitive + Ord, =>>
@ spec
  requires y_lower <= y_upper <= image.h(), x_lower <= x_upper <= image.w(), image.inb(x as int, y as int), v == image.px(x as int, y as int).0@[0],
  ensures r == exists|a: int, b: int| x_lower <= a < x_upper && y_lower <= b < y_upper && #[trigger] beats(image, a, b, x as int, y as int),
@ subst
(cx, cy) < (x, y)
=>> tuple_lt((cx, cy), (x, y))
@ loop 0
  invariant forall|a: int, b: int| x_lower <= a < x_upper && y_lower <= b < cy ==> !#[trigger] beats(image, a, b, x as int, y as int), end__0 == y_upper, start__0 == y_lower,
@ loop 1
  invariant forall|a: int, b: int| x_lower <= a < x_upper && y_lower <= b < cy ==> !#[trigger] beats(image, a, b, x as int, y as int), end__1 == x_upper, start__1 == x_lower,
    y_lower <= cy < y_upper,
    forall|a: int| x_lower <= a < cx ==> !#[trigger] beats(image, a, cy as int, x as int, y as int),
@ before return true
  assert(beats(image, cx as int, cy as int, x as int, y as int));
@@ fn suppress.rs suppress_non_maximum
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@ sigsub <I, C> =>>
@ sigsub image: &I =>> image: &Image<Luma<Sub>>
@ sigsub Image<Luma<C>> =>> Image<Luma<Sub>>
@ sigsub I: GenericImage<Pixel = Luma<C>>, =>>
@ sigsub C: Primitive + Ord, =>>
@ spec
  ensures r.w() == image.w(), r.h() == image.h(),
    forall|i: int, j: int| r.inb(i, j) ==> (#[trigger] r.px(i, j)).0@[0] == nms(image, radius as int, i, j),
@ subst
let mut out: Image<Luma<C>> = Image::new(width, height);
=>> let mut out: Image<Luma<Sub>> = Image::<Luma<Sub>>::new(width, height); proof { ax_zero_sub::<Luma<Sub>>(0); }
@ subst
for y in (0..height).step_by(radius as usize + 1) {
=>> let mut y__: u64 = 0;
 while y__ < height as u64
   invariant out.w() == width, out.h() == height, width == image.w(), height == image.h(), width > 0, height > 0,
     forall|i: int, j: int| 0 <= i < width && 0 <= j < height ==> (#[trigger] out.px(i, j)).0@[0] == if j < y__ { nms(image, radius as int, i, j) } else { 0 as Sub },
   decreases if y__ < height { height - y__ } else { 0 }
 { let y = y__ as u32; y__ = y__ + (radius as u64 + 1);
@ subst
for x in (0..width).step_by(radius as usize + 1) {
=>> let mut x__: u64 = 0;
 while x__ < width as u64
   invariant out.w() == width, out.h() == height, width == image.w(), height == image.h(), y < height, y__ == y + radius + 1,
     forall|i: int, j: int| 0 <= i < width && 0 <= j < height ==> (#[trigger] out.px(i, j)).0@[0] == if j < y || (j < y__ && i < x__) { nms(image, radius as int, i, j) } else { 0 as Sub },
   decreases if x__ < width { width - x__ } else { 0 }
 { let x = x__ as u32; x__ = x__ + (radius as u64 + 1); let ghost rad = radius as int;
@ subst
(cx, cy) < (best_x, best_y)
=>> tuple_lt((cx, cy), (best_x, best_y))
@ loops 2
@ loop 0
  invariant x < width, y < height, width == image.w(), height == image.h(), x <= best_x, y <= best_y, best_x < x__, best_y < y__, best_x < width, best_y < height, mi == image.px(best_x as int, best_y as int).0@[0],
    end__0 == if y + radius + 1 < height { y + radius + 1 } else { height as int }, start__0 == y,
    cy >= y, cy > y ==> best_y < cy, cy == y ==> best_y == y && best_x == x,
    forall|a: int, b: int| x <= a < x__ && a < width && y <= b < cy ==> !#[trigger] beats(image, a, b, best_x as int, best_y as int),
@ loop 1
  invariant x < width, y < height, width == image.w(), height == image.h(), x <= best_x, y <= best_y, best_x < x__, best_y < y__, best_x < width, best_y < height, mi == image.px(best_x as int, best_y as int).0@[0],
    end__1 == if x + radius + 1 < width { x + radius + 1 } else { width as int }, y <= cy < y__, cy < height, start__1 == x, best_y <= cy,
    forall|a: int, b: int| x <= a < x__ && a < width && y <= b < cy ==> !#[trigger] beats(image, a, b, best_x as int, best_y as int),
    forall|a: int| x <= a < cx ==> !#[trigger] beats(image, a, cy as int, best_x as int, best_y as int),
@ before best_x = cx;
   proof { let ox = best_x as int; let oy = best_y as int; let nx = cx as int; let ny = cy as int;
     assert(beats(image, nx, ny, ox, oy));
     assert forall|a: int, b: int| x <= a < x__ && a < width && y <= b < cy implies !#[trigger] beats(image, a, b, nx, ny) by { assert(!beats(image, a, b, ox, oy)); }
     assert forall|a: int| x <= a < cx implies !#[trigger] beats(image, a, ny, nx, ny) by { assert(!beats(image, a, ny, ox, oy)); } }
@ boolor
failed
@ before let x0 =
   let ghost before = out;
   let ghost bx = best_x as int; let ghost by = best_y as int;
@ after let mut failed = contains_greater_value(image, best_x, best_y, mi, y0, y1, x0, x3);
   let ghost f1 = failed;
@ before if !failed
   proof {
     assert(failed == !is_max(image, rad, bx, by)) by {
       if !failed {
         assert forall|a: int, b: int| image.inb(a, b) && bx - rad <= a <= bx + rad && by - rad <= b <= by + rad implies !#[trigger] beats(image, a, b, bx, by) by {
           if b < y1 { assert(x0 <= a < x3 && y0 <= b < y1); }
           else if b < y2 { if a < x1 { assert(x0 <= a < x1); } else if a >= x2 { assert(x2 <= a < x3); } else { assert(x <= a < x__ && y <= b < y__); } }
           else { assert(y2 <= b < y3 && x0 <= a < x3); }
         }
       } else {
         assert(exists|a: int, b: int| #[trigger] beats(image, a, b, bx, by) && image.inb(a, b) && bx - rad <= a <= bx + rad && by - rad <= b <= by + rad);
       }
     }
     // no other pixel of the block is a maximum: the best one beats it and lies within the radius
     assert forall|i: int, j: int| x <= i < x__ && y <= j < y__ && image.inb(i, j) && !(i == bx && j == by) implies !#[trigger] is_max(image, rad, i, j) by {
       assert(!beats(image, i, j, bx, by)); assert(beats(image, bx, by, i, j)); 
     }
   }
