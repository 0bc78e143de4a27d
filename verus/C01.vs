@@ include prelude.rs
@@ text
/// image::math::Rect
pub struct MRect { pub x: u32, pub y: u32, pub width: u32, pub height: u32 }

pub open spec fn is_rot180<P>(o: &Image<P>, n: &Image<P>) -> bool {
  n.w() == o.w() && n.h() == o.h()
  && forall|x: int, y: int| n.inb(x, y) ==> #[trigger] n.px(x, y) == o.px(o.w() - 1 - x, o.h() - 1 - y)
}
pub open spec fn is_fliph<P>(o: &Image<P>, n: &Image<P>) -> bool {
  n.w() == o.w() && n.h() == o.h()
  && forall|x: int, y: int| n.inb(x, y) ==> #[trigger] n.px(x, y) == o.px(o.w() - 1 - x, y)
}
pub open spec fn is_flipv<P>(o: &Image<P>, n: &Image<P>) -> bool {
  n.w() == o.w() && n.h() == o.h()
  && forall|x: int, y: int| n.inb(x, y) ==> #[trigger] n.px(x, y) == o.px(x, o.h() - 1 - y)
}
@@ fn compose.rs crop
@ sigsub rect: Rect =>> rect: MRect
@ spec
  requires rect.x + rect.width <= image.w(), rect.y + rect.height <= image.h(),
  ensures r.w() == rect.width, r.h() == rect.height,
    forall|x: int, y: int| 0 <= x < rect.width && 0 <= y < rect.height ==> #[trigger] r.px(x, y) == image.px(rect.x + x, rect.y + y),
@ subst
Image::from_fn(rect.width, rect.height, |x, y| {
        *image.get_pixel(rect.x + x, rect.y + y)
    })
=>> let out = Image::from_fn(rect.width, rect.height, 
  |x: u32, y: u32| -> (p: P) requires x < rect.width, y < rect.height ensures p == image.px(rect.x + x, rect.y + y) { *image.get_pixel(rect.x + x, rect.y + y) });
   proof { assert forall|x: int, y: int| 0 <= x < rect.width && 0 <= y < rect.height implies #[trigger] out.px(x, y) == image.px(rect.x + x, rect.y + y) by {
     let a = x as u32; let b = y as u32; assert(out.px(a as int, b as int) == image.px(rect.x + a, rect.y + b)); } }
   out
@@ fn compose.rs flip_horizontal_mut
@ spec
  ensures is_fliph(old(image), final(image)),
@ begin
  let ghost o = *image;
@ loop 0
  invariant image.w() == o.w(), image.h() == o.h(), end__0 == o.h(),
    forall|i: int, j: int| 0 <= i < o.w() && 0 <= j < y ==> #[trigger] image.px(i, j) == o.px(o.w() - 1 - i, j),
    forall|i: int, j: int| 0 <= i < o.w() && y <= j ==> #[trigger] image.px(i, j) == o.px(i, j),
@ loop 1
  invariant image.w() == o.w(), image.h() == o.h(), end__1 == o.w() / 2, 0 <= y < o.h(),
    forall|i: int, j: int| 0 <= i < o.w() && 0 <= j < y ==> #[trigger] image.px(i, j) == o.px(o.w() - 1 - i, j),
    forall|i: int, j: int| 0 <= i < o.w() && y < j ==> #[trigger] image.px(i, j) == o.px(i, j),
    forall|i: int| 0 <= i < o.w() && (i < x || i > o.w() - 1 - x) ==> #[trigger] image.px(i, y as int) == o.px(o.w() - 1 - i, y as int),
    forall|i: int| x <= i <= o.w() - 1 - x ==> #[trigger] image.px(i, y as int) == o.px(i, y as int),
@@ fn compose.rs flip_horizontal
@ spec
  ensures is_fliph(image, &r),
@@ fn compose.rs flip_vertical_mut
@ spec
  ensures is_flipv(old(image), final(image)),
@ begin
  let ghost o = *image;
@ loop 0
  invariant image.w() == o.w(), image.h() == o.h(), end__0 == o.h() / 2,
    forall|i: int, j: int| 0 <= i < o.w() && (0 <= j < y || o.h() - y <= j < o.h()) ==> #[trigger] image.px(i, j) == o.px(i, o.h() - 1 - j),
    forall|i: int, j: int| 0 <= i < o.w() && y <= j < o.h() - y ==> #[trigger] image.px(i, j) == o.px(i, j),
@ loop 1
  invariant image.w() == o.w(), image.h() == o.h(), end__1 == o.w(), 0 <= y < o.h() / 2,
    forall|i: int, j: int| 0 <= i < o.w() && (0 <= j < y || o.h() - y <= j < o.h()) ==> #[trigger] image.px(i, j) == o.px(i, o.h() - 1 - j),
    forall|i: int, j: int| 0 <= i < o.w() && y < j < o.h() - y - 1 ==> #[trigger] image.px(i, j) == o.px(i, j),
    forall|i: int, j: int| 0 <= i < x && (j == y || j == o.h() - 1 - y) ==> #[trigger] image.px(i, j) == o.px(i, o.h() - 1 - j),
    forall|i: int, j: int| x <= i < o.w() && (j == y || j == o.h() - 1 - y) ==> #[trigger] image.px(i, j) == o.px(i, j),
@@ fn compose.rs flip_vertical
@ spec
  ensures is_flipv(image, &r),
@@ fn geometric_transformations.rs rotate90
@ spec
  ensures r.w() == image.h(), r.h() == image.w(),
    forall|x: int, y: int| r.inb(x, y) ==> #[trigger] r.px(x, y) == image.px(y, image.h() - 1 - x),
@ loop 0
  invariant rotated.w() == height, rotated.h() == width, width == image.w(), height == image.h(),
    forall|i: int, j: int| height - y <= i < height && 0 <= j < width ==> #[trigger] rotated.px(i, j) == image.px(j, height - 1 - i),
@ loop 1
  invariant rotated.w() == height, rotated.h() == width, width == image.w(), height == image.h(), 0 <= y < height,
    forall|i: int, j: int| height - y <= i < height && 0 <= j < width ==> #[trigger] rotated.px(i, j) == image.px(j, height - 1 - i),
    forall|j: int| 0 <= j < x ==> #[trigger] rotated.px(height - 1 - y, j) == image.px(j, y as int),
@@ fn geometric_transformations.rs rotate270
@ spec
  ensures r.w() == image.h(), r.h() == image.w(),
    forall|x: int, y: int| r.inb(x, y) ==> #[trigger] r.px(x, y) == image.px(image.w() - 1 - y, x),
@ loop 0
  invariant rotated.w() == height, rotated.h() == width, width == image.w(), height == image.h(),
    forall|i: int, j: int| 0 <= i < y && 0 <= j < width ==> #[trigger] rotated.px(i, j) == image.px(width - 1 - j, i),
@ loop 1
  invariant rotated.w() == height, rotated.h() == width, width == image.w(), height == image.h(), 0 <= y < height,
    forall|i: int, j: int| 0 <= i < y && 0 <= j < width ==> #[trigger] rotated.px(i, j) == image.px(width - 1 - j, i),
    forall|j: int| width - x <= j < width ==> #[trigger] rotated.px(y as int, j) == image.px(width - 1 - j, y as int),
@@ fn geometric_transformations.rs rotate180_mut
@ spec
  ensures is_rot180(old(image), final(image)),
@ begin
  let ghost o = *image;
@ loop 0
  invariant image.w() == o.w(), image.h() == o.h(), width == o.w(), height == o.h(),
    forall|i: int, j: int| 0 <= i < o.w() && (0 <= j < y || o.h() - y <= j < o.h()) ==> #[trigger] image.px(i, j) == o.px(o.w() - 1 - i, o.h() - 1 - j),
    forall|i: int, j: int| 0 <= i < o.w() && y <= j < o.h() - y ==> #[trigger] image.px(i, j) == o.px(i, j),
@ loop 1
  invariant image.w() == o.w(), image.h() == o.h(), width == o.w(), height == o.h(), 0 <= y < o.h() / 2,
    forall|i: int, j: int| 0 <= i < o.w() && (0 <= j < y || o.h() - y <= j < o.h()) ==> #[trigger] image.px(i, j) == o.px(o.w() - 1 - i, o.h() - 1 - j),
    forall|i: int, j: int| 0 <= i < o.w() && y < j < o.h() - y - 1 ==> #[trigger] image.px(i, j) == o.px(i, j),
    forall|i: int, j: int| 0 <= i < x && j == y  ==> #[trigger] image.px(i, j) == o.px(o.w() - 1 - i, o.h() - 1 - j),
    forall|i: int, j: int| x <= i < o.w() && j == y  ==> #[trigger] image.px(i, j) == o.px(i, j),
    forall|i: int, j: int| o.w() - x <= i < o.w() && j == o.h() - 1 - y  ==> #[trigger] image.px(i, j) == o.px(o.w() - 1 - i, o.h() - 1 - j),
    forall|i: int, j: int| 0 <= i < o.w() - x && j == o.h() - 1 - y  ==> #[trigger] image.px(i, j) == o.px(i, j),
@ loop 2
  invariant image.w() == o.w(), image.h() == o.h(), width == o.w(), height == o.h(), y_middle == height / 2, height % 2 != 0,
    forall|i: int, j: int| 0 <= i < o.w() && 0 <= j < o.h() && j != y_middle ==> #[trigger] image.px(i, j) == o.px(o.w() - 1 - i, o.h() - 1 - j),
    forall|i: int| 0 <= i < o.w() && (i < x || i > o.w() - 1 - x) ==> #[trigger] image.px(i, y_middle as int) == o.px(o.w() - 1 - i, y_middle as int),
    forall|i: int| x <= i <= o.w() - 1 - x ==> #[trigger] image.px(i, y_middle as int) == o.px(i, y_middle as int),
@@ fn geometric_transformations.rs rotate180
@ spec
  ensures is_rot180(image, &r),
