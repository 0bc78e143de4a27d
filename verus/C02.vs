@@ include prelude.rs
@@ text
pub open spec fn covered<P>(bottom: &Image<P>, top: &Image<P>, x: u32, y: u32, i: int, j: int) -> bool {
  bottom.inb(i, j) && top.inb(i - x, j - y)
}
pub open spec fn is_replaced<P>(o: &Image<P>, top: &Image<P>, x: u32, y: u32, n: &Image<P>) -> bool {
  n.w() == o.w() && n.h() == o.h()
  && forall|i: int, j: int| n.inb(i, j) ==> #[trigger] n.px(i, j) == if covered(o, top, x, y, i, j) { top.px(i - x, j - y) } else { o.px(i, j) }
}
pub open spec fn is_overlaid<P>(o: &Image<P>, top: &Image<P>, x: u32, y: u32, n: &Image<P>) -> bool {
  n.w() == o.w() && n.h() == o.h()
  && forall|i: int, j: int| n.inb(i, j) ==> #[trigger] n.px(i, j) == if covered(o, top, x, y, i, j) { blended(o.px(i, j), top.px(i - x, j - y)) } else { o.px(i, j) }
}
@@ fn compose.rs replace_mut
@ spec
  requires x < old(bottom).w(), y < old(bottom).h(), x + top.w() <= u32::MAX, y + top.h() <= u32::MAX,
  ensures is_replaced(old(bottom), top, x, y, final(bottom)),
@ begin
  let ghost o = *bottom;
@ loop 0
  invariant bottom.w() == o.w(), bottom.h() == o.h(),
    forall|i: int, j: int| o.inb(i, j) ==> #[trigger] bottom.px(i, j) == if j < y_bot && covered(&o, top, x, y, i, j) { top.px(i - x, j - y) } else { o.px(i, j) },
@ loop 1
  invariant bottom.w() == o.w(), bottom.h() == o.h(),
    forall|i: int, j: int| o.inb(i, j) ==> #[trigger] bottom.px(i, j) == if (j < y_bot || (j == y_bot && i < x_bot)) && covered(&o, top, x, y, i, j) { top.px(i - x, j - y) } else { o.px(i, j) },
@@ fn compose.rs replace
@ spec
  requires x < bottom.w(), y < bottom.h(), x + top.w() <= u32::MAX, y + top.h() <= u32::MAX,
  ensures is_replaced(bottom, top, x, y, &r),
@@ fn compose.rs overlay_mut
@ spec
  requires x < old(bottom).w(), y < old(bottom).h(), x + top.w() <= u32::MAX, y + top.h() <= u32::MAX,
  ensures is_overlaid(old(bottom), top, x, y, final(bottom)),
@ begin
  let ghost o = *bottom;
@ loop 0
  invariant bottom.w() == o.w(), bottom.h() == o.h(),
    forall|i: int, j: int| o.inb(i, j) ==> #[trigger] bottom.px(i, j) == if j < y_bot && covered(&o, top, x, y, i, j) { blended(o.px(i, j), top.px(i - x, j - y)) } else { o.px(i, j) },
@ loop 1
  invariant bottom.w() == o.w(), bottom.h() == o.h(),
    forall|i: int, j: int| o.inb(i, j) ==> #[trigger] bottom.px(i, j) == if (j < y_bot || (j == y_bot && i < x_bot)) && covered(&o, top, x, y, i, j) { blended(o.px(i, j), top.px(i - x, j - y)) } else { o.px(i, j) },
@@ fn compose.rs overlay
@ spec
  requires x < bottom.w(), y < bottom.h(), x + top.w() <= u32::MAX, y + top.h() <= u32::MAX,
  ensures is_overlaid(bottom, top, x, y, &r),
