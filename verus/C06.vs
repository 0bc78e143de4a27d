@@ include prelude.rs
@@ text
impl<T: Primitive> Image<Luma<T>> {
    /// `&(**image)[start..][..len]`: a slice of the flat row-major sample buffer
    #[verifier::external_body]
    pub fn raw_range(&self, start: usize, len: usize) -> (r: &[T]) requires start + len <= self.np()
      ensures r@.len() == len, forall|i: int| 0 <= i < len ==> #[trigger] r@[i] == self.pk(start + i).0@[0] { unimplemented!() }
}
pub open spec fn cl(v: int, n: int) -> int { if v < 0 { 0 } else if v >= n { n - 1 } else { v } }
/// sum of f over [a, b)
pub open spec fn ssum(f: spec_fn(int) -> int, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { ssum(f, a, b - 1) + f(b - 1) } }
pub proof fn lemma_split(f: spec_fn(int) -> int, a: int, b: int, c: int)
  requires a <= b <= c ensures ssum(f, a, c) == ssum(f, a, b) + ssum(f, b, c) decreases c - b
{ if b < c { lemma_split(f, a, b, c - 1); } }
pub proof fn lemma_ext(f: spec_fn(int) -> int, g: spec_fn(int) -> int, a: int, b: int)
  requires forall|i: int| a <= i < b ==> #[trigger] f(i) == g(i) ensures ssum(f, a, b) == ssum(g, a, b) decreases b - a
{ if a < b { lemma_ext(f, g, a, b - 1); } }
pub proof fn lemma_bound(f: spec_fn(int) -> int, a: int, b: int)
  requires a <= b, forall|i: int| a <= i < b ==> 0 <= #[trigger] f(i) <= 255 ensures 0 <= ssum(f, a, b) <= 255 * (b - a) decreases b - a
{ if a < b { lemma_bound(f, a, b - 1); } }
/// row y (column x) extended on both sides by repeating its end pixels
pub open spec fn rowf(im: &GrayImage, y: int) -> spec_fn(int) -> int { |i: int| im.px(cl(i, im.w() as int), y).0@[0] as int }
pub open spec fn colf(im: &GrayImage, x: int) -> spec_fn(int) -> int { |j: int| im.px(x, cl(j, im.h() as int)).0@[0] as int }
pub open spec fn hbox(im: &GrayImage, rx: int, x: int, y: int) -> int { ssum(rowf(im, y), x - rx, x + rx + 1) / (2 * rx + 1) }
pub open spec fn hboxf(im: &GrayImage, rx: int, x: int) -> spec_fn(int) -> int { |j: int| hbox(im, rx, x, cl(j, im.h() as int)) }
pub open spec fn box_px(im: &GrayImage, rx: int, ry: int, x: int, y: int) -> int { ssum(hboxf(im, rx, x), y - ry, y + ry + 1) / (2 * ry + 1) }
/// b[i] is the total of all (extended) pixels up to position i - padding
pub open spec fn running(b: Seq<u32>, f: spec_fn(int) -> int, padding: int) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == ssum(f, -padding, i + 1 - padding) }
pub proof fn lemma_div255(s: int, k: int) requires 0 <= s <= 255 * k, k > 0 ensures 0 <= s / k <= 255
{ assert(0 <= s / k <= 255) by(nonlinear_arith) requires 0 <= s <= 255 * k, k > 0; }
pub proof fn lemma_hbox(im: &GrayImage, rx: int, x: int, y: int) requires rx >= 0 ensures 0 <= hbox(im, rx, x, y) <= 255
{ lemma_bound(rowf(im, y), x - rx, x + rx + 1); lemma_div255(ssum(rowf(im, y), x - rx, x + rx + 1), 2 * rx + 1); }
@@ fn integral_image.rs row_running_sum
@ spec
  requires row < image.h(), image.w() > 0, old(buffer)@.len() >= image.w() + 2 * padding, old(buffer)@.len() * 255 <= u32::MAX,
  ensures final(buffer)@.len() == old(buffer)@.len(), running(final(buffer)@, rowf(image, row as int), padding as int),
@ subst
let row_data = &(**image)[width * row as usize..][..width];
=>> proof { ax_image_fits(image); assert(width * row + width <= width * height && width * row >= 0) by(nonlinear_arith) requires row < height, width >= 0, row >= 0; }
    let ghost f = rowf(image, row as int); let ghost pad = padding as int;
    let row_data = image.raw_range(width * row as usize, width);
    proof { assert forall|i: int| 0 <= i < width implies #[trigger] row_data@[i] == image.px(i, row as int).0@[0] by { lemma_pk(image, i, row as int); assert(width * row == row * image.w()) by(nonlinear_arith) requires width == image.w(); } }
@ subst
let mut sum = 0;
=>> let mut sum: u32 = 0;
@ subst
for b in &mut buffer[..padding] {
=>> let end__0 = padding; for i__ in 0..end__0
   invariant buffer@.len() == old(buffer)@.len(), sum == ssum(f, -pad, i__ - pad), first == image.px(0, row as int).0@[0], end__0 == padding,
     forall|i: int| 0 <= i < i__ ==> #[trigger] buffer@[i] == ssum(f, -pad, i + 1 - pad),
 { proof { lemma_bound(f, -pad, i__ - pad); assert(f(i__ - pad) == first); }
   let b = &mut buffer[i__];
@ subst
for (b, p) in buffer[padding..].iter_mut().zip(row_data) {
=>> let end__1 = if buffer.len() - padding < row_data.len() { buffer.len() - padding } else { row_data.len() };
 for i__ in 0..end__1
   invariant buffer@.len() == old(buffer)@.len(), sum == ssum(f, -pad, i__ as int), end__1 == width,
     forall|i: int| 0 <= i < i__ + padding ==> #[trigger] buffer@[i] == ssum(f, -pad, i + 1 - pad),
 { proof { lemma_bound(f, -pad, i__ as int); assert(f(i__ as int) == row_data@[i__ as int]); }
   let p = &row_data[i__]; let b = &mut buffer[i__ + padding];
@ subst
for b in &mut buffer[padding + width..] {
=>> let end__2 = buffer.len() - (padding + width);
 for i__ in 0..end__2
   invariant buffer@.len() == old(buffer)@.len(), sum == ssum(f, -pad, i__ + width), end__2 == buffer@.len() - (padding + width), last == image.px(width - 1, row as int).0@[0],
     forall|i: int| 0 <= i < i__ + padding + width ==> #[trigger] buffer@[i] == ssum(f, -pad, i + 1 - pad),
 { proof { lemma_bound(f, -pad, i__ + width); assert(f(i__ + width) == last); }
   let b = &mut buffer[i__ + (padding + width)];
@@ fn integral_image.rs column_running_sum
@ spec
  requires column < image.w(), image.h() > 0, old(buffer)@.len() >= image.h() + 2 * padding, old(buffer)@.len() * 255 <= u32::MAX,
  ensures final(buffer)@.len() == old(buffer)@.len(), running(final(buffer)@, colf(image, column as int), padding as int),
@ subst
let mut sum = 0;
=>> let mut sum: u32 = 0;
    let ghost f = colf(image, column as int); let ghost pad = padding as int;
@ subst
for b in &mut buffer[..padding as usize] {
=>> let e_0 = padding as usize; for i__ in 0..e_0
   invariant buffer@.len() == old(buffer)@.len(), sum == ssum(f, -pad, i__ - pad), first == image.px(column as int, 0).0@[0], e_0 == padding,
     forall|i: int| 0 <= i < i__ ==> #[trigger] buffer@[i] == ssum(f, -pad, i + 1 - pad),
 { proof { lemma_bound(f, -pad, i__ - pad); assert(f(i__ - pad) == first); }
   let b = &mut buffer[i__];
@ subst
*buffer.get_unchecked_mut(y as usize + padding as usize) = sum;
=>> buffer[y as usize + padding as usize] = sum;
@ loops 1
@ loop 0
   invariant buffer@.len() == old(buffer)@.len(), sum == ssum(f, -pad, y as int), end__0 == height,
     forall|i: int| 0 <= i < y + padding ==> #[trigger] buffer@[i] == ssum(f, -pad, i + 1 - pad),
@ loop 0 begin
  proof { lemma_bound(f, -pad, y as int); assert(f(y as int) == image.px(column as int, y as int).0@[0]); }
@ subst
for b in &mut buffer[padding as usize + height as usize..] {
=>> let e_2 = buffer.len() - (padding as usize + height as usize);
 for i__ in 0..e_2
   invariant buffer@.len() == old(buffer)@.len(), sum == ssum(f, -pad, i__ + height), e_2 == buffer@.len() - (padding + height), last == image.px(column as int, height - 1).0@[0],
     forall|i: int| 0 <= i < i__ + padding + height ==> #[trigger] buffer@[i] == ssum(f, -pad, i + 1 - pad),
 { proof { lemma_bound(f, -pad, i__ + height); assert(f(i__ + height) == last); }
   let b = &mut buffer[i__ + (padding as usize + height as usize)];
@@ fn filter/box_filter.rs box_filter
@ opts
#[verifier::rlimit(60)]
#[verifier::loop_isolation(false)]
@ spec
  requires (image.w() + 2 * x_radius + 1) * 255 <= u32::MAX, (image.h() + 2 * y_radius + 1) * 255 <= u32::MAX,
  ensures r.w() == image.w(), r.h() == image.h(),
    forall|x: int, y: int| r.inb(x, y) ==> (#[trigger] r.px(x, y)).0@[0] == box_px(image, x_radius as int, y_radius as int, x, y),
@ subst
row_running_sum(image, y, &mut row_buffer, x_radius);
=>> row_running_sum(image, y, row_buffer.as_mut_slice(), x_radius);
@ subst
column_running_sum(&out, x, &mut col_buffer, y_radius);
=>> column_running_sum(&out, x, col_buffer.as_mut_slice(), y_radius);
@ subst
let mut row_buffer = vec![0;
=>> let mut row_buffer: Vec<u32> = vec![0u32;
@ subst
let mut col_buffer = vec![0;
=>> let mut col_buffer: Vec<u32> = vec![0u32;
@ loops 4
@ loop 0
  invariant out.w() == width, out.h() == height, end__0 == height, row_buffer@.len() == width + 2 * x_radius,
     forall|i: int, j: int| 0 <= i < width && 0 <= j < y ==> (#[trigger] out.px(i, j)).0@[0] == hbox(image, x_radius as int, i, j),
@ before let val = row_buffer[(2 * x_radius) as usize]
   let ghost f = rowf(image, y as int); let ghost rx = x_radius as int;
   proof { lemma_hbox(image, x_radius as int, 0, y as int); }
@ loop 1
  invariant out.w() == width, out.h() == height, end__1 == width, 0 <= y < height, row_buffer@.len() == width + 2 * x_radius, running(row_buffer@, f, rx), f == rowf(image, y as int),
     forall|i: int, j: int| 0 <= i < width && 0 <= j < y ==> (#[trigger] out.px(i, j)).0@[0] == hbox(image, x_radius as int, i, j),
     forall|i: int| 0 <= i < x ==> (#[trigger] out.px(i, y as int)).0@[0] == hbox(image, x_radius as int, i, y as int),
@ loop 1 begin
   proof { lemma_split(f, -rx, x - rx, x + rx + 1); lemma_bound(f, x - rx, x + rx + 1); lemma_hbox(image, rx, x as int, y as int); 
     assert(row_buffer@[x - 1] == ssum(f, -rx, x - rx)); assert(row_buffer@[x + 2 * rx] == ssum(f, -rx, x + rx + 1)); }
@ before let mut col_buffer
  let ghost mid = out;
  let ghost ry = y_radius as int;
@ loop 2
  invariant out.w() == width, out.h() == height, end__2 == width, col_buffer@.len() == height + 2 * y_radius,
     forall|i: int, j: int| 0 <= i < x && 0 <= j < height ==> (#[trigger] out.px(i, j)).0@[0] == box_px(image, x_radius as int, y_radius as int, i, j),
     forall|i: int, j: int| x <= i < width && 0 <= j < height ==> (#[trigger] out.px(i, j)) == mid.px(i, j),
@ before let val = col_buffer[(2 * y_radius) as usize]
   let ghost g = colf(&out, x as int);
   proof { assert forall|a: int, b: int| #![trigger ssum(g, a, b)] ssum(g, a, b) == ssum(hboxf(image, x_radius as int, x as int), a, b) by { 
        assert forall|j: int| a <= j < b implies #[trigger] g(j) == hboxf(image, x_radius as int, x as int)(j) by { let q = cl(j, height as int); assert(out.px(x as int, q) == mid.px(x as int, q)); }
        lemma_ext(g, hboxf(image, x_radius as int, x as int), a, b); }
     lemma_bound(g, -ry, ry + 1); lemma_div255(ssum(g, -ry, ry + 1), 2 * ry + 1); assert(col_buffer@[2 * ry] == ssum(g, -ry, ry + 1)); }
@ loop 3
  invariant out.w() == width, out.h() == height, end__3 == height, 0 <= x < width, col_buffer@.len() == height + 2 * y_radius, running(col_buffer@, g, ry),
     forall|a: int, b: int| #![trigger ssum(g, a, b)] ssum(g, a, b) == ssum(hboxf(image, x_radius as int, x as int), a, b),
     forall|j: int| 0 <= #[trigger] g(j) <= 255,
     forall|i: int, j: int| 0 <= i < x && 0 <= j < height ==> (#[trigger] out.px(i, j)).0@[0] == box_px(image, x_radius as int, y_radius as int, i, j),
     forall|j: int| 0 <= j < y ==> (#[trigger] out.px(x as int, j)).0@[0] == box_px(image, x_radius as int, y_radius as int, x as int, j),
     forall|i: int, j: int| x < i < width && 0 <= j < height ==> (#[trigger] out.px(i, j)) == mid.px(i, j),
@ loop 3 begin
   proof { lemma_split(g, -ry, y - ry, y + ry + 1); lemma_bound(g, y - ry, y + ry + 1); lemma_div255(ssum(g, y - ry, y + ry + 1), 2 * ry + 1);
     assert(col_buffer@[y - 1] == ssum(g, -ry, y - ry)); assert(col_buffer@[y + 2 * ry] == ssum(g, -ry, y + ry + 1)); }
