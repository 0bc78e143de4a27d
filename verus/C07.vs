@@ include prelude.rs
@@ text
pub open spec fn cl(v: int, n: int) -> int { if v < 0 { 0 } else if v >= n { n - 1 } else { v } }
/// 1 if channel c of pixel (x, y) holds v
pub open spec fn pxi<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, x: int, y: int) -> int { if im.px(x, y).ch()[c] == v { 1 } else { 0 } }
/// the same for an arbitrary position, the image being continued by its border pixels
pub open spec fn ind<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a: int, b: int) -> int { pxi(im, c, v, cl(a, im.w() as int), cl(b, im.h() as int)) }
/// how many of the samples (a, b), a0 <= a < a1, hold v
pub open spec fn row<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a0: int, a1: int, b: int) -> int decreases a1 - a0
{ if a1 <= a0 { 0 } else { row(im, c, v, a0, a1 - 1, b) + ind(im, c, v, a1 - 1, b) } }
/// how many of the samples (a, b), b0 <= b < b1, hold v
pub open spec fn col<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a: int, b0: int, b1: int) -> int decreases b1 - b0
{ if b1 <= b0 { 0 } else { col(im, c, v, a, b0, b1 - 1) + ind(im, c, v, a, b1 - 1) } }
/// how many samples of the window [a0, a1) x [b0, b1) hold v in channel c
pub open spec fn cnt<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a0: int, a1: int, b0: int, b1: int) -> int decreases b1 - b0
{ if b1 <= b0 { 0 } else { cnt(im, c, v, a0, a1, b0, b1 - 1) + row(im, c, v, a0, a1, b1 - 1) } }
/// how many samples of the window hold a value below k
pub open spec fn below<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, k: int, a0: int, a1: int, b0: int, b1: int) -> int decreases k
{ if k <= 0 { 0 } else { below(im, c, k - 1, a0, a1, b0, b1) + cnt(im, c, k - 1, a0, a1, b0, b1) } }
/// m is the median of the (odd number of) samples of the window around (x, y): at least half are <= m, and less than half are < m
pub open spec fn is_median<P: Pixel<Subpixel = u8>>(im: &Image<P>, rx: int, ry: int, x: int, y: int, c: int, m: u8) -> bool {
  2 * below(im, c, m + 1, x - rx, x + rx + 1, y - ry, y + ry + 1) >= (2 * rx + 1) * (2 * ry + 1)
  && 2 * below(im, c, m as int, x - rx, x + rx + 1, y - ry, y + ry + 1) < (2 * rx + 1) * (2 * ry + 1)
}
pub open spec fn pix_median<P: Pixel<Subpixel = u8>>(im: &Image<P>, rx: int, ry: int, x: int, y: int, p: P) -> bool {
  forall|c: int| 0 <= c < P::cc() ==> is_median(im, rx, ry, x, y, c, #[trigger] p.ch()[c])
}
// ---- counting lemmas
pub proof fn lemma_row_pos<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a0: int, a1: int, b: int)
  requires a0 <= a1 ensures 0 <= row(im, c, v, a0, a1, b) <= a1 - a0 decreases a1 - a0
{ if a0 < a1 { lemma_row_pos(im, c, v, a0, a1 - 1, b); } }
pub proof fn lemma_row_split<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a0: int, m: int, a1: int, b: int)
  requires a0 <= m <= a1 ensures row(im, c, v, a0, a1, b) == row(im, c, v, a0, m, b) + row(im, c, v, m, a1, b) decreases a1 - m
{ if m < a1 { lemma_row_split(im, c, v, a0, m, a1 - 1, b); } }
pub proof fn lemma_col_pos<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a: int, b0: int, b1: int)
  requires b0 <= b1 ensures 0 <= col(im, c, v, a, b0, b1) <= b1 - b0 decreases b1 - b0
{ if b0 < b1 { lemma_col_pos(im, c, v, a, b0, b1 - 1); } }
pub proof fn lemma_col_split<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a: int, b0: int, m: int, b1: int)
  requires b0 <= m <= b1 ensures col(im, c, v, a, b0, b1) == col(im, c, v, a, b0, m) + col(im, c, v, a, m, b1) decreases b1 - m
{ if m < b1 { lemma_col_split(im, c, v, a, b0, m, b1 - 1); } }
pub proof fn lemma_cnt_pos<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a0: int, a1: int, b0: int, b1: int)
  requires a0 <= a1, b0 <= b1 ensures 0 <= cnt(im, c, v, a0, a1, b0, b1) <= (a1 - a0) * (b1 - b0) decreases b1 - b0
{ if b0 < b1 { lemma_cnt_pos(im, c, v, a0, a1, b0, b1 - 1); lemma_row_pos(im, c, v, a0, a1, b1 - 1);
    assert((a1 - a0) * (b1 - b0) == (a1 - a0) * (b1 - 1 - b0) + (a1 - a0)) by(nonlinear_arith); }
  else { assert((a1 - a0) * (b1 - b0) == 0) by(nonlinear_arith) requires b1 == b0; } }
/// dropping the first row of a window
pub proof fn lemma_cnt_top<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a0: int, a1: int, b0: int, b1: int)
  requires b0 < b1 ensures cnt(im, c, v, a0, a1, b0, b1) == row(im, c, v, a0, a1, b0) + cnt(im, c, v, a0, a1, b0 + 1, b1) decreases b1 - b0
{ if b0 + 1 < b1 { lemma_cnt_top(im, c, v, a0, a1, b0, b1 - 1); } else { assert(cnt(im, c, v, a0, a1, b0, b1 - 1) == 0); assert(cnt(im, c, v, a0, a1, b0 + 1, b1) == 0); } }
/// splitting off the last and the first column
pub proof fn lemma_cnt_right<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a0: int, a1: int, b0: int, b1: int)
  requires a0 < a1 ensures cnt(im, c, v, a0, a1, b0, b1) == cnt(im, c, v, a0, a1 - 1, b0, b1) + col(im, c, v, a1 - 1, b0, b1) decreases b1 - b0
{ if b0 < b1 { lemma_cnt_right(im, c, v, a0, a1, b0, b1 - 1); } }
pub proof fn lemma_cnt_left<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a0: int, a1: int, b0: int, b1: int)
  requires a0 < a1 ensures cnt(im, c, v, a0, a1, b0, b1) == col(im, c, v, a0, b0, b1) + cnt(im, c, v, a0 + 1, a1, b0, b1) decreases b1 - b0
{ if b0 < b1 { lemma_cnt_left(im, c, v, a0, a1, b0, b1 - 1); lemma_row_split(im, c, v, a0, a0 + 1, a1, b1 - 1);
     assert(row(im, c, v, a0, a0 + 1, b1 - 1) == row(im, c, v, a0, a0, b1 - 1) + ind(im, c, v, a0, b1 - 1)); assert(row(im, c, v, a0, a0, b1 - 1) == 0); } }
// every sample has exactly one value
pub open spec fn ind_sum<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, k: int, a: int, b: int) -> int decreases k { if k <= 0 { 0 } else { ind_sum(im, c, k - 1, a, b) + ind(im, c, k - 1, a, b) } }
pub open spec fn row_sum<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, k: int, a0: int, a1: int, b: int) -> int decreases k { if k <= 0 { 0 } else { row_sum(im, c, k - 1, a0, a1, b) + row(im, c, k - 1, a0, a1, b) } }
pub proof fn lemma_ind_sum<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, k: int, a: int, b: int)
  requires 0 <= k ensures ind_sum(im, c, k, a, b) == if im.px(cl(a, im.w() as int), cl(b, im.h() as int)).ch()[c] < k { 1int } else { 0int } decreases k
{ if k > 0 { lemma_ind_sum(im, c, k - 1, a, b); } }
pub proof fn lemma_row_sum<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, k: int, a0: int, a1: int, b: int)
  requires a0 <= a1 ensures row_sum(im, c, k, a0, a1, b) == if a0 == a1 { 0 } else { row_sum(im, c, k, a0, a1 - 1, b) + ind_sum(im, c, k, a1 - 1, b) } decreases k
{ if k > 0 { lemma_row_sum(im, c, k - 1, a0, a1, b); } }
pub proof fn lemma_row_full<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, a0: int, a1: int, b: int)
  requires a0 <= a1 ensures row_sum(im, c, 256, a0, a1, b) == a1 - a0 decreases a1 - a0
{ lemma_row_sum(im, c, 256, a0, a1, b); if a0 < a1 { lemma_row_full(im, c, a0, a1 - 1, b); lemma_ind_sum(im, c, 256, a1 - 1, b); } }
pub proof fn lemma_below_step<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, k: int, a0: int, a1: int, b0: int, b1: int)
  requires b0 <= b1 ensures below(im, c, k, a0, a1, b0, b1) == if b0 == b1 { 0 } else { below(im, c, k, a0, a1, b0, b1 - 1) + row_sum(im, c, k, a0, a1, b1 - 1) } decreases k
{ if k > 0 { lemma_below_step(im, c, k - 1, a0, a1, b0, b1); } }
pub proof fn lemma_below_full<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, a0: int, a1: int, b0: int, b1: int)
  requires a0 <= a1, b0 <= b1 ensures below(im, c, 256, a0, a1, b0, b1) == (a1 - a0) * (b1 - b0) decreases b1 - b0
{ lemma_below_step(im, c, 256, a0, a1, b0, b1);
  if b0 < b1 { lemma_below_full(im, c, a0, a1, b0, b1 - 1); lemma_row_full(im, c, a0, a1, b1 - 1); assert((a1 - a0) * (b1 - b0) == (a1 - a0) * (b1 - 1 - b0) + (a1 - a0)) by(nonlinear_arith); }
  else { assert((a1 - a0) * (b1 - b0) == 0) by(nonlinear_arith) requires b1 == b0; } }
// ---- histograms
pub open spec fn cum(h: Seq<u32>, k: int) -> int decreases k { if k <= 0 { 0 } else { cum(h, k - 1) + h[k - 1] } }
pub proof fn lemma_cum_mono(h: Seq<u32>, j: int, k: int) requires 0 <= j <= k ensures 0 <= cum(h, j) <= cum(h, k) decreases k
{ if j < k { lemma_cum_mono(h, j, k - 1); } else if 0 < j { lemma_cum_mono(h, j - 1, k - 1); } }
pub proof fn lemma_cum_below<P: Pixel<Subpixel = u8>>(h: Seq<u32>, im: &Image<P>, c: int, k: int, a0: int, a1: int, b0: int, b1: int)
  requires 0 <= k <= 256, forall|v: int| 0 <= v < 256 ==> #[trigger] h[v] == cnt(im, c, v, a0, a1, b0, b1)
  ensures cum(h, k) == below(im, c, k, a0, a1, b0, b1) decreases k
{ if k > 0 { lemma_cum_below(h, im, c, k - 1, a0, a1, b0, b1); } }
/// the histograms hold exactly the samples of the window
pub open spec fn holds<P: Pixel<Subpixel = u8>>(hs: &HistSet, im: &Image<P>, a0: int, a1: int, b0: int, b1: int) -> bool {
  hs.data@.len() == P::cc() && forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> #[trigger] hs.data@[c]@[v] == cnt(im, c, v, a0, a1, b0, b1)
}
pub open spec fn win<P: Pixel<Subpixel = u8>>(hs: &HistSet, im: &Image<P>, rx: int, ry: int, x: int, y: int) -> bool {
  holds(hs, im, x - rx, x + rx + 1, y - ry, y + ry + 1) && hs.expected_count == (2 * rx + 1) * (2 * ry + 1)
}
/// within the documented domain the number of samples fits in 31 bits
pub open spec fn dom(w: int, h: int, rx: int, ry: int) -> bool {
  0 <= rx && 0 <= ry && 0 < w && 0 < h && w + rx <= i32::MAX && h + ry <= i32::MAX && (2 * rx + 1) * (2 * ry + 1) <= i32::MAX
}
/// while the window moves one column right: samples of the old column up to row d have been replaced by those of the new column
pub open spec fn mid_col<P: Pixel<Subpixel = u8>>(hs: &HistSet, im: &Image<P>, x: int, y: int, rx: int, ry: int, d: int) -> bool {
  hs.data@.len() == P::cc() && hs.expected_count == (2 * rx + 1) * (2 * ry + 1) && forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==>
    #[trigger] hs.data@[c]@[v] == cnt(im, c, v, x - rx, x + rx + 1, y - ry, y + ry + 1) - col(im, c, v, x - rx, y - ry, d) + col(im, c, v, x + rx + 1, y - ry, d)
}
/// while the window [b0, b1) moves one row: samples of row bp up to column d have been replaced by those of row bn
pub open spec fn mid_row<P: Pixel<Subpixel = u8>>(hs: &HistSet, im: &Image<P>, x: int, b0: int, b1: int, bp: int, bn: int, rx: int, d: int) -> bool {
  hs.data@.len() == P::cc() && hs.expected_count == (2 * rx + 1) * (b1 - b0) && forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==>
    #[trigger] hs.data@[c]@[v] == cnt(im, c, v, x - rx, x + rx + 1, b0, b1) - row(im, c, v, x - rx, d, bp) + row(im, c, v, x - rx, d, bn)
}
/// bounds that make the next decr and incr legal
pub proof fn lemma_col_bounds<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a0: int, a1: int, b0: int, d: int, b1: int)
  requires a0 < a1, b0 <= d < b1
  ensures ind(im, c, v, a0, d) <= cnt(im, c, v, a0, a1, b0, b1) - col(im, c, v, a0, b0, d), cnt(im, c, v, a0, a1, b0, b1) <= (a1 - a0) * (b1 - b0),
    0 <= col(im, c, v, a0, b0, d), 0 <= col(im, c, v, a1, b0, d) <= d - b0
{ lemma_cnt_left(im, c, v, a0, a1, b0, b1); lemma_cnt_pos(im, c, v, a0 + 1, a1, b0, b1); lemma_cnt_pos(im, c, v, a0, a1, b0, b1); lemma_col_split(im, c, v, a0, b0, d, b1); lemma_col_split(im, c, v, a0, d, d + 1, b1);
  lemma_col_pos(im, c, v, a0, d + 1, b1); lemma_col_pos(im, c, v, a0, b0, d); lemma_col_pos(im, c, v, a1, b0, d); assert(col(im, c, v, a0, d, d) == 0); }
pub proof fn lemma_row_bounds<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, a0: int, d: int, a1: int, b0: int, b1: int, bp: int, bn: int)
  requires a0 <= d < a1, b0 < b1, bp == b0 || bp == b1 - 1
  ensures ind(im, c, v, d, bp) <= cnt(im, c, v, a0, a1, b0, b1) - row(im, c, v, a0, d, bp), cnt(im, c, v, a0, a1, b0, b1) <= (a1 - a0) * (b1 - b0),
    0 <= row(im, c, v, a0, d, bp), 0 <= row(im, c, v, a0, d, bn) <= d - a0
{ if bp == b0 { lemma_cnt_top(im, c, v, a0, a1, b0, b1); lemma_cnt_pos(im, c, v, a0, a1, b0 + 1, b1); } else { lemma_cnt_pos(im, c, v, a0, a1, b0, b1 - 1); }
  lemma_cnt_pos(im, c, v, a0, a1, b0, b1); lemma_row_split(im, c, v, a0, d, a1, bp); lemma_row_split(im, c, v, d, d + 1, a1, bp);
  lemma_row_pos(im, c, v, d + 1, a1, bp); lemma_row_pos(im, c, v, a0, d, bp); lemma_row_pos(im, c, v, a0, d, bn); assert(row(im, c, v, d, d, bp) == 0); }
/// the column written so far
pub open spec fn done<P: Pixel<Subpixel = u8>>(im: &Image<P>, out: &Image<P>, rx: int, ry: int, x: int, y: int) -> bool { pix_median(im, rx, ry, x, y, out.px(x, y)) }
pub proof fn lemma_area(rx: int, ry: int) requires rx >= 0, ry >= 0 ensures (2 * rx + 1) * (2 * ry + 1) >= 2 * rx + 1, (2 * rx + 1) * (2 * ry + 1) >= 2 * ry + 1
{ assert((2 * rx + 1) * (2 * ry + 1) >= 2 * rx + 1 && (2 * rx + 1) * (2 * ry + 1) >= 2 * ry + 1) by(nonlinear_arith) requires rx >= 0, ry >= 0; }
pub proof fn lemma_mid_row_bounds<P: Pixel<Subpixel = u8>>(hs: &HistSet, im: &Image<P>, x: int, b0: int, b1: int, bp: int, bn: int, rx: int, d: int)
  requires mid_row(hs, im, x, b0, b1, bp, bn, rx, d), 0 <= rx, x - rx <= d < x + rx + 1, b0 < b1, bp == b0 || bp == b1 - 1, (2 * rx + 1) * (b1 - b0) <= i32::MAX
  ensures forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> ind(im, c, v, d, bp) <= #[trigger] hs.data@[c]@[v] && hs.data@[c]@[v] - ind(im, c, v, d, bp) < u32::MAX
{ assert((2 * rx + 1) * (b1 - b0) >= 2 * rx + 1) by(nonlinear_arith) requires rx >= 0, b1 - b0 >= 1;
  assert forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 implies ind(im, c, v, d, bp) <= #[trigger] hs.data@[c]@[v] && hs.data@[c]@[v] - ind(im, c, v, d, bp) < u32::MAX by { lemma_row_bounds(im, c, v, x - rx, d, x + rx + 1, b0, b1, bp, bn); } }
pub proof fn lemma_mid_col_bounds<P: Pixel<Subpixel = u8>>(hs: &HistSet, im: &Image<P>, x: int, y: int, rx: int, ry: int, d: int)
  requires mid_col(hs, im, x, y, rx, ry, d), 0 <= rx, 0 <= ry, y - ry <= d < y + ry + 1, (2 * rx + 1) * (2 * ry + 1) <= i32::MAX
  ensures forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> ind(im, c, v, x - rx, d) <= #[trigger] hs.data@[c]@[v] && hs.data@[c]@[v] - ind(im, c, v, x - rx, d) < u32::MAX
{ lemma_area(rx, ry);
  assert forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 implies ind(im, c, v, x - rx, d) <= #[trigger] hs.data@[c]@[v] && hs.data@[c]@[v] - ind(im, c, v, x - rx, d) < u32::MAX by { lemma_col_bounds(im, c, v, x - rx, x + rx + 1, y - ry, d, y + ry + 1); } }
/// a full histogram yields the window's median
pub proof fn lemma_full<P: Pixel<Subpixel = u8>>(hs: &HistSet, im: &Image<P>, rx: int, ry: int, x: int, y: int)
  requires win(hs, im, rx, ry, x, y), rx >= 0, ry >= 0, (2 * rx + 1) * (2 * ry + 1) <= i32::MAX
  ensures forall|c: int| 0 <= c < P::cc() ==> hs.expected_count <= 2 * cum((#[trigger] hs.data@[c])@, 256) <= u32::MAX,
{ lemma_area(rx, ry);
  assert forall|c: int| 0 <= c < P::cc() implies hs.expected_count <= 2 * cum((#[trigger] hs.data@[c])@, 256) <= u32::MAX by {
    lemma_cum_below(hs.data@[c]@, im, c, 256, x - rx, x + rx + 1, y - ry, y + ry + 1); lemma_below_full(im, c, x - rx, x + rx + 1, y - ry, y + ry + 1); } }
pub proof fn lemma_med<P: Pixel<Subpixel = u8>>(hs: &HistSet, im: &Image<P>, rx: int, ry: int, x: int, y: int, p: P)
  requires win(hs, im, rx, ry, x, y), rx >= 0, ry >= 0,
    forall|c: int| 0 <= c < P::cc() ==> { let m = #[trigger] p.ch()[c]; let h = hs.data@[c]@; 2 * cum(h, m + 1) >= hs.expected_count && (m == 0 || 2 * cum(h, m as int) < hs.expected_count) },
  ensures pix_median(im, rx, ry, x, y, p)
{ lemma_area(rx, ry);
  assert forall|c: int| 0 <= c < P::cc() implies is_median(im, rx, ry, x, y, c, #[trigger] p.ch()[c]) by {
    let m = p.ch()[c]; let h = hs.data@[c]@;
    lemma_cum_below(h, im, c, m + 1, x - rx, x + rx + 1, y - ry, y + ry + 1); lemma_cum_below(h, im, c, m as int, x - rx, x + rx + 1, y - ry, y + ry + 1); } }
@@ struct filter/median.rs HistSet
@@ fn filter/median.rs HistSet::new
@ spec
  ensures r.expected_count == expected_count, r.data@.len() == num_channels, forall|c: int, v: int| 0 <= c < num_channels && 0 <= v < 256 ==> #[trigger] r.data@[c]@[v] == 0,
@@ fn filter/median.rs HistSet::incr
@ unchecked
@ spec
  requires x < image.w(), y < image.h(), old(self).data@.len() == P::cc(),
    forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> #[trigger] old(self).data@[c]@[v] < u32::MAX,
  ensures final(self).data@.len() == P::cc(), final(self).expected_count == old(self).expected_count,
    forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> #[trigger] final(self).data@[c]@[v] == old(self).data@[c]@[v] + pxi(image, c, v, x as int, y as int),
@ loop 0
  invariant end__0 == channels@.len(), channels@.len() == P::cc(), channels@ == image.px(x as int, y as int).ch(), self.data@.len() == P::cc(), self.expected_count == old(self).expected_count,
    forall|q: int, v: int| 0 <= q < P::cc() && 0 <= v < 256 ==> #[trigger] self.data@[q]@[v] == old(self).data@[q]@[v] + if q < c { pxi(image, q, v, x as int, y as int) } else { 0 },
@@ fn filter/median.rs HistSet::decr
@ unchecked
@ spec
  requires x < image.w(), y < image.h(), old(self).data@.len() == P::cc(),
    forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> #[trigger] old(self).data@[c]@[v] >= pxi(image, c, v, x as int, y as int),
  ensures final(self).data@.len() == P::cc(), final(self).expected_count == old(self).expected_count,
    forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> #[trigger] final(self).data@[c]@[v] == old(self).data@[c]@[v] - pxi(image, c, v, x as int, y as int),
@ loop 0
  invariant end__0 == channels@.len(), channels@.len() == P::cc(), channels@ == image.px(x as int, y as int).ch(), self.data@.len() == P::cc(), self.expected_count == old(self).expected_count,
    forall|q: int, v: int| 0 <= q < P::cc() && 0 <= v < 256 ==> #[trigger] self.data@[q]@[v] == old(self).data@[q]@[v] - if q < c { pxi(image, q, v, x as int, y as int) } else { 0 },
@@ fn filter/median.rs HistSet::channel_median
@ unchecked
@ spec
  requires c < self.data@.len(), self.expected_count <= 2 * cum(self.data@[c as int]@, 256) <= u32::MAX
  ensures 2 * cum(self.data@[c as int]@, r + 1) >= self.expected_count, r == 0 || 2 * cum(self.data@[c as int]@, r as int) < self.expected_count,
@ loop 0
  invariant hist@ == self.data@[c as int]@, count == cum(hist@, i as int), end__0 == 256, i == 0 || 2 * cum(hist@, i as int) < self.expected_count,
@ loop 0 begin
  proof { lemma_cum_mono(hist@, i + 1, 256); lemma_cum_mono(hist@, i as int, i + 1); }
@@ fn filter/median.rs HistSet::set_to_median
@ unchecked
@ before let channels
  proof { target.ax_cc(); }
@ spec
  requires x < old(image).w(), y < old(image).h(), self.data@.len() == P::cc(),
    forall|c: int| 0 <= c < P::cc() ==> self.expected_count <= 2 * cum((#[trigger] self.data@[c])@, 256) <= u32::MAX
  ensures final(image).w() == old(image).w(), final(image).h() == old(image).h(),
    forall|i: int, j: int| !(i == x && j == y) ==> #[trigger] final(image).px(i, j) == old(image).px(i, j),
    forall|c: int| 0 <= c < P::cc() ==> { let m = #[trigger] final(image).px(x as int, y as int).ch()[c]; let h = self.data@[c]@;
       2 * cum(h, m + 1) >= self.expected_count && (m == 0 || 2 * cum(h, m as int) < self.expected_count) },
@ loop 0
  invariant end__0 == channels@.len(), channels@.len() == P::cc(), P::cc() <= 4,
    forall|q: int| 0 <= q < c ==> { let m = #[trigger] channels@[q]; let h = self.data@[q]@;
       2 * cum(h, m + 1) >= self.expected_count && (m == 0 || 2 * cum(h, m as int) < self.expected_count) },
@@ fn filter/median.rs initialise_histogram_for_top_left_pixel
@ spec
  requires dom(image.w() as int, image.h() as int, x_radius as int, y_radius as int),
  ensures win(&r, image, x_radius as int, y_radius as int, 0, 0),
@ begin
  proof { lemma_area(x_radius as int, y_radius as int); assert((2 * x_radius + 1) * (2 * y_radius + 1) >= 0); }
@ loops 2
@ loop 0
  invariant hist.expected_count == (2 * rx + 1) * (2 * ry + 1), holds(&hist, image, -rx as int, rx + 1, -ry as int, dy as int), (2 * rx + 1) * (2 * ry + 1) <= i32::MAX,
@ loop 1
  invariant hist.expected_count == (2 * rx + 1) * (2 * ry + 1), hist.data@.len() == P::cc(), (2 * rx + 1) * (2 * ry + 1) <= i32::MAX, py == cl(dy as int, height as int),
    forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> #[trigger] hist.data@[c]@[v] == cnt(image, c, v, -rx as int, rx + 1, -ry as int, dy as int) + row(image, c, v, -rx as int, dx as int, dy as int),
@ loop 1 begin
  proof { assert forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 implies #[trigger] hist.data@[c]@[v] < u32::MAX by {
    lemma_cnt_pos(image, c, v, -rx as int, rx + 1, -ry as int, dy as int); lemma_row_pos(image, c, v, -rx as int, dx as int, dy as int);
    assert((2 * rx + 1) * (dy + ry) <= (2 * rx + 1) * (2 * ry + 1)) by(nonlinear_arith) requires rx >= 0, dy <= ry; lemma_area(rx as int, ry as int); } }
@@ fn filter/median.rs slide_right
@ spec
  requires dom(image.w() as int, image.h() as int, rx as int, ry as int), 1 <= x < image.w(), y < image.h(), win(old(hist), image, rx as int, ry as int, x - 1, y as int),
  ensures win(final(hist), image, rx as int, ry as int, x as int, y as int),
@ before for dy in
  proof { assert(y - ry - (y - ry) == 0); assert(mid_col(hist, image, x - 1, y as int, rx as int, ry as int, y - ry)); }
@ loop 0
  invariant mid_col(hist, image, x - 1, y as int, rx as int, ry as int, y + dy), dom(width as int, height as int, rx as int, ry as int),
@ loop 0 begin
  proof { lemma_mid_col_bounds(hist, image, x - 1, y as int, rx as int, ry as int, y + dy); }
@ loop 0 after
  proof { assert forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 implies #[trigger] hist.data@[c]@[v] == cnt(image, c, v, x - rx, x + rx + 1, y - ry, y + ry + 1) by {
    lemma_cnt_left(image, c, v, x - 1 - rx, x + rx, y - ry, y + ry + 1); lemma_cnt_right(image, c, v, x - rx, x + rx + 1, y - ry, y + ry + 1); } }
@@ fn filter/median.rs slide_down_column
@ spec
  requires dom(image.w() as int, image.h() as int, rx as int, ry as int), x < image.w(), old(out).same_dims(image), win(old(hist), image, rx as int, ry as int, x as int, 0),
  ensures win(final(hist), image, rx as int, ry as int, x as int, image.h() - 1), final(out).same_dims(image),
    forall|j: int| 0 <= j < image.h() ==> #[trigger] done(image, final(out), rx as int, ry as int, x as int, j),
    forall|i: int, j: int| i != x ==> #[trigger] final(out).px(i, j) == old(out).px(i, j),
@ before hist.set_to_median(out, x, 0)
  proof { lemma_full(hist, image, rx as int, ry as int, x as int, 0); }
@ before for y in
  proof { lemma_med(hist, image, rx as int, ry as int, x as int, 0, out.px(x as int, 0)); assert(done(image, &*out, rx as int, ry as int, x as int, 0)); }
@ loops 2
@ loop 0
  invariant win(hist, image, rx as int, ry as int, x as int, y - 1), dom(width as int, height as int, rx as int, ry as int), out.same_dims(image),
    forall|j: int| 0 <= j < y ==> #[trigger] done(image, &*out, rx as int, ry as int, x as int, j),
    forall|i: int, j: int| i != x ==> #[trigger] out.px(i, j) == old(out).px(i, j),
@ loop 0 begin
  let ghost out0 = *out;
  proof { lemma_area(rx as int, ry as int); assert(mid_row(hist, image, x as int, y - 1 - ry, y + ry, y - 1 - ry, y + ry, rx as int, x - rx)); }
@ loop 1
  invariant mid_row(hist, image, x as int, y - 1 - ry, y + ry, y - 1 - ry, y + ry, rx as int, x + dx), dom(width as int, height as int, rx as int, ry as int),
     prev_y == cl(y - 1 - ry, height as int), next_y == cl(y + ry, height as int),
@ loop 1 begin
  proof { lemma_mid_row_bounds(hist, image, x as int, y - 1 - ry, y + ry, y - 1 - ry, y + ry, rx as int, x + dx); }
@ loop 1 after
  proof { assert forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 implies #[trigger] hist.data@[c]@[v] == cnt(image, c, v, x - rx, x + rx + 1, y - ry, y + ry + 1) by {
    lemma_cnt_top(image, c, v, x - rx, x + rx + 1, y - 1 - ry, y + ry + 1); }
    lemma_full(hist, image, rx as int, ry as int, x as int, y as int); }
@ loop 0 end
  proof { lemma_med(hist, image, rx as int, ry as int, x as int, y as int, out.px(x as int, y as int)); assert(done(image, &*out, rx as int, ry as int, x as int, y as int));
    assert forall|j: int| 0 <= j < y + 1 implies #[trigger] done(image, &*out, rx as int, ry as int, x as int, j) by { if j < y { assert(done(image, &out0, rx as int, ry as int, x as int, j)); assert(out.px(x as int, j) == out0.px(x as int, j)); } } }
@@ fn filter/median.rs slide_up_column
@ spec
  requires dom(image.w() as int, image.h() as int, rx as int, ry as int), x < image.w(), old(out).same_dims(image), win(old(hist), image, rx as int, ry as int, x as int, image.h() - 1),
  ensures win(final(hist), image, rx as int, ry as int, x as int, 0), final(out).same_dims(image),
    forall|j: int| 0 <= j < image.h() ==> #[trigger] done(image, final(out), rx as int, ry as int, x as int, j),
    forall|i: int, j: int| i != x ==> #[trigger] final(out).px(i, j) == old(out).px(i, j),
@ before hist.set_to_median(out, x, height - 1)
  proof { lemma_full(hist, image, rx as int, ry as int, x as int, height - 1); }
@ before for y in
  proof { lemma_med(hist, image, rx as int, ry as int, x as int, height - 1, out.px(x as int, height - 1)); assert(done(image, &*out, rx as int, ry as int, x as int, height - 1)); }
@ loops 2
@ loop 0 iter it0
@ loop 0
  invariant win(hist, image, rx as int, ry as int, x as int, height - 1 - it0.index@), dom(width as int, height as int, rx as int, ry as int), out.same_dims(image),
    forall|j: int| height - 1 - it0.index@ <= j < height ==> #[trigger] done(image, &*out, rx as int, ry as int, x as int, j),
    forall|i: int, j: int| i != x ==> #[trigger] out.px(i, j) == old(out).px(i, j),
@ loop 0 begin
  let ghost out0 = *out;
  proof { lemma_area(rx as int, ry as int); assert(mid_row(hist, image, x as int, y + 1 - ry, y + ry + 2, y + ry + 1, y - ry, rx as int, x - rx)); }
@ loop 1
  invariant mid_row(hist, image, x as int, y + 1 - ry, y + ry + 2, y + ry + 1, y - ry, rx as int, x + dx), dom(width as int, height as int, rx as int, ry as int),
     prev_y == cl(y + 1 + ry, height as int), next_y == cl(y - ry, height as int), 0 <= y < height - 1,
@ loop 1 begin
  proof { lemma_mid_row_bounds(hist, image, x as int, y + 1 - ry, y + ry + 2, y + ry + 1, y - ry, rx as int, x + dx); }
@ loop 1 after
  proof { assert forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 implies #[trigger] hist.data@[c]@[v] == cnt(image, c, v, x - rx, x + rx + 1, y - ry, y + ry + 1) by {
    lemma_cnt_top(image, c, v, x - rx, x + rx + 1, y - ry, y + ry + 2); }
    lemma_full(hist, image, rx as int, ry as int, x as int, y as int); }
@ loop 0 end
  proof { lemma_med(hist, image, rx as int, ry as int, x as int, y as int, out.px(x as int, y as int)); assert(done(image, &*out, rx as int, ry as int, x as int, y as int));
    assert forall|j: int| y <= j < height implies #[trigger] done(image, &*out, rx as int, ry as int, x as int, j) by { if j > y { assert(done(image, &out0, rx as int, ry as int, x as int, j)); assert(out.px(x as int, j) == out0.px(x as int, j)); } } }
@@ fn filter/median.rs median_filter
@ spec
  requires image.w() == 0 || image.h() == 0 || dom(image.w() as int, image.h() as int, x_radius as int, y_radius as int),
  ensures r.w() == image.w(), r.h() == image.h(),
    forall|x: int, y: int| r.inb(x, y) ==> #[trigger] pix_median(image, x_radius as int, y_radius as int, x, y, r.px(x, y)),
@ loop 0
  invariant dom(width as int, height as int, x_radius as int, y_radius as int), out.same_dims(image),
    win(&hist, image, x_radius as int, y_radius as int, x - 1, if x % 2 == 0 { 0 } else { height - 1 }),
    forall|i: int, j: int| 0 <= i < x && 0 <= j < height ==> #[trigger] done(image, &out, x_radius as int, y_radius as int, i, j),
@ loop 0 begin
  let ghost out0 = out;
@ loop 0 end
  proof { assert forall|i: int, j: int| 0 <= i < x + 1 && 0 <= j < height implies #[trigger] done(image, &out, x_radius as int, y_radius as int, i, j) by {
     if i < x { assert(done(image, &out0, x_radius as int, y_radius as int, i, j)); assert(out.px(i, j) == out0.px(i, j)); } } }
@ tail
  proof { assert forall|x: int, y: int| out.inb(x, y) implies #[trigger] pix_median(image, x_radius as int, y_radius as int, x, y, out.px(x, y)) by { assert(done(image, &out, x_radius as int, y_radius as int, x, y)); } }
