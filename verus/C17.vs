@@ include prelude.rs
@@ text
pub type Sub = u8;
@@ include nms.vs
@@ text
/// IEEE comparison of scores (uninterpreted: the contract holds for whatever f32 `>` and `<` answer, NaN included)
pub uninterp spec fn gt_f(a: f32, b: f32) -> bool;
pub uninterp spec fn lt_f(a: f32, b: f32) -> bool;
#[verifier::external_body]
pub fn fgt(a: f32, b: f32) -> (r: bool) ensures r == gt_f(a, b) { a > b }
#[verifier::external_body]
pub fn flt(a: f32, b: f32) -> (r: bool) ensures r == lt_f(a, b) { a < b }
pub trait Item: Copy + Sized { spec fn xs(&self) -> u32; spec fn ys(&self) -> u32; spec fn sc(&self) -> f32;
  fn x(&self) -> (r: u32) ensures r == self.xs(); fn y(&self) -> (r: u32) ensures r == self.ys(); fn score(&self) -> (r: f32) ensures r == self.sc(); }
/// item c, within the radius of t, beats t
pub open spec fn near<T: Item>(c: T, t: T, rad: int) -> bool { -rad <= c.xs() - t.xs() <= rad && -rad <= c.ys() - t.ys() <= rad }
pub open spec fn item_beats<T: Item>(c: T, t: T) -> bool { gt_f(c.sc(), t.sc()) || (!lt_f(c.sc(), t.sc()) && lex(c.ys() as int, c.xs() as int, t.ys() as int, t.xs() as int)) }
pub open spec fn beaten<T: Item>(o: Seq<T>, rad: int, t: T) -> bool { exists|k: int| 0 <= k < o.len() && near(o[k], t, rad) && item_beats(#[trigger] o[k], t) }
pub open spec fn sorted_yx<T: Item>(o: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> !lex((#[trigger] o[j]).ys() as int, o[j].xs() as int, (#[trigger] o[i]).ys() as int, o[i].xs() as int) }
/// the items of o that nothing within the radius beats, in order
pub open spec fn maxima<T: Item>(o: Seq<T>, rad: int, n: int) -> Seq<T> decreases n {
  if n <= 0 { Seq::empty() } else if beaten(o, rad, o[n - 1]) { maxima(o, rad, n - 1) } else { maxima(o, rad, n - 1).push(o[n - 1]) }
}
#[verifier::external_body]
pub fn copied_items<T: Item>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.to_vec() }
/// `sort_by_key(|&c| (c.y(), c.x()))` of std: a permutation ordered by that key (lexicographic on pairs)
#[verifier::external_body]
pub fn sort_yx<T: Item>(v: &mut Vec<T>)
  ensures final(v)@.to_multiset() == old(v)@.to_multiset(), sorted_yx(final(v)@) { unimplemented!() }
#[verifier::external_body]
pub fn empty_rows<'a, T>(n: usize) -> (r: Vec<Vec<&'a T>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0 { unimplemented!() }
/// every row's list holds exactly the first n items of that row
pub open spec fn in_row<T: Item>(o: Seq<T>, n: int, y: int, c: T) -> bool { exists|i: int| 0 <= i < n && #[trigger] o[i] == c && o[i].ys() == y }
pub open spec fn listed<'a, T: Item>(row: Seq<&'a T>, c: T) -> bool { exists|k: int| 0 <= k < row.len() && *(#[trigger] row[k]) == c }
#[verifier::opaque]
pub open spec fn rows_ok<'a, T: Item>(rows: Seq<Vec<&'a T>>, o: Seq<T>, n: int) -> bool {
  &&& forall|y: int, k: int| 0 <= y < rows.len() && 0 <= k < rows[y]@.len() ==> in_row(o, n, y, *(#[trigger] rows[y]@[k]))
  &&& forall|y: int, k: int, l: int| 0 <= y < rows.len() && 0 <= k < l < rows[y]@.len() ==> (#[trigger] rows[y]@[k]).xs() <= (#[trigger] rows[y]@[l]).xs()
  &&& forall|i: int| 0 <= i < n ==> listed(rows[o[i].ys() as int]@, #[trigger] o[i])
}
pub proof fn lemma_rows_push<'a, T: Item>(b: Seq<Vec<&'a T>>, n: Seq<Vec<&'a T>>, o: Seq<T>, i0: int, t: &'a T)
  requires rows_ok(b, o, i0), 0 <= i0 < o.len(), *t == o[i0], sorted_yx(o), n.len() == b.len(), t.ys() < b.len(),
    n[t.ys() as int]@ == b[t.ys() as int]@.push(t), forall|y: int| 0 <= y < n.len() && y != t.ys() ==> #[trigger] n[y]@ == b[y]@,
    forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).ys() < b.len(),
  ensures rows_ok(n, o, i0 + 1)
{
  reveal(rows_ok);
  let ty = t.ys() as int; let q = b[ty]@.len() as int;
  assert forall|y: int, k: int| 0 <= y < n.len() && 0 <= k < n[y]@.len() implies in_row(o, i0 + 1, y, *(#[trigger] n[y]@[k])) by {
    if y == ty && k == q { assert(o[i0] == *n[y]@[k]); } else { assert(n[y]@[k] == b[y]@[k]); assert(in_row(o, i0, y, *b[y]@[k])); } }
  assert forall|y: int, k: int, l: int| 0 <= y < n.len() && 0 <= k < l < n[y]@.len() implies (#[trigger] n[y]@[k]).xs() <= (#[trigger] n[y]@[l]).xs() by {
    assert(n[y]@[k] == b[y]@[k]);
    if y == ty && l == q { assert(in_row(o, i0, y, *b[y]@[k])); let i = choose|i: int| 0 <= i < i0 && #[trigger] o[i] == *b[y]@[k] && o[i].ys() == y;
      assert(!lex(o[i0].ys() as int, o[i0].xs() as int, o[i].ys() as int, o[i].xs() as int)); } else { assert(n[y]@[l] == b[y]@[l]); } }
  assert forall|i: int| 0 <= i < i0 + 1 implies listed(n[o[i].ys() as int]@, #[trigger] o[i]) by {
    let y = o[i].ys() as int;
    if i == i0 { assert(*n[ty]@[q] == o[i]); } else { assert(listed(b[y]@, o[i])); let k = choose|k: int| 0 <= k < b[y]@.len() && *(#[trigger] b[y]@[k]) == o[i]; assert(*n[y]@[k] == o[i]); } }
}
pub open spec fn bad<T: Item>(c: T, t: T, rad: int) -> bool { near(c, t, rad) && item_beats(c, t) }
/// none of the first n items of the row is in the way of t
pub open spec fn row_clear<'a, T: Item>(row: Seq<&'a T>, n: int, t: T, rad: int) -> bool { forall|k: int| 0 <= k < n ==> !bad(*#[trigger] row[k], t, rad) }
pub proof fn lemma_max<'a, T: Item>(rows: Seq<Vec<&'a T>>, o: Seq<T>, t: T, rad: int, lo: int, hi: int, is_max: bool)
  requires rows_ok(rows, o, o.len() as int), 0 <= lo <= hi <= rows.len(),
    forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).ys() < rows.len(),
    lo <= t.ys() - rad || lo == 0, hi >= t.ys() + rad + 1 || hi == rows.len(),
    is_max ==> forall|y: int| lo <= y < hi ==> row_clear((#[trigger] rows[y])@, rows[y]@.len() as int, t, rad),
    !is_max ==> exists|y: int| lo <= y < hi && !row_clear((#[trigger] rows[y])@, rows[y]@.len() as int, t, rad),
  ensures is_max == !beaten(o, rad, t)
{
  reveal(rows_ok);
  if is_max { if beaten(o, rad, t) { let i = choose|i: int| 0 <= i < o.len() && near(o[i], t, rad) && item_beats(#[trigger] o[i], t); let y = o[i].ys() as int;
      assert(listed(rows[y]@, o[i])); let k = choose|k: int| 0 <= k < rows[y]@.len() && *(#[trigger] rows[y]@[k]) == o[i]; assert(row_clear(rows[y]@, rows[y]@.len() as int, t, rad)); assert(!bad(*rows[y]@[k], t, rad)); } }
  else { let y = choose|y: int| lo <= y < hi && !row_clear((#[trigger] rows[y])@, rows[y]@.len() as int, t, rad);
      let k = choose|k: int| 0 <= k < rows[y]@.len() && bad(*#[trigger] rows[y]@[k], t, rad); assert(in_row(o, o.len() as int, y, *rows[y]@[k]));
      let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == *rows[y]@[k] && o[i].ys() == y; assert(near(o[i], t, rad) && item_beats(o[i], t)); }
}
pub proof fn lemma_row_sorted<'a, T: Item>(rows: Seq<Vec<&'a T>>, o: Seq<T>, n: int, y: int)
  requires rows_ok(rows, o, n), 0 <= y < rows.len()
  ensures forall|k: int, l: int| 0 <= k < l < rows[y]@.len() ==> (#[trigger] rows[y]@[k]).xs() <= (#[trigger] rows[y]@[l]).xs(),
{ reveal(rows_ok); }
@@ fn suppress.rs local_maxima
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
#[verifier::allow_complex_invariants]
@ sigsub T: Position + Score + Copy, =>> T: Item,
@ spec
  requires forall|i: int| 0 <= i < ts@.len() ==> (#[trigger] ts@[i]).ys() < u32::MAX
  ensures exists|o: Seq<T>| o.to_multiset() == ts@.to_multiset() && sorted_yx(o) && r@ == #[trigger] maxima(o, radius as int, o.len() as int)
@ subst
ts.to_vec()
=>> copied_items(ts)
@ subst
ordered_ts.sort_by_key(|&c| (c.y(), c.x()));
=>> sort_yx(&mut ordered_ts);
   let ghost o = ordered_ts@;
   proof { ts@.to_multiset_ensures(); o.to_multiset_ensures();
     assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).ys() < u32::MAX by { assert(o.to_multiset().contains(o[i])); assert(ts@.contains(o[i])); } }
@ subst
vec![vec![]; (height + 1) as usize]
=>> empty_rows::<T>((height + 1) as usize)
@ subst
for t in &ordered_ts {
        ts_by_row[t.y() as usize].push(t);
    }
=>> proof { reveal(rows_ok); }
    for i__ in 0..ordered_ts.len()
      invariant ordered_ts@ == o, sorted_yx(o), ts_by_row@.len() == height + 1, rows_ok(ts_by_row@, o, i__ as int), forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).ys() <= height,
    { let t = &ordered_ts[i__]; let ghost b = ts_by_row@;
      ts_by_row[t.y() as usize].push(t);
      proof { lemma_rows_push(b, ts_by_row@, o, i__ as int, t); } }
    proof { assert(rows_ok(ts_by_row@, o, o.len() as int)); }
@ subst
let mut max_ts = vec![];
=>> let mut max_ts: Vec<T> = Vec::new();
@ subst
for t in &ordered_ts {
        let cx
=>> for i__ in 0..ordered_ts.len()
      invariant ordered_ts@ == o, ts_by_row@.len() == height + 1, rows_ok(ts_by_row@, o, o.len() as int), forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).ys() <= height, height < u32::MAX,
         max_ts@ == maxima(o, radius as int, i__ as int),
    { let t = &ordered_ts[i__]; let ghost rad = radius as int;
      let cx
@ loops 1
@ loop 0
   invariant_except_break is_max,
   invariant row_upper <= height + 1, row_lower <= row_upper, start__0 == row_lower, end__0 == row_upper,
      is_max ==> forall|b: int| row_lower <= b < y ==> row_clear((#[trigger] ts_by_row@[b])@, ts_by_row@[b]@.len() as int, *t, rad),
   ensures is_max ==> forall|b: int| row_lower <= b < row_upper ==> row_clear((#[trigger] ts_by_row@[b])@, ts_by_row@[b]@.len() as int, *t, rad),
      !is_max ==> exists|b: int| row_lower <= b < row_upper && !row_clear((#[trigger] ts_by_row@[b])@, ts_by_row@[b]@.len() as int, *t, rad),
@ subst
for c in &ts_by_row[y as usize] {
=>> let row__ = &ts_by_row[y as usize];
    proof { lemma_row_sorted(ts_by_row@, o, o.len() as int, y as int); }
    let mut k__: usize = 0;
    while k__ < row__.len()
      invariant_except_break is_max, k__ <= row__@.len(), row_clear(row__@, k__ as int, *t, rad)
      invariant row__@ == ts_by_row@[y as int]@, y <= height, row_lower <= y < row_upper, forall|k: int, l: int| 0 <= k < l < row__@.len() ==> (#[trigger] row__@[k]).xs() <= (#[trigger] row__@[l]).xs(),
      ensures is_max == row_clear(row__@, row__@.len() as int, *t, rad)
      decreases row__@.len() - k__
    { let c = row__[k__]; k__ += 1;
@ subst
c.score() > cs
=>> fgt(c.score(), cs)
@ subst
c.score() < cs
=>> flt(c.score(), cs)
@ subst
(c.y(), c.x()) < (cy, cx)
=>> tuple_lt((c.y(), c.x()), (cy, cx))
@ before let row_lower =
   proof { assert(o[i__ as int].ys() <= height); }
@ before if is_max {
   proof { lemma_max(ts_by_row@, o, *t, rad, row_lower as int, row_upper as int, is_max); }
