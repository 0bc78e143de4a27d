@@ include prelude.rs
@@ text
pub type Fim = Image<Luma<f32>>;
/// `>=` and `<` on f32: any fixed answer per pair of operands
pub uninterp spec fn fge(a: f32, b: f32) -> bool;
pub uninterp spec fn flt(a: f32, b: f32) -> bool;
pub broadcast axiom fn ax_ge(a: f32, b: f32, o: bool) requires #[trigger] ge_ensures::<f32>(a, b, o) ensures o == fge(a, b);
pub broadcast axiom fn ax_lt(a: f32, b: f32, o: bool) requires #[trigger] lt_ensures::<f32>(a, b, o) ensures o == flt(a, b);
pub broadcast group fcmp { ax_ge, ax_lt }
impl Luma<u8> {
  /// HasBlack / HasWhite for Luma<u8> (definitions.rs; the constants are read from the real impls by C03's harness)
  pub fn black() -> (r: Self) ensures r == luma(0u8) { Luma([0u8]) }
  pub fn white() -> (r: Self) ensures r == luma(255u8) { Luma([255u8]) }
}
pub open spec fn inner(i: &Fim, x: int, y: int) -> bool { 1 <= x < i.w() - 1 && 1 <= y < i.h() - 1 }
pub open spec fn val(i: &Fim, x: int, y: int) -> f32 { i.px(x, y).0@[0] }
pub open spec fn strong(i: &Fim, hi: f32, x: int, y: int) -> bool { inner(i, x, y) && fge(val(i, x, y), hi) }
pub open spec fn weak(i: &Fim, lo: f32, x: int, y: int) -> bool { i.inb(x, y) && fge(val(i, x, y), lo) }
/// the six directions the search follows (known finding: the upward and the upward-right neighbour are missing)
pub open spec fn step6(a: int, b: int, x: int, y: int) -> bool { 
  (y == b && (x == a + 1 || x == a - 1)) || (y == b + 1 && a - 1 <= x <= a + 1) || (x == a - 1 && y == b - 1) }
pub open spec fn step8(a: int, b: int, x: int, y: int) -> bool { a - 1 <= x <= a + 1 && b - 1 <= y <= b + 1 && !(x == a && y == b) }
/// joined to a strong pixel by at most n steps through pixels reaching the low threshold
pub open spec fn reach(i: &Fim, lo: f32, hi: f32, n: nat, x: int, y: int) -> bool decreases n {
  if n == 0 { strong(i, hi, x, y) } else { let m = (n - 1) as nat; reach(i, lo, hi, m, x, y) || (weak(i, lo, x, y) && (
    reach(i, lo, hi, m, x - 1, y) || reach(i, lo, hi, m, x - 1, y - 1) || reach(i, lo, hi, m, x, y - 1) || reach(i, lo, hi, m, x + 1, y + 1) || reach(i, lo, hi, m, x + 1, y) || reach(i, lo, hi, m, x + 1, y - 1))) }
}
/// the neighbour the pixel was reached from
pub open spec fn prev(i: &Fim, lo: f32, hi: f32, m: nat, x: int, y: int) -> (int, int) {
  if reach(i, lo, hi, m, x - 1, y) { (x - 1, y) } else if reach(i, lo, hi, m, x - 1, y - 1) { (x - 1, y - 1) } else if reach(i, lo, hi, m, x, y - 1) { (x, y - 1) }
  else if reach(i, lo, hi, m, x + 1, y + 1) { (x + 1, y + 1) } else if reach(i, lo, hi, m, x + 1, y) { (x + 1, y) } else { (x + 1, y - 1) } }
pub open spec fn edge(i: &Fim, lo: f32, hi: f32, x: int, y: int) -> bool { exists|n: nat| #[trigger] reach(i, lo, hi, n, x, y) }
/// a chain of 8-neighbours all reaching the low threshold, from a strong pixel
pub open spec fn chain8(i: &Fim, lo: f32, hi: f32, c: Seq<(int, int)>) -> bool {
  c.len() > 0 && strong(i, hi, c[0].0, c[0].1) && forall|k: int| 1 <= k < c.len() ==> weak(i, lo, (#[trigger] c[k]).0, c[k].1) && step8(c[k - 1].0, c[k - 1].1, c[k].0, c[k].1) }
/// every pixel the search reaches is joined to a strong pixel by an 8-neighbour chain
pub proof fn thm_sound(i: &Fim, lo: f32, hi: f32, n: nat, x: int, y: int) -> (c: Seq<(int, int)>)
  requires reach(i, lo, hi, n, x, y) ensures chain8(i, lo, hi, c), c.last() == (x, y)
  decreases n
{
  if n == 0 { seq![(x, y)] } else { let m = (n - 1) as nat;
    if reach(i, lo, hi, m, x, y) { thm_sound(i, lo, hi, m, x, y) }
    else { let (a, b) = prev(i, lo, hi, m, x, y); assert(step6(a, b, x, y)); let d = thm_sound(i, lo, hi, m, a, b); let c = d.push((x, y));
      assert forall|k: int| 1 <= k < c.len() implies weak(i, lo, (#[trigger] c[k]).0, c[k].1) && step8(c[k - 1].0, c[k - 1].1, c[k].0, c[k].1) by { if k < d.len() { assert(c[k] == d[k] && c[k-1] == d[k-1]); } else { assert(c[k - 1] == d.last()); } }
      c } }
}
pub proof fn lem_step(i: &Fim, lo: f32, hi: f32, a: int, b: int, x: int, y: int)
  requires edge(i, lo, hi, a, b), step6(a, b, x, y), weak(i, lo, x, y) ensures edge(i, lo, hi, x, y)
{ let n = choose|n: nat| #[trigger] reach(i, lo, hi, n, a, b); let k = (n + 1) as nat; assert((k - 1) as nat == n); assert(reach(i, lo, hi, k, x, y)); }
pub proof fn lem_strong(i: &Fim, lo: f32, hi: f32, x: int, y: int) requires strong(i, hi, x, y) ensures edge(i, lo, hi, x, y) { assert(reach(i, lo, hi, 0, x, y)); }

pub open spec fn lit(o: &GrayImage, x: int, y: int) -> bool { o.inb(x, y) && o.px(x, y) == luma(255u8) }
/// every pixel is black, or white and an edge
pub open spec fn sound(i: &Fim, o: &GrayImage, lo: f32, hi: f32) -> bool {
  o.w() == i.w() && o.h() == i.h() && forall|x: int, y: int| o.inb(x, y) ==> #[trigger] o.px(x, y) == luma(0u8) || (o.px(x, y) == luma(255u8) && edge(i, lo, hi, x, y) && inner(i, x, y)) }
pub open spec fn on(st: Seq<(u32, u32)>, x: int, y: int) -> bool { exists|k: int| 0 <= k < st.len() && (#[trigger] st[k]).0 == x && st[k].1 == y }
/// white pixels not on the stack (other than p) have all their low-threshold successors white
pub open spec fn closed(i: &Fim, o: &GrayImage, lo: f32, st: Seq<(u32, u32)>, px: int, py: int) -> bool {
  forall|a: int, b: int, x: int, y: int| #[trigger] lit(o, a, b) && !on(st, a, b) && !(a == px && b == py) && #[trigger] weak(i, lo, x, y) && step6(a, b, x, y) ==> lit(o, x, y) }
pub open spec fn good(o: &GrayImage, i: &Fim, st: Seq<(u32, u32)>) -> bool { forall|k: int| 0 <= k < st.len() ==> inner(i, (#[trigger] st[k]).0 as int, st[k].1 as int) && lit(o, st[k].0 as int, st[k].1 as int) }
/// strong pixels before position (x, y) in raster order are white
pub open spec fn swept(i: &Fim, o: &GrayImage, hi: f32, x: int, y: int) -> bool { forall|a: int, b: int| #[trigger] strong(i, hi, a, b) && (b < y || (b == y && a < x)) ==> lit(o, a, b) }
pub open spec fn grew(o: &GrayImage, p: &GrayImage) -> bool { p.same_dims(o) && forall|x: int, y: int| lit(o, x, y) ==> #[trigger] lit(p, x, y) }
/// number of pixels not yet white
pub open spec fn dark(o: &GrayImage, n: int) -> nat decreases n { if n <= 0 { 0 } else { dark(o, n - 1) + (if o.pk(n - 1) == luma(255u8) { 0nat } else { 1 }) } }
pub open spec fn todo(o: &GrayImage) -> nat { dark(o, o.np()) }
pub open spec fn put_of(im: &GrayImage, im2: &GrayImage, a: int, b: int) -> bool {
  im2.same_dims(im) && forall|i: int, j: int| #[trigger] im2.px(i, j) == if i == a && j == b { luma(255u8) } else { im.px(i, j) } }
pub proof fn lem_dark(im: &GrayImage, im2: &GrayImage, a: int, b: int, n: int)
  requires put_of(im, im2, a, b), im.inb(a, b), !lit(im, a, b), 0 <= n <= im.np()
  ensures dark(im2, n) + (if b * im.w() + a < n { 1int } else { 0 }) == dark(im, n)
  decreases n
{
  if n > 0 { lem_dark(im, im2, a, b, n - 1); let k = n - 1; lemma_kp(im, k); let i = k % (im.w() as int); let j = k / (im.w() as int);
    lemma_fundamental_div_mod(k, im.w() as int); assert(im.w() * j == j * im.w()) by(nonlinear_arith);
    lemma_pk(im, i, j); lemma_pk(im2, i, j); assert(j * im.w() + i == k);
    lemma_pk(im, a, b); lemma_pk(im2, a, b);
    if i == a && j == b { } else { if b * im.w() + a == k { assert(i == a && j == b) by { lemma_fundamental_div_mod_converse(k, im.w() as int, b, a); } } }
    assert(im2.px(i, j) == if i == a && j == b { luma(255u8) } else { im.px(i, j) });
  }
}
/// marking a dark low-threshold successor (or strong pixel) and stacking it
pub proof fn lem_mark(i: &Fim, o: &GrayImage, o2: &GrayImage, lo: f32, hi: f32, st: Seq<(u32, u32)>, px: int, py: int, q: (u32, u32), cx: int, cy: int)
  requires sound(i, o, lo, hi), closed(i, o, lo, st, px, py), good(o, i, st), put_of(o, o2, q.0 as int, q.1 as int), edge(i, lo, hi, q.0 as int, q.1 as int), inner(i, q.0 as int, q.1 as int),
    !lit(o, q.0 as int, q.1 as int), swept(i, o, hi, cx, cy)
  ensures sound(i, o2, lo, hi), closed(i, o2, lo, st.push(q), px, py), good(o2, i, st.push(q)), swept(i, o2, hi, cx, cy), grew(o, o2), lit(o2, q.0 as int, q.1 as int), todo(o2) < todo(o)
{
  let n = st.push(q);
  assert forall|x: int, y: int| lit(o, x, y) implies #[trigger] lit(o2, x, y) by { assert(o2.px(x, y) == luma(255u8)); }
  assert forall|x: int, y: int| on(st, x, y) || (x == q.0 && y == q.1) implies on(n, x, y) by { if on(st, x, y) { let k = choose|k: int| 0 <= k < st.len() && (#[trigger] st[k]).0 == x && st[k].1 == y; assert(n[k] == st[k]); } else { assert(n[st.len() as int] == q); } }
  assert forall|a: int, b: int, x: int, y: int| #[trigger] lit(o2, a, b) && !on(n, a, b) && !(a == px && b == py) && #[trigger] weak(i, lo, x, y) && step6(a, b, x, y) implies lit(o2, x, y) by {
    assert(!(a == q.0 && b == q.1)); assert(!on(st, a, b)); assert(o2.px(a, b) == o.px(a, b)); assert(lit(o, a, b)); assert(lit(o, x, y)); assert(lit(o2, x, y)); }
  assert forall|k: int| 0 <= k < n.len() implies inner(i, (#[trigger] n[k]).0 as int, n[k].1 as int) && lit(o2, n[k].0 as int, n[k].1 as int) by { if k < st.len() { assert(n[k] == st[k]); assert(lit(o, st[k].0 as int, st[k].1 as int)); } else { assert(o2.px(q.0 as int, q.1 as int) == luma(255u8)); } }
  assert(o2.px(q.0 as int, q.1 as int) == luma(255u8));
  lem_dark(o, o2, q.0 as int, q.1 as int, o.np()); lemma_pk(o, q.0 as int, q.1 as int);
  assert forall|x: int, y: int| o2.inb(x, y) implies #[trigger] o2.px(x, y) == luma(0u8) || (o2.px(x, y) == luma(255u8) && edge(i, lo, hi, x, y) && inner(i, x, y)) by { assert(o.px(x, y) == luma(0u8) || o.px(x, y) == luma(255u8)); }
}
/// the array lists exactly the six successors of p, in any order
pub open spec fn has(nb: Seq<(u32, u32)>, x: int, y: int) -> bool { exists|j: int| 0 <= j < nb.len() && (#[trigger] nb[j]).0 == x && nb[j].1 == y }
pub open spec fn lists(nb: Seq<(u32, u32)>, px: int, py: int) -> bool {
  &&& forall|j: int| 0 <= j < nb.len() ==> step6(px, py, (#[trigger] nb[j]).0 as int, nb[j].1 as int)
  &&& has(nb, px + 1, py) && has(nb, px + 1, py + 1) && has(nb, px, py + 1) && has(nb, px - 1, py - 1) && has(nb, px - 1, py) && has(nb, px - 1, py + 1) }
pub proof fn lem_lists(nb: Seq<(u32, u32)>, px: int, py: int)
  requires nb.len() == 6, step6(px, py, nb[0].0 as int, nb[0].1 as int), step6(px, py, nb[1].0 as int, nb[1].1 as int), step6(px, py, nb[2].0 as int, nb[2].1 as int),
    step6(px, py, nb[3].0 as int, nb[3].1 as int), step6(px, py, nb[4].0 as int, nb[4].1 as int), step6(px, py, nb[5].0 as int, nb[5].1 as int), 
    nb[0] != nb[1] && nb[0] != nb[2] && nb[0] != nb[3] && nb[0] != nb[4] && nb[0] != nb[5] && nb[1] != nb[2] && nb[1] != nb[3] && nb[1] != nb[4] && nb[1] != nb[5]
      && nb[2] != nb[3] && nb[2] != nb[4] && nb[2] != nb[5] && nb[3] != nb[4] && nb[3] != nb[5] && nb[4] != nb[5]
  ensures lists(nb, px, py)
{}
pub proof fn lem_closed(i: &Fim, o: &GrayImage, lo: f32, st: Seq<(u32, u32)>, nb: Seq<(u32, u32)>, p: (u32, u32))
  requires closed(i, o, lo, st, p.0 as int, p.1 as int), lists(nb, p.0 as int, p.1 as int), forall|k: int| 0 <= k < nb.len() ==> (weak(i, lo, (#[trigger] nb[k]).0 as int, nb[k].1 as int) ==> lit(o, nb[k].0 as int, nb[k].1 as int))
  ensures closed(i, o, lo, st, -1, -1)
{
  assert forall|a: int, b: int, x: int, y: int| #[trigger] lit(o, a, b) && !on(st, a, b) && !(a == -1 && b == -1) && #[trigger] weak(i, lo, x, y) && step6(a, b, x, y) implies lit(o, x, y) by {
    if a == p.0 && b == p.1 { assert(has(nb, x, y)); } }
}
pub proof fn lem_pop(i: &Fim, o: &GrayImage, lo: f32, st: Seq<(u32, u32)>)
  requires st.len() > 0, closed(i, o, lo, st, -1, -1), good(o, i, st)
  ensures closed(i, o, lo, st.drop_last(), st.last().0 as int, st.last().1 as int), good(o, i, st.drop_last()), inner(i, st.last().0 as int, st.last().1 as int), lit(o, st.last().0 as int, st.last().1 as int)
{ let s = st.drop_last(); let e = st.last();
  assert forall|a: int, b: int, x: int, y: int| #[trigger] lit(o, a, b) && !on(s, a, b) && !(a == e.0 && b == e.1) && #[trigger] weak(i, lo, x, y) && step6(a, b, x, y) implies lit(o, x, y) by {
    if on(st, a, b) { let k = choose|k: int| 0 <= k < st.len() && (#[trigger] st[k]).0 == a && st[k].1 == b; if k < s.len() { assert(s[k] == st[k]); } assert(false); } }
  assert forall|k: int| 0 <= k < s.len() implies inner(i, (#[trigger] s[k]).0 as int, s[k].1 as int) && lit(o, s[k].0 as int, s[k].1 as int) by { assert(st[k] == s[k]); }
  assert(st[st.len() - 1] == e); }
pub proof fn lem_complete(i: &Fim, o: &GrayImage, lo: f32, hi: f32, n: nat, x: int, y: int)
  requires sound(i, o, lo, hi), closed(i, o, lo, Seq::empty(), -1, -1), swept(i, o, hi, 0, i.h() as int), reach(i, lo, hi, n, x, y)
  ensures lit(o, x, y)
  decreases n
{ if n > 0 { let m = (n - 1) as nat; if reach(i, lo, hi, m, x, y) { lem_complete(i, o, lo, hi, m, x, y); } else {
    let (a, b) = prev(i, lo, hi, m, x, y); assert(step6(a, b, x, y)); lem_complete(i, o, lo, hi, m, a, b); assert(!on(Seq::<(u32, u32)>::empty(), a, b)); assert(weak(i, lo, x, y)); } } }
/// the outermost pixels stay below the low threshold (non-maximum suppression leaves them 0)
pub open spec fn quiet_border(i: &Fim, lo: f32) -> bool { forall|x: int, y: int| #[trigger] weak(i, lo, x, y) ==> inner(i, x, y) }
/// white exactly on the edges, black elsewhere
pub open spec fn traced(i: &Fim, o: &GrayImage, lo: f32, hi: f32) -> bool {
  o.w() == i.w() && o.h() == i.h() && forall|x: int, y: int| o.inb(x, y) ==> #[trigger] o.px(x, y) == if edge(i, lo, hi, x, y) { luma(255u8) } else { luma(0u8) } }
@@ fn edges.rs hysteresis
@ opts
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::rlimit(60)]
@ spec
  requires quiet_border(input, low_thresh), input.w() * input.h() <= u32::MAX
  ensures traced(input, &r, low_thresh, high_thresh)
@ begin
  broadcast use fcmp;
  let ghost i = *input; let ghost lo = low_thresh; let ghost hi = high_thresh;
@ subst?
Vec::with_capacity(((input.width() * input.height()) / 2) as usize)
=>>
Vec::<(u32, u32)>::with_capacity(((input.width() * input.height()) / 2) as usize)
@ loop 0
  invariant sound(&i, &out, lo, hi), closed(&i, &out, lo, Seq::empty(), -1, -1), edges@.len() == 0, swept(&i, &out, hi, 0, y as int),
@ loop 1
  invariant sound(&i, &out, lo, hi), closed(&i, &out, lo, Seq::empty(), -1, -1), edges@.len() == 0, swept(&i, &out, hi, x as int, y as int),
@ subst
while let Some((nx, ny)) = edges.pop() {
=>>
loop
  invariant sound(&i, &out, lo, hi), closed(&i, &out, lo, edges@, -1, -1), good(&out, &i, edges@), swept(&i, &out, hi, x as int, y as int), lit(&out, x as int, y as int),
  ensures edges@.len() == 0
  decreases todo(&out), edges@.len(),
{
                    let ghost st0 = edges@; let ghost td = todo(&out);
                    let (nx, ny) = match edges.pop() { Some(top) => top, None => { break; } };
                    let ghost st1 = edges@;
                    proof { lem_pop(&i, &out, lo, st0); assert(edges@ == st0.drop_last()); }
@ after edges.push((x, y));
                proof { lem_strong(&i, lo, hi, x as int, y as int); let ghost st = Seq::<(u32, u32)>::empty(); assert(put_of(&o0, &out, x as int, y as int)); lem_mark(&i, &o0, &out, lo, hi, st, -1, -1, (x, y), x as int, y as int); assert(edges@ == st.push((x, y))); }
@ loop 1 begin
  let ghost o0 = out;
@ before edges.push((neighbor_idx.0, neighbor_idx.1))
                            proof { let k = it.index@; assert(*neighbor_idx == neighbor_indices@[k]); assert(weak(&i, lo, neighbor_idx.0 as int, neighbor_idx.1 as int)); lem_step(&i, lo, hi, nx as int, ny as int, neighbor_idx.0 as int, neighbor_idx.1 as int);
                              assert(put_of(&o1, &out, neighbor_idx.0 as int, neighbor_idx.1 as int)); lem_mark(&i, &o1, &out, lo, hi, edges@, nx as int, ny as int, *neighbor_idx, x as int, y as int); }
@ loop 2 begin
  let ghost o1 = out;
@ loop 2 before
  proof { lem_lists(neighbor_indices@, nx as int, ny as int); }
@ loop 2 after
                    proof { lem_closed(&i, &out, lo, edges@, neighbor_indices@, (nx, ny)); }
@ loop 0 after
  proof { assert(edges@ =~= Seq::<(u32, u32)>::empty()); assert(swept(&i, &out, hi, 0, i.h() as int));
    assert forall|x: int, y: int| out.inb(x, y) implies #[trigger] out.px(x, y) == if edge(&i, lo, hi, x, y) { luma(255u8) } else { luma(0u8) } by {
      if edge(&i, lo, hi, x, y) { let n = choose|n: nat| #[trigger] reach(&i, lo, hi, n, x, y); lem_complete(&i, &out, lo, hi, n, x, y); } } }
@ loop 2 iter it
  invariant todo(&out) < td || (todo(&out) == td && edges@ == st1), edge(&i, lo, hi, nx as int, ny as int),
    neighbor_indices@.len() == 6, lists(neighbor_indices@, nx as int, ny as int),
    sound(&i, &out, lo, hi), closed(&i, &out, lo, edges@, nx as int, ny as int), good(&out, &i, edges@), swept(&i, &out, hi, x as int, y as int), lit(&out, x as int, y as int), lit(&out, nx as int, ny as int),
    forall|k: int| 0 <= k < it.index@ ==> (weak(&i, lo, (#[trigger] neighbor_indices@[k]).0 as int, neighbor_indices@[k].1 as int) ==> lit(&out, neighbor_indices@[k].0 as int, neighbor_indices@[k].1 as int)),
@@ text
pub broadcast axiom fn ax_any_add(a: f32, b: f32) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_any_mul(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_any_div(a: f32, b: f32) ensures #[trigger] a.div_req(b);
pub broadcast group fany { ax_any_add, ax_any_mul, ax_any_div }
pub assume_specification[ f32::atan2 ](x: f32, y: f32) -> (r: f32);
#[verifier::external_body]
pub fn pi() -> (r: f32) { core::f32::consts::PI }
impl<P> vstd::std_specs::core::IndexSpecImpl<(u32, u32)> for Image<P> { open spec fn index_req(&self, i: &(u32, u32)) -> bool { i.0 < self.w() && i.1 < self.h() } }
impl<P> Index<(u32, u32)> for Image<P> { type Output = P;
  #[verifier::external_body]
  fn index(&self, i: (u32, u32)) -> (r: &P) ensures *r == self.px(i.0 as int, i.1 as int) { unimplemented!() } }
/// `(lo..hi).contains(&a)` is `lo <= a && a < hi`
pub fn within(lo: f32, hi: f32, a: f32) -> (r: bool) ensures r == (fge(a, lo) && flt(a, hi)) { broadcast use fcmp; a >= lo && a < hi }
/// order facts: a float that compares >= with something is not NaN, and a non-NaN float is >= or < any other
pub broadcast axiom fn ax_total(a: f32, b: f32, c: f32) requires #[trigger] fge(a, b) ensures fge(a, c) || #[trigger] flt(a, c);
@@ fn edges.rs non_maximum_suppression
@ spec
  requires g.w() == gx.w(), g.h() == gx.h(), g.w() == gy.w(), g.h() == gy.h()
  ensures r.w() == g.w(), r.h() == g.h(), forall|x: int, y: int| g.inb(x, y) ==> #[trigger] r.px(x, y) == luma(0f32) || (r.px(x, y) == g.px(x, y) && inner(g, x, y))
@ begin
  broadcast use fcmp, fany, ax_total;
@ floats
angle
@ subst
const RADIANS_TO_DEGREES: f32 = 180f32 / f32::consts::PI;
=>>
let RADIANS_TO_DEGREES: f32 = 180f32 / pi();
@ subst
(22.5..157.5).contains(&angle)
=>>
within(22.5, 157.5, angle)
@ subst
(22.5..67.5).contains(&angle)
=>>
within(22.5, 67.5, angle)
@ subst
(67.5..112.5).contains(&angle)
=>>
within(67.5, 112.5, angle)
@ subst
(112.5..157.5).contains(&angle)
=>>
within(112.5, 157.5, angle)
@ loop 0
  invariant out.w() == g.w(), out.h() == g.h(), forall|x: int, y: int| g.inb(x, y) ==> #[trigger] out.px(x, y) == luma(0f32) || (out.px(x, y) == g.px(x, y) && inner(g, x, y))
@ loop 1
  invariant out.w() == g.w(), out.h() == g.h(), forall|x: int, y: int| g.inb(x, y) ==> #[trigger] out.px(x, y) == luma(0f32) || (out.px(x, y) == g.px(x, y) && inner(g, x, y))
@@ text
/// blur, Sobel gradients and their magnitudes: assumed only to have the input's dimensions (C08; exercised by the companion)
#[verifier::external_body]
pub fn gaussian_blur_f32(image: &GrayImage, sigma: f32) -> (r: GrayImage) ensures r.w() == image.w(), r.h() == image.h() { unimplemented!() }
#[verifier::external_body]
pub fn sobel(image: &GrayImage) -> (r: Image<Luma<i16>>) ensures r.w() == image.w(), r.h() == image.h() { unimplemented!() }
#[verifier::external_body]
pub fn magnitude(gx: &Image<Luma<i16>>, gy: &Image<Luma<i16>>) -> (r: Fim) ensures r.w() == gx.w(), r.h() == gx.h() { unimplemented!() }
pub proof fn lem_quiet(t: &Fim, g: &Fim, lo: f32)
  requires t.w() == g.w(), t.h() == g.h(), !fge(0f32, lo), forall|x: int, y: int| g.inb(x, y) ==> #[trigger] t.px(x, y) == luma(0f32) || (t.px(x, y) == g.px(x, y) && inner(g, x, y))
  ensures quiet_border(t, lo)
{ assert forall|x: int, y: int| #[trigger] weak(t, lo, x, y) implies inner(t, x, y) by { assert(t.px(x, y) == luma(0f32) || inner(g, x, y)); if !inner(g, x, y) { assert(val(t, x, y) == 0f32); } } }
@@ fn edges.rs canny
@ spec
  requires fge(high_threshold, low_threshold), !fge(0f32, low_threshold), image.w() * image.h() <= u32::MAX
  ensures r.w() == image.w(), r.h() == image.h(), exists|t: Fim| quiet_border(&t, low_threshold) && #[trigger] traced(&t, &r, low_threshold, high_threshold)
@ begin
  broadcast use fcmp;
@ subst
filter_clamped(&blurred, kernel::SOBEL_HORIZONTAL_3X3)
=>>
sobel(&blurred)
@ subst
filter_clamped(&blurred, kernel::SOBEL_VERTICAL_3X3)
=>>
sobel(&blurred)
@ subst
let g: Vec<f32> = gx
        .iter()
        .zip(gy.iter())
        .map(|(h, v)| (*h as f32).hypot(*v as f32))
        .collect::<Vec<f32>>();

    let g = Image::from_raw(image.width(), image.height(), g).unwrap();
=>>
let g = magnitude(&gx, &gy);
@ after let thinned = non_maximum_suppression(&g, &gx, &gy);
  proof { lem_quiet(&thinned, &g, low_threshold); }
