@@ include prelude.rs
@@ text
// f64 by exact integers: di(x) = Some(n) when x is the integer n; df(x) is the floor of x. The axioms state what IEEE 754 fixes: +, -, * of
// integers are exact while the result is at most 2^53 in magnitude; the rounding of n / d (|n| < 2^53, d > 0) never crosses an integer;
// comparisons are exact. Nothing is idealised.
pub enum FL { Nan, NInf, Fl(int), PInf }
pub uninterp spec fn di(x: f64) -> Option<int>;
pub uninterp spec fn df(x: f64) -> FL;
pub open spec fn big() -> int { 9007199254740992 }
pub open spec fn ex(n: int) -> bool { -9007199254740992 <= n <= 9007199254740992 }
pub open spec fn isinf(x: f64) -> bool { df(x) == FL::PInf }
pub broadcast axiom fn ax_di(x: f64) ensures #[trigger] di(x) is Some ==> df(x) == FL::Fl(di(x)->0);
pub broadcast axiom fn ax_eadd(a: f64, b: f64, o: f64) requires #[trigger] add_ensures::<f64>(a, b, o)
  ensures di(a) is Some && di(b) is Some && ex(di(a)->0 + di(b)->0) ==> di(o) == Some(di(a)->0 + di(b)->0),
    di(a) is Some && isinf(b) ==> isinf(o);
pub broadcast axiom fn ax_esub(a: f64, b: f64, o: f64) requires #[trigger] sub_ensures::<f64>(a, b, o)
  ensures di(a) is Some && di(b) is Some && ex(di(a)->0 - di(b)->0) ==> di(o) == Some(di(a)->0 - di(b)->0);
pub broadcast axiom fn ax_emul(a: f64, b: f64, o: f64) requires #[trigger] mul_ensures::<f64>(a, b, o)
  ensures di(a) is Some && di(b) is Some && ex(di(a)->0 * di(b)->0) ==> di(o) == Some(di(a)->0 * di(b)->0);
pub broadcast axiom fn ax_ediv(a: f64, b: f64, o: f64) requires #[trigger] div_ensures::<f64>(a, b, o)
  ensures di(a) is Some && di(b) is Some && -big() < di(a)->0 < big() && 0 < di(b)->0 <= big() ==> df(o) == FL::Fl(di(a)->0 / di(b)->0);
pub broadcast axiom fn ax_ele(a: f64, b: f64, o: bool) requires #[trigger] le_ensures::<f64>(a, b, o)
  ensures df(a) is Fl && df(b) == FL::NInf ==> !o, df(a) is Fl && df(b) is Fl ==> if o { df(a)->Fl_0 <= df(b)->Fl_0 } else { df(a)->Fl_0 >= df(b)->Fl_0 };
pub broadcast axiom fn ax_elt(a: f64, b: f64, o: bool) requires #[trigger] lt_ensures::<f64>(a, b, o)
  ensures di(b) is Some ==> (df(a) is Fl ==> o == (df(a)->Fl_0 < di(b)->0)) && (isinf(a) ==> !o) && (df(a) == FL::NInf ==> o), df(a) is Fl && df(b) is Fl ==> if o { df(a)->Fl_0 <= df(b)->Fl_0 } else { df(a)->Fl_0 >= df(b)->Fl_0 },
    df(a) is Fl && df(b) == FL::NInf ==> !o;
pub broadcast axiom fn ax_egt(a: f64, b: f64, o: bool) requires #[trigger] gt_ensures::<f64>(a, b, o)
  ensures di(a) is Some ==> (df(b) is Fl ==> o == (df(b)->Fl_0 < di(a)->0)) && (isinf(b) ==> !o) && (df(b) == FL::NInf ==> o),
    df(b) is Fl && df(a) is Fl ==> if o { df(b)->Fl_0 <= df(a)->Fl_0 } else { df(b)->Fl_0 >= df(a)->Fl_0 };
pub broadcast axiom fn ax_ege(a: f64, b: f64, o: bool) requires #[trigger] ge_ensures::<f64>(a, b, o)
  ensures df(b) is Fl && df(a) == FL::NInf ==> !o, df(a) is Fl && df(b) is Fl ==> if o { df(b)->Fl_0 <= df(a)->Fl_0 } else { df(b)->Fl_0 >= df(a)->Fl_0 };
pub broadcast axiom fn ax_ene(a: f64, b: f64, o: bool) requires #[trigger] ne_ensures::<f64>(a, b, o) ensures isinf(b) ==> o == !isinf(a);
pub broadcast axiom fn ax_eeq(a: f64, b: f64, o: bool) requires #[trigger] eq_ensures::<f64>(a, b, o) ensures isinf(b) ==> o == isinf(a);
pub broadcast axiom fn ax_eareq(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_esreq(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_emreq(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_edreq(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_e0() ensures #[trigger] di(0f64) == Some(0int);
pub broadcast axiom fn ax_e2() ensures #[trigger] di(2.0f64) == Some(2int);
pub broadcast axiom fn ax_eu8(v: u8, o: f64) requires #[trigger] vstd::float::float_cast_spec(v, o) ensures di(o) == Some(v as int);
pub broadcast group e64 { ax_di, ax_eadd, ax_esub, ax_emul, ax_ediv, ax_ele, ax_elt, ax_egt, ax_ege, ax_eeq, ax_ene, ax_eareq, ax_esreq, ax_emreq, ax_edreq, ax_e0, ax_e2, ax_eu8 }
/// `x as f64`
#[verifier::external_body]
pub fn us2d(x: usize) -> (r: f64) ensures x <= 9007199254740992 ==> di(r) == Some(x as int) { x as f64 }
/// f64::INFINITY, f64::NEG_INFINITY
#[verifier::external_body]
pub fn d_inf() -> (r: f64) ensures isinf(r) { f64::INFINITY }
#[verifier::external_body]
pub fn d_ninf() -> (r: f64) ensures df(r) == FL::NInf { f64::NEG_INFINITY }
#[verifier::external_body]
pub fn d_nan() -> (r: f64) { f64::NAN }

/// sides and values the exact arithmetic covers
pub open spec fn side() -> int { 67108864 }
pub open spec fn okv(v: f64) -> bool { isinf(v) || (di(v) is Some && 0 <= di(v)->0 < 4503599627370496) }
pub trait Sink: Sized {
  spec fn n(&self) -> int;
  spec fn at(&self, i: int) -> f64;
  spec fn ok(&self) -> bool;
  /// b is a after some `put`s: the same borrow of the same row or column, nothing else touched
  #[verifier::prophetic]
  spec fn same(a: &Self, b: &Self) -> bool;
  proof fn ax_refl(a: &Self) requires a.ok() ensures Self::same(a, a), a.n() >= 0;
  proof fn ax_trans(a: &Self, b: &Self, c: &Self) requires Self::same(a, b), Self::same(b, c) ensures Self::same(a, c);
  fn put(&mut self, idx: usize, value: f64) requires old(self).ok(), idx < old(self).n()
    ensures final(self).ok(), final(self).n() == old(self).n(), Self::same(old(self), final(self)),
      forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).at(i) == if i == idx { value } else { old(self).at(i) };
  fn len(&self) -> (r: usize) requires self.ok() ensures r == self.n();
}
pub open spec fn vis(v: f64, n: Option<int>) -> bool { match n { Some(k) => di(v) == Some(k), None => isinf(v) } }
pub open spec fn okn(n: Option<int>) -> bool { n is Some ==> 0 <= n->0 < 4503599627370496 }
pub trait Source {
  spec fn n(&self) -> int;
  /// the value at i: an integer, or None for infinity
  spec fn val(&self, i: int) -> Option<int>;
  spec fn ok(&self) -> bool;
  fn get(&self, idx: usize) -> (r: f64) requires self.ok(), idx < self.n() ensures vis(r, self.val(idx as int)), okn(self.val(idx as int));
  fn len(&self) -> (r: usize) requires self.ok() ensures r == self.n();
}
@@ struct distance_transform.rs LowerEnvelope
@@ struct distance_transform.rs Row
@@ struct distance_transform.rs ColumnMut
@@ struct distance_transform.rs Column
@@ text
@@ fn distance_transform.rs LowerEnvelope::new
@ spec
  requires image_side < usize::MAX
  ensures r.locations@.len() == image_side, r.boundaries@.len() == image_side + 1,
@ subst
f64::NAN =>> d_nan()
@@ text
impl<'a> Sink for Row<'a> {
  open spec fn n(&self) -> int { self.image.w() as int }
  open spec fn at(&self, i: int) -> f64 { self.image.px(i, self.row as int).0@[0] }
  open spec fn ok(&self) -> bool { self.row < self.image.h() }
  #[verifier::prophetic]
  open spec fn same(a: &Self, b: &Self) -> bool { *final(a.image) == *final(b.image) && a.row == b.row && b.image.same_dims(&*a.image) && forall|x: int, y: int| y != a.row ==> #[trigger] b.image.px(x, y) == a.image.px(x, y) }
  proof fn ax_refl(a: &Self) {}
  proof fn ax_trans(a: &Self, b: &Self, c: &Self) {}
@@ fn distance_transform.rs <Row<'_> as Sink>::put
@ hdr
none
@ nopub
@@ fn distance_transform.rs <Row<'_> as Sink>::len
@ hdr
none
@ nopub
@@ text
}
impl<'a> Sink for ColumnMut<'a> {
  open spec fn n(&self) -> int { self.image.h() as int }
  open spec fn at(&self, i: int) -> f64 { self.image.px(self.column as int, i).0@[0] }
  open spec fn ok(&self) -> bool { self.column < self.image.w() }
  #[verifier::prophetic]
  open spec fn same(a: &Self, b: &Self) -> bool { *final(a.image) == *final(b.image) && a.column == b.column && b.image.same_dims(&*a.image) && forall|x: int, y: int| x != a.column ==> #[trigger] b.image.px(x, y) == a.image.px(x, y) }
  proof fn ax_refl(a: &Self) {}
  proof fn ax_trans(a: &Self, b: &Self, c: &Self) {}
@@ fn distance_transform.rs <ColumnMut<'_> as Sink>::put
@ hdr
none
@ nopub
@@ fn distance_transform.rs <ColumnMut<'_> as Sink>::len
@ hdr
none
@ nopub
@@ text
}
impl Source for Vec<f64> {
  open spec fn n(&self) -> int { self@.len() as int }
  open spec fn val(&self, i: int) -> Option<int> { di(self@[i]) }
  open spec fn ok(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> okv(#[trigger] self@[i]) }
@@ fn distance_transform.rs <Vec<f64> as Source>::get
@ hdr
none
@ nopub
@ begin
  broadcast use e64;
@@ fn distance_transform.rs <Vec<f64> as Source>::len
@ hdr
none
@ nopub
@@ text
}
impl<'a> Source for Column<'a> {
  open spec fn n(&self) -> int { self.image.h() as int }
  open spec fn val(&self, i: int) -> Option<int> { if self.image.px(self.column as int, i).0@[0] > 0 { Some(0int) } else { None } }
  open spec fn ok(&self) -> bool { self.column < self.image.w() }
@@ fn distance_transform.rs <Column<'_> as Source>::get
@ hdr
none
@ nopub
@ begin
  broadcast use e64;
@ subst
f64::INFINITY =>> d_inf()
@@ fn distance_transform.rs <Column<'_> as Source>::len
@ hdr
none
@ nopub
@@ text
}
/// the parabola centred at p, at i
pub open spec fn par<S: Source + ?Sized>(f: &S, p: int, i: int) -> int { f.val(p)->0 + (i - p) * (i - p) }
pub open spec fn fin<S: Source + ?Sized>(f: &S, p: int) -> bool { 0 <= p < f.n() && f.val(p) is Some }
/// at i, the parabola at p is below every one centred before q
#[verifier::opaque]
pub open spec fn dom<S: Source + ?Sized>(f: &S, p: int, i: int, q: int) -> bool { forall|j: int| 0 <= j < q && #[trigger] fin(f, j) ==> par(f, p, i) <= par(f, j, i) }
/// THE 1D PROPERTY: v is the exact minimum over all the parabolas (infinite when there is none)
pub open spec fn min1<S: Source + ?Sized>(f: &S, i: int, v: f64) -> bool {
  if exists|j: int| #[trigger] fin(f, j) { exists|p: int| #[trigger] fin(f, p) && di(v) == Some(par(f, p, i)) && dom(f, p, i, f.n()) } else { isinf(v) }
}
/// integers strictly right of b, and up to b
pub open spec fn right(b: f64, i: int) -> bool { match df(b) { FL::NInf => true, FL::Fl(m) => m < i, _ => false } }
pub open spec fn upto(b: f64, i: int) -> bool { match df(b) { FL::PInf => true, FL::Fl(m) => i <= m, _ => false } }
pub open spec fn bok(b: f64) -> bool { df(b) is Fl }
/// s separates the parabolas p < q
pub open spec fn cuts<S: Source + ?Sized>(f: &S, p: int, q: int, s: f64) -> bool {
  df(s) is Fl && (forall|i: int| right(s, i) ==> #[trigger] par(f, q, i) <= par(f, p, i)) && forall|i: int| upto(s, i) ==> #[trigger] par(f, p, i) <= par(f, q, i)
}
pub proof fn lemma_cuts(fp: int, fq: int, p: int, q: int, i: int, m: int)
  requires 0 <= p < q, m == ((fq + q * q) - (fp + p * p)) / (2 * q - 2 * p)
  ensures i > m ==> fq + (i - q) * (i - q) <= fp + (i - p) * (i - p), i <= m ==> fp + (i - p) * (i - p) <= fq + (i - q) * (i - q)
{
  let nn = (fq + q * q) - (fp + p * p); let d = 2 * q - 2 * p;
  lemma_fundamental_div_mod(nn, d); lemma_mod_bound(nn, d);
  assert((i - q) * (i - q) == i * i - 2 * (i * q) + q * q) by(nonlinear_arith);
  assert((i - p) * (i - p) == i * i - 2 * (i * p) + p * p) by(nonlinear_arith);
  assert(d * i == 2 * (i * q) - 2 * (i * p)) by(nonlinear_arith) requires d == 2 * q - 2 * p;
  assert(i > m ==> d * i >= d * m + d) by(nonlinear_arith) requires d > 0;
  assert(i <= m ==> d * i <= d * m) by(nonlinear_arith) requires d > 0;
}
pub open spec fn sq(a: int) -> int { a * a }
pub proof fn lemma_sq(a: int, m: int) requires -m < a < m ensures 0 <= a * a < m * m || (a * a == 0 && m > 0), a * a <= (m - 1) * (m - 1)
{ assert(0 <= a * a <= (m - 1) * (m - 1)) by(nonlinear_arith) requires -m < a < m; assert((m - 1) * (m - 1) < m * m) by(nonlinear_arith) requires m >= 1; }
@@ fn distance_transform.rs intersection
@ spec
  requires f.ok(), fin(f, p as int), fin(f, q as int), p < q, f.n() <= side(),
  ensures cuts(f, p as int, q as int, r),
@ begin
  broadcast use e64;
  let ghost (p0, q0) = (p as int, q as int);
  proof { lemma_sq(p0, side()); lemma_sq(q0, side()); }
@ subst
p as f64 =>> us2d(p)
@ subst
q as f64 =>> us2d(q)
@ ret
  proof {
    let (vp, vq) = (f.val(p0)->0, f.val(q0)->0); let m = ((vq + q0 * q0) - (vp + p0 * p0)) / (2 * q0 - 2 * p0);
    assert(df(r) == FL::Fl(m));
    assert forall|i: int| right(r, i) implies #[trigger] par(f, q0, i) <= par(f, p0, i) by { lemma_cuts(vp, vq, p0, q0, i, m); }
    assert forall|i: int| upto(r, i) implies #[trigger] par(f, p0, i) <= par(f, q0, i) by { lemma_cuts(vp, vq, p0, q0, i, m); }
  }
@@ text
/// the envelope of the parabolas before q, with k + 1 pieces
#[verifier::opaque]
pub open spec fn env<S: Source + ?Sized>(f: &S, loc: Seq<usize>, b: Seq<f64>, k: int, q: int) -> bool {
  &&& 0 <= k < q <= f.n() && loc.len() == f.n() && b.len() == f.n() + 1
  &&& df(b[0]) == FL::NInf && isinf(b[k + 1]) && (forall|j: int| 1 <= j <= k ==> bok(#[trigger] b[j])) && (forall|a: int, c: int| 1 <= a <= c <= k ==> df(#[trigger] b[a])->Fl_0 <= df(#[trigger] b[c])->Fl_0) && forall|j: int| 0 <= j <= k ==> (#[trigger] loc[j]) < q
  &&& if f.val(loc[0] as int) is None { k == 0 && forall|j: int| 0 <= j < q ==> !#[trigger] fin(f, j) }
      else { (forall|j: int| 0 <= j <= k ==> #[trigger] fin(f, loc[j] as int)) && forall|i: int, j: int| 0 <= j <= k && right(b[j], i) && upto(b[j + 1], i) ==> #[trigger] dom(f, loc[j] as int, i, q) }
}
/// the pieces right of piece k lie above the parabola at q
pub open spec fn above<S: Source + ?Sized>(f: &S, b: Seq<f64>, k: int, q: int) -> bool { forall|i: int| #[trigger] right(b[k + 1], i) ==> dom(f, q, i, q) }
pub proof fn lemma_env_skip<S: Source + ?Sized>(f: &S, loc: Seq<usize>, b: Seq<f64>, k: int, q: int)
  requires env(f, loc, b, k, q), q < f.n(), !fin(f, q)
  ensures env(f, loc, b, k, q + 1)
{ reveal(env); reveal(dom);
  if f.val(loc[0] as int) is Some {
    assert forall|i: int, j: int| 0 <= j <= k && right(b[j], i) && upto(b[j + 1], i) implies #[trigger] dom(f, loc[j] as int, i, q + 1) by { assert(dom(f, loc[j] as int, i, q)); }
  } }
pub proof fn lemma_env_init<S: Source + ?Sized>(f: &S, loc: Seq<usize>, b: Seq<f64>)
  requires f.n() > 0, loc.len() == f.n(), b.len() == f.n() + 1, loc[0] == 0, df(b[0]) == FL::NInf, isinf(b[1])
  ensures env(f, loc, b, 0, 1)
{ reveal(env); reveal(dom); }
pub proof fn lemma_env_first<S: Source + ?Sized>(f: &S, l0: Seq<usize>, b0: Seq<f64>, loc: Seq<usize>, b: Seq<f64>, q: int)
  requires env(f, l0, b0, 0, q), f.val(l0[0] as int) is None, fin(f, q), loc.len() == f.n(), b.len() == f.n() + 1, loc[0] == q, df(b[0]) == FL::NInf, isinf(b[1])
  ensures env(f, loc, b, 0, q + 1)
{ reveal(env); reveal(dom); }
pub proof fn lemma_env_pop<S: Source + ?Sized>(f: &S, loc: Seq<usize>, b: Seq<f64>, k0: int, k: int, q: int, s: f64)
  requires env(f, loc, b, k0, q), f.val(loc[0] as int) is Some, 0 < k <= k0, above(f, b, k, q), cuts(f, loc[k] as int, q, s), df(s)->Fl_0 <= df(b[k])->Fl_0
  ensures above(f, b, k - 1, q)
{
  reveal(env);
  assert(bok(b[k]));
  assert forall|i: int| #[trigger] right(b[k - 1 + 1], i) implies dom(f, q, i, q) by {
    if right(b[k + 1], i) {} else {
      assert(k + 1 <= k0 ==> bok(b[k + 1]));
      assert(upto(b[k + 1], i)); assert(dom(f, loc[k] as int, i, q));
      assert(right(s, i)); assert(par(f, q, i) <= par(f, loc[k] as int, i));
      reveal(dom);
    }
  }
}
pub proof fn lemma_env_push<S: Source + ?Sized>(f: &S, l0: Seq<usize>, b0: Seq<f64>, k0: int, k: int, q: int, s: f64, loc: Seq<usize>, b: Seq<f64>)
  requires env(f, l0, b0, k0, q), f.val(l0[0] as int) is Some, 0 <= k <= k0, q < f.n(), fin(f, q), above(f, b0, k, q), cuts(f, l0[k] as int, q, s),
    df(b0[k]) is Fl ==> df(s)->Fl_0 >= df(b0[k])->Fl_0,
    loc == l0.update(k + 1, q as usize), b == b0.update(k + 1, s).update(k + 2, b[k + 2]), isinf(b[k + 2]), q <= usize::MAX
  ensures env(f, loc, b, k + 1, q + 1)
{
  reveal(env);
  assert(loc[k + 1] == q); assert(b[k + 1] == s);
  assert(forall|j: int| 0 <= j <= k ==> #[trigger] loc[j] == l0[j]); assert(forall|j: int| 0 <= j <= k ==> #[trigger] b[j] == b0[j]);
  assert(f.val(loc[0] as int) is Some);
  assert forall|j: int| 0 <= j <= k + 1 implies #[trigger] fin(f, loc[j] as int) by { if j <= k { assert(fin(f, l0[j] as int)); } }
  assert(k >= 1 ==> bok(b0[k]));
  assert(k + 1 <= k0 ==> bok(b0[k + 1]));
  assert forall|i: int, j: int| 0 <= j <= k + 1 && right(b[j], i) && upto(b[j + 1], i) implies #[trigger] dom(f, loc[j] as int, i, q + 1) by {
    let p = l0[k] as int;
    assert(fin(f, l0[k] as int));
    if j < k {
      assert(b[j + 1] == b0[j + 1]); assert(dom(f, l0[j] as int, i, q));
      // q lies above p = loc[k] here, and p above loc[j]
      assert(bok(b0[j + 1])); assert(df(b0[j + 1])->Fl_0 <= df(b0[k])->Fl_0);
      assert(upto(s, i)); assert(par(f, p, i) <= par(f, q, i));
      reveal(dom);
    } else if j == k {
      assert(upto(s, i)); assert(par(f, p, i) <= par(f, q, i));
      if right(b0[k + 1], i) { assert(dom(f, q, i, q)); } else { assert(upto(b0[k + 1], i)); assert(dom(f, l0[k] as int, i, q)); }
      reveal(dom);
    } else {
      assert(right(s, i)); assert(par(f, q, i) <= par(f, p, i));
      if right(b0[k + 1], i) { assert(dom(f, q, i, q)); } else { assert(upto(b0[k + 1], i)); assert(right(b0[k], i)); assert(dom(f, l0[k] as int, i, q)); }
      reveal(dom);
    }
  }
}
pub proof fn lemma_env_facts<S: Source + ?Sized>(f: &S, loc: Seq<usize>, b: Seq<f64>, k: int, q: int)
  requires env(f, loc, b, k, q)
  ensures 0 <= k < q <= f.n(), loc.len() == f.n(), b.len() == f.n() + 1, df(b[0]) == FL::NInf, isinf(b[k + 1]),
    forall|j: int| 1 <= j <= k ==> bok(#[trigger] b[j]), forall|j: int| 0 <= j <= k ==> (#[trigger] loc[j]) < q,
    f.val(loc[0] as int) is None ==> k == 0, f.val(loc[0] as int) is Some ==> forall|j: int| 0 <= j <= k ==> #[trigger] fin(f, loc[j] as int),
    above(f, b, k, q),
{ reveal(env); }
pub proof fn lemma_env_min<S: Source + ?Sized>(f: &S, loc: Seq<usize>, b: Seq<f64>, k0: int, k: int, i: int, v: f64)
  requires env(f, loc, b, k0, f.n()), 0 <= k <= k0, right(b[k], i), upto(b[k + 1], i),
    match f.val(loc[k] as int) { Some(m) => di(v) == Some(m + (i - loc[k]) * (i - loc[k])), None => isinf(v) },
  ensures min1(f, i, v)
{
  reveal(env);
  let p = loc[k] as int;
  if f.val(loc[0] as int) is Some { assert(fin(f, loc[k] as int)); assert(dom(f, loc[k] as int, i, f.n())); assert(fin(f, p) && di(v) == Some(par(f, p, i)) && dom(f, p, i, f.n())); }
  else { assert(k == 0); }
}
@@ fn distance_transform.rs distance_transform_1d_mut
@ spec
  requires f.ok(), old(result).ok(), old(result).n() == f.n(), f.n() <= side(),
    old(envelope).boundaries@.len() == f.n() + 1, old(envelope).locations@.len() == f.n(),
  ensures final(result).ok(), final(result).n() == f.n(), T::same(old(result), final(result)),
    final(envelope).boundaries@.len() == f.n() + 1, final(envelope).locations@.len() == f.n(),
    forall|i: int| 0 <= i < f.n() ==> min1(f, i, #[trigger] final(result).at(i)),
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@ begin
  broadcast use e64;
  proof { T::ax_refl(result); }
  let ghost n = f.n();
@ subst
envelope.boundaries[0] = f64::NEG_INFINITY;
=>> envelope.boundaries[0] = d_ninf();
@ subst
envelope.boundaries[1] = f64::INFINITY;
=>> envelope.boundaries[1] = d_inf(); proof { lemma_env_init(f, envelope.locations@, envelope.boundaries@); }
@ loop 0
  invariant envelope.boundaries@.len() == n + 1, envelope.locations@.len() == n, *result == *old(result), env(f, envelope.locations@, envelope.boundaries@, k as int, q as int),
@ subst
        if f.get(q) == f64::INFINITY {
            continue;
        }
        if k == 0 && f.get(envelope.locations[k]) == f64::INFINITY {
            envelope.locations[k] = q;
            envelope.boundaries[k] = f64::NEG_INFINITY;
            envelope.boundaries[k + 1] = f64::INFINITY;
            continue;
        }
=>> let ghost (l0, b0, k0) = (envelope.locations@, envelope.boundaries@, k as int);
        proof { lemma_env_facts(f, l0, b0, k0, q as int); }
        if f.get(q) == d_inf() { proof { lemma_env_skip(f, l0, b0, k0, q as int); } } else if k == 0 && f.get(envelope.locations[k]) == d_inf() {
            envelope.locations[k] = q;
            envelope.boundaries[k] = d_ninf();
            envelope.boundaries[k + 1] = d_inf();
            proof { lemma_env_first(f, l0, b0, envelope.locations@, envelope.boundaries@, q as int); }
        } else {
        proof { assert(fin(f, q as int)); assert(fin(f, l0[k0] as int)); }
@ loop 1
  invariant 0 <= k <= k0, envelope.boundaries@ == b0, envelope.locations@ == l0, cuts(f, l0[k as int] as int, q as int, s), above(f, b0, k as int, q as int),
  decreases k
@ loop 1 begin
  proof { if k == 0 { assert(false); } assert(fin(f, l0[k - 1] as int)); lemma_env_pop(f, l0, b0, k0, k as int, q as int, s); }
@ loop 1 after
  let ghost k1 = k as int;
@ subst
        envelope.boundaries[k] = s;
        envelope.boundaries[k + 1] = f64::INFINITY;
=>> envelope.boundaries[k] = s;
        envelope.boundaries[k + 1] = d_inf();
        proof { lemma_env_push(f, l0, b0, k0, k1, q as int, s, envelope.locations@, envelope.boundaries@); } }
@ loop 0 after
  proof { lemma_env_facts(f, envelope.locations@, envelope.boundaries@, k as int, n); }
  let ghost (le, be, ke) = (envelope.locations@, envelope.boundaries@, k as int);
@ loop 2
  invariant n == f.n(), envelope.boundaries@ == be, envelope.locations@ == le, k <= ke, result.ok(), result.n() == n, T::same(old(result), result),
    right(be[k as int], q as int), forall|i: int| 0 <= i < q ==> min1(f, i, #[trigger] result.at(i)),
@ loop 2 begin
  let ghost r0 = *result;
@ loop 3
  invariant k <= ke, right(be[k as int], q as int),
  decreases ke - k
@ subst
envelope.boundaries[k + 1] < q as f64
=>> envelope.boundaries[k + 1] < us2d(q)
@ subst
q as f64 - envelope.locations[k] as f64
=>> us2d(q) - us2d(envelope.locations[k])
@ before let dist
  proof { if f.val(le[k as int] as int) is Some { } lemma_sq(q - le[k as int], side()); }
@ loop 2 end
  proof { lemma_env_min(f, le, be, ke, k as int, q as int, result.at(q as int)); T::ax_trans(old(result), &r0, result); }
@@ text
/// is (x, y) a foreground pixel?
pub open spec fn fgp(im: &GrayImage, x: int, y: int) -> bool { im.inb(x, y) && im.px(x, y).0@[0] > 0 }
/// the minimum over one column
pub open spec fn colmin(im: &GrayImage, x: int, y: int, v: f64) -> bool {
  if exists|j: int| #[trigger] fgp(im, x, j) { exists|p: int| #[trigger] fgp(im, x, p) && di(v) == Some((y - p) * (y - p)) && forall|j: int| #[trigger] fgp(im, x, j) ==> (y - p) * (y - p) <= (y - j) * (y - j) } else { isinf(v) }
}
pub open spec fn d2(dx: int, dy: int) -> int { dx * dx + dy * dy }
/// THE PROPERTY: v is the exact minimum squared distance to a foreground pixel, infinite when there is none
pub open spec fn esq(im: &GrayImage, x: int, y: int, v: f64) -> bool {
  if exists|sx: int, sy: int| #[trigger] fgp(im, sx, sy) { exists|sx: int, sy: int| #[trigger] fgp(im, sx, sy) && di(v) == Some(d2(x - sx, y - sy)) && forall|tx: int, ty: int| #[trigger] fgp(im, tx, ty) ==> d2(x - sx, y - sy) <= d2(x - tx, y - ty) } else { isinf(v) }
}
pub proof fn lemma_col(src: &Column, y: int, v: f64)
  requires src.ok(), min1(src, y, v) ensures colmin(src.image, src.column as int, y, v)
{
  let im = src.image; let x = src.column as int;
  assert(forall|j: int| #[trigger] fgp(im, x, j) == fin(src, j));
  if exists|j: int| #[trigger] fgp(im, x, j) {
    let j0 = choose|j: int| #[trigger] fgp(im, x, j); assert(fin(src, j0));
    let p = choose|p: int| #[trigger] fin(src, p) && di(v) == Some(par(src, p, y)) && dom(src, p, y, src.n());
    assert(fgp(im, x, p));
    assert forall|j: int| #[trigger] fgp(im, x, j) implies (y - p) * (y - p) <= (y - j) * (y - j) by { reveal(dom); assert(fin(src, j)); }
  } else { if exists|j: int| #[trigger] fin(src, j) { let j = choose|j: int| #[trigger] fin(src, j); assert(fgp(im, x, j)); } }
}
pub proof fn lemma_col_ok(im: &GrayImage, x: int, y: int, v: f64)
  requires colmin(im, x, y, v), im.h() <= side(), 0 <= y < im.h()
  ensures okv(v), di(v) is Some ==> exists|p: int| #[trigger] fgp(im, x, p), isinf(v) ==> di(v) is None
{ broadcast use e64;
  if exists|j: int| #[trigger] fgp(im, x, j) { let p = choose|p: int| #[trigger] fgp(im, x, p) && di(v) == Some((y - p) * (y - p)) && forall|j: int| #[trigger] fgp(im, x, j) ==> (y - p) * (y - p) <= (y - j) * (y - j); lemma_sq(y - p, side()); } }
pub proof fn lemma_row(im: &GrayImage, row: &Vec<f64>, x: int, y: int, v: f64)
  requires row@.len() == im.w(), forall|i: int| 0 <= i < im.w() ==> colmin(im, i, y, #[trigger] row@[i]), min1(row, x, v), im.h() <= side(), 0 <= y < im.h()
  ensures esq(im, x, y, v)
{
  broadcast use e64;
  assert forall|i: int, j: int| #[trigger] fgp(im, i, j) implies fin(row, i) && par(row, i, x) <= d2(x - i, y - j) by {
    assert(colmin(im, i, y, row@[i])); assert((i - x) * (i - x) == (x - i) * (x - i)) by(nonlinear_arith); assert((x - i) * (x - i) == (i - x) * (i - x)) by(nonlinear_arith); }
  if exists|sx: int, sy: int| #[trigger] fgp(im, sx, sy) {
    let (tx, ty) = choose|sx: int, sy: int| #[trigger] fgp(im, sx, sy); assert(fin(row, tx));
    let p = choose|p: int| #[trigger] fin(row, p) && di(v) == Some(par(row, p, x)) && dom(row, p, x, row.n());
    assert(colmin(im, p, y, row@[p])); lemma_col_ok(im, p, y, row@[p]);
    let sy = choose|sy: int| #[trigger] fgp(im, p, sy) && di(row@[p]) == Some((y - sy) * (y - sy)) && forall|j: int| #[trigger] fgp(im, p, j) ==> (y - sy) * (y - sy) <= (y - j) * (y - j);
    assert(fgp(im, p, sy));
    assert(par(row, p, x) == d2(x - p, y - sy));
    assert forall|tx: int, ty: int| #[trigger] fgp(im, tx, ty) implies d2(x - p, y - sy) <= d2(x - tx, y - ty) by { reveal(dom); assert(fin(row, tx)); }
  } else {
    if exists|j: int| #[trigger] fin(row, j) { let j = choose|j: int| #[trigger] fin(row, j); assert(colmin(im, j, y, row@[j])); lemma_col_ok(im, j, y, row@[j]); }
  }
}
@@ fn distance_transform.rs euclidean_squared_distance_transform
@ spec
  requires image.w() <= side(), image.h() <= side(),
  ensures r.same_dims(image), forall|x: int, y: int| image.inb(x, y) ==> esq(image, x, y, (#[trigger] r.px(x, y)).0@[0]),
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@ loop 0
  invariant result.same_dims(image), width == image.w(), height == image.h(), column_envelope.boundaries@.len() == height + 1, column_envelope.locations@.len() == height,
    forall|i: int, j: int| 0 <= i < x && 0 <= j < height ==> colmin(image, i, j, (#[trigger] result.px(i, j)).0@[0]),
@ loop 0 begin
  let ghost pre = result;
@ loop 0 end
  proof { assert forall|i: int, j: int| 0 <= i < x + 1 && 0 <= j < height implies colmin(image, i, j, (#[trigger] result.px(i, j)).0@[0]) by {
      if i == x { assert(min1(&source, j, sink.at(j))); lemma_col(&source, j, sink.at(j)); } else { assert(result.px(i, j) == pre.px(i, j)); } } }
@ loop 1
  invariant result.same_dims(image), width == image.w(), height == image.h(), row_buffer@.len() == width, row_envelope.boundaries@.len() == width + 1, row_envelope.locations@.len() == width,
    forall|i: int, j: int| 0 <= i < width && y <= j < height ==> colmin(image, i, j, (#[trigger] result.px(i, j)).0@[0]),
    forall|i: int, j: int| 0 <= i < width && 0 <= j < y ==> esq(image, i, j, (#[trigger] result.px(i, j)).0@[0]),
@ loop 1 begin
  let ghost pre = result;
@ loop 2
  invariant row_buffer@.len() == width, forall|i: int| 0 <= i < x ==> #[trigger] row_buffer@[i] == result.px(i, y as int).0@[0],
@ loop 2 after
  proof { assert forall|i: int| 0 <= i < width implies okv(#[trigger] row_buffer@[i]) by { assert(colmin(image, i, y as int, result.px(i, y as int).0@[0])); lemma_col_ok(image, i, y as int, row_buffer@[i]); } }
@ loop 1 end
  proof {
    assert forall|i: int| 0 <= i < width implies colmin(image, i, y as int, #[trigger] row_buffer@[i]) by { assert(colmin(image, i, y as int, pre.px(i, y as int).0@[0])); }
    assert forall|i: int, j: int| 0 <= i < width && 0 <= j < y + 1 implies esq(image, i, j, (#[trigger] result.px(i, j)).0@[0]) by {
      if j == y { assert(min1(&row_buffer, i, sink.at(i))); lemma_row(image, &row_buffer, i, j, sink.at(i)); } else { assert(result.px(i, j) == pre.px(i, j)); } }
    assert forall|i: int, j: int| 0 <= i < width && y + 1 <= j < height implies colmin(image, i, j, (#[trigger] result.px(i, j)).0@[0]) by { assert(result.px(i, j) == pre.px(i, j)); }
  }
@ subst
let mut result = Image::new(width, height);
=>> let mut result: Image<Luma<f64>> = Image::new(width, height);
