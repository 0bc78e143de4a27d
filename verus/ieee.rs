// IEEE 754 binary32 by exact real values. rn is the rounding of a real result to f32; the axioms state what the standard fixes:
// an operation on finite operands yields the rounded exact result; rounding is monotone, keeps representable values, and integers
// and half-integers up to 2^24 and 2^23 are representable. Casts and comparisons are exact.
#[verifier::ext_equal]
pub enum FR { Nan, NInf, Fin(real), PInf }
pub uninterp spec fn fr(x: f32) -> FR;
pub uninterp spec fn rn(r: real) -> FR;
pub open spec fn flt(a: FR, b: FR) -> bool {
  match (a, b) { (FR::Nan, _) => false, (_, FR::Nan) => false, (FR::Fin(x), FR::Fin(y)) => x < y, (FR::NInf, _) => b != FR::NInf, (FR::PInf, _) => false, (FR::Fin(_), _) => b == FR::PInf } }
pub open spec fn fle(a: FR, b: FR) -> bool {
  match (a, b) { (FR::Nan, _) => false, (_, FR::Nan) => false, (FR::Fin(x), FR::Fin(y)) => x <= y, (FR::NInf, _) => true, (FR::PInf, _) => b == FR::PInf, (FR::Fin(_), _) => b == FR::PInf } }
pub open spec fn isfin(x: f32) -> bool { fr(x) is Fin }
pub open spec fn fv(x: f32) -> real { fr(x)->Fin_0 }
/// x is exactly the real r
pub open spec fn fis(x: f32, r: real) -> bool { fr(x) == FR::Fin(r) }
pub open spec fn fneg(a: FR) -> FR { match a { FR::Fin(x) => FR::Fin(-x), FR::NInf => FR::PInf, FR::PInf => FR::NInf, FR::Nan => FR::Nan } }
pub open spec fn fadd(a: FR, b: FR) -> FR {
  match (a, b) { (FR::Nan, _) => FR::Nan, (_, FR::Nan) => FR::Nan, (FR::Fin(x), FR::Fin(y)) => rn(x + y), (FR::Fin(_), _) => b, (_, FR::Fin(_)) => a, _ => if a == b { a } else { FR::Nan } } }
pub broadcast axiom fn ax_rn_mono(a: real, b: real) requires a <= b ensures fle(#[trigger] rn(a), #[trigger] rn(b));
pub broadcast axiom fn ax_rn_val(x: f32) ensures #[trigger] fr(x) is Fin ==> rn(fr(x)->Fin_0) == fr(x);
pub axiom fn ax_rn_int(n: int) requires -16777216 <= n <= 16777216 ensures rn(n as real) == FR::Fin(n as real);
pub axiom fn ax_rn_half(n: int) requires -16777216 <= n <= 16777216 ensures rn(n as real / 2real) == FR::Fin(n as real / 2real);
pub broadcast axiom fn ax_fadd(a: f32, b: f32, o: f32) requires #[trigger] add_ensures::<f32>(a, b, o) ensures fr(o) == fadd(fr(a), fr(b));
pub broadcast axiom fn ax_fsub(a: f32, b: f32, o: f32) requires #[trigger] sub_ensures::<f32>(a, b, o) ensures fr(o) == fadd(fr(a), fneg(fr(b)));
pub broadcast axiom fn ax_fmul(a: f32, b: f32, o: f32) requires #[trigger] mul_ensures::<f32>(a, b, o) ensures isfin(a) && isfin(b) ==> fr(o) == rn(fv(a) * fv(b));
pub broadcast axiom fn ax_fdiv(a: f32, b: f32, o: f32) requires #[trigger] div_ensures::<f32>(a, b, o) ensures isfin(a) && isfin(b) && fv(b) != 0real ==> fr(o) == rn(fv(a) / fv(b));
pub broadcast axiom fn ax_fneg(a: f32, o: f32) requires #[trigger] neg_ensures::<f32>(a, o) ensures isfin(a) ==> fr(o) == FR::Fin(-fv(a));
pub broadcast axiom fn ax_flt(a: f32, b: f32, o: bool) requires #[trigger] lt_ensures::<f32>(a, b, o) ensures o == flt(fr(a), fr(b));
pub broadcast axiom fn ax_fle(a: f32, b: f32, o: bool) requires #[trigger] le_ensures::<f32>(a, b, o) ensures o == fle(fr(a), fr(b));
pub broadcast axiom fn ax_fgt(a: f32, b: f32, o: bool) requires #[trigger] gt_ensures::<f32>(a, b, o) ensures o == flt(fr(b), fr(a));
pub broadcast axiom fn ax_fge(a: f32, b: f32, o: bool) requires #[trigger] ge_ensures::<f32>(a, b, o) ensures o == fle(fr(b), fr(a));
pub broadcast axiom fn ax_fareq(a: f32, b: f32) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_fsreq(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_fmreq(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_fdreq(a: f32, b: f32) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_f0() ensures #[trigger] fr(0f32) == FR::Fin(0real);
pub broadcast axiom fn ax_f1() ensures #[trigger] fr(1f32) == FR::Fin(1real);
pub broadcast axiom fn ax_f2() ensures #[trigger] fr(2f32) == FR::Fin(2real);
pub broadcast axiom fn ax_f4() ensures #[trigger] fr(4f32) == FR::Fin(4real);
pub broadcast axiom fn ax_fh() ensures #[trigger] fr(0.5f32) == FR::Fin(1real / 2real);
/// truncation towards zero
pub open spec fn trunc(v: real) -> int { if v >= 0real { v.floor() } else { -((-v).floor()) } }
pub open spec fn sat(n: int, lo: int, hi: int) -> int { if n < lo { lo } else if n > hi { hi } else { n } }
pub open spec fn ftoi(x: FR, lo: int, hi: int) -> int { match x { FR::Nan => 0, FR::NInf => lo, FR::PInf => hi, FR::Fin(v) => sat(trunc(v), lo, hi) } }
pub broadcast axiom fn ax_f_u32(x: f32, o: u32) requires #[trigger] vstd::float::float_cast_spec(x, o) ensures o == ftoi(fr(x), 0, u32::MAX as int);
pub broadcast axiom fn ax_f_i32(x: f32, o: i32) requires #[trigger] vstd::float::float_cast_spec(x, o) ensures o == ftoi(fr(x), i32::MIN as int, i32::MAX as int);
pub broadcast axiom fn ax_f_u8(x: f32, o: u8) requires #[trigger] vstd::float::float_cast_spec(x, o) ensures o == ftoi(fr(x), 0, 255);
pub broadcast axiom fn ax_u32_f(v: u32, o: f32) requires #[trigger] vstd::float::float_cast_spec(v, o) ensures fr(o) == rn(v as real);
pub broadcast axiom fn ax_i32_f(v: i32, o: f32) requires #[trigger] vstd::float::float_cast_spec(v, o) ensures fr(o) == rn(v as real);
pub broadcast axiom fn ax_u8_f(v: u8, o: f32) requires #[trigger] vstd::float::float_cast_spec(v, o) ensures fr(o) == FR::Fin(v as real);
pub broadcast group ieee { ax_fadd, ax_fsub, ax_fmul, ax_fdiv, ax_fneg, ax_flt, ax_fle, ax_fgt, ax_fge, ax_fareq, ax_fsreq, ax_fmreq, ax_fdreq, ax_f0, ax_f1, ax_f2, ax_f4, ax_fh,
  ax_f_u32, ax_f_i32, ax_f_u8, ax_u32_f, ax_i32_f, ax_u8_f, ax_rn_val }
pub open spec fn ffloor(x: FR) -> FR { match x { FR::Fin(v) => FR::Fin(v.floor() as real), _ => x } }
pub assume_specification[ f32::floor ](x: f32) -> (r: f32) ensures fr(r) == ffloor(fr(x));
pub assume_specification[ f32::abs ](x: f32) -> (r: f32) ensures fr(r) == (match fr(x) { FR::Fin(v) => FR::Fin(if v < 0real { -v } else { v }), FR::NInf => FR::PInf, z => z });
pub proof fn rn_int(n: int) requires -16777216 <= n <= 16777216 ensures rn(n as real) == FR::Fin(n as real) { ax_rn_int(n); }
/// a float below the rounded w is below w
pub proof fn lt_rounded(x: f32, w: u32) requires flt(fr(x), rn(w as real)), fr(x) is Fin ensures fv(x) < w as real, fv(x).floor() < w
{ broadcast use ax_rn_val; if fv(x) >= w as real { ax_rn_mono(w as real, fv(x)); } }
/// an integer float plus a small integer, below the rounded w <= 2^24, is exact
pub proof fn add_exact(l: f32, k: int, r: f32, w: u32)
  requires fr(l) is Fin, 0 <= k <= 4, fr(r) == rn(fv(l) + k as real), flt(fr(r), rn(w as real)), w <= 16777216, fv(l) >= 0real, fv(l) == fv(l).floor() as real,
  ensures fr(r) is Fin, fv(r) == fv(l) + k as real, fv(l) + (k as real) < w as real
{ broadcast use ax_rn_val;
  let n = fv(l).floor() + k;
  assert(n as real == fv(l) + k as real);
  ax_rn_int(w as int);
  if n > w { ax_rn_mono(w as real, n as real); }
  ax_rn_int(n);
}
pub proof fn add_mono(l: f32, k: int, r: f32) requires fr(l) is Fin, k >= 0, fr(r) == rn(fv(l) + k as real) ensures fle(fr(l), fr(r))
{ broadcast use ax_rn_val; ax_rn_mono(fv(l), fv(l) + k as real); }
/// `x as usize`
#[verifier::external_body]
pub fn f2us(x: f32) -> (r: usize) ensures r == ftoi(fr(x), 0, usize::MAX as int) { x as usize }
/// floor(x) - 1, not negative and with left + 4 below the rounded w <= 2^24, is exact
pub proof fn sub_exact_n(n: int, l: FR, r: FR, w: u32)
  requires l == rn(n as real), rn(l->Fin_0) == l, l is Fin, l->Fin_0 >= 0real, r == rn(l->Fin_0 + 4real), flt(r, rn(w as real)), w <= 16777216
  ensures l == FR::Fin(n as real)
{
  ax_rn_int(w as int);
  if n > 16777216 {
    assert(16777216 as real <= n as real);
    ax_rn_int(16777216);
    ax_rn_mono(16777216 as real, n as real);
    ax_rn_mono(l->Fin_0, l->Fin_0 + 4real);
    assert(16777216 as real >= w as real);
  } else if n < -1 {
    assert(n as real <= -1 as real);
    ax_rn_int(-1); ax_rn_mono(n as real, -1 as real);
  } else { ax_rn_int(n); }
}
pub proof fn floor_int(n: int) ensures (n as real).floor() == n {}
pub proof fn sub_exact(x: FR, l: f32, r: f32, w: u32)
  requires x is Fin, fr(l) == rn(x->Fin_0.floor() as real - 1real), fr(l) is Fin, fv(l) >= 0real, fr(r) == rn(fv(l) + 4real), flt(fr(r), rn(w as real)), w <= 16777216
  ensures fv(l) == (x->Fin_0.floor() - 1) as real, fv(l) == fv(l).floor() as real
{ let f = x->Fin_0.floor(); 
  ax_rn_val(l);
  sub_exact_i(f - 1, fr(l), fr(r), w);
}
pub proof fn sub_exact_i(n: int, l: FR, r: FR, w: u32)
  requires l == rn((n + 1) as real - 1real), rn(l->Fin_0) == l, l is Fin, l->Fin_0 >= 0real, r == rn(l->Fin_0 + 4real), flt(r, rn(w as real)), w <= 16777216
  ensures l == FR::Fin(n as real), l->Fin_0.floor() == n
{ assert((n + 1) as real - 1real == n as real); sub_exact_n(n, l, r, w); floor_int(n); }
