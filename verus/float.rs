// f32 by exact integers: rep(x) = Some(n) when x is the integer n. The axioms state IEEE 754 exactness of +, -, * on integers
// whose result is at most 2^24 in magnitude; beyond that nothing is assumed. fdiv/fmul/fsqrt are uninterpreted but deterministic.
pub uninterp spec fn rep(x: f32) -> Option<int>;
pub open spec fn ri(x: f32, n: int) -> bool { rep(x) == Some(n) }
pub open spec fn exact(n: int) -> bool { -16777216 <= n <= 16777216 }
pub uninterp spec fn fmul(a: f32, b: f32) -> f32;
pub uninterp spec fn fdiv(a: f32, b: f32) -> f32;
pub uninterp spec fn fsqrt(a: f32) -> f32;
pub uninterp spec fn fgt0(a: f32) -> bool;
pub broadcast axiom fn ax_f32_req(a: f32, b: f32) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_f32_sreq(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_f32_mreq(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_f32_dreq(a: f32, b: f32) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_f32_add(a: f32, b: f32, o: f32) requires #[trigger] add_ensures::<f32>(a, b, o)
  ensures rep(a) is Some && rep(b) is Some && exact(rep(a)->0 + rep(b)->0) ==> rep(o) == Some(rep(a)->0 + rep(b)->0);
pub broadcast axiom fn ax_f32_sub(a: f32, b: f32, o: f32) requires #[trigger] sub_ensures::<f32>(a, b, o)
  ensures rep(a) is Some && rep(b) is Some && exact(rep(a)->0 - rep(b)->0) ==> rep(o) == Some(rep(a)->0 - rep(b)->0);
pub broadcast axiom fn ax_f32_mul(a: f32, b: f32, o: f32) requires #[trigger] mul_ensures::<f32>(a, b, o)
  ensures o == fmul(a, b), rep(a) is Some && rep(b) is Some && exact(rep(a)->0 * rep(b)->0) ==> rep(o) == Some(rep(a)->0 * rep(b)->0);
pub broadcast axiom fn ax_f32_mul_comm(a: f32, b: f32) ensures #[trigger] fmul(a, b) == fmul(b, a);
pub broadcast axiom fn ax_f32_div(a: f32, b: f32, o: f32) requires #[trigger] div_ensures::<f32>(a, b, o) ensures o == fdiv(a, b);
pub broadcast axiom fn ax_f32_gt(a: f32, b: f32, o: bool) requires #[trigger] gt_ensures::<f32>(a, b, o)
  ensures rep(b) == Some(0int) ==> o == fgt0(a);
pub broadcast axiom fn ax_f32_u8(v: u8, o: f32) requires #[trigger] vstd::float::float_cast_spec(v, o) ensures rep(o) == Some(v as int);
pub broadcast axiom fn ax_f32_zero() ensures #[trigger] rep(0f32) == Some(0int);
pub broadcast group f32_ops { ax_f32_req, ax_f32_sreq, ax_f32_mreq, ax_f32_dreq, ax_f32_add, ax_f32_sub, ax_f32_mul, ax_f32_div, ax_f32_gt, ax_f32_u8 }
pub assume_specification[ f32::powi ](x: f32, n: i32) -> (r: f32)
  ensures n == 2 && rep(x) is Some && exact(rep(x)->0 * rep(x)->0) ==> rep(r) == Some(rep(x)->0 * rep(x)->0);
pub assume_specification[ f32::sqrt ](x: f32) -> (r: f32) ensures r == fsqrt(x);
// f32 -> u16 of a correctly rounded square root: for n < 2^24 no rounding reaches the next integer, so truncation gives the integer root
pub broadcast axiom fn ax_f32_i16(v: i16, o: f32) requires #[trigger] vstd::float::float_cast_spec(v, o) ensures rep(o) == Some(v as int);
pub broadcast axiom fn ax_isqrt(x: f32, o: u16) requires #[trigger] vstd::float::float_cast_spec(fsqrt(x), o), rep(x) is Some, 0 <= rep(x)->0 < 16777216
  ensures o * o <= rep(x)->0 < (o + 1) * (o + 1);
// a float read from a struct field: Verus does not know its type invariant until it passes through a function
pub proof fn typed(x: f32) -> (r: f32) ensures r == x { x }
