@@ text
// f64 arithmetic treated as exact real arithmetic (machine arithmetic idealised: stated in the evidence)
pub uninterp spec fn dv(x: f64) -> real;
pub broadcast axiom fn ax_dadd(a: f64, b: f64, o: f64) requires #[trigger] add_ensures::<f64>(a, b, o) ensures dv(o) == dv(a) + dv(b);
pub broadcast axiom fn ax_dsub(a: f64, b: f64, o: f64) requires #[trigger] sub_ensures::<f64>(a, b, o) ensures dv(o) == dv(a) - dv(b);
pub broadcast axiom fn ax_dmul(a: f64, b: f64, o: f64) requires #[trigger] mul_ensures::<f64>(a, b, o) ensures dv(o) == dv(a) * dv(b);
pub broadcast axiom fn ax_ddiv(a: f64, b: f64, o: f64) requires #[trigger] div_ensures::<f64>(a, b, o) ensures dv(b) != 0real ==> dv(o) == dv(a) / dv(b);
pub broadcast axiom fn ax_dareq(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_dsreq(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_dmreq(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_ddreq(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_dgt(a: f64, b: f64, o: bool) requires #[trigger] gt_ensures::<f64>(a, b, o) ensures o == (dv(a) > dv(b));
pub broadcast axiom fn ax_dlt(a: f64, b: f64, o: bool) requires #[trigger] lt_ensures::<f64>(a, b, o) ensures o == (dv(a) < dv(b));
pub broadcast axiom fn ax_dge(a: f64, b: f64, o: bool) requires #[trigger] ge_ensures::<f64>(a, b, o) ensures o == (dv(a) >= dv(b));
pub broadcast axiom fn ax_dle(a: f64, b: f64, o: bool) requires #[trigger] le_ensures::<f64>(a, b, o) ensures o == (dv(a) <= dv(b));
pub broadcast axiom fn ax_d0() ensures #[trigger] dv(0f64) == 0real;
pub broadcast axiom fn ax_dhalf() ensures #[trigger] dv(0.5f64) * 2real == 1real;
pub broadcast axiom fn ax_d2() ensures #[trigger] dv(2.0f64) == 2real;
pub broadcast axiom fn ax_du32(v: u32, o: f64) requires #[trigger] vstd::float::float_cast_spec(v, o) ensures dv(o) == v as real;
pub broadcast axiom fn ax_du64(v: u64, o: f64) requires #[trigger] vstd::float::float_cast_spec(v, o) ensures dv(o) == v as real;
pub broadcast group dreal { ax_dadd, ax_dsub, ax_dmul, ax_ddiv, ax_dareq, ax_dsreq, ax_dmreq, ax_ddreq, ax_dgt, ax_dlt, ax_dge, ax_dle, ax_d0, ax_dhalf, ax_d2, ax_du32, ax_du64 }
pub assume_specification[ f64::powi ](x: f64, n: i32) -> (r: f64) ensures n == 2 ==> dv(r) == dv(x) * dv(x);
