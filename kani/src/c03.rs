//! C03: for every x, `clamp(x)` is the target type's minimum/maximum or x truncated toward zero.
use imageproc::definitions::Clamp;
macro_rules! int { ($n:ident, $f:ty, $t:ty) => {
    #[kani::proof]
    fn $n() {
        let x: $f = kani::any();
        let r = <$t as Clamp<$f>>::clamp(x);
        let (x, r) = (x as i128, r as i128);
        let (lo, hi) = (<$t>::MIN as i128, <$t>::MAX as i128);
        assert!(r == if x <= lo { lo } else if x >= hi { hi } else { x }, "C03 clamp saturates");
    } } }
macro_rules! flt { ($n:ident, $f:ty, $t:ty) => {
    #[kani::proof]
    fn $n() {
        let x: $f = kani::any();
        kani::assume(!x.is_nan());
        let r = <$t as Clamp<$f>>::clamp(x);
        let (lo, hi) = (<$t>::MIN as $f, <$t>::MAX as $f);
        if x <= lo { assert!(r == <$t>::MIN, "C03 at or below the minimum") }
        else if x >= hi { assert!(r == <$t>::MAX, "C03 at or above the maximum") }
        else { let d = x - r as $f; assert!(r as $f <= x && d >= 0.0 && (r as $f) + 1.0 > x, "C03 truncation toward zero") }
    } } }
macro_rules! ident { ($n:ident, $t:ty) => {
    #[kani::proof]
    fn $n() { let x: $t = kani::any(); assert!(<$t as Clamp<$t>>::clamp(x) == x, "C03 identity"); } } }
macro_rules! identf { ($n:ident, $t:ty) => {
    #[kani::proof]
    fn $n() { let x: $t = kani::any(); assert!(<$t as Clamp<$t>>::clamp(x).to_bits() == x.to_bits() || x.is_nan(), "C03 identity"); } } }
int!(c03_i16_u8, i16, u8); int!(c03_u16_u8, u16, u8); int!(c03_i32_u8, i32, u8); int!(c03_u32_u8, u32, u8);
int!(c03_i32_u16, i32, u16); int!(c03_i32_i16, i32, i16);
flt!(c03_f32_u8, f32, u8); flt!(c03_f64_u8, f64, u8); flt!(c03_f32_u16, f32, u16); flt!(c03_f64_u16, f64, u16);
ident!(c03_id_u8, u8); ident!(c03_id_i8, i8); ident!(c03_id_u16, u16); ident!(c03_id_i16, i16); ident!(c03_id_u32, u32); ident!(c03_id_i32, i32);
ident!(c03_id_u64, u64); ident!(c03_id_i64, i64); identf!(c03_id_f32, f32); identf!(c03_id_f64, f64);
