use crate::ctx::*;
use crate::ensure;
use imageproc::definitions::Clamp;

fn near(r: &mut Rng) -> i128 {
    let base = r.pick(&[0i128, 255, 256, 128, 127, -1, -128, 32767, 32768, -32768, -32769, 65535, 65536, 1 << 31, -(1i128 << 31), (1i128 << 32) - 1, 511, 131071]);
    base + r.int(-3, 3) as i128
}
fn whole(r: &mut Rng) -> i128 {
    match r.u(0, 2) {
        0 => near(r),
        1 => r.next() as i64 as i128,
        _ => r.int(-70000, 70000) as i128,
    }
}
macro_rules! int {
    ($r:expr, $c:expr, $f:ty, $t:ty) => {{
        let x = whole($r) as $f;
        $c.input(format!("{}::clamp({}{})", stringify!($t), x, stringify!($f)));
        let g = <$t as Clamp<$f>>::clamp(x) as i128;
        let e = (x as i128).clamp(<$t>::MIN as i128, <$t>::MAX as i128);
        ensure!(g == e, "got {g}, expected {e}");
        Ok(())
    }};
}
macro_rules! flt {
    ($r:expr, $c:expr, $f:ty, $t:ty) => {{
        let x: $f = match $r.u(0, 5) {
            0 => near($r) as $f,
            1 => near($r) as $f + $r.int(-99, 99) as $f / 100.0,
            2 => <$f>::from_bits($r.next() as _),
            3 => $r.pick(&[<$f>::INFINITY, <$f>::NEG_INFINITY, <$f>::MAX, <$f>::MIN, <$f>::MIN_POSITIVE, -0.0, 0.0]),
            4 => $r.int(-300, 70000) as $f + $r.int(0, 1000) as $f / 1000.0,
            _ => { let b = (near($r) as $f).to_bits(); <$f>::from_bits(if $r.b() { b.wrapping_add(1) } else { b.wrapping_sub(1) }) }
        };
        if x.is_nan() { $c.trivial = true; return Ok(()); }
        $c.input(format!("{}::clamp({:?}{})", stringify!($t), x, stringify!($f)));
        let g = <$t as Clamp<$f>>::clamp(x);
        let e = if x <= <$t>::MIN as $f { <$t>::MIN } else if x >= <$t>::MAX as $f { <$t>::MAX } else { x.trunc() as $t };
        ensure!(g == e, "got {g}, expected {e}");
        Ok(())
    }};
}
macro_rules! ident {
    ($r:expr, $c:expr, $($t:ty)*) => {{ $(
        let x = $r.next() as $t;
        $c.input(format!("{}::clamp({})", stringify!($t), x));
        ensure!(<$t as Clamp<$t>>::clamp(x) == x, "identity conversion of {x} gave {}", <$t as Clamp<$t>>::clamp(x));
    )* Ok(()) }};
}
pub fn one(r: &mut Rng, i: u64, c: &mut Case) -> R {
    match i % 11 {
        0 => int!(r, c, i16, u8),
        1 => int!(r, c, u16, u8),
        2 => int!(r, c, i32, u8),
        3 => int!(r, c, u32, u8),
        4 => int!(r, c, i32, u16),
        5 => int!(r, c, i32, i16),
        6 => flt!(r, c, f32, u8),
        7 => flt!(r, c, f64, u8),
        8 => flt!(r, c, f32, u16),
        9 => flt!(r, c, f64, u16),
        _ => ident!(r, c, u8 i8 u16 i16 u32 i32 u64 i64 f32 f64),
    }
}
