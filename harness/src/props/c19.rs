use crate::ctx::*;
use crate::ensure;
use imageproc::local_binary_patterns::*;

fn rot(b: u8, k: u32) -> u8 {
    if k == 0 { b } else { (b >> k) | (b << (8 - k)) }
}
fn transitions(b: u8) -> u32 {
    (0..8).filter(|&k| (b >> k) & 1 != (b >> ((k + 1) % 8)) & 1).count() as u32
}
pub fn one(r: &mut Rng, i: u64, c: &mut Case) -> R {
    if i < 256 {
        let b = i as u8;
        c.input(format!("byte {b}"));
        let m = (0..8).map(|k| rot(b, k)).min().unwrap();
        ensure!(min_shift(b) == m, "min_shift gave {}, expected {m}", min_shift(b));
        ensure!(count_transitions(b) == transitions(b), "count_transitions gave {}, expected {}", count_transitions(b), transitions(b));
        ensure!(MIN_SHIFT[b as usize] == m, "MIN_SHIFT gives {}, expected {m}", MIN_SHIFT[b as usize]);
        let u = if transitions(b) <= 2 { m } else { 0b10101010 };
        ensure!(UNIFORM_REPRESENTATIVE_2[b as usize] == u, "UNIFORM_REPRESENTATIVE_2 gives {}, expected {u}", UNIFORM_REPRESENTATIVE_2[b as usize]);
        return Ok(());
    }
    let (w, h) = (r.dim(0, 6), r.dim(0, 6));
    let im = r.gray(w, h);
    c.input(format!("local_binary_pattern at every position of {}", show(&im)));
    let off = [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)];
    let extra = r.pick(&[0, 1, u32::MAX - w.max(h)]);
    for dy in 0..h + 2 {
        for dx in 0..w + 2 {
            let (x, y) = (if dx > w { dx - 1 + extra } else { dx }, if dy > h { dy - 1 + extra } else { dy });
            let g = local_binary_pattern(&im, x, y);
            let inner = x >= 1 && y >= 1 && (x as u64) + 1 < w as u64 && (y as u64) + 1 < h as u64;
            let e = if inner {
                let v = im.get_pixel(x, y)[0];
                let mut p = 0u8;
                for (k, (a, b)) in off.iter().enumerate() {
                    if im.get_pixel((x as i32 + a) as u32, (y as i32 + b) as u32)[0] < v {
                        p |= 1 << k;
                    }
                }
                Some(p)
            } else {
                None
            };
            ensure!(g == e, "pattern at ({x},{y}) is {:?}, expected {:?}", g, e);
        }
    }
    Ok(())
}
