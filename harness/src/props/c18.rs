use crate::ctx::*;
use crate::ensure;
use image::GrayImage;
use imageproc::corners::*;

const CIRCLE: [(i32, i32); 16] = [
    (0, -3), (1, -3), (2, -2), (3, -1), (3, 0), (3, 1), (2, 2), (1, 3),
    (0, 3), (-1, 3), (-2, 2), (-3, 1), (-3, 0), (-3, -1), (-2, -2), (-1, -3),
];
fn is_corner(im: &GrayImage, n: usize, t: i32, x: u32, y: u32) -> bool {
    let (w, h) = im.dimensions();
    if x < 3 || y < 3 || x + 3 >= w || y + 3 >= h {
        return false;
    }
    let c = im.get_pixel(x, y)[0] as i32;
    let p: Vec<i32> = CIRCLE.iter().map(|(a, b)| im.get_pixel((x as i32 + a) as u32, (y as i32 + b) as u32)[0] as i32).collect();
    (0..16).any(|s| (0..n).all(|k| p[(s + k) % 16] > c + t)) || (0..16).any(|s| (0..n).all(|k| p[(s + k) % 16] < c - t))
}
pub fn fast(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = match r.u(0, 9) {
        0 => (r.u(0, 9), r.u(0, 9)),
        1..=3 => (r.u(6, 10), r.u(6, 10)),
        _ => (7, 7),
    };
    let mut im = r.gray(w, h);
    if r.chance(4, 5) && w >= 7 && h >= 7 {
        // plant an arc of random length, position and sign
        let (x, y) = (r.u(3, w - 4) as i32, r.u(3, h - 4) as i32);
        let (s, n) = (r.us(0, 15), r.us(7, 16));
        let base = r.u(0, 255) as i32;
        let d = r.i(0, 40) * r.pick(&[1, -1]);
        im.put_pixel(x as u32, y as u32, image::Luma([base as u8]));
        for k in 0..16 {
            let (a, b) = CIRCLE[(s + k) % 16];
            let j = r.i(0, 1);
            let v = if k < n { base + d + j * d.signum() } else { base + r.i(-2, 2) };
            im.put_pixel((x + a) as u32, (y + b) as u32, image::Luma([v.clamp(0, 255) as u8]));
        }
    }
    let t = match r.u(0, 3) {
        0 => r.u(0, 255) as u8,
        1 => r.pick(&[0u8, 1, 254, 255]),
        _ => r.u(0, 40) as u8,
    };
    c.input(format!("corners_fast9/12 with threshold {t} on {}", show(&im)));
    let mut any = false;
    for (n, got) in [(9, corners_fast9(&im, t)), (12, corners_fast12(&im, t))] {
        let mut want = vec![];
        for y in 0..h {
            for x in 0..w {
                if is_corner(&im, n, t as i32, x, y) {
                    let mut s = t as i32;
                    while s < 255 && is_corner(&im, n, s + 1, x, y) {
                        s += 1;
                    }
                    want.push(Corner::new(x, y, s as f32));
                }
            }
        }
        any = any || !want.is_empty();
        ensure!(got == want, "corners_fast{n} gave {:?}, expected {:?}", got, want);
        for k in &want {
            let v = fast_corner_score(&im, t, k.x, k.y, if n == 9 { Fast::Nine } else { Fast::Twelve });
            ensure!(v as f32 == k.score, "fast_corner_score (FAST-{n}) at ({},{}) is {v}, expected {}", k.x, k.y, k.score);
        }
    }
    c.trivial = !any;
    Ok(())
}

pub fn both(r: &mut Rng, i: u64, c: &mut Case) -> R {
    if i % 2 == 0 { fast(r, i, c) } else { crate::props::c30::orb(r, i, c) }
}
