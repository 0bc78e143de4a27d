use crate::ctx::*;
use image::{GrayImage, Luma};
use imageproc::definitions::Image;
use imageproc::edges::canny;
use imageproc::filter::{filter_clamped, gaussian_blur_f32};
use imageproc::kernel;

/// gradient strengths after thinning, from the public blur and Sobel filters
fn thinned(im: &GrayImage) -> Vec<Vec<f32>> {
    let b = gaussian_blur_f32(im, 1.4);
    let gx: Image<Luma<i16>> = filter_clamped(&b, kernel::SOBEL_HORIZONTAL_3X3);
    let gy: Image<Luma<i16>> = filter_clamped(&b, kernel::SOBEL_VERTICAL_3X3);
    let (w, h) = im.dimensions();
    let g = |x: u32, y: u32| (gx.get_pixel(x, y)[0] as f32).hypot(gy.get_pixel(x, y)[0] as f32);
    let mut out = vec![vec![0f32; w as usize]; h as usize];
    for y in 1..h.max(1) - 1 {
        for x in 1..w.max(1) - 1 {
            let mut a = (gy.get_pixel(x, y)[0] as f32).atan2(gx.get_pixel(x, y)[0] as f32) * (180f32 / std::f32::consts::PI);
            if a < 0.0 {
                a += 180.0;
            }
            let (p, q) = if a < 22.5 || a >= 157.5 {
                (g(x - 1, y), g(x + 1, y))
            } else if a < 67.5 {
                (g(x + 1, y + 1), g(x - 1, y - 1))
            } else if a < 112.5 {
                (g(x, y - 1), g(x, y + 1))
            } else {
                (g(x - 1, y + 1), g(x + 1, y - 1))
            };
            let v = g(x, y);
            out[y as usize][x as usize] = if v < p || v < q { 0.0 } else { v };
        }
    }
    out
}
fn trace(t: &[Vec<f32>], w: u32, h: u32, lo: f32, hi: f32, dirs: &[(i64, i64)]) -> GrayImage {
    let mut o = GrayImage::new(w, h);
    let mut st = vec![];
    for y in 1..h.max(1) - 1 {
        for x in 1..w.max(1) - 1 {
            if t[y as usize][x as usize] >= hi {
                o.put_pixel(x, y, Luma([255]));
                st.push((x as i64, y as i64));
            }
        }
    }
    while let Some((x, y)) = st.pop() {
        for d in dirs {
            let (a, b) = (x + d.0, y + d.1);
            if a < 0 || b < 0 || a >= w as i64 || b >= h as i64 || t[b as usize][a as usize] < lo || o.get_pixel(a as u32, b as u32)[0] != 0 {
                continue;
            }
            o.put_pixel(a as u32, b as u32, Luma([255]));
            st.push((a, b));
        }
    }
    o
}
pub fn edges(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = if r.chance(1, 20) { (r.u(0, 3), r.u(0, 3)) } else { (r.u(3, 16), r.u(3, 16)) };
    let mut im = GrayImage::new(w, h);
    if w > 0 && h > 0 {
        im = match r.u(0, 3) {
            0 => r.gray(w, h),
            1 => {
                // an oblique edge of varying strength
                let (a, b, k) = (r.i(-3, 3), r.i(-3, 3), r.i(-20, 20));
                let s = r.i(2, 16);
                GrayImage::from_fn(w, h, |x, y| Luma([if a * x as i32 + b * y as i32 > k { (s * (x as i32 + y as i32)).clamp(0, 255) as u8 } else { 0 }]))
            }
            _ => {
                let mut im = GrayImage::from_pixel(w, h, Luma([r.u(0, 255) as u8]));
                for _ in 0..r.u(1, 4) {
                    let (x0, y0, x1, y1, v) = (r.u(0, w - 1), r.u(0, h - 1), r.u(0, w - 1), r.u(0, h - 1), r.u(0, 255) as u8);
                    for y in y0.min(y1)..=y0.max(y1) {
                        for x in x0.min(x1)..=x0.max(x1) {
                            im.put_pixel(x, y, Luma([v]));
                        }
                    }
                }
                im
            }
        };
    }
    c.input(format!("canny {}", show(&im)));
    let t = thinned(&im);
    let all: Vec<f32> = t.iter().flatten().cloned().filter(|v| *v > 0.0).collect();
    let pickt = |r: &mut Rng| if all.is_empty() || r.chance(1, 3) { r.u(1, 400) as f32 } else { r.pick(&all) };
    let (a, b) = (pickt(r), pickt(r));
    let (lo, hi) = (a.min(b), a.max(b));
    c.input(format!("canny low {lo:?} high {hi:?} {}", show(&im)));
    let got = canny(&im, lo, hi);
    let eight = trace(&t, w, h, lo, hi, &[(1, 0), (1, 1), (0, 1), (-1, -1), (-1, 0), (-1, 1), (0, -1), (1, -1)]);
    if got == eight {
        return Ok(());
    }
    let six = trace(&t, w, h, lo, hi, &[(1, 0), (1, 1), (0, 1), (-1, -1), (-1, 0), (-1, 1)]);
    if got == six {
        c.known("hysteresis-ignores-up-and-up-right");
        return Ok(());
    }
    same("canny", &got, &eight)
}
