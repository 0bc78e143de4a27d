use crate::ctx::*;
use image::Pixel;
use imageproc::definitions::Image;
use imageproc::geometric_transformations::translate;

fn check<P: Pixel + PartialEq + std::fmt::Debug>(im: &Image<P>, t: (i32, i32)) -> R
{
    let (w, h) = im.dimensions();
    let cl = |v: i64, n: u32| v.clamp(0, n as i64 - 1) as u32;
    let want = Image::from_fn(w, h, |x, y| *im.get_pixel(cl(x as i64 - t.0 as i64, w), cl(y as i64 - t.1 as i64, h)));
    same("translate", &translate(im, t), &want)
}
pub fn shift(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(1, 8), r.dim(1, 8));
    let mut off = |n: u32| -> i32 {
        match r.u(0, 11) {
            0 => r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, i32::MIN + 3, 1 << 30]),
            1 => n as i32,
            2 => -(n as i32),
            _ => r.i(-(n as i32) - 3, n as i32 + 3),
        }
    };
    let t = (off(w), off(h));
    match r.u(0, 3) {
        0 => {
            let im = r.rgb(w, h);
            c.input(format!("translate by {t:?} {}", show(&im)));
            check(&im, t)
        }
        1 => {
            let im = r.img_i(w, h, |r| r.i(-100000, 100000));
            c.input(format!("translate by {t:?} {}", show(&im)));
            check(&im, t)
        }
        _ => {
            let im = r.gray_style(w, h, 2);
            c.input(format!("translate by {t:?} {}", show(&im)));
            check(&im, t)
        }
    }
}
