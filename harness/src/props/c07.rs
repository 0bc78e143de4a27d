use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba};
use imageproc::definitions::{Clamp, Image};
use imageproc::filter::*;
use imageproc::gradients::*;
use imageproc::kernel::{self, Kernel};

fn cl(v: i64, n: u32) -> u32 {
    v.clamp(0, n as i64 - 1) as u32
}
fn img<P: Pixel<Subpixel = u8>>(r: &mut Rng, w: u32, h: u32) -> Image<P> {
    let s = r.style();
    let mut i: Image<P> = ImageBuffer::new(w, h);
    for p in i.iter_mut() {
        *p = r.byte(s);
    }
    i
}
fn med<P>(im: &Image<P>, rx: u32, ry: u32) -> R
where
    P: Pixel<Subpixel = u8> + PartialEq + std::fmt::Debug,
{
    let out = median_filter(im, rx, ry);
    ensure!(out.dimensions() == im.dimensions(), "median_filter: dimensions {:?}", out.dimensions());
    let (w, h) = im.dimensions();
    for y in 0..h {
        for x in 0..w {
            for c in 0..P::CHANNEL_COUNT as usize {
                let mut v = vec![];
                for dy in -(ry as i64)..=ry as i64 {
                    for dx in -(rx as i64)..=rx as i64 {
                        v.push(im.get_pixel(cl(x as i64 + dx, w), cl(y as i64 + dy, h)).channels()[c]);
                    }
                }
                v.sort_unstable();
                let (g, e) = (out.get_pixel(x, y).channels()[c], v[v.len() / 2]);
                ensure!(g == e, "median at ({x},{y}) channel {c} is {g}, expected {e}");
            }
        }
    }
    Ok(())
}
pub fn median(r: &mut Rng, n: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(0, 7), r.dim(0, 7));
    let m = if n % 5 == 0 { 9 } else { 3 };
    let (mut rx, mut ry) = (r.u(0, m), r.u(0, m));
    let (mut w, mut h) = (w, h);
    // a kernel far wider or taller than the image, with more than 255 samples
    if n % 12 == 1 {
        (rx, w, h) = (r.u(100, 300), r.u(1, 9), r.u(1, 3));
        ry = ry.min(2);
        if r.chance(1, 2) {
            (rx, ry, w, h) = (ry, rx, h, w);
        }
    }
    c.trivial = w * h < 2;
    macro_rules! go {
        ($p:ty) => {{
            let im: Image<$p> = img(r, w, h);
            c.input(format!("median_filter {} rx {rx} ry {ry} {}", stringify!($p), show(&im)));
            med(&im, rx, ry)
        }};
    }
    match r.u(0, 5) {
        0 => go!(Rgb<u8>),
        1 => go!(Rgba<u8>),
        2 => go!(LumaA<u8>),
        _ => go!(Luma<u8>),
    }
}

/// the defining sum, accumulated in row-major kernel order
macro_rules! corr {
    ($im:expr, $k:expr, $kw:expr, $kh:expr, $x:expr, $y:expr, $c:expr, $t:ty) => {{
        let (w, h) = $im.dimensions();
        let mut acc: $t = 0 as $t;
        for ky in 0..$kh {
            for kx in 0..$kw {
                let px = cl($x as i64 + kx as i64 - ($kw / 2) as i64, w);
                let py = cl($y as i64 + ky as i64 - ($kh / 2) as i64, h);
                acc = acc + <$t>::from($im.get_pixel(px, py).channels()[$c]) * $k[(ky * $kw + kx) as usize];
            }
        }
        acc
    }};
}
/// a float sum may be rounded differently by a different order of summation
fn near(g: u8, e: f32) -> bool {
    g >= <u8 as Clamp<f32>>::clamp(e - 1e-3) && g <= <u8 as Clamp<f32>>::clamp(e + 1e-3)
}
macro_rules! float {
    (f32) => {
        true
    };
    ($t:ty) => {
        stringify!($t) == "f32"
    };
}
macro_rules! dims {
    ($what:expr, $o:expr, $im:expr) => {
        ensure!($o.dimensions() == $im.dimensions(), "{}: dimensions {:?}", $what, $o.dimensions())
    };
}
fn general<P>(im: &Image<P>, r: &mut Rng, c: &mut Case) -> R
where
    P: Pixel<Subpixel = u8> + PartialEq + std::fmt::Debug + imageproc::map::WithChannel<i16> + imageproc::map::WithChannel<u8, Pixel = P> + Send + Sync,
    <P as imageproc::map::WithChannel<i16>>::Pixel: Send,
{
    let n = P::CHANNEL_COUNT as usize;
    let (kw, kh) = (r.u(1, 6), r.u(1, 6));
    let big = r.chance(1, 4);
    let ki: Vec<i32> = (0..kw * kh).map(|_| if big { r.i(-900, 900) } else { r.i(-3, 3) }).collect();
    let kf: Vec<f32> = ki.iter().map(|v| *v as f32 / 7.0).collect();
    c.input(format!("filter {n} channels, kernel {kw}x{kh} {ki:?} (float kernel: divided by 7) {}", show(im)));
    let a: Image<P> = filter(im, Kernel::new(&ki, kw, kh), |v: i32| (v & 255) as u8);
    let b = filter_clamped::<P, i32, i16>(im, Kernel::new(&ki, kw, kh));
    let d: Image<P> = filter(im, Kernel::new(&kf, kw, kh), |v: f32| <u8 as Clamp<f32>>::clamp(v));
    let bp = filter_clamped_parallel::<P, i32, i16>(im, Kernel::new(&ki, kw, kh));
    let ap: Image<P> = filter_parallel(im, Kernel::new(&ki, kw, kh), |v: i32| (v & 255) as u8);
    dims!("filter", a, im);
    dims!("filter_clamped", b, im);
    dims!("filter (f32)", d, im);
    dims!("filter_clamped_parallel", bp, im);
    dims!("filter_parallel", ap, im);
    for y in 0..im.height() {
        for x in 0..im.width() {
            for q in 0..n {
                let e = corr!(im, ki, kw, kh, x, y, q, i32);
                let g = a.get_pixel(x, y).channels()[q];
                ensure!(g == (e & 255) as u8, "filter at ({x},{y}) channel {q} is {g}, correlation {e}");
                let g = ap.get_pixel(x, y).channels()[q];
                ensure!(g == (e & 255) as u8, "filter_parallel at ({x},{y}) channel {q} is {g}, correlation {e}");
                let want = e.clamp(i16::MIN as i32, i16::MAX as i32) as i16;
                let g = b.get_pixel(x, y).channels()[q];
                ensure!(g == want, "filter_clamped at ({x},{y}) channel {q} is {g}, expected {want}");
                let g = bp.get_pixel(x, y).channels()[q];
                ensure!(g == want, "filter_clamped_parallel at ({x},{y}) channel {q} is {g}, expected {want}");
                let e = corr!(im, kf, kw, kh, x, y, q, f32);
                let g = d.get_pixel(x, y).channels()[q];
                ensure!(near(g, e), "filter (f32) at ({x},{y}) channel {q} is {g}, correlation {e}");
            }
        }
    }
    Ok(())
}
fn separable<P>(im: &Image<P>, r: &mut Rng, c: &mut Case) -> R
where
    P: Pixel<Subpixel = u8> + PartialEq + std::fmt::Debug,
{
    let n = P::CHANNEL_COUNT as usize;
    let k = r.u(0, 8);
    let ki: Vec<i32> = (0..k).map(|_| r.i(-2, 3)).collect();
    let kv: Vec<i32> = (0..k).map(|_| r.i(-2, 3)).collect();
    let kf: Vec<f32> = ki.iter().map(|v| *v as f32 / 5.0).collect();
    c.input(format!("horizontal/vertical/separable filter, kernels {ki:?} {kv:?} (float kernel: the first divided by 5) {}", show(im)));
    macro_rules! one {
        ($what:expr, $out:expr, $im:expr, $k:expr, $kw:expr, $kh:expr, $t:ty) => {{
            let out = $out;
            dims!($what, out, im);
            for y in 0..im.height() {
                for x in 0..im.width() {
                    for q in 0..n {
                        let e = corr!($im, $k, $kw, $kh, x, y, q, $t);
                        let g = out.get_pixel(x, y).channels()[q];
                        ensure!(g == <u8 as Clamp<$t>>::clamp(e) || float!($t) && near(g, e as f32), "{} at ({x},{y}) channel {q} is {g}, correlation {e}", $what);
                    }
                }
            }
            out
        }};
    }
    let hi = one!("horizontal_filter", horizontal_filter(im, &ki), im, ki, k, 1, i32);
    one!("vertical_filter", vertical_filter(im, &ki), im, ki, 1, k, i32);
    one!("horizontal_filter (f32)", horizontal_filter(im, &kf), im, kf, k, 1, f32);
    one!("vertical_filter (f32)", vertical_filter(im, &kf), im, kf, 1, k, f32);
    // the separable filter is the vertical filter of the horizontal filter's (clamped) result
    one!("separable_filter", separable_filter(im, &ki, &kv), hi, kv, 1, k, i32);
    one!("separable_filter_equal", separable_filter_equal(im, &ki), hi, ki, 1, k, i32);
    Ok(())
}
fn grads(im: &GrayImage, r: &mut Rng, c: &mut Case) -> R {
    c.input(format!("gradient and Laplacian filters {}", show(im)));
    let (w, h) = im.dimensions();
    let hk = [
        (kernel::SOBEL_HORIZONTAL_3X3, kernel::SOBEL_VERTICAL_3X3, [-1, 0, 1, -2, 0, 2, -1, 0, 1], [-1, -2, -1, 0, 0, 0, 1, 2, 1]),
        (kernel::SCHARR_HORIZONTAL_3X3, kernel::SCHARR_VERTICAL_3X3, [-3, 0, 3, -10, 0, 10, -3, 0, 3], [-3, -10, -3, 0, 0, 0, 3, 10, 3]),
        (kernel::PREWITT_HORIZONTAL_3X3, kernel::PREWITT_VERTICAL_3X3, [-1, 0, 1, -1, 0, 1, -1, 0, 1], [-1, -1, -1, 0, 0, 0, 1, 1, 1]),
    ];
    let outs = [
        (horizontal_sobel(im), vertical_sobel(im), sobel_gradients(im)),
        (horizontal_scharr(im), vertical_scharr(im), gradients_grayscale(im, hk[1].0, hk[1].1)),
        (horizontal_prewitt(im), vertical_prewitt(im), prewitt_gradients(im)),
    ];
    let lap = laplacian_filter(im);
    let lapp = laplacian_filter_parallel(im);
    let sh = sharpen3x3(im);
    let shp = sharpen3x3_parallel(im);
    let lk = [0i32, 1, 0, 1, -4, 1, 0, 1, 0];
    let sk = [0i32, -1, 0, -1, 5, -1, 0, -1, 0];
    for y in 0..h {
        for x in 0..w {
            for (i, (hh, vv, gg)) in outs.iter().enumerate() {
                let (eh, ev) = (corr!(im, hk[i].2, 3, 3, x, y, 0, i32), corr!(im, hk[i].3, 3, 3, x, y, 0, i32));
                ensure!(hh.get_pixel(x, y)[0] as i32 == eh, "horizontal gradient {i} at ({x},{y}) is {}, expected {eh}", hh.get_pixel(x, y)[0]);
                ensure!(vv.get_pixel(x, y)[0] as i32 == ev, "vertical gradient {i} at ({x},{y}) is {}, expected {ev}", vv.get_pixel(x, y)[0]);
                let m = ((eh as f64).powi(2) + (ev as f64).powi(2)).sqrt();
                let g = gg.get_pixel(x, y)[0] as f64;
                ensure!((g - m.floor()).abs() <= 1.0 && g <= m + 0.01, "gradient magnitude {i} at ({x},{y}) is {g}, expected {m}");
            }
            let e = corr!(im, lk, 3, 3, x, y, 0, i32);
            ensure!(lap.get_pixel(x, y)[0] as i32 == e && lapp.get_pixel(x, y)[0] as i32 == e, "Laplacian at ({x},{y}) is {} / {}, expected {e}", lap.get_pixel(x, y)[0], lapp.get_pixel(x, y)[0]);
            let e = corr!(im, sk, 3, 3, x, y, 0, i32).clamp(0, 255);
            ensure!(sh.get_pixel(x, y)[0] as i32 == e && shp.get_pixel(x, y)[0] as i32 == e, "sharpen3x3 at ({x},{y}) is {} / {}, expected {e}", sh.get_pixel(x, y)[0], shp.get_pixel(x, y)[0]);
        }
    }
    for o in outs.iter() {
        dims!("gradient", o.0, im);
        dims!("gradient", o.1, im);
        dims!("gradient", o.2, im);
    }
    // a Gaussian blur of a constant image is that image (up to rounding), in the same dimensions
    if r.chance(1, 4) && w > 0 && h > 0 {
        let sigma = r.u(1, 40) as f32 / 10.0;
        let v = r.u(0, 255) as u8;
        let k = GrayImage::from_pixel(w, h, Luma([v]));
        let b = gaussian_blur_f32(&k, sigma);
        dims!("gaussian_blur_f32", b, im);
        ensure!(b.pixels().all(|p| p[0].abs_diff(v) <= 2), "gaussian_blur_f32 (sigma {sigma}) of constant {v}: {}", show(&b));
    }
    Ok(())
}
pub fn linear(r: &mut Rng, n: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(0, 7), r.dim(0, 7));
    c.trivial = w * h < 2;
    match (n % 4, r.chance(1, 3)) {
        (0, _) => {
            let im = r.gray(w, h);
            grads(&im, r, c)
        }
        (1, false) => general(&r.gray(w, h), r, c),
        (1, true) => general(&r.rgb(w, h), r, c),
        (_, false) => separable(&r.gray(w, h), r, c),
        (_, true) => separable(&r.rgb(w, h), r, c),
    }
}
