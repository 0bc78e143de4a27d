use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, ImageBuffer, Luma, Pixel, Rgb, Rgba};
use imageproc::contrast::otsu_level;
use imageproc::definitions::Image;
use imageproc::noise::*;

fn salt<P>(im: &Image<P>, black: P, white: P, rate: f64, seed: u64) -> R
where
    P: Pixel + imageproc::definitions::HasBlack + imageproc::definitions::HasWhite + PartialEq + std::fmt::Debug,
    P::Subpixel: std::fmt::Debug + PartialEq,
{
    let a = salt_and_pepper_noise(im, rate, seed);
    ensure!(a.dimensions() == im.dimensions(), "dimensions {:?}", a.dimensions());
    ensure!(a.as_raw() == salt_and_pepper_noise(im, rate, seed).as_raw(), "a second run with the same seed differs");
    let mut m = im.clone();
    salt_and_pepper_noise_mut(&mut m, rate, seed);
    ensure!(a.as_raw() == m.as_raw(), "in-place and allocating versions differ");
    let (mut changed, mut whites) = (0u64, 0u64);
    for (p, q) in im.pixels().zip(a.pixels()) {
        ensure!(p == q || *q == black || *q == white, "pixel {p:?} became {q:?}");
        changed += (*q == black || *q == white) as u64;
        whites += (*q == white) as u64;
    }
    let n = im.width() as u64 * im.height() as u64;
    if rate == 0.0 && n > 0 && !im.pixels().any(|p| *p == black || *p == white) {
        ensure!(a.as_raw() == im.as_raw(), "rate 0 changes pixels");
    }
    if rate >= 1.0 {
        ensure!(changed == n, "rate 1 leaves {} pixels unchanged", n - changed);
    }
    if n >= 400 && !im.pixels().any(|p| *p == black || *p == white) {
        let off = |k: u64, n: u64, p: f64| (k as f64 - n as f64 * p).abs() > 8.0 * (n as f64 * p * (1.0 - p)).sqrt() + 1.0;
        ensure!(!off(changed, n, rate.clamp(0.0, 1.0)), "{changed} of {n} pixels changed at rate {rate}");
        ensure!(!off(whites, changed, 0.5), "{whites} of {changed} changed pixels are white");
    }
    Ok(())
}
fn gauss<P>(im: &Image<P>, lo: f64, hi: f64, mean: f64, sd: f64, seed: u64, get: fn(P::Subpixel) -> f64) -> R
where
    P: Pixel,
    P::Subpixel: Into<f64> + imageproc::definitions::Clamp<f64> + std::fmt::Debug + PartialEq,
{
    let a = gaussian_noise(im, mean, sd, seed);
    ensure!(a.dimensions() == im.dimensions(), "dimensions {:?}", a.dimensions());
    ensure!(a.as_raw() == gaussian_noise(im, mean, sd, seed).as_raw(), "a second run with the same seed differs");
    let mut m = im.clone();
    gaussian_noise_mut(&mut m, mean, sd, seed);
    ensure!(a.as_raw() == m.as_raw(), "in-place and allocating versions differ");
    let ch = P::CHANNEL_COUNT as usize;
    // over all samples, then for each channel on its own
    for only in std::iter::once(None).chain((0..ch).map(Some)) {
        let (mut n, mut s, mut s2, mut inside) = (0f64, 0f64, 0f64, true);
        let mut prev = f64::NAN;
        let (mut pairs, mut cross) = (0f64, 0f64);
        for (k, (p, q)) in im.iter().zip(a.iter()).enumerate() {
            if only.map_or(false, |o| k % ch != o) {
                continue;
            }
            let (p, q) = (get(*p), get(*q));
            if sd == 0.0 {
                ensure!(q == (p + mean).clamp(lo, hi).trunc(), "{p} + {mean} became {q}");
            }
            inside &= p + mean - 9.0 * sd > lo && p + mean + 9.0 * sd < hi;
            let d = q - p - mean + 0.5;
            n += 1.0;
            s += d;
            s2 += d * d;
            if !prev.is_nan() {
                pairs += 1.0;
                cross += prev * d;
            }
            prev = d;
        }
        if inside && n >= 300.0 && sd >= 4.0 && lo >= 0.0 {
            let of = only.map_or(String::new(), |o| format!(" of channel {o}"));
            ensure!(s.abs() / n < 8.0 * sd / n.sqrt() + 0.1, "mean noise{of} {} instead of {mean}", s / n + mean);
            let v = s2 / n;
            ensure!((v / (sd * sd) - 1.0).abs() < 8.0 * (2.0 / n).sqrt() + 0.1, "noise variance{of} {v} instead of {}", sd * sd);
            ensure!(cross.abs() / pairs < sd * sd * (8.0 / pairs.sqrt() + 0.05), "the noise of neighbouring samples{of} is not independent (covariance {})", cross / pairs);
        }
    }
    Ok(())
}
pub fn noise(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let big = r.chance(1, 4);
    let (w, h) = if big { (r.u(20, 40), r.u(20, 40)) } else { (r.dim(0, 6), r.dim(0, 6)) };
    let seed = if r.b() { r.next() } else { r.u(0, 3) as u64 };
    let rate = match r.u(0, 4) {
        0 => 0.0,
        1 => 1.0,
        2 => r.pick(&[-0.5, 1.5]),
        _ => r.u(0, 1000) as f64 / 1000.0,
    };
    let gray = if big { GrayImage::from_fn(w, h, |_, _| Luma([r.u(1, 254) as u8])) } else { r.gray(w, h) };
    c.input(format!("salt_and_pepper rate {rate} seed {seed} on {}", show(&gray)));
    salt(&gray, Luma([0]), Luma([255]), rate, seed)?;
    let rgb = if big { Image::<Rgb<u8>>::from_fn(w, h, |_, _| Rgb([r.u(1, 254) as u8, r.u(0, 255) as u8, r.u(0, 255) as u8])) } else { r.rgb(w, h) };
    c.input(format!("salt_and_pepper rate {rate} seed {seed} on {}", show(&rgb)));
    salt(&rgb, Rgb([0, 0, 0]), Rgb([255, 255, 255]), rate, seed)?;
    let mean = r.int(-200, 200) as f64 / 4.0;
    let sd = if r.chance(1, 3) { 0.0 } else { r.u(1, 160) as f64 / 4.0 };
    c.input(format!("gaussian_noise mean {mean} stddev {sd} seed {seed} on {}", show(&gray)));
    gauss(&gray, 0.0, 255.0, mean, sd, seed, |v| v as f64)?;
    c.input(format!("gaussian_noise mean {mean} stddev {sd} seed {seed} on {}", show(&rgb)));
    gauss(&rgb, 0.0, 255.0, mean, sd, seed, |v| v as f64)?;
    let wide: Image<Luma<u16>> = ImageBuffer::from_fn(w, h, |_, _| Luma([r.u(2000, 60000) as u16]));
    c.input(format!("gaussian_noise mean {mean} stddev {sd} seed {seed} on {}", show(&wide)));
    gauss(&wide, 0.0, 65535.0, mean, sd, seed, |v| v as f64)?;
    let rgba: Image<Rgba<u16>> = ImageBuffer::from_fn(w, h, |_, _| Rgba([r.u(2000, 60000) as u16, r.u(2000, 60000) as u16, r.u(2000, 60000) as u16, r.u(2000, 60000) as u16]));
    c.input(format!("gaussian_noise mean {mean} stddev {sd} seed {seed} on {}", show(&rgba)));
    gauss(&rgba, 0.0, 65535.0, mean, sd, seed, |v| v as f64)
}

pub fn otsu(r: &mut Rng, i: u64, c: &mut Case) -> R {
    let im = if i == 1 || (i > 100_000 && i % 10_000 == 1) {
        // more than 2^32 / 255 bright pixels
        let s = r.u(4105, 4120);
        let k = r.u(1, 40);
        let mut im = GrayImage::from_pixel(s, s, Luma([r.pick(&[255u8, 254])]));
        for _ in 0..k {
            let (x, y) = (r.u(0, s - 1), r.u(0, s - 1));
            im.put_pixel(x, y, Luma([r.u(0, 255) as u8]));
        }
        im
    } else if i % 400 == 7 {
        // both classes of more than 2^16 pixels
        let (w, h) = (r.u(300, 700), r.u(450, 700));
        let (a, b, d, s, q) = (r.int(0, 255), r.int(0, 255), r.int(0, 255), r.int(0, 20), r.u(20, 80));
        let v: Vec<u8> = (0..w * h)
            .map(|_| {
                let m = if r.u(0, 99) < q { a } else { r.pick(&[b, b, d]) };
                (m + r.int(-s, s)).clamp(0, 255) as u8
            })
            .collect();
        GrayImage::from_vec(w, h, v).unwrap()
    } else {
        let (w, h) = if r.chance(1, 6) { (r.u(1, 60), r.u(1, 60)) } else { (r.dim(0, 7), r.dim(0, 7)) };
        match r.u(0, 5) {
            0 => GrayImage::from_pixel(w, h, Luma([r.u(0, 255) as u8])),
            1 => {
                // two or three clusters
                let (a, b, d) = (r.int(0, 255), r.int(0, 255), r.int(0, 255));
                let s = r.int(0, 20);
                GrayImage::from_fn(w, h, |_, _| Luma([(r.pick(&[a, a, b, d]) + r.int(-s, s)).clamp(0, 255) as u8]))
            }
            2 => {
                // two levels, one rare
                let (a, b) = (r.u(0, 255) as u8, r.u(0, 255) as u8);
                GrayImage::from_fn(w, h, |_, _| Luma([if r.chance(1, 20) { a } else { b }]))
            }
            _ => r.gray(w, h),
        }
    };
    if im.width() < 200 {
        c.input(format!("otsu_level of {}", show(&im)));
    } else {
        let mut h = [0u32; 256];
        im.as_raw().iter().for_each(|v| h[*v as usize] += 1);
        let h: Vec<_> = h.iter().enumerate().filter(|(_, n)| **n > 0).collect();
        c.input(format!("otsu_level of a {}x{} image with (value, count) {h:?}", im.width(), im.height()));
    }
    let mut h = [0i128; 256];
    for v in im.as_raw() {
        h[*v as usize] += 1;
    }
    let (n, s): (i128, i128) = (h.iter().sum(), (0..256).map(|v| v as i128 * h[v]).sum());
    let var = |t: usize| {
        let (lo, ls): (i128, i128) = (h[..=t].iter().sum(), (0..=t).map(|v| v as i128 * h[v]).sum());
        let (hi, hs) = (n - lo, s - ls);
        if lo == 0 || hi == 0 {
            return None;
        }
        let d = ls * hi - hs * lo;
        Some((d * d) as f64 / (lo * hi) as f64)
    };
    let got = otsu_level(&im);
    match (0..256).filter_map(var).reduce(f64::max) {
        None => ensure!(got == 0, "level {got} for an image of at most one value"),
        Some(best) => match var(got as usize) {
            None => return Err(format!("level {got} puts all pixels into one class")),
            Some(v) => ensure!(v >= best * (1.0 - 1e-9), "level {got} has between-class variance {v}, the maximum is {best}"),
        },
    }
    Ok(())
}
