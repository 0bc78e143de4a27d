use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, Pixel, Rgba};
use imageproc::contrast::*;
use imageproc::definitions::Image;

/// b is a under one non-decreasing table
fn by_table(what: &str, a: &GrayImage, b: &GrayImage) -> R {
    ensure!(a.dimensions() == b.dimensions(), "{what}: dimensions {:?}", b.dimensions());
    let mut t = [None; 256];
    for (p, q) in a.iter().zip(b.iter()) {
        if let Some(o) = t[*p as usize] {
            ensure!(o == *q, "{what}: input {p} becomes both {o} and {q}");
        }
        t[*p as usize] = Some(*q);
    }
    let mut last = (0, 0);
    for (i, o) in t.iter().enumerate() {
        if let Some(o) = *o {
            ensure!(o >= last.1, "{what}: input {} becomes {} but the larger input {i} becomes {o}", last.0, last.1);
            last = (i, o);
        }
    }
    Ok(())
}
fn stretch<P: Pixel<Subpixel = u8> + PartialEq + std::fmt::Debug>(im: &Image<P>, b: (u8, u8, u8, u8), colours: usize) -> R {
    let s = |c: u8| -> u8 {
        let (a, z, lo, hi) = (b.0 as i64, b.1 as i64, b.2 as i64, b.3 as i64);
        let c = c as i64;
        (if c <= a { lo } else if c >= z { hi } else { (c - a) * (hi - lo) / (z - a) + lo }) as u8
    };
    let mut want = im.clone();
    for p in want.pixels_mut() {
        for c in p.channels_mut().iter_mut().take(colours) {
            *c = s(*c);
        }
    }
    same("stretch_contrast", &stretch_contrast(im, b.0, b.1, b.2, b.3), &want)?;
    let mut m = im.clone();
    stretch_contrast_mut(&mut m, b.0, b.1, b.2, b.3);
    same("stretch_contrast_mut", &m, &want)
}
pub fn contrast(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(0, 8), r.dim(0, 8));
    match r.u(0, 5) {
        0 | 1 => {
            let a = r.byte(r.clone().style()).min(254);
            let z = if r.chance(1, 4) { a + 1 } else { r.u(a as u32 + 1, 255) as u8 };
            let lo = r.byte(3);
            let hi = if r.chance(1, 4) { 255 } else { r.u(lo as u32, 255) as u8 };
            let b = (a, z, lo, hi);
            if r.b() {
                // every value once
                let im = GrayImage::from_fn(256, 1, |x, _| image::Luma([x as u8]));
                c.input(format!("stretch_contrast {b:?} of the 256 gray values"));
                stretch(&im, b, 1)
            } else if r.b() {
                let im = r.rgb(w, h);
                c.input(format!("stretch_contrast {b:?} {}", show(&im)));
                stretch(&im, b, 3)
            } else {
                let im: Image<Rgba<u8>> = Image::from_fn(w, h, |_, _| Rgba([r.byte(2), r.byte(2), r.byte(2), r.byte(2)]));
                c.input(format!("stretch_contrast {b:?} {}", show(&im)));
                stretch(&im, b, 3)
            }
        }
        2 | 3 => {
            let im = if r.chance(1, 10) { GrayImage::from_fn(r.u(200, 800), r.u(1, 3), |_, _| image::Luma([r.byte(2)])) } else { r.gray(w, h) };
            c.input(format!("equalize_histogram {}", show(&im)));
            let e = equalize_histogram(&im);
            by_table("equalize_histogram", &im, &e)?;
            let mut m = im.clone();
            equalize_histogram_mut(&mut m);
            same("equalize_histogram_mut", &m, &e)
        }
        _ => {
            let (im, t) = (r.gray(w, h), { let (a, b) = (r.dim(1, 8), r.dim(1, 8)); r.gray(a, b) });
            c.input(format!("match_histogram {} to {}", show(&im), show(&t)));
            let e = match_histogram(&im, &t);
            by_table("match_histogram", &im, &e)?;
            let mut m = im.clone();
            match_histogram_mut(&mut m, &t);
            same("match_histogram_mut", &m, &e)
        }
    }
}
