use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, Luma};
use imageproc::haar::*;
use imageproc::integral_image::integral_image;

/// number of placements of k equal blocks in a side of length s
fn count(s: u64, k: u64) -> u64 {
    (1..=s / k).map(|b| s + 1 - k * b).sum()
}
/// the sign pattern the feature draws: +1 white, -1 black, 0 untouched
fn pattern(f: HaarFeature, w: u32, h: u32) -> Vec<i8> {
    let d = draw_haar_feature(&GrayImage::from_pixel(w, h, Luma([7])), f);
    d.iter().map(|&v| if v == 255 { 1 } else if v == 0 { -1 } else { 0 }).collect()
}
fn all(w: u32, h: u32) -> Vec<Vec<i8>> {
    let mut v = Vec::new();
    for (bx, by) in [(2, 1), (3, 1), (1, 2), (1, 3), (2, 2)] {
        for bw in 1..=w / bx {
            for bh in 1..=h / by {
                for l in 0..=w - bx * bw {
                    for t in 0..=h - by * bh {
                        for s in [1i8, -1] {
                            let mut p = vec![0i8; (w * h) as usize];
                            for x in 0..bx * bw {
                                for y in 0..by * bh {
                                    p[((t + y) * w + l + x) as usize] = if (x / bw + y / bh) % 2 == 0 { s } else { -s };
                                }
                            }
                            v.push(p);
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn haar(r: &mut Rng, i: u64, c: &mut Case) -> R {
    // a few frames with an extreme side first, then small ones
    let (w, h) = match i {
        0 => (255, 1),
        1 => (1, 255),
        2 => (254, 1),
        3 => (0, 0),
        4 => (255, 0),
        5 => (1, 254),
        6 => (128, 2),
        7 => (2, 254),
        _ if r.chance(1, 40) => (r.u(9, 24), r.u(0, 4)),
        _ => (r.u(0, 6), r.u(0, 6)),
    };
    c.input(format!("enumerate_haar_features({w}, {h})"));
    let fs = enumerate_haar_features(w as u8, h as u8);
    let n = [(2, 1), (3, 1), (1, 2), (1, 3), (2, 2)].iter().map(|&(a, b)| 2 * count(w as u64, a) * count(h as u64, b)).sum::<u64>();
    ensure!(fs.len() as u64 == n, "enumerate_haar_features({w}, {h}) lists {} features, {n} fit", fs.len());
    if w > 0 && h > 0 {
        let k = number_of_haar_features(w, h);
        ensure!(k as u64 == n, "number_of_haar_features({w}, {h}) = {k}, {n} fit");
        let (a, b) = (r.u(1, 255), r.u(1, 255));
        let n2 = [(2, 1), (3, 1), (1, 2), (1, 3), (2, 2)].iter().map(|&(x, y)| 2 * count(a as u64, x) * count(b as u64, y)).sum::<u64>();
        c.input(format!("number_of_haar_features({a}, {b})"));
        let k = number_of_haar_features(a, b);
        ensure!(k as u64 == n2, "number_of_haar_features({a}, {b}) = {k}, {n2} fit");
    }
    if w * h <= 48 {
        let mut got: Vec<_> = fs.iter().map(|&f| pattern(f, w, h)).collect();
        let mut want = all(w, h);
        got.sort();
        want.sort();
        ensure!(got == want, "the features listed for a {w}x{h} frame, drawn, are not exactly the features that fit, each once");
    } else {
        let mut d: Vec<_> = fs.iter().map(|f| format!("{f:?}")).collect();
        d.sort();
        d.dedup();
        ensure!(d.len() as u64 == n, "features listed twice for a {w}x{h} frame");
    }
    if fs.is_empty() {
        return Ok(());
    }
    let (iw, ih) = (w + r.u(0, 2), h + r.u(0, 2));
    let im = if r.chance(1, 4) { GrayImage::from_pixel(iw, ih, Luma([255])) } else { r.gray(iw, ih) };
    let int = integral_image::<_, u32>(&im);
    let step = (fs.len() / 60).max(1);
    for f in fs.iter().skip(r.us(0, step - 1)).step_by(step) {
        c.input(format!("{f:?}.evaluate of {}", show(&im)));
        let want: i64 = pattern(*f, iw, ih).iter().zip(im.iter()).map(|(&s, &p)| s as i64 * p as i64).sum();
        let got = f.evaluate(&int);
        ensure!(got as i64 == want, "evaluate = {got}, the signed block sum is {want}");
    }
    Ok(())
}
