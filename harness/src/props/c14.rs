use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, Luma};
use imageproc::morphology::*;

fn shape_image(kind: u32, r: u8) -> GrayImage {
    let n = 2 * r as u32 + 1;
    let k = r as i64;
    GrayImage::from_fn(n, n, |x, y| {
        let (dx, dy) = (x as i64 - k, y as i64 - k);
        let inside = match kind {
            0 => true,
            1 => dx.abs() + dy.abs() <= k,
            _ => dx * dx + dy * dy <= k * k,
        };
        Luma([inside as u8])
    })
}
fn make(kind: u32, r: u8) -> Mask {
    match kind {
        0 => Mask::square(r),
        1 => Mask::diamond(r),
        _ => Mask::disk(r),
    }
}
fn reduce(im: &GrayImage, els: &[(i64, i64)], up: bool) -> GrayImage {
    let (w, h) = im.dimensions();
    GrayImage::from_fn(w, h, |x, y| {
        let vals = els.iter().filter_map(|&(a, b)| {
            let (u, v) = (x as i64 + a, y as i64 + b);
            if u >= 0 && v >= 0 && u < w as i64 && v < h as i64 { Some(im.get_pixel(u as u32, v as u32)[0]) } else { None }
        });
        Luma([if up { vals.max().unwrap_or(0) } else { vals.min().unwrap_or(255) }])
    })
}
pub fn gray(r: &mut Rng, i: u64, c: &mut Case) -> R {
    // all 3 x 256 constructors, one per case
    let (kind, rad) = ((i % 3) as u32, ((i / 3) % 256) as u8);
    c.input(format!("{}({rad})", ["Mask::square", "Mask::diamond", "Mask::disk"][kind as usize]));
    ensure!(make(kind, rad) == Mask::from_image(&shape_image(kind, rad), rad, rad), "the mask does not hold exactly the offsets within radius {rad}");
    let (w, h) = match r.u(0, 9) {
        0 => (r.u(0, 40), r.u(0, 3)),
        1 => (r.u(0, 3), r.u(0, 40)),
        _ => (r.dim(0, 7), r.dim(0, 7)),
    };
    // now and then offsets of hundreds of rows or columns, on an image that long
    let far = i % 8 == 3;
    let tall = r.chance(1, 2);
    let (w, h) = match (far, tall) {
        (true, true) => (r.u(1, 3), r.u(200, 540)),
        (true, false) => (r.u(200, 540), r.u(1, 3)),
        _ => (w, h),
    };
    let im = r.gray(w, h);
    let (name, mask, els): (String, Mask, Vec<(i64, i64)>) = if far {
        let long = r.pick(&[1u32, 130, 256, 300, 400, 511]);
        let (mw, mh) = if tall { (r.u(1, 3), long) } else { (long, r.u(1, 3)) };
        let mut m = GrayImage::new(mw, mh);
        let mut pts = vec![];
        for _ in 0..r.u(1, 5) {
            let (x, y) = (r.u(0, mw - 1), r.u(0, mh - 1));
            m.put_pixel(x, y, Luma([255]));
            pts.push((x, y));
        }
        let (cx, cy) = if tall { (r.u(0, 3) as u8, r.pick(&[0u8, 100, 127, 128, 255])) } else { (r.pick(&[0u8, 100, 127, 128, 255]), r.u(0, 3) as u8) };
        pts.sort_unstable();
        pts.dedup();
        let els = pts.iter().map(|&(x, y)| (x as i64 - cx as i64, y as i64 - cy as i64)).collect();
        (format!("mask {mw}x{mh} holding {pts:?}, centre ({cx},{cy})"), Mask::from_image(&m, cx, cy), els)
    } else if r.chance(1, 3) {
        let (kind, rad) = (r.u(0, 2), r.pick(&[0u8, 1, 2, 3, 4, 9]));
        let s = shape_image(kind, rad);
        let els = s.enumerate_pixels().filter(|(_, _, p)| p[0] > 0).map(|(x, y, _)| (x as i64 - rad as i64, y as i64 - rad as i64)).collect();
        (format!("shape {kind} radius {rad}"), make(kind, rad), els)
    } else {
        let (mw, mh) = (r.u(0, 6), r.u(0, 6));
        let mut m = r.gray(mw, mh);
        if r.chance(1, 2) {
            for p in m.iter_mut() {
                if r.chance(2, 3) {
                    *p = 0;
                }
            }
        }
        let (cx, cy) = (r.pick(&[0u8, 1, 2, 3, 5, 8, 255]), r.pick(&[0u8, 1, 2, 3, 5, 8, 255]));
        let els = m.enumerate_pixels().filter(|(_, _, p)| p[0] > 0).map(|(x, y, _)| (x as i64 - cx as i64, y as i64 - cy as i64)).collect();
        (format!("mask {} centre ({cx},{cy})", show(&m)), Mask::from_image(&m, cx, cy), els)
    };
    c.input(format!("grayscale morphology, {name}, image {}", show(&im)));
    let (d, e) = (reduce(&im, &els, true), reduce(&im, &els, false));
    same("grayscale_dilate", &grayscale_dilate(&im, &mask), &d)?;
    same("grayscale_erode", &grayscale_erode(&im, &mask), &e)?;
    same("grayscale_open", &grayscale_open(&im, &mask), &reduce(&e, &els, true))?;
    same("grayscale_close", &grayscale_close(&im, &mask), &reduce(&d, &els, false))?;
    Ok(())
}
