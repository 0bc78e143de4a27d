use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, Luma};
use imageproc::distance_transform::*;
use imageproc::morphology::*;

fn shape(r: &mut Rng) -> (u32, u32) {
    match r.u(0, 19) {
        0 => (r.u(240, 270), r.u(1, 2)),
        1 => (r.u(1, 2), r.u(240, 270)),
        2 => (r.u(100, 130), r.u(2, 3)),
        _ => (r.dim(0, 9), r.dim(0, 9)),
    }
}
fn sparse(r: &mut Rng, w: u32, h: u32) -> GrayImage {
    match r.u(0, 5) {
        0 => r.gray(w, h),
        1 => {
            // a few foreground pixels
            let mut im = GrayImage::new(w, h);
            for _ in 0..r.u(0, 4) {
                if w * h > 0 {
                    im.put_pixel(r.u(0, w - 1), r.u(0, h - 1), Luma([r.u(1, 255) as u8]));
                }
            }
            im
        }
        2 => {
            // a few background pixels
            let mut im = GrayImage::from_pixel(w, h, Luma([r.u(1, 255) as u8]));
            for _ in 0..r.u(0, 4) {
                if w * h > 0 {
                    im.put_pixel(r.u(0, w - 1), r.u(0, h - 1), Luma([0]));
                }
            }
            im
        }
        3 => GrayImage::from_pixel(w, h, Luma([r.pick(&[0u8, 1, 255])])),
        _ => r.gray_style(w, h, r.pick_style()),
    }
}
impl Rng {
    fn pick_style(&self) -> u32 {
        4 + (self.clone().next() % 2) as u32
    }
}
/// squared (L2) or plain distance from every pixel to the nearest source, None without sources
fn dist(im: &GrayImage, norm: Norm, fg: bool) -> Vec<Option<u64>> {
    let (w, h) = im.dimensions();
    let src: Vec<(i64, i64)> = im.enumerate_pixels().filter(|(_, _, p)| (p[0] > 0) == fg).map(|(x, y, _)| (x as i64, y as i64)).collect();
    let mut out = vec![];
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            out.push(
                src.iter()
                    .map(|&(a, b)| {
                        let (dx, dy) = ((x - a).unsigned_abs(), (y - b).unsigned_abs());
                        match norm {
                            Norm::L1 => dx + dy,
                            Norm::LInf => dx.max(dy),
                            Norm::L2 => dx * dx + dy * dy,
                        }
                    })
                    .min(),
            );
        }
    }
    out
}
/// least integer v with v*v >= d for L2
fn up(norm: Norm, d: u64) -> u64 {
    if norm == Norm::L2 {
        let s = ((d as f64).sqrt() as u64).saturating_sub(1);
        (s..).find(|v| v * v >= d).unwrap()
    } else {
        d
    }
}
fn norm(r: &mut Rng) -> Norm {
    r.pick(&[Norm::L1, Norm::L2, Norm::LInf])
}
pub fn transforms(r: &mut Rng, i: u64, c: &mut Case) -> R {
    let n = norm(r);
    let im = if i % 300 == 17 {
        // long and thin, a few foreground pixels
        let a = if r.chance(1, 3) { r.u(65_530, 66_500) } else { r.u(3000, 9000) };
        let b = r.u(1, 3);
        let (w, h) = if r.chance(1, 2) { (a, b) } else { (b, a) };
        let mut im = GrayImage::new(w, h);
        let mut pts = vec![];
        for _ in 0..r.u(1, 12) {
            let (x, y) = (r.u(0, w - 1), r.u(0, h - 1));
            im.put_pixel(x, y, Luma([1]));
            pts.push((x, y));
        }
        c.input(format!("distance_transform {n:?} {w}x{h} image with foreground at {pts:?}"));
        im
    } else if i % 300 == 117 {
        // a horizontal and a vertical run of foreground far apart: wide parabolas displacing many others
        let (w, h) = (r.u(70, 150), r.u(70, 150));
        let (y, x) = (r.pick(&[0, h - 1, r.clone().u(0, h - 1)]), r.pick(&[0, w - 1, r.clone().u(0, w - 1)]));
        let ((x0, x1), (y0, y1)) = ((r.u(0, w / 2), r.u(w / 2, w - 1)), (r.u(0, h / 2), r.u(h / 2, h - 1)));
        let mut im = GrayImage::new(w, h);
        for k in x0..=x1 {
            im.put_pixel(k, y, Luma([1]));
        }
        for k in y0..=y1 {
            im.put_pixel(x, k, Luma([1]));
        }
        c.input(format!("distance_transform {n:?} {w}x{h} image with foreground ({x0}..={x1}, {y}) and ({x}, {y0}..={y1})"));
        im
    } else {
        let (w, h) = shape(r);
        let im = sparse(r, w, h);
        c.input(format!("distance_transform {n:?} {}", show(&im)));
        im
    };
    let (w, h) = im.dimensions();
    let got = distance_transform(&im, n);
    let mut m = im.clone();
    distance_transform_mut(&mut m, n);
    same("distance_transform_mut", &m, &got)?;
    ensure!(got.dimensions() == (w, h), "dimensions {:?}", got.dimensions());
    let d = dist(&im, n, true);
    let k = |x: u32, y: u32| (y * w + x) as usize;
    let first = if w * h > 0 { Some(got.get_pixel(0, 0)[0]) } else { None };
    for (x, y, p) in got.enumerate_pixels() {
        match d[k(x, y)] {
            Some(v) => {
                let want = up(n, v).min(255) as u8;
                ensure!(p[0] == want, "distance at ({x},{y}) is {}, expected {want}", p[0]);
            }
            None => {
                ensure!(Some(p[0]) == first, "no foreground, but ({x},{y}) is {} and (0,0) is {:?}", p[0], first);
                let far = match n {
                    Norm::L1 => (w - 1 + h - 1) as u64,
                    Norm::LInf => (w - 1).max(h - 1) as u64,
                    Norm::L2 => up(n, ((w - 1) as u64).pow(2) + ((h - 1) as u64).pow(2)),
                };
                ensure!(p[0] as u64 >= far.min(255), "no foreground: value {} is below the largest distance {far}", p[0]);
            }
        }
    }
    let e = euclidean_squared_distance_transform(&im);
    ensure!(e.dimensions() == (w, h), "squared transform dimensions {:?}", e.dimensions());
    let d = dist(&im, Norm::L2, true);
    for (x, y, p) in e.enumerate_pixels() {
        match d[k(x, y)] {
            Some(v) => ensure!(p[0] == v as f64, "squared distance at ({x},{y}) is {}, expected {v}", p[0]),
            None => ensure!(p[0] == f64::INFINITY, "squared distance without foreground at ({x},{y}) is {}", p[0]),
        }
    }
    Ok(())
}
fn dil(im: &GrayImage, n: Norm, k: u8) -> GrayImage {
    let d = dist(im, n, true);
    let w = im.width();
    GrayImage::from_fn(w, im.height(), |x, y| Luma([if d[(y * w + x) as usize].map(|v| up(n, v) <= k as u64).unwrap_or(false) { 255 } else { 0 }]))
}
fn ero(im: &GrayImage, n: Norm, k: u8) -> GrayImage {
    let d = dist(im, n, false);
    let w = im.width();
    GrayImage::from_fn(w, im.height(), |x, y| Luma([if d[(y * w + x) as usize].map(|v| up(n, v) <= k as u64).unwrap_or(false) { 0 } else { 255 }]))
}
pub fn binary(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = shape(r);
    let im = sparse(r, w, h);
    let n = norm(r);
    let k = match r.u(0, 9) {
        0 => 255,
        1 => r.u(0, 254) as u8,
        2 => (w + h).min(254) as u8,
        _ => r.u(0, 5) as u8,
    };
    c.input(format!("binary morphology {n:?} k={k} {}", show(&im)));
    let forms: [(&str, fn(&GrayImage, Norm, u8) -> GrayImage, fn(&mut GrayImage, Norm, u8), GrayImage); 4] = [
        ("dilate", dilate, dilate_mut, dil(&im, n, k)),
        ("erode", erode, erode_mut, ero(&im, n, k)),
        ("open", open, open_mut, dil(&ero(&im, n, k), n, k)),
        ("close", close, close_mut, ero(&dil(&im, n, k), n, k)),
    ];
    for (name, f, g, want) in forms {
        let got = f(&im, n, k);
        let mut m = im.clone();
        g(&mut m, n, k);
        same(&format!("{name}_mut against {name}"), &m, &got)?;
        let res = same(name, &got, &want);
        let saturated = GrayImage::from_pixel(w, h, Luma([if name == "dilate" || name == "open" { 255 } else { 0 }]));
        if res.is_err() && k == 255 && got == saturated {
            // distances saturate at 255, so a pixel further away (or without any foreground) counts as within reach
            c.known("C13-k255");
        } else {
            res?;
        }
    }
    Ok(())
}
