use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, Luma, Pixel, Rgb};
use imageproc::binary_descriptors::brief::{brief, TestPair};
use imageproc::corners::*;
use imageproc::definitions::Image;
use imageproc::filter::bilateral::*;
use imageproc::geometric_transformations::*;
use imageproc::hough::*;
use imageproc::point::Point;

/// C35: votes per (r, angle) bin, 2-d non-maximum suppression, lines with at least vote_threshold votes, in order
pub fn lines(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = match r.u(0, 5) {
        0 => (r.u(0, 3), r.u(0, 3)),
        1 => (r.u(1, 40), 1),
        2 => (1, r.u(1, 40)),
        _ => (r.u(1, 14), r.u(1, 14)),
    };
    let mut im = if r.b() { GrayImage::new(w, h) } else { r.gray(w, h) };
    if w > 0 && h > 0 {
        for _ in 0..r.u(0, 4) {
            let (x, y, horiz) = (r.u(0, w - 1), r.u(0, h - 1), r.u(0, 3));
            let v = r.u(0, 255) as u8;
            for k in 0..w.max(h) {
                let (a, b) = match horiz {
                    0 => (k, y),
                    1 => (x, k),
                    2 => (k, k),
                    _ => (x, y),
                };
                if a < w && b < h {
                    im.put_pixel(a, b, Luma([v]));
                }
            }
        }
    }
    let t = match r.u(0, 2) {
        0 => 1,
        1 => r.u(1, 6),
        _ => r.u(1, w.max(h) + 1),
    };
    let rad = r.u(0, 12);
    c.input(format!("detect_lines(vote_threshold {t}, suppression_radius {rad}) on {}", show(&im)));
    let got = detect_lines(&im, LineDetectionOptions { vote_threshold: t, suppression_radius: rad });
    let rmax = ((w as f64) * (w as f64) + (h as f64) * (h as f64)).sqrt() as i32;
    let n = (2 * rmax + 1) as usize;
    let mut acc = vec![vec![0u32; n]; 180];
    for y in 0..h {
        for x in 0..w {
            if im.get_pixel(x, y)[0] > 0 {
                for m in 0..180usize {
                    let (s, co) = (m as f32).to_radians().sin_cos();
                    let d = ((x as f32) * co + (y as f32) * s) as i32 + rmax;
                    if d >= 0 && (d as usize) < n {
                        acc[m][d as usize] += 1;
                    }
                }
            }
        }
    }
    let rad = rad as i64;
    let mut want = vec![];
    for m in 0..180i64 {
        for d in 0..n as i64 {
            let v = acc[m as usize][d as usize];
            if v < t {
                continue;
            }
            // kept when no bin of the window has more votes and no bin of a smaller r (or same r, smaller angle) has as many
            let mut keep = true;
            for m2 in (m - rad).max(0)..=(m + rad).min(179) {
                for d2 in (d - rad).max(0)..=(d + rad).min(n as i64 - 1) {
                    let o = acc[m2 as usize][d2 as usize];
                    if o > v || (o == v && (d2, m2) < (d, m)) {
                        keep = false;
                    }
                }
            }
            if keep {
                want.push(PolarLine { r: (d as i32 - rmax) as f32, angle_in_degrees: m as u32 });
            }
        }
    }
    c.trivial = want.is_empty();
    ensure!(got == want, "detect_lines gave {:?}, expected {:?}", got, want);
    Ok(())
}

fn gw(x: f32, s2: f32) -> f32 {
    (-0.5 * x / s2).exp()
}
struct Abs;
impl ColorDistance<Luma<u8>> for Abs {
    fn color_distance(&self, a: &Luma<u8>, b: &Luma<u8>) -> f32 {
        if (a[0] as i32 - b[0] as i32).abs() <= 20 { 1.0 } else { 0.125 }
    }
}
fn check_bilateral<P>(im: &Image<P>, rad: u8, sigma: f32, cs: f32, abs: bool, got: &Image<P>, c: &mut Case) -> R
where
    P: Pixel<Subpixel = u8> + PartialEq + std::fmt::Debug,
{
    let (w, h) = im.dimensions();
    ensure!(got.dimensions() == (w, h), "dimensions {:?}", got.dimensions());
    let n = P::CHANNEL_COUNT as usize;
    for y in 0..h {
        for x in 0..w {
            let p = im.get_pixel(x, y);
            let (mut ws, mut cw, mut lo, mut hi) = (0f64, vec![0f64; n], vec![255u8; n], vec![0u8; n]);
            for dy in -(rad as i64)..=rad as i64 {
                for dx in -(rad as i64)..=rad as i64 {
                    let q = im.get_pixel((x as i64 + dx).clamp(0, w as i64 - 1) as u32, (y as i64 + dy).clamp(0, h as i64 - 1) as u32);
                    let sd = gw((dx * dx + dy * dy) as f32, sigma * sigma);
                    let cd = if abs {
                        if (p.channels()[0] as i32 - q.channels()[0] as i32).abs() <= 20 { 1.0 } else { 0.125 }
                    } else {
                        let e: f32 = (0..n).map(|k| (p.channels()[k] as f32 - q.channels()[k] as f32).powi(2)).sum();
                        gw(e, cs * cs)
                    };
                    let wt = (sd * cd) as f64;
                    ws += wt;
                    for k in 0..n {
                        let v = q.channels()[k];
                        cw[k] += wt * v as f64;
                        lo[k] = lo[k].min(v);
                        hi[k] = hi[k].max(v);
                    }
                }
            }
            for k in 0..n {
                let g = got.get_pixel(x, y).channels()[k];
                // the f32 sums are off by a few units in the last place; the quotient is truncated
                let e = cw[k] / ws;
                let (a, b) = (((e - 0.01).floor()).max(0.0), (e + 0.01).floor());
                ensure!(a <= g as f64 && g as f64 <= b, "pixel ({x},{y}) channel {k} is {g}, the weighted average is {e}");
                if g < lo[k] {
                    c.known("bilateral-truncation");
                    ensure!(g + 1 == lo[k], "pixel ({x},{y}) channel {k} is {g}, below its whole window (minimum {})", lo[k]);
                }
                ensure!(g <= hi[k], "pixel ({x},{y}) channel {k} is {g}, above its whole window (maximum {})", hi[k]);
            }
        }
    }
    Ok(())
}
/// C37
pub fn bilateral(r: &mut Rng, i: u64, c: &mut Case) -> R {
    if i % 3000 == 17 {
        let rad = r.pick(&[90u8, 91, 128, 255]);
        let im = r.gray(r.clone().u(1, 2), 1);
        c.input(format!("bilateral_filter radius {rad}, spatial sigma 40, color sigma 60 on {}", show(&im)));
        let got = bilateral_filter(&im, rad, 40.0, GaussianEuclideanColorDistance::new(60.0));
        return check_bilateral(&im, rad, 40.0, 60.0, false, &got, c);
    }
    if i % 3000 == 1017 {
        // longer than 2^15
        let n = r.u(32_700, 40_000);
        let (w, h) = if r.b() { (n, 1) } else { (1, n) };
        let (a, b, q, rad) = (r.u(0, 255) as u8, r.u(0, 255) as u8, r.u(1, 1000), r.u(0, 1) as u8);
        let im = GrayImage::from_fn(w, h, |x, y| Luma([if (x + y) / q % 2 == 0 { a } else { b }]));
        c.input(format!("bilateral_filter radius {rad}, spatial sigma 2.5, color sigma 40 on a {w}x{h} image of stripes {q} wide of {a} and {b}"));
        let got = bilateral_filter(&im, rad, 2.5, GaussianEuclideanColorDistance::new(40.0));
        return check_bilateral(&im, rad, 2.5, 40.0, false, &got, c);
    }
    let (w, h) = match r.u(0, 3) {
        0 => (r.u(1, 3), r.u(1, 3)),
        1 => (1, r.u(1, 9)),
        _ => (r.u(1, 8), r.u(1, 8)),
    };
    let rad = r.u(0, 4) as u8;
    let (sigma, cs) = (r.pick(&[0.5f32, 1.0, 2.5, 10.0]), r.pick(&[1.0f32, 10.0, 40.0, 200.0]));
    if r.chance(1, 3) {
        let im = r.rgb(w, h);
        c.input(format!("bilateral_filter radius {rad}, spatial sigma {sigma}, GaussianEuclideanColorDistance {cs} on {}", show(&im)));
        let got = bilateral_filter(&im, rad, sigma, GaussianEuclideanColorDistance::new(cs));
        check_bilateral(&im, rad, sigma, cs, false, &got, c)
    } else {
        let im = r.gray(w, h);
        let abs = r.chance(1, 3);
        c.input(format!("bilateral_filter radius {rad}, spatial sigma {sigma}, {} on {}", if abs { "a step color distance".to_string() } else { format!("GaussianEuclideanColorDistance {cs}") }, show(&im)));
        let got = if abs { bilateral_filter(&im, rad, sigma, Abs) } else { bilateral_filter(&im, rad, sigma, GaussianEuclideanColorDistance::new(cs)) };
        check_bilateral(&im, rad, sigma, cs, abs, &got, c)
    }
}

fn special(r: &mut Rng) -> f32 {
    r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, -0.5, -1e-9, 0.49999997, 1e9, -1e9, 16777216.0, 4294967296.0, 1e38, 1e-40])
}
fn cubic(p: [f64; 4], x: f64) -> f64 {
    p[1] + 0.5 * x * (p[2] - p[0] + x * (2.0 * p[0] - 5.0 * p[1] + 4.0 * p[2] - p[3] + x * (3.0 * (p[1] - p[2]) + p[3] - p[0])))
}
fn check_warp<P>(what: &str, im: &Image<P>, pts: &dyn Fn(u32, u32) -> (f32, f32), k: Interpolation, def: P, got: &Image<P>) -> R
where
    P: Pixel<Subpixel = u8> + PartialEq + std::fmt::Debug,
{
    let (w, h) = (im.width() as f64, im.height() as f64);
    let n = P::CHANNEL_COUNT as usize;
    for y in 0..got.height() {
        for x in 0..got.width() {
            let (px, py) = pts(x, y);
            let g = *got.get_pixel(x, y);
            let at = |a: f64, b: f64, c: usize| im.get_pixel(a as u32, b as u32).channels()[c] as f64;
            match k {
                Interpolation::Nearest => {
                    let (rx, ry) = (((px + 0.5) as f64).floor(), ((py + 0.5) as f64).floor());
                    if px.is_nan() || py.is_nan() {
                        ensure!(g == def || im.pixels().any(|p| *p == g), "{what}: pixel ({x},{y}) for a position that is not a number is {g:?}");
                    } else if px < -0.5 || py < -0.5 || rx >= w || ry >= h {
                        ensure!(g == def, "{what}: pixel ({x},{y}) with pre-image ({px},{py}) outside the image is {g:?}, not the default");
                    } else {
                        let e = *im.get_pixel(rx as u32, ry as u32);
                        ensure!(g == e, "{what}: pixel ({x},{y}) with pre-image ({px},{py}) is {g:?}, the nearest pixel is {e:?}");
                    }
                }
                Interpolation::Bilinear => {
                    let (l, t) = (px.floor() as f64, py.floor() as f64);
                    if !(l >= 0.0 && t >= 0.0 && l + 1.0 < w && t + 1.0 < h) {
                        ensure!(g == def, "{what}: pixel ({x},{y}) with pre-image ({px},{py}) outside the image is {g:?}, not the default");
                        continue;
                    }
                    let (a, b) = (px as f64 - l, py as f64 - t);
                    for c in 0..n {
                        let v = [at(l, t, c), at(l + 1.0, t, c), at(l, t + 1.0, c), at(l + 1.0, t + 1.0, c)];
                        let (lo, hi) = (v.iter().cloned().fold(255.0, f64::min), v.iter().cloned().fold(0.0, f64::max));
                        let e = (1.0 - b) * ((1.0 - a) * v[0] + a * v[1]) + b * ((1.0 - a) * v[2] + a * v[3]);
                        let s = g.channels()[c] as f64;
                        ensure!(lo <= s && s <= hi, "{what}: pixel ({x},{y}) channel {c} is {s}, outside the range {lo}..={hi} of the four pixels around ({px},{py})");
                        ensure!(s <= e + 0.001 && s > e - 2.001, "{what}: pixel ({x},{y}) channel {c} is {s}, bilinear interpolation at ({px},{py}) gives {e}");
                    }
                }
                Interpolation::Bicubic => {
                    let (l, t) = (px.floor() as f64 - 1.0, py.floor() as f64 - 1.0);
                    if !(l >= 0.0 && t >= 0.0 && l + 4.0 < w && t + 4.0 < h) {
                        ensure!(g == def, "{what}: pixel ({x},{y}) with pre-image ({px},{py}) outside the image is {g:?}, not the default");
                        continue;
                    }
                    let (a, b) = (px as f64 - l - 1.0, py as f64 - t - 1.0);
                    for c in 0..n {
                        let mut col = [0.0; 4];
                        let mut sum = 0.0;
                        for (j, o) in col.iter_mut().enumerate() {
                            let q = |i: f64| at(l + i, t + j as f64, c);
                            *o = cubic([q(0.0), q(1.0), q(2.0), q(3.0)], a).clamp(0.0, 255.0);
                            let mut u = [0.0; 4];
                            u[j] = 1.0;
                            sum += cubic(u, b).abs();
                        }
                        let e = cubic(col, b).clamp(0.0, 255.0);
                        let s = g.channels()[c] as f64;
                        ensure!((s - e).abs() <= 1.01 + sum, "{what}: pixel ({x},{y}) channel {c} is {s}, bicubic interpolation at ({px},{py}) gives {e}");
                    }
                }
            }
        }
    }
    Ok(())
}
/// C32
pub fn warps(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let d = |r: &mut Rng| match r.u(0, 5) {
        0 => r.u(0, 2),
        _ => r.u(1, 8),
    };
    let (w, h, ow, oh) = (d(r), d(r), d(r), d(r));
    let k = r.pick(&[Interpolation::Nearest, Interpolation::Bilinear, Interpolation::Bicubic]);
    let same_size = r.b();
    let (ow, oh) = if same_size { (w, h) } else { (ow, oh) };
    let mut tab = vec![];
    let mode = r.u(0, 3);
    let off = (r.i(-6, 6) as f32 / 4.0, r.i(-6, 6) as f32 / 4.0);
    for y in 0..oh.max(1) {
        for x in 0..ow.max(1) {
            let mut p = match mode {
                0 => (x as f32 + off.0, y as f32 + off.1),
                1 => (w as f32 - 1.0 - x as f32, h as f32 - 1.0 - y as f32),
                _ => (r.int(-1000, w as i64 * 1000 + 1000) as f32 / 1000.0, r.int(-1000, h as i64 * 1000 + 1000) as f32 / 1000.0),
            };
            if mode == 3 && r.chance(1, 3) {
                if r.b() { p.0 = special(r) } else { p.1 = special(r) }
            }
            tab.push(p);
        }
    }
    let t2 = tab.clone();
    let map = move |x: f32, y: f32| tab[(y as u32 * ow.max(1) + x as u32) as usize];
    let pts = move |x: u32, y: u32| t2[(y * ow.max(1) + x) as usize];
    let show_map = format!("{:?}", (0..oh).flat_map(|y| (0..ow).map(move |x| (x, y))).map(|(x, y)| pts(x, y)).take(40).collect::<Vec<_>>());
    if r.chance(1, 3) {
        let im = r.rgb(w, h);
        let def = Rgb([r.u(0, 255) as u8, 7, 9]);
        c.input(format!("warp_into_with({k:?}, default {def:?}) into {ow}x{oh} with pre-images {show_map} of {}", show(&im)));
        let mut out = r.rgb(ow, oh);
        warp_into_with(&im, &map, k, def, &mut out);
        check_warp("warp_into_with", &im, &pts, k, def, &out)
    } else {
        let im = r.gray(w, h);
        let def = Luma([r.u(0, 255) as u8]);
        c.input(format!("warp_into_with({k:?}, default {def:?}) into {ow}x{oh} with pre-images {show_map} of {}", show(&im)));
        let mut out = r.gray(ow, oh);
        warp_into_with(&im, &map, k, def, &mut out);
        check_warp("warp_into_with", &im, &pts, k, def, &out)?;
        if same_size {
            let o2 = warp_with(&im, &map, k, def);
            same("warp_with against warp_into_with", &o2, &out)?;
        }
        // projections: the pre-image of a translation is the position minus the translation
        let tr = Projection::translate(off.0, off.1);
        let o3 = warp(&im, &tr, k, def);
        ensure!(o3.dimensions() == (w, h), "warp: dimensions {:?}", o3.dimensions());
        check_warp("warp by a translation", &im, &|x, y| (x as f32 - off.0, y as f32 - off.1), k, def, &o3)?;
        let mut o4 = r.gray(w, h);
        warp_into(&im, &tr, k, def, &mut o4);
        same("warp_into against warp", &o4, &o3)
    }
}

fn orientation(im: &GrayImage, x: u32, y: u32) -> f32 {
    let (mut sx, mut sy) = (0i32, 0i32);
    for j in 0..im.height() as i32 {
        for i in 0..im.width() as i32 {
            let (dx, dy) = (i - x as i32, j - y as i32);
            if dx.abs() <= 15 && dy.abs() <= 15 {
                let v = im.get_pixel(i as u32, j as u32)[0] as i32;
                sx += dx * v;
                sy -= dy * v;
            }
        }
    }
    -(sy as f32).atan2(sx as f32)
}
/// C18, second part: oriented_fast; C30: brief
pub fn orb(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = match r.u(0, 4) {
        0 => (r.u(0, 8), r.u(0, 8)),
        1 => (r.u(30, 40), r.u(7, 10)),
        _ => (r.u(7, 20), r.u(7, 20)),
    };
    let im = r.gray(w, h);
    let t = if r.chance(1, 3) { None } else { Some(r.pick(&[0u8, 1, 10, 100, 254, 255])) };
    let (n, edge) = (r.us(0, 12), r.u(0, 9));
    let seed = r.u(0, 1000) as u64;
    c.input(format!("oriented_fast(threshold {t:?}, target {n}, edge_radius {edge}, seed {seed}) on {}", show(&im)));
    let got = oriented_fast(&im, t, n, edge, Some(seed));
    ensure!(got.len() <= n, "{} corners, asked for {n}", got.len());
    if let Some(t) = t {
        let mut want: Vec<Corner> = corners_fast9(&im, t).into_iter().filter(|k| k.x >= edge && k.y >= edge && k.x + edge < w && k.y + edge < h).collect();
        want.sort_by(|a, b| b.score.partial_cmp(&a.score).unwrap());
        ensure!(got.len() == want.len().min(n), "{} corners, expected {}", got.len(), want.len().min(n));
        for (k, g) in got.iter().enumerate() {
            ensure!(g.corner.score == want[k].score, "corner {k} has score {}, expected {}", g.corner.score, want[k].score);
            ensure!(want.contains(&g.corner), "{:?} is not a FAST-9 corner at least {edge} from every edge", g.corner);
        }
    }
    c.trivial = got.is_empty();
    for (k, g) in got.iter().enumerate() {
        ensure!(k == 0 || got[k - 1].corner.score >= g.corner.score, "corner {k} has a higher score than corner {}", k - 1);
        ensure!(got[..k].iter().all(|o| (o.corner.x, o.corner.y) != (g.corner.x, g.corner.y)), "corner {k} appears twice");
        ensure!(fast_corner_score(&im, t.unwrap_or(0), g.corner.x, g.corner.y, Fast::Nine) as f32 == g.corner.score, "corner {k}: wrong score");
        let o = orientation(&im, g.corner.x, g.corner.y);
        ensure!(g.orientation == o, "corner {k} at ({},{}) has orientation {}, its intensity centroid lies at {o}", g.corner.x, g.corner.y, g.orientation);
    }
    Ok(())
}
/// C30 only: BRIEF descriptors of arbitrary keypoints
pub fn descr(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = (r.u(28, 45), r.u(28, 45));
    let im = r.gray(w, h);
    let kp: Vec<Point<u32>> = (0..r.u(0, 6)).map(|_| Point::new(r.u(0, w - 1), r.u(0, h - 1))).collect();
    let tp: Vec<TestPair> = (0..128).map(|_| TestPair { p0: Point::new(r.u(0, 31), r.u(0, 31)), p1: Point::new(r.u(0, 31), r.u(0, 31)) }).collect();
    c.input(format!("brief on {kp:?} with 128 test pairs on {w}x{h}"));
    let _ = brief(&im, &kp, 128, if r.b() { Some(&tp) } else { None });
    Ok(())
}
