use super::c24::paint;
use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, Luma, Pixel};
use imageproc::drawing::*;
use std::cell::RefCell;

/// the pixels of a line between integer points, by exact rational arithmetic
fn ideal(s: (i64, i64), e: (i64, i64)) -> Vec<(i64, i64)> {
    let steep = (e.1 - s.1).abs() > (e.0 - s.0).abs();
    let (mut a, mut b) = if steep { ((s.1, s.0), (e.1, e.0)) } else { (s, e) };
    if a.0 > b.0 {
        std::mem::swap(&mut a, &mut b);
    }
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let sg = if dy > 0 { 1 } else { -1 };
    (0..=dx)
        .map(|k| {
            // nearest integer to k |dy| / dx, ties down
            let m = if dx == 0 { 0 } else { (2 * k * dy.abs() - dx + 2 * dx - 1).div_euclid(2 * dx) };
            let (u, v) = (a.0 + k, a.1 + sg * m);
            if steep { (v, u) } else { (u, v) }
        })
        .collect()
}
fn point(r: &mut Rng, far: i64) -> (i64, i64) {
    let m = if r.chance(1, 6) { far } else { 14 };
    (r.int(-m / 3, m), r.int(-m / 3, m))
}
fn lines(r: &mut Rng, c: &mut Case, im: &GrayImage, col: u8) -> R {
    let s = point(r, 300);
    let e = match r.u(0, 5) {
        0 => (s.0, r.int(-6, 14)),
        1 => (r.int(-6, 14), s.1),
        2 => (s.0 + r.int(-9, 9), s.1 + r.int(-2, 2)),
        3 if r.chance(1, 4) => s,
        _ => point(r, 300),
    };
    let (fs, fe) = ((s.0 as f32, s.1 as f32), (e.0 as f32, e.1 as f32));
    c.input(format!("line {s:?} to {e:?} colour {col} on {}", show(im)));
    let want = ideal(s, e);
    let got: Vec<(i64, i64)> = BresenhamLineIter::new(fs, fe).map(|(x, y)| (x as i64, y as i64)).collect();
    ensure!(got == want, "BresenhamLineIter yields {got:?}, expected {want:?}");
    ensure!(want.contains(&s) && want.contains(&e), "end points missing");
    let w = paint(im, col, |x, y| want.contains(&(x, y)));
    same("draw_line_segment", &draw_line_segment(im, fs, fe, Luma([col])), &w)?;
    let mut m = im.clone();
    draw_line_segment_mut(&mut m, fs, fe, Luma([col]));
    same("draw_line_segment_mut", &m, &w)?;
    if im.width() > 0 && im.height() > 0 {
        let cl = |p: (i64, i64)| (p.0.clamp(0, im.width() as i64 - 1), p.1.clamp(0, im.height() as i64 - 1));
        let p = ideal(cl(s), cl(e));
        let want: Vec<u8> = p.iter().map(|&(x, y)| im.get_pixel(x as u32, y as u32)[0]).collect();
        let got: Vec<u8> = BresenhamLinePixelIter::new(im, fs, fe).map(|p| p[0]).collect();
        ensure!(got == want, "BresenhamLinePixelIter yields {got:?}, expected {want:?}");
        let mut m = im.clone();
        for p in BresenhamLinePixelIterMut::new(&mut m, fs, fe) {
            *p = Luma([col]);
        }
        same("BresenhamLinePixelIterMut", &m, &paint(im, col, |x, y| p.contains(&(x, y))))?;
    }
    Ok(())
}
/// drawing never fails: ends anywhere, also on no pixel and beyond i32
fn far_lines(r: &mut Rng, c: &mut Case, im: &GrayImage) -> R {
    let base = r.pick(&[0f32, 2147483000.0, 2147483520.0, 2147483648.0, -2147483648.0, 3e9, 8388608.0, 1e7]);
    let mut q = |b: f32| b + if r.chance(1, 3) { r.int(-300, 300) as f32 } else { r.int(-3000, 3000) as f32 / 100.0 };
    let (x0, x1, y0, y1) = (q(base), q(base), q(0.0), q(0.0));
    let sw = r.chance(1, 3);
    let (s, e) = if sw { ((y0, x0), (y1, x1)) } else if r.chance(1, 3) { ((x1, x0), (x0, x1)) } else { ((x0, y0), (x1, y1)) };
    c.input(format!("line {s:?} to {e:?} on {}", show(im)));
    let d = draw_line_segment(im, s, e, Luma([9]));
    ensure!(d.dimensions() == im.dimensions(), "dimensions changed");
    let p: Vec<(i32, i32)> = BresenhamLineIter::new(s, e).collect();
    for k in p.windows(2) {
        let (dx, dy) = ((k[1].0 as i64 - k[0].0 as i64).abs(), (k[1].1 as i64 - k[0].1 as i64).abs());
        ensure!(dx.max(dy) == 1, "points {:?} and {:?} of the line are not neighbours", k[0], k[1]);
    }
    Ok(())
}
fn center(r: &mut Rng, rad: i64) -> (i32, i32) {
    if r.chance(1, 5) { ((r.int(0, 9) + r.pick(&[-rad, 0, rad])) as i32, (r.int(0, 9) + r.pick(&[-rad, 0, rad])) as i32) } else { (r.i(-4, 14), r.i(-4, 14)) }
}
fn circ(rad: i64, i: i64, j: i64) -> bool {
    let (a, b) = (i.abs().min(j.abs()), i.abs().max(j.abs()));
    if rad <= 0 {
        return rad == 0 && b == 0;
    }
    let t = rad * rad - a * a;
    b * b - b < t && t <= b * b + b
}
fn circles(r: &mut Rng, c: &mut Case, im: &GrayImage, col: u8) -> R {
    let rad = match r.u(0, 9) {
        0 => r.int(-2, 1),
        1 => r.int(20, 400),
        2 => r.int(400, 20000),
        _ => r.int(1, 16),
    };
    // keep far circles in sight
    let cen = if rad > 20 && r.chance(3, 4) {
        let t = r.int(0, 359) as f64 * std::f64::consts::PI / 180.0;
        ((r.int(0, 9) as f64 + rad as f64 * t.cos()) as i32, (r.int(0, 9) as f64 + rad as f64 * t.sin()) as i32)
    } else {
        center(r, rad)
    };
    c.input(format!("circle at {cen:?} radius {rad} colour {col} on {}", show(im)));
    let (x0, y0) = (cen.0 as i64, cen.1 as i64);
    let w = paint(im, col, |x, y| circ(rad, x - x0, y - y0));
    same("draw_hollow_circle", &draw_hollow_circle(im, cen, rad as i32, Luma([col])), &w)?;
    let mut m = im.clone();
    draw_hollow_circle_mut(&mut m, cen, rad as i32, Luma([col]));
    same("draw_hollow_circle_mut", &m, &w)?;
    if rad > 500 {
        return Ok(());
    }
    // the rows are filled between their outermost outline pixels
    let w = paint(im, col, |x, y| {
        let (i, j) = ((x - x0).abs(), (y - y0).abs());
        if rad < 0 || j > rad {
            return false;
        }
        let near = |t: i64| (t.max(0) as f64).sqrt() as i64;
        [rad * rad - j * j, rad * rad - j * j + j].iter().flat_map(|&t| (near(t) - 2)..=(near(t) + 2)).any(|k| i <= k && circ(rad, k, j))
    });
    let f = draw_filled_circle(im, cen, rad as i32, Luma([col]));
    same("draw_filled_circle", &f, &w)?;
    let mut m = im.clone();
    draw_filled_circle_mut(&mut m, cen, rad as i32, Luma([col]));
    same("draw_filled_circle_mut", &m, &w)
}
fn ellipses(r: &mut Rng, c: &mut Case, _im: &GrayImage) -> R {
    let big = if r.chance(1, 10) { 90 } else { 25 };
    let (w, h) = match r.u(0, 5) {
        0 => (r.i(1, 3), r.i(1, big)),
        1 => (r.i(1, big), r.i(1, 3)),
        2 => { let a = r.i(1, 20); (a, (a + r.i(-1, 1)).max(1)) }
        _ => (r.i(1, big), r.i(1, big)),
    };
    let n = 2 * w.max(h) as u32 + 5;
    let shift = if r.chance(1, 3) { r.i(-w, w) } else { 0 };
    let c0 = (n as i32 / 2 + shift, n as i32 / 2);
    c.input(format!("ellipse at {c0:?} radii {w}, {h} on a {n}x{n} image"));
    let z = GrayImage::new(n, n);
    let o = draw_hollow_ellipse(&z, c0, w, h, Luma([1]));
    let f = draw_filled_ellipse(&z, c0, w, h, Luma([1]));
    let (mut om, mut fm) = (z.clone(), z.clone());
    draw_hollow_ellipse_mut(&mut om, c0, w, h, Luma([1]));
    draw_filled_ellipse_mut(&mut fm, c0, w, h, Luma([1]));
    same("draw_hollow_ellipse_mut", &om, &o)?;
    same("draw_filled_ellipse_mut", &fm, &f)?;
    let (w, h) = (w as i64, h as i64);
    let val = |x: i64, y: i64| x * x * h * h + y * y * w * w - w * w * h * h;
    let at = |i: &GrayImage, x: i64, y: i64| x >= 0 && y >= 0 && x < n as i64 && y < n as i64 && i.get_pixel(x as u32, y as u32)[0] == 1;
    for y in 0..n as i64 {
        for x in 0..n as i64 {
            let (dx, dy) = ((x - c0.0 as i64).abs(), (y - c0.1 as i64).abs());
            let (ho, fi) = (at(&o, x, y), at(&f, x, y));
            ensure!(!ho || fi, "outline pixel ({x},{y}) is not in the filled ellipse");
            ensure!(fi || val(dx, dy) > 0, "({x},{y}) is inside the ellipse but not filled");
            if ho {
                ensure!(val((dx - 1).max(0), (dy - 1).max(0)) < 0 && val(dx + 1, dy + 1) > 0, "outline pixel ({x},{y}) is more than a pixel from the ellipse");
            }
            if fi {
                // in its row between two outline pixels
                let l = (0..=x).rev().any(|k| at(&o, k, y));
                let rr = (x..n as i64).any(|k| at(&o, k, y));
                ensure!((l || c0.0 as i64 - w < 0) && (rr || c0.0 as i64 + w >= n as i64), "filled pixel ({x},{y}) is outside the outline");
            }
            let mx = 2 * c0.0 as i64 - x;
            ensure!(mx < 0 || mx >= n as i64 || at(&o, mx, y) == ho, "outline is not symmetric at ({x},{y})");
        }
    }
    // in one piece
    let mut rest: std::collections::HashSet<(i64, i64)> = o.enumerate_pixels().filter(|p| p.2[0] == 1).map(|p| (p.0 as i64, p.1 as i64)).collect();
    let mut st = vec![(c0.0 as i64, c0.1 as i64 - h)];
    rest.remove(&st[0]);
    while let Some((x, y)) = st.pop() {
        for (u, v) in (-1..=1).flat_map(|a| (-1..=1).map(move |b| (x + a, y + b))) {
            if rest.remove(&(u, v)) {
                st.push((u, v));
            }
        }
    }
    ensure!(shift != 0 || rest.is_empty(), "the outline is not connected: {:?} is apart from the top", rest.iter().min());
    for (x, y) in [(w, 0), (-w, 0), (0, h), (0, -h)] {
        let (x, y) = (c0.0 as i64 + x, c0.1 as i64 + y);
        ensure!(x < 0 || x >= n as i64 || at(&o, x, y), "the end ({x},{y}) of an axis is missing");
    }
    Ok(())
}
fn far_ellipses(r: &mut Rng, c: &mut Case, im: &GrayImage) -> R {
    let mut rad = || if r.chance(1, 2) { r.i(-1, 30) } else { r.i(40000, 60000) };
    let (w, h) = (rad(), rad());
    let cen = (r.i(-100, 100), r.i(-100, 100));
    c.input(format!("ellipses at {cen:?} radii {w}, {h} on {}", show(im)));
    let o = draw_hollow_ellipse(im, cen, w, h, Luma([7]));
    ensure!(o.dimensions() == im.dimensions(), "dimensions changed");
    if w < 100 {
        let f = draw_filled_ellipse(im, cen, w, h, Luma([7]));
        if w > 0 && h > 0 {
            let e = paint(im, 7, |x, y| {
                let (dx, dy) = ((x - cen.0 as i64) as f64 / w as f64, (y - cen.1 as i64) as f64 / h as f64);
                dx * dx + dy * dy <= 0.9
            });
            for (x, y, p) in e.enumerate_pixels() {
                ensure!(p[0] != 7 || im.get_pixel(x, y)[0] == 7 || f.get_pixel(x, y)[0] == 7, "({x},{y}) is inside the ellipse but not filled");
            }
        }
    }
    Ok(())
}
fn wu(r: &mut Rng, c: &mut Case, im: &GrayImage, col: u8) -> R {
    let s = point(r, 60);
    let e = if r.chance(1, 5) { (s.0 + r.int(-9, 9), s.1 + r.int(-1, 1)) } else { point(r, 60) };
    let (si, ei) = ((s.0 as i32, s.1 as i32), (e.0 as i32, e.1 as i32));
    c.input(format!("antialiased line {s:?} to {e:?} colour {col} on {}", show(im)));
    // each blended pixel, with its weight, is recorded; the blend function only tags the order
    let log = RefCell::new(vec![]);
    let tagged: image::ImageBuffer<Luma<u32>, Vec<u32>> = image::ImageBuffer::from_fn(im.width(), im.height(), |x, y| Luma([x + 1000 * y]));
    let _ = draw_antialiased_line_segment(&tagged, si, ei, Luma([0]), |_, o, w| {
        log.borrow_mut().push(((o[0] % 1000) as i64, (o[0] / 1000) as i64, w as f64));
        o
    });
    let steep = (e.1 - s.1).abs() > (e.0 - s.0).abs();
    let f = |p: (i64, i64)| if steep { (p.1, p.0) } else { p };
    let (mut a, mut b) = (f(s), f(e));
    if a.0 > b.0 {
        std::mem::swap(&mut a, &mut b);
    }
    let mut want = std::collections::BTreeMap::new();
    for u in a.0..=b.0 {
        let v = if a.0 == b.0 { a.1 as f64 } else { a.1 as f64 + (u - a.0) as f64 * (b.1 - a.1) as f64 / (b.0 - a.0) as f64 };
        for k in -1..=2 {
            let vi = v.floor() as i64 + k;
            let (x, y) = f((u, vi));
            if x >= 0 && y >= 0 && x < im.width() as i64 && y < im.height() as i64 {
                want.insert((x, y), (1.0 - (v - vi as f64).abs()).max(0.0));
            }
        }
    }
    let mut seen = std::collections::BTreeMap::new();
    for &(x, y, w) in log.borrow().iter() {
        ensure!((0.0..=1.0).contains(&w), "pixel ({x},{y}) is blended with weight {w}");
        *seen.entry((x, y)).or_insert(0.0) += w;
    }
    for (p, w) in &want {
        let g = seen.get(p).copied().unwrap_or(0.0);
        ensure!((g - w).abs() < 1e-3, "pixel {p:?} is blended with weight {g}, expected {w}");
    }
    for (p, w) in &seen {
        ensure!(want.contains_key(p) || *w < 1e-3, "pixel {p:?} is off the line but blended with weight {w}");
    }
    // the picture is the blend of each of these once
    let mut e = im.clone();
    for &(x, y, w) in log.borrow().iter() {
        let o = *e.get_pixel(x as u32, y as u32);
        e.put_pixel(x as u32, y as u32, imageproc::pixelops::interpolate(Luma([col]), o, w as f32));
    }
    same("draw_antialiased_line_segment", &draw_antialiased_line_segment(im, si, ei, Luma([col]), imageproc::pixelops::interpolate), &e)?;
    let mut m = im.clone();
    draw_antialiased_line_segment_mut(&mut m, si, ei, Luma([col]), imageproc::pixelops::interpolate);
    same("draw_antialiased_line_segment_mut", &m, &e)?;
    let _ = Luma([0u8]).channels();
    Ok(())
}
pub fn shapes(r: &mut Rng, i: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(0, 12), r.dim(0, 12));
    let im = r.gray(w, h);
    let col = r.u(0, 255) as u8;
    match i % 8 {
        0 | 1 => lines(r, c, &im, col),
        2 => far_lines(r, c, &im),
        3 | 4 => circles(r, c, &im, col),
        5 => ellipses(r, c, &im),
        6 if i % 5 == 0 => far_ellipses(r, c, &im),
        6 => ellipses(r, c, &im),
        _ => wu(r, c, &im, col),
    }
}
