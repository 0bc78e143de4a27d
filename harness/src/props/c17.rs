use crate::ctx::*;
use crate::ensure;
use image::{ImageBuffer, Luma, Pixel, Primitive, Rgb};
use imageproc::corners::Corner;
use imageproc::definitions::{Image, Position, Score};
use imageproc::gradients::gradients;
use imageproc::kernel;
use imageproc::seam_carving::*;
use imageproc::suppress::*;

fn nms<T>(im: &Image<Luma<T>>, rad: u32) -> R
where
    T: Primitive + std::fmt::Debug + Ord,
    Luma<T>: Pixel<Subpixel = T> + PartialEq,
{
    let got = suppress_non_maximum(im, rad);
    let (w, h) = im.dimensions();
    let mut want: Image<Luma<T>> = ImageBuffer::new(w, h);
    let rad = rad as i64;
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let v = im.get_pixel(x as u32, y as u32)[0];
            let mut keep = true;
            for b in (y - rad).max(0)..=(y + rad).min(h as i64 - 1) {
                for a in (x - rad).max(0)..=(x + rad).min(w as i64 - 1) {
                    let u = im.get_pixel(a as u32, b as u32)[0];
                    if u > v || (u == v && (a, b) < (x, y)) {
                        keep = false;
                    }
                }
            }
            if keep {
                want.put_pixel(x as u32, y as u32, Luma([v]));
            }
        }
    }
    same("suppress_non_maximum", &got, &want)
}
fn radius(r: &mut Rng) -> u32 {
    match r.u(0, 11) {
        0 => u32::MAX - r.u(0, 3),
        1 => (1 << 31) - r.u(0, 3),
        2 => r.u(4, 20),
        _ => r.u(0, 3),
    }
}
pub fn suppress(r: &mut Rng, i: u64, c: &mut Case) -> R {
    let rad = radius(r);
    match i % 4 {
        0 => {
            let (w, h) = (r.dim(0, 8), r.dim(0, 8));
            let im = r.gray(w, h);
            c.input(format!("suppress_non_maximum radius {rad} {}", show(&im)));
            nms(&im, rad)
        }
        1 => {
            let (w, h) = (r.dim(0, 8), r.dim(0, 8));
            let k = r.i(1, 5);
            let im = r.img_i(w, h, |r| r.i(0, k) as u16 * 1000);
            c.input(format!("suppress_non_maximum u16 radius {rad} {}", show(&im)));
            nms(&im, rad)
        }
        2 => {
            let (w, h) = (r.dim(0, 8), r.dim(0, 8));
            let k = r.i(0, 5);
            let im = r.img_i(w, h, |r| r.i(-k, k));
            c.input(format!("suppress_non_maximum i32 radius {rad} {}", show(&im)));
            nms(&im, rad)
        }
        _ => {
            let n = r.us(0, 12);
            let (sx, sy, ss) = (r.u(0, 9), r.u(0, 9), r.u(0, 4));
            let ts: Vec<Corner> = (0..n)
                .map(|_| {
                    let x = if r.chance(1, 12) { u32::MAX - r.u(0, 4) } else { r.u(0, sx) };
                    Corner { x, y: r.u(0, sy), score: r.u(0, ss) as f32 }
                })
                .collect();
            c.input(format!("local_maxima radius {rad} {ts:?}"));
            let got = local_maxima(&ts, rad);
            let mut want = vec![];
            for t in &ts {
                let beaten = ts.iter().any(|u| {
                    let near = (u.x as i64 - t.x as i64).abs() <= rad as i64 && (u.y as i64 - t.y as i64).abs() <= rad as i64;
                    near && (u.score > t.score || (u.score == t.score && (u.y(), u.x()) < (t.y(), t.x())))
                });
                if !beaten {
                    want.push(*t);
                }
            }
            let key = |a: &Corner| (a.y, a.x, a.score() as u32);
            let mut g: Vec<_> = got.iter().map(key).collect();
            let mut w: Vec<_> = want.iter().map(key).collect();
            g.sort();
            w.sort();
            ensure!(g == w, "kept (y,x,score) {g:?}, expected {w:?}");
            Ok(())
        }
    }
}

/// columns of the seam per row (top first), read off an image that encodes its columns
fn columns(seam: &VerticalSeam, w: u32, h: u32) -> Result<Vec<u32>, String> {
    let mut code: Image<Rgb<u8>> = ImageBuffer::new(w, h);
    for (x, y, p) in code.enumerate_pixels_mut() {
        *p = Rgb([x as u8, (x >> 8) as u8, y as u8]);
    }
    let cut = remove_vertical_seam(&code, seam);
    ensure!(cut.dimensions() == (w - 1, h), "removal gave {:?} from {w}x{h}", cut.dimensions());
    let mut v = vec![];
    for y in 0..h {
        let row: Vec<Rgb<u8>> = (0..w - 1).map(|x| *cut.get_pixel(x, y)).collect();
        let x = (0..w).find(|&x| (0..w).filter(|&a| a != x).map(|a| *code.get_pixel(a, y)).eq(row.iter().copied()));
        match x {
            Some(x) => v.push(x),
            None => return Err(format!("row {y} after removal is {row:?}, not the original without one pixel")),
        }
    }
    Ok(v)
}
fn one_seam<P>(im: &Image<P>) -> Result<(VerticalSeam, Vec<u32>), String>
where
    P: Pixel<Subpixel = u8> + imageproc::map::WithChannel<u16> + imageproc::map::WithChannel<i16>,
    <P as imageproc::map::WithChannel<u16>>::Pixel: imageproc::definitions::HasBlack,
{
    let (w, h) = im.dimensions();
    let g = gradients(im, kernel::SOBEL_HORIZONTAL_3X3, kernel::SOBEL_VERTICAL_3X3, |p| {
        let s: u32 = p.channels().iter().map(|&v| v as u32).sum();
        Luma([s / P::CHANNEL_COUNT as u32])
    });
    let seam = find_vertical_seam(im);
    let v = columns(&seam, w, h)?;
    for y in 1..h as usize {
        ensure!((v[y] as i64 - v[y - 1] as i64).abs() <= 1, "seam columns {v:?} are not connected");
    }
    let e = |x: u32, y: u32| g.get_pixel(x, y)[0] as u64;
    let mut best: Vec<u64> = (0..w).map(|x| e(x, 0)).collect();
    for y in 1..h {
        best = (0..w).map(|x| (x.saturating_sub(1)..=(x + 1).min(w - 1)).map(|a| best[a as usize]).min().unwrap() + e(x, y)).collect();
    }
    let total: u64 = (0..h).map(|y| e(v[y as usize], y)).sum();
    let min = *best.iter().min().unwrap();
    ensure!(total == min, "seam {v:?} has energy {total}, the minimum is {min}");
    Ok((seam, v))
}
pub fn seams(r: &mut Rng, i: u64, c: &mut Case) -> R {
    if i % 500 == 7 {
        // tall and busy: path energies far beyond 16 bits
        let (w, h) = (r.u(2, 6), r.u(150, 400));
        let q = r.u(1, 4);
        let im = image::GrayImage::from_fn(w, h, |_, _| Luma([if r.u(0, q) == 0 { 255 } else { 0 }]));
        c.input(format!("gray {}", show(&im)));
        one_seam(&im)?;
        return Ok(());
    }
    let (w, h) = (r.dim(2, 7), r.dim(1, 7));
    if i % 3 == 0 {
        let im = r.rgb(w, h);
        c.input(format!("rgb {}", show(&im)));
        one_seam(&im)?;
        let t = r.u(1, w);
        let got = shrink_width(&im, t);
        let mut want = im.clone();
        for _ in t..w {
            let s = find_vertical_seam(&want);
            want = remove_vertical_seam(&want, &s);
        }
        return same("shrink_width", &got, &want);
    }
    let im = r.gray(w, h);
    c.input(format!("gray {}", show(&im)));
    let n = r.u(1, w - 1);
    let mut cur = im.clone();
    let mut left: Vec<Vec<u32>> = vec![(0..w).collect(); h as usize];
    let mut gone = vec![vec![]; h as usize];
    let mut all = vec![];
    for _ in 0..n {
        let (s, v) = one_seam(&cur)?;
        cur = remove_vertical_seam(&cur, &s);
        for y in 0..h as usize {
            gone[y].push(left[y].remove(v[y] as usize));
        }
        all.push(s);
    }
    let d = draw_vertical_seams(&im, &all);
    ensure!(d.dimensions() == (w, h), "drawn image has size {:?}", d.dimensions());
    for y in 0..h {
        for x in 0..w {
            let e = if gone[y as usize].contains(&x) { Rgb([255, 0, 0]) } else { im.get_pixel(x, y).to_rgb() };
            ensure!(*d.get_pixel(x, y) == e, "draw_vertical_seams: ({x},{y}) is {:?}, expected {e:?} (removed columns per row {gone:?})", d.get_pixel(x, y));
        }
    }
    Ok(())
}
