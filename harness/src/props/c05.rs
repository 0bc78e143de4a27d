use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, ImageBuffer, Luma, Pixel, Rgb, Rgba};
use imageproc::contrast::*;
use imageproc::definitions::Image;
use imageproc::filter::box_filter;
use imageproc::integral_image::*;
use imageproc::map::*;
use imageproc::stats::*;

fn rgba(r: &mut Rng, w: u32, h: u32) -> Image<Rgba<u8>> {
    let s = r.style();
    let mut i: Image<Rgba<u8>> = ImageBuffer::new(w, h);
    for p in i.iter_mut() {
        *p = r.byte(s);
    }
    i
}

/// brute force entry (x, y) of channel c
fn brute<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: usize, l: u32, t: u32, r: u32, b: u32, sq: bool) -> u64 {
    let mut s = 0u64;
    for y in t..b {
        for x in l..r {
            let v = im.get_pixel(x, y).channels()[c] as u64;
            s += if sq { v * v } else { v };
        }
    }
    s
}

macro_rules! check {
    ($im:expr, $ty:ty, $n:expr, $r:expr) => {{
        let im = $im;
        let (w, h) = im.dimensions();
        let maxt = <$ty>::MAX as u64;
        for sq in [false, true] {
            let fits = (0..$n).all(|c| brute(im, c, 0, 0, w, h, sq) <= maxt);
            if !fits {
                continue;
            }
            let ii = if sq { integral_squared_image::<_, $ty>(im) } else { integral_image::<_, $ty>(im) };
            ensure!(ii.dimensions() == (w + 1, h + 1), "integral image has size {:?}", ii.dimensions());
            for y in 0..=h {
                for x in 0..=w {
                    for c in 0..$n {
                        let (g, e) = (ii.get_pixel(x, y).channels()[c] as u64, brute(im, c, 0, 0, x, y, sq));
                        ensure!(g == e, "integral (squared {sq}, {}) at ({x},{y}) channel {c} is {g}, expected {e}", stringify!($ty));
                    }
                }
            }
            if w == 0 || h == 0 {
                continue;
            }
            for _ in 0..12 {
                let (a, b) = ($r.u(0, w - 1), $r.u(0, w - 1));
                let (l, rr) = (a.min(b), a.max(b));
                let (a, b) = ($r.u(0, h - 1), $r.u(0, h - 1));
                let (t, bb) = (a.min(b), a.max(b));
                let s = sum_image_pixels(&ii, l, t, rr, bb);
                for c in 0..$n {
                    let e = brute(im, c, l, t, rr + 1, bb + 1, sq);
                    ensure!(s[c] as u64 == e, "sum over ({l},{t})..=({rr},{bb}) squared {sq} {} channel {c} is {}, expected {e}", stringify!($ty), s[c]);
                }
            }
        }
    }};
}

pub fn integral(r: &mut Rng, i: u64, c: &mut Case) -> R {
    let (w, h) = if i % 29 == 28 { (r.u(30, 300), r.u(30, 300)) } else { (r.dim(0, 8), r.dim(0, 8)) };
    if w > 29 {
        // totals near the top of u32 with the squared form
        let im = r.gray_style(w, h, 2);
        c.input(format!("luma random {w}x{h} case {i}"));
        let ii = integral_squared_image::<_, u32>(&im);
        let (mut sum, mut want) = (vec![0u64; w as usize + 1], vec![0u64; w as usize + 1]);
        for y in 0..h {
            let mut row = 0u64;
            for x in 0..w {
                let v = im.get_pixel(x, y)[0] as u64;
                row += v * v;
                want[x as usize + 1] = sum[x as usize + 1] + row;
                let g = ii.get_pixel(x + 1, y + 1)[0] as u64;
                ensure!(g == want[x as usize + 1], "large squared integral at ({},{}) is {g}, expected {}", x + 1, y + 1, want[x as usize + 1]);
            }
            std::mem::swap(&mut sum, &mut want);
        }
        let s = sum_image_pixels(&ii, 0, 0, w - 1, h - 1)[0] as u64;
        ensure!(s == sum[w as usize], "whole-image squared sum {s}");
        let one = (w - 1, h - 1);
        let s = sum_image_pixels(&ii, one.0, one.1, one.0, one.1)[0] as u64;
        ensure!(s == (im.get_pixel(one.0, one.1)[0] as u64).pow(2), "last pixel squared sum {s}");
        return Ok(());
    }
    match r.u(0, 2) {
        0 => {
            let im = r.gray(w, h);
            c.input(format!("luma {}", show(&im)));
            check!(&im, u32, 1, r);
            check!(&im, u16, 1, r);
            check!(&im, u64, 1, r);
            check!(&im, i32, 1, r);
            if w > 0 && h > 0 {
                let (a, b) = (integral_image::<_, u32>(&im), integral_squared_image::<_, u32>(&im));
                let (l, t) = (r.u(0, w - 1), r.u(0, h - 1));
                let (rr, bb) = (r.u(l, w - 1), r.u(t, h - 1));
                let n = ((rr - l + 1) * (bb - t + 1)) as f64;
                let (s, q) = (brute(&im, 0, l, t, rr + 1, bb + 1, false) as f64, brute(&im, 0, l, t, rr + 1, bb + 1, true) as f64);
                let e = q / n - (s / n) * (s / n);
                let g = variance(&a, &b, l, t, rr, bb);
                ensure!((g - e).abs() <= 1e-6 * (1.0 + e.abs()), "variance over ({l},{t})..=({rr},{bb}) is {g}, expected {e}");
            }
        }
        1 => {
            let im = r.rgb(w, h);
            c.input(format!("rgb {}", show(&im)));
            check!(&im, u32, 3, r);
            check!(&im, u16, 3, r);
        }
        _ => {
            let im = rgba(r, w, h);
            c.input(format!("rgba {}", show(&im)));
            check!(&im, u32, 4, r);
        }
    }
    Ok(())
}

fn clampi(v: i64, n: u32) -> u32 {
    v.clamp(0, n as i64 - 1) as u32
}
pub fn boxf(r: &mut Rng, i: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(0, 9), r.dim(0, 9));
    let big = i % 17 == 16;
    let rad = |r: &mut Rng| if big { r.u(0, 300) } else { r.u(0, 12) };
    let (rx, ry) = (rad(r), rad(r));
    let im = r.gray(w, h);
    c.input(format!("gray {} radii {rx},{ry}", show(&im)));
    let out = box_filter(&im, rx, ry);
    ensure!(out.dimensions() == (w, h), "output size {:?}", out.dimensions());
    if w == 0 || h == 0 {
        return Ok(());
    }
    let mid = GrayImage::from_fn(w, h, |x, y| {
        let s: u64 = (-(rx as i64)..=rx as i64).map(|d| im.get_pixel(clampi(x as i64 + d, w), y)[0] as u64).sum();
        Luma([(s / (2 * rx as u64 + 1)) as u8])
    });
    let want = GrayImage::from_fn(w, h, |x, y| {
        let s: u64 = (-(ry as i64)..=ry as i64).map(|d| mid.get_pixel(x, clampi(y as i64 + d, h))[0] as u64).sum();
        Luma([(s / (2 * ry as u64 + 1)) as u8])
    });
    same("box_filter", &out, &want)?;
    let (p, extra) = (r.u(0, 9), r.us(0, 3));
    let row = r.u(0, h - 1);
    let mut buf = vec![7u32; w as usize + 2 * p as usize + extra];
    row_running_sum(&im, row, &mut buf, p);
    let mut s = 0u32;
    for k in 0..buf.len() {
        s += im.get_pixel(clampi(k as i64 - p as i64, w), row)[0] as u32;
        ensure!(buf[k] == s, "row {row} running sum padding {p}: [{k}] = {}, expected {s}", buf[k]);
    }
    let col = r.u(0, w - 1);
    let mut buf = vec![7u32; h as usize + 2 * p as usize + extra];
    column_running_sum(&im, col, &mut buf, p);
    let mut s = 0u32;
    for k in 0..buf.len() {
        s += im.get_pixel(col, clampi(k as i64 - p as i64, h))[0] as u32;
        ensure!(buf[k] == s, "column {col} running sum padding {p}: [{k}] = {}, expected {s}", buf[k]);
    }
    Ok(())
}

pub fn thresh(r: &mut Rng, i: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(0, 9), r.dim(0, 9));
    let im = r.gray(w, h);
    let t = if im.len() > 0 && r.b() { im.as_raw()[r.us(0, im.len() - 1)] } else { r.byte(2) };
    c.input(format!("gray {} threshold {t}", show(&im)));
    for k in 0..5 {
        let ty = || match k {
            0 => ThresholdType::Binary,
            1 => ThresholdType::BinaryInverted,
            2 => ThresholdType::Truncate,
            3 => ThresholdType::ToZero,
            _ => ThresholdType::ToZeroInverted,
        };
        let f = |p: u8| match (k, p > t) {
            (0, true) => 255,
            (0, false) => 0,
            (1, true) => 0,
            (1, false) => 255,
            (2, true) => t,
            (2, false) => p,
            (3, true) => 0,
            (3, false) => p,
            (_, true) => p,
            (_, false) => 0,
        };
        let want = GrayImage::from_fn(w, h, |x, y| Luma([f(im.get_pixel(x, y)[0])]));
        same(&format!("threshold type {k}"), &threshold(&im, t, ty()), &want)?;
        let mut m = im.clone();
        threshold_mut(&mut m, t, ty());
        same(&format!("threshold_mut type {k}"), &m, &want)?;
    }
    let rad = match i % 9 {
        0 => r.u(u32::MAX - 3, u32::MAX),
        1 => (1 << 31) - 2 + r.u(0, 4),
        _ => r.u(1, 11),
    };
    let delta = match i % 7 {
        0 => i32::MIN + r.i(0, 2),
        1 => i32::MAX - r.i(0, 2),
        2 => r.i(-300, 300),
        _ => r.i(-3, 3),
    };
    c.input(format!("gray {} threshold {t} adaptive radius {rad} delta {delta}", show(&im)));
    let want = GrayImage::from_fn(w, h, |x, y| {
        let (mut s, mut n) = (0i64, 0i64);
        for yy in 0..h {
            for xx in 0..w {
                if x.abs_diff(xx) <= rad && y.abs_diff(yy) <= rad {
                    s += im.get_pixel(xx, yy)[0] as i64;
                    n += 1;
                }
            }
        }
        Luma([if im.get_pixel(x, y)[0] as i64 >= s / n - delta as i64 { 255 } else { 0 }])
    });
    same("adaptive_threshold", &adaptive_threshold(&im, rad, delta), &want)
}

fn hist<P: Pixel<Subpixel = u8>>(im: &Image<P>) -> R {
    let n = P::CHANNEL_COUNT as usize;
    let (hg, cg) = (histogram(im), cumulative_histogram(im));
    ensure!(hg.channels.len() == n && cg.channels.len() == n, "channel count");
    for c in 0..n {
        let mut cum = 0;
        for v in 0..256 {
            let e = im.pixels().filter(|p| p.channels()[c] as usize == v).count() as u32;
            cum += e;
            ensure!(hg.channels[c][v] == e, "histogram channel {c} value {v} is {}, expected {e}", hg.channels[c][v]);
            ensure!(cg.channels[c][v] == cum, "cumulative histogram channel {c} value {v} is {}, expected {cum}", cg.channels[c][v]);
        }
    }
    if im.len() > 0 {
        let mm = min_max(im);
        ensure!(mm.len() == n, "min_max has {} entries", mm.len());
        for c in 0..n {
            let lo = im.pixels().map(|p| p.channels()[c]).min().unwrap();
            let hi = im.pixels().map(|p| p.channels()[c]).max().unwrap();
            ensure!(mm[c].min == lo && mm[c].max == hi, "min_max channel {c} is {:?}, expected {lo} {hi}", mm[c]);
        }
    }
    Ok(())
}
pub fn stats(r: &mut Rng, i: u64, c: &mut Case) -> R {
    let (w, h) = if i % 11 == 10 { (r.u(10, 60), r.u(10, 60)) } else { (r.dim(0, 7), r.dim(0, 7)) };
    if i % 3 == 0 {
        let im = r.rgb(w, h);
        c.input(format!("rgb {}", show(&im)));
        return hist(&im);
    }
    let im = r.gray(w, h);
    c.input(format!("gray {}", show(&im)));
    hist(&im)?;
    let n = im.len() as u64;
    if n > 0 {
        for p in 0..=100u8 {
            let g = percentile(&im, p);
            let e = (0..=255u8).find(|v| 100 * im.iter().filter(|q| *q <= v).count() as u64 >= p as u64 * n).unwrap();
            ensure!(g == e, "percentile {p} is {g}, expected {e}");
        }
        let im16 = r.img_i::<i16, _>(w, h, |r| r.i(-300, 300) as i16);
        let mm = min_max(&im16);
        ensure!(mm[0].min == *im16.iter().min().unwrap() && mm[0].max == *im16.iter().max().unwrap(), "min_max of {} is {:?}", show(&im16), mm);
    }
    Ok(())
}

fn build<P: Pixel>(w: u32, h: u32, f: impl Fn(u32, u32) -> P) -> Image<P> {
    let mut o: Image<P> = ImageBuffer::new(w, h);
    for y in 0..h {
        for x in 0..w {
            o.put_pixel(x, y, f(x, y));
        }
    }
    o
}
pub fn maps(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(0, 7), r.dim(0, 7));
    let im = r.rgb(w, h);
    let g = r.gray(w, h);
    c.input(format!("rgb {} gray {}", show(&im), show(&g)));
    let k = r.u(1, 250) as u16;
    let at = |x: u32, y: u32| *im.get_pixel(x, y);
    let gat = |x: u32, y: u32| g.get_pixel(x, y)[0];
    // subpixels
    let f = |v: u8| v as u16 * 3 + k;
    let want = build(w, h, |x, y| Rgb(at(x, y).0.map(f)));
    same("map_subpixels", &map_subpixels(&im, f), &want)?;
    same("map_subpixels_parallel", &map_subpixels_parallel(&im, f), &want)?;
    let fm = |v: u8| v.wrapping_mul(3).wrapping_add(k as u8);
    let want = build(w, h, |x, y| Rgb(at(x, y).0.map(fm)));
    let mut m = im.clone();
    map_subpixels_mut(&mut m, fm);
    same("map_subpixels_mut", &m, &want)?;
    let mut m = im.clone();
    map_subpixels_mut_parallel(&mut m, fm);
    same("map_subpixels_mut_parallel", &m, &want)?;
    // pixels
    let f = |p: Rgb<u8>| Rgba([p[1] as u16 + k, p[0] as u16, p[2] as u16 * 2, k]);
    let want = build(w, h, |x, y| f(at(x, y)));
    same("map_pixels", &map_pixels(&im, f), &want)?;
    same("map_pixels_parallel", &map_pixels_parallel(&im, f), &want)?;
    let f = |p: Rgb<u8>| Rgb([p[2], p[0], p[1] ^ k as u8]);
    let want = build(w, h, |x, y| f(at(x, y)));
    let mut m = im.clone();
    map_pixels_mut(&mut m, f);
    same("map_pixels_mut", &m, &want)?;
    let mut m = im.clone();
    map_pixels_mut_parallel(&mut m, f);
    same("map_pixels_mut_parallel", &m, &want)?;
    // enumerated
    let f = |x: u32, y: u32, p: Rgb<u8>| Rgb([p[0] as u32, x * 1000 + p[1] as u32, y * 1000 + p[2] as u32]);
    let want = build(w, h, |x, y| f(x, y, at(x, y)));
    let u16w = |i: &Image<Rgb<f32>>| i.clone();
    let _ = u16w;
    let f16 = |x: u32, y: u32, p: Rgb<u8>| Rgb(f(x, y, p).0.map(|v| v as f32));
    let want = map_like(&want);
    same("map_enumerated_pixels", &map_enumerated_pixels(&im, f16), &want)?;
    same("map_enumerated_pixels_parallel", &map_enumerated_pixels_parallel(&im, f16), &want)?;
    let f = |x: u32, y: u32, p: Rgb<u8>| Rgb([p[2].wrapping_add(x as u8), p[0].wrapping_sub(y as u8), p[1]]);
    let want = build(w, h, |x, y| f(x, y, at(x, y)));
    let mut m = im.clone();
    map_enumerated_pixels_mut(&mut m, f);
    same("map_enumerated_pixels_mut", &m, &want)?;
    let mut m = im.clone();
    map_enumerated_pixels_mut_parallel(&mut m, f);
    same("map_enumerated_pixels_mut_parallel", &m, &want)?;
    // pairs
    let f = |p: Rgb<u8>, q: Luma<u8>| Luma([p[0] as u16 * 256 + q[0] as u16]);
    let want = build(w, h, |x, y| f(at(x, y), Luma([gat(x, y)])));
    same("map_pixels2", &map_pixels2(&im, &g, f), &want)?;
    // channels
    same("into_red_channel", &into_red_channel(&im), &build(w, h, |x, y| Luma([at(x, y)[0]])))?;
    same("into_green_channel", &into_green_channel(&im), &build(w, h, |x, y| Luma([at(x, y)[1]])))?;
    same("into_blue_channel", &into_blue_channel(&im), &build(w, h, |x, y| Luma([at(x, y)[2]])))?;
    same("from_red_channel", &from_red_channel(&g), &build(w, h, |x, y| Rgb([gat(x, y), 0, 0])))?;
    same("from_green_channel", &from_green_channel(&g), &build(w, h, |x, y| Rgb([0, gat(x, y), 0])))?;
    same("from_blue_channel", &from_blue_channel(&g), &build(w, h, |x, y| Rgb([0, 0, gat(x, y)])))
}
fn map_like(i: &Image<Rgb<u32>>) -> Image<Rgb<f32>> {
    build(i.width(), i.height(), |x, y| Rgb(i.get_pixel(x, y).0.map(|v| v as f32)))
}
