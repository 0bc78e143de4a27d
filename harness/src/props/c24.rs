use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, Luma, Pixel, Rgba, RgbaImage};
use imageproc::drawing::*;
use imageproc::rect::Rect;

fn pos(r: &mut Rng, far: bool) -> i32 {
    if far && r.chance(1, 8) {
        return r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, -70000, 70000]);
    }
    r.i(-6, 12)
}
/// the picture with every in-canvas pixel of `shape` set to `col`
pub fn paint<F: Fn(i64, i64) -> bool>(im: &GrayImage, col: u8, shape: F) -> GrayImage {
    let mut o = im.clone();
    for y in 0..im.height() {
        for x in 0..im.width() {
            if shape(x as i64, y as i64) {
                o.put_pixel(x, y, Luma([col]));
            }
        }
    }
    o
}
pub fn shapes(r: &mut Rng, i: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(0, 9), r.dim(0, 9));
    let im = r.gray(w, h);
    let col = r.u(0, 255) as u8;
    let k = i % 4;
    if k == 0 {
        let (x, y) = (pos(r, true), pos(r, true));
        c.input(format!("draw_cross ({x},{y}) colour {col} on {}", show(&im)));
        let e = paint(&im, col, |a, b| {
            let (dx, dy) = ((a - x as i64).abs(), (b - y as i64).abs());
            dx + dy <= 1
        });
        let keep = im.clone();
        same("draw_cross", &draw_cross(&im, Luma([col]), x, y), &e)?;
        same("input of draw_cross", &im, &keep)?;
        let mut m = im.clone();
        draw_cross_mut(&mut m, Luma([col]), x, y);
        return same("draw_cross_mut", &m, &e);
    }
    let fill = k != 1;
    let (x, y) = (pos(r, fill), pos(r, fill));
    let side = |r: &mut Rng, a: i32| -> u32 {
        let room = i32::MAX as i64 - a as i64 + 1;
        let v = if fill && r.chance(1, 8) { room - r.int(0, 3) } else { r.int(1, 14) };
        v.clamp(1, room.min(u32::MAX as i64)) as u32
    };
    let (rw, rh) = (side(r, x), side(r, y));
    let rect = Rect::at(x, y).of_size(rw, rh);
    c.input(format!("draw_{}_rect at ({x},{y}) size {rw}x{rh} colour {col} on {}", if fill { "filled" } else { "hollow" }, show(&im)));
    let (l, t) = (x as i64, y as i64);
    let (rr, b) = (l + rw as i64 - 1, t + rh as i64 - 1);
    let e = paint(&im, col, |a, q| l <= a && a <= rr && t <= q && q <= b && (fill || a == l || a == rr || q == t || q == b));
    let keep = im.clone();
    let mut m = im.clone();
    let g = if fill {
        draw_filled_rect_mut(&mut m, rect, Luma([col]));
        draw_filled_rect(&im, rect, Luma([col]))
    } else {
        draw_hollow_rect_mut(&mut m, rect, Luma([col]));
        draw_hollow_rect(&im, rect, Luma([col]))
    };
    same("allocating form", &g, &e)?;
    same("in-place form", &m, &e)?;
    same("input after drawing", &im, &keep)?;
    // a blending canvas is blended exactly once at every pixel of a filled shape
    if fill && k == 2 && w > 0 && h > 0 {
        let s = r.style();
        let base = RgbaImage::from_fn(w, h, |_, _| Rgba([r.byte(s), r.byte(s), r.byte(s), r.byte(s)]));
        let col = Rgba([r.byte(2), r.byte(2), r.byte(2), r.byte(2)]);
        let mut b2 = Blend(base.clone());
        draw_filled_rect_mut(&mut b2, rect, col);
        for py in 0..h {
            for px in 0..w {
                let mut e = *base.get_pixel(px, py);
                let (a, q) = (px as i64, py as i64);
                if l <= a && a <= rr && t <= q && q <= b {
                    e.blend(&col);
                }
                ensure!(*b2.0.get_pixel(px, py) == e, "Blend canvas: ({px},{py}) is {:?}, expected {e:?}", b2.0.get_pixel(px, py));
            }
        }
    }
    Ok(())
}
pub fn flood(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(1, 9), r.dim(1, 9));
    let st = r.pick(&[0, 0, 1, 4, 5]);
    let im = r.gray_style(w, h, st);
    let (sx, sy) = (r.u(0, w - 1), r.u(0, h - 1));
    let col = if r.chance(1, 4) { im.get_pixel(sx, sy)[0] } else { r.byte(st) };
    c.input(format!("flood_fill seed ({sx},{sy}) colour {col} on {}", show(&im)));
    let t = im.get_pixel(sx, sy)[0];
    let mut seen = vec![vec![false; w as usize]; h as usize];
    let mut st = vec![(sx as i64, sy as i64)];
    while let Some((x, y)) = st.pop() {
        if x < 0 || y < 0 || x >= w as i64 || y >= h as i64 || seen[y as usize][x as usize] || im.get_pixel(x as u32, y as u32)[0] != t {
            continue;
        }
        seen[y as usize][x as usize] = true;
        st.extend([(x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)]);
    }
    let e = paint(&im, col, |x, y| seen[y as usize][x as usize]);
    let keep = im.clone();
    same("flood_fill", &flood_fill(&im, sx, sy, Luma([col])), &e)?;
    same("input of flood_fill", &im, &keep)?;
    let mut m = im.clone();
    flood_fill_mut(&mut m, sx, sy, Luma([col]));
    same("flood_fill_mut", &m, &e)
}
