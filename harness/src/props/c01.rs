use crate::ctx::*;
use crate::ensure;
use image::{ImageBuffer, Luma, LumaA, Pixel, Rgb};
use imageproc::compose::*;
use imageproc::definitions::Image;
use imageproc::geometric_transformations::*;

fn remap<P: Pixel>(w: u32, h: u32, f: impl Fn(u32, u32) -> P) -> Image<P> {
    let mut o: Image<P> = ImageBuffer::new(w, h);
    for y in 0..h {
        for x in 0..w {
            o.put_pixel(x, y, f(x, y));
        }
    }
    o
}

fn perms<P>(im: &Image<P>, r: &mut Rng) -> R
where
    P: Pixel + PartialEq + std::fmt::Debug + Send + Sync,
    P::Subpixel: Send + Sync,
{
    let (w, h) = im.dimensions();
    let keep = im.clone();
    same("rotate90", &rotate90(im), &remap(h, w, |x, y| *im.get_pixel(y, h - 1 - x)))?;
    same("rotate270", &rotate270(im), &remap(h, w, |x, y| *im.get_pixel(w - 1 - y, x)))?;
    let w180 = remap(w, h, |x, y| *im.get_pixel(w - 1 - x, h - 1 - y));
    same("rotate180", &rotate180(im), &w180)?;
    let mut m = im.clone();
    rotate180_mut(&mut m);
    same("rotate180_mut", &m, &w180)?;
    let wh = remap(w, h, |x, y| *im.get_pixel(w - 1 - x, y));
    same("flip_horizontal", &flip_horizontal(im), &wh)?;
    let mut m = im.clone();
    flip_horizontal_mut(&mut m);
    same("flip_horizontal_mut", &m, &wh)?;
    let wv = remap(w, h, |x, y| *im.get_pixel(x, h - 1 - y));
    same("flip_vertical", &flip_vertical(im), &wv)?;
    let mut m = im.clone();
    flip_vertical_mut(&mut m);
    same("flip_vertical_mut", &m, &wv)?;
    let x = r.u(0, w);
    let y = r.u(0, h);
    let (cw, ch) = (r.u(0, w - x), r.u(0, h - y));
    let rect = image::math::Rect { x, y, width: cw, height: ch };
    let wc = remap(cw, ch, |i, j| *im.get_pixel(x + i, y + j));
    same(&format!("crop {rect:?}"), &crop(im, rect), &wc)?;
    same(&format!("crop_parallel {rect:?}"), &crop_parallel(im, rect), &wc)?;
    same("input unchanged", im, &keep)
}

pub fn one(r: &mut Rng, i: u64, c: &mut Case) -> R {
    // sizes: all pairs 0..=9 first, then random
    let (w, h) = if i < 100 { ((i % 10) as u32, (i / 10) as u32) } else { (r.dim(0, 9), r.dim(0, 9)) };
    if i % 3 == 0 {
        let im = r.rgb(w, h);
        c.input(format!("rgb {}", show(&im)));
        perms(&im, r)
    } else {
        let mut k = 0u16;
        let im = r.img_i::<u16, _>(w, h, |_| {
            k += 1;
            k
        });
        c.input(format!("luma16 {}", show(&im)));
        perms(&im, r)
    }
}

fn compose<P>(bot: &Image<P>, top: &Image<P>, x: u32, y: u32) -> R
where
    P: Pixel + PartialEq + std::fmt::Debug,
{
    let (w, h) = bot.dimensions();
    let inside = |i: u32, j: u32| i >= x && j >= y && i - x < top.width() && j - y < top.height();
    let want = remap(w, h, |i, j| if inside(i, j) { *top.get_pixel(i - x, j - y) } else { *bot.get_pixel(i, j) });
    same("replace", &replace(bot, top, x, y), &want)?;
    let mut m = bot.clone();
    replace_mut(&mut m, top, x, y);
    same("replace_mut", &m, &want)?;
    let want = remap(w, h, |i, j| {
        let mut p = *bot.get_pixel(i, j);
        if inside(i, j) {
            p.blend(top.get_pixel(i - x, j - y));
        }
        p
    });
    same("overlay", &overlay(bot, top, x, y), &want)?;
    let mut m = bot.clone();
    overlay_mut(&mut m, top, x, y);
    same("overlay_mut", &m, &want)
}

pub fn two(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(1, 7), r.dim(1, 7));
    let (tw, th) = (r.dim(0, 7), r.dim(0, 7));
    let (x, y) = (r.u(0, w - 1), r.u(0, h - 1));
    if r.b() {
        let (a, b) = (r.rgb(w, h), r.rgb(tw, th));
        c.input(format!("bottom {} top {} at ({x},{y})", show(&a), show(&b)));
        compose::<Rgb<u8>>(&a, &b, x, y)
    } else {
        let f = |r: &mut Rng, w, h| -> Image<LumaA<u8>> {
            let mut i: Image<LumaA<u8>> = ImageBuffer::new(w, h);
            for p in i.iter_mut() {
                *p = r.byte(2);
            }
            i
        };
        let (a, b) = (f(r, w, h), f(r, tw, th));
        c.input(format!("bottom {} top {} at ({x},{y})", show(&a), show(&b)));
        compose::<LumaA<u8>>(&a, &b, x, y)?;
        ensure!(a.dimensions() == (w, h), "input changed");
        let _ = Luma([0u8]);
        Ok(())
    }
}
