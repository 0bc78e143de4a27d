use crate::ctx::*;
use image::{GrayImage, Luma};
use imageproc::hog::*;

/// hog() on a small image: Ok exactly for compatible options, descriptor length, and block layout against the
/// one-cell-per-block descriptor of the same image (each cell part of a block is parallel to that cell's own histogram)
pub fn layout(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let tiny = [0usize, 1, 1, 2, 2, 3, 4, 5];
    let mut sides = || r.pick(&tiny);
    let (cs, bs, st) = (sides(), sides(), sides());
    let n = r.pick(&[0usize, 1, 2, 3, 4, 8, 9]);
    let signed = r.u(0, 1) == 1;
    let (w, h) = if r.u(0, 3) == 0 || cs == 0 { (r.u(0, 12), r.u(0, 12)) } else {
        // mostly compatible sizes
        let k = |r: &mut Rng| (bs + st * r.us(0, 3)) * cs;
        let (a, b) = (k(r), k(r));
        ((a.min(40)) as u32, (b.min(40)) as u32)
    };
    let huge = r.u(0, 15) == 0;
    let (bs, st) = if huge { if r.u(0, 1) == 0 { (bs, usize::MAX - r.us(0, 3)) } else { (usize::MAX, st) } } else { (bs, st) };
    let o = HogOptions::new(n, signed, cs, bs, st);
    let im: GrayImage = if r.u(0, 3) == 0 {
        // a single bright pixel
        let (px, py) = (r.u(0, w.max(1) - 1), r.u(0, h.max(1) - 1));
        GrayImage::from_fn(w, h, |x, y| Luma([if (x, y) == (px, py) { 255 } else { 0 }]))
    } else {
        r.gray_style(w, h, 2)
    };
    c.input(format!("hog {o:?} {}", show(&im)));
    let fits = |cells: usize| bs <= cells && st > 0 && (cells - bs) % st == 0;
    let ok = n > 0 && cs > 0 && st > 0 && w as usize % cs == 0 && h as usize % cs == 0 && fits(w as usize / cs) && fits(h as usize / cs);
    let spec = HogSpec::from_options(w, h, o);
    if spec.is_ok() != ok {
        return Err(format!("from_options gives {spec:?}, expected {}", if ok { "Ok" } else { "an error" }));
    }
    if w == 0 || h == 0 {
        return Ok(());
    }
    let d = hog(&im, o);
    if d.is_ok() != ok {
        return Err(format!("hog gives {}, expected {}", if d.is_ok() { "a descriptor" } else { "an error" }, if ok { "Ok" } else { "an error" }));
    }
    if !ok {
        return Ok(());
    }
    let (spec, d) = (spec.unwrap(), d.unwrap());
    let (cw, ch) = (w as usize / cs, h as usize / cs);
    let (bw, bh) = ((cw - bs) / st + 1, (ch - bs) / st + 1);
    let per = n * bs * bs;
    if spec.descriptor_length() != bw * bh * per {
        return Err(format!("descriptor_length {} for {bw}x{bh} blocks of {per}", spec.descriptor_length()));
    }
    if d.len() != bw * bh * per {
        return Err(format!("descriptor of length {} for {bw}x{bh} blocks of {per}", d.len()));
    }
    if bs == 0 {
        return Ok(());
    }
    let unit = hog(&im, HogOptions::new(n, signed, cs, 1, 1)).map_err(|e| format!("one-cell blocks refused: {e}"))?;
    if unit.len() != cw * ch * n {
        return Err(format!("one-cell descriptor of length {}", unit.len()));
    }
    for by in 0..bh {
        for bx in 0..bw {
            let block = &d[(by * bw + bx) * per..][..per];
            for iy in 0..bs {
                for ix in 0..bs {
                    let part = &block[(iy * bs + ix) * n..][..n];
                    let cell = &unit[((by * st + iy) * cw + bx * st + ix) * n..][..n];
                    let len = part.iter().map(|v| v * v).sum::<f32>().sqrt();
                    let zero = cell.iter().all(|v| *v == 0.0);
                    for k in 0..n {
                        let want = if zero { 0.0 } else { cell[k] * len };
                        if (part[k] - want).abs() > 1e-3 {
                            return Err(format!("block ({bx}, {by}) cell ({ix}, {iy}) bin {k} is {}, the cell's histogram gives {want}", part[k]));
                        }
                    }
                }
            }
        }
    }
    // a cell's histogram only depends on gradients within one cell of it
    let lit: Vec<(u32, u32)> = im.enumerate_pixels().filter(|p| p.2[0] != im.get_pixel(0, 0)[0]).map(|p| (p.0, p.1)).collect();
    if lit.len() == 1 && (lit[0].0 > 1 || lit[0].1 > 1) {
        let (px, py) = (lit[0].0 as i64, lit[0].1 as i64);
        for y in 0..ch {
            for x in 0..cw {
                let near = |p: i64, q: usize| p + 1 >= (q as i64 - 1) * cs as i64 && p - 1 < (q as i64 + 1) * cs as i64;
                let cell = &unit[(y * cw + x) * n..][..n];
                if !(near(px, x) && near(py, y)) && cell.iter().any(|v| *v != 0.0) {
                    return Err(format!("cell ({x}, {y}) is nonzero although the only gradient is around ({px}, {py})"));
                }
            }
        }
    }
    Ok(())
}
