use crate::ctx::*;
use crate::ensure;
use image::GrayImage;
use imageproc::template_matching::*;

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-4 * b.abs().max(1e-3)
}
fn extremes<T: image::Primitive + std::fmt::Debug>(im: &imageproc::definitions::Image<image::Luma<T>>) -> R {
    let e = find_extremes(im);
    let (mut lo, mut hi) = ((0, 0), (0, 0));
    for y in 0..im.height() {
        for x in 0..im.width() {
            let v = im.get_pixel(x, y)[0];
            if v < im.get_pixel(lo.0, lo.1)[0] {
                lo = (x, y);
            }
            if v > im.get_pixel(hi.0, hi.1)[0] {
                hi = (x, y);
            }
        }
    }
    let (a, b) = (im.get_pixel(lo.0, lo.1)[0], im.get_pixel(hi.0, hi.1)[0]);
    ensure!(e.min_value == a && e.min_value_location == lo, "find_extremes: minimum {:?} at {:?}, expected {:?} at {:?}", e.min_value, e.min_value_location, a, lo);
    ensure!(e.max_value == b && e.max_value_location == hi, "find_extremes: maximum {:?} at {:?}, expected {:?} at {:?}", e.max_value, e.max_value_location, b, hi);
    Ok(())
}
pub fn template(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    use MatchTemplateMethod as M;
    let (w, h) = (r.dim(1, 7), r.dim(1, 7));
    let im = r.gray(w, h);
    if r.chance(1, 4) {
        c.input(format!("find_extremes on {}", show(&im)));
        extremes(&im)?;
        let k = r.img_i(w, h, |r| r.i(-3, 3));
        c.input(format!("find_extremes on {}", show(&k)));
        return extremes(&k);
    }
    let (tw, th) = (r.u(1, w), r.u(1, h));
    let t: GrayImage = if r.chance(1, 3) {
        let (x, y) = (r.u(0, w - tw), r.u(0, h - th));
        GrayImage::from_fn(tw, th, |a, b| *im.get_pixel(x + a, y + b))
    } else {
        r.gray(tw, th)
    };
    let mask = if r.b() { Some(if r.b() { r.gray_style(tw, th, 1) } else { r.gray(tw, th) }) } else { None };
    let m = r.pick(&[M::SumOfSquaredErrors, M::SumOfSquaredErrorsNormalized, M::CrossCorrelation, M::CrossCorrelationNormalized]);
    c.input(format!("match_template {:?} template {} mask {} image {}", m, show(&t), mask.as_ref().map_or("none".into(), |m| show(m)), show(&im)));
    let (got, par) = match &mask {
        None => (match_template(&im, &t, m), match_template_parallel(&im, &t, m)),
        Some(k) => (match_template_with_mask(&im, &t, m, k), match_template_with_mask_parallel(&im, &t, m, k)),
    };
    ensure!(got.dimensions() == (w - tw + 1, h - th + 1), "result dimensions {:?}, expected {:?}", got.dimensions(), (w - tw + 1, h - th + 1));
    for y in 0..=h - th {
        for x in 0..=w - tw {
            let (mut sse, mut cc, mut ii, mut tt) = (0i64, 0i64, 0i64, 0i64);
            for b in 0..th {
                for a in 0..tw {
                    let i = im.get_pixel(x + a, y + b)[0] as i64;
                    let v = t.get_pixel(a, b)[0] as i64;
                    let k = mask.as_ref().map_or(1, |m| m.get_pixel(a, b)[0] as i64);
                    sse += ((v - i) * k).pow(2);
                    cc += v * i * k * k;
                    ii += (i * k).pow(2);
                    tt += (v * k).pow(2);
                }
            }
            let num = if matches!(m, M::SumOfSquaredErrors | M::SumOfSquaredErrorsNormalized) { sse } else { cc } as f64;
            let norm = ((ii as f64) * (tt as f64)).sqrt();
            let normed = matches!(m, M::SumOfSquaredErrorsNormalized | M::CrossCorrelationNormalized) && norm > 0.0;
            let g = got.get_pixel(x, y)[0] as f64;
            let e = if normed { num / norm } else { num };
            let exact = !normed && num <= 16777216.0;
            ensure!(if exact { g == e } else { close(g, e) }, "score at ({x},{y}) is {g}, expected {e}");
        }
    }
    same("match_template_parallel", &par, &got)?;
    extremes(&got)
}
