use crate::ctx::*;
use crate::ensure;
use image::GrayImage;
use imageproc::contours::*;
use std::collections::{BTreeSet, HashMap};

/// regions of the image with a one-pixel background frame: 8-connected foreground, 4-connected background
struct Regions {
    w: usize,
    label: Vec<usize>,
    fg: Vec<bool>,
    /// region that surrounds each region (the frame surrounds itself)
    around: Vec<usize>,
}
fn regions(img: &GrayImage, t: u8) -> Regions {
    let (w, h) = (img.width() as usize + 2, img.height() as usize + 2);
    let on: Vec<bool> = (0..w * h)
        .map(|i| {
            let (x, y) = (i % w, i / w);
            x > 0 && y > 0 && x < w - 1 && y < h - 1 && img.get_pixel(x as u32 - 1, y as u32 - 1).0[0] > t
        })
        .collect();
    let mut label = vec![usize::MAX; w * h];
    let mut fg = vec![];
    for s in 0..w * h {
        if label[s] != usize::MAX {
            continue;
        }
        let n = fg.len();
        fg.push(on[s]);
        label[s] = n;
        let mut q = vec![s];
        while let Some(i) = q.pop() {
            let (x, y) = ((i % w) as i64, (i / w) as i64);
            for dy in -1..=1i64 {
                for dx in -1..=1i64 {
                    if !on[s] && dx != 0 && dy != 0 {
                        continue;
                    }
                    let (u, v) = (x + dx, y + dy);
                    if u < 0 || v < 0 || u >= w as i64 || v >= h as i64 {
                        continue;
                    }
                    let j = v as usize * w + u as usize;
                    if on[j] == on[s] && label[j] == usize::MAX {
                        label[j] = n;
                        q.push(j);
                    }
                }
            }
        }
    }
    // tree of regions, from the frame inwards
    let mut adj = vec![BTreeSet::new(); fg.len()];
    for i in 0..w * h {
        for j in [if i % w + 1 < w { i + 1 } else { i }, if i / w + 1 < h { i + w } else { i }] {
            if label[i] != label[j] && on[i] != on[j] {
                adj[label[i]].insert(label[j]);
                adj[label[j]].insert(label[i]);
            }
        }
    }
    let mut around = vec![usize::MAX; fg.len()];
    around[0] = 0;
    let mut q = vec![0];
    while let Some(a) = q.pop() {
        for &b in &adj[a] {
            if around[b] == usize::MAX {
                around[b] = a;
                q.push(b);
            }
        }
    }
    Regions { w, label, fg, around }
}
fn picture(r: &mut Rng) -> GrayImage {
    let m = r.pick(&[4u32, 7, 12]);
    let (w, h) = (r.dim(1, m), r.dim(1, m));
    let mut img = GrayImage::new(w, h);
    let den = r.pick(&[(1, 3), (1, 2), (2, 3), (5, 6), (1, 8)]);
    let style = r.u(0, 3);
    for p in img.iter_mut() {
        *p = match style {
            0 => r.u(0, 255) as u8,
            _ => {
                if r.chance(den.0, den.1) {
                    r.pick(&[255, 255, 255, 1, 128])
                } else {
                    0
                }
            }
        };
    }
    // nested rings
    if style == 3 {
        let (cx, cy) = (r.i(0, w as i32), r.i(0, h as i32));
        let f = r.pick(&[1, 2, 3]);
        for y in 0..h {
            for x in 0..w {
                let d = (x as i32 - cx).abs().max((y as i32 - cy).abs());
                if !r.chance(1, 12) {
                    img.get_pixel_mut(x, y).0[0] = if d / f % 2 == 0 { 255 } else { 0 };
                }
            }
        }
    }
    img
}
pub fn contours(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let img = picture(r);
    let t = if r.chance(2, 3) { 0 } else { r.pick(&[1, 127, 128, 254, 255]) };
    c.input(format!("find_contours_with_threshold of {} with threshold {t}", show(&img)));
    let got: Vec<Contour<i32>> = if t == 0 && r.b() { find_contours(&img) } else { find_contours_with_threshold(&img, t) };
    let g = regions(&img, t);
    let id = |p: &imageproc::point::Point<i32>| (p.y as usize + 1) * g.w + p.x as usize + 1;
    let show = |k: usize| format!("contour {k} ({:?}, {:?})", got[k].border_type, got[k].points.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>());
    // the border pixels of every pair (foreground region, background region)
    let mut want: HashMap<(usize, usize), BTreeSet<usize>> = HashMap::new();
    for i in 0..g.label.len() {
        if g.fg[g.label[i]] {
            for j in [i - 1, i + 1, i - g.w, i + g.w] {
                if !g.fg[g.label[j]] {
                    want.entry((g.label[i], g.label[j])).or_default().insert(i);
                }
            }
        }
    }
    let mut found: HashMap<(usize, usize), usize> = HashMap::new();
    let mut pair = vec![];
    for (k, ct) in got.iter().enumerate() {
        ensure!(!ct.points.is_empty(), "contour {k} has no points");
        let n = ct.points.len();
        for p in &ct.points {
            ensure!(p.x >= 0 && p.y >= 0 && (p.x as u32) < img.width() && (p.y as u32) < img.height() && img.get_pixel(p.x as u32, p.y as u32).0[0] > t, "{} leaves the foreground at ({}, {})", show(k), p.x, p.y);
        }
        let mut steps = BTreeSet::new();
        for s in 0..n {
            let (p, q) = (ct.points[s], ct.points[(s + 1) % n]);
            ensure!((p.x - q.x).abs() <= 1 && (p.y - q.y).abs() <= 1 && (n == 1 || p != q), "{} jumps from ({}, {}) to ({}, {})", show(k), p.x, p.y, q.x, q.y);
            ensure!(steps.insert((id(&p), id(&q))), "{} takes the step from ({}, {}) to ({}, {}) twice", show(k), p.x, p.y, q.x, q.y);
        }
        let f = g.label[id(&ct.points[0])];
        let set: BTreeSet<usize> = ct.points.iter().map(|p| id(p)).collect();
        let outer = ct.border_type == BorderType::Outer;
        let b = want.iter().filter(|(key, v)| key.0 == f && **v == set && (key.1 == g.around[f]) == outer && !found.contains_key(key)).map(|(key, _)| key.1).min();
        let Some(b) = b else {
            return Err(format!("{} is not the {} of its region, or is reported twice", show(k), if outer { "outer border" } else { "border of a hole" }));
        };
        found.insert((f, b), k);
        pair.push((f, b));
    }
    for (key, v) in &want {
        ensure!(found.contains_key(key), "no {} contour for the region of pixel ({}, {})", if key.1 == g.around[key.0] { "outer" } else { "hole" }, (v.first().unwrap() % g.w) - 1, v.first().unwrap() / g.w - 1);
    }
    // the enclosing border: a region's outer border for its holes, the hole's border for the regions inside it
    for (k, ct) in got.iter().enumerate() {
        let (f, b) = pair[k];
        let want: Vec<usize> = if ct.border_type == BorderType::Hole {
            vec![found[&(f, g.around[f])]]
        } else if b == 0 {
            vec![]
        } else {
            vec![found[&(g.around[b], b)]]
        };
        // holes with the same border pixels cannot be told apart
        let same = |a: usize, b: usize| got[a].border_type == got[b].border_type && got[a].points.iter().map(|p| id(p)).collect::<BTreeSet<_>>() == got[b].points.iter().map(|p| id(p)).collect::<BTreeSet<_>>();
        let ok = match ct.parent {
            None => want.is_empty(),
            Some(p) => p < got.len() && want.iter().any(|w| *w == p || same(*w, p)),
        };
        ensure!(ok, "{} has parent {:?}, expected {:?}", show(k), ct.parent, want);
    }
    Ok(())
}
