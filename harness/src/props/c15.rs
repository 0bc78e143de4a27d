use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, Luma, Pixel};
use imageproc::definitions::Image;
use imageproc::region_labelling::*;
use imageproc::union_find::DisjointSetForest;

fn check<P: Pixel + Eq>(im: &Image<P>, conn: Connectivity, bg: P) -> R {
    let (w, h) = im.dimensions();
    let mut want: Image<Luma<u32>> = Image::new(w, h);
    let mut n = 0;
    for y in 0..h {
        for x in 0..w {
            if *im.get_pixel(x, y) == bg || want.get_pixel(x, y)[0] != 0 {
                continue;
            }
            n += 1;
            let col = *im.get_pixel(x, y);
            let mut st = vec![(x as i64, y as i64)];
            want.put_pixel(x, y, Luma([n]));
            while let Some((a, b)) = st.pop() {
                for dy in -1..=1i64 {
                    for dx in -1..=1i64 {
                        if (dx == 0 && dy == 0) || (conn == Connectivity::Four && dx != 0 && dy != 0) {
                            continue;
                        }
                        let (u, v) = (a + dx, b + dy);
                        if u >= 0 && v >= 0 && u < w as i64 && v < h as i64 && *im.get_pixel(u as u32, v as u32) == col && want.get_pixel(u as u32, v as u32)[0] == 0 {
                            want.put_pixel(u as u32, v as u32, Luma([n]));
                            st.push((u, v));
                        }
                    }
                }
            }
        }
    }
    same("connected_components", &connected_components(im, conn, bg), &want)
}
pub fn labels(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (w, h) = (r.dim(0, 9), r.dim(0, 9));
    let conn = if r.b() { Connectivity::Four } else { Connectivity::Eight };
    if r.chance(1, 5) {
        let im = r.rgb(w, h);
        let bg = image::Rgb([r.byte(0), r.byte(0), r.byte(0)]);
        c.input(format!("connected_components {conn:?} background {bg:?} {}", show(&im)));
        return check(&im, conn, bg);
    }
    let mut im = match r.u(0, 4) {
        0 => r.gray(w, h),
        1 => GrayImage::from_fn(w, h, |_, _| Luma([if r.chance(1, 2) { 0 } else { 1 }])),
        2 => GrayImage::from_fn(w, h, |_, _| Luma([if r.chance(1, 3) { 0 } else { 1 }])),
        3 => GrayImage::from_fn(w, h, |x, y| Luma([(x * 17 + y * 31) as u8 | 1])),
        // combs and spirals: many provisional labels that merge late
        _ => GrayImage::from_fn(w, h, |x, y| Luma([if y + 1 == h || (x + y / 3) % 2 == 0 { 7 } else { 0 }])),
    };
    if w * h > 0 && r.b() {
        for _ in 0..r.u(0, 3) {
            im.put_pixel(r.u(0, w - 1), r.u(0, h - 1), Luma([r.u(0, 2) as u8]));
        }
    }
    let bg = Luma([r.pick(&[0u8, 0, 0, 1, 255, 7])]);
    c.input(format!("connected_components {conn:?} background {} {}", bg[0], show(&im)));
    check(&im, conn, bg)
}
pub fn forest(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let n = r.us(0, 14);
    let mut f = DisjointSetForest::new(n);
    let mut cl: Vec<usize> = (0..n).collect();
    let mut ops = String::new();
    let steps = r.us(0, 30);
    for _ in 0..steps {
        if n == 0 {
            break;
        }
        let (i, j) = (r.us(0, n - 1), r.us(0, n - 1));
        match r.u(0, 4) {
            0 => {
                ops.push_str(&format!("root({i});"));
                c.input(format!("DisjointSetForest({n}): {ops}"));
                let p = f.root(i);
                ensure!(p < n && cl[p] == cl[i], "root({i}) = {p}, which is not in its class");
                ensure!(f.root(p) == p, "root of a root");
            }
            1 => {
                ops.push_str(&format!("find({i},{j});"));
                c.input(format!("DisjointSetForest({n}): {ops}"));
                ensure!(f.find(i, j) == (cl[i] == cl[j]), "find({i},{j})");
            }
            _ => {
                ops.push_str(&format!("union({i},{j});"));
                c.input(format!("DisjointSetForest({n}): {ops}"));
                f.union(i, j);
                let (a, b) = (cl[i], cl[j]);
                for v in cl.iter_mut() {
                    if *v == b {
                        *v = a;
                    }
                }
            }
        }
    }
    c.input(format!("DisjointSetForest({n}): {ops}"));
    for i in 0..n {
        for j in 0..n {
            ensure!((f.root(i) == f.root(j)) == (cl[i] == cl[j]), "elements {i} and {j}: same representative {}, same class {}", f.root(i) == f.root(j), cl[i] == cl[j]);
        }
    }
    let mut reps = cl.clone();
    reps.sort();
    reps.dedup();
    ensure!(f.num_trees() == reps.len(), "num_trees {} for {} classes", f.num_trees(), reps.len());
    let t = f.trees();
    ensure!(t.len() == reps.len(), "trees() has {} sets for {} classes", t.len(), reps.len());
    let mut seen = vec![0; n];
    for s in &t {
        ensure!(!s.is_empty() && s.windows(2).all(|v| v[0] < v[1]), "set {s:?}");
        for &x in s {
            seen[x] += 1;
            ensure!(cl[x] == cl[s[0]], "set {s:?} mixes classes");
        }
    }
    ensure!(seen.iter().all(|&v| v == 1), "trees() is not a partition: {t:?}");
    Ok(())
}
