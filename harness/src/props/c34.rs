use crate::ctx::*;
use crate::ensure;
use imageproc::geometry::*;
use imageproc::point::Point;

type V = (i64, i64);
fn cross(o: V, a: V, b: V) -> i128 {
    (a.0 - o.0) as i128 * (b.1 - o.1) as i128 - (a.1 - o.1) as i128 * (b.0 - o.0) as i128
}
/// corners of the convex hull, counter-clockwise (in x right, y up) from the lowest and then leftmost point
fn hull(p: &[V]) -> Vec<V> {
    let mut p: Vec<V> = p.iter().map(|p| (p.1, p.0)).collect();
    p.sort();
    p.dedup();
    let p: Vec<V> = p.iter().map(|p| (p.1, p.0)).collect();
    if p.len() < 3 {
        return p;
    }
    let half = |it: &mut dyn Iterator<Item = V>| {
        let mut s: Vec<V> = vec![];
        for q in it {
            while s.len() > 1 && cross(s[s.len() - 2], s[s.len() - 1], q) <= 0 {
                s.pop();
            }
            s.push(q);
        }
        s.pop();
        s
    };
    let mut a = half(&mut p.iter().copied());
    a.extend(half(&mut p.iter().rev().copied()));
    a
}
fn cloud(r: &mut Rng) -> Vec<V> {
    // a far cluster of collinear points next to each other, seen from the start point, and a few points beside it
    if r.chance(1, 12) {
        let m = r.pick(&[1000i64, 100_000, 5_000_000, 16_000_000]);
        let (sx, sy) = (r.int(-m, 0), -m);
        let (dx, dy) = r.pick(&[(1i64, 0i64), (0, 1), (-1, 1), (1, 1)]);
        let t = r.int(m, 2 * m - 10);
        let mut v = vec![(sx, sy)];
        for _ in 0..r.us(2, 6) {
            let k = t + r.int(0, 4);
            v.push((sx + k * dx, sy + k * dy));
        }
        for _ in 0..r.us(0, 3) {
            let k = t + r.int(-9, 9);
            v.push((sx + k * dx + r.int(-9, 9), sy + k * dy + r.int(0, 9)));
        }
        for i in 0..v.len() {
            let j = r.us(i, v.len() - 1);
            v.swap(i, j);
        }
        return v;
    }
    let n = if r.chance(1, 5) { r.us(20, 60) } else { r.us(1, 12) };
    let m = r.pick(&[1i64, 2, 4, 30, 300, 3000, 100_000, 16_000_000]);
    let (cx, cy) = if r.b() { (0, 0) } else { (r.int(-m, m), r.int(-m, m)) };
    let style = r.u(0, 5);
    let (dx, dy) = (r.int(-3, 3), r.int(-3, 3));
    let m = if style >= 4 { m / 8 } else { m };
    let mut v: Vec<V> = (0..n)
        .map(|_| match style {
            0 => {
                let t = r.int(-m / 3, m / 3);
                (cx + t * dx, cy + t * dy)
            }
            1 => {
                let t = r.u(0, 359) as f64;
                (cx + (m as f64 * t.to_radians().cos()) as i64, cy + (m as f64 * t.to_radians().sin()) as i64)
            }
            2 => {
                // the border of a square
                let t = r.int(-m, m);
                let k = r.pick(&[-m, m]);
                if r.b() { (cx + t, cy + k) } else { (cx + k, cy + t) }
            }
            _ => (cx + r.int(-m, m), cy + r.int(-m, m)),
        })
        .collect();
    if r.chance(1, 3) && !v.is_empty() {
        let k = r.us(0, v.len() - 1);
        let q = v[k];
        for _ in 0..r.us(1, 25) {
            v.insert(r.us(0, v.len()), q);
        }
    }
    v
}
fn dist_line(p: (f64, f64), a: (f64, f64), b: (f64, f64)) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l = dx.hypot(dy);
    if l == 0.0 {
        return (p.0 - a.0).hypot(p.1 - a.1);
    }
    ((p.0 - a.0) * dy - (p.1 - a.1) * dx).abs() / l
}
fn hulls(c: &mut Case, v: &[V]) -> R {
    c.input(format!("convex_hull and min_area_rect of {v:?}"));
    let pts: Vec<Point<i32>> = v.iter().map(|p| Point::new(p.0 as i32, p.1 as i32)).collect();
    let want = hull(v);
    let got: Vec<V> = convex_hull(pts.clone()).iter().map(|p| (p.x as i64, p.y as i64)).collect();
    ensure!(got == want, "convex_hull gives {got:?}, expected {want:?}");
    if v.iter().all(|p| p.0.abs() < 1 << 20 && p.1.abs() < 1 << 20) {
        let res = min_area_rect(&pts);
        let q: Vec<(f64, f64)> = res.iter().map(|p| (p.x as f64, p.y as f64)).collect();
        if want.len() < 3 {
            let ends = [*want.first().unwrap(), *want.last().unwrap()];
            ensure!(res.iter().all(|p| ends.contains(&(p.x as i64, p.y as i64))) && ends.iter().all(|e| res.iter().any(|p| (p.x as i64, p.y as i64) == *e)), "min_area_rect of a segment or point gives {res:?}");
            return Ok(());
        }
        // least area over the rectangles with a side along an edge of the hull
        let mut best = f64::MAX;
        for k in 0..want.len() {
            let (a, b) = (want[k], want[(k + 1) % want.len()]);
            let (dx, dy) = ((b.0 - a.0) as f64, (b.1 - a.1) as f64);
            let l2 = dx * dx + dy * dy;
            let pr = |f: &dyn Fn(V) -> f64| want.iter().map(|p| f(*p)).fold((f64::MAX, f64::MIN), |m, t| (m.0.min(t), m.1.max(t)));
            let u = pr(&|p| (p.0 - a.0) as f64 * dx + (p.1 - a.1) as f64 * dy);
            let w = pr(&|p| (p.1 - a.1) as f64 * dx - (p.0 - a.0) as f64 * dy);
            best = best.min((u.1 - u.0) * (w.1 - w.0) / l2);
        }
        let area = (0..4).map(|k| q[k].0 * q[(k + 1) % 4].1 - q[k].1 * q[(k + 1) % 4].0).sum::<f64>() / 2.0;
        let per = (0..4).map(|k| (q[k].0 - q[(k + 1) % 4].0).hypot(q[k].1 - q[(k + 1) % 4].1)).sum::<f64>();
        ensure!(area.abs() <= best + 1.5 * per + 8.0, "min_area_rect gives {res:?} of area {}, the least area is {best}", area.abs());
        for p in v {
            let p = (p.0 as f64, p.1 as f64);
            // distance outside the rectangle
            let inside = (0..4).map(|k| {
                let (a, b) = (q[k], q[(k + 1) % 4]);
                let s = ((b.0 - a.0) * (p.1 - a.1) - (b.1 - a.1) * (p.0 - a.0)) * area.signum();
                let l = (b.0 - a.0).hypot(b.1 - a.1);
                if l < 4.0 { 0.0 } else { s / l }
            }).fold(f64::MAX, f64::min);
            ensure!(inside >= -1.5, "min_area_rect gives {res:?}: point {p:?} lies {} outside", -inside);
        }
        let s: Vec<(i32, i32)> = res.iter().map(|p| (p.x, p.y)).collect();
        ensure!(s[0].0.max(s[3].0) <= s[1].0.min(s[2].0) + 2 && s[0].1 <= s[3].1 && s[1].1 <= s[2].1, "the corners of {res:?} are not top left, top right, bottom right, bottom left");
    }
    Ok(())
}
pub fn geometry(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let v = cloud(r);
    hulls(c, &v)?;
    // lengths and areas
    let ints: Vec<Point<i32>> = v.iter().map(|p| Point::new(p.0 as i32, p.1 as i32)).collect();
    let k = r.pick(&[1.0, 0.37, 1e-3]);
    let floats: Vec<Point<f64>> = v.iter().map(|p| Point::new(p.0 as f64 * k, p.1 as f64 * k)).collect();
    let big = v.iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(0) as f64 + 1.0;
    c.input(format!("arc_length and contour_area of {v:?}, scaled by {k} as floats"));
    let seg = |a: V, b: V| ((a.0 - b.0) as f64).hypot((a.1 - b.1) as f64);
    let open: f64 = v.windows(2).map(|w| seg(w[0], w[1])).sum();
    let closed = open + if v.len() > 2 { seg(v[0], v[v.len() - 1]) } else { 0.0 };
    let tol = 1e-9 * big * v.len() as f64;
    for (cl, want) in [(false, open), (true, closed)] {
        let a = arc_length(&ints, cl);
        ensure!((a - want).abs() <= tol, "arc_length (closed: {cl}) is {a}, expected {want}");
        let a = arc_length(&floats, cl);
        ensure!((a - want * k).abs() <= tol, "arc_length (closed: {cl}) of the scaled points is {a}, expected {}", want * k);
    }
    let twice: i128 = if v.len() < 3 { 0 } else { (0..v.len()).map(|i| cross((0, 0), v[i], v[(i + 1) % v.len()])).sum() };
    let want = twice as f64 / 2.0;
    let tol = 1e-9 * big * big * v.len() as f64;
    for (name, a, w) in [
        ("oriented_contour_area", oriented_contour_area(&ints), want),
        ("contour_area", contour_area(&ints), want.abs()),
        ("oriented_contour_area of the scaled points", oriented_contour_area(&floats), want * k * k),
        ("contour_area of the scaled points", contour_area(&floats), want.abs() * k * k),
    ] {
        ensure!((a - w).abs() <= tol, "{name} is {a}, expected {w}");
    }
    // polygon simplification
    let mut v = v;
    v.truncate(14);
    if v.len() < 2 {
        return Ok(());
    }
    if r.chance(1, 3) {
        v.push(v[0]);
    }
    let eps = if r.chance(1, 8) { 1e-18 } else { r.pick(&[0.3, 1.0, 2.5, 10.0, 1e3]) * if r.b() { big / 100.0 } else { 1.0 } };
    let cl = r.chance(1, 3);
    c.input(format!("approximate_polygon_dp of {v:?} scaled by {k}, epsilon {eps}, closed {cl}"));
    let pts: Vec<Point<f64>> = v.iter().map(|p| Point::new(p.0 as f64 * k, p.1 as f64 * k)).collect();
    let mut res = approximate_polygon_dp(&pts, eps, cl);
    if cl {
        res.push(pts[pts.len() - 1]);
    }
    let f: Vec<(f64, f64)> = pts.iter().map(|p| (p.x, p.y)).collect();
    let n = f.len();
    let slack = 1e-9 * big + eps * 1e-9;
    // ok[i]: the result so far can end at curve index i
    let mut ok: Vec<bool> = (0..n).map(|i| i == 0 && res[0] == pts[0]).collect();
    for q in &res[1..] {
        let mut nx = vec![false; n];
        for i in 0..n {
            for j in i + 1..n {
                if ok[i] && pts[j] == *q && (i + 1..j).all(|t| dist_line(f[t], f[i], f[j]) <= eps + slack) {
                    nx[j] = true;
                }
            }
        }
        ok = nx;
    }
    ensure!(ok[n - 1], "approximate_polygon_dp gives {res:?}: not a subsequence from the first to the last point whose omitted points are within epsilon of their line");
    Ok(())
}
