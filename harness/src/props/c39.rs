//! Projections against exact 3x3 matrices in f64.
use crate::ctx::*;
use crate::ensure;
use imageproc::geometric_transformations::Projection;

type M = [f64; 9];
fn mul(a: &M, b: &M) -> M {
    let mut r = [0.0; 9];
    for i in 0..3 {
        for j in 0..3 {
            r[3 * i + j] = (0..3).map(|k| a[3 * i + k] * b[3 * k + j]).sum();
        }
    }
    r
}
fn det(a: &M) -> f64 {
    a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6])
}
fn img(a: &M, p: (f64, f64)) -> Option<(f64, f64)> {
    let w = a[6] * p.0 + a[7] * p.1 + a[8];
    if w.abs() < 0.05 {
        return None;
    }
    Some(((a[0] * p.0 + a[1] * p.1 + a[2]) / w, (a[3] * p.0 + a[4] * p.1 + a[5]) / w))
}
fn close(a: (f32, f32), b: (f64, f64)) -> bool {
    let t = 2e-3 * (1.0 + b.0.abs() + b.1.abs());
    ((a.0 as f64) - b.0).abs() <= t && ((a.1 as f64) - b.1).abs() <= t
}

fn one(r: &mut Rng) -> Option<(Projection, M, String)> {
    match r.u(0, 6) {
        0 => {
            let (x, y) = (r.i(-40, 40) as f32 / 4.0, r.i(-40, 40) as f32 / 4.0);
            Some((Projection::translate(x, y), [1.0, 0.0, x as f64, 0.0, 1.0, y as f64, 0.0, 0.0, 1.0], format!("translate({x}, {y})")))
        }
        1 => {
            let t = r.i(-70, 70) as f32 / 10.0;
            let (s, c) = (t as f64).sin_cos();
            Some((Projection::rotate(t), [c, -s, 0.0, s, c, 0.0, 0.0, 0.0, 1.0], format!("rotate({t})")))
        }
        2 => {
            let f = |r: &mut Rng| r.pick(&[0.25f32, 0.5, 1.0, 2.0, 3.0, -1.0, -0.5]);
            let (x, y) = (f(r), f(r));
            Some((Projection::scale(x, y), [x as f64, 0.0, 0.0, 0.0, y as f64, 0.0, 0.0, 0.0, 1.0], format!("scale({x}, {y})")))
        }
        k => {
            let mut m = [0f32; 9];
            for v in m.iter_mut() {
                *v = r.i(-3, 3) as f32;
            }
            if k == 3 {
                m[6] = 0.0;
                m[7] = 0.0;
                m[8] = r.pick(&[1.0f32, 1.0, 2.0, -1.0]);
            }
            if k == 4 {
                m[6] = r.i(-2, 2) as f32 / 8.0;
                m[7] = r.i(-2, 2) as f32 / 8.0;
                m[8] = 1.0;
            }
            let md = m.map(|v| v as f64);
            Projection::from_matrix(m).map(|p| (p, md, format!("from_matrix({m:?})")))
        }
    }
}

pub fn projections(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    // which matrices are accepted
    let mut m = [0f32; 9];
    for v in m.iter_mut() {
        *v = r.i(-2, 2) as f32;
    }
    c.input(format!("Projection::from_matrix({m:?})"));
    let d = det(&m.map(|v| v as f64));
    ensure!(Projection::from_matrix(m).is_some() == (d != 0.0), "from_matrix is {:?} although the determinant is {d}", Projection::from_matrix(m).map(|_| ()));
    let (Some((p, pm, ps)), Some((q, qm, qs))) = (one(r), one(r)) else { return Ok(()) };
    let pt = (r.i(-20, 20) as f32 / 4.0, r.i(-20, 20) as f32 / 4.0);
    let ptd = (pt.0 as f64, pt.1 as f64);
    c.input(format!("P = {ps}, Q = {qs}, point {pt:?}"));
    let Some(ip) = img(&pm, ptd) else { return Ok(()) };
    ensure!(close(p * pt, ip), "P * point is {:?}, expected {ip:?}", p * pt);
    ensure!(close(&p * &pt, ip), "&P * &point is {:?}, expected {ip:?}", &p * &pt);
    let big = |v: (f64, f64)| v.0.abs() > 1e3 || v.1.abs() > 1e3;
    if big(ip) {
        return Ok(());
    }
    // undo: well conditioned while the point's own denominator under the inverse is not tiny
    let back = p.invert() * (p * pt);
    let near_sing = (det(&pm) / (pm.iter().fold(0.0f64, |a, v| a.max(v.abs()))).powi(3)).abs() < 0.01;
    let near_line = (pm[6] * ptd.0 + pm[7] * ptd.1 + pm[8]).abs() < 0.2;
    if !near_sing && !near_line {
        let t = 2e-2 * (1.0 + ptd.0.abs() + ptd.1.abs());
        ensure!((back.0 as f64 - ptd.0).abs() <= t && (back.1 as f64 - ptd.1).abs() <= t, "P.invert() * (P * point) is {back:?}");
        let twice = p.invert().invert() * pt;
        ensure!(close(twice, ip), "P.invert().invert() * point is {twice:?}, expected {ip:?}");
    }
    // composition: first Q, then P
    let Some(iq) = img(&qm, ptd) else { return Ok(()) };
    let Some(ipq) = img(&mul(&pm, &qm), ptd) else { return Ok(()) };
    if img(&pm, iq).is_none() || big(iq) || big(ipq) {
        return Ok(());
    }
    ensure!(close(p * q * pt, ipq), "(P * Q) * point is {:?}, expected {ipq:?}", p * q * pt);
    ensure!(close(&p * &q * pt, ipq), "(&P * &Q) * point is {:?}, expected {ipq:?}", &p * &q * pt);
    ensure!(close(q.and_then(p) * pt, ipq), "Q.and_then(P) * point is {:?}, expected {ipq:?}", q.and_then(p) * pt);
    // four control points
    let quad = |r: &mut Rng| loop {
        let (x, y) = (r.i(-20, 20) as f32, r.i(-20, 20) as f32);
        let s = r.i(6, 20) as f32;
        let mut j = || r.i(-2, 2) as f32;
        let q = [(x + j(), y + j()), (x + s + j(), y + j()), (x + s + j(), y + s + j()), (x + j(), y + s + j())];
        // strictly convex: no three of the points are close to a line
        let turn = |a: (f32, f32), b: (f32, f32), c: (f32, f32)| (b.0 - a.0) * (c.1 - b.1) - (b.1 - a.1) * (c.0 - b.0);
        if (0..4).all(|k| turn(q[k], q[(k + 1) % 4], q[(k + 2) % 4]) >= 15.0) {
            break q;
        }
    };
    let (from, to) = (quad(r), quad(r));
    c.input(format!("Projection::from_control_points({from:?}, {to:?})"));
    let Some(f) = Projection::from_control_points(from, to) else { return Err("from_control_points is None for a quadrilateral in general position".into()) };
    for k in 0..4 {
        let z = f * from[k];
        ensure!((z.0 - to[k].0).abs() < 0.05 && (z.1 - to[k].1).abs() < 0.05, "control point {k} is mapped to {z:?}");
    }
    Ok(())
}
