use crate::ctx::*;
use crate::ensure;
use imageproc::rect::{Rect, Region};

fn coord(r: &mut Rng) -> i32 {
    match r.u(0, 9) {
        0 => i32::MIN + r.i(0, 3),
        1 => i32::MAX - r.i(0, 6),
        2 => r.next() as i32,
        _ => r.i(-6, 6),
    }
}
fn rect(r: &mut Rng) -> Rect {
    let (x, y) = (coord(r), coord(r));
    let side = |r: &mut Rng, a: i32| -> u32 {
        let room = i32::MAX as i64 - a as i64 + 1; // width <= room keeps the far edge representable
        let w = match r.u(0, 9) {
            0 => room,
            1 => room - r.int(0, 5),
            2 => (r.next() % (1 << 32)) as i64,
            _ => r.int(1, 8),
        };
        w.clamp(1, room.min(u32::MAX as i64)) as u32
    };
    let w = side(r, x);
    let h = side(r, y);
    Rect::at(x, y).of_size(w, h)
}
fn edges(a: &Rect) -> (i64, i64, i64, i64) {
    (a.left() as i64, a.top() as i64, a.left() as i64 + a.width() as i64 - 1, a.top() as i64 + a.height() as i64 - 1)
}
fn has(a: &Rect, x: i64, y: i64) -> bool {
    let (l, t, r, b) = edges(a);
    l <= x && x <= r && t <= y && y <= b
}
pub fn one(r: &mut Rng, _i: u64, c: &mut Case) -> R {
    let (a, b) = (rect(r), rect(r));
    c.input(format!("{a:?} {b:?}"));
    for q in [&a, &b] {
        let (l, t, rr, bb) = edges(q);
        ensure!((q.left() as i64, q.top() as i64, q.right() as i64, q.bottom() as i64) == (l, t, rr, bb), "edges of {q:?} are {} {} {} {}", q.left(), q.top(), q.right(), q.bottom());
    }
    let k = a.intersect(b);
    let mut xs: Vec<i32> = vec![];
    let mut ys: Vec<i32> = vec![];
    for q in [&a, &b] {
        let (l, t, rr, bb) = edges(q);
        for d in -1..=1 {
            for v in [l + d, rr + d] {
                if let Ok(v) = i32::try_from(v) {
                    xs.push(v)
                }
            }
            for v in [t + d, bb + d] {
                if let Ok(v) = i32::try_from(v) {
                    ys.push(v)
                }
            }
        }
    }
    for &x in &xs {
        for &y in &ys {
            let (ia, ib) = (has(&a, x as i64, y as i64), has(&b, x as i64, y as i64));
            ensure!(a.contains(x, y) == ia, "{a:?} contains ({x},{y}) = {}", a.contains(x, y));
            let ik = match &k {
                Some(k) => k.contains(x, y),
                None => false,
            };
            ensure!(ik == (ia && ib), "({x},{y}): in a {ia}, in b {ib}, in intersection {k:?} {ik}");
        }
    }
    let disjoint = a.left() as i64 > edges(&b).2 || b.left() as i64 > edges(&a).2 || a.top() as i64 > edges(&b).3 || b.top() as i64 > edges(&a).3;
    ensure!(k.is_none() == disjoint, "intersection {k:?}, disjoint {disjoint}");
    if let Some(k) = k {
        let e = (edges(&a).0.max(edges(&b).0), edges(&a).1.max(edges(&b).1), edges(&a).2.min(edges(&b).2), edges(&a).3.min(edges(&b).3));
        ensure!(edges(&k) == e, "intersection {k:?}, expected edges {e:?}");
    }
    Ok(())
}
