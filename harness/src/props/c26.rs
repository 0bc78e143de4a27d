use crate::ctx::*;
use crate::ensure;
use image::{GrayImage, Luma};
use imageproc::binary_descriptors::brief::*;
use imageproc::binary_descriptors::*;
use imageproc::corners::Corner;
use imageproc::definitions::Image;
use imageproc::image_hash::{phash, PHash};
use imageproc::point::Point;

fn desc(r: &mut Rng, n: usize, style: u32) -> BriefDescriptor {
    let mut w = || -> u128 {
        match style {
            0 => (r.next() as u128) << 64 | r.next() as u128,
            1 => 1u128 << r.u(0, 127),
            2 => r.pick(&[0u128, 1, u128::MAX, 1 << 127]),
            _ => 0x55555555_55555555_55555555_55555555u128 << r.u(0, 1),
        }
    };
    let bits = (0..n).map(|_| w()).collect();
    BriefDescriptor { bits, corner: Corner::new(r.u(0, 99), r.u(0, 99), 0.0) }
}
fn bit(d: &BriefDescriptor, k: usize) -> bool {
    (d.bits[k / 128] >> (k % 128)) & 1 == 1
}
fn ham(a: &BriefDescriptor, b: &BriefDescriptor) -> u32 {
    (0..a.bits.len() * 128).filter(|&k| bit(a, k) != bit(b, k)).count() as u32
}
/// the hash with exactly these bits, or its bits (the public type is a newtype over one word)
fn mk(v: u64) -> Option<PHash> {
    if std::mem::size_of::<PHash>() != 8 { return None; }
    Some(unsafe { std::ptr::read(&v as *const u64 as *const PHash) })
}
fn raw(p: &PHash) -> Option<u64> {
    if std::mem::size_of::<PHash>() != 8 { return None; }
    Some(unsafe { std::ptr::read(p as *const PHash as *const u64) })
}
fn window_mean(im: &GrayImage, x: i64, y: i64, rad: i64) -> u8 {
    let (mut s, mut n) = (0u64, 0u64);
    for b in (y - rad).max(0)..(y + rad + 1).min(im.height() as i64) {
        for a in (x - rad).max(0)..(x + rad + 1).min(im.width() as i64) {
            s += im.get_pixel(a as u32, b as u32)[0] as u64;
            n += 1;
        }
    }
    if n == 0 { 0 } else { (s / n) as u8 }
}
fn brief_case(r: &mut Rng, c: &mut Case) -> R {
    let (w, h) = (r.u(31, 44), r.u(31, 44));
    let im = r.gray(w, h);
    let chunks = r.us(1, 2);
    let n = if r.chance(1, 6) { r.us(1, 300) } else { chunks * 128 };
    let npairs = if r.chance(1, 8) { r.us(1, 300) } else { n };
    let pairs: Vec<TestPair> = (0..npairs).map(|_| TestPair { p0: Point::new(r.u(0, 30), r.u(0, 30)), p1: Point::new(r.u(0, 30), r.u(0, 30)) }).collect();
    let coord = |r: &mut Rng, m: u32| match r.u(0, 11) { 0 => r.u(0, m + 3), 1 => u32::MAX - r.u(0, 20), 2 => 16, 3 => m - 15, _ => if m > 32 { r.u(16, m - 15) } else { r.u(15, 16) } };
    let keys: Vec<Point<u32>> = (0..r.us(0, 3)).map(|_| Point::new(coord(r, w), coord(r, h))).collect();
    c.input(format!("brief length {n} with {npairs} pairs {:?} keypoints {:?} on {}", &pairs[..npairs.min(4)], keys, show(&im)));
    let ok = n % 128 == 0 && n == npairs && keys.iter().all(|k| 15 < k.x && k.x as u64 + 15 <= w as u64 && 15 < k.y && k.y as u64 + 15 <= h as u64);
    match brief(&im, &keys, n, Some(&pairs)) {
        Err(m) => ensure!(!ok, "valid input rejected: {m}"),
        Ok((ds, tp)) => {
            ensure!(ok, "invalid input accepted");
            ensure!(tp == pairs && ds.len() == keys.len(), "wrong number of descriptors or other test pairs");
            for (k, d) in keys.iter().zip(&ds) {
                ensure!(d.position() == *k && d.get_size() as usize == n, "position {:?} size {}", d.position(), d.get_size());
                for (j, p) in pairs.iter().enumerate() {
                    let m = |q: Point<u32>| window_mean(&im, k.x as i64 - 15 + q.x as i64 + 1, k.y as i64 - 15 + q.y as i64 + 1, 2);
                    let e = m(p.p0) < m(p.p1);
                    let g = (d.bits[j / 128] >> (127 - j % 128)) & 1 == 1;
                    ensure!(g == e, "test {j} of keypoint {:?} is recorded as {g}, it is {e}", k);
                }
            }
        }
    }
    Ok(())
}
fn hash_case(r: &mut Rng, c: &mut Case) -> R {
    let mut im: Image<Luma<f32>> = Image::new(32, 32);
    let s = r.next();
    let smooth = r.b();
    for (k, p) in im.pixels_mut().enumerate() {
        let mut q = Rng::new(s, if smooth { k as u64 / 5 } else { k as u64 });
        p[0] = q.int(0, 1000) as f32 / 1000.0;
    }
    c.input(format!("phash of the 32x32 image with seed {s} smooth {smooth}"));
    let g = match raw(&phash(&im)) { Some(g) => g, None => return Ok(()) };
    let mut t = [[0f64; 32]; 8];
    let co = |k: usize, n: usize| (std::f64::consts::PI * k as f64 * (n as f64 + 0.5) / 32.0).cos();
    for u in 0..8 {
        for y in 0..32 {
            t[u][y] = (0..32).map(|x| im.get_pixel(x as u32, y as u32)[0] as f64 * co(u + 1, x)).sum();
        }
    }
    let mut d = vec![];
    for v in 0..8 {
        for u in 0..8 {
            d.push((0..32).map(|y| t[u][y] * co(v + 1, y)).sum::<f64>());
        }
    }
    let mean = d.iter().sum::<f64>() / 64.0;
    for (k, v) in d.iter().enumerate() {
        if (v - mean).abs() > 1e-2 {
            ensure!(((g >> k) & 1 == 1) == (*v > mean), "bit {k} of the hash is {}, coefficient {v} mean {mean}", (g >> k) & 1);
        }
    }
    Ok(())
}
pub fn one(r: &mut Rng, i: u64, c: &mut Case) -> R {
    if i % 200 == 0 {
        return hash_case(r, c);
    }
    if i % 40 == 1 {
        return brief_case(r, c);
    }
    match i % 4 {
        0 => {
            let mut v = || match r.u(0, 3) { 0 => 0, 1 => u64::MAX, 2 => 1u64 << r.u(0, 63), _ => r.next() };
            let (a, b, d) = (v(), v(), v());
            c.input(format!("hashes {a:#x} {b:#x} {d:#x}"));
            if let (Some(x), Some(y), Some(z)) = (mk(a), mk(b), mk(d)) {
                let n = (0..64).filter(|k| (a >> k) & 1 != (b >> k) & 1).count() as u32;
                ensure!(x.hamming_distance(y) == n, "distance {} expected {n}", x.hamming_distance(y));
                ensure!((x == y) == (n == 0), "equality");
                ensure!(x.hamming_distance(z) <= n + y.hamming_distance(z), "triangle inequality");
            }
        }
        1 => {
            let (n, s) = (if r.chance(1, 5) { r.us(5, 40) } else { r.us(0, 4) }, r.u(0, 3));
            let (a, b) = (desc(r, n, s), desc(r, n, s));
            c.input(format!("descriptors {:x?} {:x?}", a.bits, b.bits));
            ensure!(a.hamming_distance(&b) == ham(&a, &b), "hamming_distance {} expected {}", a.hamming_distance(&b), ham(&a, &b));
            ensure!(a.get_size() as usize == 128 * n, "get_size {}", a.get_size());
        }
        2 => {
            let (n, s) = (if r.chance(1, 5) { r.us(5, 40) } else { r.us(1, 4) }, r.u(0, 3));
            let d = desc(r, n, s);
            let m = r.pick(&[0, 1, 2, 5, 64, 127, 128]);
            let idx: Vec<u32> = (0..m).map(|_| r.u(0, n as u32 * 128 - 1)).collect();
            c.input(format!("get_bit_subset {:?} of {:x?}", idx, d.bits));
            let mut e = 0u128;
            for &k in &idx {
                e = (e << 1) | bit(&d, k as usize) as u128;
            }
            let g = d.get_bit_subset(&idx);
            ensure!(g == e, "got {g:#x}, expected {e:#x}");
        }
        _ => {
            let n = r.us(1, 2);
            let base = desc(r, n, 0);
            let mut make = |r: &mut Rng, k: usize| -> Vec<BriefDescriptor> {
                (0..k).map(|j| {
                    let mut d = base.clone();
                    for _ in 0..r.us(0, 30) {
                        let b = r.us(0, n * 128 - 1);
                        d.bits[b / 128] ^= 1 << (b % 128);
                    }
                    d.corner = Corner::new(j as u32, k as u32, 0.0);
                    d
                }).collect()
            };
            let (k1, k2) = (r.us(0, 9), r.us(0, 9));
            let (d1, d2) = (make(r, k1), make(r, k2));
            let th = r.u(0, 40);
            let seed = r.next();
            c.input(format!("match threshold {th} seed {seed} {:x?} with {:x?}", d1.iter().map(|d| &d.bits).collect::<Vec<_>>(), d2.iter().map(|d| &d.bits).collect::<Vec<_>>()));
            for (a, b) in match_binary_descriptors(&d1, &d2, th, Some(seed)) {
                ensure!(d1.iter().any(|d| std::ptr::eq(d, a)) && d2.iter().any(|d| std::ptr::eq(d, b)), "a pair is not (first input, second input)");
                ensure!(ham(a, b) < th, "distance {} of a returned pair is not below {th}", ham(a, b));
            }
        }
    }
    Ok(())
}
