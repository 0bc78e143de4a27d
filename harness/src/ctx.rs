//! Deterministic case generation and reporting.
use image::{GrayImage, ImageBuffer, Luma, Pixel, Rgb};
use imageproc::definitions::Image;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, i: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// inclusive
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn u(&mut self, lo: u32, hi: u32) -> u32 {
        self.int(lo as i64, hi as i64) as u32
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    pub fn i(&mut self, lo: i32, hi: i32) -> i32 {
        self.int(lo as i64, hi as i64) as i32
    }
    pub fn b(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.u(1, den) <= num
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.us(0, v.len() - 1)]
    }
    /// a byte from a randomly chosen alphabet style
    pub fn byte(&mut self, style: u32) -> u8 {
        match style {
            0 => self.pick(&[0u8, 255]),
            1 => self.pick(&[0u8, 1, 2]),
            2 => self.u(0, 255) as u8,
            3 => self.pick(&[0u8, 1, 127, 128, 254, 255]),
            4 => {
                if self.chance(1, 8) {
                    255
                } else {
                    0
                }
            }
            5 => {
                if self.chance(1, 8) {
                    0
                } else {
                    self.u(1, 3) as u8
                }
            }
            _ => self.u(100, 104) as u8,
        }
    }
    pub fn style(&mut self) -> u32 {
        self.u(0, 6)
    }
    /// size biased to small, sometimes larger
    pub fn dim(&mut self, lo: u32, hi: u32) -> u32 {
        if self.chance(1, 12) {
            self.u(lo, hi * 3)
        } else {
            self.u(lo, hi)
        }
    }
    pub fn gray(&mut self, w: u32, h: u32) -> GrayImage {
        let s = self.style();
        self.gray_style(w, h, s)
    }
    pub fn gray_style(&mut self, w: u32, h: u32, s: u32) -> GrayImage {
        let mut i = GrayImage::new(w, h);
        for p in i.iter_mut() {
            *p = self.byte(s);
        }
        i
    }
    pub fn rgb(&mut self, w: u32, h: u32) -> Image<Rgb<u8>> {
        let s = self.style();
        let mut i: Image<Rgb<u8>> = ImageBuffer::new(w, h);
        for p in i.iter_mut() {
            *p = self.byte(s);
        }
        i
    }
    pub fn img_i<T, F: FnMut(&mut Rng) -> T>(&mut self, w: u32, h: u32, mut f: F) -> Image<Luma<T>>
    where
        T: image::Primitive,
        Luma<T>: Pixel<Subpixel = T>,
    {
        let mut v = Vec::new();
        for _ in 0..(w * h) {
            v.push(f(self));
        }
        ImageBuffer::from_raw(w, h, v).unwrap()
    }
}

pub fn show<P>(i: &Image<P>) -> String
where
    P: Pixel,
    P::Subpixel: std::fmt::Debug,
{
    let n = P::CHANNEL_COUNT as usize * i.width() as usize;
    let mut s = format!("{}x{}[", i.width(), i.height());
    for (k, p) in i.iter().enumerate() {
        if k > 0 {
            s.push(if n > 0 && k % n == 0 { ';' } else { ',' });
        }
        s.push_str(&format!("{:?}", p));
    }
    s.push(']');
    s
}

pub struct Case {
    /// the input, written out
    pub d: String,
    pub trace: bool,
    /// case is trivial (not counted as non-trivial)
    pub trivial: bool,
    /// known finding hit
    pub known: Vec<String>,
}
impl Case {
    pub fn input(&mut self, d: String) {
        if self.trace {
            eprintln!("CASE {}", d);
        }
        self.d = d;
    }
    pub fn known(&mut self, k: &str) {
        self.known.push(k.to_string());
    }
}
pub type R = Result<(), String>;
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
/// compare two images of any pixel type
pub fn same<P>(what: &str, got: &Image<P>, want: &Image<P>) -> R
where
    P: Pixel + PartialEq + std::fmt::Debug,
{
    if got.dimensions() != want.dimensions() {
        return Err(format!("{what}: dimensions {:?}, expected {:?}", got.dimensions(), want.dimensions()));
    }
    for y in 0..got.height() {
        for x in 0..got.width() {
            if got.get_pixel(x, y) != want.get_pixel(x, y) {
                return Err(format!("{what}: pixel ({x},{y}) is {:?}, expected {:?}", got.get_pixel(x, y), want.get_pixel(x, y)));
            }
        }
    }
    Ok(())
}
