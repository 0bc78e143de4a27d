@@ include prelude.rs
@@ text
/// drawing::Canvas: draw_pixel replaces one pixel by `put(old, colour)`; coordinates outside may panic, so they are a precondition.
pub trait Canvas: Sized { type Pixel: Pixel;
  spec fn cw(&self) -> u32; spec fn chh(&self) -> u32; spec fn cpx(&self, x: int, y: int) -> Self::Pixel;
  spec fn put(old: Self::Pixel, c: Self::Pixel) -> Self::Pixel;
  fn dimensions(&self) -> (r: (u32, u32)) ensures r.0 == self.cw(), r.1 == self.chh();
  fn width(&self) -> (r: u32) ensures r == self.cw();
  fn height(&self) -> (r: u32) ensures r == self.chh();
  fn draw_pixel(&mut self, x: u32, y: u32, color: Self::Pixel)
    requires x < old(self).cw(), y < old(self).chh()
    ensures final(self).cw() == old(self).cw(), final(self).chh() == old(self).chh(),
      forall|i: int, j: int| #[trigger] final(self).cpx(i, j) == if i == x && j == y { Self::put(old(self).cpx(i, j), color) } else { old(self).cpx(i, j) };
}
pub open spec fn on<C: Canvas>(c: &C, x: int, y: int) -> bool { 0 <= x < c.cw() && 0 <= y < c.chh() }
/// exactly the canvas pixels of the shape are drawn (once), everything else is unchanged
pub open spec fn painted<C: Canvas>(a: &C, b: &C, shape: spec_fn(int, int) -> bool, color: C::Pixel) -> bool {
  b.cw() == a.cw() && b.chh() == a.chh() && forall|x: int, y: int| on(a, x, y) ==> #[trigger] b.cpx(x, y) == (if shape(x, y) { C::put(a.cpx(x, y), color) } else { a.cpx(x, y) })
}
/// drawing simply overwrites (true of images)
pub open spec fn opaque<C: Canvas>() -> bool { forall|a: C::Pixel, c: C::Pixel| #[trigger] C::put(a, c) == c }
pub open spec fn plus(x: int, y: int) -> spec_fn(int, int) -> bool { |i: int, j: int| (i == x && y - 1 <= j <= y + 1) || (j == y && x - 1 <= i <= x + 1) }
pub open spec fn stencil_of(dx: int, dy: int) -> bool { (dx == 0 && -1 <= dy <= 1) || (dy == 0 && -1 <= dx <= 1) }
impl<P: Pixel> Canvas for Image<P> { type Pixel = P;
  open spec fn cw(&self) -> u32 { self.w() }
  open spec fn chh(&self) -> u32 { self.h() }
  open spec fn cpx(&self, x: int, y: int) -> P { self.px(x, y) }
  open spec fn put(old: P, c: P) -> P { c }
  #[verifier::external_body] fn dimensions(&self) -> (r: (u32, u32)) { unimplemented!() }
  #[verifier::external_body] fn width(&self) -> (r: u32) { unimplemented!() }
  #[verifier::external_body] fn height(&self) -> (r: u32) { unimplemented!() }
  fn draw_pixel(&mut self, x: u32, y: u32, color: P) { self.put_pixel(x, y, color) }
}
impl<P: Pixel> Image<P> {
  /// GenericImage::copy_from(image, 0, 0) into an image of the same size
  #[verifier::external_body]
  pub fn copy_from(&mut self, o: &Image<P>, x: u32, y: u32) -> (r: Result<(), ()>) 
    requires x == 0, y == 0, old(self).w() == o.w(), old(self).h() == o.h()
    ensures r.is_ok(), final(self).w() == o.w(), final(self).h() == o.h(), forall|i: int, j: int| #[trigger] final(self).px(i, j) == o.px(i, j) { unimplemented!() }
}
