@@ include prelude.rs
@@ text
use vstd::float::*;
pub broadcast axiom fn ax_f_any_div(a: f32, b: f32) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_f_any_add(a: f32, b: f32) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_f_any_sub(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_f_any_mul(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
pub broadcast group fany { ax_f_any_div, ax_f_any_add, ax_f_any_sub, ax_f_any_mul }
pub assume_specification[ f32::sqrt ](x: f32) -> (r: f32);
pub assume_specification[ f32::floor ](x: f32) -> (r: f32);
pub assume_specification[ f32::atan2 ](x: f32, y: f32) -> (r: f32);
pub assume_specification[ usize::pow ](x: usize, n: u32) -> (r: usize) requires n == 2, x * x <= usize::MAX ensures r == x * x;
pub assume_specification[ f32::powi ](x: f32, n: i32) -> (r: f32);
#[verifier::external_body]
pub fn pi() -> (r: f32) { core::f32::consts::PI }

/// the two Sobel gradient images: assumed to have the size of the input (filter_clamped, C08)
#[verifier::external_body]
pub fn sobel(image: &GrayImage) -> (r: Image<Luma<i32>>) ensures r.w() == image.w(), r.h() == image.h() { unimplemented!() }
#[verifier::external_body]
pub fn l2_norm(xs: &[f32]) -> (r: f32) { unimplemented!() }
pub trait Zero: Sized { fn zero() -> (r: Self); }
impl Zero for f32 { fn zero() -> (r: Self) { 0f32 } }
/// num_traits::clamp-free slice copy: `clone_from_slice` panics unless the lengths agree
pub assume_specification<T: Clone>[ <[T]>::clone_from_slice ](d: &mut [T], s: &[T])
  requires s@.len() == old(d)@.len() ensures final(d)@.len() == s@.len();

/// `x as usize`
pub uninterp spec fn trunc(x: f32) -> usize;
#[verifier::external_body]
pub fn f2u(x: f32) -> (r: usize) ensures r == trunc(x) { x as usize }
#[verifier::external_body]
pub fn u2f(x: usize) -> (r: f32) ensures x >= 1 ==> ge1(r) { x as f32 }
/// IEEE facts: a u32 converts to a float in [0, 2^32]; dividing by a float >= 1 keeps it there; truncating it stays within
pub uninterp spec fn ge1(x: f32) -> bool;
pub uninterp spec fn to32(x: f32) -> bool;
pub broadcast axiom fn ax_32(v: u32, o: f32) requires #[trigger] float_cast_spec(v, o) ensures to32(o);
pub broadcast axiom fn ax_32_div(a: f32, b: f32, o: f32) requires #[trigger] vstd::std_specs::ops::div_ensures::<f32>(a, b, o), to32(a), ge1(b) ensures to32(o);
pub broadcast axiom fn ax_32_trunc(x: f32) requires to32(x) ensures #[trigger] trunc(x) <= 0x1_0000_0000;
pub broadcast group f32s { ax_32, ax_32_div, ax_32_trunc }
// ---- index algebra
pub open spec fn vol(l: [usize; 3]) -> int { l@[0] * l@[1] * l@[2] }
pub open spec fn dims_ok(l: [usize; 3]) -> bool { vol(l) <= usize::MAX && l@[1] * l@[2] <= usize::MAX && l@[0] * l@[1] <= usize::MAX }
pub open spec fn off(l: [usize; 3], i0: int, i1: int, i2: int) -> int { i2 * l@[1] * l@[0] + i1 * l@[0] + i0 }
pub proof fn lem_off(l: [usize; 3], i0: int, i1: int, i2: int)
  requires 0 <= i0 <= l@[0], 0 <= i1 < l@[1], 0 <= i2 < l@[2]
  ensures 0 <= off(l, i0, i1, i2) <= vol(l), off(l, 0, i1, i2) + l@[0] <= vol(l), off(l, i0, i1, i2) == off(l, 0, i1, i2) + i0,
    0 <= i2 * l@[1] <= l@[1] * l@[2], 0 <= i1 * l@[0], 0 <= i2 * l@[1] * l@[0], i0 < l@[0] ==> off(l, i0, i1, i2) < vol(l),
    off(l, i0, i1, i2) == (i2 * l@[1] + i1) * l@[0] + i0
{
    let a = l@[0] as int; let b = l@[1] as int; let c = l@[2] as int;
    assert(i2 * b + i1 < b * c && 0 <= i2 * b <= b * c) by (nonlinear_arith) requires 0 <= i1 < b, 0 <= i2 < c;
    assert(i2 * b * a + i1 * a == (i2 * b + i1) * a) by (nonlinear_arith);
    let k = i2 * b + i1; let n = b * c;
    assert(0 <= k * a && k * a + a <= n * a) by (nonlinear_arith) requires 0 <= k < n, a >= 0;
    assert(n * a == a * b * c) by (nonlinear_arith) requires n == b * c;
    assert(0 <= i1 * a && 0 <= i2 * b * a) by (nonlinear_arith) requires 0 <= i1, 0 <= i2, a >= 0, b >= 0;
}
/// the flat index is injective on in-range triples ...
pub proof fn thm_injective(l: [usize; 3], i0: int, i1: int, i2: int, j0: int, j1: int, j2: int)
  requires 0 <= i0 < l@[0], 0 <= i1 < l@[1], 0 <= i2 < l@[2], 0 <= j0 < l@[0], 0 <= j1 < l@[1], 0 <= j2 < l@[2],
    off(l, i0, i1, i2) == off(l, j0, j1, j2)
  ensures i0 == j0, i1 == j1, i2 == j2
{
    lem_off(l, i0, i1, i2); lem_off(l, j0, j1, j2);
    let a = l@[0] as int; let b = l@[1] as int;
    lemma_fundamental_div_mod_converse(off(l, i0, i1, i2), a, i2 * b + i1, i0);
    lemma_fundamental_div_mod_converse(off(l, j0, j1, j2), a, j2 * b + j1, j0);
    lemma_fundamental_div_mod_converse(i2 * b + i1, b, i2, i1);
    lemma_fundamental_div_mod_converse(j2 * b + j1, b, j2, j1);
}
/// ... and onto the storage positions
pub proof fn thm_surjective(l: [usize; 3], p: int) -> (t: (int, int, int))
  requires 0 <= p < vol(l)
  ensures 0 <= t.0 < l@[0], 0 <= t.1 < l@[1], 0 <= t.2 < l@[2], off(l, t.0, t.1, t.2) == p
{
    let a = l@[0] as int; let b = l@[1] as int; let c = l@[2] as int;
    assert(a > 0 && b > 0) by (nonlinear_arith) requires a * b * c > 0, a >= 0, b >= 0, c >= 0;
    let q = p / a; let i0 = p % a;
    lemma_fundamental_div_mod(p, a);
    lemma_mod_bound(p, a);
    let i1 = q % b; let i2 = q / b;
    lemma_fundamental_div_mod(q, b);
    lemma_mod_bound(q, b);
    assert(q < b * c) by (nonlinear_arith) requires p == a * q + i0, 0 <= i0, p < a * b * c, a > 0;
    assert(q >= 0) by (nonlinear_arith) requires p == a * q + i0, i0 < a, p >= 0, a > 0;
    assert(i2 < c) by (nonlinear_arith) requires q == b * i2 + i1, 0 <= i1, q < b * c, b > 0;
    assert(i2 >= 0) by (nonlinear_arith) requires q == b * i2 + i1, i1 < b, q >= 0, b > 0;
    assert(i2 * b * a + i1 * a + i0 == p) by (nonlinear_arith) requires p == a * q + i0, q == b * i2 + i1;
    (i0, i1, i2)
}

// ---- option validity
/// these options suit an image of this size
pub open spec fn fits(w: int, h: int, o: HogOptions) -> bool {
    &&& o.orientations > 0 && o.cell_side > 0 && o.block_stride > 0
    &&& w % (o.cell_side as int) == 0 && h % (o.cell_side as int) == 0
    &&& covers(w / (o.cell_side as int), o) && covers(h / (o.cell_side as int), o)
}
pub open spec fn covers(cells: int, o: HogOptions) -> bool { o.block_side <= cells && (cells - o.block_side) % (o.block_stride as int) == 0 }
/// the blocks cover the cells exactly: the last block ends with the last cell
pub open spec fn tiles(cells: int, blocks: int, o: HogOptions) -> bool { blocks >= 1 && (blocks - 1) * o.block_stride + o.block_side == cells }
pub open spec fn blen(o: HogOptions) -> int { o.orientations * (o.block_side * o.block_side) }
impl HogSpec {
    #[verifier::external_body]
    pub fn invalid_options_message(errors: &[String]) -> String { unimplemented!() }
    pub open spec fn wf(&self) -> bool {
        &&& self.options.orientations > 0 && self.options.cell_side > 0 && self.options.block_stride > 0
        &&& tiles(self.cells_wide as int, self.blocks_wide as int, self.options) && tiles(self.cells_high as int, self.blocks_high as int, self.options)
    }
    /// the sizes involved fit the address space
    pub open spec fn small(&self) -> bool {
        &&& self.options.block_side * self.options.block_side <= usize::MAX
        &&& blen(self.options) <= usize::MAX
        &&& self.blocks_wide * self.blocks_high <= usize::MAX
        &&& self.blocks_wide * self.blocks_high * blen(self.options) <= usize::MAX
        &&& blen(self.options) * self.blocks_wide <= usize::MAX
        &&& self.options.orientations * self.cells_wide <= usize::MAX
        &&& self.cells_wide * self.cells_high <= usize::MAX
        &&& self.options.orientations * self.cells_wide * self.cells_high <= usize::MAX
        &&& self.options.cell_side * self.options.cell_side <= usize::MAX
    }
}
pub open spec fn spec_of(w: int, h: int, o: HogOptions) -> HogSpec {
    let cw = w / (o.cell_side as int); let ch = h / (o.cell_side as int);
    HogSpec { options: o, cells_wide: cw as usize, cells_high: ch as usize,
        blocks_wide: ((cw - o.block_side) / (o.block_stride as int) + 1) as usize, blocks_high: ((ch - o.block_side) / (o.block_stride as int) + 1) as usize }
}
pub proof fn lem_tiles(cells: int, o: HogOptions)
  requires covers(cells, o), o.block_stride > 0, 0 <= cells <= usize::MAX
  ensures tiles(cells, (cells - o.block_side) / (o.block_stride as int) + 1, o), (cells - o.block_side) / (o.block_stride as int) <= cells,
     0 <= (cells - o.block_side) / (o.block_stride as int)
{
    let d = cells - o.block_side; let s = o.block_stride as int;
    lemma_fundamental_div_mod(d, s);
    let q = d / s;
    assert(q * s == s * q) by (nonlinear_arith);
    assert(q >= 0) by (nonlinear_arith) requires s * q == d, d >= 0, s > 0;
    assert(q <= d) by (nonlinear_arith) requires s * q == d, s >= 1, q >= 0;
}
pub proof fn lem_exact(w: int, c: int) requires w >= 0, c > 0 ensures w % c == 0 ==> (w / c) * c == w
{ lemma_fundamental_div_mod(w, c); assert(c * (w / c) == (w / c) * c) by (nonlinear_arith); }
pub proof fn lem_div_le(a: int, b: int) requires a >= 0, b > 0 ensures 0 <= a / b <= a {
    lemma_fundamental_div_mod(a, b); lemma_mod_bound(a, b);
    let q = a / b;
    assert(q >= 0) by (nonlinear_arith) requires b * q + a % b == a, a >= 0, a % b < b, b > 0;
    assert(q <= a) by (nonlinear_arith) requires b * q + a % b == a, a % b >= 0, b >= 1, q >= 0;
}
/// the descriptor's own length formula
pub proof fn thm_length(s: HogSpec)
  ensures s.blocks_wide * s.blocks_high * blen(s.options) == blen(s.options) * s.blocks_wide * s.blocks_high
{
    let a = s.blocks_wide as int; let b = s.blocks_high as int; let c = blen(s.options);
    assert(a * b * c == c * a * b) by (nonlinear_arith);
}

@@ struct hog.rs HogOptions
@ opts
#[derive(Copy, Clone)]
@@ struct hog.rs HogSpec
@ opts
#[derive(Copy, Clone)]
@@ struct hog.rs Interpolation
@ opts
#[derive(Copy, Clone)]
@@ struct hog.rs Array3d
@@ struct hog.rs View3d

@@ fn hog.rs HogSpec::from_options
@ spec
    ensures r is Ok <==> fits(width as int, height as int, options),
      r is Ok ==> r->Ok_0 == spec_of(width as int, height as int, options) && r->Ok_0.wf()
        && r->Ok_0.cells_wide * options.cell_side == width && r->Ok_0.cells_high * options.cell_side == height
@@ fn hog.rs HogSpec::checked_cell_dimensions
@ spec
    ensures r is Ok <==> (options.orientations > 0 && options.cell_side > 0 && options.block_stride > 0
        && width as int % (options.cell_side as int) == 0 && height as int % (options.cell_side as int) == 0),
      r is Ok ==> r->Ok_0.0 == width as int / (options.cell_side as int) && r->Ok_0.1 == height as int / (options.cell_side as int)
        && r->Ok_0.0 * options.cell_side == width && r->Ok_0.1 * options.cell_side == height
@ begin
    proof { if options.cell_side > 0 { lem_exact(width as int, options.cell_side as int); lem_exact(height as int, options.cell_side as int); } }
@@ fn hog.rs HogSpec::checked_block_dimensions
@ spec
    requires options.block_stride > 0, cells_wide <= u32::MAX, cells_high <= u32::MAX
    ensures r is Ok <==> covers(cells_wide as int, options) && covers(cells_high as int, options),
      r is Ok ==> tiles(cells_wide as int, r->Ok_0.0 as int, options) && tiles(cells_high as int, r->Ok_0.1 as int, options)
        && r->Ok_0.0 == (cells_wide - options.block_side) / (options.block_stride as int) + 1 && r->Ok_0.1 == (cells_high - options.block_side) / (options.block_stride as int) + 1
@ begin
    proof { if covers(cells_wide as int, options) { lem_tiles(cells_wide as int, options); } if covers(cells_high as int, options) { lem_tiles(cells_high as int, options); } }
@@ fn hog.rs num_blocks
@ begin
    proof { lem_div_le(num_cells - block_side, block_stride as int); }
@ spec
    requires block_stride > 0, block_side <= num_cells <= u32::MAX, (num_cells - block_side) % (block_stride as int) == 0
    ensures r == (num_cells - block_side) / (block_stride as int) + 1
@@ fn hog.rs HogSpec::block_descriptor_length
@ spec
    requires self.small()
    ensures r == blen(self.options)
@@ fn hog.rs HogSpec::descriptor_length
@ spec
    requires self.small()
    ensures r == self.blocks_wide * self.blocks_high * blen(self.options)
@@ fn hog.rs HogSpec::cell_grid_lengths
@ spec
    ensures r@ == seq![self.options.orientations, self.cells_wide, self.cells_high]
@@ fn hog.rs HogSpec::block_grid_lengths
@ spec
    requires self.small()
    ensures r@ == seq![blen(self.options) as usize, self.blocks_wide, self.blocks_high]
@@ fn hog.rs HogSpec::block_internal_lengths
@ spec
    ensures r@ == seq![self.options.orientations, self.options.block_side, self.options.block_side]
@@ fn hog.rs HogSpec::cell_area
@ spec
    requires self.small()
    ensures r == self.options.cell_side * self.options.cell_side
@@ text
impl<T> Array3d<T> { pub open spec fn wf(&self) -> bool { self.data@.len() == vol(self.lengths) && dims_ok(self.lengths) } }
impl<'a, T> View3d<'a, T> { pub open spec fn dv(&self) -> Seq<T> { self.data@ }
  pub open spec fn wf(&self) -> bool { self.data@.len() == vol(self.lengths) && dims_ok(self.lengths) } }
@@ fn hog.rs data_length
@ spec
    requires dims_ok(lengths)
    ensures r == vol(lengths)
@@ fn hog.rs Array3d::new
@ spec
    requires dims_ok(lengths)
    ensures r.lengths == lengths, r.wf()
@@ fn hog.rs Array3d::view_mut
@ spec
    requires old(self).wf()
    ensures r.wf(), r.lengths == old(self).lengths, r.data@ == old(self).data@, final(self).lengths == old(self).lengths, final(self).data@ == final(r.data)@, final(self).data@.len() == old(self).data@.len()
@@ fn hog.rs View3d::from_raw
@ spec
    ensures r.lengths == lengths, r.dv() == old(data)@, final(r.data)@ == final(data)@, final(data)@.len() == old(data)@.len()
@ begin
    assume(final(data)@.len() == data@.len()); // Rust: the length of a slice cannot change through a &mut [T]
@@ fn hog.rs View3d::offset
@ spec
    requires self.wf(), indices@[0] <= self.lengths@[0], indices@[1] < self.lengths@[1], indices@[2] < self.lengths@[2]
    ensures r == off(self.lengths, indices@[0] as int, indices@[1] as int, indices@[2] as int), r - indices@[0] + self.lengths@[0] <= self.dv().len()
@ begin
    proof { lem_off(self.lengths, indices@[0] as int, indices@[1] as int, indices@[2] as int); }
@@ fn hog.rs View3d::at_mut
@ spec
    requires old(self).wf(), indices@[0] < old(self).lengths@[0], indices@[1] < old(self).lengths@[1], indices@[2] < old(self).lengths@[2]
    ensures *r == old(self).dv()[off(old(self).lengths, indices@[0] as int, indices@[1] as int, indices@[2] as int)],
      final(self).lengths == old(self).lengths,
      final(self).dv() == old(self).dv().update(off(old(self).lengths, indices@[0] as int, indices@[1] as int, indices@[2] as int), *final(r)),
      final(self).wf()
@@ fn hog.rs View3d::inner_slice
@ spec
    requires self.wf(), x1 < self.lengths@[1], x2 < self.lengths@[2]
    ensures r@ == self.dv().subrange(off(self.lengths, 0, x1 as int, x2 as int), off(self.lengths, 0, x1 as int, x2 as int) + self.lengths@[0]), r@.len() == self.lengths@[0]
@@ fn hog.rs View3d::inner_slice_mut
@ spec
    requires old(self).wf(), x1 < old(self).lengths@[1], x2 < old(self).lengths@[2]
    ensures r@ == old(self).dv().subrange(off(old(self).lengths, 0, x1 as int, x2 as int), off(old(self).lengths, 0, x1 as int, x2 as int) + old(self).lengths@[0]),
      r@.len() == old(self).lengths@[0], final(r)@.len() == r@.len() ==> final(self).wf(), final(self).lengths == old(self).lengths
@@ fn hog.rs copy
@ spec
    requires from@.len() >= old(to)@.len()
    ensures final(to)@.len() == old(to)@.len()
@@ fn hog.rs block_norm
@ spec
    requires view.wf(), bx < view.lengths@[1], by < view.lengths@[2]
@@ text
pub proof fn lem_cell(b: int, i: int, cells: int, blocks: int, o: HogOptions)
  requires tiles(cells, blocks, o), 0 <= b < blocks, 0 <= i < o.block_side
  ensures 0 <= b * o.block_stride, b * o.block_stride + i < cells
{
    let s = o.block_stride as int;
    assert(0 <= b * s && b * s <= (blocks - 1) * s) by (nonlinear_arith) requires 0 <= b <= blocks - 1, s >= 0;
}
pub proof fn lem_dims(s: HogSpec)
  requires s.small(), s.wf()
  ensures s.blocks_wide * s.blocks_high * blen(s.options) == blen(s.options) * s.blocks_wide * s.blocks_high,
    s.options.orientations * s.options.block_side * s.options.block_side == blen(s.options),
    s.options.orientations * s.options.block_side <= usize::MAX
{
    thm_length(s);
    let n = s.options.orientations as int; let b = s.options.block_side as int;
    assert(n * b * b == n * (b * b)) by (nonlinear_arith);
    assert(n * b <= n * (b * b)) by (nonlinear_arith) requires n >= 0, b >= 0;
}
@@ fn hog.rs hog_descriptor_from_hist_grid
@ spec
    requires spec.wf(), spec.small(), grid.wf(), grid.lengths@ == seq![spec.options.orientations, spec.cells_wide, spec.cells_high]
    ensures r@.len() == spec.blocks_wide * spec.blocks_high * blen(spec.options)
@ begin
    broadcast use fany; proof { lem_dims(spec); }
@ subst
block_mut[i] /= norm
=>>
block_mut[i] = block_mut[i] / norm
@ loop 0
    invariant block_view.wf(), block_view.lengths@ == seq![blen(spec.options) as usize, spec.blocks_wide, spec.blocks_high],
@ loop 1
    invariant block_view.wf(), block_view.lengths@ == seq![blen(spec.options) as usize, spec.blocks_wide, spec.blocks_high],
@ loop 2
    invariant block.wf(), block.lengths@ == seq![spec.options.orientations, spec.options.block_side, spec.options.block_side],
@ loop 2 begin
    proof { lem_cell(by as int, iy as int, spec.cells_high as int, spec.blocks_high as int, spec.options); }
@ loop 3
    invariant block.wf(), block.lengths@ == seq![spec.options.orientations, spec.options.block_side, spec.options.block_side],
@ loop 3 begin
    proof { lem_cell(bx as int, ix as int, spec.cells_wide as int, spec.blocks_wide as int, spec.options); }
@ loop 4
    invariant block_view.wf(), block_view.lengths@ == seq![blen(spec.options) as usize, spec.blocks_wide, spec.blocks_high],
@ loop 5
    invariant block_view.wf(), block_view.lengths@ == seq![blen(spec.options) as usize, spec.blocks_wide, spec.blocks_high],
@ loop 6
    invariant block_mut@.len() == blen(spec.options)

@@ fn hog.rs Interpolation::new
@ spec
    ensures r.indices == indices, r.weights == weights
@@ fn hog.rs Interpolation::from_position
@ begin
    broadcast use fany;
@ subst
pos as usize
=>>
f2u(pos)
@ spec
    requires trunc(pos) < usize::MAX
    ensures true
@@ fn hog.rs Interpolation::from_position_wrapping
@ begin
    broadcast use fany;
@ subst
pos as usize
=>>
f2u(pos)
@ spec
    requires length > 0, trunc(pos) < length
    ensures r.indices@[0] < length, r.indices@[1] < length
@@ fn hog.rs contains_outer
@ spec
    ensures r == (u < view.lengths@[1] && v < view.lengths@[2])
@@ fn hog.rs direction_range
@ begin
    broadcast use fany;
@ subst
f32::consts::PI
=>>
pi()
@@ fn hog.rs orientation_bin_width
@ subst
options.orientations as f32
=>>
u2f(options.orientations)
@ begin
    broadcast use fany;
@@ text
pub proof fn lem_cells(s: HogSpec)
  requires s.small(), s.wf()
  ensures dims3(s.options.orientations as int, s.cells_wide as int, s.cells_high as int)
{}
pub open spec fn dims3(a: int, b: int, c: int) -> bool { a * b * c <= usize::MAX && b * c <= usize::MAX && a * b <= usize::MAX }
@@ fn hog.rs cell_histograms
@ floats
d
@ subst
spec.cell_area() as f32
=>>
u2f(spec.cell_area())
@ subst
spec.options.cell_side as f32
=>>
u2f(spec.options.cell_side)
@ spec
    requires spec.wf(), spec.small()
    ensures r.wf(), r.lengths@ == seq![spec.options.orientations, spec.cells_wide, spec.cells_high]
@ begin
    broadcast use fany, f32s; proof { lem_cells(spec); }
@ before let o_inter
    // angles in [0, range) divided by range / orientations (f32 trigonometry, assumed; exercised by the companion)
    assume(forall|o: f32| #[trigger] vstd::std_specs::ops::div_ensures::<f32>(d, interval, o) ==> trunc(o) < spec.options.orientations);
@ subst
f32::consts::PI
=>>
pi()
@ subst
filter_clamped::<_, _, i32>(image, kernel::SOBEL_HORIZONTAL_3X3)
=>>
sobel(image)
@ subst
filter_clamped::<_, _, i32>(image, kernel::SOBEL_VERTICAL_3X3)
=>>
sobel(image)
@ loop 0
    invariant grid.wf(), grid.lengths@ == seq![spec.options.orientations, spec.cells_wide, spec.cells_high],
@ loop 1
    invariant grid_view.wf(), grid_view.lengths@ == seq![spec.options.orientations, spec.cells_wide, spec.cells_high],
@ loop 2
    invariant grid_view.wf(), grid_view.lengths@ == seq![spec.options.orientations, spec.cells_wide, spec.cells_high],
@ loop 3
    invariant grid_view.wf(), grid_view.lengths@ == seq![spec.options.orientations, spec.cells_wide, spec.cells_high],
@ loop 4
    invariant grid_view.wf(), grid_view.lengths@ == seq![spec.options.orientations, spec.cells_wide, spec.cells_high],
@@ fn hog.rs hog
@ spec
    requires fits(image.w() as int, image.h() as int, options) ==> spec_of(image.w() as int, image.h() as int, options).small()
    ensures r is Ok <==> fits(image.w() as int, image.h() as int, options),
       r is Ok ==> r->Ok_0@.len() == spec_of(image.w() as int, image.h() as int, options).blocks_wide * spec_of(image.w() as int, image.h() as int, options).blocks_high * blen(options)
