@@ include prelude.rs
@@ text

use core::ops::Mul;
// f32 arithmetic treated as exact real arithmetic (machine arithmetic idealised: stated in the evidence)
pub uninterp spec fn rv(x: f32) -> real;
pub broadcast axiom fn ax_areq(a: f32, b: f32) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_sreq(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_mreq(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_dreq(a: f32, b: f32) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_add(a: f32, b: f32, o: f32) requires #[trigger] add_ensures::<f32>(a, b, o) ensures rv(o) == rv(a) + rv(b);
pub broadcast axiom fn ax_sub(a: f32, b: f32, o: f32) requires #[trigger] sub_ensures::<f32>(a, b, o) ensures rv(o) == rv(a) - rv(b);
pub broadcast axiom fn ax_mul(a: f32, b: f32, o: f32) requires #[trigger] mul_ensures::<f32>(a, b, o) ensures rv(o) == rv(a) * rv(b);
pub broadcast axiom fn ax_div(a: f32, b: f32, o: f32) requires #[trigger] div_ensures::<f32>(a, b, o) ensures rv(b) != 0real ==> rv(o) == rv(a) / rv(b);
pub broadcast axiom fn ax_lt(a: f32, b: f32, o: bool) requires #[trigger] lt_ensures::<f32>(a, b, o) ensures o == (rv(a) < rv(b));
pub broadcast axiom fn ax_eq(a: f32, b: f32, o: bool) requires #[trigger] eq_ensures::<f32>(a, b, o) ensures o == (rv(a) == rv(b));
pub broadcast axiom fn ax_0() ensures #[trigger] rv(0f32) == 0real;
pub broadcast axiom fn ax_1() ensures #[trigger] rv(1f32) == 1real;
pub broadcast group ideal { ax_areq, ax_sreq, ax_mreq, ax_dreq, ax_add, ax_sub, ax_mul, ax_div, ax_lt, ax_eq, ax_0, ax_1 }
pub assume_specification[ f32::abs ](x: f32) -> (r: f32) ensures rv(r) == (if rv(x) < 0real { -rv(x) } else { rv(x) });
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub assume_specification[ f32::sin_cos ](x: f32) -> (r: (f32, f32)) ensures rv(r.0) == rsin(rv(x)), rv(r.1) == rcos(rv(x)), rv(r.0) * rv(r.0) + rv(r.1) * rv(r.1) == 1real;
pub uninterp spec fn eps() -> real;
pub axiom fn ax_eps() ensures eps() > 0real;
#[verifier::external_body]
pub fn tiny() -> (r: f32) ensures rv(r) == eps(), eps() > 0real { 1e-10 }
#[verifier::external_body]
pub fn neg(x: f32) -> (r: f32) ensures rv(r) == -rv(x) { -x }
/// a 3x3 matrix
pub struct M { pub a: real, pub b: real, pub c: real, pub d: real, pub e: real, pub f: real, pub g: real, pub h: real, pub i: real }
pub open spec fn m(t: [f32; 9]) -> M { M { a: rv(t@[0]), b: rv(t@[1]), c: rv(t@[2]), d: rv(t@[3]), e: rv(t@[4]), f: rv(t@[5]), g: rv(t@[6]), h: rv(t@[7]), i: rv(t@[8]) } }
pub open spec fn mm(x: M, y: M) -> M { M {
  a: x.a * y.a + x.b * y.d + x.c * y.g, b: x.a * y.b + x.b * y.e + x.c * y.h, c: x.a * y.c + x.b * y.f + x.c * y.i,
  d: x.d * y.a + x.e * y.d + x.f * y.g, e: x.d * y.b + x.e * y.e + x.f * y.h, f: x.d * y.c + x.e * y.f + x.f * y.i,
  g: x.g * y.a + x.h * y.d + x.i * y.g, h: x.g * y.b + x.h * y.e + x.i * y.h, i: x.g * y.c + x.h * y.f + x.i * y.i } }
pub open spec fn sc(k: real) -> M { M { a: k, b: 0real, c: 0real, d: 0real, e: k, f: 0real, g: 0real, h: 0real, i: k } }
pub open spec fn times(x: M, k: real) -> M { M { a: x.a * k, b: x.b * k, c: x.c * k, d: x.d * k, e: x.e * k, f: x.f * k, g: x.g * k, h: x.h * k, i: x.i * k } }
/// y is the inverse of x as a map of the projective plane: their product is a nonzero multiple of the identity
pub open spec fn is_sc(x: M, k: real) -> bool { k != 0real && x == sc(k) }
pub open spec fn inverses(x: M, y: M) -> bool { exists|k: real| #[trigger] is_sc(mm(y, x), k) && is_sc(mm(x, y), k) }
pub open spec fn mdet(x: M) -> real { x.a * (x.e * x.i - x.f * x.h) - x.b * (x.d * x.i - x.f * x.g) + x.c * (x.d * x.h - x.e * x.g) }
pub open spec fn adj(x: M) -> M { M {
  a: x.e * x.i - x.f * x.h, b: x.c * x.h - x.b * x.i, c: x.b * x.f - x.c * x.e,
  d: x.f * x.g - x.d * x.i, e: x.a * x.i - x.c * x.g, f: x.c * x.d - x.a * x.f,
  g: x.d * x.h - x.e * x.g, h: x.b * x.g - x.a * x.h, i: x.a * x.e - x.b * x.d } }
pub proof fn p3(x: real, y: real, z: real) ensures (x*y)*z == x*(y*z), (x*y)*z == (y*x)*z, (x*y)*z == (x*z)*y, (x*y)*z == (z*y)*x, (x*y)*z == (y*z)*x, (x*y)*z == (z*x)*y, x*(y*z) == y*(x*z), x*y == y*x
{ assert((x*y)*z == x*(y*z)) by(nonlinear_arith); assert((x*y)*z == (y*x)*z) by(nonlinear_arith); assert((x*y)*z == (x*z)*y) by(nonlinear_arith);
  assert((x*y)*z == (z*y)*x) by(nonlinear_arith); assert((x*y)*z == (y*z)*x) by(nonlinear_arith); assert((x*y)*z == (z*x)*y) by(nonlinear_arith); assert(x*(y*z) == y*(x*z)) by(nonlinear_arith); assert(x*y == y*x) by(nonlinear_arith); }
/// (u v - w z) t, expanded, on either side
pub proof fn s2(u: real, v: real, w: real, z: real, t: real) ensures (u*v - w*z)*t == (u*v)*t - (w*z)*t, t*(u*v - w*z) == (u*v)*t - (w*z)*t
{ let p = u*v; let q = w*z; assert((p-q)*t == p*t - q*t) by(nonlinear_arith); assert(t*(p-q) == p*t - q*t) by(nonlinear_arith); p3(u, v, t); p3(w, z, t); }
pub proof fn d3(u: real, v: real, w: real, t: real) ensures (u+v+w)*t == u*t + v*t + w*t, t*(u+v+w) == t*u + t*v + t*w
{ assert((u+v+w)*t == u*t + v*t + w*t) by(nonlinear_arith); assert(t*(u+v+w) == t*u + t*v + t*w) by(nonlinear_arith); }

pub proof fn lemma_adj(x: M) ensures mm(adj(x), x) == sc(mdet(x)), mm(x, adj(x)) == sc(mdet(x))
{ let M { a, b, c, d, e, f, g, h, i } = x;
  s2(a, e, b, d, c);
  s2(a, e, b, d, f);
  s2(a, e, b, d, g);
  s2(a, e, b, d, h);
  s2(a, e, b, d, i);
  s2(a, i, c, g, b);
  s2(a, i, c, g, d);
  s2(a, i, c, g, e);
  s2(a, i, c, g, f);
  s2(a, i, c, g, h);
  s2(b, f, c, e, a);
  s2(b, f, c, e, d);
  s2(b, f, c, e, g);
  s2(b, f, c, e, h);
  s2(b, f, c, e, i);
  s2(b, g, a, h, c);
  s2(b, g, a, h, d);
  s2(b, g, a, h, e);
  s2(b, g, a, h, f);
  s2(b, g, a, h, i);
  s2(c, d, a, f, b);
  s2(c, d, a, f, e);
  s2(c, d, a, f, g);
  s2(c, d, a, f, h);
  s2(c, d, a, f, i);
  s2(c, h, b, i, a);
  s2(c, h, b, i, d);
  s2(c, h, b, i, e);
  s2(c, h, b, i, f);
  s2(c, h, b, i, g);
  s2(d, h, e, g, a);
  s2(d, h, e, g, b);
  s2(d, h, e, g, c);
  s2(d, h, e, g, f);
  s2(d, h, e, g, i);
  s2(d, i, f, g, b);
  s2(e, i, f, h, a);
  s2(e, i, f, h, b);
  s2(e, i, f, h, c);
  s2(e, i, f, h, d);
  s2(e, i, f, h, g);
  s2(f, g, d, i, a);
  s2(f, g, d, i, b);
  s2(f, g, d, i, c);
  s2(f, g, d, i, e);
  s2(f, g, d, i, h);
  p3(a, e, c);
  p3(a, e, f);
  p3(a, e, g);
  p3(a, e, h);
  p3(a, e, i);
  p3(a, f, b);
  p3(a, f, e);
  p3(a, f, g);
  p3(a, f, h);
  p3(a, f, i);
  p3(a, h, c);
  p3(a, h, d);
  p3(a, h, e);
  p3(a, h, f);
  p3(a, h, i);
  p3(a, i, b);
  p3(a, i, d);
  p3(a, i, e);
  p3(a, i, f);
  p3(a, i, h);
  p3(b, d, c);
  p3(b, d, f);
  p3(b, d, g);
  p3(b, d, h);
  p3(b, d, i);
  p3(b, f, a);
  p3(b, f, d);
  p3(b, f, g);
  p3(b, f, h);
  p3(b, f, i);
  p3(b, g, c);
  p3(b, g, d);
  p3(b, g, e);
  p3(b, g, f);
  p3(b, g, i);
  p3(b, i, a);
  p3(b, i, d);
  p3(b, i, e);
  p3(b, i, f);
  p3(b, i, g);
  p3(c, d, b);
  p3(c, d, e);
  p3(c, d, g);
  p3(c, d, h);
  p3(c, d, i);
  p3(c, e, a);
  p3(c, e, d);
  p3(c, e, g);
  p3(c, e, h);
  p3(c, e, i);
  p3(c, g, b);
  p3(c, g, d);
  p3(c, g, e);
  p3(c, g, f);
  p3(c, g, h);
  p3(c, h, a);
  p3(c, h, d);
  p3(c, h, e);
  p3(c, h, f);
  p3(c, h, g);
  p3(d, h, a);
  p3(d, h, b);
  p3(d, h, c);
  p3(d, h, f);
  p3(d, h, i);
  p3(d, i, a);
  p3(d, i, b);
  p3(d, i, c);
  p3(d, i, e);
  p3(d, i, h);
  p3(e, g, a);
  p3(e, g, b);
  p3(e, g, c);
  p3(e, g, f);
  p3(e, g, i);
  p3(e, i, a);
  p3(e, i, b);
  p3(e, i, c);
  p3(e, i, d);
  p3(e, i, g);
  p3(f, g, a);
  p3(f, g, b);
  p3(f, g, c);
  p3(f, g, e);
  p3(f, g, h);
  p3(f, h, a);
  p3(f, h, b);
  p3(f, h, c);
  p3(f, h, d);
  p3(f, h, g);
}
/// the bilinear form u m v, bracketed both ways
pub open spec fn lf(u: (real, real, real), m: M, v: (real, real, real)) -> real { (u.0 * m.a + u.1 * m.d + u.2 * m.g) * v.0 + (u.0 * m.b + u.1 * m.e + u.2 * m.h) * v.1 + (u.0 * m.c + u.1 * m.f + u.2 * m.i) * v.2 }
pub open spec fn rf(u: (real, real, real), m: M, v: (real, real, real)) -> real { u.0 * (m.a * v.0 + m.b * v.1 + m.c * v.2) + u.1 * (m.d * v.0 + m.e * v.1 + m.f * v.2) + u.2 * (m.g * v.0 + m.h * v.1 + m.i * v.2) }
pub proof fn lemma_form(u: (real, real, real), m: M, v: (real, real, real)) ensures lf(u, m, v) == rf(u, m, v)
{
  d3(u.0 * m.a, u.1 * m.d, u.2 * m.g, v.0);
  d3(u.0 * m.b, u.1 * m.e, u.2 * m.h, v.1);
  d3(u.0 * m.c, u.1 * m.f, u.2 * m.i, v.2);
  d3(m.a * v.0, m.b * v.1, m.c * v.2, u.0);
  d3(m.d * v.0, m.e * v.1, m.f * v.2, u.1);
  d3(m.g * v.0, m.h * v.1, m.i * v.2, u.2);
  p3(u.0, m.a, v.0);
  p3(u.0, m.b, v.1);
  p3(u.0, m.c, v.2);
  p3(u.1, m.d, v.0);
  p3(u.1, m.e, v.1);
  p3(u.1, m.f, v.2);
  p3(u.2, m.g, v.0);
  p3(u.2, m.h, v.1);
  p3(u.2, m.i, v.2);
}
pub proof fn lemma_assoc(x: M, y: M, z: M) ensures mm(mm(x, y), z) == mm(x, mm(y, z))
{
  lemma_form((x.a, x.b, x.c), y, (z.a, z.d, z.g));
  lemma_form((x.a, x.b, x.c), y, (z.b, z.e, z.h));
  lemma_form((x.a, x.b, x.c), y, (z.c, z.f, z.i));
  lemma_form((x.d, x.e, x.f), y, (z.a, z.d, z.g));
  lemma_form((x.d, x.e, x.f), y, (z.b, z.e, z.h));
  lemma_form((x.d, x.e, x.f), y, (z.c, z.f, z.i));
  lemma_form((x.g, x.h, x.i), y, (z.a, z.d, z.g));
  lemma_form((x.g, x.h, x.i), y, (z.b, z.e, z.h));
  lemma_form((x.g, x.h, x.i), y, (z.c, z.f, z.i));
}
pub proof fn lemma_times(x: M, y: M, k: real) ensures mm(times(x, k), y) == times(mm(x, y), k), mm(x, times(y, k)) == times(mm(x, y), k)
{
  d3(x.a * y.a, x.b * y.d, x.c * y.g, k);
  p3(x.a, y.a, k);
  p3(x.b, y.d, k);
  p3(x.c, y.g, k);
  d3(x.a * y.b, x.b * y.e, x.c * y.h, k);
  p3(x.a, y.b, k);
  p3(x.b, y.e, k);
  p3(x.c, y.h, k);
  d3(x.a * y.c, x.b * y.f, x.c * y.i, k);
  p3(x.a, y.c, k);
  p3(x.b, y.f, k);
  p3(x.c, y.i, k);
  d3(x.d * y.a, x.e * y.d, x.f * y.g, k);
  p3(x.d, y.a, k);
  p3(x.e, y.d, k);
  p3(x.f, y.g, k);
  d3(x.d * y.b, x.e * y.e, x.f * y.h, k);
  p3(x.d, y.b, k);
  p3(x.e, y.e, k);
  p3(x.f, y.h, k);
  d3(x.d * y.c, x.e * y.f, x.f * y.i, k);
  p3(x.d, y.c, k);
  p3(x.e, y.f, k);
  p3(x.f, y.i, k);
  d3(x.g * y.a, x.h * y.d, x.i * y.g, k);
  p3(x.g, y.a, k);
  p3(x.h, y.d, k);
  p3(x.i, y.g, k);
  d3(x.g * y.b, x.h * y.e, x.i * y.h, k);
  p3(x.g, y.b, k);
  p3(x.h, y.e, k);
  p3(x.i, y.h, k);
  d3(x.g * y.c, x.h * y.f, x.i * y.i, k);
  p3(x.g, y.c, k);
  p3(x.h, y.f, k);
  p3(x.i, y.i, k);
}
pub proof fn lemma_sc(x: M, k: real, l: real) ensures mm(sc(k), x) == times(x, k), mm(x, sc(k)) == times(x, k), times(sc(l), k) == sc(l * k)
{ z0(x.a, k); z0(x.b, k); z0(x.c, k); z0(x.d, k); z0(x.e, k); z0(x.f, k); z0(x.g, k); z0(x.h, k); z0(x.i, k); z0(l, k); z0(k, l); }
pub proof fn e1(a: real) ensures a * 1real == a, 1real * a == a { assert(a * 1real == a) by(nonlinear_arith); assert(1real * a == a) by(nonlinear_arith); }
pub proof fn o1(a: real) ensures a / 1real == a { assert(a / 1real == a) by(nonlinear_arith); }
pub proof fn z0(q: real, k: real) ensures q * 0real == 0real, 0real * q == 0real, q * k == k * q { assert(q * k == k * q) by(nonlinear_arith); assert(q * 0real == 0real) by(nonlinear_arith); assert(0real * q == 0real) by(nonlinear_arith); }
pub proof fn nz(k: real, l: real) requires k != 0real, l != 0real ensures k * l != 0real { assert(k * l != 0real) by(nonlinear_arith) requires k != 0real, l != 0real; }
/// composing two transformations and, in reverse order, their inverses keeps them inverse to each other
pub proof fn lemma_compose(x1: M, y1: M, x2: M, y2: M) requires inverses(x1, y1), inverses(x2, y2) ensures inverses(mm(x1, x2), mm(y2, y1))
{ let k1 = choose|k: real| #[trigger] is_sc(mm(y1, x1), k) && is_sc(mm(x1, y1), k);
  let k2 = choose|k: real| #[trigger] is_sc(mm(y2, x2), k) && is_sc(mm(x2, y2), k);
  lemma_assoc(mm(y2, y1), x1, x2); lemma_assoc(y2, y1, x1); lemma_sc(y2, k1, k2); lemma_times(y2, x2, k1);
  lemma_assoc(mm(x1, x2), y2, y1); lemma_assoc(x1, x2, y2); lemma_sc(x1, k2, k1); lemma_times(x1, y1, k2);
  lemma_sc(x1, k1, k2); nz(k1, k2); p3(k1, k2, k1);
  assert(is_sc(mm(mm(y2, y1), mm(x1, x2)), k1 * k2)); assert(is_sc(mm(mm(x1, x2), mm(y2, y1)), k1 * k2)); }
pub proof fn lemma_scale(x: M, y: M, k: real) requires inverses(x, y), k != 0real ensures inverses(x, times(y, k))
{ let l = choose|l: real| #[trigger] is_sc(mm(y, x), l) && is_sc(mm(x, y), l);
  lemma_times(y, x, k); lemma_times(x, y, k); lemma_sc(x, k, l); nz(l, k);
  assert(is_sc(mm(times(y, k), x), l * k)); assert(is_sc(mm(x, times(y, k)), l * k)); }
pub proof fn dv(a: real, k: real) requires k != 0real ensures a / k == a * (1real / k), 1real / k != 0real, k * (1real / k) == 1real
{ assert(a / k == a * (1real / k)) by(nonlinear_arith) requires k != 0real; assert(k * (1real / k) == 1real) by(nonlinear_arith) requires k != 0real; assert(1real / k != 0real) by(nonlinear_arith) requires k != 0real; }
pub proof fn lemma_inv(x: M, y: M) requires mdet(x) != 0real, y == times(adj(x), 1real / mdet(x)) ensures inverses(x, y)
{ lemma_adj(x); lemma_times(adj(x), x, 1real / mdet(x)); lemma_times(x, adj(x), 1real / mdet(x)); lemma_sc(x, 1real / mdet(x), mdet(x)); dv(1real, mdet(x));
  assert(is_sc(mm(y, x), 1real)); assert(is_sc(mm(x, y), 1real)); }
/// the homogeneous image of a point
pub open spec fn hx(x: M, p: real, q: real) -> real { x.a * p + x.b * q + x.c }
pub open spec fn hy(x: M, p: real, q: real) -> real { x.d * p + x.e * q + x.f }
pub open spec fn hw(x: M, p: real, q: real) -> real { x.g * p + x.h * q + x.i }
pub open spec fn img(x: M, p: real, q: real) -> (real, real) { (hx(x, p, q) / hw(x, p, q), hy(x, p, q) / hw(x, p, q)) }
pub proof fn lemma_row(a: real, b: real, c: real, p: real, q: real, w: real) requires w != 0real ensures a * (p / w) + b * (q / w) + c == (a * p + b * q + c * w) / w
{ let v = 1real / w; dv(p, w); dv(q, w); dv(a * p + b * q + c * w, w); d3(a * p, b * q, c * w, v); p3(a, p, v); p3(b, q, v); p3(c, w, v); }
/// applying y after x is applying the product
pub proof fn lemma_img(y: M, x: M, p: real, q: real)
  requires hw(x, p, q) != 0real
  ensures hw(y, img(x, p, q).0, img(x, p, q).1) == hw(mm(y, x), p, q) / hw(x, p, q),
    hw(mm(y, x), p, q) != 0real ==> img(y, img(x, p, q).0, img(x, p, q).1) == img(mm(y, x), p, q)
{ let (a, b, w) = (hx(x, p, q), hy(x, p, q), hw(x, p, q));
  lemma_row(y.a, y.b, y.c, a, b, w); lemma_row(y.d, y.e, y.f, a, b, w); lemma_row(y.g, y.h, y.i, a, b, w);
  assert(a == x.a * p + x.b * q + x.c * 1real); assert(b == x.d * p + x.e * q + x.f * 1real); assert(w == x.g * p + x.h * q + x.i * 1real);
  let o = (p, q, 1real);
  lemma_form((y.a, y.b, y.c), x, o); lemma_form((y.d, y.e, y.f), x, o); lemma_form((y.g, y.h, y.i), x, o);
  let z = mm(y, x);
  assert(hx(z, p, q) == z.a * p + z.b * q + z.c * 1real); assert(hy(z, p, q) == z.d * p + z.e * q + z.f * 1real); assert(hw(z, p, q) == z.g * p + z.h * q + z.i * 1real);
  if hw(z, p, q) != 0real { dd(hx(z, p, q), hw(z, p, q), w); dd(hy(z, p, q), hw(z, p, q), w); } }
pub proof fn dd(a: real, b: real, w: real) requires b != 0real, w != 0real ensures (a / w) / (b / w) == a / b
{ assert((a / w) / (b / w) == a / b) by(nonlinear_arith) requires b != 0real, w != 0real; }
/// the inverse undoes the transformation wherever the transformation is defined
pub proof fn theorem_undo(x: M, y: M, p: real, q: real)
  requires inverses(x, y), hw(x, p, q) != 0real
  ensures hw(y, img(x, p, q).0, img(x, p, q).1) != 0real, img(y, img(x, p, q).0, img(x, p, q).1) == (p, q)
{ let k = choose|k: real| #[trigger] is_sc(mm(y, x), k) && is_sc(mm(x, y), k);
  lemma_img(y, x, p, q); let z = mm(y, x); let w = hw(x, p, q);
  assert(z.a * p + 0real * q + 0real == k * p); assert(0real * p + z.e * q + 0real == k * q);
  assert(hw(z, p, q) == k); 
  assert((k * p) / k == p) by(nonlinear_arith) requires k != 0real;
  assert((k * q) / k == q) by(nonlinear_arith) requires k != 0real;
  assert(k / w != 0real) by(nonlinear_arith) requires k != 0real, w != 0real; }
@@ enum geometric_transformations.rs TransformationClass
@ opts
#[derive(Clone, Copy)]
@@ struct geometric_transformations.rs Projection
@ opts
#[derive(Clone, Copy)]
@@ text

/// the matrix has exactly the shape its class promises
pub open spec fn exact(c: TransformationClass, x: M) -> bool { match c {
  TransformationClass::Translation => x.a == 1real && x.b == 0real && x.d == 0real && x.e == 1real && x.g == 0real && x.h == 0real && x.i == 1real,
  TransformationClass::Affine => x.g == 0real && x.h == 0real && x.i == 1real,
  TransformationClass::Projection => true } }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn near(v: real, t: real) -> bool { rabs(v - t) < eps() }
pub open spec fn near_affine(x: M) -> bool { near(x.g, 0real) && near(x.h, 0real) && near(x.i, 1real) }
pub open spec fn near_translation(x: M) -> bool { near(x.a, 1real) && near(x.b, 0real) && near(x.d, 0real) && near(x.e, 1real) }
/// no coefficient is within the tolerance of, but different from, the value its class needs
pub open spec fn clear(x: M) -> bool { (near_affine(x) ==> x.g == 0real && x.h == 0real && x.i == 1real)
  && (near_affine(x) && near_translation(x) ==> x.a == 1real && x.b == 0real && x.d == 0real && x.e == 1real) }
pub open spec fn valid(p: Projection) -> bool { inverses(m(p.transform), m(p.inverse)) && exact(p.class, m(p.transform)) && exact(p.class, m(p.inverse)) }
pub open spec fn unit(x: M) -> bool { x.i == 1real || x.i == 0real }
pub open spec fn norm(x: M) -> M { if x.i == 0real { x } else { times(x, 1real / x.i) } }
pub proof fn lemma_exact(c: TransformationClass, x: M, y: M) requires inverses(x, y), exact(c, x), unit(y) ensures exact(c, y)
{ let k = choose|k: real| #[trigger] is_sc(mm(y, x), k) && is_sc(mm(x, y), k); let z = mm(x, y);
  z0(y.a, 0real); z0(y.b, 0real); z0(y.c, 0real); z0(y.d, 0real); z0(y.e, 0real); z0(y.f, 0real); z0(x.c, 0real); z0(x.f, 0real);
  if !(c is Projection) { assert(z.g == y.g); assert(z.h == y.h); assert(z.i == y.i);
    if c is Translation { assert(z.a == y.a); assert(z.b == y.b); assert(z.d == y.d); assert(z.e == y.e); } } }
pub proof fn lemma_exact_mul(c: TransformationClass, x: M, y: M) requires exact(c, x), exact(c, y) ensures exact(c, mm(x, y))
{ if !(c is Projection) { z0(y.a, 0real); z0(y.b, 0real); z0(y.c, 0real); z0(y.d, 0real); z0(y.e, 0real); z0(y.f, 0real); z0(x.a, 0real); z0(x.b, 0real); z0(x.c, 0real); z0(x.d, 0real); z0(x.e, 0real); z0(x.f, 0real); } }
pub proof fn lemma_weaken(x: M) ensures exact(TransformationClass::Translation, x) ==> exact(TransformationClass::Affine, x) {}
/// scaling the matrix does not move any point
pub proof fn theorem_scale(x: M, k: real, p: real, q: real) requires k != 0real, hw(x, p, q) != 0real
  ensures img(times(x, k), p, q) == img(x, p, q), hw(times(x, k), p, q) != 0real
{ d3(x.a * p, x.b * q, x.c, k); d3(x.d * p, x.e * q, x.f, k); d3(x.g * p, x.h * q, x.i, k);
  p3(x.a, k, p); p3(x.b, k, q); p3(x.d, k, p); p3(x.e, k, q); p3(x.g, k, p); p3(x.h, k, q);
  let (a, b, w) = (hx(x, p, q), hy(x, p, q), hw(x, p, q)); nz(w, k);
  assert((a * k) / (w * k) == a / w) by(nonlinear_arith) requires k != 0real, w != 0real;
  assert((b * k) / (w * k) == b / w) by(nonlinear_arith) requires k != 0real, w != 0real; }
@@ fn geometric_transformations.rs class_from_matrix
@ floats
@ subst
1e-10
=>> tiny()
@ spec
  ensures (r is Translation) == (near_affine(m(mx)) && near_translation(m(mx))), (r is Affine) == (near_affine(m(mx)) && !near_translation(m(mx)))
@ begin
  broadcast use ideal;
@@ fn geometric_transformations.rs normalize
@ spec
  ensures m(r) == norm(m(mx)), unit(m(r))
@ begin
  broadcast use ideal;
  proof { let x = m(mx); if x.i != 0real { dv(x.a, x.i); dv(x.b, x.i); dv(x.c, x.i); dv(x.d, x.i); dv(x.e, x.i); dv(x.f, x.i); dv(x.g, x.i); dv(x.h, x.i); dv(x.i, x.i); } }
@@ fn geometric_transformations.rs try_inverse
@ subst
let [t00, t01, t02, t10, t11, t12, t20, t21, t22] = t;
=>> let (t00, t01, t02, t10, t11, t12, t20, t21, t22) = (t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8]);
@ subst
1e-10
=>> tiny()
@ subst
-m10
=>> neg(m10)
@ subst
-m01
=>> neg(m01)
@ subst
-m21
=>> neg(m21)
@ subst
-m12
=>> neg(m12)
@ spec
  ensures r is Some == (rabs(mdet(m(*t))) >= eps()), r is Some ==> inverses(m(*t), m(r->0)) && unit(m(r->0))
@ begin
  broadcast use ideal;
  proof { ax_eps(); }
@ tail
  proof { let x = m(*t); let d = mdet(x); let a = adj(x); dv(a.a, d); dv(a.b, d); dv(a.c, d); dv(a.d, d); dv(a.e, d); dv(a.f, d); dv(a.g, d); dv(a.h, d); dv(a.i, d);
    p3(x.a, x.e, x.i); p3(x.a, x.i, x.i); p3(x.b, x.f, x.i); p3(x.b, x.d, x.i); 
    assert(m(inv) == times(a, 1real / d)); lemma_inv(x, m(inv)); let y = m(inv);
    if y.i != 0real { dv(1real, y.i); lemma_scale(x, y, 1real / y.i); } }
@@ fn geometric_transformations.rs mul3x3
@ subst
let [a00, a01, a02, a10, a11, a12, a20, a21, a22] = a;
=>> let (a00, a01, a02, a10, a11, a12, a20, a21, a22) = (a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
@ subst
let [b00, b01, b02, b10, b11, b12, b20, b21, b22] = b;
=>> let (b00, b01, b02, b10, b11, b12, b20, b21, b22) = (b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]);
@ spec
  ensures m(r) == mm(m(a), m(b))
@ begin
  broadcast use ideal;
@@ fn geometric_transformations.rs Projection::from_matrix
@ closure 0
|inverse: [f32; 9]| -> (q: Projection) ensures q.transform == transform, q.inverse == inverse, q.class == class
@ spec
  ensures r is Some == (rabs(mdet(norm(m(transform)))) >= eps()),
    r is Some ==> m((r->0).transform) == norm(m(transform)) && inverses(m((r->0).transform), m((r->0).inverse)),
    r is Some && clear(norm(m(transform))) ==> valid(r->0),
@ ret
  proof { if r is Some { let p = r->0; if clear(m(p.transform)) { lemma_exact(p.class, m(p.transform), m(p.inverse)); } } }
@@ fn geometric_transformations.rs Projection::translate
@ subst
-tx
=>> neg(tx)
@ subst
-ty
=>> neg(ty)
@ spec
  ensures valid(r), m(r.transform) == (M { c: rv(tx), f: rv(ty), ..sc(1real) })
@ begin
  broadcast use ideal;
@ ret
  proof { z0(rv(tx), 0real); z0(rv(ty), 0real); z0(-rv(tx), 0real); z0(-rv(ty), 0real); z0(-rv(tx), 1real); z0(-rv(ty), 1real); z0(rv(tx), 1real); z0(rv(ty), 1real); e1(rv(tx)); e1(rv(ty)); e1(-rv(tx)); e1(-rv(ty)); assert(is_sc(mm(m(r.inverse), m(r.transform)), 1real)); assert(is_sc(mm(m(r.transform), m(r.inverse)), 1real)); }
@@ fn geometric_transformations.rs Projection::rotate
@ subst
-s
=>> neg(s)
@ spec
  ensures valid(r), ({ let (s, c) = (rsin(rv(theta)), rcos(rv(theta))); m(r.transform) == (M { a: c, b: -s, d: s, e: c, ..sc(1real) }) })
@ begin
  broadcast use ideal;
@ ret
  proof { let (sn, cn) = (rsin(rv(theta)), rcos(rv(theta))); p3(sn, cn, 1real);
    assert(sn * (-sn) == -(sn * sn)) by(nonlinear_arith); assert((-sn) * sn == -(sn * sn)) by(nonlinear_arith); assert((-sn) * cn == -(cn * sn)) by(nonlinear_arith); assert(cn * (-sn) == -(cn * sn)) by(nonlinear_arith);
    assert((-sn) * (-sn) == sn * sn) by(nonlinear_arith);
    assert(is_sc(mm(m(r.inverse), m(r.transform)), 1real)); assert(is_sc(mm(m(r.transform), m(r.inverse)), 1real)); }
@@ fn geometric_transformations.rs Projection::scale
@ spec
  ensures m(r.transform) == (M { a: rv(sx), e: rv(sy), ..sc(1real) }), rv(sx) != 0real && rv(sy) != 0real ==> valid(r)
@ begin
  broadcast use ideal;
@ ret
  proof { let (x, y) = (rv(sx), rv(sy)); if x != 0real && y != 0real { dv(1real, x); dv(1real, y); p3(x, 1real / x, 1real); p3(y, 1real / y, 1real);
    z0(x, 0real); z0(y, 0real); z0(1real / x, 0real); z0(1real / y, 0real);
    assert(is_sc(mm(m(r.inverse), m(r.transform)), 1real)); assert(is_sc(mm(m(r.transform), m(r.inverse)), 1real)); } }
@@ fn geometric_transformations.rs Projection::invert
@ spec
  ensures valid(self) ==> valid(r), r.transform == self.inverse, r.inverse == self.transform, r.class == self.class
@ ret
  proof { if valid(self) { let (x, y) = (m(self.transform), m(self.inverse)); let k = choose|k: real| #[trigger] is_sc(mm(y, x), k) && is_sc(mm(x, y), k); assert(is_sc(mm(x, y), k) && is_sc(mm(y, x), k)); } }
@@ text
impl MulSpecImpl<Projection> for Projection { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: Projection) -> bool { true } open spec fn mul_spec(self, rhs: Projection) -> Projection { arbitrary() } }
impl MulSpecImpl<(f32, f32)> for Projection { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: (f32, f32)) -> bool { true } open spec fn mul_spec(self, rhs: (f32, f32)) -> (f32, f32) { arbitrary() } }
impl Mul<Projection> for Projection { type Output = Projection;
@@ fn geometric_transformations.rs <Projection as Mul<Projection>>::mul
@ hdr
none
@ nopub
@ subst
use TransformationClass as TC;
=>>
@ subst
TC::
=>> TransformationClass::
@ spec
  ensures m(r.transform) == mm(m(self.transform), m(rhs.transform)), m(r.inverse) == mm(m(rhs.inverse), m(self.inverse)), valid(self) && valid(rhs) ==> valid(r)
@ ret
  proof { if valid(self) && valid(rhs) { let (x1, y1, x2, y2) = (m(self.transform), m(self.inverse), m(rhs.transform), m(rhs.inverse));
    lemma_compose(x1, y1, x2, y2); lemma_weaken(x1); lemma_weaken(x2); lemma_weaken(y1); lemma_weaken(y2);
    lemma_exact_mul(r.class, x1, x2); lemma_exact_mul(r.class, y2, y1); } }
@@ text
}
@@ fn geometric_transformations.rs Projection::and_then
@ spec
  ensures m(r.transform) == mm(m(other.transform), m(self.transform)), valid(self) && valid(other) ==> valid(r)
@@ fn geometric_transformations.rs Projection::map_projective
@ spec
  ensures hw(m(self.transform), rv(x), rv(y)) != 0real ==> (rv(r.0), rv(r.1)) == img(m(self.transform), rv(x), rv(y))
@ begin
  broadcast use ideal;
@@ fn geometric_transformations.rs Projection::map_affine
@ spec
  ensures exact(TransformationClass::Affine, m(self.transform)) ==> (rv(r.0), rv(r.1)) == img(m(self.transform), rv(x), rv(y))
@ begin
  broadcast use ideal;
  proof { let t = m(self.transform); z0(rv(x), 0real); z0(rv(y), 0real); dv(hx(t, rv(x), rv(y)), 1real); dv(hy(t, rv(x), rv(y)), 1real); o1(hx(t, rv(x), rv(y))); o1(hy(t, rv(x), rv(y))); }
@@ fn geometric_transformations.rs Projection::map_translation
@ spec
  ensures exact(TransformationClass::Translation, m(self.transform)) ==> (rv(r.0), rv(r.1)) == img(m(self.transform), rv(x), rv(y))
@ begin
  broadcast use ideal;
  proof { z0(rv(x), 0real); z0(rv(y), 0real); let t = m(self.transform); o1(hx(t, rv(x), rv(y))); o1(hy(t, rv(x), rv(y))); }
@@ text
impl Mul<(f32, f32)> for Projection { type Output = (f32, f32);
@@ fn geometric_transformations.rs <Projection as Mul<(f32, f32)>>::mul
@ hdr
none
@ nopub
@ spec
  ensures exact(self.class, m(self.transform)) && hw(m(self.transform), rv(rhs.0), rv(rhs.1)) != 0real ==> (rv(r.0), rv(r.1)) == img(m(self.transform), rv(rhs.0), rv(rhs.1))
@@ text
}
