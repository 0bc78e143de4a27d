@@ include prelude.rs
@@ text
/// `==` of pixels (structural equality; true of every integer-valued pixel type)
#[verifier::external_body]
pub fn peq<P>(a: &P, b: &P) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub type Ent = (i32, i32, i32, i32);
pub open spec fn tgt<P>(im: &Image<P>, t: P, x: int, y: int) -> bool { im.inb(x, y) && im.px(x, y) == t }
pub open spec fn adj(a: int, b: int, x: int, y: int) -> bool { (a == x && (b == y - 1 || b == y + 1)) || (b == y && (a == x - 1 || a == x + 1)) }
/// joined to the seed by at most n four-neighbour steps through pixels of the seed's colour
pub open spec fn within<P>(o: &Image<P>, sx: int, sy: int, n: nat, x: int, y: int) -> bool decreases n {
  o.inb(x, y) && o.inb(sx, sy) && o.px(x, y) == o.px(sx, sy) && (if n == 0 { x == sx && y == sy } else {
    within(o, sx, sy, (n - 1) as nat, x, y) || within(o, sx, sy, (n - 1) as nat, x - 1, y) || within(o, sx, sy, (n - 1) as nat, x + 1, y)
    || within(o, sx, sy, (n - 1) as nat, x, y - 1) || within(o, sx, sy, (n - 1) as nat, x, y + 1) })
}
pub open spec fn region<P>(o: &Image<P>, sx: int, sy: int, x: int, y: int) -> bool { exists|n: nat| #[trigger] within(o, sx, sy, n, x, y) }
pub proof fn lemma_region_step<P>(o: &Image<P>, sx: int, sy: int, a: int, b: int, x: int, y: int)
  requires region(o, sx, sy, a, b), adj(a, b, x, y), o.inb(x, y), o.px(x, y) == o.px(sx, sy)
  ensures region(o, sx, sy, x, y)
{ let n = choose|n: nat| #[trigger] within(o, sx, sy, n, a, b); let m = (n + 1) as nat; assert((m - 1) as nat == n);
  assert(within(o, sx, sy, m, x, y)); }
pub proof fn lemma_seed<P>(o: &Image<P>, sx: int, sy: int) requires o.inb(sx, sy) ensures region(o, sx, sy, sx, sy)
{ assert(within(o, sx, sy, 0, sx, sy)); }
/// the picture: every pixel is as in o, or is in the region and filled
pub open spec fn sound<P>(o: &Image<P>, im: &Image<P>, f: P, sx: int, sy: int) -> bool {
  im.same_dims(o) && o.inb(sx, sy) && f != o.px(sx, sy)
  && forall|x: int, y: int| o.inb(x, y) ==> (#[trigger] im.px(x, y) == o.px(x, y) && !(region(o, sx, sy, x, y) && im.px(x, y) == f)) || (region(o, sx, sy, x, y) && im.px(x, y) == f)
}
pub open spec fn filled<P>(o: &Image<P>, im: &Image<P>, x: int, y: int) -> bool { o.inb(x, y) && im.px(x, y) != o.px(x, y) }
pub open spec fn hits(e: Ent, x: int, y: int) -> bool { e.2 == y && e.0 <= x <= e.1 }
pub open spec fn cov(st: Seq<Ent>, x: int, y: int) -> bool { exists|k: int| 0 <= k < st.len() && hits(#[trigger] st[k], x, y) }
/// a stack entry: its row next to the image, its range inside it; the cells behind it are in the region (or it is the seed's)
pub open spec fn ent_ok<P>(o: &Image<P>, sx: int, sy: int, e: Ent) -> bool {
  0 <= e.0 <= e.1 < o.w() && -1 <= e.2 <= o.h() && (e.3 == 1 || e.3 == -1)
  && forall|x: int| e.0 <= x <= e.1 ==> #[trigger] region(o, sx, sy, x, e.2 - e.3) || (x == sx && e.2 == sy)
}
/// the cells behind an entry that still have to be filled are on the stack
pub open spec fn behind<P>(im: &Image<P>, t: P, st: Seq<Ent>, x0: int, x2: int, y: int) -> bool {
  forall|x: int| x0 <= x <= x2 && #[trigger] tgt(im, t, x, y) ==> cov(st, x, y)
}
#[verifier::opaque]
pub open spec fn stack_ok<P>(o: &Image<P>, sx: int, sy: int, st: Seq<Ent>) -> bool {
  forall|k: int| 0 <= k < st.len() ==> ent_ok(o, sx, sy, #[trigger] st[k])
}
pub open spec fn pend(st: Seq<Ent>, y: int, dy: int, x: int, x1: int, x2: int, bh: int, qx: int, qy: int) -> bool {
  cov(st, qx, qy) || (qy == y && x1 <= qx <= x2) || (qy == y + dy && x <= qx < x1) || (qy == y - dy && x2 < qx < x1 && x <= qx) || (qy == y - dy && x <= qx < bh)
}
/// every unfilled pixel of the seed's colour next to a filled one is still pending (so is the seed)
#[verifier::opaque]
pub open spec fn ok1<P>(o: &Image<P>, im: &Image<P>, sx: int, sy: int, st: Seq<Ent>, y: int, dy: int, x: int, x1: int, x2: int, bh: int, hl: bool, hr: bool) -> bool {
  &&& forall|px: int, py: int, qx: int, qy: int| #[trigger] filled(o, im, px, py) && #[trigger] tgt(im, o.px(sx, sy), qx, qy) && adj(px, py, qx, qy) ==>
      pend(st, y, dy, x, x1, x2, bh, qx, qy) || (hl && qx == x - 1 && qy == y && px == x && py == y) || (hr && qx == x1 && qy == y && px == x1 - 1 && py == y)
  &&& tgt(im, o.px(sx, sy), sx, sy) ==> pend(st, y, dy, x, x1, x2, bh, sx, sy)
  &&& forall|k: int| 0 <= k < st.len() ==> #[trigger] behind_p(im, o.px(sx, sy), st, st[k], y, dy, x, x1, x2, bh)
}
pub open spec fn behind_p<P>(im: &Image<P>, t: P, st: Seq<Ent>, e: Ent, y: int, dy: int, x: int, x1: int, x2: int, bh: int) -> bool {
  forall|q: int| e.0 <= q <= e.1 && #[trigger] tgt(im, t, q, e.2 - e.3) ==> pend(st, y, dy, x, x1, x2, bh, q, e.2 - e.3)
}
pub open spec fn put_of<P>(im: &Image<P>, im2: &Image<P>, a: int, b: int, f: P) -> bool {
  im2.same_dims(im) && forall|i: int, j: int| #[trigger] im2.px(i, j) == if i == a && j == b { f } else { im.px(i, j) }
}
pub proof fn lemma_pop<P>(o: &Image<P>, im: &Image<P>, sx: int, sy: int, st: Seq<Ent>)
  requires st.len() > 0, stack_ok(o, sx, sy, st), ok1(o, im, sx, sy, st, -9, 1, 0, 0, -1, 0, false, false)
  ensures ({ let e = st[st.len() - 1]; let s = st.drop_last(); 
     ent_ok(o, sx, sy, e) && stack_ok(o, sx, sy, s) && ok1(o, im, sx, sy, s, e.2 as int, e.3 as int, e.0 as int, e.0 as int, e.1 as int, e.0 as int, false, false)
     && behind(im, o.px(sx, sy), s, e.0 as int, e.1 as int, e.2 - e.3) })
{
  reveal(stack_ok); reveal(ok1);
  let e = st[st.len() - 1]; let s = st.drop_last(); let t = o.px(sx, sy);
  assert(ent_ok(o, sx, sy, e));
  assert forall|k: int| 0 <= k < s.len() implies ent_ok(o, sx, sy, #[trigger] s[k]) by { assert(ent_ok(o, sx, sy, st[k])); }
  assert forall|x: int, y: int| cov(st, x, y) implies cov(s, x, y) || hits(e, x, y) by { let k = choose|k: int| 0 <= k < st.len() && hits(#[trigger] st[k], x, y); if k < s.len() { assert(hits(s[k], x, y)); } }
  assert forall|k: int| 0 <= k < s.len() implies #[trigger] behind_p(im, t, s, s[k], e.2 as int, e.3 as int, e.0 as int, e.0 as int, e.1 as int, e.0 as int) by { assert(behind_p(im, t, st, st[k], -9, 1, 0, 0, -1, 0)); }
  assert(behind_p(im, t, st, st[st.len() - 1], -9, 1, 0, 0, -1, 0));
}
pub proof fn lemma_done<P>(o: &Image<P>, im: &Image<P>, sx: int, sy: int, st: Seq<Ent>, y: int, dy: int, x1: int, x2: int)
  requires x1 > x2, ok1(o, im, sx, sy, st, y, dy, x1, x1, x2, x1, false, false)
  ensures ok1(o, im, sx, sy, st, -9, 1, 0, 0, -1, 0, false, false)
{ reveal(ok1); 
  assert forall|k: int| 0 <= k < st.len() implies #[trigger] behind_p(im, o.px(sx, sy), st, st[k], -9, 1, 0, 0, -1, 0) by { assert(behind_p(im, o.px(sx, sy), st, st[k], y, dy, x1, x1, x2, x1)); } }
pub proof fn lemma_right<P>(o: &Image<P>, im: &Image<P>, im2: &Image<P>, f: P, sx: int, sy: int, st: Seq<Ent>, y: int, dy: int, X1: int, x: int, x1: int, x2: int)
  requires sound(o, im, f, sx, sy), ok1(o, im, sx, sy, st, y, dy, x, x1, x2, x, false, x1 > x), tgt(im, o.px(sx, sy), x1, y), put_of(im, im2, x1, y, f),
    dy == 1 || dy == -1, x <= x1, X1 <= x1, x1 > x ==> filled(o, im, x1 - 1, y), x1 == x ==> !tgt(im, o.px(sx, sy), x - 1, y), x1 > x2 ==> x1 > x,
    x1 <= x2 ==> region(o, sx, sy, x1, y - dy) || (x1 == sx && y == sy), behind(im, o.px(sx, sy), st, X1, x2, y - dy),
  ensures sound(o, im2, f, sx, sy), filled(o, im2, x1, y), ok1(o, im2, sx, sy, st, y, dy, x, x1 + 1, x2, x, false, true), behind(im2, o.px(sx, sy), st, X1, x2, y - dy),
    forall|a: int, b: int| filled(o, im, a, b) ==> #[trigger] filled(o, im2, a, b), forall|a: int, b: int| #[trigger] tgt(im2, o.px(sx, sy), a, b) ==> tgt(im, o.px(sx, sy), a, b), 
{
  let t = o.px(sx, sy);
  assert(im.px(x1, y) == o.px(x1, y));
  if x1 > x2 || x1 > x { assert(filled(o, im, x1 - 1, y)); assert(im.px(x1 - 1, y) != o.px(x1 - 1, y)); lemma_region_step(o, sx, sy, x1 - 1, y, x1, y); }
  else if region(o, sx, sy, x1, y - dy) { lemma_region_step(o, sx, sy, x1, y - dy, x1, y); } else { lemma_seed(o, sx, sy); }
  assert(region(o, sx, sy, x1, y));
  assert(sound(o, im2, f, sx, sy));
  assert forall|a: int, b: int| #[trigger] tgt(im2, t, a, b) implies tgt(im, t, a, b) && !(a == x1 && b == y) by {}
  assert forall|a: int, b: int| filled(o, im, a, b) implies #[trigger] filled(o, im2, a, b) by { assert(im2.px(a, b) == if a == x1 && b == y { f } else { im.px(a, b) }); }
  assert(ok1(o, im2, sx, sy, st, y, dy, x, x1 + 1, x2, x, false, true)) by {
    reveal(ok1);
    assert forall|px: int, py: int, qx: int, qy: int| #[trigger] filled(o, im2, px, py) && #[trigger] tgt(im2, t, qx, qy) && adj(px, py, qx, qy) implies
      pend(st, y, dy, x, x1 + 1, x2, x, qx, qy) || (qx == x1 + 1 && qy == y && px == x1 && py == y) by {
      assert(tgt(im, t, qx, qy));
      if px == x1 && py == y { 
        if qx == x1 - 1 { if x1 > x { assert(filled(o, im, x1 - 1, y)); assert(im.px(x1 - 1, y) != o.px(x1 - 1, y)); assert(im.px(x1 - 1, y) == f); assert(false); } else { assert(false); } }
        else if qx == x1 + 1 {}
        else if qy == y + dy { }
        else { assert(qy == y - dy && qx == x1); if x1 <= x2 { assert(tgt(im, t, x1, y - dy)); assert(cov(st, x1, y - dy)); } }
      } else { assert(im2.px(px, py) == im.px(px, py)); assert(filled(o, im, px, py)); }
    }
    assert forall|k: int| 0 <= k < st.len() implies #[trigger] behind_p(im2, t, st, st[k], y, dy, x, x1 + 1, x2, x) by { assert(behind_p(im, t, st, st[k], y, dy, x, x1, x2, x)); 
      let e = st[k]; assert forall|q: int| e.0 <= q <= e.1 && #[trigger] tgt(im2, t, q, e.2 - e.3) implies pend(st, y, dy, x, x1 + 1, x2, x, q, e.2 - e.3) by { assert(tgt(im, t, q, e.2 - e.3)); } }
  }
}
pub proof fn lemma_left<P>(o: &Image<P>, im: &Image<P>, im2: &Image<P>, f: P, sx: int, sy: int, st: Seq<Ent>, y: int, dy: int, x: int, x1: int, x2: int)
  requires sound(o, im, f, sx, sy), ok1(o, im, sx, sy, st, y, dy, x, x1, x2, x1, x < x1, false), tgt(im, o.px(sx, sy), x - 1, y), put_of(im, im2, x - 1, y, f),
    dy == 1 || dy == -1, x <= x1 <= x2, region(o, sx, sy, x, y), x < x1 ==> filled(o, im, x, y), behind(im, o.px(sx, sy), st, x1, x2, y - dy),
  ensures sound(o, im2, f, sx, sy), filled(o, im2, x - 1, y), region(o, sx, sy, x - 1, y), ok1(o, im2, sx, sy, st, y, dy, x - 1, x1, x2, x1, true, false), behind(im2, o.px(sx, sy), st, x1, x2, y - dy),
    forall|a: int, b: int| filled(o, im, a, b) ==> #[trigger] filled(o, im2, a, b), forall|a: int, b: int| #[trigger] tgt(im2, o.px(sx, sy), a, b) ==> tgt(im, o.px(sx, sy), a, b), tgt(im, o.px(sx, sy), x1, y) ==> tgt(im2, o.px(sx, sy), x1, y),
{
  let t = o.px(sx, sy);
  assert(im.px(x - 1, y) == o.px(x - 1, y));
  lemma_region_step(o, sx, sy, x, y, x - 1, y);
  assert(sound(o, im2, f, sx, sy));
  assert forall|a: int, b: int| #[trigger] tgt(im2, t, a, b) implies tgt(im, t, a, b) && !(a == x - 1 && b == y) by {}
  assert forall|a: int, b: int| filled(o, im, a, b) implies #[trigger] filled(o, im2, a, b) by { assert(im2.px(a, b) == if a == x - 1 && b == y { f } else { im.px(a, b) }); }
  assert(ok1(o, im2, sx, sy, st, y, dy, x - 1, x1, x2, x1, true, false)) by {
    reveal(ok1);
    assert forall|px: int, py: int, qx: int, qy: int| #[trigger] filled(o, im2, px, py) && #[trigger] tgt(im2, t, qx, qy) && adj(px, py, qx, qy) implies
      pend(st, y, dy, x - 1, x1, x2, x1, qx, qy) || (qx == x - 2 && qy == y && px == x - 1 && py == y) by {
      assert(tgt(im, t, qx, qy));
      if px == x - 1 && py == y { 
        if qx == x { if x < x1 { assert(filled(o, im, x, y)); assert(im.px(x, y) == f); assert(false); } else { assert(x1 <= qx <= x2); } }
      } else { assert(im2.px(px, py) == im.px(px, py)); assert(filled(o, im, px, py)); }
    }
    assert forall|k: int| 0 <= k < st.len() implies #[trigger] behind_p(im2, t, st, st[k], y, dy, x - 1, x1, x2, x1) by { assert(behind_p(im, t, st, st[k], y, dy, x, x1, x2, x1)); 
      let e = st[k]; assert forall|q: int| e.0 <= q <= e.1 && #[trigger] tgt(im2, t, q, e.2 - e.3) implies pend(st, y, dy, x - 1, x1, x2, x1, q, e.2 - e.3) by { assert(tgt(im, t, q, e.2 - e.3)); } }
  }
}
/// pushing an entry whose cells behind are all filled
pub proof fn lemma_push<P>(o: &Image<P>, im: &Image<P>, f: P, sx: int, sy: int, st: Seq<Ent>, e: Ent, y: int, dy: int, x: int, x1: int, x2: int, bh: int, hl: bool, hr: bool, X1: int)
  requires sound(o, im, f, sx, sy), stack_ok(o, sx, sy, st), ok1(o, im, sx, sy, st, y, dy, x, x1, x2, bh, hl, hr), 0 <= e.0 <= e.1 < o.w(), -1 <= e.2 <= o.h(), e.3 == 1 || e.3 == -1,
    forall|q: int| e.0 <= q <= e.1 ==> #[trigger] filled(o, im, q, e.2 - e.3), behind(im, o.px(sx, sy), st, X1, x2, y - dy),
  ensures stack_ok(o, sx, sy, st.push(e)), ok1(o, im, sx, sy, st.push(e), y, dy, x, x1, x2, bh, hl, hr), behind(im, o.px(sx, sy), st.push(e), X1, x2, y - dy),
    forall|q: int| e.0 <= q <= e.1 ==> #[trigger] cov(st.push(e), q, e.2 as int),
{
  let t = o.px(sx, sy); let n = st.push(e);
  assert(ent_ok(o, sx, sy, e)) by { assert forall|q: int| e.0 <= q <= e.1 implies #[trigger] region(o, sx, sy, q, e.2 - e.3) by { assert(filled(o, im, q, e.2 - e.3)); assert(im.px(q, e.2 - e.3) != o.px(q, e.2 - e.3)); } }
  assert forall|k: int| 0 <= k < n.len() implies ent_ok(o, sx, sy, #[trigger] n[k]) by { if k < st.len() { reveal(stack_ok); assert(ent_ok(o, sx, sy, st[k])); } }
  assert(stack_ok(o, sx, sy, n)) by { reveal(stack_ok); }
  assert forall|a: int, b: int| cov(st, a, b) implies #[trigger] cov(n, a, b) by { let k = choose|k: int| 0 <= k < st.len() && hits(#[trigger] st[k], a, b); assert(n[k] == st[k]); }
  assert forall|q: int| e.0 <= q <= e.1 implies #[trigger] cov(n, q, e.2 as int) by { assert(n[st.len() as int] == e); }
  assert(ok1(o, im, sx, sy, n, y, dy, x, x1, x2, bh, hl, hr)) by { reveal(ok1);
    assert forall|k: int| 0 <= k < n.len() implies #[trigger] behind_p(im, t, n, n[k], y, dy, x, x1, x2, bh) by {
      if k < st.len() { assert(behind_p(im, t, st, st[k], y, dy, x, x1, x2, bh)); }
      else { assert forall|q: int| e.0 <= q <= e.1 && #[trigger] tgt(im, t, q, e.2 - e.3) implies false by { assert(filled(o, im, q, e.2 - e.3)); assert(im.px(q, e.2 - e.3) == f); } } } }
}
pub open spec fn covs(st: Seq<Ent>, a: int, b: int, row: int) -> bool { forall|q: int| a <= q < b ==> #[trigger] cov(st, q, row) }
/// dropping obligations that are covered by the stack or no longer apply
pub proof fn lemma_weaken<P>(o: &Image<P>, im: &Image<P>, sx: int, sy: int, st: Seq<Ent>, y: int, dy: int, x: int, x1: int, x2: int, bh: int, hl: bool, hr: bool, nx: int, nx1: int, nbh: int)
  requires ok1(o, im, sx, sy, st, y, dy, x, x1, x2, bh, hl, hr), hl ==> !tgt(im, o.px(sx, sy), x - 1, y), hr ==> !tgt(im, o.px(sx, sy), x1, y),
    forall|q: int| #![trigger tgt(im, o.px(sx, sy), q, y)] x1 <= q <= x2 && !(nx1 <= q) ==> !tgt(im, o.px(sx, sy), q, y),
    !(nx == x && nx1 == x1) ==> covs(st, x, x1, y + dy), (nx1 == x1 && nx <= x) || covs(st, if x > x2 { x } else { x2 + 1 }, x1, y - dy), (nx == x && nbh == bh) || covs(st, x, bh, y - dy),
  ensures ok1(o, im, sx, sy, st, y, dy, nx, nx1, x2, nbh, false, false)
{ reveal(ok1); let t = o.px(sx, sy);
  assert forall|qx: int, qy: int| #[trigger] tgt(im, t, qx, qy) && pend(st, y, dy, x, x1, x2, bh, qx, qy) implies pend(st, y, dy, nx, nx1, x2, nbh, qx, qy) by { let a = cov(st, qx, y + dy); let b = cov(st, qx, y - dy); }
  assert forall|k: int| 0 <= k < st.len() implies #[trigger] behind_p(im, t, st, st[k], y, dy, nx, nx1, x2, nbh) by { assert(behind_p(im, t, st, st[k], y, dy, x, x1, x2, bh)); }
}
/// number of pixels of colour t among the first n in row-major order
pub open spec fn cnt<P>(im: &Image<P>, t: P, n: int) -> nat decreases n { if n <= 0 { 0 } else { cnt(im, t, n - 1) + (if im.pk(n - 1) == t { 1nat } else { 0 }) } }
pub open spec fn left_to_do<P>(im: &Image<P>, t: P) -> nat { cnt(im, t, im.np()) }
pub proof fn lemma_cnt<P>(im: &Image<P>, im2: &Image<P>, t: P, f: P, a: int, b: int, n: int)
  requires put_of(im, im2, a, b, f), f != t, tgt(im, t, a, b), 0 <= n <= im.np()
  ensures cnt(im2, t, n) + (if b * im.w() + a < n { 1int } else { 0 }) == cnt(im, t, n)
  decreases n
{
  if n > 0 { lemma_cnt(im, im2, t, f, a, b, n - 1); let k = n - 1; lemma_kp(im, k); let i = k % (im.w() as int); let j = k / (im.w() as int);
    lemma_fundamental_div_mod(k, im.w() as int); assert(im.w() * j == j * im.w()) by(nonlinear_arith);
    lemma_pk(im, i, j); lemma_pk(im2, i, j); assert(j * im.w() + i == k);
    lemma_pk(im, a, b); lemma_pk(im2, a, b);
    if i == a && j == b { } else { if b * im.w() + a == k { assert(i == a && j == b) by { lemma_fundamental_div_mod_converse(k, im.w() as int, b, a); } } }
    assert(im2.px(i, j) == if i == a && j == b { f } else { im.px(i, j) });
  }
}
pub proof fn lemma_less<P>(im: &Image<P>, im2: &Image<P>, t: P, f: P, a: int, b: int)
  requires put_of(im, im2, a, b, f), f != t, tgt(im, t, a, b)
  ensures left_to_do(im2, t) + 1 == left_to_do(im, t)
{ lemma_cnt(im, im2, t, f, a, b, im.np()); lemma_pk(im, a, b); }
/// nothing pending any more: the filled set is closed, so it is the whole region
pub proof fn lemma_all<P>(o: &Image<P>, im: &Image<P>, f: P, sx: int, sy: int, n: nat, x: int, y: int)
  requires sound(o, im, f, sx, sy), ok1(o, im, sx, sy, Seq::empty(), -9, 1, 0, 0, -1, 0, false, false), within(o, sx, sy, n, x, y)
  ensures filled(o, im, x, y)
  decreases n
{
  let t = o.px(sx, sy);
  if !filled(o, im, x, y) { assert(im.px(x, y) == t); assert(tgt(im, t, x, y));
    reveal(ok1);
    if n == 0 { assert(tgt(im, t, sx, sy)); assert(pend(Seq::empty(), -9, 1, 0, 0, -1, 0, sx, sy)); assert(false); }
    else { let m = (n - 1) as nat;
      if within(o, sx, sy, m, x, y) { lemma_all(o, im, f, sx, sy, m, x, y); }
      else { let (a, b) = if within(o, sx, sy, m, x - 1, y) { (x - 1, y) } else if within(o, sx, sy, m, x + 1, y) { (x + 1, y) } else if within(o, sx, sy, m, x, y - 1) { (x, y - 1) } else { (x, y + 1) };
        lemma_all(o, im, f, sx, sy, m, a, b); assert(filled(o, im, a, b) && tgt(im, t, x, y) && adj(a, b, x, y)); assert(pend(Seq::empty(), -9, 1, 0, 0, -1, 0, x, y)); assert(false); } }
  }
}
pub proof fn lemma_within_ext<P>(o: &Image<P>, c: &Image<P>, sx: int, sy: int, n: nat, x: int, y: int)
  requires o.same_dims(c), forall|a: int, b: int| o.px(a, b) == #[trigger] c.px(a, b)
  ensures within(o, sx, sy, n, x, y) == within(c, sx, sy, n, x, y)
  decreases n
{ assert(o.px(x, y) == c.px(x, y) && o.px(sx, sy) == c.px(sx, sy));
  if n > 0 { let m = (n - 1) as nat; lemma_within_ext(o, c, sx, sy, m, x, y); lemma_within_ext(o, c, sx, sy, m, x - 1, y); lemma_within_ext(o, c, sx, sy, m, x + 1, y); lemma_within_ext(o, c, sx, sy, m, x, y - 1); lemma_within_ext(o, c, sx, sy, m, x, y + 1); } }
pub proof fn lemma_region_ext<P>(o: &Image<P>, c: &Image<P>, sx: int, sy: int)
  requires o.same_dims(c), forall|a: int, b: int| o.px(a, b) == #[trigger] c.px(a, b)
  ensures forall|x: int, y: int| region(o, sx, sy, x, y) == #[trigger] region(c, sx, sy, x, y)
{ assert forall|x: int, y: int| region(o, sx, sy, x, y) == #[trigger] region(c, sx, sy, x, y) by {
    if region(o, sx, sy, x, y) { let n = choose|n: nat| #[trigger] within(o, sx, sy, n, x, y); lemma_within_ext(o, c, sx, sy, n, x, y); }
    if region(c, sx, sy, x, y) { let n = choose|n: nat| #[trigger] within(c, sx, sy, n, x, y); lemma_within_ext(o, c, sx, sy, n, x, y); } } }
/// exactly the region is recoloured
pub open spec fn flooded<P>(o: &Image<P>, im: &Image<P>, f: P, sx: int, sy: int) -> bool {
  im.same_dims(o) && forall|x: int, y: int| o.inb(x, y) ==> #[trigger] im.px(x, y) == (if region(o, sx, sy, x, y) { f } else { o.px(x, y) })
}
@@ fn drawing/fill.rs inside
@ sigsub Pixel + PartialEq =>> Pixel
@ spec
  requires image.w() <= i32::MAX, image.h() <= i32::MAX,
  ensures r == tgt(image, target_pixel, x as int, y as int),
@ subst
*image.get_pixel(x, y) == target_pixel
=>> peq(image.get_pixel(x, y), &target_pixel)
@@ fn drawing/fill.rs flood_fill
@ sigsub Pixel + PartialEq =>> Pixel
@ spec
  requires image.inb(x as int, y as int), image.w() < i32::MAX, image.h() < i32::MAX,
  ensures flooded(image, &r, fill_with, x as int, y as int),
@ before flood_fill_mut(&mut filled_image, x, y, fill_with)
  let ghost c = filled_image;
@ tail
  proof { lemma_region_ext(image, &c, x as int, y as int); }
@@ fn drawing/fill.rs flood_fill_mut
@ opts
#[verifier::loop_isolation(false)]
#[verifier::rlimit(80)]
#[verifier::allow_complex_invariants]
@ sigsub Pixel + PartialEq =>> Pixel
@ spec
  requires old(image).inb(x as int, y as int), old(image).w() < i32::MAX, old(image).h() < i32::MAX,
  ensures flooded(old(image), final(image), fill_with, x as int, y as int),
@ begin
  let ghost o = *image; let ghost sx = x as int; let ghost sy = y as int; let ghost t = o.px(sx, sy); let ghost f = fill_with;
@ subst
if target == fill_with {
=>> if peq(&target, &fill_with) {
   proof { assert forall|x: int, y: int| o.inb(x, y) implies #[trigger] image.px(x, y) == (if region(&o, sx, sy, x, y) { f } else { o.px(x, y) }) by { if region(&o, sx, sy, x, y) { let n = choose|n: nat| #[trigger] within(&o, sx, sy, n, x, y); } } }
@ subst
let mut stack = Vec::new();
=>> let mut stack: Vec<(i32, i32, i32, i32)> = Vec::new();
@ subst
while let Some((x1, x2, y, dy)) = stack.pop() {
        let mut x1 = x1;
        let mut x = x1;
=>>
    proof {
      let st = stack@; lemma_seed(&o, sx, sy);
      assert(st[0] == (sx as i32, sx as i32, sy as i32, 1i32)); assert(st[1] == (sx as i32, sx as i32, (sy - 1) as i32, -1i32));
      assert(stack_ok(&o, sx, sy, st)) by { reveal(stack_ok); assert(ent_ok(&o, sx, sy, st[0])); assert(ent_ok(&o, sx, sy, st[1])); }
      assert(hits(st[0], sx, sy) && hits(st[1], sx, sy - 1)); assert(cov(st, sx, sy) && cov(st, sx, sy - 1));
      assert(ok1(&o, image, sx, sy, st, -9, 1, 0, 0, -1, 0, false, false)) by { reveal(ok1); assert(behind_p(image, t, st, st[0], -9, 1, 0, 0, -1, 0)); assert(behind_p(image, t, st, st[1], -9, 1, 0, 0, -1, 0)); }
      assert(sound(&o, image, f, sx, sy)); 
    }
    loop
      invariant target == t, t != f, o.w() < i32::MAX, o.h() < i32::MAX, sound(&o, image, f, sx, sy), stack_ok(&o, sx, sy, stack@), ok1(&o, image, sx, sy, stack@, -9, 1, 0, 0, -1, 0, false, false),
      ensures stack@.len() == 0,
      decreases left_to_do(image, t), stack@.len(),
    {
        let ghost st0 = stack@; let ghost c0 = left_to_do(image, t);
        let (x1, x2, y, dy) = match stack.pop() { Some(top) => top, None => { break; } };
        proof { lemma_pop(&o, image, sx, sy, st0); assert(stack@ == st0.drop_last()); }
        let ghost s0 = stack@; let ghost e = st0[st0.len() - 1]; let ghost X1 = x1 as int;
        let mut x1 = x1;
        let mut x = x1;
@ loops 5
@ loop 0
  invariant image.same_dims(&o), x <= x1, 0 <= x, x1 == X1, sound(&o, image, f, sx, sy), stack_ok(&o, sx, sy, stack@), ok1(&o, image, sx, sy, stack@, y as int, dy as int, x as int, x1 as int, x2 as int, x1 as int, x < x1, false),
    region(&o, sx, sy, x as int, y as int), x < x1 ==> filled(&o, image, x as int, y as int), behind(image, t, stack@, X1, x2 as int, y - dy), tgt(image, t, x1 as int, y as int),
    forall|q: int| x <= q < x1 ==> #[trigger] filled(&o, image, q, y as int), x < x1 ==> left_to_do(image, t) < c0, x == x1 ==> left_to_do(image, t) == c0,
  decreases x,
@ loop 0 before
  proof { if !region(&o, sx, sy, x1 as int, y - dy) { lemma_seed(&o, sx, sy); } else { lemma_region_step(&o, sx, sy, x1 as int, y - dy, x1 as int, y as int); } assert(tgt(image, t, x1 as int, y as int)); }
@ loop 0 begin
  let ghost i0 = *image;
@ loop 0 end
  proof { assert(put_of(&i0, image, x as int, y as int, f)); lemma_left(&o, &i0, image, f, sx, sy, stack@, y as int, dy as int, x + 1, x1 as int, x2 as int); lemma_less(&i0, image, t, f, x as int, y as int); }
@ subst
if x < x1 {
                stack.push((x, x1 - 1, y - dy, -dy))
            }
=>> let ghost st1 = stack@;
            if x < x1 {
                stack.push((x, x1 - 1, y - dy, -dy));
                proof { lemma_push(&o, image, f, sx, sy, st1, (x, (x1 - 1) as i32, (y - dy) as i32, (-dy) as i32), y as int, dy as int, x as int, x1 as int, x2 as int, x1 as int, true, false, X1);
                  let yb = y - dy; assert forall|q: int| x <= q < x1 implies #[trigger] cov(stack@, q, yb) by {} assert(covs(stack@, x as int, x1 as int, yb));
                  lemma_weaken(&o, image, sx, sy, stack@, y as int, dy as int, x as int, x1 as int, x2 as int, x1 as int, true, false, x as int, x1 as int, x as int); }
            } else { proof { lemma_weaken(&o, image, sx, sy, stack@, y as int, dy as int, x as int, x1 as int, x2 as int, x1 as int, false, false, x as int, x1 as int, x as int); } }
@ loop 1
  invariant image.same_dims(&o), X1 <= x1, 0 <= x <= x1, x1 <= o.w() + 1, sound(&o, image, f, sx, sy), stack_ok(&o, sx, sy, stack@), ok1(&o, image, sx, sy, stack@, y as int, dy as int, x as int, x1 as int, x2 as int, x as int, false, false),
    behind(image, t, stack@, X1, x2 as int, y - dy), x < x1 || tgt(image, t, x1 as int, y as int) ==> !tgt(image, t, x - 1, y as int), x < x1 ==> x1 <= x2,
    forall|q: int| x <= q < x1 ==> #[trigger] filled(&o, image, q, y as int), x < x1 ==> left_to_do(image, t) < c0, left_to_do(image, t) < c0 || (left_to_do(image, t) == c0 && stack@ == s0),
  decreases if x1 <= x2 { x2 + 1 - x1 } else { 0 },
@ loop 1 begin
  let ghost x10 = x1 as int;
@ loop 2
  invariant image.same_dims(&o), x10 <= x1, x <= x1 <= o.w(), sound(&o, image, f, sx, sy), stack_ok(&o, sx, sy, stack@), ok1(&o, image, sx, sy, stack@, y as int, dy as int, x as int, x1 as int, x2 as int, x as int, false, x1 > x),
    behind(image, t, stack@, X1, x2 as int, y - dy), x < x1 || tgt(image, t, x1 as int, y as int) ==> !tgt(image, t, x - 1, y as int), x1 > x2 ==> x1 > x,
    forall|q: int| x <= q < x1 ==> #[trigger] filled(&o, image, q, y as int), x < x1 ==> left_to_do(image, t) < c0, left_to_do(image, t) < c0 || (left_to_do(image, t) == c0 && stack@ == s0),
  decreases o.w() - x1,
@ loop 2 before
  proof { if x1 > x { lemma_hr(&o, image, sx, sy, stack@, y as int, dy as int, x as int, x1 as int, x2 as int, x as int); } }
@ loop 2 begin
  let ghost i0 = *image;
@ loop 2 end
  proof { assert(put_of(&i0, image, x1 - 1, y as int, f)); assert(x1 - 1 > x ==> filled(&o, &i0, x1 - 2, y as int)); lemma_right(&o, &i0, image, f, sx, sy, stack@, y as int, dy as int, X1, x as int, x1 - 1, x2 as int); lemma_less(&i0, image, t, f, x1 - 1, y as int); }
@ subst
if x1 > x {
                stack.push((x, x1 - 1, y + dy, dy))
            }
=>> let ghost st2 = stack@;
            if x1 > x {
                assert(filled(&o, image, x as int, y as int));
                stack.push((x, x1 - 1, y + dy, dy));
                proof { assert(x1 <= o.w()); lemma_push(&o, image, f, sx, sy, st2, (x, (x1 - 1) as i32, (y + dy) as i32, dy), y as int, dy as int, x as int, x1 as int, x2 as int, x as int, false, true, X1); let yf = y + dy; assert forall|q: int| x <= q < x1 implies #[trigger] cov(stack@, q, yf) by {} assert(covs(stack@, x as int, x1 as int, yf)); }
            }
            let ghost st3 = stack@;
@ subst
if x1 - 1 > x2 {
                stack.push((x2 + 1, x1 - 1, y - dy, -dy))
            }
=>> if x1 - 1 > x2 {
                stack.push((x2 + 1, x1 - 1, y - dy, -dy));
                proof { lemma_push(&o, image, f, sx, sy, st3, ((x2 + 1) as i32, (x1 - 1) as i32, (y - dy) as i32, (-dy) as i32), y as int, dy as int, x as int, x1 as int, x2 as int, x as int, false, x1 > x, X1);
                  let yf = y + dy; assert forall|q: int| x <= q < x1 implies #[trigger] cov(stack@, q, yf) by { assert(cov(st3, q, yf)); let k = choose|k: int| 0 <= k < st3.len() && hits(#[trigger] st3[k], q, yf); assert(stack@[k] == st3[k]); } assert(covs(stack@, x as int, x1 as int, yf));
                  let yb = y - dy; assert forall|q: int| x2 + 1 <= q < x1 implies #[trigger] cov(stack@, q, yb) by {} assert(covs(stack@, x2 + 1, x1 as int, yb)); }
            }
            proof { lemma_weaken(&o, image, sx, sy, stack@, y as int, dy as int, x as int, x1 as int, x2 as int, x as int, false, x1 > x, x1 + 1, x1 + 1, x1 + 1); }
@ loop 3
  invariant x10 < x1 <= o.w() + 1, x1 <= x2 || x1 <= x2 + 1 || true, ok1(&o, image, sx, sy, stack@, y as int, dy as int, x1 as int, x1 as int, x2 as int, x1 as int, false, false), !tgt(image, t, x1 - 1, y as int),
  decreases if x1 <= x2 { x2 + 1 - x1 } else { 0 },
@ loop 3 end
  proof { lemma_weaken(&o, image, sx, sy, stack@, y as int, dy as int, x1 - 1, x1 - 1, x2 as int, x1 - 1, false, false, x1 as int, x1 as int, x1 as int); }
@ loop 1 after
  proof { assert(x1 > x2); if x < x1 { assert(false); } lemma_done(&o, image, sx, sy, stack@, y as int, dy as int, x1 as int, x2 as int); }
@ end
  proof { assert(stack@ =~= Seq::<Ent>::empty());
    assert forall|x: int, y: int| o.inb(x, y) implies #[trigger] image.px(x, y) == (if region(&o, sx, sy, x, y) { f } else { o.px(x, y) }) by {
      if region(&o, sx, sy, x, y) { let n = choose|n: nat| #[trigger] within(&o, sx, sy, n, x, y); lemma_all(&o, image, f, sx, sy, n, x, y); } } }
@@ text
pub proof fn lemma_hr<P>(o: &Image<P>, im: &Image<P>, sx: int, sy: int, st: Seq<Ent>, y: int, dy: int, x: int, x1: int, x2: int, bh: int)
  requires ok1(o, im, sx, sy, st, y, dy, x, x1, x2, bh, false, false)
  ensures ok1(o, im, sx, sy, st, y, dy, x, x1, x2, bh, false, true)
{ reveal(ok1); }
