@@ include prelude.rs
@@ include conn.vs
@@ include forest.vs
@@ text
/// `==` of pixels (structural equality; true of every integer-valued pixel type)
#[verifier::external_body]
pub fn peq<P>(a: &P, b: &P) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub fn vec_of32(x: u32, n: usize) -> (r: Vec<u32>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{ let mut v: Vec<u32> = Vec::new(); let mut i: usize = 0;
  while i < n invariant v@.len() == i, i <= n, forall|k: int| 0 <= k < i ==> v@[k] == x decreases n - i { v.push(x); i += 1; } v }
pub fn unchecked_get32(v: &Vec<u32>, i: usize) -> (r: u32) requires i < v@.len() ensures r == v@[i as int] { v[i] }
pub fn unchecked_set32(v: &mut Vec<u32>, i: usize, x: u32) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { v[i] = x; }
/// pixels are numbered in raster order; foreground pixels differ from the background value
pub open spec fn fg<P>(im: &Image<P>, bg: P, k: int) -> bool { 0 <= k < im.np() && im.pk(k) != bg }
pub open spec fn near(ax: int, ay: int, bx: int, by: int, eight: bool) -> bool { -1 <= ax - bx <= 1 && -1 <= ay - by <= 1 && !(ax == bx && ay == by) && (eight || ax == bx || ay == by) }
/// neighbouring foreground pixels of equal value, both among the first n pixels
#[verifier::opaque]
pub open spec fn link<P>(im: &Image<P>, bg: P, eight: bool, n: int, a: int, b: int) -> bool {
  a < n && b < n && fg(im, bg, a) && fg(im, bg, b) && im.pk(a) == im.pk(b) && near(a % (im.w() as int), a / (im.w() as int), b % (im.w() as int), b / (im.w() as int), eight) }
pub open spec fn rel<P>(im: &Image<P>, bg: P, eight: bool, n: int) -> spec_fn(int, int) -> bool { |a: int, b: int| link(im, bg, eight, n, a, b) }
pub open spec fn lab(out: &Image<Luma<u32>>, k: int) -> int { out.pk(k).0@[0] as int }
pub open spec fn labs(out: &Image<Luma<u32>>) -> Seq<int> { Seq::new(out.np() as nat, |k: int| lab(out, k)) }
/// state of the first pass before pixel k
#[verifier::opaque]
pub open spec fn labelled<P>(im: &Image<P>, bg: P, eight: bool, l: Seq<int>, f: DisjointSetForest, next: int, k: int) -> bool {
  l.len() == im.np() && wf(f) && f.count == im.np() + 1 && 1 <= next <= k + 1 && 0 <= k <= im.np()
  && (forall|a: int| 0 <= a < k ==> if fg(im, bg, a) { 1 <= #[trigger] l[a] < next } else { l[a] == 0 })
  && (forall|a: int| k <= a < im.np() ==> #[trigger] l[a] == 0)
  && (forall|u: int, v: int| next <= u < f.count && 0 <= v < f.count && #[trigger] eqv(f, u, v) ==> u == v)
  && (forall|a: int, b: int| fg(im, bg, a) && fg(im, bg, b) && a < k && b < k ==> (#[trigger] eqv(f, l[a], l[b]) <==> conn(rel(im, bg, eight, k), a, b)))
}
pub open spec fn touch(f: DisjointSetForest, ls: Seq<int>, x: int) -> bool { exists|t: int| 0 <= t < ls.len() && eqv(f, x, #[trigger] ls[t]) }
/// g is f with the classes of ls merged
#[verifier::opaque]
pub open spec fn merged_by(f: DisjointSetForest, g: DisjointSetForest, ls: Seq<int>) -> bool {
  g.count == f.count && forall|x: int, y: int| 0 <= x < f.count && 0 <= y < f.count ==> (#[trigger] eqv(g, x, y) <==> eqv(f, x, y) || (touch(f, ls, x) && touch(f, ls, y)))
}
pub open spec fn unioned(f: DisjointSetForest, g: DisjointSetForest, i: int, j: int) -> bool {
  g.count == f.count && forall|x: int, y: int| 0 <= x < g.count && 0 <= y < g.count ==> (#[trigger] eqv(g, x, y) <==> eqv(f, x, y) || (eqv(f, x, i) && eqv(f, y, j)) || (eqv(f, x, j) && eqv(f, y, i)))
}
pub proof fn lemma_merge_one(f: DisjointSetForest, i: int) requires 0 <= i < f.count ensures merged_by(f, f, seq![i])
{ reveal(merged_by); let ls = seq![i]; assert forall|x: int, y: int| 0 <= x < f.count && 0 <= y < f.count implies (#[trigger] eqv(f, x, y) <==> eqv(f, x, y) || (touch(f, ls, x) && touch(f, ls, y))) by {
   if touch(f, ls, x) && touch(f, ls, y) { assert(eqv(f, x, ls[0]) && eqv(f, y, ls[0])); } } }
pub proof fn lemma_touch_push(f: DisjointSetForest, ls: Seq<int>, j: int, x: int) ensures touch(f, ls.push(j), x) <==> touch(f, ls, x) || eqv(f, x, j)
{ let q = ls.push(j);
  if touch(f, ls, x) { let t = choose|t: int| 0 <= t < ls.len() && eqv(f, x, #[trigger] ls[t]); assert(q[t] == ls[t]); }
  if eqv(f, x, j) { assert(q[ls.len() as int] == j); }
  if touch(f, q, x) { let t = choose|t: int| 0 <= t < q.len() && eqv(f, x, #[trigger] q[t]); if t < ls.len() { assert(q[t] == ls[t]); } } }
pub proof fn lemma_merge_step(f: DisjointSetForest, g: DisjointSetForest, h: DisjointSetForest, ls: Seq<int>, j: int)
  requires merged_by(f, g, ls), ls.len() > 0, 0 <= ls[0] < f.count, 0 <= j < f.count, unioned(g, h, ls[0], j)
  ensures merged_by(f, h, ls.push(j))
{
  reveal(merged_by); let i = ls[0]; assert(eqv(f, i, ls[0])); assert(touch(f, ls, i));
  assert forall|x: int, y: int| 0 <= x < f.count && 0 <= y < f.count implies (#[trigger] eqv(h, x, y) <==> eqv(f, x, y) || (touch(f, ls.push(j), x) && touch(f, ls.push(j), y))) by {
    lemma_touch_push(f, ls, j, x); lemma_touch_push(f, ls, j, y);
    assert(eqv(g, x, y) <==> eqv(f, x, y) || (touch(f, ls, x) && touch(f, ls, y)));
    assert(eqv(g, x, i) <==> eqv(f, x, i) || touch(f, ls, x)); assert(eqv(g, y, i) <==> eqv(f, y, i) || touch(f, ls, y));
    if eqv(f, x, i) { assert(eqv(f, x, ls[0])); } if eqv(f, y, i) { assert(eqv(f, y, ls[0])); }
    assert(eqv(g, x, j) <==> eqv(f, x, j) || (touch(f, ls, x) && touch(f, ls, j)));
    assert(eqv(g, y, j) <==> eqv(f, y, j) || (touch(f, ls, y) && touch(f, ls, j)));
    lemma_touch_eq(f, ls, x, j); lemma_touch_eq(f, ls, y, j);
  }
}
pub proof fn lemma_touch_eq(f: DisjointSetForest, ls: Seq<int>, x: int, j: int) ensures eqv(f, x, j) ==> touch(f, ls, x) == touch(f, ls, j)
{ if eqv(f, x, j) { if touch(f, ls, x) { let t = choose|t: int| 0 <= t < ls.len() && eqv(f, x, #[trigger] ls[t]); assert(eqv(f, j, ls[t])); }
   if touch(f, ls, j) { let t = choose|t: int| 0 <= t < ls.len() && eqv(f, j, #[trigger] ls[t]); assert(eqv(f, x, ls[t])); } } }
pub proof fn lemma_link_sym<P>(im: &Image<P>, bg: P, eight: bool, n: int) ensures sym(rel(im, bg, eight, n)) { reveal(link); }
pub proof fn lemma_start<P>(im: &Image<P>, bg: P, eight: bool, l: Seq<int>, f: DisjointSetForest)
  requires l.len() == im.np(), wf(f), f.count == im.np() + 1, forall|i: int| 0 <= i < f.count ==> #[trigger] cls(f.parent@)[i] == i, forall|a: int| 0 <= a < im.np() ==> #[trigger] l[a] == 0
  ensures labelled(im, bg, eight, l, f, 1, 0)
{ reveal(labelled); assert forall|u: int, v: int| 1 <= u < f.count && 0 <= v < f.count && #[trigger] eqv(f, u, v) implies u == v by { assert(cls(f.parent@)[u] == u); assert(cls(f.parent@)[v] == v); } }
/// a background pixel changes nothing
pub proof fn lemma_bg<P>(im: &Image<P>, bg: P, eight: bool, l: Seq<int>, f: DisjointSetForest, next: int, k: int)
  requires labelled(im, bg, eight, l, f, next, k), k < im.np(), !fg(im, bg, k)
  ensures labelled(im, bg, eight, l, f, next, k + 1)
{
  reveal(labelled);
  let e = rel(im, bg, eight, k); let e2 = rel(im, bg, eight, k + 1);
  assert(sub(e, e2) && sub(e2, e)) by { reveal(link); }
  assert forall|a: int, b: int| fg(im, bg, a) && fg(im, bg, b) && a < k + 1 && b < k + 1 implies (#[trigger] eqv(f, l[a], l[b]) <==> conn(e2, a, b)) by {
    assert(a != k && b != k); if conn(e, a, b) { conn_mono(e, e2, a, b); } if conn(e2, a, b) { conn_mono(e2, e, a, b); } }
}
/// nbs are exactly the earlier pixels linked to pixel k
pub open spec fn nbs_ok<P>(im: &Image<P>, bg: P, eight: bool, k: int, nbs: Seq<int>) -> bool {
  (forall|t: int| 0 <= t < nbs.len() ==> (#[trigger] nbs[t]) < k && link(im, bg, eight, k + 1, k, nbs[t]))
  && (forall|b: int| b < k && #[trigger] link(im, bg, eight, k + 1, k, b) ==> exists|t: int| 0 <= t < nbs.len() && #[trigger] nbs[t] == b)
}
pub open spec fn nlabs(l: Seq<int>, nbs: Seq<int>) -> Seq<int> { Seq::new(nbs.len(), |t: int| l[nbs[t]]) }
pub open spec fn max2(a: int, b: int) -> int { if a < b { b } else { a } }
pub proof fn lemma_extend<P>(im: &Image<P>, bg: P, eight: bool, l: Seq<int>, f: DisjointSetForest, next: int, k: int, nbs: Seq<int>, lk: int, g: DisjointSetForest)
  requires labelled(im, bg, eight, l, f, next, k), k < im.np(), fg(im, bg, k), nbs_ok(im, bg, eight, k, nbs), wf(g), g.count == f.count,
    nbs.len() == 0 ==> lk == next && g == f,
    nbs.len() > 0 ==> (exists|t: int| 0 <= t < nbs.len() && lk == l[#[trigger] nbs[t]]) && merged_by(f, g, nlabs(l, nbs)),
  ensures labelled(im, bg, eight, l.update(k, lk), g, if nbs.len() == 0 { next + 1 } else { next }, k + 1)
{
  reveal(labelled); reveal(merged_by);
  let e = rel(im, bg, eight, k); let e2 = rel(im, bg, eight, k + 1); let l2 = l.update(k, lk); let ls = nlabs(l, nbs); let next2 = if nbs.len() == 0 { next + 1 } else { next };
  lemma_link_sym(im, bg, eight, k + 1); lemma_link_sym(im, bg, eight, k);
  assert(sub(e, e2)) by { reveal(link); }
  assert forall|a: int, b: int| #[trigger] e2(a, b) && a < k && b < k implies e(a, b) by { reveal(link); }
  assert forall|a: int, b: int| #[trigger] e2(a, b) implies fg(im, bg, a) && fg(im, bg, b) && a <= k && b <= k && a != b by { reveal(link); }
  assert forall|t: int| 0 <= t < nbs.len() implies fg(im, bg, #[trigger] nbs[t]) && nbs[t] < k && 1 <= l[nbs[t]] < next && e2(k, nbs[t]) by { assert(link(im, bg, eight, k + 1, k, nbs[t])); assert(e2(k, nbs[t])); }
  let t0 = if nbs.len() > 0 { choose|t: int| 0 <= t < nbs.len() && lk == l[#[trigger] nbs[t]] } else { 0 };
  assert forall|a: int| 0 <= a < k && fg(im, bg, a) implies 1 <= #[trigger] l2[a] < next by { assert(l2[a] == l[a]); }
  assert(1 <= lk < next2 && next2 <= k + 2);
  assert forall|u: int, v: int| next2 <= u < g.count && 0 <= v < g.count && #[trigger] eqv(g, u, v) implies u == v by {
    if nbs.len() > 0 { if !eqv(f, u, v) { let t = choose|t: int| 0 <= t < ls.len() && eqv(f, u, #[trigger] ls[t]); assert(ls[t] == l[nbs[t]]); assert(false); } } else { assert(eqv(f, u, v)); } }
  // linked => same class
  let c = |a: int| if fg(im, bg, a) && a <= k { cls(g.parent@)[l2[a]] } else { -1 };
  assert forall|a: int, b: int| fg(im, bg, a) && fg(im, bg, b) && a < k && b < k && eqv(f, l[a], l[b]) implies #[trigger] eqv(g, l2[a], l2[b]) by { assert(l2[a] == l[a] && l2[b] == l[b]); assert(1 <= l[a] < next && 1 <= l[b] < next); }
  assert forall|b: int| b < k && #[trigger] e2(k, b) implies eqv(g, lk, l[b]) by {
    assert(link(im, bg, eight, k + 1, k, b));
    let t = choose|t: int| 0 <= t < nbs.len() && #[trigger] nbs[t] == b; assert(ls[t] == l[b]); assert(ls[t0] == lk); assert(eqv(f, lk, ls[t0])); assert(eqv(f, l[b], ls[t])); assert(touch(f, ls, lk)); assert(touch(f, ls, l[b]));
    assert(1 <= l[b] < next); }
  assert(kept(e2, c)) by { assert forall|a: int, b: int| #[trigger] e2(a, b) implies c(a) == c(b) by {
    if a < k && b < k { assert(e(a, b)); conn_step(e, a, b); assert(eqv(f, l[a], l[b])); assert(eqv(g, l2[a], l2[b])); }
    else if a == k { assert(eqv(g, lk, l[b])); assert(l2[b] == l[b]); } else { assert(e2(b, a)); assert(eqv(g, lk, l[a])); assert(l2[a] == l[a]); } } }
  // same class => connected
  assert forall|a: int, b: int| fg(im, bg, a) && fg(im, bg, b) && a < k && b < k && eqv(g, l[a], l[b]) implies conn(e2, a, b) by { lemma_back(im, bg, eight, l, f, next, k, nbs, g, a, b); }
  assert forall|b: int| fg(im, bg, b) && b < k && eqv(g, lk, l[b]) implies conn(e2, k, b) by {
    if nbs.len() == 0 { assert(1 <= l[b] < next); assert(eqv(f, next, l[b])); assert(false); }
    else { let n0 = nbs[t0]; assert(eqv(g, l[n0], l[b])); lemma_back(im, bg, eight, l, f, next, k, nbs, g, n0, b); conn_step(e2, k, n0); conn_trans(e2, k, n0, b); } }
  assert forall|a: int, b: int| fg(im, bg, a) && fg(im, bg, b) && a < k + 1 && b < k + 1 implies (#[trigger] eqv(g, l2[a], l2[b]) <==> conn(e2, a, b)) by {
    if conn(e2, a, b) { conn_kept(e2, c, a, b); }
    if eqv(g, l2[a], l2[b]) {
      if a < k && b < k { assert(l2[a] == l[a] && l2[b] == l[b]); }
      else if a == k && b == k { conn_refl(e2, k); }
      else if a == k { assert(l2[b] == l[b]); assert(eqv(g, lk, l[b])); }
      else { assert(l2[a] == l[a]); assert(eqv(g, lk, l[a])); conn_sym(e2, k, a); }
    }
  }
}
pub proof fn lemma_back<P>(im: &Image<P>, bg: P, eight: bool, l: Seq<int>, f: DisjointSetForest, next: int, k: int, nbs: Seq<int>, g: DisjointSetForest, a: int, b: int)
  requires labelled(im, bg, eight, l, f, next, k), k < im.np(), fg(im, bg, k), nbs_ok(im, bg, eight, k, nbs), g.count == f.count,
    nbs.len() == 0 ==> g == f, nbs.len() > 0 ==> merged_by(f, g, nlabs(l, nbs)),
    fg(im, bg, a), fg(im, bg, b), a < k, b < k, eqv(g, l[a], l[b])
  ensures conn(rel(im, bg, eight, k + 1), a, b)
{
  reveal(labelled); reveal(merged_by); let e = rel(im, bg, eight, k); let e2 = rel(im, bg, eight, k + 1); let ls = nlabs(l, nbs);
  lemma_link_sym(im, bg, eight, k + 1);
  assert(sub(e, e2)) by { reveal(link); }
  assert(1 <= l[a] < next && 1 <= l[b] < next);
  if eqv(f, l[a], l[b]) { conn_mono(e, e2, a, b); }
  else {
    let t = choose|t: int| 0 <= t < ls.len() && eqv(f, l[a], #[trigger] ls[t]); let s = choose|s: int| 0 <= s < ls.len() && eqv(f, l[b], #[trigger] ls[s]);
    let p = nbs[t]; let q = nbs[s];
    assert(link(im, bg, eight, k + 1, k, p) && link(im, bg, eight, k + 1, k, q)); assert(p < k && q < k);
    assert(fg(im, bg, p) && fg(im, bg, q)) by { reveal(link); }
    assert(eqv(f, l[a], l[p])); assert(eqv(f, l[b], l[q]));
    conn_mono(e, e2, a, p); conn_mono(e, e2, b, q); conn_sym(e2, b, q);
    assert(e2(k, p)); assert(e2(k, q)); conn_step(e2, k, q); conn_step(e2, k, p); conn_sym(e2, k, p);
    conn_trans(e2, a, p, k); conn_trans(e2, a, k, q); conn_trans(e2, a, q, b);
  }
}
/// the earlier neighbours of (x, y)
pub proof fn lemma_nb<P>(im: &Image<P>, bg: P, eight: bool, x: int, y: int, dx: int, dy: int)
  requires im.inb(x, y), im.inb(x + dx, y + dy), im.px(x, y) != bg, near(x, y, x + dx, y + dy, eight), dy < 0 || (dy == 0 && dx < 0)
  ensures ({ let k = y * im.w() + x; let j = (y + dy) * im.w() + x + dx; 0 <= j < k < im.np() && im.pk(j) == im.px(x + dx, y + dy) && im.pk(k) == im.px(x, y) && (link(im, bg, eight, k + 1, k, j) <==> im.px(x, y) == im.px(x + dx, y + dy)) })
{
  reveal(link); lemma_pk(im, x, y); lemma_pk(im, x + dx, y + dy); lemma_coord(im.w() as int, x, y); lemma_coord(im.w() as int, x + dx, y + dy);
  assert((y + dy) * im.w() + x + dx < y * im.w() + x) by(nonlinear_arith) requires dy < 0 || (dy == 0 && dx < 0), dx <= 1, 0 <= x, x + dx < im.w(), dy >= -1, 0 <= y + dy, x < im.w();
}
pub proof fn lemma_coord(w: int, x: int, y: int) requires 0 <= x < w, 0 <= y ensures (y * w + x) % w == x, (y * w + x) / w == y { lemma_fundamental_div_mod_converse(y * w + x, w, y, x); }
/// every earlier pixel linked to (x, y) is its W, N, NW or NE neighbour
pub proof fn lemma_only<P>(im: &Image<P>, bg: P, eight: bool, x: int, y: int, j: int)
  requires im.inb(x, y), link(im, bg, eight, y * im.w() + x + 1, y * im.w() + x, j), j < y * im.w() + x
  ensures ({ let w = im.w() as int; let k = y * w + x;
    (x > 0 && j == k - 1) || (y > 0 && j == k - w) || (eight && y > 0 && x > 0 && j == k - w - 1) || (eight && y > 0 && x < w - 1 && j == k - w + 1) })
{
  reveal(link); let w = im.w() as int; lemma_coord(w, x, y); let jx = j % w; let jy = j / w; lemma_fundamental_div_mod(j, w); lemma_mod_bound(j, w);
  assert(jy * w == w * jy) by(nonlinear_arith);
  assert(jy >= 0) by { lemma_kp(im, j); }
  if jy == y { assert(jx < x) by(nonlinear_arith) requires jy * w + jx < y * w + x, jy == y; }
  else { assert(jy < y) by(nonlinear_arith) requires jy * w + jx < y * w + x, jy != y, 0 <= jx, x < w, w > 0; assert(jy == y - 1); assert((y - 1) * w == y * w - w) by(nonlinear_arith); }
}
// ---- second pass
pub open spec fn maxl(s: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { max2(maxl(s, n - 1), s[n - 1]) } }
pub proof fn lemma_maxl_ext(s: Seq<int>, t: Seq<int>, n: int) requires 0 <= n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i] ensures maxl(s, n) == maxl(t, n) decreases n { if n > 0 { lemma_maxl_ext(s, t, n - 1); } }
pub open spec fn rt(f: DisjointSetForest, l0: Seq<int>, a: int) -> int { cls(f.parent@)[l0[a]] }
#[verifier::opaque]
pub open spec fn relabelled<P>(im: &Image<P>, bg: P, l0: Seq<int>, f: DisjointSetForest, l: Seq<int>, ol: Seq<u32>, count: int, k: int) -> bool {
  l.len() == im.np() && l0.len() == im.np() && ol.len() == f.count && 0 <= k <= im.np() && count == maxl(l, k) + 1 && 1 <= count <= k + 1
  && (forall|a: int| k <= a < im.np() ==> #[trigger] l[a] == l0[a])
  && (forall|a: int| 0 <= a < k ==> if fg(im, bg, a) { #[trigger] l[a] == ol[rt(f, l0, a)] && 1 <= l[a] <= maxl(l, a) + 1 } else { l[a] == 0 })
  && (forall|r: int| 0 <= r < f.count ==> (#[trigger] ol[r]) < count)
  && (forall|r: int, s: int| 0 <= r < f.count && 0 <= s < f.count && #[trigger] ol[r] == #[trigger] ol[s] && ol[r] >= 1 ==> r == s)
}
pub proof fn lemma_re_start<P>(im: &Image<P>, bg: P, l0: Seq<int>, f: DisjointSetForest, ol: Seq<u32>)
  requires l0.len() == im.np(), ol.len() == f.count, forall|i: int| 0 <= i < ol.len() ==> #[trigger] ol[i] == 0 ensures relabelled(im, bg, l0, f, l0, ol, 1, 0) { reveal(relabelled); }
pub proof fn lemma_re_bg<P>(im: &Image<P>, bg: P, eight: bool, l0: Seq<int>, f: DisjointSetForest, f0: DisjointSetForest, next: int, l: Seq<int>, ol: Seq<u32>, count: int, k: int)
  requires relabelled(im, bg, l0, f, l, ol, count, k), labelled(im, bg, eight, l0, f0, next, im.np()), k < im.np(), !fg(im, bg, k)
  ensures relabelled(im, bg, l0, f, l, ol, count, k + 1) { reveal(relabelled); reveal(labelled); assert(l0[k] == 0); assert(l[k] == l0[k]); lemma_maxl_nonneg(im, bg, l0, f, l, ol, count, k, k); }
pub proof fn lemma_maxl_nonneg<P>(im: &Image<P>, bg: P, l0: Seq<int>, f: DisjointSetForest, l: Seq<int>, ol: Seq<u32>, count: int, k: int, n: int) ensures maxl(l, n) >= 0 decreases n { if n > 0 { lemma_maxl_nonneg(im, bg, l0, f, l, ol, count, k, n - 1); } }
pub proof fn lemma_re_fg<P>(im: &Image<P>, bg: P, l0: Seq<int>, f: DisjointSetForest, l: Seq<int>, ol: Seq<u32>, count: int, k: int, root: int, v: u32, ol2: Seq<u32>, count2: int)
  requires relabelled(im, bg, l0, f, l, ol, count, k), k < im.np(), fg(im, bg, k), root == rt(f, l0, k), 0 <= root < f.count, ol2 == ol.update(root, v),
    if ol[root] < 1 { v as int == count && count2 == count + 1 } else { v == ol[root] && count2 == count }
    , forall|a: int| 0 <= a < k && fg(im, bg, a) ==> 0 <= #[trigger] rt(f, l0, a) < f.count
  ensures relabelled(im, bg, l0, f, l.update(k, v as int), ol2, count2, k + 1)
{
  reveal(relabelled); let l2 = l.update(k, v as int);
  assert forall|n: int| 0 <= n <= k implies #[trigger] maxl(l2, n) == maxl(l, n) by { lemma_maxl_ext(l, l2, n); }
  assert(maxl(l2, k) == maxl(l, k)); assert(l2[k] == v as int);
  assert(maxl(l2, k + 1) == max2(maxl(l, k), v as int));
  assert(ol[root] < count);
  assert forall|a: int| 0 <= a < k + 1 implies if fg(im, bg, a) { #[trigger] l2[a] == ol2[rt(f, l0, a)] && 1 <= l2[a] <= maxl(l2, a) + 1 } else { l2[a] == 0 } by {
    if a < k { assert(l2[a] == l[a]); assert(maxl(l2, a) == maxl(l, a)); if fg(im, bg, a) { assert(0 <= rt(f, l0, a) < f.count); if rt(f, l0, a) == root { assert(ol[root] >= 1); } } } else { assert(maxl(l2, k) == maxl(l, k)); } }
  assert forall|r: int, s: int| 0 <= r < f.count && 0 <= s < f.count && #[trigger] ol2[r] == #[trigger] ol2[s] && ol2[r] >= 1 implies r == s by { if r == root && s != root { assert(ol[s] < count); if ol[root] >= 1 { assert(ol[root] == ol[s]); } } else if s == root && r != root { assert(ol[r] < count); if ol[root] >= 1 { assert(ol[root] == ol[r]); } } else if r != root { assert(ol[r] == ol[s]); } }
}
/// the property
pub open spec fn components<P>(im: &Image<P>, bg: P, eight: bool, l: Seq<int>) -> bool {
  (forall|a: int| 0 <= a < im.np() ==> (#[trigger] l[a] == 0 <==> !fg(im, bg, a)))
  && (forall|a: int| fg(im, bg, a) ==> 1 <= #[trigger] l[a] <= maxl(l, a) + 1)
  && (forall|a: int, b: int| fg(im, bg, a) && fg(im, bg, b) ==> (#[trigger] l[a] == #[trigger] l[b] <==> conn(rel(im, bg, eight, im.np()), a, b)))
}
pub proof fn lemma_components<P>(im: &Image<P>, bg: P, eight: bool, l0: Seq<int>, f0: DisjointSetForest, next: int, f: DisjointSetForest, l: Seq<int>, ol: Seq<u32>, count: int)
  requires labelled(im, bg, eight, l0, f0, next, im.np()), relabelled(im, bg, l0, f, l, ol, count, im.np()), f.count == f0.count, cls(f.parent@) == cls(f0.parent@)
  ensures components(im, bg, eight, l)
{
  reveal(labelled); reveal(relabelled); let n = im.np(); lemma_acyclic(f0.parent@);
  assert forall|a: int| fg(im, bg, a) implies 0 <= #[trigger] rt(f, l0, a) < f.count by { assert(1 <= l0[a] < next); }
  assert forall|a: int, b: int| fg(im, bg, a) && fg(im, bg, b) implies (#[trigger] l[a] == #[trigger] l[b] <==> conn(rel(im, bg, eight, n), a, b)) by {
    assert(l[a] == ol[rt(f, l0, a)] && l[b] == ol[rt(f, l0, b)]); assert(eqv(f0, l0[a], l0[b]) <==> rt(f, l0, a) == rt(f, l0, b)); }
}
pub proof fn lemma_rt_range<P>(im: &Image<P>, bg: P, eight: bool, l0: Seq<int>, f0: DisjointSetForest, next: int, f: DisjointSetForest, k: int)
  requires labelled(im, bg, eight, l0, f0, next, im.np()), f.count == f0.count, cls(f.parent@) == cls(f0.parent@)
  ensures forall|a: int| fg(im, bg, a) ==> 0 <= #[trigger] rt(f, l0, a) < f.count && 1 <= l0[a] < f.count
{ reveal(labelled); lemma_acyclic(f0.parent@); assert forall|a: int| fg(im, bg, a) implies 0 <= #[trigger] rt(f, l0, a) < f.count && 1 <= l0[a] < f.count by { assert(1 <= l0[a] < next); } }
pub proof fn lemma_lab_range<P>(im: &Image<P>, bg: P, eight: bool, l: Seq<int>, f: DisjointSetForest, next: int, k: int)
  requires labelled(im, bg, eight, l, f, next, k) ensures 1 <= next <= k + 1, wf(f), f.count == im.np() + 1, forall|a: int| fg(im, bg, a) && a < k ==> 1 <= #[trigger] l[a] < next, l.len() == im.np() { reveal(labelled); }
pub proof fn lemma_re_range<P>(im: &Image<P>, bg: P, l0: Seq<int>, f: DisjointSetForest, l: Seq<int>, ol: Seq<u32>, count: int, k: int)
  requires relabelled(im, bg, l0, f, l, ol, count, k) ensures 1 <= count <= k + 1, ol.len() == f.count, forall|a: int| k <= a < im.np() ==> #[trigger] l[a] == l0[a] { reveal(relabelled); }
/// writing one pixel of the label image
pub proof fn lemma_put(o: &Image<Luma<u32>>, n: &Image<Luma<u32>>, x: int, y: int, v: u32)
  requires o.inb(x, y), n.same_dims(o), forall|i: int, j: int| #[trigger] n.px(i, j) == if i == x && j == y { Luma([v]) } else { o.px(i, j) }
  ensures labs(n) == labs(o).update(y * o.w() + x, v as int)
{
  let k = y * o.w() + x; lemma_pk(o, x, y); lemma_coord(o.w() as int, x, y);
  assert forall|i: int| 0 <= i < o.np() implies labs(n)[i] == labs(o).update(k, v as int)[i] by { reveal(Image::pk); lemma_kp(o, i); 
    if i != k { lemma_fundamental_div_mod(i, o.w() as int); assert(o.w() as int * (i / (o.w() as int)) == (i / (o.w() as int)) * o.w() as int) by(nonlinear_arith); } }
  assert(labs(n) =~= labs(o).update(k, v as int));
}
pub proof fn lemma_np0(w: int, h: int) requires w == 0 || h == 0 ensures w * h == 0 { assert(w * h == 0) by(nonlinear_arith) requires w == 0 || h == 0; }
pub proof fn lemma_re_cls<P>(im: &Image<P>, bg: P, l0: Seq<int>, f: DisjointSetForest, g: DisjointSetForest, l: Seq<int>, ol: Seq<u32>, count: int, k: int)
  requires relabelled(im, bg, l0, f, l, ol, count, k), g.count == f.count, cls(g.parent@) == cls(f.parent@) ensures relabelled(im, bg, l0, g, l, ol, count, k)
{ reveal(relabelled); assert forall|a: int| #[trigger] rt(g, l0, a) == rt(f, l0, a) by {} }
pub proof fn lemma_np(w: int, h: int) requires 0 <= w, 0 <= h ensures 0 * w == 0, h * w == w * h { assert(h * w == w * h) by(nonlinear_arith); }
pub proof fn lemma_row(w: int, h: int, y: int) requires 0 <= y < h, 0 <= w ensures y * w + w <= w * h, (y + 1) * w == y * w + w, 0 <= y * w { assert(y * w + w <= w * h) by(nonlinear_arith) requires 0 <= y < h, 0 <= w; assert((y + 1) * w == y * w + w) by(nonlinear_arith); assert(0 <= y * w) by(nonlinear_arith) requires 0 <= y, 0 <= w; }
pub proof fn lemma_zero(o: &Image<Luma<u32>>) requires forall|x: int, y: int| o.inb(x, y) ==> #[trigger] o.px(x, y) == luma(0u32) ensures forall|a: int| 0 <= a < o.np() ==> #[trigger] labs(o)[a] == 0
{ assert forall|a: int| 0 <= a < o.np() implies #[trigger] labs(o)[a] == 0 by { reveal(Image::pk); lemma_kp(o, a); } }
pub proof fn lemma_lab_at(o: &Image<Luma<u32>>, x: int, y: int) requires o.inb(x, y) ensures 0 <= y * o.w() + x < o.np(), labs(o)[y * o.w() + x] == o.px(x, y).0@[0] { lemma_pk(o, x, y); }
#[verifier::opaque]
pub open spec fn has_nb(nbs: Seq<int>, j: int) -> bool { exists|t: int| 0 <= t < nbs.len() && #[trigger] nbs[t] == j }
pub proof fn lemma_push_nb(nbs: Seq<int>, j: int) ensures has_nb(nbs.push(j), j), forall|i: int| #[trigger] has_nb(nbs, i) ==> has_nb(nbs.push(j), i)
{ reveal(has_nb); let q = nbs.push(j); assert(q[nbs.len() as int] == j);
  assert forall|i: int| #[trigger] has_nb(nbs, i) implies has_nb(q, i) by { let t = choose|t: int| 0 <= t < nbs.len() && #[trigger] nbs[t] == i; assert(q[t] == i); } }
pub open spec fn adj_ok<P>(im: &Image<P>, bg: P, eight: bool, k: int, nbs: Seq<int>, adj: Seq<u32>, n: int, l: Seq<int>) -> bool {
  nbs.len() == n && adj.len() == 4 && forall|t: int| 0 <= t < n ==> (#[trigger] nbs[t]) < k && link(im, bg, eight, k + 1, k, nbs[t]) && adj[t] == l[nbs[t]] }
pub proof fn lemma_complete<P>(im: &Image<P>, bg: P, eight: bool, x: int, y: int, nbs: Seq<int>, adj: Seq<u32>, n: int, l: Seq<int>)
  requires im.inb(x, y), adj_ok(im, bg, eight, y * im.w() + x, nbs, adj, n, l), ({ let w = im.w() as int; let k = y * w + x;
    (x > 0 && link(im, bg, eight, k + 1, k, k - 1) ==> has_nb(nbs, k - 1)) && (y > 0 && link(im, bg, eight, k + 1, k, k - w) ==> has_nb(nbs, k - w))
    && (eight && y > 0 && x > 0 && link(im, bg, eight, k + 1, k, k - w - 1) ==> has_nb(nbs, k - w - 1)) && (eight && y > 0 && x < w - 1 && link(im, bg, eight, k + 1, k, k - w + 1) ==> has_nb(nbs, k - w + 1)) })
  ensures nbs_ok(im, bg, eight, y * im.w() + x, nbs)
{ reveal(has_nb); let k = y * im.w() + x;
  assert forall|b: int| b < k && #[trigger] link(im, bg, eight, k + 1, k, b) implies exists|t: int| 0 <= t < nbs.len() && #[trigger] nbs[t] == b by { lemma_only(im, bg, eight, x, y, b); } }
/// min is one of ls, so merging [min] + ls is merging ls
pub proof fn lemma_drop_min(f: DisjointSetForest, g: DisjointSetForest, m: int, ls: Seq<int>)
  requires merged_by(f, g, seq![m] + ls), exists|t: int| 0 <= t < ls.len() && #[trigger] ls[t] == m ensures merged_by(f, g, ls)
{ reveal(merged_by); let q = seq![m] + ls;
  assert forall|x: int| #[trigger] touch(f, q, x) == touch(f, ls, x) by {
    if touch(f, q, x) { let t = choose|t: int| 0 <= t < q.len() && eqv(f, x, #[trigger] q[t]); if t == 0 { let u = choose|t: int| 0 <= t < ls.len() && #[trigger] ls[t] == m; assert(eqv(f, x, ls[u])); } else { assert(ls[t - 1] == q[t]); } }
    if touch(f, ls, x) { let t = choose|t: int| 0 <= t < ls.len() && eqv(f, x, #[trigger] ls[t]); assert(q[t + 1] == ls[t]); } } }
@@ enum region_labelling.rs Connectivity
@ opts
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@ fn region_labelling.rs connected_components
@ opts
#[verifier::loop_isolation(true)]
#[verifier::rlimit(100)]
@ sigsub <I>(     image: &I, =>> <P: Pixel>(image: &Image<P>,
@ sigsub background: I::Pixel, =>> background: P,
@ sigsub where     I: GenericImage,     I::Pixel: Eq, =>>
@ spec
  requires image.np() < u32::MAX,
  ensures r.same_dims(image), components(image, background, conn == Connectivity::Eight, labs(&r)),
@ begin
let ghost im = image; let ghost bg = background; let ghost eight = conn == Connectivity::Eight; let ghost w = image.w() as int; let ghost np = image.np();
proof { assert(np >= 0) by(nonlinear_arith) requires np == image.w() as int * image.h() as int; lemma_np(image.w() as int, image.h() as int); }
@ subst
2usize.saturating_pow(32)
=>> 0x1_0000_0000usize
@ subst
current == background
=>> peq(&current, &background)
@ subst
pixel == current
=>> peq(&pixel, &current)
@ subst?
vec![0u32; image_size]
=>> vec_of32(0u32, image_size)
@ subst?
vec![0u32; num_labels]
=>> vec_of32(0u32, num_labels)
@ subst
let label = {
                    if image.unsafe_get_pixel(x, y) == background {
                        continue;
                    }
                    out.unsafe_get_pixel(x, y)[0]
                };
=>> if peq(&image.unsafe_get_pixel(x, y), &background) { } else {
    let label = out.unsafe_get_pixel(x, y)[0];
@ subst
out.unsafe_put_pixel(x, y, Luma([output_label]));
=>> out.unsafe_put_pixel(x, y, Luma([output_label])); }
@ subst
*output_labels.get_unchecked(root)
=>> unchecked_get32(&output_labels, root)
@ subst
*output_labels.get_unchecked_mut(root) = output_label;
=>> unchecked_set32(&mut output_labels, root, output_label);
@ after let mut out = Image::new(width, height);
proof { broadcast use ax_zero_luma_u32; lemma_zero(&out); if w == 0 || image.h() == 0 { lemma_np0(w, image.h() as int); } }
@ loop 0 before
let ghost nn = np + 1; proof { lemma_start(im, bg, eight, labs(&out), forest); }
@ loop 0
invariant end__0 == height, im == image, bg == background, eight == (conn == Connectivity::Eight), w == image.w(), np == image.np(), np < u32::MAX, width == image.w(), height == image.h(), out.same_dims(im), labelled(im, bg, eight, labs(&out), forest, next_label as int, y * w),
@ loop 0 begin
proof { lemma_row(w, image.h() as int, y as int); }
@ loop 1
invariant end__1 == width, 0 <= y < height, y * w + w <= np, 0 <= y * w, im == image, bg == background, eight == (conn == Connectivity::Eight), w == image.w(), np == image.np(), np < u32::MAX, width == image.w(), height == image.h(), out.same_dims(im), labelled(im, bg, eight, labs(&out), forest, next_label as int, y * w + x),
@ loop 1 begin
let ghost k = y * w + x; let ghost mut nbs: Seq<int> = Seq::empty(); let ghost l0 = labs(&out); let ghost f0 = forest; let ghost o0 = out; let ghost next0 = next_label as int;
proof { lemma_pk(im, x as int, y as int); lemma_lab_range(im, bg, eight, l0, f0, next_label as int, k); if !fg(im, bg, k) { lemma_bg(im, bg, eight, l0, f0, next_label as int, k); }
  else {
    if x > 0 { lemma_nb(im, bg, eight, x as int, y as int, -1, 0); lemma_lab_at(&out, x - 1, y as int); }
    if y > 0 { assert((y - 1) * w == y * w - w) by(nonlinear_arith);
      lemma_nb(im, bg, eight, x as int, y as int, 0, -1); lemma_lab_at(&out, x as int, y - 1);
      if x > 0 { lemma_lab_at(&out, x - 1, y - 1); if eight { lemma_nb(im, bg, eight, x as int, y as int, -1, -1); } }
      if x < w - 1 { lemma_lab_at(&out, x + 1, y - 1); if eight { lemma_nb(im, bg, eight, x as int, y as int, 1, -1); } } }
  } }
@ after #0 num_adj += 1;
proof { lemma_push_nb(nbs, k - 1); nbs = nbs.push(k - 1); }
@ after #1 num_adj += 1;
proof { lemma_push_nb(nbs, k - w); nbs = nbs.push(k - w); }
@ after #2 num_adj += 1;
proof { lemma_push_nb(nbs, k - w - 1); nbs = nbs.push(k - w - 1); }
@ after #3 num_adj += 1;
proof { lemma_push_nb(nbs, k - w + 1); nbs = nbs.push(k - w + 1); }
@ before if num_adj == 0 {
proof { assert(adj_ok(im, bg, eight, k, nbs, adj_labels@, num_adj as int, l0)); lemma_complete(im, bg, eight, x as int, y as int, nbs, adj_labels@, num_adj as int, l0); 
  assert forall|t: int| 0 <= t < nbs.len() implies 1 <= #[trigger] adj_labels@[t] < next0 by { assert(nbs[t] < k); assert(fg(im, bg, nbs[t])) by { reveal(link); } } }
@ before next_label += 1;
proof { lemma_put(&o0, &out, x as int, y as int, next_label); lemma_extend(im, bg, eight, l0, f0, next0, k, nbs, next0, f0); }
@ loop 2
invariant end__2 == num_adj, num_adj <= 4, n == 0 ==> min_label == u32::MAX, n > 0 ==> exists|t: int| 0 <= t < n && min_label == #[trigger] adj_labels@[t],
@ loop 2 begin
let ghost m0 = min_label;
@ loop 2 end
proof { assert(min_label == (if m0 <= adj_labels@[n as int] { m0 } else { adj_labels@[n as int] })); if min_label == m0 && n > 0 { let t = choose|t: int| 0 <= t < n && m0 == #[trigger] adj_labels@[t]; assert(adj_labels@[t] == min_label); } else { assert(adj_labels@[n as int] == min_label); } }
@ loop 3 before
let ghost mm = min_label as int; let ghost ls = nlabs(l0, nbs);
proof { let t = choose|t: int| 0 <= t < num_adj && min_label == #[trigger] adj_labels@[t]; assert(ls[t] == mm); assert(mm == l0[nbs[t]]); assert(1 <= mm < next0); lemma_put(&o0, &out, x as int, y as int, min_label); lemma_merge_one(f0, mm); assert(seq![mm] + ls.take(0) =~= seq![mm]); }
@ loop 3
invariant end__3 == num_adj, num_adj <= 4, ls == nlabs(l0, nbs), adj_ok(im, bg, eight, k, nbs, adj_labels@, num_adj as int, l0), f0.count == np + 1, np < u32::MAX, next0 <= np + 1, forall|t: int| 0 <= t < nbs.len() ==> 1 <= #[trigger] adj_labels@[t] < next0, wf(forest), forest.count == f0.count, 1 <= mm < next0, min_label == mm, merged_by(f0, forest, seq![mm] + ls.take(n as int)),
@ loop 3 begin
let ghost g0 = forest; proof { assert(ls[n as int] == adj_labels@[n as int]); assert(ls.take(n + 1) =~= ls.take(n as int).push(ls[n as int])); assert(seq![mm] + ls.take(n + 1) =~= (seq![mm] + ls.take(n as int)).push(ls[n as int])); }
@ loop 3 end
proof { assert((seq![mm] + ls.take(n as int))[0] == mm); lemma_merge_step(f0, g0, forest, seq![mm] + ls.take(n as int), ls[n as int]); }
@ loop 3 after
proof { assert(ls.take(ls.len() as int) =~= ls); lemma_drop_min(f0, forest, mm, ls); lemma_extend(im, bg, eight, l0, f0, next0, k, nbs, mm, forest); }
@ after let mut count = 1;
let ghost l1 = labs(&out); let ghost f1 = forest; let ghost next1 = next_label as int; proof { lemma_lab_range(im, bg, eight, l1, f1, next1, np); lemma_re_start(im, bg, l1, f1, output_labels@); }
@ loop 4
invariant end__4 == height, labelled(im, bg, eight, l1, f1, next1, np), f1.count == np + 1, im == image, bg == background, eight == (conn == Connectivity::Eight), w == image.w(), np == image.np(), np < u32::MAX, width == image.w(), height == image.h(), out.same_dims(im), wf(forest), forest.count == f1.count, cls(forest.parent@) == cls(f1.parent@), relabelled(im, bg, l1, forest, labs(&out), output_labels@, count as int, y * w),
@ loop 4 begin
proof { lemma_row(w, image.h() as int, y as int); }
@ loop 5
invariant end__5 == width, 0 <= y < height, y * w + w <= np, 0 <= y * w, labelled(im, bg, eight, l1, f1, next1, np), f1.count == np + 1, im == image, bg == background, eight == (conn == Connectivity::Eight), w == image.w(), np == image.np(), np < u32::MAX, width == image.w(), height == image.h(), out.same_dims(im), wf(forest), forest.count == f1.count, cls(forest.parent@) == cls(f1.parent@), relabelled(im, bg, l1, forest, labs(&out), output_labels@, count as int, y * w + x),
@ loop 5 begin
let ghost k = y * w + x; let ghost l0 = labs(&out); let ghost ol0 = output_labels@; let ghost o0 = out; let ghost f0 = forest; let ghost count0 = count as int;
proof { lemma_pk(im, x as int, y as int); lemma_lab_at(&out, x as int, y as int); lemma_re_range(im, bg, l1, f0, l0, ol0, count0, k); lemma_rt_range(im, bg, eight, l1, f1, next1, forest, k);
  if !fg(im, bg, k) { lemma_re_bg(im, bg, eight, l1, f0, f1, next1, l0, ol0, count0, k); } else { assert(0 <= rt(forest, l1, k) < forest.count); } }
@ loop 5 end
proof { if fg(im, bg, k) { lemma_put(&o0, &out, x as int, y as int, out.px(x as int, y as int).0@[0]); lemma_re_cls(im, bg, l1, f0, forest, l0, ol0, count0, k); lemma_rt_range(im, bg, eight, l1, f1, next1, forest, k);
   lemma_re_fg(im, bg, l1, forest, l0, ol0, count0, k, rt(forest, l1, k), out.px(x as int, y as int).0@[0], output_labels@, count as int); } }
@ tail
proof { lemma_components(im, bg, eight, l1, f1, next1, forest, labs(&out), output_labels@, count as int); }
