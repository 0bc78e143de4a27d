@@ include prelude.rs
@@ text
/// See Note [FAST circle labels]: the k-th pixel of the Bresenham circle of radius 3, clockwise from the top
pub open spec fn off(k: int) -> (int, int) {
  if k == 0 { (0, -3) } else if k == 1 { (1, -3) } else if k == 2 { (2, -2) } else if k == 3 { (3, -1) }
  else if k == 4 { (3, 0) } else if k == 5 { (3, 1) } else if k == 6 { (2, 2) } else if k == 7 { (1, 3) }
  else if k == 8 { (0, 3) } else if k == 9 { (-1, 3) } else if k == 10 { (-2, 2) } else if k == 11 { (-3, 1) }
  else if k == 12 { (-3, 0) } else if k == 13 { (-3, -1) } else if k == 14 { (-2, -2) } else { (-1, -3int) }
}
pub open spec fn val(im: &GrayImage, x: int, y: int) -> int { im.px(x, y).0@[0] as int }
pub open spec fn cval(im: &GrayImage, x: int, y: int, k: int) -> int { val(im, x + off(k).0, y + off(k).1) }
/// circle position k is in the given section: brighter than c + t (or darker than c - t)
pub open spec fn beyond(im: &GrayImage, x: int, y: int, t: int, bright: bool, k: int) -> bool {
  if bright { cval(im, x, y, k) > val(im, x, y) + t } else { cval(im, x, y, k) < val(im, x, y) - t }
}
pub open spec fn arc(im: &GrayImage, x: int, y: int, t: int, bright: bool, n: int, s: int) -> bool {
  forall|k: int| 0 <= k < n ==> beyond(im, x, y, t, bright, #[trigger] wrap(s, k))
}
pub open spec fn wrap(s: int, k: int) -> int { if s + k < 16 { s + k } else { s + k - 16 } }
/// the segment test
pub open spec fn is_fast(im: &GrayImage, n: int, t: int, x: int, y: int) -> bool {
  3 <= x < im.w() - 3 && 3 <= y < im.h() - 3 && exists|s: int, bright: bool| 0 <= s < 16 && #[trigger] arc(im, x, y, t, bright, n, s)
}
/// the largest threshold at which it is still a corner
pub open spec fn is_score(im: &GrayImage, n: int, x: int, y: int, v: int) -> bool {
  0 <= v <= 255 && is_fast(im, n, v, x, y) && forall|t: int| v < t <= 255 ==> !#[trigger] is_fast(im, n, t, x, y)
}
pub proof fn lemma_mono(im: &GrayImage, n: int, t: int, u: int, x: int, y: int)
  requires t <= u, is_fast(im, n, u, x, y)
  ensures is_fast(im, n, t, x, y)
{
  let (s, bright) = choose|s: int, bright: bool| 0 <= s < 16 && #[trigger] arc(im, x, y, u, bright, n, s);
  assert(arc(im, x, y, t, bright, n, s));
}
/// a section of nine contains one of 0, 8 and one of 4, 12
pub proof fn lemma_quick(im: &GrayImage, n: int, t: int, x: int, y: int, bright: bool, s: int)
  requires 9 <= n <= 16, 0 <= s < 16, arc(im, x, y, t, bright, n, s)
  ensures beyond(im, x, y, t, bright, 0) || beyond(im, x, y, t, bright, 8), beyond(im, x, y, t, bright, 4) || beyond(im, x, y, t, bright, 12)
{
  let a = if s == 0 { 0 } else if s <= 8 { 8 - s } else { 16 - s };
  assert(wrap(s, a) == 0 || wrap(s, a) == 8);
  assert(beyond(im, x, y, t, bright, wrap(s, a)));
  let b = if s <= 4 { 4 - s } else if s <= 12 { 12 - s } else { 20 - s };
  assert(wrap(s, b) == 4 || wrap(s, b) == 12);
  assert(beyond(im, x, y, t, bright, wrap(s, b)));
}
#[verifier::external_body]
pub fn u8_f32(v: u8) -> (r: f32) ensures r == f32_of(v) { v as f32 }
pub uninterp spec fn f32_of(v: u8) -> f32;
/// the FAST-n corners of the first positions in raster order
pub open spec fn before(x: int, y: int, x1: int, y1: int) -> bool { y < y1 || (y == y1 && x < x1) }
pub open spec fn corner_list(im: &GrayImage, n: int, t: int, v: Seq<Corner>, x1: int, y1: int) -> bool {
  (forall|i: int| 0 <= i < v.len() ==> { let c = #[trigger] v[i]; is_fast(im, n, t, c.x as int, c.y as int) && before(c.x as int, c.y as int, x1, y1)
      && exists|s: u8| s as int >= t && #[trigger] f32_of(s) == c.score && is_score(im, n, c.x as int, c.y as int, s as int) })
  && (forall|i: int, j: int| 0 <= i < j < v.len() ==> before((#[trigger] v[i]).x as int, v[i].y as int, (#[trigger] v[j]).x as int, v[j].y as int))
  && (forall|x: int, y: int| #[trigger] is_fast(im, n, t, x, y) && before(x, y, x1, y1) ==> listed(v, x, y))
}
#[verifier::opaque]
pub open spec fn listed(v: Seq<Corner>, x: int, y: int) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).x == x && v[i].y == y }
pub proof fn lemma_skip(im: &GrayImage, n: int, t: int, v: Seq<Corner>, x1: int, y1: int)
  requires corner_list(im, n, t, v, x1, y1), !is_fast(im, n, t, x1, y1)
  ensures corner_list(im, n, t, v, x1 + 1, y1)
{}
pub proof fn lemma_row(im: &GrayImage, n: int, t: int, v: Seq<Corner>, y1: int)
  requires corner_list(im, n, t, v, im.w() as int, y1)
  ensures corner_list(im, n, t, v, 0, y1 + 1)
{}
pub proof fn lemma_push(im: &GrayImage, n: int, t: int, v: Seq<Corner>, w: Seq<Corner>, x1: int, y1: int, c: Corner, s: u8)
  requires corner_list(im, n, t, v, x1, y1), is_fast(im, n, t, x1, y1), c.x == x1, c.y == y1, c.score == f32_of(s), is_score(im, n, x1, y1, s as int), s as int >= t, w == v.push(c)
  ensures corner_list(im, n, t, w, x1 + 1, y1)
{
  reveal(listed);
  assert forall|x: int, y: int| #[trigger] is_fast(im, n, t, x, y) && before(x, y, x1 + 1, y1) implies listed(w, x, y) by {
    if x == x1 && y == y1 { assert(w[v.len() as int].x == x); }
    else { assert(before(x, y, x1, y1)); assert(listed(v, x, y)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).x == x && v[i].y == y; assert(w[i] == v[i]); }
  }
  assert forall|i: int| 0 <= i < w.len() implies { let c = #[trigger] w[i]; is_fast(im, n, t, c.x as int, c.y as int) && before(c.x as int, c.y as int, x1 + 1, y1)
      && exists|s: u8| s as int >= t && #[trigger] f32_of(s) == c.score && is_score(im, n, c.x as int, c.y as int, s as int) } by {
    if i < v.len() { assert(w[i] == v[i]); }
  }
  assert forall|i: int, j: int| 0 <= i < j < w.len() implies before((#[trigger] w[i]).x as int, w[i].y as int, (#[trigger] w[j]).x as int, w[j].y as int) by {
    assert(w[i] == v[i]); if j < v.len() { assert(w[j] == v[j]); } }
}
pub open spec fn circle_of(im: &GrayImage, x: int, y: int, c: Seq<i16>) -> bool {
  c.len() == 16 && forall|k: int| 0 <= k < 16 ==> (#[trigger] c[k]) as int == cval(im, x, y, k)
}
pub open spec fn mark(s: int) -> bool { true }
pub open spec fn all_at<F: Fn(&i16) -> bool>(c: [i16; 16], n: int, f: F, s: int) -> bool { forall|k: int| 0 <= k < n ==> f.ensures((&c@[#[trigger] wrap(s, k)],), true) }
pub open spec fn some_not<F: Fn(&i16) -> bool>(c: [i16; 16], n: int, f: F, s: int) -> bool { exists|k: int| 0 <= k < n && f.ensures((&c@[#[trigger] wrap(s, k)],), false) }
/// ok[j] is the answer of f for element j; b: length of the run of trues that ends at i; a: length of the run that starts at 0
pub open spec fn answers<F: Fn(&i16) -> bool>(c: [i16; 16], f: F, ok: Seq<bool>, i: int) -> bool { ok.len() == i && forall|j: int| 0 <= j < i ==> f.ensures((&c@[j],), #[trigger] ok[j]) }
pub open spec fn head(ok: Seq<bool>, i: int, a: Option<u8>) -> bool {
  match a { None => forall|j: int| 0 <= j < i ==> #[trigger] ok[j], Some(a) => a < i && !ok[a as int] && forall|j: int| 0 <= j < a ==> #[trigger] ok[j] } }
pub open spec fn tailrun(ok: Seq<bool>, i: int, b: int) -> bool { 0 <= b <= i && (forall|j: int| i - b <= j < i ==> #[trigger] ok[j]) && (b < i ==> !ok[i - b - 1]) }
pub open spec fn norun(ok: Seq<bool>, i: int, n: int) -> bool { forall|s: int| 0 <= s && s + n <= i ==> #[trigger] miss(ok, s, n) }
pub open spec fn miss(ok: Seq<bool>, s: int, n: int) -> bool { exists|j: int| s <= j < s + n && !#[trigger] ok[j] }
pub proof fn lemma_end<F: Fn(&i16) -> bool>(c: [i16; 16], n: int, f: F, ok: Seq<bool>, a: u8, b: int)
  requires answers(c, f, ok, 16), 1 <= n <= 16, head(ok, 16, Some(a)), tailrun(ok, 16, b), norun(ok, 16, n), b < n
  ensures a + b <= 16,
    a + b >= n ==> all_at(c, n, f, if b == 0 { 0int } else { 16 - b }),
    a + b < n ==> forall|s: int| 0 <= s < 16 ==> #[trigger] some_not(c, n, f, s),
{
  if a + b > 16 { assert(ok[a as int]); }
  if a + b >= n {
    if b == 0 { assert(miss(ok, 0, n)); assert(false); }
    let s = 16 - b;
    assert forall|k: int| 0 <= k < n implies f.ensures((&c@[#[trigger] wrap(s, k)],), true) by {
      let j = wrap(s, k);
      if k < b { assert(j == s + k); assert(ok[j]); } else { assert(j == k - b); assert(ok[j]); }
    }
  } else {
    assert forall|s: int| 0 <= s < 16 implies #[trigger] some_not(c, n, f, s) by {
      if s + n <= 16 {
        assert(miss(ok, s, n)); let j = choose|j: int| s <= j < s + n && !#[trigger] ok[j];
        assert(wrap(s, j - s) == j);
      } else if 16 - s > b {
        let j = 16 - b - 1; assert(wrap(s, j - s) == j); assert(!ok[j]);
      } else {
        let j = a as int; assert(wrap(s, 16 - s + j) == j);
      }
    }
  }
}
pub proof fn lemma_next(ok: Seq<bool>, i: int, n: int, a: Option<u8>, b: int, v: bool, a2: Option<u8>)
  requires 0 <= i < 16, ok.len() == i, head(ok, i, a), tailrun(ok, i, b), norun(ok, i, n), 0 <= b < n, a is None ==> b == i,
    v ==> a2 == a && b + 1 < n, !v && a is Some ==> a2 == a, !v && a is None ==> a2 == Some(b as u8)
  ensures head(ok.push(v), i + 1, a2), tailrun(ok.push(v), i + 1, if v { b + 1 } else { 0 }), norun(ok.push(v), i + 1, n)
{
  let o2 = ok.push(v);
  assert forall|s: int| 0 <= s && s + n <= i + 1 implies #[trigger] miss(o2, s, n) by {
    if s + n <= i { assert(miss(ok, s, n)); let j = choose|j: int| s <= j < s + n && !#[trigger] ok[j]; assert(!o2[j]); }
    else if v { let j = i - b - 1; assert(!ok[j]); assert(!o2[j]); }
    else { assert(!o2[i]); }
  }
}
pub open spec fn all_beyond(c: Seq<i16>, n: int, t: int, bright: bool, s: int) -> bool { forall|k: int| 0 <= k < n ==> if bright { c[#[trigger] wrap(s, k)] > t } else { c[wrap(s, k)] < t } }
@@ struct corners.rs Corner
@ opts
#[derive(Clone, Copy)]
@@ enum corners.rs Fast
@@ fn corners.rs Corner::new
@ spec
  ensures r.x == x, r.y == y, r.score == score,
@@ fn corners.rs search_span
@ spec
  requires 1 <= length <= 16, forall|c: &i16| #[trigger] f.requires((c,)),
  ensures
    r ==> exists|s: int| 0 <= s < 16 && #[trigger] mark(s) && all_at(*circle, length as int, f, s),
    !r ==> forall|s: int| 0 <= s < 16 && #[trigger] mark(s) ==> some_not(*circle, length as int, f, s),
@ before for c in circle.iter()
  let ghost mut ok: Seq<bool> = seq![];
  proof { assert(circle@.len() == 16); }
@ loop 0 iter it
@ loop 0
  invariant 1 <= length <= 16, forall|c: &i16| #[trigger] f.requires((c,)), it.seq().len() == 16, answers(*circle, f, ok, it.index@), head(ok, it.index@, nb_ok_start), tailrun(ok, it.index@, nb_ok as int), norun(ok, it.index@, length as int), nb_ok < length, nb_ok_start is None ==> nb_ok == it.index@,
@ loop 0 begin
  let ghost o0 = ok; let ghost a0 = nb_ok_start; let ghost b0 = nb_ok as int;
@ subst
if f(c) {
=>> let v = f(c); proof { ok = o0.push(v); assert(f.ensures((c,), v)); assert(*c == circle@[it.index@]); assert(o0.len() == it.index@); }
if v {
@ subst
if nb_ok == length {
=>> if nb_ok == length { proof { assert(mark(it.index@ + 1 - length)); assert(all_at(*circle, length as int, f, it.index@ + 1 - length)) by {
  assert forall|k: int| 0 <= k < length implies f.ensures((&circle@[#[trigger] wrap(it.index@ + 1 - length, k)],), true) by { let j = wrap(it.index@ + 1 - length, k); if j < it.index@ { assert(o0[j]); } } } }
@ loop 0 end
  proof { lemma_next(o0, it.index@, length as int, a0, b0, v, nb_ok_start); }
@ tail
  proof { if nb_ok_start is None { assert(miss(ok, 0, length as int)); assert(false); } lemma_end(*circle, length as int, f, ok, nb_ok_start->Some_0, nb_ok as int); assert(mark(if nb_ok == 0 { 0int } else { 16 - nb_ok })); }
@@ fn corners.rs has_bright_span
@ spec
  requires 1 <= length <= 16,
  ensures r == exists|s: int| 0 <= s < 16 && #[trigger] mark(s) && all_beyond(circle@, length as int, threshold as int, true, s),
@ closure 0
|c: &i16| -> (r: bool) ensures r == (*c > threshold)
@@ fn corners.rs has_dark_span
@ spec
  requires 1 <= length <= 16,
  ensures r == exists|s: int| 0 <= s < 16 && #[trigger] mark(s) && all_beyond(circle@, length as int, threshold as int, false, s),
@ closure 0
|c: &i16| -> (r: bool) ensures r == (*c < threshold)
@@ fn corners.rs get_circle
@ spec
  requires 3 <= x < image.w() - 3, 3 <= y < image.h() - 3,
    p0 == cval(image, x as int, y as int, 0), p4 == cval(image, x as int, y as int, 4), p8 == cval(image, x as int, y as int, 8), p12 == cval(image, x as int, y as int, 12),
  ensures circle_of(image, x as int, y as int, r@),
@@ text
/// the section test on the read-out circle is the section test on the image
pub proof fn lemma_circle(im: &GrayImage, x: int, y: int, c: Seq<i16>, n: int, t: int)
  requires circle_of(im, x, y, c), 0 <= n <= 16
  ensures is_fast1(im, n, t, x, y, true) == (exists|s: int| 0 <= s < 16 && #[trigger] mark(s) && all_beyond(c, n, val(im, x, y) + t, true, s)),
    is_fast1(im, n, t, x, y, false) == (exists|s: int| 0 <= s < 16 && #[trigger] mark(s) && all_beyond(c, n, val(im, x, y) - t, false, s))
{
  assert forall|s: int, bright: bool| 0 <= s < 16 implies #[trigger] arc(im, x, y, t, bright, n, s) == all_beyond(c, n, if bright { val(im, x, y) + t } else { val(im, x, y) - t }, bright, s) by {
    if arc(im, x, y, t, bright, n, s) {
      assert forall|k: int| 0 <= k < n implies if bright { c[#[trigger] wrap(s, k)] > val(im, x, y) + t } else { c[wrap(s, k)] < val(im, x, y) - t } by { assert(beyond(im, x, y, t, bright, wrap(s, k))); }
    } else {
      let k = choose|k: int| 0 <= k < n && !beyond(im, x, y, t, bright, #[trigger] wrap(s, k));
      assert(c[wrap(s, k)] as int == cval(im, x, y, wrap(s, k)));
    }
  }
  assert(forall|s: int| mark(s));
  if is_fast1(im, n, t, x, y, true) { let s = choose|s: int| 0 <= s < 16 && #[trigger] arc(im, x, y, t, true, n, s); assert(mark(s) && all_beyond(c, n, val(im, x, y) + t, true, s)); }
  if is_fast1(im, n, t, x, y, false) { let s = choose|s: int| 0 <= s < 16 && #[trigger] arc(im, x, y, t, false, n, s); assert(mark(s) && all_beyond(c, n, val(im, x, y) - t, false, s)); }
  if exists|s: int| 0 <= s < 16 && #[trigger] mark(s) && all_beyond(c, n, val(im, x, y) + t, true, s) {
    let s = choose|s: int| 0 <= s < 16 && #[trigger] mark(s) && all_beyond(c, n, val(im, x, y) + t, true, s); assert(arc(im, x, y, t, true, n, s)); }
  if exists|s: int| 0 <= s < 16 && #[trigger] mark(s) && all_beyond(c, n, val(im, x, y) - t, false, s) {
    let s = choose|s: int| 0 <= s < 16 && #[trigger] mark(s) && all_beyond(c, n, val(im, x, y) - t, false, s); assert(arc(im, x, y, t, false, n, s)); }
}
/// one sign at a time
pub open spec fn is_fast1(im: &GrayImage, n: int, t: int, x: int, y: int, bright: bool) -> bool { exists|s: int| 0 <= s < 16 && #[trigger] arc(im, x, y, t, bright, n, s) }
pub proof fn lemma_split(im: &GrayImage, n: int, t: int, x: int, y: int)
  requires 9 <= n <= 16, 3 <= x < im.w() - 3, 3 <= y < im.h() - 3
  ensures is_fast(im, n, t, x, y) == (is_fast1(im, n, t, x, y, true) || is_fast1(im, n, t, x, y, false)),
    forall|bright: bool| #[trigger] is_fast1(im, n, t, x, y, bright) ==> (beyond(im, x, y, t, bright, 0) || beyond(im, x, y, t, bright, 8)) && (beyond(im, x, y, t, bright, 4) || beyond(im, x, y, t, bright, 12)),
{
  if is_fast(im, n, t, x, y) {
    let (s, bright) = choose|s: int, bright: bool| 0 <= s < 16 && #[trigger] arc(im, x, y, t, bright, n, s);
    assert(is_fast1(im, n, t, x, y, bright));
  }
  assert forall|bright: bool| #[trigger] is_fast1(im, n, t, x, y, bright) implies (beyond(im, x, y, t, bright, 0) || beyond(im, x, y, t, bright, 8)) && (beyond(im, x, y, t, bright, 4) || beyond(im, x, y, t, bright, 12)) by {
    let s = choose|s: int| 0 <= s < 16 && #[trigger] arc(im, x, y, t, bright, n, s);
    lemma_quick(im, n, t, x, y, bright, s);
  }
}
@@ fn corners.rs is_corner_fast9
@ spec
  ensures r == is_fast(image, 9, threshold as int, x as int, y as int),
@ before let c =
  proof { lemma_split(image, 9, threshold as int, x as int, y as int); }
@ tail
  proof { lemma_circle(image, x as int, y as int, pixels@, 9, threshold as int); }
@@ fn corners.rs is_corner_fast12
@ spec
  ensures r == is_fast(image, 12, threshold as int, x as int, y as int),
@ before let c =
  proof { lemma_split(image, 12, threshold as int, x as int, y as int); }
@ tail
  proof { lemma_circle(image, x as int, y as int, pixels@, 12, threshold as int); }
@@ text
pub open spec fn vn(v: Fast) -> int { if v is Nine { 9 } else { 12 } }
@@ fn corners.rs fast_corner_score
@ spec
  ensures r >= threshold, forall|t: int| r < t <= 255 ==> !#[trigger] is_fast(image, vn(variant), t, x as int, y as int),
    r == threshold || is_fast(image, vn(variant), r as int, x as int, y as int),
@ loop 0
  invariant threshold <= min <= max <= 255,
    forall|t: int| max < t <= 255 ==> !#[trigger] is_fast(image, vn(variant), t, x as int, y as int),
    min == threshold || is_fast(image, vn(variant), min as int, x as int, y as int),
  decreases max - min
@ before if is_corner {
  proof { if !is_corner { assert forall|t: int| probe <= t <= 255 implies !#[trigger] is_fast(image, vn(variant), t, x as int, y as int) by { if is_fast(image, vn(variant), t, x as int, y as int) { lemma_mono(image, vn(variant), probe as int, t, x as int, y as int); } } } }
@@ fn corners.rs corners_fast12
@ spec
  ensures corner_list(image, 12, threshold as int, r@, 0, image.h() as int),
@ loops 2
@ loop 0
  invariant start__0 == 0, end__0 == height, width == image.w(), height == image.h(), corner_list(image, 12, threshold as int, corners@, 0, y as int),
@ loop 1
  invariant start__1 == 0, end__1 == width, width == image.w(), height == image.h(), y < height, corner_list(image, 12, threshold as int, corners@, x as int, y as int),
@ loop 1 begin
  let ghost v0 = corners@;
@ subst
corners.push(Corner::new(x, y, score as f32));
=>> corners.push(Corner::new(x, y, u8_f32(score)));
  proof { lemma_push(image, 12, threshold as int, v0, corners@, x as int, y as int, corners@.last(), score); }
@ loop 1 end
  proof { if !is_fast(image, 12, threshold as int, x as int, y as int) { lemma_skip(image, 12, threshold as int, v0, x as int, y as int); } }
@ loop 1 after
  proof { lemma_row(image, 12, threshold as int, corners@, y as int); }
@@ fn corners.rs corners_fast9
@ spec
  ensures corner_list(image, 9, threshold as int, r@, 0, image.h() as int),
@ loops 2
@ loop 0
  invariant start__0 == 0, end__0 == height, width == image.w(), height == image.h(), corner_list(image, 9, threshold as int, corners@, 0, y as int),
@ loop 1
  invariant start__1 == 0, end__1 == width, width == image.w(), height == image.h(), y < height, corner_list(image, 9, threshold as int, corners@, x as int, y as int),
@ loop 1 begin
  let ghost v0 = corners@;
@ subst
corners.push(Corner::new(x, y, score as f32));
=>> corners.push(Corner::new(x, y, u8_f32(score)));
  proof { lemma_push(image, 9, threshold as int, v0, corners@, x as int, y as int, corners@.last(), score); }
@ loop 1 end
  proof { if !is_fast(image, 9, threshold as int, x as int, y as int) { lemma_skip(image, 9, threshold as int, v0, x as int, y as int); } }
@ loop 1 after
  proof { lemma_row(image, 9, threshold as int, corners@, y as int); }
@@ text
/// the intensity centroid's first moments over a window, as the code's comment orients them (x to the right, y upwards)
pub open spec fn rowx(im: &GrayImage, y: int, a: int, b: int, cx: int) -> int decreases b - a { if b <= a { 0 } else { rowx(im, y, a, b - 1, cx) + (b - 1 - cx) * val(im, b - 1, y) } }
pub open spec fn mx(im: &GrayImage, a: int, b: int, y0: int, y1: int, cx: int) -> int decreases y1 - y0 { if y1 <= y0 { 0 } else { mx(im, a, b, y0, y1 - 1, cx) + rowx(im, y1 - 1, a, b, cx) } }
pub open spec fn coly(im: &GrayImage, x: int, y0: int, y1: int, cy: int) -> int decreases y1 - y0 { if y1 <= y0 { 0 } else { coly(im, x, y0, y1 - 1, cy) + (cy - (y1 - 1)) * val(im, x, y1 - 1) } }
pub open spec fn my(im: &GrayImage, a: int, b: int, y0: int, y1: int, cy: int) -> int decreases b - a { if b <= a { 0 } else { my(im, a, b - 1, y0, y1, cy) + coly(im, b - 1, y0, y1, cy) } }
pub uninterp spec fn orient(y: int, x: int) -> f32;
#[verifier::external_body]
pub fn orientation_of(y: i32, x: i32) -> (r: f32) ensures r == orient(y as int, x as int) { -(y as f32).atan2(x as f32) }
pub open spec fn lo(c: int, rad: int) -> int { if c < rad { 0 } else { c - rad } }
pub open spec fn hi(c: int, rad: int, n: int) -> int { if c + rad + 1 < n { c + rad + 1 } else { n } }
/// the direction of the intensity centroid of the window clipped to the image
pub open spec fn centroid(im: &GrayImage, x: int, y: int, rad: int) -> f32 {
  let (a, b, c, d) = (lo(x, rad), hi(x, rad, im.w() as int), lo(y, rad), hi(y, rad, im.h() as int));
  orient(my(im, a, b, c, d, y), mx(im, a, b, c, d, x)) }
proof fn small_prod(c: int, v: int, r: int) requires -r <= c <= r, 0 <= v <= 255, r <= 100 ensures -25500 <= c * v <= 25500
{ assert(-25500 <= c * v <= 25500) by(nonlinear_arith) requires -r <= c <= r, 0 <= v <= 255, 0 <= r <= 100; }
@@ fn corners.rs intensity_centroid
@ spec
  requires x < image.w(), y < image.h(), radius <= 100, image.w() <= 0x7fff_ffff, image.h() <= 0x7fff_ffff
  ensures r == centroid(image, x as int, y as int, radius as int)
@ begin
  let ghost (cx, cy, rad) = (x as int, y as int, radius as int);
@ subst?
-(y_centroid as f32).atan2(x_centroid as f32)
=>> orientation_of(y_centroid, x_centroid)
@ before x_centroid +=
  proof { small_prod(x_count as int, pixel as int, radius as int); }
@ before y_centroid +=
  proof { small_prod(y_count as int, pixel as int, radius as int); }
@ loop 0
  invariant x_max <= image.w(), y_max <= image.h(), x_max - x_min <= 2 * radius + 1, y_max - y_min <= 2 * radius + 1, radius <= 100, x_min == lo(cx, rad), y_min == lo(cy, rad), cx - x_min <= radius, cy - y_min <= radius,
    cx < x_max <= cx + radius + 1, cy < y_max <= cy + radius + 1, x_start == x_min - cx, y_start == cy - y_min,
    start__0 == y_min, end__0 == y_max, y_min < y_max, y_min <= y <= y_max, x_min < x_max, x_count == x_start, y_count == y_start, y_centroid == 0,
    -5_125_500 * (y - y_min) <= x_centroid <= 5_125_500 * (y - y_min), x_centroid == mx(image, x_min as int, x_max as int, y_min as int, y as int, cx)
@ loop 1
  invariant x_max <= image.w(), y_max <= image.h(), x_max - x_min <= 2 * radius + 1, y_max - y_min <= 2 * radius + 1, radius <= 100, x_min == lo(cx, rad), y_min == lo(cy, rad), cx - x_min <= radius, cy - y_min <= radius,
    cx < x_max <= cx + radius + 1, cy < y_max <= cy + radius + 1, x_start == x_min - cx, y_start == cy - y_min,
    start__1 == x_min, end__1 == x_max, x_min <= x <= x_max, y_min <= y < y_max, x_count == x - cx, y_count == y_start, y_centroid == 0,
    -5_125_500 * (y - y_min) - 25_500 * (x - x_min) <= x_centroid <= 5_125_500 * (y - y_min) + 25_500 * (x - x_min),
    x_centroid == mx(image, x_min as int, x_max as int, y_min as int, y as int, cx) + rowx(image, y as int, x_min as int, x as int, cx)
@ loop 2
  invariant x_max <= image.w(), y_max <= image.h(), x_max - x_min <= 2 * radius + 1, y_max - y_min <= 2 * radius + 1, radius <= 100, x_min == lo(cx, rad), y_min == lo(cy, rad), cx - x_min <= radius, cy - y_min <= radius,
    cx < x_max <= cx + radius + 1, cy < y_max <= cy + radius + 1, x_start == x_min - cx, y_start == cy - y_min,
    start__2 == x_min, end__2 == x_max, x_min <= x <= x_max, y_min < y_max, y_count == y_start,
    -5_125_500 * (x - x_min) <= y_centroid <= 5_125_500 * (x - x_min), y_centroid == my(image, x_min as int, x as int, y_min as int, y_max as int, cy),
    x_centroid == mx(image, x_min as int, x_max as int, y_min as int, y_max as int, cx)
@ loop 3
  invariant x_max <= image.w(), y_max <= image.h(), x_max - x_min <= 2 * radius + 1, y_max - y_min <= 2 * radius + 1, radius <= 100, x_min == lo(cx, rad), y_min == lo(cy, rad), cx - x_min <= radius, cy - y_min <= radius,
    cx < x_max <= cx + radius + 1, cy < y_max <= cy + radius + 1, x_start == x_min - cx, y_start == cy - y_min,
    start__3 == y_min, end__3 == y_max, x_min <= x < x_max, y_min <= y <= y_max, y_count == cy - y, 
    -5_125_500 * (x - x_min) - 25_500 * (y - y_min) <= y_centroid <= 5_125_500 * (x - x_min) + 25_500 * (y - y_min),
    y_centroid == my(image, x_min as int, x as int, y_min as int, y_max as int, cy) + coly(image, x as int, y_min as int, y as int, cy),
    x_centroid == mx(image, x_min as int, x_max as int, y_min as int, y_max as int, cx)
@@ struct corners.rs OrientedFastCorner
@@ text
#[derive(Clone, Copy)]
pub struct Point<T> { pub x: T, pub y: T }
/// std's sort_by over finite scores: a permutation with no smaller score before a larger one
pub uninterp spec fn less(a: f32, b: f32) -> bool;
pub axiom fn ax_less(a: u8, b: u8) ensures less(f32_of(a), f32_of(b)) == (a < b);
pub open spec fn perm(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]) && forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k) }
#[verifier::external_body]
pub fn sort_by_score_desc(v: &mut Vec<Corner>) -> (p: Ghost<Seq<int>>)
  ensures perm(p@, old(v)@.len() as int), final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < p@.len() ==> #[trigger] final(v)@[i] == old(v)@[p@[i]],
    forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> !less((#[trigger] final(v)@[i]).score, (#[trigger] final(v)@[j]).score)
{ v.sort_by(|a, b| b.score.partial_cmp(&a.score).unwrap()); Ghost::assume_new() }
/// random points of the half-open ranges (rand's Uniform); it panics on an empty range
#[verifier::external_body]
pub fn sample_points(min_x: u32, max_x: u32, min_y: u32, max_y: u32, n: usize, seed: Option<u64>) -> (r: Vec<Point<u32>>)
  requires min_x < max_x, min_y < max_y ensures r@.len() == n, forall|i: int| 0 <= i < n ==> min_x <= (#[trigger] r@[i]).x < max_x && min_y <= r@[i].y < max_y { unimplemented!() }
#[verifier::external_body]
pub fn sort_u8(v: &mut Vec<u8>) ensures final(v)@.len() == old(v)@.len() { v.sort() }
#[verifier::external_body]
pub fn fraction_of(n: usize, target: usize, area: u32) -> usize { (n as f32 * (1. - (target as f32) / (area as f32))) as usize }
pub open spec fn in_margin(im: &GrayImage, e: int, x: int, y: int) -> bool { e <= x < im.w() - e && e <= y < im.h() - e }
pub open spec fn ok_corner(im: &GrayImage, t: int, e: int, c: Corner) -> bool {
  is_fast(im, 9, t, c.x as int, c.y as int) && in_margin(im, e, c.x as int, c.y as int) && scored(im, t, c) }
pub open spec fn scored(im: &GrayImage, t: int, c: Corner) -> bool { exists|s: u8| s as int >= t && #[trigger] f32_of(s) == c.score && is_score(im, 9, c.x as int, c.y as int, s as int) }
/// the corners of the margin at the positions before (x1, y1), each once
#[verifier::opaque]
pub open spec fn all_before(im: &GrayImage, t: int, e: int, v: Seq<Corner>, x1: int, y1: int) -> bool {
  (forall|i: int| 0 <= i < v.len() ==> #[trigger] ok_corner(im, t, e, v[i]) && before(v[i].x as int, v[i].y as int, x1, y1))
  && (forall|i: int, j: int| 0 <= i < j < v.len() ==> before((#[trigger] v[i]).x as int, v[i].y as int, (#[trigger] v[j]).x as int, v[j].y as int))
  && (forall|x: int, y: int| #[trigger] is_fast(im, 9, t, x, y) && in_margin(im, e, x, y) && before(x, y, x1, y1) ==> listed(v, x, y)) }
pub proof fn all_start(im: &GrayImage, t: int, e: int) ensures all_before(im, t, e, Seq::empty(), e, e) { reveal(all_before); reveal(listed); }
pub proof fn all_skip(im: &GrayImage, t: int, e: int, v: Seq<Corner>, x1: int, y1: int)
  requires all_before(im, t, e, v, x1, y1), !is_fast(im, 9, t, x1, y1) ensures all_before(im, t, e, v, x1 + 1, y1) { reveal(all_before); }
pub proof fn all_row(im: &GrayImage, t: int, e: int, v: Seq<Corner>, y1: int)
  requires all_before(im, t, e, v, im.w() - e, y1) ensures all_before(im, t, e, v, e, y1 + 1) { reveal(all_before); }
pub proof fn all_push(im: &GrayImage, t: int, e: int, v: Seq<Corner>, c: Corner)
  requires all_before(im, t, e, v, c.x as int, c.y as int), ok_corner(im, t, e, c) ensures all_before(im, t, e, v.push(c), c.x as int + 1, c.y as int)
{
  reveal(all_before); reveal(listed);
  let w = v.push(c);
  assert forall|i: int| 0 <= i < w.len() implies #[trigger] ok_corner(im, t, e, w[i]) && before(w[i].x as int, w[i].y as int, c.x as int + 1, c.y as int) by { if i < v.len() { assert(ok_corner(im, t, e, v[i])); } }
  assert forall|i: int, j: int| 0 <= i < j < w.len() implies before((#[trigger] w[i]).x as int, w[i].y as int, (#[trigger] w[j]).x as int, w[j].y as int) by { assert(ok_corner(im, t, e, v[i])); }
  assert forall|x: int, y: int| #[trigger] is_fast(im, 9, t, x, y) && in_margin(im, e, x, y) && before(x, y, c.x as int + 1, c.y as int) implies listed(w, x, y) by {
    if before(x, y, c.x as int, c.y as int) { assert(listed(v, x, y)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).x == x && v[i].y == y; assert(w[i] == v[i]); } else { assert(w[v.len() as int] == c); } }
}
/// o holds every corner of the margin exactly once, best scores first
pub open spec fn ranked(im: &GrayImage, t: int, e: int, o: Seq<Corner>) -> bool {
  (forall|i: int| 0 <= i < o.len() ==> #[trigger] ok_corner(im, t, e, o[i]))
  && (forall|i: int, j: int| 0 <= i < j < o.len() ==> !less((#[trigger] o[i]).score, (#[trigger] o[j]).score) && !(o[i].x == o[j].x && o[i].y == o[j].y))
  && (forall|x: int, y: int| #[trigger] is_fast(im, 9, t, x, y) && in_margin(im, e, x, y) ==> listed(o, x, y)) }
pub proof fn lemma_ranked(im: &GrayImage, t: int, e: int, v: Seq<Corner>, o: Seq<Corner>, p: Seq<int>)
  requires all_before(im, t, e, v, e, im.h() - e), perm(p, v.len() as int), o.len() == v.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] o[i] == v[p[i]],
    forall|i: int, j: int| 0 <= i < j < o.len() ==> !less((#[trigger] o[i]).score, (#[trigger] o[j]).score)
  ensures ranked(im, t, e, o)
{
  reveal(all_before); reveal(listed);
  assert forall|i: int| 0 <= i < o.len() implies #[trigger] ok_corner(im, t, e, o[i]) by { assert(ok_corner(im, t, e, v[p[i]])); }
  assert forall|i: int, j: int| 0 <= i < j < o.len() implies !((#[trigger] o[i]).x == (#[trigger] o[j]).x && o[i].y == o[j].y) by { let (a, b) = (p[i], p[j]); assert(a != b); assert(o[i] == v[a] && o[j] == v[b]);
    if a < b { assert(before(v[a].x as int, v[a].y as int, v[b].x as int, v[b].y as int)); } else { assert(before(v[b].x as int, v[b].y as int, v[a].x as int, v[a].y as int)); } }
  assert forall|x: int, y: int| #[trigger] is_fast(im, 9, t, x, y) && in_margin(im, e, x, y) implies listed(o, x, y) by { assert(listed(v, x, y));
    let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).x == x && v[k].y == y; assert(p.contains(k)); let i = choose|i: int| 0 <= i < p.len() && p[i] == k; assert(o[i] == v[k]); }
}
pub open spec fn top_of(im: &GrayImage, r: Seq<OrientedFastCorner>, o: Seq<Corner>, n: int) -> bool {
  r.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).corner == o[i] && r[i].orientation == centroid(im, o[i].x as int, o[i].y as int, 15) }
@@ fn corners.rs oriented_fast
@ spec
  requires image.w() <= 0x7fff_ffff, image.h() <= 0x7fff_ffff, image.np() < 0x1_0000_0000
  ensures exists|t: u8, o: Seq<Corner>| (threshold is Some ==> t == threshold->0) && #[trigger] ranked(image, t as int, edge_radius as int, o)
     && top_of(image, r@, o, if o.len() < target_num_corners { o.len() as int } else { target_num_corners as int })
@ before return vec![]
  proof { let t = if threshold is Some { threshold->0 } else { 0u8 }; assert(ranked(image, t as int, edge_radius as int, Seq::empty())); }
@ subst
let mut rng = if let Some(s) = seed {
            StdRng::seed_from_u64(s)
        } else {
            StdRng::from_entropy()
        };
        let dist_x = rand::distributions::Uniform::new(min_x, max_x);
        let dist_y = rand::distributions::Uniform::new(min_y, max_y);
=>> proof { assert(width * height >= 1) by(nonlinear_arith) requires width >= 1, height >= 1; }
@ subst
(0..sample_size)
            .map(|_| Point::new(dist_x.sample(&mut rng), dist_y.sample(&mut rng)))
            .collect();
=>> sample_points(min_x, max_x, min_y, max_y, sample_size, seed);
@ subst
NUM_SAMPLE_POINTS.min(
=>> Ord::min(NUM_SAMPLE_POINTS, 
@ subst
let mut fast_scores: Vec<u8> = sample_coords
            .iter()
            .map(|c| fast_corner_score(image, 0, c.x, c.y, Fast::Nine))
            .collect();
        fast_scores.sort();
=>> let mut fast_scores: Vec<u8> = Vec::new();
  for i in 0..sample_coords.len() invariant fast_scores@.len() == i, sample_coords@.len() == sample_size { let c = &sample_coords[i]; fast_scores.push(fast_corner_score(image, 0, c.x, c.y, Fast::Nine)); }
  sort_u8(&mut fast_scores);
@ subst?
let target_corner_fraction = (target_num_corners as f32) / ((width * height) as f32);
        let fraction_idx = (sample_size as f32 * (1. - target_corner_fraction)) as usize;
=>> let fraction_idx = fraction_of(sample_size, target_num_corners, width * height);
@ subst
fraction_idx.min(
=>> Ord::min(fraction_idx,
@ loop 0
  invariant start__0 == edge_radius, end__0 == height - edge_radius, edge_radius <= y, width == image.w(), height == image.h(), 2 * edge_radius < width, 2 * edge_radius < height,
    all_before(image, local_threshold as int, edge_radius as int, corners@, edge_radius as int, y as int),
@ loop 0 before
  proof { all_start(image, local_threshold as int, edge_radius as int); }
@ loop 1
  invariant start__1 == edge_radius, end__1 == width - edge_radius, edge_radius <= x <= width - edge_radius, edge_radius <= y < height - edge_radius, width == image.w(), height == image.h(),
    all_before(image, local_threshold as int, edge_radius as int, corners@, x as int, y as int),
@ loop 1 begin
  let ghost v0 = corners@;
@ subst
corners.push(Corner::new(x, y, score as f32));
=>> corners.push(Corner::new(x, y, u8_f32(score)));
  proof { assert(is_fast(image, 9, score as int, x as int, y as int)); assert(scored(image, local_threshold as int, corners@.last())); all_push(image, local_threshold as int, edge_radius as int, v0, corners@.last()); }
@ loop 1 end
  proof { if !is_fast(image, 9, local_threshold as int, x as int, y as int) { all_skip(image, local_threshold as int, edge_radius as int, v0, x as int, y as int); } }
@ loop 1 after
  proof { all_row(image, local_threshold as int, edge_radius as int, corners@, y as int); }
@ subst
corners.sort_by(|a, b| b.score.partial_cmp(&a.score).unwrap());
=>> let ghost v1 = corners@; let p = sort_by_score_desc(&mut corners); let ghost o = corners@;
  proof { lemma_ranked(image, local_threshold as int, edge_radius as int, v1, o, p@); }
@ subst
let top_corners = if corners.len() < target_num_corners {
        &corners
    } else {
        &corners[..target_num_corners]
    };
=>> let top_corners: usize = if corners.len() < target_num_corners { corners.len() } else { target_num_corners };
@ subst
top_corners
        .iter()
        .map(|c| OrientedFastCorner {
            corner: *c,
            orientation: intensity_centroid(image, c.x, c.y, 15),
        })
        .collect()
=>> let mut out: Vec<OrientedFastCorner> = Vec::new();
  for i in 0..top_corners invariant top_corners <= corners@.len(), corners@ == o, top_of(image, out@, o, i as int), ranked(image, local_threshold as int, edge_radius as int, o)
  { assert(ok_corner(image, local_threshold as int, edge_radius as int, o[i as int])); let c = &corners[i]; out.push(OrientedFastCorner { corner: *c, orientation: intensity_centroid(image, c.x, c.y, 15) }); }
  out
