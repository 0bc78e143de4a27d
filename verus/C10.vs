@@ include prelude.rs
@@ text
/// number of the first n pixels (row-major) whose channel c has value v
pub open spec fn cnt<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, n: int) -> int decreases n {
  if n <= 0 { 0 } else { cnt(im, c, v, n - 1) + if im.pk(n - 1).ch()[c] == v { 1int } else { 0 } }
}
/// number of the first n pixels whose channel c is at most v
pub open spec fn cnt_le<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, n: int) -> int decreases n {
  if n <= 0 { 0 } else { cnt_le(im, c, v, n - 1) + if im.pk(n - 1).ch()[c] <= v { 1int } else { 0 } }
}
pub proof fn lemma_cnt<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, v: int, n: int)
  requires n >= 0
  ensures 0 <= cnt(im, c, v, n) <= n, 0 <= cnt_le(im, c, v, n) <= n, cnt_le(im, c, v, n) == cnt_le(im, c, v - 1, n) + cnt(im, c, v, n), v < 0 ==> cnt_le(im, c, v, n) == 0, v >= 255 ==> cnt_le(im, c, v, n) == n
  decreases n
{ if n > 0 { lemma_cnt(im, c, v, n - 1); } }
pub open spec fn is_hist<P: Pixel<Subpixel = u8>>(im: &Image<P>, h: Seq<[u32; 256]>) -> bool {
  h.len() == P::cc() && forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> (#[trigger] h[c]@[v]) == cnt(im, c, v, im.np())
}
pub open spec fn is_cum<P: Pixel<Subpixel = u8>>(im: &Image<P>, h: Seq<[u32; 256]>) -> bool {
  h.len() == P::cc() && forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> (#[trigger] h[c]@[v]) == cnt_le(im, c, v, im.np())
}
#[verifier::external_body]
pub fn vec_of_arrays(v: [u32; 256], n: usize) -> (r: Vec<[u32; 256]>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == v { vec![v; n] }
#[verifier::external_body]
pub fn vec_of_none<'a>(n: usize) -> (r: Vec<(Option<&'a u8>, Option<&'a u8>)>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).0.is_none() && r@[i].1.is_none() { vec![(None, None); n] }
@@ struct stats.rs ChannelHistogram
@@ struct stats.rs CumulativeChannelHistogram
@@ struct stats.rs MinMax
@@ fn stats.rs histogram
@ spec
  requires image.np() <= u32::MAX,
  ensures is_hist(image, r.channels@),
@ subst
vec![[0u32; 256]; P::CHANNEL_COUNT as usize]
=>> vec_of_arrays([0u32; 256], P::channel_count() as usize)
@ subst
for (i, c) in pix.channels().iter().enumerate() {
=>> let chans__ = pix.channels(); let e__ = chans__.len();
   for i in 0..e__
    invariant hist@.len() == P::cc(), e__ == P::cc(), chans__@ == pix.ch(), *pix == image.pk(k__0 as int), k__0 < image.np(), image.np() <= u32::MAX,
      forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> (#[trigger] hist@[c]@[v]) == cnt(image, c, v, if c < i { k__0 + 1 } else { k__0 as int }),
   { let c = &chans__[i];
     proof { lemma_cnt(image, i as int, *c as int, k__0 as int); }
@ loops 1
@ loop 0
  invariant hist@.len() == P::cc(), end__0 == image.np(),
    forall|c: int, v: int| 0 <= c < P::cc() && 0 <= v < 256 ==> (#[trigger] hist@[c]@[v]) == cnt(image, c, v, k__0 as int),
@@ fn stats.rs cumulative_histogram
@ spec
  requires image.np() <= u32::MAX,
  ensures is_cum(image, r.channels@),
@ loop 0
  invariant hist.channels@.len() == P::cc(), end__0 == P::cc(),
    forall|k: int, v: int| 0 <= k < P::cc() && 0 <= v < 256 ==> (#[trigger] hist.channels@[k]@[v]) == if k < c { cnt_le(image, k, v, image.np()) } else { cnt(image, k, v, image.np()) },
@ loop 0 begin
  proof { lemma_cnt(image, c as int, 0, image.np()); lemma_cnt(image, c as int, -1, image.np()); }
@ loop 1
  invariant hist.channels@.len() == P::cc(), end__1 == 256, 0 <= c < P::cc(),
    forall|k: int, v: int| 0 <= k < P::cc() && 0 <= v < 256 ==> (#[trigger] hist.channels@[k]@[v]) == if k < c || (k == c && v < i) { cnt_le(image, k, v, image.np()) } else { cnt(image, k, v, image.np()) },
@ loop 1 begin
  proof { lemma_cnt(image, c as int, i as int, image.np()); lemma_cnt(image, c as int, i - 1, image.np()); }
@@ fn stats.rs percentile
@ spec
  requires 0 < image.np() <= u32::MAX, p <= 100,
  ensures 100 * cnt_le(image, 0, r as int, image.np()) >= p * image.np(),
    forall|v: int| 0 <= v < r ==> 100 * #[trigger] cnt_le(image, 0, v, image.np()) < p * image.np(),
@ before let total
  proof { lemma_cnt(image, 0, 255, image.np()); }
@ loop 0
  invariant end__0 == 256, total == image.np(), forall|v: int| 0 <= v < 256 ==> (#[trigger] cum_hist@[v]) == cnt_le(image, 0, v, image.np()),
    forall|v: int| 0 <= v < i ==> 100 * #[trigger] cnt_le(image, 0, v, image.np()) < p * image.np(),
@ loop 0 begin
  proof { let a = 100 * cum_hist@[i as int]; lemma_cnt(image, 0, i as int, image.np()); let n = total as int; lemma_fundamental_div_mod(a, n); lemma_mod_bound(a, n);
    assert((a / n >= p) == (a >= p * n)) by(nonlinear_arith) requires a == n * (a / n) + a % n, 0 <= a % n < n, n > 0, p >= 0; 
    if i == 255 { lemma_cnt(image, 0, 255, image.np()); assert(100 * n >= p * n) by(nonlinear_arith) requires p <= 100, n > 0; } }
@ loop 0 after
  proof { lemma_cnt(image, 0, 255, image.np()); let n = total as int; assert(100 * n >= p * n) by(nonlinear_arith) requires p <= 100, n > 0; }
@ loop 0 end
  proof { assert(100 * cnt_le(image, 0, i as int, image.np()) < p * image.np()); }
@@ fn stats.rs min_max
@ sigsub <P, T>(image: &Image<P>) -> (r: Vec<MinMax<T>>) =>> <P>(image: &Image<P>) -> (r: Vec<MinMax<u8>>)
@ sigsub P: Pixel<Subpixel = T>, =>> P: Pixel<Subpixel = u8>,
@ sigsub T: Ord + Copy, =>>
@ spec
  requires image.np() > 0,
  ensures r@.len() == P::cc(),
    // true extremes of every channel
    forall|c: int| 0 <= c < P::cc() ==> covers(image, c, image.np(), (Some(&(#[trigger] r@[c]).min), Some(&r@[c].max))),
@ subst
!image.is_empty()
=>> image.len_px() > 0
@ subst
let mut ranges = vec![(None, None); P::CHANNEL_COUNT as usize];
=>> let mut ranges: Vec<(Option<&u8>, Option<&u8>)> = vec_of_none(P::channel_count() as usize);
@ subst
for (i, c) in pix.channels().iter().enumerate() {
=>> let chans__ = pix.channels(); let e__ = chans__.len(); proof { pix.ax_cc(); }
   for i in 0..e__
    invariant ranges@.len() == P::cc(), e__ == P::cc(), chans__@ == pix.ch(), *pix == image.pk(k__0 as int), k__0 < image.np(),
      forall|c: int| 0 <= c < P::cc() ==> covers(image, c, if c < i { k__0 + 1 } else { k__0 as int }, #[trigger] ranges@[c]),
   { let c = &chans__[i]; let ghost r0 = ranges@[i as int];
@ subst
let (current_min, current_max) = &mut ranges[i];
=>> let cur__ = &mut ranges[i]; let current_min = &mut cur__.0; let current_max = &mut cur__.1;
@ subst
current_min.map_or(true, |x| c < x)
=>> (match *current_min { None => true, Some(x) => *c < *x })
@ subst
current_max.map_or(true, |x| c > x)
=>> (match *current_max { None => true, Some(x) => *c > *x })
@ loops 1
@ loop 0
  invariant ranges@.len() == P::cc(), end__0 == image.np(),
      forall|c: int| 0 <= c < P::cc() ==> covers(image, c, k__0 as int, #[trigger] ranges@[c]),
@ subst
ranges
        .into_iter()
        .map(|(min, max)| MinMax {
            min: *min.unwrap(),
            max: *max.unwrap(),
        })
        .collect()
=>> let e__ = ranges.len(); let mut out__: Vec<MinMax<u8>> = Vec::new();
    for i in 0..e__
      invariant ranges@.len() == P::cc(), e__ == P::cc(), out__@.len() == i,
        forall|c: int| 0 <= c < P::cc() ==> covers(image, c, image.np(), #[trigger] ranges@[c]),
        forall|c: int| 0 <= c < i ==> Some((#[trigger] out__@[c]).min) == derefo(ranges@[c].0) && Some(out__@[c].max) == derefo(ranges@[c].1),
    { let (min, max) = ranges[i]; assert(covers(image, i as int, image.np(), ranges@[i as int])); out__.push(MinMax { min: *min.unwrap(), max: *max.unwrap() }); }
    proof { assert forall|c: int| 0 <= c < P::cc() implies covers(image, c, image.np(), (Some(&(#[trigger] out__@[c]).min), Some(&out__@[c].max))) by { assert(covers(image, c, image.np(), ranges@[c])); } }
    out__
@@ text
pub open spec fn derefo(o: Option<&u8>) -> Option<u8> { match o { Some(x) => Some(*x), None => None } }
pub open spec fn covers<P: Pixel<Subpixel = u8>>(im: &Image<P>, c: int, n: int, r: (Option<&u8>, Option<&u8>)) -> bool {
  (n == 0 ==> r.0.is_none() && r.1.is_none())
  && (n > 0 ==> r.0.is_some() && r.1.is_some()
     && (forall|k: int| 0 <= k < n ==> *r.0.unwrap() <= #[trigger] im.pk(k).ch()[c] <= *r.1.unwrap())
     && (exists|k: int| 0 <= k < n && #[trigger] im.pk(k).ch()[c] == *r.0.unwrap())
     && (exists|k: int| 0 <= k < n && #[trigger] im.pk(k).ch()[c] == *r.1.unwrap()))
}
