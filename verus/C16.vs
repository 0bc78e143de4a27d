@@ include prelude.rs
@@ include hashmap.vs
@@ include conn.vs
@@ include forest.vs
@@ text
/// number of classes among the first n elements
pub open spec fn nroots(p: Seq<usize>, n: int) -> int decreases n { if n <= 0 { 0 } else { nroots(p, n - 1) + if p[n - 1] == n - 1 { 1int } else { 0 } } }
pub proof fn lemma_nroots(p: Seq<usize>, n: int) requires 0 <= n <= p.len() ensures 0 <= nroots(p, n) <= n decreases n { if n > 0 { lemma_nroots(p, n - 1); } }
/// roots are exactly the elements that represent themselves
pub proof fn lemma_roots_are_reps(p: Seq<usize>) requires acyclic(p)
  ensures forall|i: int| 0 <= i < p.len() ==> ((#[trigger] p[i] == i) <==> cls(p)[i] == i)
{ lemma_acyclic(p); assert forall|i: int| 0 <= i < p.len() implies ((#[trigger] p[i] == i) <==> cls(p)[i] == i) by { let ci = cls(p)[i]; assert(p[ci] == ci); } }
@@ fn union_find.rs DisjointSetForest::num_trees
@ spec
  requires wf(*self),
  ensures r == nroots(self.parent@, self.count as int),
@ subst
self.parent
            .iter()
            .enumerate()
            .fold(0, |acc, (i, p)| acc + if i == *p { 1 } else { 0 })
=>> { let mut acc: usize = 0; let n = self.parent.len();
  for i in 0..n invariant acc == nroots(self.parent@, i as int), n == self.parent@.len(), acc <= i
  { let p = &self.parent[i]; acc = acc + if i == *p { 1 } else { 0 }; }
  acc }
@@ text
pub open spec fn member(s: Seq<Vec<usize>>, k: int, t: int, x: int) -> bool { 0 <= k < s.len() && 0 <= t < s[k]@.len() && s[k]@[t] == x }
/// after the first n elements: sets[k] lists, in increasing order, the elements below n represented by root ro[k]
#[verifier::opaque]
pub open spec fn listed(c: Seq<int>, s: Seq<Vec<usize>>, ro: Seq<int>, m: Map<usize, usize>, n: int) -> bool {
  ro.len() == s.len()
  && (forall|k: int, t: int| 0 <= k < s.len() && 0 <= t < s[k]@.len() ==> #[trigger] s[k]@[t] < n && c[s[k]@[t] as int] == ro[k])
  && (forall|k: int, t: int| 0 <= k < s.len() && 0 <= t < s[k]@.len() - 1 ==> #[trigger] s[k]@[t] < s[k]@[t + 1])
  && (forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k])@.len() > 0)
  && (forall|x: int| 0 <= x < n ==> #[trigger] c[x] >= 0 && c[x] <= usize::MAX && m.dom().contains(c[x] as usize) && in_set(s, m[c[x] as usize] as int, x))
  && (forall|v: usize| #[trigger] m.dom().contains(v) ==> m[v] < s.len() && ro[m[v] as int] == v)
  && (forall|k: int| 0 <= k < s.len() ==> #[trigger] ro_at(ro, m, k))
}
#[verifier::opaque]
pub open spec fn in_set(s: Seq<Vec<usize>>, k: int, x: int) -> bool { exists|t: int| #[trigger] member(s, k, t, x) }
pub proof fn lemma_in(s: Seq<Vec<usize>>, k: int, t: int, x: int) requires member(s, k, t, x) ensures in_set(s, k, x) { reveal(in_set); }
pub proof fn lemma_in_at(s: Seq<Vec<usize>>, k: int, x: int) -> (t: int) requires in_set(s, k, x) ensures member(s, k, t, x) { reveal(in_set); choose|t: int| #[trigger] member(s, k, t, x) }
pub open spec fn ro_at(ro: Seq<int>, m: Map<usize, usize>, k: int) -> bool { 0 <= ro[k] <= usize::MAX && m.dom().contains(ro[k] as usize) && m[ro[k] as usize] == k }
pub open spec fn in_some(s: Seq<Vec<usize>>, x: int) -> bool { exists|k: int| #[trigger] in_set(s, k, x) }
/// the result is the partition into classes
pub open spec fn partition(c: Seq<int>, s: Seq<Vec<usize>>, n: int) -> bool {
  (forall|x: int| 0 <= x < n ==> #[trigger] in_some(s, x))
  && (forall|k: int, x: int| #[trigger] in_set(s, k, x) ==> 0 <= x < n)
  && (forall|k: int, x: int, l: int, y: int| #[trigger] in_set(s, k, x) && #[trigger] in_set(s, l, y) ==> (k == l <==> c[x] == c[y]))
  && (forall|k: int, t: int| 0 <= k < s.len() && 0 <= t < s[k]@.len() - 1 ==> #[trigger] s[k]@[t] < s[k]@[t + 1])
  && (forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k])@.len() > 0)
}
pub proof fn lemma_partition(c: Seq<int>, s: Seq<Vec<usize>>, ro: Seq<int>, m: Map<usize, usize>, n: int)
  requires listed(c, s, ro, m, n), 0 <= n <= c.len() ensures partition(c, s, n)
{
  reveal(listed);
  assert forall|x: int| 0 <= x < n implies #[trigger] in_some(s, x) by { assert(c[x] >= 0); assert(in_set(s, m[c[x] as usize] as int, x)); }
  assert forall|k: int, x: int| #[trigger] in_set(s, k, x) implies 0 <= x < n && c[x] == ro[k] && 0 <= k < s.len() by { let t = lemma_in_at(s, k, x); assert(s[k]@[t] < n); }
  assert forall|k: int, x: int, l: int, y: int| #[trigger] in_set(s, k, x) && #[trigger] in_set(s, l, y) implies (k == l <==> c[x] == c[y]) by { assert(ro_at(ro, m, k)); assert(ro_at(ro, m, l)); }
}
pub proof fn lemma_listed_new(c: Seq<int>, s: Seq<Vec<usize>>, ro: Seq<int>, m: Map<usize, usize>, n: int, v: Vec<usize>)
  requires listed(c, s, ro, m, n), 0 <= n < c.len(), c.len() <= usize::MAX, 0 <= c[n] <= usize::MAX, !m.dom().contains(c[n] as usize), v@ == seq![n as usize], s.len() <= usize::MAX
  ensures listed(c, s.push(v), ro.push(c[n]), m.insert(c[n] as usize, s.len() as usize), n + 1)
{
  reveal(listed);
  let s2 = s.push(v); let ro2 = ro.push(c[n]); let m2 = m.insert(c[n] as usize, s.len() as usize);
  assert forall|k: int, t: int| 0 <= k < s2.len() && 0 <= t < s2[k]@.len() implies #[trigger] s2[k]@[t] < n + 1 && c[s2[k]@[t] as int] == ro2[k] by { if k < s.len() { assert(s2[k] == s[k]); assert(s[k]@[t] < n); } }
  assert forall|k: int, t: int| 0 <= k < s2.len() && 0 <= t < s2[k]@.len() - 1 implies #[trigger] s2[k]@[t] < s2[k]@[t + 1] by { if k < s.len() { assert(s2[k] == s[k]); assert(s[k]@[t] < s[k]@[t + 1]); } }
  assert forall|k: int| 0 <= k < s2.len() implies (#[trigger] s2[k])@.len() > 0 by { if k < s.len() { assert(s2[k] == s[k]); } }
  assert forall|x: int| 0 <= x < n + 1 implies #[trigger] c[x] >= 0 && c[x] <= usize::MAX && m2.dom().contains(c[x] as usize) && in_set(s2, m2[c[x] as usize] as int, x) by {
    if x < n { let k = m[c[x] as usize] as int; let t = lemma_in_at(s, k, x); assert(s2[k] == s[k]); lemma_in(s2, k, t, x); } else { assert(s2[s.len() as int] == v); lemma_in(s2, s.len() as int, 0, n); } }
  assert forall|k: int| 0 <= k < s2.len() implies #[trigger] ro_at(ro2, m2, k) by { if k < s.len() { assert(ro2[k] == ro[k]); assert(ro_at(ro, m, k)); } }
  assert forall|v2: usize| #[trigger] m2.dom().contains(v2) implies m2[v2] < s2.len() && ro2[m2[v2] as int] == v2 by { if v2 != c[n] as usize { assert(m.dom().contains(v2)); } }
}
pub proof fn lemma_listed_old(c: Seq<int>, s: Seq<Vec<usize>>, ro: Seq<int>, m: Map<usize, usize>, n: int, s2: Seq<Vec<usize>>, k0: int)
  requires listed(c, s, ro, m, n), 0 <= n < c.len(), c.len() <= usize::MAX, 0 <= c[n] <= usize::MAX, m.dom().contains(c[n] as usize), k0 == m[c[n] as usize],
    0 <= k0 < s.len(), s2.len() == s.len(), s2[k0]@ == s[k0]@.push(n as usize), forall|k: int| 0 <= k < s.len() && k != k0 ==> s2[k] == #[trigger] s[k],
  ensures listed(c, s2, ro, m, n + 1)
{
  reveal(listed);
  assert forall|k: int, t: int| 0 <= k < s2.len() && 0 <= t < s2[k]@.len() implies #[trigger] s2[k]@[t] < n + 1 && c[s2[k]@[t] as int] == ro[k] by { if k != k0 { assert(s2[k] == s[k]); assert(s[k]@[t] < n); } else if t < s[k]@.len() { assert(s[k]@[t] < n); } }
  assert forall|k: int, t: int| 0 <= k < s2.len() && 0 <= t < s2[k]@.len() - 1 implies #[trigger] s2[k]@[t] < s2[k]@[t + 1] by { if k != k0 { assert(s2[k] == s[k]); assert(s[k]@[t] < s[k]@[t + 1]); } else { assert(s[k]@[t] < n); if t < s[k]@.len() - 1 { assert(s[k]@[t] < s[k]@[t + 1]); } } }
  assert forall|k: int| 0 <= k < s2.len() implies (#[trigger] s2[k])@.len() > 0 by { if k != k0 { assert(s2[k] == s[k]); } }
  assert forall|x: int| 0 <= x < n + 1 implies #[trigger] c[x] >= 0 && c[x] <= usize::MAX && m.dom().contains(c[x] as usize) && in_set(s2, m[c[x] as usize] as int, x) by {
    if x < n { let k = m[c[x] as usize] as int; let t = lemma_in_at(s, k, x); if k != k0 { assert(s2[k] == s[k]); } lemma_in(s2, k, t, x); } else { lemma_in(s2, k0, s[k0]@.len() as int, n); } }
}
@@ fn union_find.rs DisjointSetForest::trees
@ spec
  requires wf(*old(self)),
  ensures wf(*final(self)), final(self).count == old(self).count, cls(final(self).parent@) == cls(old(self).parent@), partition(cls(old(self).parent@), r@, old(self).count as int),
@ subst
use std::collections::HashMap;
=>>
@ subst
root_sets.get(&root).cloned()
=>> copied(root_sets.get(&root))
@ subst
vec![i]
=>> one_vec(i)
@ subst
sets[set_idx].push(i);
=>> push_at(&mut sets, set_idx, i);
@ loop 0
invariant wf(*self), self.count == n, cls(self.parent@) == c, listed(c, sets@, ro, root_sets.m(), i as int), c.len() == n, sets@.len() <= i,
@ loop 0 begin
let ghost s0 = sets@; let ghost m0 = root_sets.m(); proof { lemma_acyclic(self.parent@); assert(0 <= c[i as int] < n); lemma_listed_bound(c, s0, ro, m0, i as int); }
@ loop 0 end
proof { if m0.dom().contains(root) { lemma_listed_old(c, s0, ro, m0, i as int, sets@, m0[root] as int); } else { lemma_listed_new(c, s0, ro, m0, i as int, sets@.last()); assert(sets@ =~= s0.push(sets@.last())); ro = ro.push(c[i as int]); } }
@ loop 0 before
let ghost c = cls(self.parent@); let ghost n = self.count; let ghost mut ro: Seq<int> = Seq::empty();
proof { lemma_acyclic(self.parent@); reveal(listed); }
@ loop 0 after
proof { lemma_partition(c, sets@, ro, root_sets.m(), n as int); }
@@ text
pub proof fn lemma_listed_bound(c: Seq<int>, s: Seq<Vec<usize>>, ro: Seq<int>, m: Map<usize, usize>, n: int)
  requires listed(c, s, ro, m, n) ensures forall|v: usize| #[trigger] m.dom().contains(v) ==> m[v] < s.len() { reveal(listed); }
pub fn copied(o: Option<&usize>) -> (r: Option<usize>) ensures r is Some <==> o is Some, r is Some ==> r->0 == *o->0 { match o { Some(v) => Some(*v), None => None } }
pub fn one_vec(x: usize) -> (r: Vec<usize>) ensures r@ == seq![x] { let mut v: Vec<usize> = Vec::new(); v.push(x); assert(v@ =~= seq![x]); v }
#[verifier::external_body]
pub fn push_at(s: &mut Vec<Vec<usize>>, k: usize, x: usize) requires k < old(s)@.len()
  ensures final(s)@.len() == old(s)@.len(), final(s)@[k as int]@ == old(s)@[k as int]@.push(x), forall|j: int| 0 <= j < old(s)@.len() && j != k ==> final(s)@[j] == #[trigger] old(s)@[j] { s[k].push(x) }

// ---- the history property: after any sequence of unions the classes are the equivalence closure of the united pairs
pub open spec fn pairs_rel(ps: Seq<(int, int)>) -> spec_fn(int, int) -> bool { |a: int, b: int| exists|k: int| 0 <= k < ps.len() && (#[trigger] ps[k] == (a, b) || ps[k] == (b, a)) }
pub open spec fn represents(f: DisjointSetForest, ps: Seq<(int, int)>) -> bool {
  wf(f) && (forall|k: int| 0 <= k < ps.len() ==> 0 <= (#[trigger] ps[k]).0 < f.count && 0 <= ps[k].1 < f.count)
  && (forall|x: int, y: int| 0 <= x < f.count && 0 <= y < f.count ==> (#[trigger] eqv(f, x, y) <==> conn(pairs_rel(ps), x, y)))
}
/// a new forest represents the empty history (contract of `new`)
pub proof fn theorem_new(f: DisjointSetForest)
  requires wf(f), forall|i: int| 0 <= i < f.count ==> #[trigger] cls(f.parent@)[i] == i
  ensures represents(f, Seq::empty())
{
  let e = pairs_rel(Seq::empty());
  assert forall|x: int, y: int| 0 <= x < f.count && 0 <= y < f.count implies (#[trigger] eqv(f, x, y) <==> conn(e, x, y)) by {
    conn_refl(e, x); let id = |k: int| k; assert(kept(e, id)); if conn(e, x, y) { conn_kept(e, id, x, y); } }
}
/// union extends the history by its pair (contract of `union`)
pub proof fn theorem_union(f: DisjointSetForest, g: DisjointSetForest, ps: Seq<(int, int)>, i: int, j: int)
  requires represents(f, ps), 0 <= i < f.count, 0 <= j < f.count, wf(g), g.count == f.count,
    forall|x: int, y: int| 0 <= x < g.count && 0 <= y < g.count ==> (#[trigger] eqv(g, x, y) <==> eqv(f, x, y) || (eqv(f, x, i) && eqv(f, y, j)) || (eqv(f, x, j) && eqv(f, y, i))),
  ensures represents(g, ps.push((i, j)))
{
  let qs = ps.push((i, j)); let e = pairs_rel(ps); let e2 = pairs_rel(qs); let n = f.count as int;
  assert(sub(e, e2)) by { assert forall|a: int, b: int| #[trigger] e(a, b) implies e2(a, b) by { let k = choose|k: int| 0 <= k < ps.len() && (#[trigger] ps[k] == (a, b) || ps[k] == (b, a)); assert(qs[k] == ps[k]); } }
  assert(sym(e2)); assert(sym(e));
  assert(e2(i, j)) by { assert(qs[ps.len() as int] == (i, j)); }
  let c = |x: int| if 0 <= x < n { cls(g.parent@)[x] } else { -1 };
  assert(kept(e2, c)) by { assert forall|a: int, b: int| #[trigger] e2(a, b) implies c(a) == c(b) by {
      let k = choose|k: int| 0 <= k < qs.len() && (#[trigger] qs[k] == (a, b) || qs[k] == (b, a));
      if k < ps.len() { assert(qs[k] == ps[k]); assert(e(a, b)); conn_step(e, a, b); assert(eqv(f, a, b)); assert(eqv(g, a, b)); } else { assert(eqv(f, i, i) && eqv(f, j, j)); assert(eqv(g, i, j)); }
  } }
  assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n implies (#[trigger] eqv(g, x, y) <==> conn(e2, x, y)) by {
    if conn(e2, x, y) { conn_kept(e2, c, x, y); }
    if eqv(g, x, y) {
      conn_step(e2, i, j); conn_sym(e2, i, j);
      if eqv(f, x, y) { conn_mono(e, e2, x, y); }
      else if eqv(f, x, i) && eqv(f, y, j) { conn_mono(e, e2, x, i); conn_mono(e, e2, y, j); conn_sym(e2, y, j); conn_trans(e2, x, i, j); conn_trans(e2, x, j, y); }
      else { conn_mono(e, e2, x, j); conn_mono(e, e2, y, i); conn_sym(e2, y, i); conn_trans(e2, x, j, i); conn_trans(e2, x, i, y); }
    }
  }
}
/// root and find leave the represented relation alone (their contracts keep cls)
pub proof fn theorem_query(f: DisjointSetForest, g: DisjointSetForest, ps: Seq<(int, int)>)
  requires represents(f, ps), wf(g), g.count == f.count, cls(g.parent@) == cls(f.parent@) ensures represents(g, ps)
{ assert forall|x: int, y: int| 0 <= x < g.count && 0 <= y < g.count implies (#[trigger] eqv(g, x, y) <==> conn(pairs_rel(ps), x, y)) by { assert(eqv(f, x, y) == eqv(g, x, y)); } }
/// what sizes_ok says: the recorded size of every root is the size of its class
pub proof fn theorem_sizes(f: DisjointSetForest, i: int) requires wf(f), 0 <= i < f.count, f.parent@[i] == i
  ensures f.tree_size@[i] as int == csize(cls(f.parent@), i, f.count as int) { reveal(sizes_ok); }
