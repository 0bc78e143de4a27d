@@ text
pub fn unchecked_get(v: &Vec<usize>, i: usize) -> (r: usize) requires i < v@.len() ensures r == v@[i as int] { v[i] }
pub fn unchecked_set(v: &mut Vec<usize>, i: usize, x: usize) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { v[i] = x; }
pub fn iota(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == i
{ let mut v: Vec<usize> = Vec::new(); let mut i: usize = 0;
  while i < n invariant v@.len() == i, i <= n, forall|k: int| 0 <= k < i ==> v@[k] == k decreases n - i { v.push(i); i += 1; } v }
pub fn vec_of(x: usize, n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{ let mut v: Vec<usize> = Vec::new(); let mut i: usize = 0;
  while i < n invariant v@.len() == i, i <= n, forall|k: int| 0 <= k < i ==> v@[k] == x decreases n - i { v.push(x); i += 1; } v }
/// parent pointers p, a measure m that strictly increases towards the roots, and the representative c of every element
#[verifier::opaque]
pub open spec fn good(p: Seq<usize>, m: Seq<nat>, b: nat, c: Seq<int>) -> bool {
  m.len() == p.len() && c.len() == p.len()
  && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < p.len())
  && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] m[i]) <= b)
  && (forall|i: int| 0 <= i < p.len() && p[i] != i ==> (#[trigger] m[i]) < m[p[i] as int])
  && (forall|i: int| 0 <= i < p.len() && p[i] == i ==> #[trigger] c[i] == i)
  && (forall|i: int| 0 <= i < p.len() ==> #[trigger] c[i] == c[p[i] as int])
}
pub open spec fn acyclic(p: Seq<usize>) -> bool { exists|m: Seq<nat>, b: nat, c: Seq<int>| #[trigger] good(p, m, b, c) }
pub open spec fn has_cls(p: Seq<usize>, c: Seq<int>) -> bool { exists|m: Seq<nat>, b: nat| #[trigger] good(p, m, b, c) }
/// the representative of every element
pub closed spec fn cls(p: Seq<usize>) -> Seq<int> { choose|c: Seq<int>| has_cls(p, c) }
pub proof fn lemma_unique_at(p: Seq<usize>, m: Seq<nat>, b: nat, c: Seq<int>, m2: Seq<nat>, b2: nat, c2: Seq<int>, i: int)
  requires good(p, m, b, c), good(p, m2, b2, c2), 0 <= i < p.len()
  ensures c[i] == c2[i]
  decreases b - m[i]
{ reveal(good); if p[i] != i { let q = p[i] as int; assert(m[i] < m[q]); assert(m[q] <= b); lemma_unique_at(p, m, b, c, m2, b2, c2, q); } }
/// any function that is constant along parent pointers and fixes the roots is the representative function
pub proof fn lemma_cls(p: Seq<usize>, m: Seq<nat>, b: nat, c: Seq<int>)
  requires good(p, m, b, c)
  ensures cls(p) == c
{ reveal(good);
  assert(has_cls(p, c));
  let d = cls(p); assert(has_cls(p, d));
  let (m2, b2) = choose|m2: Seq<nat>, b2: nat| #[trigger] good(p, m2, b2, d);
  assert forall|i: int| 0 <= i < p.len() implies c[i] == d[i] by { lemma_unique_at(p, m, b, c, m2, b2, d, i); }
  assert(c =~= d);
}
pub proof fn lemma_acyclic(p: Seq<usize>) requires acyclic(p) ensures has_cls(p, cls(p)), cls(p).len() == p.len(),
  forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] cls(p)[i] < p.len() && p[cls(p)[i]] == cls(p)[i],
  forall|i: int| 0 <= i < p.len() && p[i] == i ==> #[trigger] cls(p)[i] == i,
{ reveal(good);
  let (m, b, c) = choose|m: Seq<nat>, b: nat, c: Seq<int>| #[trigger] good(p, m, b, c);
  lemma_cls(p, m, b, c);
  assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] c[i] < p.len() && p[c[i]] == c[i] by { lemma_root_at(p, m, b, c, i); }
}
pub proof fn lemma_root_at(p: Seq<usize>, m: Seq<nat>, b: nat, c: Seq<int>, i: int)
  requires good(p, m, b, c), 0 <= i < p.len() ensures 0 <= c[i] < p.len(), p[c[i]] == c[i] decreases b - m[i]
{ reveal(good); if p[i] != i { let q = p[i] as int; assert(m[i] < m[q]); assert(m[q] <= b); lemma_root_at(p, m, b, c, q); assert(c[i] == c[q]); } else { assert(c[i] == i); } }
/// path halving
pub proof fn lemma_halve(p: Seq<usize>, j: int)
  requires acyclic(p), 0 <= j < p.len()
  ensures p[j] < p.len(), acyclic(p.update(j, p[p[j] as int])), cls(p.update(j, p[p[j] as int])) == cls(p)
{ reveal(good);
  let (m, b, c) = choose|m: Seq<nat>, b: nat, c: Seq<int>| #[trigger] good(p, m, b, c);
  let q = p.update(j, p[p[j] as int]);
  lemma_cls(p, m, b, c); lemma_acyclic(p);
  let g = p[j] as int; let gg = p[g] as int;
  if g != j { assert(m[j] < m[g]); if gg != g { assert(m[g] < m[gg]); } }
  assert(c[j] == c[g]); assert(c[g] == c[gg]);
  assert forall|i: int| 0 <= i < q.len() && q[i] != i implies (#[trigger] m[i]) < m[q[i] as int] by { if i != j { assert(q[i] == p[i]); } }
  assert forall|i: int| 0 <= i < q.len() && q[i] == i implies #[trigger] c[i] == i by { if i == j { if g != j { assert(m[j] < m[gg]); } } }
  assert(good(q, m, b, c)); lemma_cls(q, m, b, c);
}
/// merging root a under root b
pub open spec fn merged(c: Seq<int>, a: int, b: int) -> Seq<int> { Seq::new(c.len(), |i: int| if c[i] == a { b } else { c[i] }) }
pub proof fn lemma_link(p: Seq<usize>, a: int, r: int)
  requires acyclic(p), 0 <= a < p.len(), 0 <= r < p.len(), p[a] == a, p[r] == r, a != r
  ensures acyclic(p.update(a, r as usize)), cls(p.update(a, r as usize)) == merged(cls(p), a, r)
{ reveal(good);
  let (m, b, c) = choose|m: Seq<nat>, b: nat, c: Seq<int>| #[trigger] good(p, m, b, c);
  lemma_cls(p, m, b, c); lemma_acyclic(p);
  let q = p.update(a, r as usize); let m2 = m.update(r, m[r] + m[a] + 1); let b2 = 2 * b + 1; let c2 = merged(c, a, r);
  assert forall|i: int| 0 <= i < q.len() && q[i] != i implies (#[trigger] m2[i]) < m2[q[i] as int] by { if i != a { assert(q[i] == p[i]); assert(m[i] < m[p[i] as int]); } }
  assert(m[a] <= b && m[r] <= b);
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] m2[i]) <= b2 by { assert(m[i] <= b); }
  assert forall|i: int| 0 <= i < q.len() implies #[trigger] c2[i] == c2[q[i] as int] by { if i != a { assert(q[i] == p[i]); assert(c[i] == c[p[i] as int]); } else { assert(c[a] == a); assert(c[r] == r); } }
  assert forall|i: int| 0 <= i < q.len() && q[i] == i implies #[trigger] c2[i] == i by { if i != a { assert(p[i] == i); assert(c[i] == i); } }
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) < q.len() by { if i != a { assert(q[i] == p[i]); } }
  assert(good(q, m2, b2, c2)); lemma_cls(q, m2, b2, c2);
}
/// number of the first n elements whose representative is v
pub open spec fn csize(c: Seq<int>, v: int, n: int) -> int decreases n { if n <= 0 { 0 } else { csize(c, v, n - 1) + if c[n - 1] == v { 1int } else { 0 } } }
pub proof fn lemma_csize_merge(c: Seq<int>, a: int, r: int, v: int, n: int)
  requires 0 <= n <= c.len(), a != r
  ensures csize(merged(c, a, r), v, n) == (if v == a { 0 } else if v == r { csize(c, r, n) + csize(c, a, n) } else { csize(c, v, n) }),
    0 <= csize(c, a, n), 0 <= csize(c, r, n), csize(c, a, n) + csize(c, r, n) <= n
  decreases n
{ if n > 0 { lemma_csize_merge(c, a, r, v, n - 1); } }
#[verifier::opaque]
pub open spec fn sizes_ok(f: DisjointSetForest) -> bool { forall|i: int| 0 <= i < f.parent@.len() && f.parent@[i] == i ==> (#[trigger] f.tree_size@[i]) as int == csize(cls(f.parent@), i, f.parent@.len() as int) }
pub open spec fn wf(f: DisjointSetForest) -> bool { f.parent@.len() == f.count && f.tree_size@.len() == f.count && acyclic(f.parent@) && sizes_ok(f) }
/// i and j have the same representative
pub open spec fn eqv(f: DisjointSetForest, i: int, j: int) -> bool { cls(f.parent@)[i] == cls(f.parent@)[j] }
pub proof fn lemma_singletons(p: Seq<usize>) requires forall|i: int| 0 <= i < p.len() ==> p[i] == i
  ensures acyclic(p), cls(p).len() == p.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] cls(p)[i] == i, forall|i: int| 0 <= i < p.len() ==> #[trigger] csize(cls(p), i, p.len() as int) == 1
{ reveal(good);
  let c = Seq::new(p.len(), |i: int| i); let m = Seq::new(p.len(), |i: int| 0nat);
  assert(good(p, m, 0, c)); lemma_cls(p, m, 0, c);
  assert forall|i: int| 0 <= i < p.len() implies #[trigger] csize(cls(p), i, p.len() as int) == 1 by { lemma_one(c, i, p.len() as int); }
}
pub proof fn lemma_one(c: Seq<int>, v: int, n: int) requires 0 <= n <= c.len(), forall|i: int| 0 <= i < c.len() ==> c[i] == i, 0 <= v < c.len()
  ensures csize(c, v, n) == if v < n { 1int } else { 0 } decreases n { if n > 0 { lemma_one(c, v, n - 1); } }
@@ struct union_find.rs DisjointSetForest
@@ fn union_find.rs DisjointSetForest::new
@ spec
  ensures wf(r), r.count == count, forall|i: int| 0 <= i < count ==> #[trigger] cls(r.parent@)[i] == i,
@ subst
(0..count).collect()
=>> iota(count)
@ subst
vec![1_usize; count]
=>> vec_of(1_usize, count)
@ tail
proof { lemma_singletons(parent@); lemma_new_sizes(DisjointSetForest { count, parent, tree_size }); }
@@ fn union_find.rs DisjointSetForest::root
@ opts
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ spec
  requires wf(*old(self)), i < old(self).count,
  ensures wf(*final(self)), final(self).count == old(self).count, final(self).tree_size == old(self).tree_size, cls(final(self).parent@) == cls(old(self).parent@),
    r == cls(final(self).parent@)[i as int], final(self).parent@[r as int] == r, r < final(self).count, forall|k: int| 0 <= k < old(self).count && old(self).parent@[k] == k ==> #[trigger] final(self).parent@[k] == k,
    forall|k: int| 0 <= k < old(self).count && final(self).parent@[k] == k ==> #[trigger] old(self).parent@[k] == k,
@ begin
let ghost c0 = cls(self.parent@); let ghost n = self.count; let ghost (m, b, c1) = choose|m: Seq<nat>, b: nat, c: Seq<int>| #[trigger] good(self.parent@, m, b, c); let ghost p0 = self.parent@;
proof { lemma_cls(self.parent@, m, b, c1); lemma_acyclic(self.parent@); }
@ loop 0
  invariant_except_break j < n, c0[j as int] == c0[i as int],
  invariant self.count == n, i < n, self.parent@.len() == n, good(self.parent@, m, b, c0), cls(self.parent@) == c0, j < n, self.tree_size == old(self).tree_size, forall|k: int| 0 <= k < n ==> ((#[trigger] self.parent@[k] == k) <==> (p0[k] == k)),
  ensures self.parent@[j as int] == j,
  decreases b - m[j as int],
@ loop 0 begin
proof { lemma_halve_good(self.parent@, m, b, c0, j as int); }
@ tail
proof { lemma_cls(self.parent@, m, b, c0); lemma_same_sizes(*old(self), *self); lemma_acyclic(self.parent@); }
@ subst
*self.parent.get_unchecked(j)
=>> unchecked_get(&self.parent, j)
@ subst
*self.parent.get_unchecked_mut(j) = *self.parent.get_unchecked(p);
=>> let gp = unchecked_get(&self.parent, p); unchecked_set(&mut self.parent, j, gp);
@@ text
pub proof fn lemma_same_sizes(f: DisjointSetForest, g: DisjointSetForest)
  requires wf(f), g.parent@.len() == f.count, g.count == f.count, g.tree_size == f.tree_size, acyclic(g.parent@), cls(g.parent@) == cls(f.parent@), forall|k: int| 0 <= k < f.count ==> ((#[trigger] g.parent@[k] == k) <==> (f.parent@[k] == k))
  ensures wf(g) { reveal(sizes_ok); }
pub proof fn lemma_new_sizes(f: DisjointSetForest)
  requires f.parent@.len() == f.count, f.tree_size@.len() == f.count, forall|i: int| 0 <= i < f.count ==> f.parent@[i] == i && f.tree_size@[i] == 1
  ensures wf(f) { reveal(sizes_ok); lemma_singletons(f.parent@); }
/// linking root a below root r, with the new size recorded
pub proof fn lemma_union(f: DisjointSetForest, g: DisjointSetForest, a: int, r: int)
  requires wf(f), 0 <= a < f.count, 0 <= r < f.count, a != r, f.parent@[a] == a, f.parent@[r] == r, g.count == f.count, g.parent@ == f.parent@.update(a, r as usize), g.tree_size@ == f.tree_size@.update(r, (f.tree_size@[r] + f.tree_size@[a]) as usize), f.tree_size@[r] + f.tree_size@[a] <= usize::MAX
  ensures wf(g), cls(g.parent@) == merged(cls(f.parent@), a, r)
{
  reveal(sizes_ok); lemma_link(f.parent@, a, r); lemma_acyclic(f.parent@); let n = f.count as int; let c = cls(f.parent@);
  assert forall|i: int| 0 <= i < n && g.parent@[i] == i implies (#[trigger] g.tree_size@[i]) as int == csize(cls(g.parent@), i, n) by {
    assert(i != a); assert(f.parent@[i] == i); lemma_csize_merge(c, a, r, i, n); assert(f.tree_size@[a] == csize(c, a, n)); assert(f.tree_size@[r] == csize(c, r, n)); assert(f.tree_size@[i] == csize(c, i, n)); }
}
pub proof fn lemma_size_sum(f: DisjointSetForest, a: int, r: int)
  requires wf(f), 0 <= a < f.count, 0 <= r < f.count, a != r, f.parent@[a] == a, f.parent@[r] == r ensures f.tree_size@[a] + f.tree_size@[r] <= f.count
{ reveal(sizes_ok); lemma_acyclic(f.parent@); lemma_csize_merge(cls(f.parent@), a, r, 0, f.count as int); assert(f.tree_size@[a] as int == csize(cls(f.parent@), a, f.count as int)); }
pub proof fn lemma_halve_good(p: Seq<usize>, m: Seq<nat>, b: nat, c: Seq<int>, j: int)
  requires good(p, m, b, c), 0 <= j < p.len()
  ensures good(p.update(j, p[p[j] as int]), m, b, c), cls(p.update(j, p[p[j] as int])) == c, m[j] <= b, p[j] < p.len(), p[p[j] as int] < p.len(), p[j] != j ==> p[p[j] as int] != j, p[j] != j ==> m[p[j] as int] > m[j] && m[p[j] as int] <= b, c[p[j] as int] == c[j]
{ reveal(good);
  let q = p.update(j, p[p[j] as int]);
  let g = p[j] as int; let gg = p[g] as int;
  if g != j { assert(m[j] < m[g]); if gg != g { assert(m[g] < m[gg]); } }
  assert(c[j] == c[g]); assert(c[g] == c[gg]); assert(m[g] <= b);
  assert forall|i: int| 0 <= i < q.len() && q[i] != i implies (#[trigger] m[i]) < m[q[i] as int] by { if i != j { assert(q[i] == p[i]); } }
  assert forall|i: int| 0 <= i < q.len() && q[i] == i implies #[trigger] c[i] == i by { if i == j { if g != j { assert(m[j] < m[gg]); } } }
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) < q.len() by { if i != j { assert(q[i] == p[i]); } }
  assert(good(q, m, b, c)); lemma_cls(q, m, b, c);
}
@@ fn union_find.rs DisjointSetForest::find
@ spec
  requires wf(*old(self)), i < old(self).count, j < old(self).count,
  ensures wf(*final(self)), final(self).count == old(self).count, cls(final(self).parent@) == cls(old(self).parent@), r == eqv(*final(self), i as int, j as int),
@@ fn union_find.rs DisjointSetForest::union
@ spec
  requires wf(*old(self)), i < old(self).count, j < old(self).count,
  ensures wf(*final(self)), final(self).count == old(self).count, cls(final(self).parent@).len() == final(self).count, forall|x: int, y: int| 0 <= x < final(self).count && 0 <= y < final(self).count ==>
    (#[trigger] eqv(*final(self), x, y) <==> eqv(*old(self), x, y) || (eqv(*old(self), x, i as int) && eqv(*old(self), y, j as int)) || (eqv(*old(self), x, j as int) && eqv(*old(self), y, i as int))),
@ begin
let ghost c0 = cls(self.parent@); let ghost n = self.count as int; proof { lemma_acyclic(self.parent@); }
@ before unsafe {
let ghost f1 = *self; proof { lemma_acyclic(f1.parent@); lemma_size_sum(f1, p as int, q as int); }
@ end
proof { if self.parent@[p as int] == q { lemma_union(f1, *self, p as int, q as int); } else { lemma_union(f1, *self, q as int, p as int); } lemma_acyclic(self.parent@); }
@ subst
*self.tree_size.get_unchecked(p)
=>> unchecked_get(&self.tree_size, p)
@ subst
*self.tree_size.get_unchecked(q)
=>> unchecked_get(&self.tree_size, q)
@ subst
*self.parent.get_unchecked_mut(p) = q;
=>> unchecked_set(&mut self.parent, p, q);
@ subst
*self.tree_size.get_unchecked_mut(q) = p_size + q_size;
=>> unchecked_set(&mut self.tree_size, q, p_size + q_size);
@ subst
*self.parent.get_unchecked_mut(q) = p;
=>> unchecked_set(&mut self.parent, q, p);
@ subst
*self.tree_size.get_unchecked_mut(p) = p_size + q_size;
=>> unchecked_set(&mut self.tree_size, p, p_size + q_size);
