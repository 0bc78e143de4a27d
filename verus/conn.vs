@@ text
/// q is a walk along the relation e
pub open spec fn walk(e: spec_fn(int, int) -> bool, q: Seq<int>) -> bool { q.len() >= 1 && forall|k: int| 0 <= k < q.len() - 1 ==> #[trigger] e(q[k], q[k + 1]) }
pub open spec fn walk_to(e: spec_fn(int, int) -> bool, q: Seq<int>, x: int, y: int) -> bool { walk(e, q) && q[0] == x && q.last() == y }
/// the reflexive-transitive closure of e
pub open spec fn conn(e: spec_fn(int, int) -> bool, x: int, y: int) -> bool { exists|q: Seq<int>| #[trigger] walk_to(e, q, x, y) }
pub open spec fn sym(e: spec_fn(int, int) -> bool) -> bool { forall|a: int, b: int| #[trigger] e(a, b) ==> e(b, a) }
pub open spec fn sub(e: spec_fn(int, int) -> bool, g: spec_fn(int, int) -> bool) -> bool { forall|a: int, b: int| #[trigger] e(a, b) ==> g(a, b) }
pub proof fn conn_refl(e: spec_fn(int, int) -> bool, x: int) ensures conn(e, x, x) { assert(walk_to(e, seq![x], x, x)); }
pub proof fn conn_step(e: spec_fn(int, int) -> bool, x: int, y: int) requires e(x, y) ensures conn(e, x, y) { let q = seq![x, y]; assert(q[1] == y); assert(walk_to(e, q, x, y)); }
pub proof fn conn_trans(e: spec_fn(int, int) -> bool, x: int, y: int, z: int) requires conn(e, x, y), conn(e, y, z) ensures conn(e, x, z)
{
  let q = choose|q: Seq<int>| #[trigger] walk_to(e, q, x, y); let p = choose|p: Seq<int>| #[trigger] walk_to(e, p, y, z);
  let s = q + p.subrange(1, p.len() as int);
  assert forall|k: int| 0 <= k < s.len() - 1 implies #[trigger] e(s[k], s[k + 1]) by {
    if k < q.len() - 1 { assert(s[k] == q[k] && s[k + 1] == q[k + 1]); assert(e(q[k], q[k + 1])); }
    else { let j = k - q.len() + 1; assert(s[k] == p[j]) by { if j == 0 { assert(s[k] == q.last()); } } assert(s[k + 1] == p[j + 1]); assert(e(p[j], p[j + 1])); }
  }
  assert(s.last() == z) by { if p.len() > 1 { assert(s.last() == p.last()); } }
  assert(walk_to(e, s, x, z));
}
pub proof fn conn_sym(e: spec_fn(int, int) -> bool, x: int, y: int) requires conn(e, x, y), sym(e) ensures conn(e, y, x)
{
  let q = choose|q: Seq<int>| #[trigger] walk_to(e, q, x, y); let s = Seq::new(q.len(), |k: int| q[q.len() - 1 - k]);
  assert forall|k: int| 0 <= k < s.len() - 1 implies #[trigger] e(s[k], s[k + 1]) by { let j = q.len() - 2 - k; assert(e(q[j], q[j + 1])); assert(s[k] == q[j + 1] && s[k + 1] == q[j]); }
  assert(walk_to(e, s, y, x));
}
pub proof fn conn_mono(e: spec_fn(int, int) -> bool, g: spec_fn(int, int) -> bool, x: int, y: int) requires conn(e, x, y), sub(e, g) ensures conn(g, x, y)
{
  let q = choose|q: Seq<int>| #[trigger] walk_to(e, q, x, y);
  assert forall|k: int| 0 <= k < q.len() - 1 implies #[trigger] g(q[k], q[k + 1]) by { assert(e(q[k], q[k + 1])); }
  assert(walk_to(g, q, x, y));
}
/// a function that e preserves is constant on connected elements
pub open spec fn kept(e: spec_fn(int, int) -> bool, c: spec_fn(int) -> int) -> bool { forall|a: int, b: int| #[trigger] e(a, b) ==> c(a) == c(b) }
pub proof fn walk_kept(e: spec_fn(int, int) -> bool, c: spec_fn(int) -> int, q: Seq<int>, n: int)
  requires walk(e, q), kept(e, c), 0 <= n < q.len() ensures c(q[0]) == c(q[n]) decreases n
{ if n > 0 { walk_kept(e, c, q, n - 1); assert(e(q[n - 1], q[n - 1 + 1])); } }
pub proof fn conn_kept(e: spec_fn(int, int) -> bool, c: spec_fn(int) -> int, x: int, y: int) requires conn(e, x, y), kept(e, c) ensures c(x) == c(y)
{ let q = choose|q: Seq<int>| #[trigger] walk_to(e, q, x, y); walk_kept(e, c, q, q.len() - 1); }
