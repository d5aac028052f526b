"""Shared specification text: strictly ascending sequences of entries, search, insertion, deletion.
text(entry type, generics, key projection suffix)"""


def text(E, G, key):
    """E: entry type over the generics G (first generic K is the key type); key: suffix selecting the key"""
    T = r"""
pub mod maplib { use super::*;
pub type Cmp<K> = spec_fn((K, K)) -> Order;
// all keys of s are LESS (GREATER) than x
pub open spec fn lt_all<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K) -> bool { forall |i: int| #![trigger s[i]] 0 <= i < s.len() ==> cmp((s[i]@k, x)) == Order::LESS }
pub open spec fn gt_all<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K) -> bool { forall |i: int| #![trigger s[i]] 0 <= i < s.len() ==> cmp((x, s[i]@k)) == Order::LESS }
pub open spec fn asc<@G>(cmp: Cmp<K>, s: Seq<@E>) -> bool { forall |i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> cmp((s[i]@k, s[j]@k)) == Order::LESS }
// where x is, or would be inserted
pub open spec fn pos<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K) -> int decreases s.len() { if s.len() > 0 && cmp((s[0]@k, x)) == Order::LESS { 1 + pos(cmp, s.drop_first(), x) } else { 0 } }
pub open spec fn mem<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K) -> bool { 0 <= pos(cmp, s, x) < s.len() && cmp((x, s[pos(cmp, s, x)]@k)) == Order::EQUAL }
pub open spec fn at<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K) -> @E { s[pos(cmp, s, x)] }
pub open spec fn ins<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K, e: @E) -> Seq<@E> { let p = pos(cmp, s, x); s.take(p).add(seq![e]).add(s.skip(if mem(cmp, s, x) { p + 1 } else { p })) }
pub open spec fn del<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K) -> Seq<@E> { if mem(cmp, s, x) { let p = pos(cmp, s, x); s.take(p).add(s.skip(p + 1)) } else { s } }
// derived facts about the order
pub proof fn ord_tr<K>(cmp: Cmp<K>, a: K, b: K, c: K) requires ord(cmp)
    ensures cmp((a, b)) == Order::LESS && cmp((b, c)) != Order::GREATER ==> cmp((a, c)) == Order::LESS,
            cmp((a, b)) != Order::GREATER && cmp((b, c)) == Order::LESS ==> cmp((a, c)) == Order::LESS,
            cmp((a, b)) == Order::EQUAL ==> cmp((a, c)) == cmp((b, c)) && cmp((c, a)) == cmp((c, b)), cmp((a, b)) == Order::EQUAL <==> cmp((b, a)) == Order::EQUAL
{ let t1 = cmp((a, c)); let t2 = cmp((b, a)); let t3 = cmp((c, a)); let t4 = cmp((c, b)); }
pub proof fn pos_range<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K) ensures 0 <= pos(cmp, s, x) <= s.len(),
    forall |i: int| #![trigger s[i]] 0 <= i < pos(cmp, s, x) ==> cmp((s[i]@k, x)) == Order::LESS,
    pos(cmp, s, x) < s.len() ==> cmp((s[pos(cmp, s, x)]@k, x)) != Order::LESS decreases s.len()
{ if s.len() > 0 && cmp((s[0]@k, x)) == Order::LESS { let d = s.drop_first(); pos_range(cmp, d, x);
    assert forall |i: int| #![trigger s[i]] 0 <= i < pos(cmp, s, x) implies cmp((s[i]@k, x)) == Order::LESS by { if i > 0 { assert(s[i] == d[i - 1]); } };
    if pos(cmp, s, x) < s.len() { assert(s[pos(cmp, s, x)] == d[pos(cmp, d, x)]); } } }
pub proof fn pos_unique<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K, p: int)
    requires 0 <= p <= s.len(), forall |i: int| #![trigger s[i]] 0 <= i < p ==> cmp((s[i]@k, x)) == Order::LESS, p < s.len() ==> cmp((s[p]@k, x)) != Order::LESS
    ensures pos(cmp, s, x) == p
{ pos_range(cmp, s, x); let q = pos(cmp, s, x); if q < p { assert(cmp((s[q]@k, x)) == Order::LESS); } if p < q { assert(cmp((s[p]@k, x)) == Order::LESS); } }
// a node: entry e between l and r
pub open spec fn node<@G>(l: Seq<@E>, e: @E, r: Seq<@E>) -> Seq<@E> { l.add(seq![e]).add(r) }
pub proof fn asc_node<@G>(cmp: Cmp<K>, l: Seq<@E>, e: @E, r: Seq<@E>) requires ord(cmp)
    ensures asc(cmp, node(l, e, r)) <==> (asc(cmp, l) && asc(cmp, r) && lt_all(cmp, l, e@k) && gt_all(cmp, r, e@k))
{ let t = node(l, e, r); let n = l.len() as int;
  assert(t[n] == e);
  if asc(cmp, t) {
    assert forall |i: int| #![trigger l[i]] 0 <= i < n implies cmp((l[i]@k, e@k)) == Order::LESS by { assert(t[i] == l[i]); };
    assert forall |i: int| #![trigger r[i]] 0 <= i < r.len() implies cmp((e@k, r[i]@k)) == Order::LESS by { assert(t[n + 1 + i] == r[i]); };
    assert forall |i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < n implies cmp((l[i]@k, l[j]@k)) == Order::LESS by { assert(t[i] == l[i] && t[j] == l[j]); };
    assert forall |i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies cmp((r[i]@k, r[j]@k)) == Order::LESS by { assert(t[n + 1 + i] == r[i] && t[n + 1 + j] == r[j]); };
  }
  if asc(cmp, l) && asc(cmp, r) && lt_all(cmp, l, e@k) && gt_all(cmp, r, e@k) {
    assert forall |i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies cmp((t[i]@k, t[j]@k)) == Order::LESS by {
      if j < n { assert(t[i] == l[i] && t[j] == l[j]); } else if i > n { assert(t[i] == r[i - n - 1] && t[j] == r[j - n - 1]); }
      else if i == n { assert(t[j] == r[j - n - 1]); } else { assert(t[i] == l[i]); if j > n { assert(t[j] == r[j - n - 1]); ord_tr(cmp, l[i]@k, e@k, r[j - n - 1]@k); } } } }
}
// searching in a node
pub proof fn pos_node<@G>(cmp: Cmp<K>, l: Seq<@E>, e: @E, r: Seq<@E>, x: K) requires ord(cmp), asc(cmp, node(l, e, r))
    ensures cmp((x, e@k)) == Order::LESS ==> pos(cmp, node(l, e, r), x) == pos(cmp, l, x) && mem(cmp, node(l, e, r), x) == mem(cmp, l, x) && (mem(cmp, l, x) ==> at(cmp, node(l, e, r), x) == at(cmp, l, x)),
            cmp((x, e@k)) == Order::GREATER ==> pos(cmp, node(l, e, r), x) == l.len() + 1 + pos(cmp, r, x) && mem(cmp, node(l, e, r), x) == mem(cmp, r, x) && (mem(cmp, r, x) ==> at(cmp, node(l, e, r), x) == at(cmp, r, x)),
            cmp((x, e@k)) == Order::EQUAL ==> pos(cmp, node(l, e, r), x) == l.len() && mem(cmp, node(l, e, r), x) && at(cmp, node(l, e, r), x) == e
{ asc_node(cmp, l, e, r); let t = node(l, e, r); let n = l.len() as int; let k = e@k;
  assert(t[n] == e);
  let c1 = cmp((k, x)); ord_tr(cmp, x, k, x);
  if cmp((x, k)) == Order::LESS {
    pos_range(cmp, l, x); let p = pos(cmp, l, x);
    assert forall |i: int| #![trigger t[i]] 0 <= i < p implies cmp((t[i]@k, x)) == Order::LESS by { assert(t[i] == l[i]); };
    if p < n { assert(t[p] == l[p]); }
    pos_unique(cmp, t, x, p);
  } else if cmp((x, k)) == Order::GREATER {
    pos_range(cmp, r, x); let p = n + 1 + pos(cmp, r, x);
    assert forall |i: int| #![trigger t[i]] 0 <= i < p implies cmp((t[i]@k, x)) == Order::LESS by {
      if i < n { assert(t[i] == l[i]); ord_tr(cmp, l[i]@k, k, x); } else if i > n { assert(t[i] == r[i - n - 1]); } };
    if p < t.len() { assert(t[p] == r[p - n - 1]); }
    pos_unique(cmp, t, x, p);
  } else {
    assert forall |i: int| #![trigger t[i]] 0 <= i < n implies cmp((t[i]@k, x)) == Order::LESS by { assert(t[i] == l[i]); ord_tr(cmp, l[i]@k, k, x); };
    pos_unique(cmp, t, x, n);
  } }
pub proof fn ins_node<@G>(cmp: Cmp<K>, l: Seq<@E>, e: @E, r: Seq<@E>, x: K, f: @E) requires ord(cmp), asc(cmp, node(l, e, r))
    ensures cmp((x, e@k)) == Order::LESS ==> ins(cmp, node(l, e, r), x, f) == node(ins(cmp, l, x, f), e, r),
            cmp((x, e@k)) == Order::GREATER ==> ins(cmp, node(l, e, r), x, f) == node(l, e, ins(cmp, r, x, f)),
            cmp((x, e@k)) == Order::EQUAL ==> ins(cmp, node(l, e, r), x, f) == node(l, f, r)
{ pos_node(cmp, l, e, r, x); pos_range(cmp, l, x); pos_range(cmp, r, x); let t = node(l, e, r);
  if cmp((x, e@k)) == Order::LESS { assert(ins(cmp, t, x, f) =~= node(ins(cmp, l, x, f), e, r)); }
  else if cmp((x, e@k)) == Order::GREATER { assert(ins(cmp, t, x, f) =~= node(l, e, ins(cmp, r, x, f))); }
  else { assert(ins(cmp, t, x, f) =~= node(l, f, r)); } }
pub proof fn del_node<@G>(cmp: Cmp<K>, l: Seq<@E>, e: @E, r: Seq<@E>, x: K) requires ord(cmp), asc(cmp, node(l, e, r))
    ensures cmp((x, e@k)) == Order::LESS ==> del(cmp, node(l, e, r), x) == node(del(cmp, l, x), e, r),
            cmp((x, e@k)) == Order::GREATER ==> del(cmp, node(l, e, r), x) == node(l, e, del(cmp, r, x)),
            cmp((x, e@k)) == Order::EQUAL ==> del(cmp, node(l, e, r), x) == l.add(r)
{ pos_node(cmp, l, e, r, x); pos_range(cmp, l, x); pos_range(cmp, r, x); let t = node(l, e, r);
  if cmp((x, e@k)) == Order::LESS { assert(del(cmp, t, x) =~= node(del(cmp, l, x), e, r)); }
  else if cmp((x, e@k)) == Order::GREATER { assert(del(cmp, t, x) =~= node(l, e, del(cmp, r, x))); }
  else { assert(del(cmp, t, x) =~= l.add(r)); } }
pub proof fn ins_asc<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K, e: @E) requires ord(cmp), asc(cmp, s), e@k == x ensures asc(cmp, ins(cmp, s, x, e))
{ pos_range(cmp, s, x); let p = pos(cmp, s, x); let t = ins(cmp, s, x, e); let sh = if mem(cmp, s, x) { 0int } else { 1int };
  assert forall |i: int| #![trigger s[i]] p <= i < s.len() && (i > p || !mem(cmp, s, x)) implies cmp((x, s[i]@k)) == Order::LESS by {
    let c = cmp((s[p]@k, x)); let c2 = cmp((x, s[p]@k)); ord_tr(cmp, x, s[p]@k, s[i]@k); if i > p { assert(cmp((s[p]@k, s[i]@k)) == Order::LESS); } };
  assert forall |i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies cmp((t[i]@k, t[j]@k)) == Order::LESS by {
    if j < p { assert(t[i] == s[i] && t[j] == s[j]); } else if j == p { assert(t[j] == e && t[i] == s[i]); }
    else if i == p { assert(t[i] == e && t[j] == s[j - sh]); } else if i > p { assert(t[i] == s[i - sh] && t[j] == s[j - sh]); }
    else { assert(t[i] == s[i] && t[j] == s[j - sh]); } } }
pub proof fn del_asc<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K) requires ord(cmp), asc(cmp, s) ensures asc(cmp, del(cmp, s, x)), del(cmp, s, x).len() == s.len() - (if mem(cmp, s, x) { 1int } else { 0 })
{ pos_range(cmp, s, x); if mem(cmp, s, x) { let p = pos(cmp, s, x); let t = del(cmp, s, x);
  assert forall |i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies cmp((t[i]@k, t[j]@k)) == Order::LESS by {
    let a = if i < p { i } else { i + 1 }; let b = if j < p { j } else { j + 1 }; assert(t[i] == s[a] && t[j] == s[b]); } } }
// has means: some entry has a key EQUAL to x
pub proof fn mem_iff<@G>(cmp: Cmp<K>, s: Seq<@E>, x: K) requires ord(cmp), asc(cmp, s)
    ensures mem(cmp, s, x) <==> exists |i: int| 0 <= i < s.len() && cmp((x, #[trigger] s[i]@k)) == Order::EQUAL
{ pos_range(cmp, s, x); let p = pos(cmp, s, x);
  if exists |i: int| 0 <= i < s.len() && cmp((x, #[trigger] s[i]@k)) == Order::EQUAL {
    let i = choose |i: int| 0 <= i < s.len() && cmp((x, #[trigger] s[i]@k)) == Order::EQUAL;
    ord_tr(cmp, x, s[i]@k, x);
    if i < p { } else if i > p { assert(cmp((s[p]@k, s[i]@k)) == Order::LESS); ord_tr(cmp, s[p]@k, s[i]@k, x); } } }
}
pub use maplib::*;
"""
    return T.replace("@G", G).replace("@E", E).replace("@k", key)
