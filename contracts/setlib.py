"""Shared specification text: strictly ascending sequences as finite sets. Needs maplib.text("K", "K", "") before it."""
TEXT = r"""
pub mod setlib { use super::*;
pub broadcast proof fn node_assoc<K>(a: Seq<K>, x: K, b: Seq<K>, y: K, c: Seq<K>) ensures #[trigger] node(node(a, x, b), y, c) == node(a, x, node(b, y, c)) { assert(node(node(a, x, b), y, c) =~= node(a, x, node(b, y, c))); }
pub broadcast proof fn node_add<K>(a: Seq<K>, x: K, b: Seq<K>, c: Seq<K>) ensures #[trigger] node(a, x, b).add(c) == node(a, x, b.add(c)) { assert(node(a, x, b).add(c) =~= node(a, x, b.add(c))); }
pub broadcast proof fn add_node<K>(a: Seq<K>, x: K, b: Seq<K>, c: Seq<K>) ensures #[trigger] c.add(node(a, x, b)) == node(c.add(a), x, b) { assert(c.add(node(a, x, b)) =~= node(c.add(a), x, b)); }
pub broadcast proof fn add_empty<X>(s: Seq<X>) ensures #[trigger] s.add(Seq::<X>::empty()) == s { assert(s.add(Seq::<X>::empty()) =~= s); }
pub broadcast proof fn empty_add<X>(s: Seq<X>) ensures #[trigger] Seq::<X>::empty().add(s) == s { assert(Seq::<X>::empty().add(s) =~= s); }
pub broadcast proof fn node_len<K>(a: Seq<K>, x: K, b: Seq<K>) ensures #[trigger] node(a, x, b).len() == a.len() + b.len() + 1 {}
// some element of s is EQUAL to x
#[verifier::opaque] pub open spec fn inset<K>(cmp: Cmp<K>, s: Seq<K>, x: K) -> bool { exists |i: int| 0 <= i < s.len() && cmp((x, #[trigger] s[i])) == Order::EQUAL }
// y itself is an element of s
#[verifier::opaque] pub open spec fn holds<K>(s: Seq<K>, y: K) -> bool { exists |i: int| 0 <= i < s.len() && #[trigger] s[i] == y }
pub open spec fn ltA<K>(cmp: Cmp<K>, s: Seq<K>, e: K) -> bool { forall |x: K| #![trigger inset(cmp, s, x)] inset(cmp, s, x) ==> cmp((x, e)) == Order::LESS }
pub open spec fn gtA<K>(cmp: Cmp<K>, s: Seq<K>, e: K) -> bool { forall |x: K| #![trigger inset(cmp, s, x)] inset(cmp, s, x) ==> cmp((e, x)) == Order::LESS }
pub broadcast proof fn has_empty<K>(cmp: Cmp<K>, x: K) ensures !#[trigger] inset(cmp, Seq::<K>::empty(), x) { reveal(inset); }
pub broadcast proof fn holds_empty<K>(x: K) ensures !#[trigger] holds(Seq::<K>::empty(), x) { reveal(holds); }
pub broadcast proof fn has_node<K>(cmp: Cmp<K>, l: Seq<K>, e: K, r: Seq<K>, x: K) ensures #[trigger] inset(cmp, node(l, e, r), x) == (inset(cmp, l, x) || cmp((x, e)) == Order::EQUAL || inset(cmp, r, x))
{ reveal(inset); let t = node(l, e, r); let n = l.len() as int; assert(t[n] == e);
  assert forall |i: int| #![trigger l[i]] 0 <= i < n implies t[i] == l[i] by {} assert forall |i: int| #![trigger r[i]] 0 <= i < r.len() implies t[n + 1 + i] == r[i] by {}
  if inset(cmp, t, x) { let i = choose |i: int| 0 <= i < t.len() && cmp((x, #[trigger] t[i])) == Order::EQUAL; if i < n { assert(l[i] == t[i]); } else if i > n { assert(r[i - n - 1] == t[i]); } }
  if inset(cmp, l, x) { let i = choose |i: int| 0 <= i < l.len() && cmp((x, #[trigger] l[i])) == Order::EQUAL; assert(t[i] == l[i]); }
  if inset(cmp, r, x) { let i = choose |i: int| 0 <= i < r.len() && cmp((x, #[trigger] r[i])) == Order::EQUAL; assert(t[n + 1 + i] == r[i]); } }
pub broadcast proof fn has_add<K>(cmp: Cmp<K>, l: Seq<K>, r: Seq<K>, x: K) ensures #[trigger] inset(cmp, l.add(r), x) == (inset(cmp, l, x) || inset(cmp, r, x))
{ reveal(inset); let t = l.add(r); let n = l.len() as int;
  if inset(cmp, t, x) { let i = choose |i: int| 0 <= i < t.len() && cmp((x, #[trigger] t[i])) == Order::EQUAL; if i < n { assert(l[i] == t[i]); } else { assert(r[i - n] == t[i]); } }
  if inset(cmp, l, x) { let i = choose |i: int| 0 <= i < l.len() && cmp((x, #[trigger] l[i])) == Order::EQUAL; assert(t[i] == l[i]); }
  if inset(cmp, r, x) { let i = choose |i: int| 0 <= i < r.len() && cmp((x, #[trigger] r[i])) == Order::EQUAL; assert(t[n + i] == r[i]); } }
pub broadcast proof fn holds_node<K>(l: Seq<K>, e: K, r: Seq<K>, x: K) ensures #[trigger] holds(node(l, e, r), x) == (holds(l, x) || x == e || holds(r, x))
{ reveal(holds); let t = node(l, e, r); let n = l.len() as int; assert(t[n] == e);
  if holds(t, x) { let i = choose |i: int| 0 <= i < t.len() && #[trigger] t[i] == x; if i < n { assert(l[i] == t[i]); } else if i > n { assert(r[i - n - 1] == t[i]); } }
  if holds(l, x) { let i = choose |i: int| 0 <= i < l.len() && #[trigger] l[i] == x; assert(t[i] == l[i]); }
  if holds(r, x) { let i = choose |i: int| 0 <= i < r.len() && #[trigger] r[i] == x; assert(t[n + 1 + i] == r[i]); } }
pub broadcast proof fn holds_add<K>(l: Seq<K>, r: Seq<K>, x: K) ensures #[trigger] holds(l.add(r), x) == (holds(l, x) || holds(r, x))
{ reveal(holds); let t = l.add(r); let n = l.len() as int;
  if holds(t, x) { let i = choose |i: int| 0 <= i < t.len() && #[trigger] t[i] == x; if i < n { assert(l[i] == t[i]); } else { assert(r[i - n] == t[i]); } }
  if holds(l, x) { let i = choose |i: int| 0 <= i < l.len() && #[trigger] l[i] == x; assert(t[i] == l[i]); }
  if holds(r, x) { let i = choose |i: int| 0 <= i < r.len() && #[trigger] r[i] == x; assert(t[n + i] == r[i]); } }
pub proof fn lt_ltA<K>(cmp: Cmp<K>, s: Seq<K>, e: K) requires ord(cmp) ensures ltA(cmp, s, e) == lt_all(cmp, s, e), gtA(cmp, s, e) == gt_all(cmp, s, e)
{ reveal(inset);
  if ltA(cmp, s, e) { assert forall |i: int| #![trigger s[i]] 0 <= i < s.len() implies cmp((s[i], e)) == Order::LESS by { assert(cmp((s[i], s[i])) == Order::EQUAL); assert(inset(cmp, s, s[i])); } }
  if gtA(cmp, s, e) { assert forall |i: int| #![trigger s[i]] 0 <= i < s.len() implies cmp((e, s[i])) == Order::LESS by { assert(cmp((s[i], s[i])) == Order::EQUAL); assert(inset(cmp, s, s[i])); } }
  if lt_all(cmp, s, e) { assert forall |x: K| #![trigger inset(cmp, s, x)] inset(cmp, s, x) implies cmp((x, e)) == Order::LESS by { let i = choose |i: int| 0 <= i < s.len() && cmp((x, #[trigger] s[i])) == Order::EQUAL; ord_tr(cmp, x, s[i], e); } }
  if gt_all(cmp, s, e) { assert forall |x: K| #![trigger inset(cmp, s, x)] inset(cmp, s, x) implies cmp((e, x)) == Order::LESS by { let i = choose |i: int| 0 <= i < s.len() && cmp((x, #[trigger] s[i])) == Order::EQUAL; ord_tr(cmp, x, s[i], e); } } }
pub broadcast proof fn asc_nodeA<K>(cmp: Cmp<K>, l: Seq<K>, e: K, r: Seq<K>) requires ord(cmp) ensures #[trigger] asc(cmp, node(l, e, r)) <==> (asc(cmp, l) && asc(cmp, r) && ltA(cmp, l, e) && gtA(cmp, r, e))
{ asc_node(cmp, l, e, r); lt_ltA(cmp, l, e); lt_ltA(cmp, r, e); }
pub broadcast proof fn ltA_node<K>(cmp: Cmp<K>, l: Seq<K>, e: K, r: Seq<K>, h: K) requires ord(cmp) ensures #[trigger] ltA(cmp, node(l, e, r), h) <==> ltA(cmp, l, h) && cmp((e, h)) == Order::LESS && ltA(cmp, r, h)
{ broadcast use has_node; let t = node(l, e, r); if ltA(cmp, t, h) { assert(cmp((e, e)) == Order::EQUAL); assert(inset(cmp, t, e)); 
    assert forall |x: K| #![trigger inset(cmp, l, x)] inset(cmp, l, x) implies cmp((x, h)) == Order::LESS by { assert(inset(cmp, t, x)); } assert forall |x: K| #![trigger inset(cmp, r, x)] inset(cmp, r, x) implies cmp((x, h)) == Order::LESS by { assert(inset(cmp, t, x)); } }
  if ltA(cmp, l, h) && cmp((e, h)) == Order::LESS && ltA(cmp, r, h) { assert forall |x: K| #![trigger inset(cmp, t, x)] inset(cmp, t, x) implies cmp((x, h)) == Order::LESS by { ord_tr(cmp, x, e, h); } } }
pub broadcast proof fn gtA_node<K>(cmp: Cmp<K>, l: Seq<K>, e: K, r: Seq<K>, h: K) requires ord(cmp) ensures #[trigger] gtA(cmp, node(l, e, r), h) <==> gtA(cmp, l, h) && cmp((h, e)) == Order::LESS && gtA(cmp, r, h)
{ broadcast use has_node; let t = node(l, e, r); if gtA(cmp, t, h) { assert(cmp((e, e)) == Order::EQUAL); assert(inset(cmp, t, e)); 
    assert forall |x: K| #![trigger inset(cmp, l, x)] inset(cmp, l, x) implies cmp((h, x)) == Order::LESS by { assert(inset(cmp, t, x)); } assert forall |x: K| #![trigger inset(cmp, r, x)] inset(cmp, r, x) implies cmp((h, x)) == Order::LESS by { assert(inset(cmp, t, x)); } }
  if gtA(cmp, l, h) && cmp((h, e)) == Order::LESS && gtA(cmp, r, h) { assert forall |x: K| #![trigger inset(cmp, t, x)] inset(cmp, t, x) implies cmp((h, x)) == Order::LESS by { ord_tr(cmp, x, e, h); } } }
pub broadcast proof fn asc_empty<K>(cmp: Cmp<K>) ensures #[trigger] asc(cmp, Seq::<K>::empty()) {}
// x < e and e EQUAL y etc.
pub proof fn holds_has<K>(cmp: Cmp<K>, s: Seq<K>, x: K) requires ord(cmp), holds(s, x) ensures inset(cmp, s, x) { reveal(holds); reveal(inset); let i = choose |i: int| 0 <= i < s.len() && #[trigger] s[i] == x; assert(cmp((x, s[i])) == Order::EQUAL); }
// elements EQUAL to each other are both in or both out
pub proof fn has_eq<K>(cmp: Cmp<K>, s: Seq<K>, x: K, y: K) requires ord(cmp), cmp((x, y)) == Order::EQUAL ensures inset(cmp, s, x) == inset(cmp, s, y)
{ reveal(inset); if inset(cmp, s, x) { let i = choose |i: int| 0 <= i < s.len() && cmp((x, #[trigger] s[i])) == Order::EQUAL; ord_tr(cmp, x, y, s[i]); }
  if inset(cmp, s, y) { let i = choose |i: int| 0 <= i < s.len() && cmp((y, #[trigger] s[i])) == Order::EQUAL; ord_tr(cmp, y, x, s[i]); ord_tr(cmp, x, y, s[i]); } }
pub broadcast proof fn has_eqb<K>(cmp: Cmp<K>, s: Seq<K>, x: K, y: K) requires ord(cmp), cmp((x, y)) == Order::EQUAL ensures #![trigger inset(cmp, s, x), inset(cmp, s, y)] inset(cmp, s, x) == inset(cmp, s, y) { has_eq(cmp, s, x, y); }
pub broadcast proof fn mem_has<K>(cmp: Cmp<K>, s: Seq<K>, x: K) requires ord(cmp), asc(cmp, s) ensures #[trigger] mem(cmp, s, x) == inset(cmp, s, x) { reveal(inset); mem_iff(cmp, s, x); }
pub proof fn at_holds<K>(cmp: Cmp<K>, s: Seq<K>, x: K) requires mem(cmp, s, x) ensures holds(s, at(cmp, s, x)), cmp((x, at(cmp, s, x))) == Order::EQUAL { reveal(holds); }
// inserting at either end
pub proof fn ins_front<K>(cmp: Cmp<K>, r: Seq<K>, v: K) requires ord(cmp), gtA(cmp, r, v) ensures ins(cmp, r, v, v) == node(Seq::empty(), v, r)
{ lt_ltA(cmp, r, v); if r.len() > 0 { assert(cmp((v, r[0])) == Order::LESS); let u = cmp((r[0], v)); } pos_unique(cmp, r, v, 0); assert(ins(cmp, r, v, v) =~= node(Seq::empty(), v, r)); }
pub proof fn ins_back<K>(cmp: Cmp<K>, l: Seq<K>, v: K) requires ord(cmp), ltA(cmp, l, v) ensures ins(cmp, l, v, v) == node(l, v, Seq::empty())
{ lt_ltA(cmp, l, v); pos_unique(cmp, l, v, l.len() as int); assert(ins(cmp, l, v, v) =~= node(l, v, Seq::empty())); }
pub proof fn ins_has<K>(cmp: Cmp<K>, s: Seq<K>, x: K, y: K) requires ord(cmp), asc(cmp, s) ensures inset(cmp, ins(cmp, s, x, x), y) == (inset(cmp, s, y) || cmp((y, x)) == Order::EQUAL)
{ pos_range(cmp, s, x); let p = pos(cmp, s, x); let m = mem(cmp, s, x); let q = if m { p + 1 } else { p }; assert(ins(cmp, s, x, x) =~= node(s.take(p), x, s.skip(q)));
  has_node(cmp, s.take(p), x, s.skip(q), y);
  if m { assert(s =~= node(s.take(p), s[p], s.skip(q))); has_node(cmp, s.take(p), s[p], s.skip(q), y); ord_tr(cmp, x, s[p], y); ord_tr(cmp, s[p], x, y); } else { assert(s =~= s.take(p).add(s.skip(q))); has_add(cmp, s.take(p), s.skip(q), y); } }
pub proof fn ins_holds<K>(cmp: Cmp<K>, s: Seq<K>, x: K, y: K) ensures holds(ins(cmp, s, x, x), y) ==> holds(s, y) || y == x
{ pos_range(cmp, s, x); let p = pos(cmp, s, x); let m = mem(cmp, s, x); let q = if m { p + 1 } else { p }; assert(ins(cmp, s, x, x) =~= node(s.take(p), x, s.skip(q)));
  holds_node(s.take(p), x, s.skip(q), y); if m { assert(s =~= node(s.take(p), s[p], s.skip(q))); holds_node(s.take(p), s[p], s.skip(q), y); } else { assert(s =~= s.take(p).add(s.skip(q))); holds_add(s.take(p), s.skip(q), y); } }
pub proof fn ins_len<K>(cmp: Cmp<K>, s: Seq<K>, x: K) ensures ins(cmp, s, x, x).len() == s.len() + (if mem(cmp, s, x) { 0int } else { 1 }) { pos_range(cmp, s, x); }
// a set whose elements are all in b is no larger than b; if as large, it has the same elements
pub proof fn sub_len<K>(cmp: Cmp<K>, a: Seq<K>, b: Seq<K>) requires ord(cmp), asc(cmp, a), asc(cmp, b), forall |x: K| #![trigger inset(cmp, a, x)] inset(cmp, a, x) ==> inset(cmp, b, x)
    ensures a.len() <= b.len(), a.len() == b.len() ==> forall |x: K| #![trigger inset(cmp, b, x)] inset(cmp, b, x) ==> inset(cmp, a, x) decreases a.len()
{ if a.len() == 0 { if b.len() == 0 { assert(b =~= a); } } else {
    let h = a[0]; let a2 = a.drop_first(); assert(a =~= node(Seq::empty(), h, a2)); has_node(cmp, Seq::empty(), h, a2, h); assert(cmp((h, h)) == Order::EQUAL); assert(inset(cmp, b, h)); mem_has(cmp, b, h); pos_range(cmp, b, h);
    let p = pos(cmp, b, h); let bl = b.take(p); let b2 = b.skip(p + 1); assert(b =~= node(bl, b[p], b2)); asc_nodeA(cmp, Seq::empty(), h, a2); asc_nodeA(cmp, bl, b[p], b2);
    assert forall |x: K| #![trigger inset(cmp, a2, x)] inset(cmp, a2, x) implies inset(cmp, b2, x) by { has_node(cmp, Seq::empty(), h, a2, x); assert(inset(cmp, a, x)); has_node(cmp, bl, b[p], b2, x); assert(cmp((h, x)) == Order::LESS);
      if inset(cmp, bl, x) { assert(cmp((x, b[p])) == Order::LESS); ord_tr(cmp, h, b[p], x); } else if cmp((x, b[p])) == Order::EQUAL { ord_tr(cmp, h, b[p], x); } }
    sub_len(cmp, a2, b2);
    if a.len() == b.len() { assert(bl =~= Seq::empty()); assert forall |x: K| #![trigger inset(cmp, b, x)] inset(cmp, b, x) implies inset(cmp, a, x) by { has_node(cmp, bl, b[p], b2, x); has_node(cmp, Seq::empty(), h, a2, x); has_empty(cmp, x); ord_tr(cmp, b[p], h, x); ord_tr(cmp, h, b[p], x); } }
  } }
pub broadcast proof fn has_one<K>(cmp: Cmp<K>, e: K, x: K) ensures #[trigger] inset(cmp, seq![e], x) == (cmp((x, e)) == Order::EQUAL) { reveal(inset); let t = seq![e]; assert(t[0] == e); }
pub broadcast proof fn holds_one<K>(e: K, x: K) ensures #[trigger] holds(seq![e], x) == (x == e) { reveal(holds); let t = seq![e]; assert(t[0] == e); }
pub broadcast proof fn ltA_add<K>(cmp: Cmp<K>, a: Seq<K>, b: Seq<K>, h: K) ensures #[trigger] ltA(cmp, a.add(b), h) == (ltA(cmp, a, h) && ltA(cmp, b, h))
{ broadcast use has_add; let t = a.add(b); if ltA(cmp, t, h) { assert forall |x: K| #![trigger inset(cmp, a, x)] inset(cmp, a, x) implies cmp((x, h)) == Order::LESS by { assert(inset(cmp, t, x)); } assert forall |x: K| #![trigger inset(cmp, b, x)] inset(cmp, b, x) implies cmp((x, h)) == Order::LESS by { assert(inset(cmp, t, x)); } } }
pub broadcast proof fn gtA_add<K>(cmp: Cmp<K>, a: Seq<K>, b: Seq<K>, h: K) ensures #[trigger] gtA(cmp, a.add(b), h) == (gtA(cmp, a, h) && gtA(cmp, b, h))
{ broadcast use has_add; let t = a.add(b); if gtA(cmp, t, h) { assert forall |x: K| #![trigger inset(cmp, a, x)] inset(cmp, a, x) implies cmp((h, x)) == Order::LESS by { assert(inset(cmp, t, x)); } assert forall |x: K| #![trigger inset(cmp, b, x)] inset(cmp, b, x) implies cmp((h, x)) == Order::LESS by { assert(inset(cmp, t, x)); } } }
pub broadcast proof fn ltA_one<K>(cmp: Cmp<K>, e: K, h: K) requires ord(cmp) ensures #[trigger] ltA(cmp, seq![e], h) == (cmp((e, h)) == Order::LESS)
{ broadcast use has_one; if ltA(cmp, seq![e], h) { assert(cmp((e, e)) == Order::EQUAL); assert(inset(cmp, seq![e], e)); } else { } if cmp((e, h)) == Order::LESS { assert forall |x: K| #![trigger inset(cmp, seq![e], x)] inset(cmp, seq![e], x) implies cmp((x, h)) == Order::LESS by { ord_tr(cmp, x, e, h); } } }
pub broadcast proof fn gtA_one<K>(cmp: Cmp<K>, e: K, h: K) requires ord(cmp) ensures #[trigger] gtA(cmp, seq![e], h) == (cmp((h, e)) == Order::LESS)
{ broadcast use has_one; if gtA(cmp, seq![e], h) { assert(cmp((e, e)) == Order::EQUAL); assert(inset(cmp, seq![e], e)); } else { } if cmp((h, e)) == Order::LESS { assert forall |x: K| #![trigger inset(cmp, seq![e], x)] inset(cmp, seq![e], x) implies cmp((h, x)) == Order::LESS by { ord_tr(cmp, x, e, h); } } }
pub broadcast proof fn asc_cons<K>(cmp: Cmp<K>, e: K, r: Seq<K>) requires ord(cmp) ensures #[trigger] asc(cmp, seq![e].add(r)) <==> (asc(cmp, r) && gtA(cmp, r, e))
{ assert(seq![e].add(r) =~= node(Seq::empty(), e, r)); asc_nodeA(cmp, Seq::empty(), e, r); broadcast use {has_empty, asc_empty}; }
pub broadcast proof fn asc_snoc<K>(cmp: Cmp<K>, e: K, l: Seq<K>) requires ord(cmp) ensures #[trigger] asc(cmp, l.add(seq![e])) <==> (asc(cmp, l) && ltA(cmp, l, e))
{ assert(l.add(seq![e]) =~= node(l, e, Seq::empty())); asc_nodeA(cmp, l, e, Seq::empty()); broadcast use {has_empty, asc_empty}; }
// transitivity of bounds
pub proof fn lt_trans<K>(cmp: Cmp<K>, s: Seq<K>, x: K, y: K) requires ord(cmp), cmp((x, y)) != Order::GREATER ensures ltA(cmp, s, x) ==> ltA(cmp, s, y), gtA(cmp, s, y) ==> gtA(cmp, s, x)
{ assert forall |z: K| #![trigger inset(cmp, s, z)] ltA(cmp, s, x) && inset(cmp, s, z) implies cmp((z, y)) == Order::LESS by { ord_tr(cmp, z, x, y); }
  assert forall |z: K| #![trigger inset(cmp, s, z)] gtA(cmp, s, y) && inset(cmp, s, z) implies cmp((x, z)) == Order::LESS by { ord_tr(cmp, x, y, z); } }
// comparing two ascending sequences from their least elements
pub proof fn cons_sub<K>(cmp: Cmp<K>, x: K, a: Seq<K>, y: K, b: Seq<K>) requires ord(cmp), asc(cmp, seq![x].add(a)), asc(cmp, seq![y].add(b))
    ensures cmp((x, y)) == Order::EQUAL ==> subset(cmp, seq![x].add(a), seq![y].add(b)) == subset(cmp, a, b),
            cmp((x, y)) == Order::LESS ==> !subset(cmp, seq![x].add(a), seq![y].add(b)),
            cmp((x, y)) == Order::GREATER ==> subset(cmp, seq![x].add(a), seq![y].add(b)) == subset(cmp, seq![x].add(a), b)
{ broadcast use {has_add, has_one, asc_cons}; let s = seq![x].add(a); let t = seq![y].add(b); assert(cmp((x, x)) == Order::EQUAL); assert(inset(cmp, s, x));
  if cmp((x, y)) == Order::EQUAL {
    if subset(cmp, s, t) { assert forall |z: K| #![trigger inset(cmp, a, z)] inset(cmp, a, z) implies inset(cmp, b, z) by { assert(inset(cmp, s, z)); assert(inset(cmp, t, z)); ord_tr(cmp, z, y, x); ord_tr(cmp, x, y, z); ord_tr(cmp, z, x, z); } }
    if subset(cmp, a, b) { assert forall |z: K| #![trigger inset(cmp, s, z)] inset(cmp, s, z) implies inset(cmp, t, z) by { if cmp((z, x)) == Order::EQUAL { ord_tr(cmp, z, x, y); } } }
  } else if cmp((x, y)) == Order::LESS { if subset(cmp, s, t) { assert(inset(cmp, t, x)); } }
  else {
    if subset(cmp, s, t) { assert forall |z: K| #![trigger inset(cmp, s, z)] inset(cmp, s, z) implies inset(cmp, b, z) by { assert(inset(cmp, t, z)); ord_tr(cmp, z, y, x); ord_tr(cmp, y, x, z); let u = cmp((y, x)); } }
    if subset(cmp, s, b) { assert forall |z: K| #![trigger inset(cmp, s, z)] inset(cmp, s, z) implies inset(cmp, t, z) by { assert(inset(cmp, b, z)); } }
  } }
// comparing the sequences lexicographically
pub open spec fn lexs<K>(cmp: Cmp<K>, a: Seq<K>, b: Seq<K>) -> Order decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Order::EQUAL } else { Order::LESS } } else if b.len() == 0 { Order::GREATER }
    else { match cmp((a[0], b[0])) { Order::EQUAL => lexs(cmp, a.drop_first(), b.drop_first()), o => o } } }
pub broadcast proof fn lexs_cons<K>(cmp: Cmp<K>, x: K, a: Seq<K>, y: K, b: Seq<K>) ensures #[trigger] lexs(cmp, seq![x].add(a), seq![y].add(b)) == (match cmp((x, y)) { Order::EQUAL => lexs(cmp, a, b), o => o })
{ assert(seq![x].add(a).drop_first() =~= a); assert(seq![y].add(b).drop_first() =~= b); }
// insertion that keeps an element already there
pub open spec fn insk<K>(cmp: Cmp<K>, s: Seq<K>, x: K) -> Seq<K> { if mem(cmp, s, x) { s } else { ins(cmp, s, x, x) } }
pub open spec fn inssk<K>(cmp: Cmp<K>, s: Seq<K>, l: Seq<K>) -> Seq<K> decreases l.len() { if l.len() == 0 { s } else { inssk(cmp, insk(cmp, s, l[0]), l.drop_first()) } }
pub broadcast proof fn inssk_none<K>(cmp: Cmp<K>, s: Seq<K>) ensures #[trigger] inssk(cmp, s, Seq::<K>::empty()) == s {}
pub broadcast proof fn inssk_one<K>(cmp: Cmp<K>, s: Seq<K>, x: K, l: Seq<K>) ensures #[trigger] inssk(cmp, s, seq![x].add(l)) == inssk(cmp, insk(cmp, s, x), l) { assert(seq![x].add(l).drop_first() =~= l); }
pub proof fn insk_props<K>(cmp: Cmp<K>, s: Seq<K>, x: K) requires ord(cmp), asc(cmp, s) ensures asc(cmp, insk(cmp, s, x)), insk(cmp, s, x).len() == s.len() + (if mem(cmp, s, x) { 0int } else { 1 }),
    forall |y: K| #![trigger inset(cmp, insk(cmp, s, x), y)] inset(cmp, insk(cmp, s, x), y) == (inset(cmp, s, y) || cmp((y, x)) == Order::EQUAL), forall |y: K| #![trigger holds(insk(cmp, s, x), y)] holds(insk(cmp, s, x), y) ==> holds(s, y) || y == x
{ ins_asc(cmp, s, x, x); ins_len(cmp, s, x); assert forall |y: K| #![trigger inset(cmp, insk(cmp, s, x), y)] inset(cmp, insk(cmp, s, x), y) == (inset(cmp, s, y) || cmp((y, x)) == Order::EQUAL) by { ins_has(cmp, s, x, y); if mem(cmp, s, x) { mem_has(cmp, s, x); if cmp((y, x)) == Order::EQUAL { has_eq(cmp, s, y, x); } } }
  assert forall |y: K| #![trigger holds(insk(cmp, s, x), y)] holds(insk(cmp, s, x), y) implies holds(s, y) || y == x by { ins_holds(cmp, s, x, y); } }
pub proof fn inssk_props<K>(cmp: Cmp<K>, s: Seq<K>, l: Seq<K>) requires ord(cmp), asc(cmp, s) ensures asc(cmp, inssk(cmp, s, l)), forall |y: K| #![trigger inset(cmp, inssk(cmp, s, l), y)] inset(cmp, inssk(cmp, s, l), y) == (inset(cmp, s, y) || inset(cmp, l, y)) decreases l.len()
{ if l.len() == 0 { assert forall |y: K| #![trigger inset(cmp, inssk(cmp, s, l), y)] inset(cmp, inssk(cmp, s, l), y) == (inset(cmp, s, y) || inset(cmp, l, y)) by { assert(l =~= Seq::empty()); has_empty(cmp, y); } }
  else { let s2 = insk(cmp, s, l[0]); insk_props(cmp, s, l[0]); inssk_props(cmp, s2, l.drop_first());
    assert forall |y: K| #![trigger inset(cmp, inssk(cmp, s, l), y)] inset(cmp, inssk(cmp, s, l), y) == (inset(cmp, s, y) || inset(cmp, l, y)) by { assert(inset(cmp, inssk(cmp, s2, l.drop_first()), y) == (inset(cmp, s2, y) || inset(cmp, l.drop_first(), y))); assert(inset(cmp, insk(cmp, s, l[0]), y) == (inset(cmp, s, y) || cmp((y, l[0])) == Order::EQUAL)); assert(l =~= node(Seq::empty(), l[0], l.drop_first())); has_node(cmp, Seq::empty(), l[0], l.drop_first(), y); has_empty(cmp, y); } } }
pub open spec fn subset<K>(cmp: Cmp<K>, a: Seq<K>, b: Seq<K>) -> bool { forall |x: K| #![trigger inset(cmp, a, x)] inset(cmp, a, x) ==> inset(cmp, b, x) }
pub open spec fn same<K>(cmp: Cmp<K>, a: Seq<K>, b: Seq<K>) -> bool { subset(cmp, a, b) && subset(cmp, b, a) }
pub open spec fn eq_all<K>(cmp: Cmp<K>, p: spec_fn(K) -> bool, s: Seq<K>) -> bool { forall |x: K| #![trigger inset(cmp, s, x)] inset(cmp, s, x) == p(x) }
pub broadcast proof fn subset_empty<K>(cmp: Cmp<K>, b: Seq<K>) ensures #[trigger] subset(cmp, Seq::<K>::empty(), b) { broadcast use has_empty; }
pub broadcast proof fn subset_node<K>(cmp: Cmp<K>, l: Seq<K>, e: K, r: Seq<K>, b: Seq<K>) requires ord(cmp) ensures #[trigger] subset(cmp, node(l, e, r), b) == (subset(cmp, l, b) && inset(cmp, b, e) && subset(cmp, r, b))
{ broadcast use has_node; let t = node(l, e, r); assert(cmp((e, e)) == Order::EQUAL); assert(inset(cmp, t, e));
  if subset(cmp, t, b) { assert forall |x: K| #![trigger inset(cmp, l, x)] inset(cmp, l, x) implies inset(cmp, b, x) by { assert(inset(cmp, t, x)); } assert forall |x: K| #![trigger inset(cmp, r, x)] inset(cmp, r, x) implies inset(cmp, b, x) by { assert(inset(cmp, t, x)); } }
  if subset(cmp, l, b) && inset(cmp, b, e) && subset(cmp, r, b) { assert forall |x: K| #![trigger inset(cmp, t, x)] inset(cmp, t, x) implies inset(cmp, b, x) by { if cmp((x, e)) == Order::EQUAL { has_eq(cmp, b, x, e); } } } }
// sequences one below the other
pub broadcast proof fn asc_add<K>(cmp: Cmp<K>, a: Seq<K>, b: Seq<K>) requires ord(cmp), asc(cmp, a), asc(cmp, b), forall |x: K, y: K| #![trigger inset(cmp, a, x), inset(cmp, b, y)] inset(cmp, a, x) && inset(cmp, b, y) ==> cmp((x, y)) == Order::LESS
    ensures #[trigger] asc(cmp, a.add(b))
{ reveal(inset); let t = a.add(b); let n = a.len() as int;
  assert forall |i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies cmp((t[i], t[j])) == Order::LESS by {
    if j < n { assert(t[i] == a[i] && t[j] == a[j]); } else if i >= n { assert(t[i] == b[i - n] && t[j] == b[j - n]); }
    else { assert(t[i] == a[i] && t[j] == b[j - n]); let u = cmp((a[i], a[i])); let v = cmp((b[j - n], b[j - n])); assert(inset(cmp, a, a[i])); assert(inset(cmp, b, b[j - n])); } } }
pub broadcast proof fn cons_add<X>(x: X, a: Seq<X>, b: Seq<X>) ensures #![trigger node(a, x, b)] node(a, x, b) == a.add(seq![x].add(b)) { assert(node(a, x, b) =~= a.add(seq![x].add(b))); }
pub proof fn split1<X>(s: Seq<X>) requires s.len() > 0 ensures s == seq![s[0]].add(s.drop_first()) { assert(s =~= seq![s[0]].add(s.drop_first())); }
// adding the elements of a list one by one
pub open spec fn inss<K>(cmp: Cmp<K>, s: Seq<K>, l: Seq<K>) -> Seq<K> decreases l.len() { if l.len() == 0 { s } else { inss(cmp, ins(cmp, s, l[0], l[0]), l.drop_first()) } }
pub broadcast proof fn inss_none<K>(cmp: Cmp<K>, s: Seq<K>) ensures #[trigger] inss(cmp, s, Seq::<K>::empty()) == s {}
pub broadcast proof fn inss_one<K>(cmp: Cmp<K>, s: Seq<K>, x: K, l: Seq<K>) ensures #[trigger] inss(cmp, s, seq![x].add(l)) == inss(cmp, ins(cmp, s, x, x), l) { assert(seq![x].add(l).drop_first() =~= l); }
pub proof fn inss_props<K>(cmp: Cmp<K>, s: Seq<K>, l: Seq<K>) requires ord(cmp), asc(cmp, s) ensures asc(cmp, inss(cmp, s, l)), forall |y: K| #![trigger inset(cmp, inss(cmp, s, l), y)] inset(cmp, inss(cmp, s, l), y) == (inset(cmp, s, y) || inset(cmp, l, y)) decreases l.len()
{ if l.len() == 0 { assert forall |y: K| #![trigger inset(cmp, inss(cmp, s, l), y)] inset(cmp, inss(cmp, s, l), y) == (inset(cmp, s, y) || inset(cmp, l, y)) by { assert(l =~= Seq::empty()); has_empty(cmp, y); } }
  else { let s2 = ins(cmp, s, l[0], l[0]); ins_asc(cmp, s, l[0], l[0]); inss_props(cmp, s2, l.drop_first());
    assert forall |y: K| #![trigger inset(cmp, inss(cmp, s, l), y)] inset(cmp, inss(cmp, s, l), y) == (inset(cmp, s, y) || inset(cmp, l, y)) by { assert(inset(cmp, inss(cmp, s2, l.drop_first()), y) == (inset(cmp, s2, y) || inset(cmp, l.drop_first(), y))); ins_has(cmp, s, l[0], y); assert(l =~= node(Seq::empty(), l[0], l.drop_first())); has_node(cmp, Seq::empty(), l[0], l.drop_first(), y); has_empty(cmp, y); } } }
}
pub use setlib::*;
"""
USE = "broadcast use {node_assoc, node_add, add_node, add_empty, empty_add, node_len, has_empty, holds_empty, has_node, has_add, holds_node, holds_add, asc_nodeA, ltA_node, gtA_node, asc_empty, inss_none, inss_one};\n"
SEQUSE = "broadcast use {has_one, holds_one, ltA_add, gtA_add, ltA_one, gtA_one, asc_cons, asc_snoc, lexs_cons, inssk_none, inssk_one};\n"
