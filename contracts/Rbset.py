"""Contracts on mosmllib/Rbset.sml"""
from smlv.trans import Contract as F
from . import setlib
from .rbtree import RB

GROUP = False
NAME = "Rbset"
rb = RB(False)
G, T, D, d = rb.G, rb.T, rb.D, rb.d
DG, IV = "D_digits<K>", "D_intv<K>"
BASE = ["node_assoc", "node_add", "add_node", "node_len"]
SETG = ["has_empty", "holds_empty", "has_node", "has_add", "holds_node", "holds_add", "asc_nodeA", "ltA_node", "gtA_node", "asc_empty", "has_one", "holds_one", "ltA_add", "gtA_add", "ltA_one", "gtA_one", "asc_cons", "asc_snoc", "lexs_cons", "add_empty", "empty_add", "add_assoc", "lt_transb", "gt_transb", "ltA_empty", "gtA_empty", "ord_refl", "asc_mid", "asc_cat"]
NODES = ["node_assoc", "node_add", "add_node", "add_empty", "empty_add", "node_len", "has_empty", "holds_empty", "has_node", "has_add", "holds_node", "holds_add", "asc_nodeA", "ltA_node", "gtA_node", "asc_empty"]
LIB = setlib.TEXT
# rbtree.py defines these itself
for nm in ("node_assoc", "node_add", "add_node", "add_empty", "empty_add"):
    i = LIB.index("pub broadcast proof fn %s<" % nm)
    LIB = LIB[:i] + LIB[LIB.index("\n", i) + 1:]
i = LIB.index("pub proof fn split1<")
LIB = LIB[:i] + LIB[LIB.index("\n", i) + 1:]
base = rb.spec()
base = base.replace("\npub open spec fn ord<A>", "\npub mod ordm { use super::*;\npub open spec fn ord<A>", 1)
i = base.index("\n}\n", base.index("pub open spec fn ord<A>"))
base = base[:i + 3] + "}\npub use ordm::*;\n" + base[i + 3:]
SPEC = base + LIB + r"""
pub mod digl { use super::*;
// digits of the binary number representation: trees of height h with p - 1 elements, greatest elements first
pub open spec fn dinv<K>(d: D_digits<K>, h: int, p: int) -> bool decreases d {
    match d { D_digits::ZERO => true, D_digits::ONE { f0, f1, f2 } => inv(f1) && !(f1 is RED) && bh(f1) == h && items(f1).len() + 1 == p && dinv(*f2, h + 1, 2 * p),
      D_digits::TWO { f0, f1, f2, f3, f4 } => inv(f1) && !(f1 is RED) && bh(f1) == h && items(f1).len() + 1 == p && inv(f3) && !(f3 is RED) && bh(f3) == h && items(f3).len() + 1 == p && dinv(*f4, h + 1, 2 * p) }
}
pub open spec fn ditems<K>(d: D_digits<K>) -> Seq<K> decreases d {
    match d { D_digits::ZERO => Seq::empty(), D_digits::ONE { f0, f1, f2 } => ditems(*f2).add(items(f1)).add(seq![f0]),
      D_digits::TWO { f0, f1, f2, f3, f4 } => ditems(*f4).add(items(f3)).add(seq![f2]).add(items(f1)).add(seq![f0]) }
}
pub broadcast proof fn node_first<K>(a: Seq<K>, x: K, b: Seq<K>) ensures #[trigger] node(a, x, b)[0] == (if a.len() > 0 { a[0] } else { x }) {}
pub broadcast proof fn node_last<K>(a: Seq<K>, x: K, b: Seq<K>) ensures #[trigger] node(a, x, b).last() == (if b.len() > 0 { b.last() } else { x }) {}
pub proof fn zero_digits<K>() ensures dinv::<K>(D_digits::ZERO, 0, 1), ditems::<K>(D_digits::ZERO) == Seq::<K>::empty() {}
pub proof fn merge_items<K>(q: Seq<K>, x: Seq<K>, a: K, y: Seq<K>, b: K, z: Seq<K>) ensures
    q.add(node(x, a, y)).add(seq![b]).add(z) =~= q.add(x).add(seq![a]).add(y).add(seq![b]).add(z), q.add(x).add(seq![a]).add(y) =~= q.add(node(x, a, y)),
    q.add(x).add(seq![a]).add(y).add(seq![b]).add(z) =~= q.add(node(x, a, node(y, b, z))) {}
// intervals
pub open spec fn above<K>(cmp: Cmp<K>, iv: D_intv<K>, k: K) -> bool { match iv { D_intv::From { f0 } => cmp((f0, k)) != Order::GREATER, D_intv::FromTo { f0, f1 } => cmp((f0, k)) != Order::GREATER, _ => true } }
pub open spec fn below<K>(cmp: Cmp<K>, iv: D_intv<K>, k: K) -> bool { match iv { D_intv::To { f0 } => cmp((k, f0)) == Order::LESS, D_intv::FromTo { f0, f1 } => cmp((k, f1)) == Order::LESS, _ => true } }
// the elements of s within the lower (upper) bound
pub open spec fn fil<K>(cmp: Cmp<K>, iv: D_intv<K>, lo: bool, hi: bool, s: Seq<K>) -> Seq<K> decreases s.len()
{ if s.len() == 0 { s } else { let t = fil(cmp, iv, lo, hi, s.drop_first()); if (lo ==> above(cmp, iv, s[0])) && (hi ==> below(cmp, iv, s[0])) { seq![s[0]].add(t) } else { t } } }
pub proof fn fil_add<K>(cmp: Cmp<K>, iv: D_intv<K>, lo: bool, hi: bool, s: Seq<K>, t: Seq<K>) ensures fil(cmp, iv, lo, hi, s.add(t)) == fil(cmp, iv, lo, hi, s).add(fil(cmp, iv, lo, hi, t)) decreases s.len()
{ if s.len() == 0 { assert(s.add(t) =~= t); assert(s.add(fil(cmp, iv, lo, hi, t)) =~= fil(cmp, iv, lo, hi, t)); } else { fil_add(cmp, iv, lo, hi, s.drop_first(), t); assert(s.add(t).drop_first() =~= s.drop_first().add(t));
    assert(seq![s[0]].add(fil(cmp, iv, lo, hi, s.drop_first()).add(fil(cmp, iv, lo, hi, t))) =~= seq![s[0]].add(fil(cmp, iv, lo, hi, s.drop_first())).add(fil(cmp, iv, lo, hi, t))); } }
pub proof fn fil_one<K>(cmp: Cmp<K>, iv: D_intv<K>, lo: bool, hi: bool, x: K) ensures fil(cmp, iv, lo, hi, seq![x]) == (if (lo ==> above(cmp, iv, x)) && (hi ==> below(cmp, iv, x)) { seq![x] } else { Seq::empty() })
{ assert(seq![x].drop_first() =~= Seq::empty()); reveal_with_fuel(fil, 2); assert(seq![x].add(Seq::<K>::empty()) =~= seq![x]); assert(Seq::<K>::empty().add(Seq::<K>::empty()) =~= Seq::<K>::empty()); }
pub broadcast proof fn fil_node<K>(cmp: Cmp<K>, iv: D_intv<K>, lo: bool, hi: bool, a: Seq<K>, x: K, b: Seq<K>)
    ensures #[trigger] fil(cmp, iv, lo, hi, node(a, x, b)) == (if (lo ==> above(cmp, iv, x)) && (hi ==> below(cmp, iv, x)) { node(fil(cmp, iv, lo, hi, a), x, fil(cmp, iv, lo, hi, b)) } else { fil(cmp, iv, lo, hi, a).add(fil(cmp, iv, lo, hi, b)) })
{ fil_add(cmp, iv, lo, hi, a.add(seq![x]), b); fil_add(cmp, iv, lo, hi, a, seq![x]); fil_one(cmp, iv, lo, hi, x); assert(fil(cmp, iv, lo, hi, a).add(Seq::<K>::empty()) =~= fil(cmp, iv, lo, hi, a)); }
pub broadcast proof fn fil_empty<K>(cmp: Cmp<K>, iv: D_intv<K>, lo: bool, hi: bool) ensures #[trigger] fil(cmp, iv, lo, hi, Seq::<K>::empty()) == Seq::<K>::empty() {}
pub proof fn fil_all<K>(cmp: Cmp<K>, iv: D_intv<K>, lo: bool, hi: bool, s: Seq<K>) requires ord(cmp), forall |x: K| #![trigger inset(cmp, s, x)] inset(cmp, s, x) ==> (lo ==> above(cmp, iv, x)) && (hi ==> below(cmp, iv, x)) ensures fil(cmp, iv, lo, hi, s) == s decreases s.len()
{ if s.len() > 0 { let d = s.drop_first(); assert(s =~= node(Seq::empty(), s[0], d)); assert forall |x: K| #![trigger inset(cmp, d, x)] inset(cmp, d, x) implies (lo ==> above(cmp, iv, x)) && (hi ==> below(cmp, iv, x)) by { has_node(cmp, Seq::empty(), s[0], d, x); assert(inset(cmp, s, x)); }
    fil_all(cmp, iv, lo, hi, d); assert(cmp((s[0], s[0])) == Order::EQUAL); has_node(cmp, Seq::empty(), s[0], d, s[0]); assert(inset(cmp, s, s[0])); assert(seq![s[0]].add(d) =~= s); } }
pub proof fn fil_skip<K>(cmp: Cmp<K>, iv: D_intv<K>, lo: bool, hi: bool, s: Seq<K>) requires ord(cmp), forall |x: K| #![trigger inset(cmp, s, x)] inset(cmp, s, x) ==> !((lo ==> above(cmp, iv, x)) && (hi ==> below(cmp, iv, x))) ensures fil(cmp, iv, lo, hi, s) == Seq::<K>::empty() decreases s.len()
{ if s.len() > 0 { let d = s.drop_first(); assert(s =~= node(Seq::empty(), s[0], d)); assert forall |x: K| #![trigger inset(cmp, d, x)] inset(cmp, d, x) implies !((lo ==> above(cmp, iv, x)) && (hi ==> below(cmp, iv, x))) by { has_node(cmp, Seq::empty(), s[0], d, x); assert(inset(cmp, s, x)); }
    fil_skip(cmp, iv, lo, hi, d); assert(cmp((s[0], s[0])) == Order::EQUAL); has_node(cmp, Seq::empty(), s[0], d, s[0]); assert(inset(cmp, s, s[0])); } else { assert(s =~= Seq::empty()); } }
// what a bound at k says about the elements on either side of k
pub proof fn fil_side<K>(cmp: Cmp<K>, iv: D_intv<K>, l: Seq<K>, k: K, r: Seq<K>) requires ord(cmp), asc(cmp, node(l, k, r))
    ensures above(cmp, iv, k) ==> fil(cmp, iv, true, false, r) == r && fil(cmp, iv, true, true, r) == fil(cmp, iv, false, true, r), !above(cmp, iv, k) ==> fil(cmp, iv, true, false, l) == Seq::<K>::empty() && fil(cmp, iv, true, true, l) == Seq::<K>::empty(),
            below(cmp, iv, k) ==> fil(cmp, iv, false, true, l) == l && fil(cmp, iv, true, true, l) == fil(cmp, iv, true, false, l), !below(cmp, iv, k) ==> fil(cmp, iv, false, true, r) == Seq::<K>::empty() && fil(cmp, iv, true, true, r) == Seq::<K>::empty()
{ asc_nodeA(cmp, l, k, r);
  let b = match iv { D_intv::From { f0 } => f0, D_intv::FromTo { f0, f1 } => f0, _ => k }; let t = match iv { D_intv::To { f0 } => f0, D_intv::FromTo { f0, f1 } => f1, _ => k };
  if above(cmp, iv, k) { assert forall |x: K| #![trigger inset(cmp, r, x)] inset(cmp, r, x) implies above(cmp, iv, x) by { ord_tr(cmp, b, k, x); } fil_all(cmp, iv, true, false, r); fil_same(cmp, iv, false, r); }
  else { assert forall |x: K| #![trigger inset(cmp, l, x)] inset(cmp, l, x) implies !above(cmp, iv, x) by { ord_tr(cmp, x, k, b); let u = cmp((k, b)); let v = cmp((x, b)); } fil_skip(cmp, iv, true, false, l); fil_skip(cmp, iv, true, true, l); }
  if below(cmp, iv, k) { assert forall |x: K| #![trigger inset(cmp, l, x)] inset(cmp, l, x) implies below(cmp, iv, x) by { ord_tr(cmp, x, k, t); } fil_all(cmp, iv, false, true, l); fil_same(cmp, iv, true, l); }
  else { assert forall |x: K| #![trigger inset(cmp, r, x)] inset(cmp, r, x) implies !below(cmp, iv, x) by { ord_tr(cmp, t, k, x); let u = cmp((t, k)); let v = cmp((t, x)); } fil_skip(cmp, iv, false, true, r); fil_skip(cmp, iv, true, true, r); } }
// if all elements satisfy one bound, only the other one selects
pub proof fn fil_same<K>(cmp: Cmp<K>, iv: D_intv<K>, lo: bool, s: Seq<K>) requires ord(cmp), forall |x: K| #![trigger inset(cmp, s, x)] inset(cmp, s, x) ==> (if lo { below(cmp, iv, x) } else { above(cmp, iv, x) }) ensures fil(cmp, iv, true, true, s) == fil(cmp, iv, lo, !lo, s) decreases s.len()
{ if s.len() > 0 { let d = s.drop_first(); assert(s =~= node(Seq::empty(), s[0], d)); assert forall |x: K| #![trigger inset(cmp, d, x)] inset(cmp, d, x) implies (if lo { below(cmp, iv, x) } else { above(cmp, iv, x) }) by { has_node(cmp, Seq::empty(), s[0], d, x); assert(inset(cmp, s, x)); }
    fil_same(cmp, iv, lo, d); assert(cmp((s[0], s[0])) == Order::EQUAL); has_node(cmp, Seq::empty(), s[0], d, s[0]); assert(inset(cmp, s, s[0])); } }
pub proof fn fil_none<K>(cmp: Cmp<K>, iv: D_intv<K>, lo: bool, hi: bool, s: Seq<K>) requires lo ==> !(iv is From || iv is FromTo), hi ==> !(iv is To || iv is FromTo) ensures fil(cmp, iv, lo, hi, s) == s decreases s.len()
{ if s.len() > 0 { fil_none(cmp, iv, lo, hi, s.drop_first()); assert(seq![s[0]].add(s.drop_first()) =~= s); } }
pub open spec fn fil2<K>(cmp: Cmp<K>, iv: D_intv<K>, lo: bool, hi: bool, s: Seq<K>) -> Seq<K> { s.filter(|x: K| (lo ==> above(cmp, iv, x)) && (hi ==> below(cmp, iv, x))) }
pub proof fn fil_asc<K>(cmp: Cmp<K>, iv: D_intv<K>, s: Seq<K>) requires ord(cmp), asc(cmp, s) ensures asc(cmp, fil(cmp, iv, true, true, s)), forall |z: K| #![trigger inset(cmp, fil(cmp, iv, true, true, s), z)] inset(cmp, fil(cmp, iv, true, true, s), z) <==> inset(cmp, s, z) && above(cmp, iv, z) && below(cmp, iv, z) decreases s.len()
{ broadcast use {has_empty, asc_empty}; if s.len() > 0 { let d = s.drop_first(); let f = fil(cmp, iv, true, true, d); let g = fil(cmp, iv, true, true, s); assert(s =~= node(Seq::empty(), s[0], d)); asc_nodeA(cmp, Seq::empty(), s[0], d); fil_asc(cmp, iv, d); asc_cons(cmp, s[0], f);
    let b = match iv { D_intv::From { f0 } => f0, D_intv::FromTo { f0, f1 } => f0, _ => s[0] }; let t = match iv { D_intv::To { f0 } => f0, D_intv::FromTo { f0, f1 } => f1, _ => s[0] };
    assert forall |z: K| #![trigger inset(cmp, g, z)] inset(cmp, g, z) <==> inset(cmp, s, z) && above(cmp, iv, z) && below(cmp, iv, z) by { has_node(cmp, Seq::empty(), s[0], d, z); has_add(cmp, seq![s[0]], f, z); has_one(cmp, s[0], z); if cmp((z, s[0])) == Order::EQUAL { ord_tr(cmp, z, s[0], b); ord_tr(cmp, z, s[0], t); } } }
  else { assert(s =~= Seq::empty()); } }
pub broadcast proof fn ltA_empty<K>(cmp: Cmp<K>, x: K) ensures #[trigger] ltA(cmp, Seq::<K>::empty(), x) { broadcast use has_empty; }
pub broadcast proof fn gtA_empty<K>(cmp: Cmp<K>, x: K) ensures #[trigger] gtA(cmp, Seq::<K>::empty(), x) { broadcast use has_empty; }
pub broadcast proof fn ord_refl<K>(cmp: Cmp<K>, x: K) requires ord(cmp) ensures #[trigger] cmp((x, x)) == Order::EQUAL {}
// two ascending sequences and their least elements
pub proof fn heads<K>(cmp: Cmp<K>, x: K, a: Seq<K>, y: K, b: Seq<K>) requires ord(cmp), asc(cmp, seq![x].add(a)), asc(cmp, seq![y].add(b))
    ensures cmp((x, y)) == Order::EQUAL ==> forall |z: K| #![trigger cmp((z, x))] #![trigger cmp((z, y))] cmp((z, x)) == cmp((z, y)),
        forall |z: K| #![trigger inset(cmp, a, z)] inset(cmp, a, z) ==> cmp((z, x)) == Order::GREATER && (cmp((x, y)) != Order::LESS ==> cmp((z, y)) == Order::GREATER),
        forall |z: K| #![trigger inset(cmp, b, z)] inset(cmp, b, z) ==> cmp((z, y)) == Order::GREATER && (cmp((x, y)) != Order::GREATER ==> cmp((z, x)) == Order::GREATER),
        cmp((x, y)) != Order::GREATER ==> gtA(cmp, b, x), cmp((x, y)) != Order::LESS ==> gtA(cmp, a, y),
        cmp((x, y)) == Order::LESS ==> forall |z: K| #![trigger cmp((z, x))] cmp((z, x)) == Order::EQUAL ==> cmp((z, y)) == Order::LESS,
        cmp((x, y)) == Order::GREATER ==> forall |z: K| #![trigger cmp((z, y))] cmp((z, y)) == Order::EQUAL ==> cmp((z, x)) == Order::LESS,
        cmp((x, y)) == Order::LESS <==> cmp((y, x)) == Order::GREATER, cmp((x, y)) == Order::GREATER <==> cmp((y, x)) == Order::LESS
{ asc_cons(cmp, x, a); asc_cons(cmp, y, b); if cmp((x, y)) != Order::GREATER { lt_trans(cmp, b, x, y); } if cmp((x, y)) != Order::LESS { lt_trans(cmp, a, y, x); }
  if cmp((x, y)) == Order::EQUAL { assert forall |z: K| #![trigger cmp((z, x))] #![trigger cmp((z, y))] cmp((z, x)) == cmp((z, y)) by { ord_tr(cmp, z, x, y); ord_tr(cmp, z, y, x); ord_tr(cmp, x, y, z); ord_tr(cmp, y, x, z); } }
  assert forall |z: K| #![trigger inset(cmp, a, z)] inset(cmp, a, z) implies cmp((z, x)) == Order::GREATER && (cmp((x, y)) != Order::LESS ==> cmp((z, y)) == Order::GREATER) by { ord_tr(cmp, y, x, z); }
  assert forall |z: K| #![trigger inset(cmp, b, z)] inset(cmp, b, z) implies cmp((z, y)) == Order::GREATER && (cmp((x, y)) != Order::GREATER ==> cmp((z, x)) == Order::GREATER) by { ord_tr(cmp, x, y, z); }
  if cmp((x, y)) == Order::LESS { assert forall |z: K| #![trigger cmp((z, x))] cmp((z, x)) == Order::EQUAL implies cmp((z, y)) == Order::LESS by { ord_tr(cmp, z, x, y); } }
  if cmp((x, y)) == Order::GREATER { assert forall |z: K| #![trigger cmp((z, y))] cmp((z, y)) == Order::EQUAL implies cmp((z, x)) == Order::LESS by { ord_tr(cmp, z, y, x); } } }
pub broadcast proof fn lt_transb<K>(cmp: Cmp<K>, s: Seq<K>, x: K, y: K) requires ord(cmp), ltA(cmp, s, x) ensures #![trigger ltA(cmp, s, x), ltA(cmp, s, y)] cmp((x, y)) != Order::GREATER ==> ltA(cmp, s, y) { if cmp((x, y)) != Order::GREATER { lt_trans(cmp, s, x, y); } }
pub broadcast proof fn gt_transb<K>(cmp: Cmp<K>, s: Seq<K>, x: K, y: K) requires ord(cmp), gtA(cmp, s, y) ensures #![trigger gtA(cmp, s, x), gtA(cmp, s, y)] cmp((x, y)) != Order::GREATER ==> gtA(cmp, s, x) { if cmp((x, y)) != Order::GREATER { lt_trans(cmp, s, x, y); } }
pub broadcast proof fn asc_mid<K>(cmp: Cmp<K>, l: Seq<K>, e: K, r: Seq<K>) requires ord(cmp) ensures #[trigger] asc(cmp, l.add(seq![e].add(r))) <==> (asc(cmp, l) && asc(cmp, r) && ltA(cmp, l, e) && gtA(cmp, r, e))
{ assert(l.add(seq![e].add(r)) =~= node(l, e, r)); asc_nodeA(cmp, l, e, r); }
pub broadcast proof fn asc_cat<K>(cmp: Cmp<K>, l: Seq<K>, r: Seq<K>, e: K) requires ord(cmp), asc(cmp, l), asc(cmp, r) ensures #![trigger asc(cmp, l.add(r)), ltA(cmp, l, e), gtA(cmp, r, e)] ltA(cmp, l, e) && gtA(cmp, r, e) ==> asc(cmp, l.add(r))
{ if ltA(cmp, l, e) && gtA(cmp, r, e) { let s = node(l, e, r); let t = l.add(r); asc_nodeA(cmp, l, e, r); let n = l.len() as int;
    assert forall |i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies cmp((t[i], t[j])) == Order::LESS by { let i2 = if i < n { i } else { i + 1 }; let j2 = if j < n { j } else { j + 1 }; assert(t[i] == s[i2]); assert(t[j] == s[j2]); } } }
pub proof fn asc_two<K>(cmp: Cmp<K>, x: K, y: K, r: Seq<K>) requires ord(cmp) ensures asc(cmp, seq![x].add(seq![y].add(r))) <==> cmp((x, y)) == Order::LESS && asc(cmp, seq![y].add(r)), asc(cmp, seq![x])
{ let t = seq![x].add(seq![y].add(r)); asc_cons(cmp, x, seq![y].add(r)); asc_cons(cmp, y, r); gtA_add(cmp, seq![y], r, x); gtA_one(cmp, y, x); if cmp((x, y)) == Order::LESS { lt_trans(cmp, r, x, y); } asc_cons(cmp, x, Seq::empty()); has_none(cmp); asc_empty(cmp); assert(seq![x].add(Seq::<K>::empty()) =~= seq![x]); }
pub proof fn has_none<K>(cmp: Cmp<K>) ensures forall |x: K| !#[trigger] inset(cmp, Seq::<K>::empty(), x) { broadcast use has_empty; }
pub proof fn split_map<K, B>(f: spec_fn(K) -> B, s: Seq<K>) requires s.len() > 0 ensures s.map_values(f) == seq![f(s[0])].add(s.drop_first().map_values(f)) { assert(s.map_values(f) =~= seq![f(s[0])].add(s.drop_first().map_values(f))); }
pub proof fn rev_split_map<K, B>(f: spec_fn(K) -> B, s: Seq<K>) requires s.len() > 0 ensures s.reverse().map_values(f) == s.drop_first().reverse().map_values(f).add(seq![f(s[0])]) { assert(s.reverse().map_values(f) =~= s.drop_first().reverse().map_values(f).add(seq![f(s[0])])); }
pub broadcast group g_set { @S }
pub broadcast group g_top { asc_empty, has_empty, holds_empty, ltA_empty, gtA_empty, add_empty, empty_add, has_add, holds_add, has_one, holds_one }
pub broadcast group g_fil { fil_node, fil_empty, add_empty, empty_add, add_assoc, node_add }
}
pub use digl::*;
broadcast use {@B};
""".replace("@S", ", ".join(SETG)).replace("@B", ", ".join(BASE))

DB = D.replace("K", "B")
C = "compare: spec_fn((K, K)) -> Order"
DU = "assert forall |h: int, p: int| #![trigger dinv(ds, h, p)] dinv(ds, h, p) implies (match ds { D_digits::ZERO => true, D_digits::ONE { f0, f1, f2 } => dinv(*f2, h + 1, 2 * p), D_digits::TWO { f0, f1, f2, f3, f4 } => dinv(*f4, h + 1, 2 * p) }) by {} "
ONEHINT = "broadcast use {add_empty, empty_add, add_assoc}; "
L1, L2 = "seq![x].add(up(stack1))", "seq![y].add(up(stack2))"
hs = lambda s: "inset(compare, %s, z)" % s
LOOPREQ = "ord(compare) && asc(compare, %s) && asc(compare, %s)" % (L1, L2)
DIGREQ = LOOPREQ + " && dinv(res, 0, 1) && asc(compare, ditems(res)) && ltA(compare, ditems(res), x) && ltA(compare, ditems(res), y)"
HIDE = "hide(ord); hide(ltA); hide(gtA); hide(asc); hide(dinv); hide(ditems); broadcast use g_set; zero_digits::<K>(); "
SHINT = HIDE + "heads(compare, x, up(stack1), y, up(stack2)); "
OLD = "let cmp_ = compare; lt_trans(compare, ditems(res), x, y); lt_trans(compare, ditems(res), y, x); lt_trans(compare, up(stack1), y, x); lt_trans(compare, up(stack2), x, y); "


def loop(fn, cond, hold):
    body = "forall |z: K| #![trigger inset(compare, ditems(r), z)] inset(compare, ditems(r), z) <==> inset(compare, ditems(res), z) || (%s)" % cond.replace("@1", hs(L1)).replace("@2", hs(L2))
    return [F(fn + ".loop", G, "x: K, y: K, stack1: Seq<%s>, stack2: Seq<%s>, res: %s" % (T, T, DG), DG, cap=C, req=DIGREQ, dec="up(stack1).len() + up(stack2).len()",
              ens=["dinv(r, 0, 1)", "asc(compare, ditems(r))", body, "forall |z: K| #![trigger holds(ditems(r), z)] holds(ditems(r), z) ==> holds(ditems(res), z) || %s" % " || ".join("holds(%s, z)" % {"1": L1, "2": L2}[h] for h in hold)], pre=SHINT)]


def setop(fn, cond, hold):
    A, B = "items(t1)", "items(t2)"
    return [F(fn, G, "((compare: spec_fn((K, K)) -> Order, t1: %s, n1: int), (c2: spec_fn((K, K)) -> Order, t2: %s, n2: int))" % (T, T), D, req="wf(compare, t1, n1) && wf(c2, t2, n2) && c2 == compare",
              ens=["r.0 == compare", "wfd(r)", "forall |z: K| #![trigger inset(compare, items(r.1), z)] inset(compare, items(r.1), z) <==> %s" % cond.replace("@1", hs(A)).replace("@2", hs(B)),
                   "forall |z: K| #![trigger holds(items(r.1), z)] holds(items(r.1), z) ==> %s" % " || ".join("holds(%s, z)" % {"1": A, "2": B}[h] for h in hold)], pre=HIDE.replace("g_set", "g_top"))]


def cmpop(fn, res, ty="bool", nm="compare"):
    c = nm + ": spec_fn((K, K)) -> Order"
    return [F(fn, G, "((%s, t1: %s, n1: int), (c2: spec_fn((K, K)) -> Order, t2: %s, n2: int))" % (c, T, T), ty, req="wf(%s, t1, n1) && wf(c2, t2, n2) && c2 == %s" % (nm, nm), ens="r == " + res.replace("@c", nm).replace("@1", "items(t1)").replace("@2", "items(t2)"), pre=HIDE + "broadcast use subset_empty;" + CONSE.replace("@c", nm)),
            F(fn + ".loop", G, "x: K, y: K, stack1: Seq<%s>, stack2: Seq<%s>" % (T, T), ty, cap=c, req=LOOPREQ.replace("compare", nm), dec="up(stack1).len() + up(stack2).len()", ens="r == " + res.replace("@c", nm).replace("@1", L1).replace("@2", L2),
              pre=HIDE + "heads(%s, x, up(stack1), y, up(stack2)); cons_sub(%s, x, up(stack1), y, up(stack2)); cons_sub(%s, y, up(stack2), x, up(stack1)); broadcast use subset_empty;" % (nm, nm, nm) + CONSE.replace("@c", nm))]


CONSE = " broadcast use cons_nonempty;"
SPEC = SPEC.replace("pub open spec fn subset<K>", "pub broadcast proof fn cons_nonempty<K>(cmp: Cmp<K>, x: K, a: Seq<K>) requires ord(cmp) ensures !#[trigger] subset(cmp, seq![x].add(a), Seq::<K>::empty()) { broadcast use {has_add, has_one, has_empty}; assert(cmp((x, x)) == Order::EQUAL); assert(inset(cmp, seq![x].add(a), x)); }\npub open spec fn subset<K>", 1)
INS = rb.hint("t", ["asc_node(compare, @l, @e, @r);", "ins_node(compare, @l, @e, @r, elm, elm);", "pos_node(compare, @l, @e, @r, elm);"])
NS = "node(items(left), x, items(right))"
NY = "node(items(a), y, items(b))"
CAPX = C + ", x: K"
DELENS = lambda s, res: ["!mem(compare, %s, x) ==> r == Res::<%s>::Exn(Exn::NotFound)" % (s, T), "mem(compare, %s, x) ==> r is Ok && items(r->Ok_0) =~= del(compare, %s, x)" % (s, s)] + res
CONTRACTS = rb.common() + rb.get("getMin", "up") + rb.get("getMax", "down") + rb.traversals() + rb.listitems() + [
    F("empty", G, C, D, ens="r.0 == compare && items(r.1) == Seq::<K>::empty() && r.2 == 0 && inv(r.1)"),
    F("getOrder", G, d, "spec_fn((K, K)) -> Order", ens="r == cmp"),
    F("numItems", G, d, "int", req="wf(cmp, t, n)", ens="r == items(t).len()"),
    F("singleton", G, C + ", x: K", D, ens="r.0 == compare && items(r.1) == node(Seq::<K>::empty(), x, Seq::<K>::empty()) && (ord(compare) ==> wfd(r))"),
    F("isEmpty", G, d, "bool", pre="unf(t);", ens="r == (items(t).len() == 0)"),
    F("member", G, "(%s, elm: K)" % d.replace("cmp:", "compare:"), "bool", req="wf(compare, t, n)", ens="r == inset(compare, items(t), elm)"),
    F("member.mem", G, "t: " + T, "bool", cap=C + ", elm: K", req="ord(compare) && asc(compare, items(t))", ens="r == inset(compare, items(t), elm)", dec="size(t), 1int", pre="mem_has(compare, items(t), elm);"),
    F("member.memShared", G, "x: K, left: %s, right: %s" % (T, T), "bool", cap=C + ", elm: K", req="ord(compare) && asc(compare, %s)" % NS, ens="r == inset(compare, %s, elm)" % NS, dec="1 + size(left) + size(right), 0int",
      pre="asc_node(compare, items(left), x, items(right)); pos_node(compare, items(left), x, items(right), elm); mem_has(compare, %s, elm); mem_has(compare, items(left), elm); mem_has(compare, items(right), elm);" % NS),
    F("retrieve", G, "(%s, x: K)" % d, "K", raises=True, req="wf(cmp, t, n)", ens="r == (if inset(cmp, items(t), x) { Res::Ok(x) } else { Res::<K>::Exn(Exn::NotFound) })"),
    F("peek", G, "(%s, x: K)" % d, "Option<K>", req="wf(cmp, t, n)", ens="r == (if inset(cmp, items(t), x) { Some(x) } else { None })"),
    F("add", G, "(%s, elm: K)" % d, D, req="wf(cmp, t, n)", ens=["r.0 == cmp", "wfd(r)", "items(r.1) == insk(cmp, items(t), elm)"], pre="insk_props(cmp, items(t), elm);"),
    F("add.ins", G, "t: " + T, T, raises=True, cap=C + ", elm: K", req="ord(compare) && inv(t) && asc(compare, items(t))", dec="t",
      ens=["mem(compare, items(t), elm) ==> r == Res::<%s>::Exn(Exn::GETOUT)" % T, "!mem(compare, items(t), elm) ==> r is Ok && weak(r->Ok_0) && (!(t is RED) ==> inv(r->Ok_0)) && bh(r->Ok_0) == bh(t) && items(r->Ok_0) =~= ins(compare, items(t), elm, elm)"],
      pre=INS + "if t is LEAF { assert(ins(compare, items(t), elm, elm) =~= node(Seq::empty(), elm, Seq::empty())); }"),
    F("add'", G, "(elm: K, %s)" % d, D, req="wf(cmp, t, n)", ens=["r.0 == cmp", "wfd(r)", "items(r.1) == insk(cmp, items(t), elm)"]),
    F("addList", G, "(%s, xs: Seq<K>)" % d, D, req="wf(cmp, t, n)", ens=["r.0 == cmp", "wfd(r)", "items(r.1) == inssk(cmp, items(t), xs)", "forall |z: K| #![trigger inset(cmp, items(r.1), z)] inset(cmp, items(r.1), z) <==> inset(cmp, items(t), z) || inset(cmp, xs, z)"], pre="inssk_props(cmp, items(t), xs);"),
    F("addList.foldl", G, "s: %s, l: Seq<K>" % D, D, of="List.foldl", fix=1, req="wfd(s)", ens=["r.0 == s.0", "wfd(r)", "items(r.1) == inssk(s.0, items(s.1), l)"], dec="l.len()", pre="if l.len() > 0 { split1(l); } else { assert(l =~= Seq::empty()); }"),
    F("delete", G, "(%s, x: K)" % d, D, raises=True, req="wf(cmp, t, n)", ens=["!mem(cmp, items(t), x) ==> r == Res::<%s>::Exn(Exn::NotFound)" % D,
      "mem(cmp, items(t), x) ==> r is Ok && r->Ok_0.0 == cmp && wfd(r->Ok_0) && items(r->Ok_0.1) == del(cmp, items(t), x)"], pre="del_asc(cmp, items(t), x);"),
    F("delete.del", G, "t: " + T, T, raises=True, cap=CAPX, req="ord(compare) && inv(t) && asc(compare, items(t))", dec="size(t), 1int",
      ens=DELENS("items(t)", ["r is Ok ==> weak(r->Ok_0) && (t is RED ==> inv(r->Ok_0)) && bh(r->Ok_0) == bh(t) - (if t is BLACK { 1int } else { 0 })"])),
    F("delete.delShared", G, "y: K, a: %s, b: %s" % (T, T), T, raises=True, cap=CAPX, dec="1 + size(a) + size(b), 0int", req="ord(compare) && inv(a) && inv(b) && bh(a) == bh(b) && asc(compare, %s)" % NY,
      ens=DELENS(NY, ["r is Ok ==> weak(r->Ok_0) && (!(a is RED) && !(b is RED) ==> inv(r->Ok_0)) && bh(r->Ok_0) == bh(a)"]),
      pre="asc_node(compare, items(a), y, items(b)); pos_node(compare, items(a), y, items(b), x); del_node(compare, items(a), y, items(b), x); bh_nonneg(a); bh_nonneg(b);"),
    F("min", G, d, "Option<K>", ens="r == (if items(t).len() > 0 { Some(items(t)[0]) } else { None })"),
    F("min.h", G, "t: " + T, "Option<K>", ens="r == (if items(t).len() > 0 { Some(items(t)[0]) } else { None })", dec="t", pre="broadcast use {node_first, node_last}; unf(t); if t is RED { unf(*t->RED_f1); } if t is BLACK { unf(*t->BLACK_f1); }"),
    F("max", G, d, "Option<K>", ens="r == (if items(t).len() > 0 { Some(items(t).last()) } else { None })"),
    F("max.h", G, "t: " + T, "Option<K>", ens="r == (if items(t).len() > 0 { Some(items(t).last()) } else { None })", dec="t", pre="broadcast use {node_first, node_last}; unf(t); if t is RED { unf(*t->RED_f2); } if t is BLACK { unf(*t->BLACK_f2); }"),
    F("find", G, "p: spec_fn(K) -> bool, " + d, "Option<K>", ens="match r { Some(y) => holds(items(t), y) && p(y), None => forall |z: K| #![trigger holds(items(t), z)] holds(items(t), z) ==> !p(z) }", pre=ONEHINT),
    F("find.loop", G, "stack: Seq<%s>" % T, "Option<K>", cap="p: spec_fn(K) -> bool", ens="match r { Some(y) => holds(up(stack), y) && p(y), None => forall |z: K| #![trigger holds(up(stack), z)] holds(up(stack), z) ==> !p(z) }", dec="up(stack).len()", pre="broadcast use {holds_add, holds_one, holds_empty}; if up(stack).len() == 0 { assert(up(stack) =~= Seq::empty()); }"),
    # binary digits
    F("incr", G, "x: K, a: %s, ds: %s" % (T, DG), DG, ens=["forall |h: int, p: int| #![trigger dinv(ds, h, p)] dinv(ds, h, p) && inv(a) && !(a is RED) && bh(a) == h && items(a).len() + 1 == p ==> dinv(r, h, p)", "ditems(r) =~= ditems(ds).add(items(a)).add(seq![x])"], dec="ds",
      pre="reveal_with_fuel(dinv, 3); broadcast use {add_assoc}; " + DU),
    F("insertMax", G, "(a: K, digits: %s)" % DG, DG, ens=["dinv(digits, 0, 1) ==> dinv(r, 0, 1)", "ditems(r) == ditems(digits).add(seq![a])"], pre=ONEHINT + "let trig = dinv(digits, 0, 1);"),
    F("build", G, "ds: %s, a: %s" % (DG, T), T, ens=["forall |h: int, p: int| #![trigger dinv(ds, h, p)] dinv(ds, h, p) && inv(a) && !(a is RED) && bh(a) == h ==> inv(r)", "items(r) =~= ditems(ds).add(items(a))"], dec="ds", pre=DU),
    F("buildAll", G, "digits: " + DG, T, req="dinv(digits, 0, 1)", ens=["inv(r)", "items(r) =~= ditems(digits)"]),
    F("toInt", G, "digits: " + DG, "int", req="dinv(digits, 0, 1)", ens="r == ditems(digits).len()"),
    F("toInt.loop", G, "ds: %s, power: int, acc: int" % DG, "int", ens="forall |h: int| #![trigger dinv(ds, h, power)] dinv(ds, h, power) ==> r == acc + ditems(ds).len()", dec="ds",
      pre="assert forall |h: int| #![trigger dinv(ds, h, power)] dinv(ds, h, power) implies (match ds { D_digits::ZERO => true, D_digits::ONE { f0, f1, f2 } => dinv(*f2, h + 1, 2 * power), D_digits::TWO { f0, f1, f2, f3, f4 } => dinv(*f4, h + 1, 2 * power) }) by {}"),
    F("get", G, "stack: Seq<%s>" % T, "Option<(K, Seq<%s>)>" % T, ens="match r { None => up(stack) == Seq::<K>::empty(), Some(x) => up(stack) == seq![x.0].add(up(x.1)) }", pre="if up(stack).len() == 0 { assert(up(stack) =~= Seq::empty()); }"),
    F("insRest", G, "stack: Seq<%s>, acc: %s" % (T, DG), DG, ens=["dinv(acc, 0, 1) ==> dinv(r, 0, 1)", "ditems(r) == ditems(acc).add(up(stack))"], dec="up(stack).len()", pre=ONEHINT + "if up(stack).len() == 0 { assert(up(stack) =~= Seq::empty()); }"),
    F("fromSortedList", G, "(%s, ls: Seq<K>)" % C, D, req="ord(compare) && asc(compare, ls)", ens=["r.0 == compare && wfd(r)", "items(r.1) == ls"], pre=ONEHINT),
    F("fromSortedList.foldl", G, "ds: %s, l: Seq<K>" % DG, DG, of="List.foldl", fix=1, ens=["dinv(ds, 0, 1) ==> dinv(r, 0, 1)", "ditems(r) == ditems(ds).add(l)"], dec="l.len()", pre=ONEHINT + "if l.len() > 0 { split1(l); } else { assert(l =~= Seq::empty()); }"),
    *setop("union", "@1 || @2", "12"), *loop("union", "@1 || @2", "12"),
    *setop("intersection", "@1 && @2", "1"), *loop("intersection", "@1 && @2", "1"),
    *setop("difference", "@1 && !@2", "1"), *loop("difference", "@1 && !@2", "1"),
    *cmpop("equal", "same(@c, @1, @2)"), *cmpop("isSubset", "subset(@c, @1, @2)"), *cmpop("compare", "lexs(@c, @1, @2)", "Order", "cmp"),
    F("map", "K,B", "(f: spec_fn(K) -> B, compare: spec_fn((B, B)) -> Order), s: " + D, DB, req="ord(compare)",
      ens=["r.0 == compare", "wfd(r)", "items(r.1) == inssk(compare, Seq::<B>::empty(), items(s.1).map_values(f))", "forall |z: B| #![trigger inset(compare, items(r.1), z)] inset(compare, items(r.1), z) <==> inset(compare, items(s.1).map_values(f), z)"],
      pre="broadcast use {has_empty, asc_empty}; inssk_props(compare, Seq::<B>::empty(), items(s.1).map_values(f));"),
    F("map.foldl", "K,B", "b: %s, %s" % (DB, d), DB, cap="f: spec_fn(K) -> B", of="foldl", fix=1, req="wfd(b)", ens=["r.0 == b.0", "wfd(r)", "items(r.1) == inssk(b.0, items(b.1), items(t).map_values(f))"]),
    F("map.foldl.loop", "K,B", "stack: Seq<%s>, acc: %s" % (T, DB), DB, cap="f: spec_fn(K) -> B", req="wfd(acc)", ens=["r.0 == acc.0", "wfd(r)", "items(r.1) == inssk(acc.0, items(acc.1), up(stack).map_values(f))"], dec="up(stack).len()",
      pre="broadcast use {inssk_none, inssk_one}; if up(stack).len() == 0 { assert(up(stack).map_values(f) =~= Seq::empty()); } else { split_map(f, up(stack)); assert(up(stack).drop_first().map_values(f) =~= up(stack).map_values(f).drop_first()); }"),
    # mapMono
    F("mapMono", "K,B", "(f: spec_fn(K) -> B, compare: spec_fn((B, B)) -> Order), s: " + D, DB, raises=True, req="ord(compare)",
      ens=["!asc(compare, items(s.1).map_values(f)) ==> r == Res::<%s>::Exn(Exn::NonMonotonic)" % DB, "asc(compare, items(s.1).map_values(f)) ==> r is Ok && r->Ok_0.0 == compare && wfd(r->Ok_0) && items(r->Ok_0.1) == items(s.1).map_values(f)"], pre="broadcast use add_empty;"),
    F("mapMono.foldr", "K,B", "b: Seq<B>, " + d, "Seq<B>", cap="f: spec_fn(K) -> B", of="foldr", fix=1, ens="r == items(t).map_values(f).add(b)", post="assert(items(t).reverse().reverse() =~= items(t));"),
    F("mapMono.foldr.loop", "K,B", "stack: Seq<%s>, acc: Seq<B>" % T, "Seq<B>", cap="f: spec_fn(K) -> B", ens="r =~= down(stack).reverse().map_values(f).add(acc)", dec="down(stack).len()",
      pre="if down(stack).len() == 0 { assert(down(stack) =~= Seq::empty()); } else { rev_split_map(f, down(stack)); }"),
    F("mapMono.sorted", "B", "l: Seq<B>", "bool", cap="compare: spec_fn((B, B)) -> Order", req="ord(compare)", ens="r == asc(compare, l)", pre="if l.len() > 0 { split1(l); }"),
    F("mapMono.sorted.h", "B", "x0: B, l: Seq<B>", "bool", cap="compare: spec_fn((B, B)) -> Order", req="ord(compare)", ens="r == asc(compare, seq![x0].add(l))", dec="l.len()",
      pre="asc_two(compare, x0, x0, l); if l.len() > 0 { split1(l); asc_two(compare, x0, l[0], l.drop_first()); } else { assert(seq![x0].add(l) =~= seq![x0]); }"),
    # intervals
    F("sublist", G, "(%s, intv: %s)" % (d, IV), "Seq<K>", req="wf(cmp, t, n)", ens="r == fil(cmp, intv, true, true, items(t))", pre="broadcast use g_fil; "),
    F("sublist.collectall", G, "t: %s, res: Seq<K>" % T, "Seq<K>", ens="r == items(t).add(res)", dec="t", pre="broadcast use g_fil; " + ""),
    F("subset", G, "(%s, intv: %s)" % (d, IV), D, req="wf(cmp, t, n)", ens=["r.0 == cmp && wfd(r)", "items(r.1) == fil(cmp, intv, true, true, items(t))", "forall |z: K| #![trigger inset(cmp, items(r.1), z)] inset(cmp, items(r.1), z) <==> inset(cmp, items(t), z) && above(cmp, intv, z) && below(cmp, intv, z)"], pre="fil_asc(cmp, intv, items(t));"),
]
NK = "node(items(t1), k, items(t2))"
for fn, cn, lo, hi in (("collectfrom", "collnode", "true", "false"), ("collectto", "collnode#2", "false", "true"), ("collectfromto", "collnode#3", "true", "true")):
    CONTRACTS += [
        F("sublist." + fn, G, "t: %s, res: Seq<K>" % T, "Seq<K>", cap="cmp: spec_fn((K, K)) -> Order, intv: " + IV, req="ord(cmp) && asc(cmp, items(t))", ens="r == fil(cmp, intv, %s, %s, items(t)).add(res)" % (lo, hi), dec="size(t), 1int", pre="broadcast use g_fil; "),
        F("sublist." + cn, G, "tree: %s, k: K, t1: %s, t2: %s, res: Seq<K>" % (T, T, T), "Seq<K>", cap="cmp: spec_fn((K, K)) -> Order, intv: " + IV, req="ord(cmp) && asc(cmp, %s) && items(tree) == %s && size(tree) == 1 + size(t1) + size(t2)" % (NK, NK),
          ens="r == fil(cmp, intv, %s, %s, %s).add(res)" % (lo, hi, NK), dec="size(tree), 0int",
          pre="broadcast use g_fil; " + " asc_nodeA(cmp, items(t1), k, items(t2)); fil_side(cmp, intv, items(t1), k, items(t2)); if %s { fil_none(cmp, intv, %s, %s, items(tree)); }" % ({"collectfrom": "intv is To || intv is All", "collectto": "intv is From || intv is All", "collectfromto": "intv is All"}[fn], lo, hi)
          + ("if intv is From { fil_onlylo(cmp, intv, items(tree)); } if intv is To { fil_onlyhi(cmp, intv, items(tree)); }" if fn == "collectfromto" else ""))]
SPEC = SPEC.replace("pub open spec fn fil2<K>", r"""pub proof fn fil_onlylo<K>(cmp: Cmp<K>, iv: D_intv<K>, s: Seq<K>) requires iv is From ensures fil(cmp, iv, true, true, s) == fil(cmp, iv, true, false, s) decreases s.len() { if s.len() > 0 { fil_onlylo(cmp, iv, s.drop_first()); } }
pub proof fn fil_onlyhi<K>(cmp: Cmp<K>, iv: D_intv<K>, s: Seq<K>) requires iv is To ensures fil(cmp, iv, true, true, s) == fil(cmp, iv, false, true, s) decreases s.len() { if s.len() > 0 { fil_onlyhi(cmp, iv, s.drop_first()); } }
pub open spec fn fil2<K>""", 1)
