"""Contracts on mosmllib/Redblackmap.sml"""
from smlv.trans import Contract as F
from .rbtree import RB

GROUP = False
NAME = "Redblackmap"
rb = RB(True)
G, T, D, d = rb.G, rb.T, rb.D, rb.d
MAPS = [("map_s", "(K, A)", "(K, B)", "e", "(e.0, b)"), ("trans_s", "A", "(K, B)", "e.1", "(e.0, b)")]
SPEC = rb.spec(MAPS)
FIND = ["mem(%s, %s, %s) ==> r == Res::Ok(at(%s, %s, %s).1)", "!mem(%s, %s, %s) ==> r == Res::<A>::Exn(Exn::NotFound)"]


def find(c, s, x):
    return [FIND[0] % (c, s, x, c, s, x), FIND[1] % (c, s, x)]


KEYS = "compare: spec_fn((K, K)) -> Order, key: K"
SH = "k: K, x: A, left: %s, right: %s" % (T, T)
NS = "node(items(left), (k, x), items(right))"
DELENS = lambda s, res: ["!mem(compare, %s, key) ==> r == Res::<(A, %s)>::Exn(Exn::NotFound)" % (s, T), "mem(compare, %s, key) ==> r is Ok && r->Ok_0.0 == at(compare, %s, key).1 && items(r->Ok_0.1) =~= del(compare, %s, key)" % (s, s, s)] + res
CONTRACTS = rb.common() + [
    F("mkDict", G, "compare: spec_fn((K, K)) -> Order", D, ens="r.0 == compare && items(r.1) == Seq::<(K, A)>::empty() && (ord(compare) ==> wfd(r))"),
    F("numItems", G, d, "int", req="wf(cmp, t, n)", ens="r == items(t).len()"),
    F("find", G, "(%s, key: K)" % d, "A", raises=True, req="wf(cmp, t, n)", ens=find("cmp", "items(t)", "key")),
    F("find.loop", G, "t: " + T, "A", raises=True, cap=KEYS, req="ord(compare) && asc(compare, items(t))", ens=find("compare", "items(t)", "key"), dec="size(t), 1int"),
    F("find.loopShared", G, SH, "A", raises=True, cap=KEYS, req="ord(compare) && asc(compare, %s)" % NS, ens=find("compare", NS, "key"), dec="1 + size(left) + size(right), 0int",
      pre="asc_node(compare, items(left), (k, x), items(right)); pos_node(compare, items(left), (k, x), items(right), key);"),
    F("peek", G, "(%s, key: K)" % d, "Option<A>", req="wf(cmp, t, n)", ens="r == (if mem(cmp, items(t), key) { Some(at(cmp, items(t), key).1) } else { None })"),
    F("insert", G, "(%s, key: K, data: A)" % d, D, req="wf(cmp, t, n)", ens=["r.0 == cmp", "wfd(r)", "items(r.1) == ins(cmp, items(t), key, (key, data))"], pre="ins_asc(cmp, items(t), key, (key, data)); pos_range(cmp, items(t), key);"),
    F("insert.ins", G, "t: " + T, T, cap=KEYS + ", data: A", inout="addone: bool", req="ord(compare) && inv(t) && asc(compare, items(t))", dec="t",
      ens=["weak(r)", "!(t is RED) ==> inv(r)", "bh(r) == bh(t)", "items(r) =~= ins(compare, items(t), key, (key, data))", "addone_ == (addone && !mem(compare, items(t), key))"],
      pre=rb.hint("t", ["asc_node(compare, @l, @e, @r);", "ins_node(compare, @l, @e, @r, key, (key, data));", "pos_node(compare, @l, @e, @r, key);"])),
    F("remove", G, "(%s, key: K)" % d, "(%s, A)" % D, raises=True, req="wf(cmp, t, n)",
      ens=["!mem(cmp, items(t), key) ==> r == Res::<(%s, A)>::Exn(Exn::NotFound)" % D,
           "mem(cmp, items(t), key) ==> r is Ok && r->Ok_0.1 == at(cmp, items(t), key).1 && r->Ok_0.0.0 == cmp && wfd(r->Ok_0.0) && items(r->Ok_0.0.1) == del(cmp, items(t), key)"],
      pre="del_asc(cmp, items(t), key);"),
    F("remove.del", G, "t: " + T, "(A, %s)" % T, raises=True, cap=KEYS, req="ord(compare) && inv(t) && asc(compare, items(t))", dec="size(t), 1int",
      ens=DELENS("items(t)", ["r is Ok ==> weak(r->Ok_0.1) && (t is RED ==> inv(r->Ok_0.1)) && bh(r->Ok_0.1) == bh(t) - (if t is BLACK { 1int } else { 0 })"])),
    F("remove.delShared", G, "k: K, x: A, left: %s, right: %s" % (T, T), "(A, %s)" % T, raises=True, cap=KEYS, dec="1 + size(left) + size(right), 0int",
      req="ord(compare) && inv(left) && inv(right) && bh(left) == bh(right) && asc(compare, %s)" % NS,
      ens=DELENS(NS, ["r is Ok ==> weak(r->Ok_0.1) && (!(left is RED) && !(right is RED) ==> inv(r->Ok_0.1)) && bh(r->Ok_0.1) == bh(left)"]),
      pre="asc_node(compare, items(left), (k, x), items(right)); pos_node(compare, items(left), (k, x), items(right), key); del_node(compare, items(left), (k, x), items(right), key); bh_nonneg(left); bh_nonneg(right);"),
    *rb.get("getMin", "up"), *rb.get("getMax", "down"), *rb.traversals(),
    *rb.listitems(),
]
for n, s, ft in (("map", "map_s", "(K, A)"), ("transform", "trans_s", "A")):
    fp = "f: spec_fn(W, %s) -> (Res<B>, W)" % ft
    D2 = D.replace("<K,A>", "<K,B>")
    CONTRACTS += [
        F(n, "K,A,B,W", fp + ", " + d, D2, raises=True, inout="w: W", req="wf(cmp, t, n)", ens=["w_ == %s(f, items(t), w).1" % s,
          "match %s(f, items(t), w).0 { Res::Ok(q) => r is Ok && r->Ok_0.0 == cmp && wfd(r->Ok_0) && items(r->Ok_0.1) == q, Res::Exn(e) => r == Res::<%s>::Exn(e) }" % (s, D2)],
          pre="%s_keys(f, items(t), w);" % s),
        F(n + ".loop", "K,A,B,W", "t: " + T, "D_tree<K,B>", raises=True, inout="w: W", cap=fp, req="inv(t)", dec="t", ens=["w_ == %s(f, items(t), w).1" % s,
          "match %s(f, items(t), w).0 { Res::Ok(q) => r is Ok && items(r->Ok_0) == q && inv(r->Ok_0) && bh(r->Ok_0) == bh(t) && (r->Ok_0 is RED <==> t is RED), Res::Exn(e) => r == Res::<D_tree<K,B>>::Exn(e) }" % s])]
    SPEC += r"""
// the result has the same keys in the same order
pub proof fn @s_keys<K, A, B, W>(f: spec_fn(W, @t) -> (Res<B>, W), s: Seq<(K, A)>, w: W)
    ensures match @s(f, s, w).0 { Res::Ok(q) => q.len() == s.len() && (forall |i: int| #![trigger q[i]] 0 <= i < q.len() ==> q[i].0 == s[i].0) && forall |cmp: Cmp<K>| #![trigger asc(cmp, s)] asc(cmp, s) ==> asc(cmp, q), _ => true } decreases s.len()
{ if s.len() > 0 { @s_keys(f, s.drop_first(), f(w, @e).1);
    match @s(f, s, w).0 { Res::Ok(q) => { let d = s.drop_first(); let p = @s(f, d, f(w, @e).1).0->Ok_0; assert forall |i: int| #![trigger q[i]] 0 <= i < q.len() implies q[i].0 == s[i].0 by { if i > 0 { assert(q[i] == p[i - 1]); assert(d[i - 1] == s[i]); } }
      assert forall |cmp: Cmp<K>| #![trigger asc(cmp, s)] asc(cmp, s) implies asc(cmp, q) by { assert forall |i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies cmp((q[i].0, q[j].0)) == Order::LESS by { assert(s[i].0 == q[i].0 && s[j].0 == q[j].0); } } } _ => {} } } }
""".replace("@s", s).replace("@t", ft).replace("@e", "s[0]" if n == "map" else "s[0].1")
