"""Contracts on mosmllib/Binarymap.sml"""
from smlv.trans import Contract as F
from .order import ORD
from . import effects, maplib

NAME = "Binarymap"
GROUP = False
G = "K,A"
T, D = "D_tree<K,A>", "D_dict<K,A>"
KV = "(k: K, v: A, "
MAPS = [("map_s", "(K, A)", "(K, B)", "e", "(e.0, b)"), ("trans_s", "A", "(K, B)", "e.1", "(e.0, b)")]
SPEC = ORD + maplib.text("(K, A)", "K, A", ".0") + effects.text("K, A", "(K, A)", ("(e.0, e.1, b)", "(K, A, B)"), MAPS) + r"""
pub open spec fn items<K, A>(t: D_tree<K, A>) -> Seq<(K, A)> decreases t {
    match t { D_tree::E => Seq::empty(), D_tree::T { key, value, cnt, left, right } => node(items(*left), (key, value), items(*right)) }
}
// every cnt field is the number of entries of its subtree
pub open spec fn counted<K, A>(t: D_tree<K, A>) -> bool decreases t {
    match t { D_tree::E => true, D_tree::T { key, value, cnt, left, right } => cnt == items(t).len() && counted(*left) && counted(*right) }
}
pub open spec fn wft<K, A>(cmp: Cmp<K>, t: D_tree<K, A>) -> bool { counted(t) && asc(cmp, items(t)) }
// the invariant of the abstract type: an ordered search tree under a total order, with correct counts
pub open spec fn wf<K, A>(d: D_dict<K, A>) -> bool { ord(d->DICT_f0) && wft(d->DICT_f0, d->DICT_f1) }
pub open spec fn view<K, A>(d: D_dict<K, A>) -> Seq<(K, A)> { items(d->DICT_f1) }
pub mod assoc { use super::*;
pub broadcast proof fn node_assoc<K, A>(a: Seq<(K, A)>, x: (K, A), b: Seq<(K, A)>, y: (K, A), c: Seq<(K, A)>) ensures #[trigger] node(node(a, x, b), y, c) == node(a, x, node(b, y, c))
{ broadcast use vstd::seq_lib::group_seq_properties; assert(node(node(a, x, b), y, c) =~= node(a, x, node(b, y, c))); }
}
pub use assoc::*;
broadcast use {node_assoc};
"""
FUEL = "reveal_with_fuel(counted, 4); reveal_with_fuel(items, 4);"
NODE = "items(r) =~= node(items(x), (k, v), items(y))"
ROT = dict(req="counted(x) && counted(y)", ens=["counted(r)", NODE])


def rot(name, extra):
    return F(name, G, "(k: K, v: A, x: %s, y: %s)" % (T, T), T, req="counted(x) && counted(y)" + extra, ens=["counted(r)", NODE], pre=FUEL)


CONTRACTS = [
    F("treeSize", G, "t: " + T, "int", req="counted(t)", ens="r == items(t).len()"),
    F("numItems", G, "d: " + D, "int", req="wf(d)", ens="r == view(d).len()"),
    rot("N", ""),
    rot("single_L", " && y is T"), rot("single_R", " && x is T"),
    rot("double_L", " && y is T && *(y->T_left) is T"), rot("double_R", " && x is T && *(x->T_right) is T"),
    rot("T'", ""),
    F("min", G, "t: " + T, "(K, A)", req="t is T", ens="items(t).len() > 0 && r == items(t)[0]", dec="t"),
    F("delmin", G, "t: " + T, T, req="t is T && counted(t)", ens=["items(r) =~= items(t).drop_first()", "counted(r)"], dec="t"),
    F("delete'", G, "(l: %s, r0: %s)" % (T, T), T, req="counted(l) && counted(r0)", ens=["items(r) =~= items(l).add(items(r0))", "counted(r)"]),
    F("mkDict", G, "cmp: spec_fn((K, K)) -> Order", D, ens="r->DICT_f0 == cmp && view(r) =~= Seq::empty() && (ord(cmp) ==> wf(r))"),
    F("insert", G, "(d: %s, x: K, v: A)" % D, D, req="wf(d)", ens=["r->DICT_f0 == d->DICT_f0", "wf(r)", "view(r) == ins(d->DICT_f0, view(d), x, (x, v))"],
      pre="ins_asc(d->DICT_f0, view(d), x, (x, v));"),
    F("insert.ins", G, "t: " + T, T, cap="cmpKey: spec_fn((K, K)) -> Order, x: K, v: A", req="ord(cmpKey) && wft(cmpKey, t)",
      ens=["counted(r)", "items(r) =~= ins(cmpKey, items(t), x, (x, v))"], dec="t",
      pre="if t is T { let (l, e, rr) = (items(*t->T_left), (t->T_key, t->T_value), items(*t->T_right)); asc_node(cmpKey, l, e, rr); ins_node(cmpKey, l, e, rr, x, (x, v)); ord_tr(cmpKey, x, t->T_key, x); }"),
    F("find", G, "(d: %s, x: K)" % D, "A", raises=True, req="wf(d)",
      ens=["mem(d->DICT_f0, view(d), x) ==> r == Res::Ok(at(d->DICT_f0, view(d), x).1)", "!mem(d->DICT_f0, view(d), x) ==> r == Res::<A>::Exn(Exn::NotFound)"]),
    F("find.mem", G, "t: " + T, "A", raises=True, cap="cmpKey: spec_fn((K, K)) -> Order, x: K", req="ord(cmpKey) && wft(cmpKey, t)",
      ens=["mem(cmpKey, items(t), x) ==> r == Res::Ok(at(cmpKey, items(t), x).1)", "!mem(cmpKey, items(t), x) ==> r == Res::<A>::Exn(Exn::NotFound)"], dec="t",
      pre="if t is T { let (l, e, rr) = (items(*t->T_left), (t->T_key, t->T_value), items(*t->T_right)); asc_node(cmpKey, l, e, rr); pos_node(cmpKey, l, e, rr, x); }"),
    F("peek", G, "(d: %s, x: K)" % D, "Option<A>", req="wf(d)", ens="r == (if mem(d->DICT_f0, view(d), x) { Some(at(d->DICT_f0, view(d), x).1) } else { None })"),
    F("remove", G, "(d: %s, x: K)" % D, "(%s, A)" % D, raises=True, req="wf(d)",
      ens=["!mem(d->DICT_f0, view(d), x) ==> r == Res::<(%s, A)>::Exn(Exn::NotFound)" % D,
           "mem(d->DICT_f0, view(d), x) ==> r is Ok && r->Ok_0.1 == at(d->DICT_f0, view(d), x).1 && r->Ok_0.0->DICT_f0 == d->DICT_f0 && wf(r->Ok_0.0) && view(r->Ok_0.0) == del(d->DICT_f0, view(d), x)"],
      pre="del_asc(d->DICT_f0, view(d), x);"),
    F("remove.rm", G, "t: " + T, "(%s, A)" % T, raises=True, cap="cmpKey: spec_fn((K, K)) -> Order, x: K", req="ord(cmpKey) && wft(cmpKey, t)",
      ens=["!mem(cmpKey, items(t), x) ==> r == Res::<(%s, A)>::Exn(Exn::NotFound)" % T,
           "mem(cmpKey, items(t), x) ==> r is Ok && r->Ok_0.1 == at(cmpKey, items(t), x).1 && counted(r->Ok_0.0) && items(r->Ok_0.0) =~= del(cmpKey, items(t), x)"], dec="t",
      pre="if t is T { let (l, e, rr) = (items(*t->T_left), (t->T_key, t->T_value), items(*t->T_right)); asc_node(cmpKey, l, e, rr); pos_node(cmpKey, l, e, rr, x); del_node(cmpKey, l, e, rr, x); ord_tr(cmpKey, x, t->T_key, x); }"),
    F("listItems", G, "d: " + D, "Seq<(K, A)>", ens="r =~= view(d)"),
    F("listItems.d2l", G, "t: %s, res: Seq<(K, A)>" % T, "Seq<(K, A)>", ens="r =~= items(t).add(res)", dec="t"),
    *[F(n, "K,A,W", "f: spec_fn(W, (K, A)) -> (Res<()>, W), d: " + D, "()", raises=True, inout="w: W", ens="(r, w_) == app_s(f, %s, w)" % v) for n, v in (("app", "view(d)"), ("revapp", "view(d).reverse()"))],
    *[F(n + ".a", "K,A,W", "t: " + T, "()", raises=True, inout="w: W", cap="f: spec_fn(W, (K, A)) -> (Res<()>, W)", ens="(r, w_) == app_s(f, %s, w)" % v, dec="t") for n, v in (("app", "items(t)"), ("revapp", "items(t).reverse()"))],
    *[F(n, "K,A,B,W", "f: spec_fn(W, (K, A, B)) -> (Res<B>, W), init: B, d: " + D, "B", raises=True, inout="w: W", ens="(r, w_) == fold_s(f, %s, init, w)" % v) for n, v in (("foldl", "view(d)"), ("foldr", "view(d).reverse()"))],
    *[F(n + ".a", "K,A,B,W", "t: %s, b: B" % T, "B", raises=True, inout="w: W", cap="f: spec_fn(W, (K, A, B)) -> (Res<B>, W)", ens="(r, w_) == fold_s(f, %s, b, w)" % v, dec="t") for n, v in (("foldl", "items(t)"), ("foldr", "items(t).reverse()"))],
]
for n, s, ft in (("map", "map_s", "(K, A)"), ("transform", "trans_s", "A")):
    fp = "f: spec_fn(W, %s) -> (Res<B>, W)" % ft
    CONTRACTS += [
        F(n, "K,A,B,W", fp + ", d: " + D, "D_dict<K,B>", raises=True, inout="w: W", req="wf(d)", ens=["w_ == %s(f, view(d), w).1" % s,
          "match %s(f, view(d), w).0 { Res::Ok(q) => r is Ok && r->Ok_0->DICT_f0 == d->DICT_f0 && wf(r->Ok_0) && view(r->Ok_0) == q, Res::Exn(e) => r == Res::<D_dict<K,B>>::Exn(e) }" % s],
          pre="%s_keys(f, view(d), w);" % s),
        F(n + ".a", "K,A,B,W", "t: " + T, "D_tree<K,B>", raises=True, inout="w: W", cap=fp, req="counted(t)", dec="t", ens=["w_ == %s(f, items(t), w).1" % s,
          "match %s(f, items(t), w).0 { Res::Ok(q) => r is Ok && items(r->Ok_0) == q && q.len() == items(t).len() && counted(r->Ok_0), Res::Exn(e) => r == Res::<D_tree<K,B>>::Exn(e) }" % s])]
    SPEC += r"""
// the result has the same keys in the same order
pub proof fn @s_keys<K, A, B, W>(f: spec_fn(W, @t) -> (Res<B>, W), s: Seq<(K, A)>, w: W)
    ensures match @s(f, s, w).0 { Res::Ok(q) => q.len() == s.len() && (forall |i: int| #![trigger q[i]] 0 <= i < q.len() ==> q[i].0 == s[i].0) && forall |cmp: Cmp<K>| #![trigger asc(cmp, s)] asc(cmp, s) ==> asc(cmp, q), _ => true } decreases s.len()
{ if s.len() > 0 { @s_keys(f, s.drop_first(), f(w, @e).1);
    match @s(f, s, w).0 { Res::Ok(q) => { let d = s.drop_first(); let p = @s(f, d, f(w, @e).1).0->Ok_0; assert forall |i: int| #![trigger q[i]] 0 <= i < q.len() implies q[i].0 == s[i].0 by { if i > 0 { assert(q[i] == p[i - 1]); assert(d[i - 1] == s[i]); } }
      assert forall |cmp: Cmp<K>| #![trigger asc(cmp, s)] asc(cmp, s) implies asc(cmp, q) by { assert forall |i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies cmp((q[i].0, q[j].0)) == Order::LESS by { assert(s[i].0 == q[i].0 && s[j].0 == q[j].0); } } } _ => {} } } }
""".replace("@s", s).replace("@t", ft).replace("@e", "s[0]" if n == "map" else "s[0].1")
