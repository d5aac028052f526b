"""Contracts on mosmllib/Intmap.sml"""
from smlv.trans import Contract as F
from .order import ORD
from . import effects, maplib

NAME = "Intmap"
GROUP = False
G = "A"
T = "D_intmap<A>"
E = "(int, A)"
MAPS = [("map_s", "(int, A)", "(int, B)", "e", "(e.0, b)"), ("trans_s", "A", "(int, B)", "e.1", "(e.0, b)")]
SPEC = ORD + maplib.text("(K, A)", "K, A", ".0") + effects.text("A", "(int, A)", ("(e.0, e.1, b)", "(int, A, B)"), MAPS) + r"""
pub mod icmpm { use super::*;
pub open spec fn icmp() -> Cmp<int> { |p: (int, int)| if p.0 < p.1 { Order::LESS } else if p.0 > p.1 { Order::GREATER } else { Order::EQUAL } }
pub broadcast proof fn icmp_val(a: int, b: int) ensures #[trigger] icmp()((a, b)) == (if a < b { Order::LESS } else if a > b { Order::GREATER } else { Order::EQUAL }) {}
pub proof fn icmp_ord() ensures ord(icmp()) {}
}
pub use icmpm::*;
broadcast use {icmp_val};
pub open spec fn items<A>(t: D_intmap<A>) -> Seq<(int, A)> decreases t {
    match t { D_intmap::E => Seq::empty(), D_intmap::T { key, value, cnt, left, right } => node(items(*left), (key, value), items(*right)) }
}
// every cnt field is the number of entries of its subtree
pub open spec fn counted<A>(t: D_intmap<A>) -> bool decreases t {
    match t { D_intmap::E => true, D_intmap::T { key, value, cnt, left, right } => cnt == items(t).len() && counted(*left) && counted(*right) }
}
pub open spec fn wf<A>(t: D_intmap<A>) -> bool { counted(t) && asc(icmp(), items(t)) }
pub mod assoc { use super::*;
pub broadcast proof fn node_assoc<A>(a: Seq<(int, A)>, x: (int, A), b: Seq<(int, A)>, y: (int, A), c: Seq<(int, A)>) ensures #[trigger] node(node(a, x, b), y, c) == node(a, x, node(b, y, c))
{ broadcast use vstd::seq_lib::group_seq_properties; assert(node(node(a, x, b), y, c) =~= node(a, x, node(b, y, c))); }
}
pub use assoc::*;
broadcast use {node_assoc};
"""
FUEL = "reveal_with_fuel(counted, 4); reveal_with_fuel(items, 4);"
NODE = "items(r) =~= node(items(x), (k, v), items(y))"
MEM, AT = "mem(icmp(), items(t), x)", "at(icmp(), items(t), x)"


def rot(name, extra):
    return F(name, G, "(k: int, v: A, x: %s, y: %s)" % (T, T), T, req="counted(x) && counted(y)" + extra, ens=["counted(r)", NODE], pre=FUEL)


def nodes(*calls):
    return "icmp_ord(); if t is T { let (l, e, rr) = (items(*t->T_left), (t->T_key, t->T_value), items(*t->T_right)); asc_node(icmp(), l, e, rr); %s }" % " ".join("%s(icmp(), l, e, rr, x%s);" % (c, ", (x, v)" if c == "ins_node" else "") for c in calls)


CONTRACTS = [
    F("numItems", G, "t: " + T, "int", req="counted(t)", ens="r == items(t).len()"),
    rot("N", ""),
    rot("single_L", " && y is T"), rot("single_R", " && x is T"),
    rot("double_L", " && y is T && *(y->T_left) is T"), rot("double_R", " && x is T && *(x->T_right) is T"),
    rot("T'", ""),
    F("min", G, "t: " + T, E, req="t is T", ens="items(t).len() > 0 && r == items(t)[0]", dec="t"),
    F("delmin", G, "t: " + T, T, req="t is T && counted(t)", ens=["items(r) =~= items(t).drop_first()", "counted(r)"], dec="t"),
    F("delete'", G, "(l: %s, r0: %s)" % (T, T), T, req="counted(l) && counted(r0)", ens=["items(r) =~= items(l).add(items(r0))", "counted(r)"]),
    F("empty", G, "u: ()", T, ens="wf(r) && items(r) =~= Seq::empty()"),
    F("insert", G, "(t: %s, x: int, v: A)" % T, T, req="wf(t)", ens=["wf(r)", "items(r) =~= ins(icmp(), items(t), x, (x, v))"], dec="t",
      pre=nodes("ins_node") + "ins_asc(icmp(), items(t), x, (x, v));"),
    F("retrieve", G, "(t: %s, x: int)" % T, "A", raises=True, req="wf(t)", ens=["%s ==> r == Res::Ok(%s.1)" % (MEM, AT), "!%s ==> r == Res::<A>::Exn(Exn::NotFound)" % MEM]),
    F("retrieve.mem", G, "t: " + T, "A", raises=True, cap="x: int", req="wf(t)", ens=["%s ==> r == Res::Ok(%s.1)" % (MEM, AT), "!%s ==> r == Res::<A>::Exn(Exn::NotFound)" % MEM], dec="t", pre=nodes("pos_node")),
    F("peek", G, "(t: %s, x: int)" % T, "Option<A>", req="wf(t)", ens="r == (if %s { Some(%s.1) } else { None })" % (MEM, AT)),
    F("remove", G, "(t: %s, x: int)" % T, "(%s, A)" % T, raises=True, req="wf(t)",
      ens=["!%s ==> r == Res::<(%s, A)>::Exn(Exn::NotFound)" % (MEM, T),
           "%s ==> r is Ok && r->Ok_0.1 == %s.1 && wf(r->Ok_0.0) && items(r->Ok_0.0) =~= del(icmp(), items(t), x)" % (MEM, AT)], dec="t",
      pre=nodes("pos_node", "del_node") + "del_asc(icmp(), items(t), x);"),
    F("listItems", G, "t: " + T, "Seq<%s>" % E, ens="r =~= items(t)"),
    F("listItems.d2l", G, "t: %s, res: Seq<%s>" % (T, E), "Seq<%s>" % E, ens="r =~= items(t).add(res)", dec="t"),
    *[F(n, "A,W", "f: spec_fn(W, %s) -> (Res<()>, W), t: " % E + T, "()", raises=True, inout="w: W", ens="(r, w_) == app_s(f, %s, w)" % v) for n, v in (("app", "items(t)"), ("revapp", "items(t).reverse()"))],
    *[F(n + ".a", "A,W", "t: " + T, "()", raises=True, inout="w: W", cap="f: spec_fn(W, %s) -> (Res<()>, W)" % E, ens="(r, w_) == app_s(f, %s, w)" % v, dec="t") for n, v in (("app", "items(t)"), ("revapp", "items(t).reverse()"))],
    *[F(n, "A,B,W", "f: spec_fn(W, (int, A, B)) -> (Res<B>, W), init: B, t: " + T, "B", raises=True, inout="w: W", ens="(r, w_) == fold_s(f, %s, init, w)" % v) for n, v in (("foldl", "items(t)"), ("foldr", "items(t).reverse()"))],
    *[F(n + ".a", "A,B,W", "t: %s, b: B" % T, "B", raises=True, inout="w: W", cap="f: spec_fn(W, (int, A, B)) -> (Res<B>, W)", ens="(r, w_) == fold_s(f, %s, b, w)" % v, dec="t") for n, v in (("foldl", "items(t)"), ("foldr", "items(t).reverse()"))],
]
for n, s, ft in (("map", "map_s", E), ("transform", "trans_s", "A")):
    fp = "f: spec_fn(W, %s) -> (Res<B>, W)" % ft
    CONTRACTS += [
        F(n, "A,B,W", fp + ", t: " + T, "D_intmap<B>", raises=True, inout="w: W", req="wf(t)", ens=["w_ == %s(f, items(t), w).1" % s,
          "match %s(f, items(t), w).0 { Res::Ok(q) => r is Ok && wf(r->Ok_0) && items(r->Ok_0) == q, Res::Exn(e) => r == Res::<D_intmap<B>>::Exn(e) }" % s], pre="%s_keys(f, items(t), w);" % s),
        F(n + ".a", "A,B,W", "t: " + T, "D_intmap<B>", raises=True, inout="w: W", cap=fp, req="counted(t)", dec="t", ens=["w_ == %s(f, items(t), w).1" % s,
          "match %s(f, items(t), w).0 { Res::Ok(q) => r is Ok && items(r->Ok_0) == q && q.len() == items(t).len() && counted(r->Ok_0), Res::Exn(e) => r == Res::<D_intmap<B>>::Exn(e) }" % s])]
    SPEC += r"""
// the result has the same keys in the same order
pub proof fn @s_keys<A, B, W>(f: spec_fn(W, @t) -> (Res<B>, W), s: Seq<(int, A)>, w: W)
    ensures match @s(f, s, w).0 { Res::Ok(q) => q.len() == s.len() && (forall |i: int| #![trigger q[i]] 0 <= i < q.len() ==> q[i].0 == s[i].0) && (asc(icmp(), s) ==> asc(icmp(), q)), _ => true } decreases s.len()
{ if s.len() > 0 { @s_keys(f, s.drop_first(), f(w, @e).1);
    match @s(f, s, w).0 { Res::Ok(q) => { let d = s.drop_first(); let p = @s(f, d, f(w, @e).1).0->Ok_0; assert forall |i: int| #![trigger q[i]] 0 <= i < q.len() implies q[i].0 == s[i].0 by { if i > 0 { assert(q[i] == p[i - 1]); assert(d[i - 1] == s[i]); } }
      let cmp = icmp(); if asc(cmp, s) { assert forall |i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies cmp((q[i].0, q[j].0)) == Order::LESS by { assert(s[i].0 == q[i].0 && s[j].0 == q[j].0); assert(cmp((s[i].0, s[j].0)) == Order::LESS); } } } _ => {} } } }
""".replace("@s", s).replace("@t", ft).replace("@e", "s[0]" if n == "map" else "s[0].1")
