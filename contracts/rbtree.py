"""Shared contracts on red-black trees (Redblackmap, Rbset)"""
from smlv.trans import Contract as F
from .order import ORD
from . import effects, maplib

ASSOC = r"""
pub mod assoc { use super::*;
pub broadcast proof fn node_assoc<@G>(a: Seq<@E>, x: @E, b: Seq<@E>, y: @E, c: Seq<@E>) ensures #[trigger] node(node(a, x, b), y, c) == node(a, x, node(b, y, c))
{ broadcast use vstd::seq_lib::group_seq_properties; assert(node(node(a, x, b), y, c) =~= node(a, x, node(b, y, c))); }
pub broadcast proof fn node_add<@G>(a: Seq<@E>, x: @E, b: Seq<@E>, c: Seq<@E>) ensures #[trigger] node(a, x, b).add(c) == node(a, x, b.add(c))
{ broadcast use vstd::seq_lib::group_seq_properties; assert(node(a, x, b).add(c) =~= node(a, x, b.add(c))); }
pub broadcast proof fn add_node<@G>(a: Seq<@E>, x: @E, b: Seq<@E>, c: Seq<@E>) ensures #[trigger] c.add(node(a, x, b)) == node(c.add(a), x, b)
{ broadcast use vstd::seq_lib::group_seq_properties; assert(c.add(node(a, x, b)) =~= node(c.add(a), x, b)); }
}
pub use assoc::*;

"""


class RB:
    def __init__(self, mp):
        self.mp = mp
        self.G = "K,A" if mp else "K"
        self.E = "(K, A)" if mp else "K"
        self.key = ".0" if mp else ""
        self.T = "D_tree<%s>" % self.G
        self.KV = "k: K, v: A" if mp else "k: K"
        self.ent = "(k, v)" if mp else "k"
        self.L, self.R = ("f2", "f3") if mp else ("f1", "f2")
        self.farg = ("(e.0, e.1, b)", "(K, A, B)") if mp else ("(e, b)", "(K, B)")
        self.d = "(cmp: spec_fn((K, K)) -> Order, t: %s, n: int)" % self.T
        self.D = "(spec_fn((K, K)) -> Order, %s, int)" % self.T

    def spec(self, maps=()):
        mp = self.mp
        pl = "f0, f1, f2, f3" if mp else "f0, f1, f2"
        e = "(f0, f1)" if mp else "f0"
        g2 = "K, A" if mp else "K"
        t = ORD + maplib.text(self.E, g2, self.key) + ASSOC.replace("@G", g2).replace("@E", self.E) + effects.text(g2, self.E, self.farg, maps) + r"""
pub mod stacks { use super::*;
#[verifier::opaque] pub open spec fn items<@g>(t: @T) -> Seq<@E> decreases t {
    match t { D_tree::LEAF => Seq::empty(), D_tree::RED { @p } => node(items(*@L), @e, items(*@R)), D_tree::BLACK { @p } => node(items(*@L), @e, items(*@R)) }
}
// black height along the left spine
#[verifier::opaque] pub open spec fn bh<@g>(t: @T) -> int decreases t { match t { D_tree::LEAF => 0, D_tree::RED { @p } => bh(*@L), D_tree::BLACK { @p } => 1 + bh(*@L) } }
// the red-black invariant: equal black heights, no red node with a red child
#[verifier::opaque] pub open spec fn inv<@g>(t: @T) -> bool decreases t {
    match t { D_tree::LEAF => true, D_tree::RED { @p } => inv(*@L) && inv(*@R) && !(*@L is RED) && !(*@R is RED) && bh(*@L) == bh(*@R),
              D_tree::BLACK { @p } => inv(*@L) && inv(*@R) && bh(*@L) == bh(*@R) }
}
// as inv, but a red root may have red children
pub open spec fn weak<@g>(t: @T) -> bool { match t { D_tree::RED { @p } => inv(*@L) && inv(*@R) && bh(*@L) == bh(*@R), _ => inv(t) } }
pub proof fn bh_nonneg<@g>(t: @T) ensures bh(t) >= 0, bh(t) > 0 && !(t is RED) ==> t is BLACK, bh(t) == 0 ==> !(t is BLACK) decreases t { reveal(bh); match t { D_tree::LEAF => {}, D_tree::RED { @p } => bh_nonneg(*@L), D_tree::BLACK { @p } => bh_nonneg(*@L) } }
#[verifier::opaque] pub open spec fn size<@g>(t: @T) -> nat decreases t { match t { D_tree::LEAF => 0, D_tree::RED { @p } => 1 + size(*@L) + size(*@R), D_tree::BLACK { @p } => 1 + size(*@L) + size(*@R) } }
pub open spec fn wf<@g>(cmp: Cmp<K>, t: @T, n: int) -> bool { ord(cmp) && inv(t) && asc(cmp, items(t)) && n == items(t).len() }
pub open spec fn wfd<@g>(d: @D) -> bool { wf(d.0, d.1, d.2) }
// a stack of trees left to visit: entries in ascending (descending) order, and a bound on the work left
pub open spec fn up<@g>(s: Seq<@T>) -> Seq<@E> decreases s.len() { if s.len() == 0 { Seq::empty() } else { items(s[0]).add(up(s.drop_first())) } }
pub open spec fn down<@g>(s: Seq<@T>) -> Seq<@E> decreases s.len() { if s.len() == 0 { Seq::empty() } else { items(s[0]).reverse().add(down(s.drop_first())) } }
pub open spec fn wt<@g>(t: @T) -> nat { if t is LEAF { 1 } else { (3 * size(t) - 1) as nat } }
pub open spec fn work<@g>(s: Seq<@T>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { wt(s[0]) + work(s.drop_first()) } }
pub broadcast proof fn leaf_items<@g>() ensures #[trigger] items::<@g>(D_tree::LEAF) == Seq::<@E>::empty() { reveal(items); }
pub broadcast proof fn leaf_inv<@g>() ensures #[trigger] inv::<@g>(D_tree::LEAF) { reveal(inv); }
pub broadcast proof fn leaf_bh<@g>() ensures #[trigger] bh::<@g>(D_tree::LEAF) == 0 { reveal(bh); }
pub broadcast proof fn leaf_size<@g>() ensures #[trigger] size::<@g>(D_tree::LEAF) == 0 { reveal(size); }
@C
pub broadcast proof fn inv_weak<@g>(t: @T) ensures inv(t) ==> #[trigger] weak(t) { reveal(inv); }
pub broadcast proof fn size_pos<@g>(t: @T) ensures t is LEAF <==> #[trigger] size(t) == 0 { reveal(size); }
pub proof fn unf<@g>(t: @T) ensures
    t is RED ==> items(t) == node(items(*t->RED_@L), @1, items(*t->RED_@R)) && bh(t) == bh(*t->RED_@L) && size(t) == 1 + size(*t->RED_@L) + size(*t->RED_@R)
        && inv(t) == (inv(*t->RED_@L) && inv(*t->RED_@R) && bh(*t->RED_@L) == bh(*t->RED_@R) && !(*t->RED_@L is RED) && !(*t->RED_@R is RED)),
    t is BLACK ==> items(t) == node(items(*t->BLACK_@L), @2, items(*t->BLACK_@R)) && bh(t) == bh(*t->BLACK_@L) + 1 && size(t) == 1 + size(*t->BLACK_@L) + size(*t->BLACK_@R)
        && inv(t) == (inv(*t->BLACK_@L) && inv(*t->BLACK_@R) && bh(*t->BLACK_@L) == bh(*t->BLACK_@R)),
    t is LEAF ==> items(t) == Seq::<@E>::empty() && inv(t) && bh(t) == 0 && size(t) == 0
{ reveal(inv); reveal(bh); reveal(items); reveal(size); }
pub broadcast proof fn cons_up<@g>(t: @T, s: Seq<@T>) ensures #[trigger] up(seq![t].add(s)) == items(t).add(up(s)) { assert(seq![t].add(s).drop_first() =~= s); }
pub broadcast proof fn cons_down<@g>(t: @T, s: Seq<@T>) ensures #[trigger] down(seq![t].add(s)) == items(t).reverse().add(down(s)) { assert(seq![t].add(s).drop_first() =~= s); }
pub broadcast proof fn cons_work<@g>(t: @T, s: Seq<@T>) ensures #[trigger] work(seq![t].add(s)) == wt(t) + work(s) { assert(seq![t].add(s).drop_first() =~= s); }
pub broadcast proof fn one_up<@g>(t: @T) ensures #[trigger] up(seq![t]) == items(t) { reveal_with_fuel(up, 2); assert(seq![t].drop_first() =~= Seq::empty()); assert(up(seq![t]) =~= items(t)); }
pub broadcast proof fn one_down<@g>(t: @T) ensures #[trigger] down(seq![t]) == items(t).reverse() { reveal_with_fuel(down, 2); assert(seq![t].drop_first() =~= Seq::empty()); assert(down(seq![t]) =~= items(t).reverse()); }
pub broadcast proof fn one_work<@g>(t: @T) ensures #[trigger] work(seq![t]) == wt(t) { reveal_with_fuel(work, 2); assert(seq![t].drop_first() =~= Seq::empty()); }
pub broadcast proof fn empty_stack<@g>() ensures #[trigger] up(Seq::<@T>::empty()) == Seq::<@E>::empty(), down(Seq::<@T>::empty()) == Seq::<@E>::empty(), work(Seq::<@T>::empty()) == 0 {}
pub broadcast proof fn add_assoc<X>(a: Seq<X>, b: Seq<X>, c: Seq<X>) ensures #[trigger] a.add(b).add(c) == a.add(b.add(c)) { assert(a.add(b).add(c) =~= a.add(b.add(c))); }
pub broadcast proof fn drop_cons<X>(x: X, s: Seq<X>) ensures #[trigger] seq![x].add(s).drop_first() == s { assert(seq![x].add(s).drop_first() =~= s); }
pub proof fn rev_split<X>(s: Seq<X>) requires s.len() > 0 ensures s.reverse() == s.drop_first().reverse().add(seq![s[0]]) { assert(s.reverse() =~= s.drop_first().reverse().add(seq![s[0]])); }
pub proof fn split1<X>(s: Seq<X>) requires s.len() > 0 ensures s == seq![s[0]].add(s.drop_first()) { assert(s =~= seq![s[0]].add(s.drop_first())); }
pub broadcast proof fn add_empty<X>(s: Seq<X>) ensures #[trigger] s.add(Seq::<X>::empty()) == s { assert(s.add(Seq::<X>::empty()) =~= s); }
pub broadcast proof fn empty_add<X>(s: Seq<X>) ensures #[trigger] Seq::<X>::empty().add(s) == s { assert(Seq::<X>::empty().add(s) =~= s); }
}
pub use stacks::*;
""" + "broadcast use {cons_up, cons_down, cons_work, one_up, one_down, one_work, empty_stack, drop_cons};\n"
        cons, names = "", ["inv_weak", "size_pos", "leaf_items", "leaf_inv", "leaf_bh", "leaf_size"]
        ps = ("k: K, v: A, " if mp else "k: K, ") + "l: Box<@T>, r: Box<@T>"
        for c in ("RED", "BLACK"):
            con = "D_tree::%s { %sf%d: l, f%d: r }" % (c, "f0: k, f1: v, " if mp else "f0: k, ", 2 if mp else 1, 3 if mp else 2)
            for fn, val in (("items", "node(items(*l), %s, items(*r))" % self.ent), ("inv", "(inv(*l) && inv(*r) && bh(*l) == bh(*r)%s)" % (" && !(*l is RED) && !(*r is RED)" if c == "RED" else "")),
                            ("bh", "bh(*l)" + (" + 1" if c == "BLACK" else "")), ("size", "1 + size(*l) + size(*r)")):
                nm = "%s_%s" % (c.lower(), fn)
                names.append(nm)
                if True:
                    acc = dict(k="t->%s_f0" % c, v="t->%s_f1" % c, l="t->%s_%s" % (c, self.L), r="t->%s_%s" % (c, self.R))
                    import re
                    val2 = re.sub(r"\b([kvlr])\b", lambda m: acc[m.group(1)], val)
                    cons += "pub broadcast proof fn %s_t<@g>(t: @T) ensures #![trigger %s(t), t->%s_%s] t is %s ==> %s(t) == %s { reveal(%s); }\n" % (nm, fn, c, self.L, c, fn, val2, fn)
                    names.append(nm + "_t")
                cons += "pub broadcast proof fn %s<@g>(%s) ensures #[trigger] %s(%s) == %s { reveal(%s); }\n" % (nm, ps, fn, con, val, fn)
        t = t.replace("@C", cons).replace("@1", "(t->RED_f0, t->RED_f1)" if mp else "t->RED_f0").replace("@2", "(t->BLACK_f0, t->BLACK_f1)" if mp else "t->BLACK_f0") + "broadcast use {%s};\n" % ", ".join(names)
        return t.replace("@p", pl).replace("@e", e).replace("@L", self.L).replace("@R", self.R).replace("@T", self.T).replace("@D", self.D).replace("@E", self.E).replace("@g", g2)

    def kids(self, t):
        """hints: what asc/pos/ins/del say about the tree t"""
        f = ""
        for c in ("RED", "BLACK"):
            a = "(%s->%s_f0, %s->%s_f1)" % (t, c, t, c) if self.mp else "%s->%s_f0" % (t, c)
            l, r = "items(*%s->%s_%s)" % (t, c, self.L), "items(*%s->%s_%s)" % (t, c, self.R)
            f += "if %s is %s { HINT(%s; %s; %s; %s) }\n" % (t, c, l, a, r, "%s->%s_f0" % (t, c))
        return f

    def hint(self, t, calls):
        out = ""
        for x in self.kids(t).splitlines():
            head, rest = x.split("HINT(")
            l, a, r, k = [y.strip() for y in rest[:-3].split(";")]
            out += head + " ".join(c.replace("@l", l).replace("@e", a).replace("@r", r).replace("@k", k) for c in calls) + " }\n"
        return out

    def common(self):
        G, T, KV, ent = self.G, self.T, self.KV, self.ent
        x, k4 = ("k, v", "k: K, v: A, ") if self.mp else ("k", "k: K, ")
        FUEL = "broadcast use {add_empty, empty_add, add_assoc}; "
        
        NODE = "items(r) =~= node(items(l), %s, items(rr))" % ent
        P = k4 + "l: %s, rr: %s" % (T, T)
        out = [
            F("lbalance", G, P, T, req=["weak(l)", "inv(rr)", "bh(l) == bh(rr)"], ens=["inv(r)", "bh(r) == bh(rr) + 1", NODE], pre=FUEL),
            F("rbalance", G, P, T, req=["inv(l)", "weak(rr)", "bh(l) == bh(rr)"], ens=["inv(r)", "bh(r) == bh(l) + 1", NODE], pre=FUEL),
            F("redden" if self.mp else "sub1", G, "t: " + T, T, req="t is BLACK", ens=["r is RED", "items(r) == items(t)", "*r->RED_%s == *t->BLACK_%s" % (self.L, self.L), "*r->RED_%s == *t->BLACK_%s" % (self.R, self.R)]),
            F("balleft", G, P, T, req=["weak(l)", "inv(rr)", "bh(l) + 1 == bh(rr)"], ens=["weak(r)", "rr is BLACK ==> inv(r)", "bh(r) == bh(rr)", NODE],
              pre=FUEL + "bh_nonneg(l); bh_nonneg(rr); unf(l); unf(rr); if rr is RED { bh_nonneg(*rr->RED_%s); bh_nonneg(*rr->RED_%s); unf(*rr->RED_%s); }" % (self.L, self.R, self.R)),
            F("balright", G, P, T, req=["inv(l)", "weak(rr)", "bh(l) == bh(rr) + 1"], ens=["weak(r)", "l is BLACK ==> inv(r)", "bh(r) == bh(l)", NODE],
              pre=FUEL + "bh_nonneg(l); bh_nonneg(rr); unf(l); unf(rr); if l is RED { bh_nonneg(*l->RED_%s); bh_nonneg(*l->RED_%s); unf(*l->RED_%s); }" % (self.L, self.R, self.L)),
            F("append", G, "l: %s, rr: %s" % (T, T), T, req=["inv(l)", "inv(rr)", "bh(l) == bh(rr)"], dec="size(l) + size(rr)",
              ens=["weak(r)", "!(l is RED) && !(rr is RED) ==> inv(r)", "bh(r) == bh(l)", "items(r) =~= items(l).add(items(rr))"], pre=FUEL + "bh_nonneg(l); bh_nonneg(rr);" + "".join(
                  "if l is %(c)s && rr is %(c)s { let (b, c, q) = (items(*l->%(c)s_%(R)s), items(*rr->%(c)s_%(L)s), seq![%(e)s].add(items(*rr->%(c)s_%(R)s))); assert(b.add(c).add(q) == b.add(c.add(q))); }"
                  % {"c": c, "L": self.L, "R": self.R, "e": ("(rr->%s_f0, rr->%s_f1)" % (c, c)) if self.mp else "rr->%s_f0" % c} for c in ("RED", "BLACK"))),
            F("push", G, "t: %s, s: Seq<%s>" % (T, T), "Seq<%s>" % T, ens=["up(r) == items(t).add(up(s))", "down(r) == items(t).reverse().add(down(s))", "work(r) == work(s) + (if t is LEAF { 0 } else { wt(t) })"],
              pre="broadcast use {add_empty, empty_add, add_assoc}; if t is LEAF { assert(items(t).add(up(s)) =~= up(s)); assert(items(t).reverse().add(down(s)) =~= down(s)); }"),
        ]
        return out

    def get(self, nm, fn):
        ret = "Option<(K, A, Seq<%s>)>" % self.T if self.mp else "Option<(K, Seq<%s>)>" % self.T
        last = ".2" if self.mp else ".1"
        e = "(x.0, x.1)" if self.mp else "x.0"
        G, T = self.G, self.T
        ens = lambda s: ["match r { None => @s.len() == 0, Some(x) => @s == seq![@e].add(@f(x@l)) }".replace("@s", s).replace("@e", e).replace("@f", fn).replace("@l", last)]
        rv = ".reverse()" if fn == "down" else ""
        out = [F(nm, G, "stack: Seq<%s>" % T, ret, cps=3 if self.mp else 2, ens=ens(fn + "(stack)"), dec="work(stack)" + ("" if self.mp else ", 1int, 0int"),
                 pre="broadcast use {add_empty, empty_add, add_assoc};  if stack.len() > 0 { split1(stack); }")]
        if not self.mp:
            out += [F(nm + ".descend", G, "tree: %s, stack2: Seq<%s>" % (T, T), ret, ens=ens("items(tree)%s.add(%s(stack2))" % (rv, fn)), dec="(wt(tree) + work(stack2)) as nat, 0int, size(tree) as int",
                      pre="broadcast use {add_empty, empty_add, add_assoc}; ")]
        return out

    def listitems(self):
        G, T, E, d = self.G, self.T, self.E, self.d
        S = "Seq<%s>" % E
        return [F("listItems", G, d, S, ens="r == items(t)", pre="broadcast use {add_empty, empty_add};"),
                F("listItems.foldr", G, "b: %s, %s" % (S, d), S, of="foldr", fix=1, ens="r == items(t).add(b)", post="assert(items(t).reverse().reverse() =~= items(t));"),
                F("listItems.foldr.loop", G, "stack: Seq<%s>, acc: %s" % (T, S), S, ens="r =~= down(stack).reverse().add(acc)", dec="down(stack).len()", pre="if down(stack).len() == 0 { assert(down(stack) =~= Seq::empty()); } else { rev_split(down(stack)); }")]

    def traversals(self):
        G, T, E = self.G, self.T, self.E
        d = self.d
        out = []
        for n, fn in (("foldl", "up"), ("foldr", "down")):
            it = "items(t)" + (".reverse()" if n == "foldr" else "")
            out += [F(n, G + ",B,W", "f: spec_fn(W, %s) -> (Res<B>, W), b: B, %s" % (self.farg[1], d), "B", raises=True, inout="w: W", ens="(r, w_) == fold_s(f, %s, b, w)" % it),
                    F(n + ".loop", G + ",B,W", "stack: Seq<%s>, acc: B" % T, "B", raises=True, inout="w: W", cap="f: spec_fn(W, %s) -> (Res<B>, W)" % self.farg[1],
                      ens="(r, w_) == fold_s(f, %s(stack), acc, w)" % fn, dec="%s(stack).len()" % fn, pre="if %s(stack).len() == 0 { assert(%s(stack) =~= Seq::empty()); }" % (fn, fn))]
        for n, fn in (("app", "up"), ("revapp", "down")):
            it = "items(t)" + (".reverse()" if n == "revapp" else "")
            out += [F(n, G + ",W", "f: spec_fn(W, %s) -> (Res<()>, W), %s" % (E, d), "()", raises=True, inout="w: W", ens="(r, w_) == app_s(f, %s, w)" % it),
                    F(n + ".loop", G + ",W", "stack: Seq<%s>" % T, "()", raises=True, inout="w: W", cap="f: spec_fn(W, %s) -> (Res<()>, W)" % E,
                      ens="(r, w_) == app_s(f, %s(stack), w)" % fn, dec="%s(stack).len()" % fn, pre="if %s(stack).len() == 0 { assert(%s(stack) =~= Seq::empty()); }" % (fn, fn))]
        return out
