"""Shared contracts on weight-balanced sets (Binaryset, Intset)"""
from smlv.trans import Contract as F
from .order import ORD
from . import effects, maplib, setlib

ICMP = r"""
pub mod icmpm { use super::*;
pub open spec fn icmp() -> Cmp<int> { |p: (int, int)| if p.0 < p.1 { Order::LESS } else if p.0 > p.1 { Order::GREATER } else { Order::EQUAL } }
pub broadcast proof fn icmp_val(a: int, b: int) ensures #[trigger] icmp()((a, b)) == (if a < b { Order::LESS } else if a > b { Order::GREATER } else { Order::EQUAL }) {}
pub proof fn icmp_ord() ensures ord(icmp()) {}
}
pub use icmpm::*;
broadcast use {icmp_val};
"""


class WB:
    def __init__(self, poly):
        self.poly = poly
        self.G = "K" if poly else ""
        self.K = "K" if poly else "int"
        self.ty = "D_tree" if poly else "D_Set"
        self.T = self.ty + ("<K>" if poly else "")
        self.pat = "elt, cnt, left, right" if poly else "f0, f1, f2, f3"
        self.e, self.n, self.l, self.r = self.pat.split(", ")
        self.c = "cmpKey" if poly else "icmp()"
        self.cp = "cmpKey: spec_fn((K, K)) -> Order" if poly else ""
        self.ord = "ord(cmpKey)" if poly else "true"
        self.pre0 = "" if poly else "icmp_ord(); "

    def g(self, extra):
        return ",".join(x for x in [self.G] + extra.split(",") if x)

    def par(self, ps):
        return ", ".join(x for x in (self.cp, ps) if x)

    def spec(self):
        g = "<K>" if self.poly else ""
        t = "pub mod ordm { use super::*;" + ORD + "}\npub use ordm::*;\n" + maplib.text("K", "K", "") + setlib.TEXT + effects.text(self.G, self.K, ("(e, b)", "(%s, B)" % self.K)) + setlib.USE + ("" if self.poly else ICMP)
        t += r"""
pub mod treelib { use super::*;
#[verifier::opaque] pub open spec fn items@g(t: @T) -> Seq<@K> decreases t { match t { @D::E => Seq::empty(), @D::T { @p } => node(items(*@l), @e, items(*@r)) } }
// every count field is the number of elements of its subtree
#[verifier::opaque] pub open spec fn counted@g(t: @T) -> bool decreases t { match t { @D::E => true, @D::T { @p } => @n == items(t).len() && counted(*@l) && counted(*@r) } }
pub broadcast proof fn e_items@g() ensures #[trigger] items(@D::E@h) == Seq::<@K>::empty() { reveal(items); }
pub broadcast proof fn e_counted@g() ensures #[trigger] counted(@D::E@h) { reveal(counted); }
pub broadcast proof fn t_items@g(@q) ensures #[trigger] items(@D::T { @p }) == node(items(*@l), @e, items(*@r)) { reveal(items); }
pub broadcast proof fn t_counted@g(@q) ensures #[trigger] counted(@D::T { @p }) == (@n == items(*@l).len() + items(*@r).len() + 1 && counted(*@l) && counted(*@r)) { reveal(counted); reveal(items); }
pub broadcast proof fn t_items2@g(t: @T) ensures #![trigger items(t), t->T_@l] t is T ==> items(t) == node(items(*t->T_@l), t->T_@e, items(*t->T_@r)) { reveal(items); }
pub broadcast proof fn t_items3@g(t: @T) ensures #![trigger items(t), t->T_@e] t is T ==> items(t) == node(items(*t->T_@l), t->T_@e, items(*t->T_@r)) { reveal(items); }
pub broadcast proof fn t_counted2@g(t: @T) ensures #![trigger counted(t), t->T_@l] #![trigger counted(t), t->T_@n] #![trigger counted(t), t->T_@r] counted(t) ==> (t is T ==> t->T_@n == items(t).len() && counted(*t->T_@l) && counted(*t->T_@r)) { reveal(counted); reveal(items); }
pub broadcast proof fn items_len@g(t: @T) ensures #![trigger items(t).len()] t is E <==> items(t).len() == 0 { reveal(items); }
pub open spec fn wf@g(@C t: @T) -> bool { counted(t) && asc(@c, items(t)) }
}
pub use treelib::*;
broadcast use {e_items, e_counted, t_items, t_counted, t_items2, t_items3, t_counted2, items_len};
""".replace("@p", self.pat).replace("@q", "%s: %s, %s: int, %s: Box<%s>, %s: Box<%s>" % (self.e, self.K, self.n, self.l, self.T, self.r, self.T)).replace("@h", "::<K>" if self.poly and 0 else "") \
            .replace("@C", "cmpKey: Cmp<K>," if self.poly else "").replace("@c", self.c).replace("@D", self.ty + ("::<K>" if self.poly else "")).replace("@T", self.T).replace("@K", self.K).replace("@l", self.l).replace("@r", self.r) \
            .replace("@e", self.e).replace("@n", self.n).replace("@g", g)
        return t

    def wf(self, t):
        return "wf(%s)" % ", ".join((["cmpKey"] if self.poly else []) + [t])

    def node(self, t, *calls):
        c = " ".join(x.replace("@n", "%s, items(*%s->T_%s), %s->T_%s, items(*%s->T_%s)" % (self.c, t, self.l, t, self.e, t, self.r)) for x in calls)
        return self.pre0 + "if %s is T { %s }" % (t, c)

    def rot(self, name, extra, pre=""):
        return F(name, self.G, "(v: %s, x: %s, y: %s)" % (self.K, self.T, self.T), self.T, req="counted(x) && counted(y)" + extra, ens=["counted(r)", "items(r) == node(items(x), v, items(y))"], pre=pre)

    def common(self):
        G, K, T, c, cp, ORDR, par, pre0, wf = self.G, self.K, self.T, self.c, self.cp, self.ord, self.par, self.pre0, self.wf
        x = "x_: %s" % K
        ALLX = "forall |z: %s| #![trigger inset(%s, items(r), z)] " % (K, c)
        HR = "inset(%s, items(r), z)" % c
        HOLD = lambda *ts: "forall |z: %s| #![trigger holds(items(r), z)] holds(items(r), z) ==> %s" % (K, " || ".join("holds(items(%s), z)" % t for t in ts))
        has = lambda t, z="z": "inset(%s, items(%s), %s)" % (c, t, z)
        lt = lambda a, b: "%s((%s, %s)) == Order::LESS" % (c, a, b)
        WF = "%s && %s" % (ORDR, wf("@"))
        two = lambda a, b: "%s && %s && %s" % (ORDR, wf(a), wf(b))
        out = [
            F("treeSize" if self.poly else "size", G, "t: " + T, "int", req="counted(t)", ens="r == items(t).len()"),
            self.rot("N", ""), self.rot("single_L", " && y is T"), self.rot("single_R", " && x is T"),
            self.rot("double_L", " && y is T && *(y->T_%s) is T" % self.l), self.rot("double_R", " && x is T && *(x->T_%s) is T" % self.r),
            self.rot("T'", ""),
            F("addt", G, par("t: %s, x: %s" % (T, K)), T, req=WF.replace("@", "t"), ens=["items(r) == ins(%s, items(t), x, x)" % c, wf("r")], pre=pre0 + "ins_asc(%s, items(t), x, x);" % c),
            F("addt.h", G, "t: " + T, T, cap=par("x: " + K), req=WF.replace("@", "t"), ens=["items(r) == ins(%s, items(t), x, x)" % c, "counted(r)"], dec="t",
              pre=self.node("t", "ins_node(@n, x, x);") + " if t is E { assert(ins(%s, items(t), x, x) =~= node(Seq::empty(), x, Seq::empty())); }" % c),
            F("concat3", G, par("l: %s, v: %s, rr: %s" % (T, K, T)), T, req="%s && counted(l) && counted(rr) && asc(%s, node(items(l), v, items(rr)))" % (ORDR, c),
              ens=["items(r) == node(items(l), v, items(rr))", "counted(r)", "asc(%s, items(r))" % c], dec="l, rr", pre=pre0 + "if l is E { ins_front(%s, items(rr), v); } else if rr is E { ins_back(%s, items(l), v); }" % (c, c)),
        ]
        for n, cond in (("split_lt", lt("z", "x")), ("split_gt", lt("x", "z"))):
            out.append(F(n, G, par("t: %s, x: %s" % (T, K)), T, req=WF.replace("@", "t"), ens=[wf("r"), ALLX + "%s <==> %s && %s" % (HR, has("t"), cond), HOLD("t")], dec="t", pre=pre0))
        out += [
            F("min", G, "t: " + T, K, req="t is T", ens="items(t).len() > 0 && r == items(t)[0]", dec="t" if self.poly else "t, 0int", pre="" if not self.poly else ""),
            F("delmin", G, "t: " + T, T, req="t is T && counted(t)", ens=["items(r) =~= items(t).drop_first()", "counted(r)"], dec="t" if self.poly else "t, 0int"),
            F("delete'", G, "(l: %s, r0: %s)" % (T, T), T, req="counted(l) && counted(r0)", ens=["items(r) =~= items(l).add(items(r0))", "counted(r)"], dec="" if self.poly else "r0, 1int"),
            F("concat", G, "l: %s, r0: %s" % (T, T), T, req="counted(l) && counted(r0)", ens=["items(r) =~= items(l).add(items(r0))", "counted(r)"], dec="l, r0"),
        ]
        # hedge union
        h = "hedge_union." if self.poly else ""
        cap = dict(cap=cp) if self.poly else {}
        P = lambda s: s
        inb = lambda z, lo, hi: " && ".join(([lt("lo", z)] if lo else []) + ([lt(z, "hi")] if hi else []))
        for nm, lo, hi in (("trim", 1, 1), ("trim_lo", 1, 0), ("trim_hi", 0, 1)):
            b = (["lo: " + K] if lo else []) + (["hi: " + K] if hi else [])
            out.append(F(h + nm, G, ", ".join(b + ["s: " + T]), T, req=WF.replace("@", "s"), dec="s", pre=pre0,
                         ens=[wf("r"), ALLX + "(%s ==> %s) && (%s && %s ==> %s)" % (HR, has("s"), inb("z", lo, hi), has("s"), HR), HOLD("s"), "r is T ==> " + inb("r->T_" + self.e, lo, hi)], **cap))
        for nm, lo, hi in (("uni_bd", 1, 1), ("uni_hi", 0, 1), ("uni_lo", 1, 0)):
            b = (["lo: " + K] if lo else []) + (["hi: " + K] if hi else [])
            rq = [two("s1", "s2")] + (["gtA(%s, items(s1), lo)" % c] if lo else []) + (["ltA(%s, items(s1), hi)" % c] if hi else []) + ["s2 is T ==> " + inb("s2->T_" + self.e, lo, hi)] + ([lt("lo", "hi")] if lo and hi else [])
            out.append(F(h + nm, G, ", ".join(["s1: " + T, "s2: " + T] + b), T, req=rq, dec="s1", pre=pre0,
                         ens=[wf("r"), ALLX + "%s <==> %s || (%s && %s)" % (HR, has("s1"), inb("z", lo, hi), has("s2")), HOLD("s1", "s2")], **cap))
        U = [wf("r"), ALLX + "%s <==> %s || %s" % (HR, has("s1"), has("s2")), HOLD("s1", "s2")]
        out.append(F("hedge_union", G, par("s1: %s, s2: %s" % (T, T)), T, req=two("s1", "s2"), ens=U, pre=pre0) if self.poly else F("uni", G, "(s1: %s, s2: %s)" % (T, T), T, req=two("s1", "s2"), ens=U, pre=pre0))
        return out

    def api(self):
        """the interface functions; self.S is the set type, view its elements"""
        G, K, T, c, cp, ORDR, par, pre0, wf, poly = self.G, self.K, self.T, self.c, self.cp, self.ord, self.par, self.pre0, self.wf, self.poly
        S = "D_set_<K>" if poly else T
        arg = lambda n: "%s: %s" % (n, S)
        v = (lambda n: "items(%s->SET_f1)" % n) if poly else (lambda n: "items(%s)" % n)
        cs = "s->SET_f0" if poly else "icmp()"
        wfs = (lambda n: "ord(%s->SET_f0) && wf(%s->SET_f0, %s->SET_f1)" % (n, n, n)) if poly else (lambda n: "wf(%s)" % n)
        same = " && s.0 == r0.0" if False else ""
        keep = lambda r: ["%s->SET_f0 == s->SET_f0" % r, wfs(r)] if poly else [wfs(r)]
        two = "%s && %s" % (wfs("s"), wfs("s2")) + (" && s->SET_f0 == s2->SET_f0" if poly else "")
        h = lambda q, cc=None: "inset(%s, %s, z)" % (cc or cs, q)
        ALL = lambda body, cc=None: "forall |z: %s| #![trigger inset(%s, %s, z)] inset(%s, %s, z) <==> %s" % (K, cc or cs, "@", cc or cs, "@", body)
        HOLD = lambda r, *ts: "forall |z: %s| #![trigger holds(%s, z)] holds(%s, z) ==> %s" % (K, r, r, " || ".join("holds(%s, z)" % t for t in ts))
        it, mem, at = (lambda t: "items(%s)" % t), "mem(%s, items(t), x)" % c, "at(%s, items(t), x)" % c
        MEM, AT = "mem(%s, %s, x)" % (cs, v("s")), "at(%s, %s, x)" % (cs, v("s"))
        p0 = pre0 if not poly else ""
        search = pre0 + "if t is T { pos_node(%s, items(*t->T_%s), t->T_%s, items(*t->T_%s), x); }" % (c, self.l, self.e, self.r)
        dele = pre0 + "if t is T { let (l, e, rr) = (items(*t->T_%s), t->T_%s, items(*t->T_%s)); pos_node(%s, l, e, rr, x); del_node(%s, l, e, rr, x); }" % (self.l, self.e, self.r, c, c)
        out = [
            F("numItems", G, arg("s"), "int", req=wfs("s"), ens="r == %s.len()" % v("s")),
            F("isEmpty", G, arg("s"), "bool", ens="r == (%s.len() == 0)" % v("s")),
            F("add", G, "(%s, x: %s)" % (arg("s"), K), S, req=wfs("s"), ens=keep("r") + ["%s == ins(%s, %s, x, x)" % (v("r"), cs, v("s"))], pre=p0),
            F("addList", G, "(%s, l: Seq<%s>)" % (arg("s"), K), S, req=wfs("s"), ens=keep("r") + ["%s == inss(%s, %s, l)" % (v("r"), cs, v("s")), ALL("%s || inset(%s, l, z)" % (h(v("s")), cs)).replace("@", v("r"))],
              pre=p0 + "inss_props(%s, %s, l);" % (cs, v("s"))),
            F("membert", G, par("t: %s, x: %s" % (T, K)), "bool", req="%s && %s" % (ORDR, wf("t")), ens="r == inset(%s, items(t), x)" % c, pre=pre0 + "mem_has(%s, items(t), x);" % c),
            F("member", G, "(%s, x: %s)" % (arg("s"), K), "bool", req=wfs("s"), ens="r == inset(%s, %s, x)" % (cs, v("s")), pre=p0 + "mem_has(%s, %s, x);" % (cs, v("s"))),
            F("delete", G, "(%s, x: %s)" % (arg("s"), K), S, raises=True, req=wfs("s"), dec="" if poly else "s",
              ens=["!%s ==> r == Res::<%s>::Exn(Exn::NotFound)" % (MEM, S), "%s ==> r is Ok && %s && %s == del(%s, %s, x)" % (MEM, " && ".join(keep("r->Ok_0")), v("r->Ok_0"), cs, v("s"))],
              pre=p0 + "del_asc(%s, %s, x);" % (cs, v("s")) + ("" if poly else dele.replace("t->", "s->").replace("if t is", "if s is"))),
            F("union" if poly else "uni", G, "(%s, %s)" % (arg("s"), arg("s2")), S, req=two, ens=keep("r") + [ALL("%s || %s" % (h(v("s")), h(v("s2")))).replace("@", v("r")), HOLD(v("r"), v("s"), v("s2"))], pre=p0),
            F("intersection", G, "(%s, %s)" % (arg("s"), arg("s2")), S, req=two, ens=keep("r") + [ALL("%s && %s" % (h(v("s")), h(v("s2")))).replace("@", v("r")), HOLD(v("r"), v("s"), v("s2"))], pre=p0 + ("" if poly else SETOP), dec="" if poly else "s2"),
            F("difference", G, "(%s, %s)" % (arg("s"), arg("s2")), S, req=two, ens=keep("r") + [ALL("%s && !%s" % (h(v("s")), h(v("s2")))).replace("@", v("r")), HOLD(v("r"), v("s"))], pre=p0 + ("" if poly else SETOP), dec="" if poly else "s2"),
            F("listItems", G, arg("s"), "Seq<%s>" % K, ens="r == %s" % v("s")),
            F("treeIn", G, par("t: %s, t_p: %s" % (T, T)) if not poly else "cmpKey: spec_fn((K, K)) -> Order, (t: %s, t_p: %s)" % (T, T), "bool", req="%s && %s && counted(t)" % (ORDR, wf("t_p")), ens="r == subset(%s, items(t), items(t_p))" % c, pre=pre0),
            F("treeIn.isIn", G, "t: " + T, "bool", cap=par("t': " + T), req="%s && %s && counted(t)" % (ORDR, wf("t_p")), ens="r == subset(%s, items(t), items(t_p))" % c, dec="t",
              pre=pre0 + "broadcast use {subset_node, subset_empty};"),
            F("isSubset", G, "(%s, %s)" % (arg("s"), arg("s2")), "bool", req=two, ens="r == subset(%s, %s, %s)" % (cs, v("s"), v("s2")), pre=p0 + "broadcast use {subset_node, subset_empty}; if subset(%s, %s, %s) { sub_len(%s, %s, %s); }" % (cs, v("s"), v("s2"), cs, v("s"), v("s2"))),
            F("equal", G, "(%s, %s)" % (arg("s"), arg("s2")), "bool", req=two, ens="r == same(%s, %s, %s)" % (cs, v("s"), v("s2")),
              pre=p0 + "broadcast use {subset_node, subset_empty}; if subset(%s, %s, %s) { sub_len(%s, %s, %s); } if subset(%s, %s, %s) { sub_len(%s, %s, %s); }" % ((cs, v("s"), v("s2")) * 2 + (cs, v("s2"), v("s")) * 2)),
            F("find", G, "p: spec_fn(%s) -> bool, %s" % (K, arg("s")), "Option<%s>" % K, ens=["match r { Some(y) => holds(%s, y) && p(y), None => forall |z: %s| #![trigger holds(%s, z)] holds(%s, z) ==> !p(z) }" % (v("s"), K, v("s"), v("s"))]),
            F("find." + ("findt" if poly else "h"), G, "t: " + T, "Option<%s>" % K, cap="p: spec_fn(%s) -> bool" % K, dec="t",
              ens=["match r { Some(y) => holds(items(t), y) && p(y), None => forall |z: %s| #![trigger holds(items(t), z)] holds(items(t), z) ==> !p(z) }" % K]),
            F("listItems.foldr", G, "b: Seq<%s>, %s" % (K, arg("s")), "Seq<%s>" % K, of="foldr", fix=1, ens="r == %s.add(b)" % v("s")),
            F("listItems.foldr." + ("foldf" if poly else "fold'"), G, "t: %s, b: Seq<%s>" % (T, K) if poly else "b: Seq<%s>, t: %s" % (K, T), "Seq<%s>" % K, dec="t", ens="r == items(t).add(b)", pre="broadcast use cons_add;"),
        ]
        if poly:
            out += [
                F("empty", G, cp, S, ens="r->SET_f0 == cmpKey && items(r->SET_f1) == Seq::<K>::empty() && (ord(cmpKey) ==> %s)" % wfs("r")),
                F("singleton", G, cp + ", x: K", S, ens="r->SET_f0 == cmpKey && items(r->SET_f1) == node(Seq::<K>::empty(), x, Seq::<K>::empty()) && (ord(cmpKey) ==> %s)" % wfs("r")),
                F("addList.foldl", G, "t: %s, l: Seq<K>" % T, T, of="List.foldl", fix=1, cap=cp, req="%s && %s" % (ORDR, wf("t")), ens=["items(r) == inss(cmpKey, items(t), l)", wf("r")], dec="l.len()", pre="if l.len() > 0 { split1(l); } else { assert(l =~= Seq::empty()); }"),
                F("peekt", G, par("t: %s, x: K" % T), "Option<K>", req="%s && %s" % (ORDR, wf("t")), ens="r == (if %s { Some(%s) } else { None })" % (mem, at)),
                F("peekt.pk", G, "t: %s" % T, "Option<K>", cap=cp + ", x: K", req="%s && %s" % (ORDR, wf("t")), ens="r == (if %s { Some(%s) } else { None })" % (mem, at), dec="t", pre=search),
                F("peek", G, "(%s, x: K)" % arg("s"), "Option<K>", req=wfs("s"), ens="r == (if %s { Some(%s) } else { None })" % (MEM, AT)),
                F("retrieve", G, "(%s, x: K)" % arg("s"), "K", raises=True, req=wfs("s"), ens=["%s ==> r == Res::Ok(%s)" % (MEM, AT), "!%s ==> r == Res::<K>::Exn(Exn::NotFound)" % MEM]),
                F("delete.delt", G, "t: " + T, T, raises=True, cap=cp + ", x: K", req="%s && %s" % (ORDR, wf("t")), dec="t",
                  ens=["!%s ==> r == Res::<%s>::Exn(Exn::NotFound)" % (mem, T), "%s ==> r is Ok && counted(r->Ok_0) && items(r->Ok_0) == del(cmpKey, items(t), x)" % mem], pre=dele),
                F("intersection.intert", G, "t: %s, t2: %s" % (T, T), T, cap=cp, req="%s && %s && %s" % (ORDR, wf("t"), wf("t2")), dec="t2",
                  ens=[wf("r"), ALL("%s && %s" % (h("items(t)", c), h("items(t2)", c)), c).replace("@", "items(r)"), HOLD("items(r)", "items(t)", "items(t2)")], pre=SETOP),
                F("difference.difft", G, "t: %s, t2: %s" % (T, T), T, cap=cp, req="%s && %s && %s" % (ORDR, wf("t"), wf("t2")), dec="t2",
                  ens=[wf("r"), ALL("%s && !%s" % (h("items(t)", c), h("items(t2)", c)), c).replace("@", "items(r)"), HOLD("items(r)", "items(t)")], pre=SETOP),
            ]
        else:
            out += [
                F("singleton", G, "x: int", S, ens="items(r) == node(Seq::<int>::empty(), x, Seq::<int>::empty()) && wf(r)"),
                F("addList.foldl", G, "t: %s, l: Seq<int>" % T, T, of="List.foldl", fix=1, req=wf("t"), ens=["items(r) == inss(icmp(), items(t), l)", wf("r")], dec="l.len()", pre="if l.len() > 0 { split1(l); } else { assert(l =~= Seq::empty()); }"),
                F("membert.mem", G, "t: %s" % T, "bool", cap="x: int", req=wf("t"), ens="r == %s" % mem, dec="t", pre=search),
            ]
        for n, rv in (("foldl", ""), ("foldr", ".reverse()")):
            inner = "foldf" if poly else "fold'"
            ft = "f: spec_fn(W, (%s, B)) -> (Res<B>, W)" % K
            out += [F(n, self.g("B,W"), "%s, b: B, %s" % (ft, arg("s")), "B", raises=True, inout="w: W", ens="(r, w_) == fold_s(f, %s%s, b, w)" % (v("s"), rv), pre=EFF),
                    F(n + "." + inner, self.g("B,W"), "t: %s, b: B" % T if poly else "b: B, t: %s" % T, "B", raises=True, inout="w: W", cap=ft, ens="(r, w_) == fold_s(f, items(t)%s, b, w)" % rv, dec="t", pre=EFF)]
        for n, rv in (("app", ""), ("revapp", ".reverse()")):
            inner = "apply" if poly else "app'"
            ft = "f: spec_fn(W, %s) -> (Res<()>, W)" % K
            out += [F(n, self.g("W"), "%s, %s" % (ft, arg("s")), "()", raises=True, inout="w: W", ens="(r, w_) == app_s(f, %s%s, w)" % (v("s"), rv), pre=EFF),
                    F(n + "." + inner, self.g("W"), "t: %s" % T, "()", raises=True, inout="w: W", cap=ft, ens="(r, w_) == app_s(f, items(t)%s, w)" % rv, dec="t", pre=EFF)]
        return out


SETOP = "broadcast use {asc_add, mem_has, has_eqb}; "
EFF = ""
