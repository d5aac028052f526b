"""Contracts on mosmllib/Listsort.sml"""
from smlv.trans import Contract as F
from .order import SORTED

NAME = "Listsort"
CMP = "ordr: spec_fn((A, A)) -> Order"
SPEC = SORTED + r"""
pub open spec fn all_ms<A>(ls: Seq<Seq<A>>) -> Multiset<A> decreases ls.len() {
    if ls.len() == 0 { Multiset::empty() } else { ls[0].to_multiset().add(all_ms(ls.drop_first())) }
}
pub proof fn all_ms1<A>(a: Seq<A>, ls: Seq<Seq<A>>) ensures all_ms(seq![a].add(ls)) == a.to_multiset().add(all_ms(ls)), all_ms(seq![a]) == a.to_multiset()
{ reveal_with_fuel(all_ms, 3); assert(seq![a].add(ls).drop_first() =~= ls); assert(seq![a].drop_first() =~= Seq::empty()); assert(all_ms(seq![a]) =~= a.to_multiset()); }
pub open spec fn all_sorted<A>(cmp: spec_fn((A, A)) -> Order, ls: Seq<Seq<A>>) -> bool { forall |i: int| #![trigger ls[i]] 0 <= i < ls.len() ==> sorted(cmp, ls[i]) }
pub proof fn take_lemma<A>(cmp: spec_fn((A, A)) -> Order, x1: A, xr: Seq<A>, y1: A, yr: Seq<A>)
    requires ord(cmp), sorted(cmp, seq![x1].add(xr)), cmp((x1, y1)) != Order::LESS
    ensures le_all(cmp, y1, seq![x1].add(xr))
{ cons_sorted(cmp, x1, xr); let s = seq![x1].add(xr);
  assert forall |i: int| #![trigger s[i]] 0 <= i < s.len() implies cmp((y1, s[i])) != Order::GREATER by { assert(cmp((y1, x1)) != Order::GREATER); if i > 0 { assert(s[i] == xr[i - 1]); assert(cmp((x1, xr[i - 1])) != Order::GREATER); } }; }
pub proof fn take_lemma2<A>(cmp: spec_fn((A, A)) -> Order, x1: A, ys: Seq<A>)
    requires ord(cmp), sorted(cmp, ys), ys.len() > 0, cmp((x1, ys[0])) != Order::GREATER
    ensures le_all(cmp, x1, ys)
{ assert forall |i: int| #![trigger ys[i]] 0 <= i < ys.len() implies cmp((x1, ys[i])) != Order::GREATER by { if i > 0 { assert(cmp((ys[0], ys[i])) != Order::GREATER); } }; }
pub proof fn rev_sorted<A>(cmp: spec_fn((A, A)) -> Order, run: Seq<A>, x: A) requires run.len() > 0
    ensures ord(cmp) && sorted(cmp, run.reverse()) && cmp((x, run[0])) != Order::LESS ==> sorted(cmp, run.reverse().push(x))
{ if ord(cmp) && sorted(cmp, run.reverse()) && cmp((x, run[0])) != Order::LESS {
    let s = run.reverse(); let t = s.push(x); let n = s.len();
    assert(s[n - 1] == run[0]); assert(cmp((run[0], x)) != Order::GREATER);
    assert forall |i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies cmp((t[i], t[j])) != Order::GREATER by {
        if j == n { assert(t[i] == s[i]); if i < n - 1 { assert(cmp((s[i], s[n - 1])) != Order::GREATER); } } else { assert(t[i] == s[i] && t[j] == s[j]); } } } }
pub open spec fn strict<A>(cmp: spec_fn((A, A)) -> Order, s: Seq<A>) -> bool decreases s.len() {
    s.len() == 0 || (s.len() == 1) || (cmp((s[0], s[1])) == Order::LESS && strict(cmp, s.drop_first()))
}
pub open spec fn has<A>(cmp: spec_fn((A, A)) -> Order, s: Seq<A>, a: A) -> bool { exists |i: int| 0 <= i < s.len() && cmp((#[trigger] s[i], a)) == Order::EQUAL }
// up to EQUAL, the elements of r are those of s and t
pub open spec fn union<A>(cmp: spec_fn((A, A)) -> Order, s: Seq<A>, t: Seq<A>, r: Seq<A>) -> bool { forall |a: A| #![trigger has(cmp, r, a)] has(cmp, r, a) <==> (has(cmp, s, a) || has(cmp, t, a)) }
pub proof fn has_cons<A>(cmp: spec_fn((A, A)) -> Order, a: A, s: Seq<A>) ensures forall |b: A| #![trigger has(cmp, seq![a].add(s), b)] has(cmp, seq![a].add(s), b) <==> (cmp((a, b)) == Order::EQUAL || has(cmp, s, b))
{ let t = seq![a].add(s); assert forall |b: A| #![trigger has(cmp, t, b)] has(cmp, t, b) <==> (cmp((a, b)) == Order::EQUAL || has(cmp, s, b)) by {
    if has(cmp, t, b) { let i = choose |i: int| 0 <= i < t.len() && cmp((#[trigger] t[i], b)) == Order::EQUAL; if i > 0 { assert(s[i - 1] == t[i]); } }
    if cmp((a, b)) == Order::EQUAL { assert(t[0] == a); }
    if has(cmp, s, b) { let i = choose |i: int| 0 <= i < s.len() && cmp((#[trigger] s[i], b)) == Order::EQUAL; assert(t[i + 1] == s[i]); } } }
pub proof fn eq_cong<A>(cmp: spec_fn((A, A)) -> Order, a: A, b: A) requires ord(cmp), cmp((a, b)) == Order::EQUAL
    ensures forall |c: A| #![trigger cmp((a, c))] #![trigger cmp((b, c))] cmp((a, c)) == cmp((b, c))
{ assert forall |c: A| #![trigger cmp((a, c))] #![trigger cmp((b, c))] cmp((a, c)) == cmp((b, c)) by {
    assert(cmp((b, a)) != Order::GREATER); let x = cmp((a, c)); let y = cmp((b, c)); let u = cmp((c, a)); let v = cmp((c, b)); } }
pub open spec fn lower<A>(cmp: spec_fn((A, A)) -> Order, a: A, s: Seq<A>) -> bool { le_all(cmp, a, s) }
// elements of the merge of s and t come from s or t
pub open spec fn bounds<A>(cmp: spec_fn((A, A)) -> Order, s: Seq<A>, t: Seq<A>, r: Seq<A>) -> bool {
    forall |a: A| #![trigger le_all(cmp, a, r)] le_all(cmp, a, s) && le_all(cmp, a, t) ==> le_all(cmp, a, r)
}
pub proof fn le_cons<A>(cmp: spec_fn((A, A)) -> Order, s: Seq<A>) requires s.len() > 0
    ensures forall |a: A| #![trigger le_all(cmp, a, s)] le_all(cmp, a, s) <==> (cmp((a, s[0])) != Order::GREATER && le_all(cmp, a, s.drop_first()))
{ assert forall |a: A| #![trigger le_all(cmp, a, s)] le_all(cmp, a, s) <==> (cmp((a, s[0])) != Order::GREATER && le_all(cmp, a, s.drop_first())) by {
    let d = s.drop_first();
    if le_all(cmp, a, s) { assert forall |i: int| #![trigger d[i]] 0 <= i < d.len() implies cmp((a, d[i])) != Order::GREATER by { assert(d[i] == s[i + 1]); }; }
    if cmp((a, s[0])) != Order::GREATER && le_all(cmp, a, d) { assert forall |i: int| #![trigger s[i]] 0 <= i < s.len() implies cmp((a, s[i])) != Order::GREATER by { if i > 0 { assert(s[i] == d[i - 1]); } }; }
  } }
"""
ORDENS = "ord(ordr) && sorted(ordr, seq![x1].add(xr)) && sorted(ordr, ys) ==> sorted(ordr, r) && bounds(ordr, seq![x1].add(xr), ys, r)"
TAKEPRE = """
if ys.len() > 0 { split1(ys); }
cons_sorted(ordr, x1, xr);
if ord(ordr) && sorted(ordr, seq![x1].add(xr)) && sorted(ordr, ys) && ys.len() > 0 {
    cons_sorted(ordr, ys[0], ys.drop_first()); le_cons(ordr, ys); le_cons(ordr, seq![x1].add(xr));
    if ordr((x1, ys[0])) != Order::LESS { take_lemma(ordr, x1, xr, ys[0], ys.drop_first()); }
    if ordr((x1, ys[0])) != Order::GREATER { take_lemma2(ordr, x1, ys); }
    assert(seq![x1].add(xr).drop_first() =~= xr);
}
"""
TAKEPOST = """
if ord(ordr) && sorted(ordr, seq![x1].add(xr)) && sorted(ordr, ys) && ys.len() > 0 {
  le_cons(ordr, r); cons_sorted(ordr, r[0], r.drop_first()); split1(r);
}
"""
PARAM = "x1: A, xr: Seq<A>, ys: Seq<A>"
MS = "r.to_multiset() == seq![x1].add(xr).to_multiset().add(ys.to_multiset())"


SPEC += r"""
pub open spec fn cat<A>(ls: Seq<Seq<A>>) -> Seq<A> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else { ls[0].add(cat(ls.drop_first())) } }
pub open spec fn eqs<A>(cmp: spec_fn((A, A)) -> Order, c: Seq<A>) -> bool { c.len() > 0 && forall |i: int, j: int| #![trigger c[i], c[j]] 0 <= i && j == i + 1 && j < c.len() ==> cmp((c[i], c[j])) == Order::EQUAL }
// maximal runs of equal elements
pub open spec fn classes<A>(cmp: spec_fn((A, A)) -> Order, ls: Seq<Seq<A>>) -> bool {
    (forall |i: int| #![trigger ls[i]] 0 <= i < ls.len() ==> eqs(cmp, ls[i]))
    && forall |i: int, j: int| #![trigger ls[i], ls[j]] 0 <= i && j == i + 1 && j < ls.len() ==> cmp((ls[i].last(), ls[j][0])) != Order::EQUAL
}
pub proof fn classes_cons<A>(cmp: spec_fn((A, A)) -> Order, c: Seq<A>, ls: Seq<Seq<A>>)
    requires eqs(cmp, c), classes(cmp, ls), ls.len() > 0 ==> cmp((c.last(), ls[0][0])) != Order::EQUAL
    ensures classes(cmp, seq![c].add(ls)), cat(seq![c].add(ls)) == c.add(cat(ls))
{ let t = seq![c].add(ls); assert(t.drop_first() =~= ls);
  assert forall |i: int| #![trigger t[i]] 0 <= i < t.len() implies eqs(cmp, t[i]) by { if i > 0 { assert(t[i] == ls[i - 1]); } }
  assert forall |i: int, j: int| #![trigger t[i], t[j]] 0 <= i && j == i + 1 && j < t.len() implies cmp((t[i].last(), t[j][0])) != Order::EQUAL by { assert(t[j] == ls[i]); if i > 0 { assert(t[i] == ls[i - 1]); } } }
pub proof fn eqs_cons<A>(cmp: spec_fn((A, A)) -> Order, a: A, c: Seq<A>) ensures eqs(cmp, seq![a]), eqs(cmp, c) && cmp((a, c[0])) == Order::EQUAL ==> eqs(cmp, seq![a].add(c))
{ let t = seq![a].add(c); if eqs(cmp, c) && cmp((a, c[0])) == Order::EQUAL {
  assert forall |i: int, j: int| #![trigger t[i], t[j]] 0 <= i && j == i + 1 && j < t.len() implies cmp((t[i], t[j])) == Order::EQUAL by { assert(t[j] == c[i]); if i > 0 { assert(t[i] == c[i - 1]); } } } }
"""


def take(key):
    return F(key, "A", PARAM, "Seq<A>", cap=CMP, ens=["r.len() > 0", MS, ORDENS], dec="xr.len() + ys.len()", pre=TAKEPRE, post=TAKEPOST + "assert(r.to_multiset() =~= seq![x1].add(xr).to_multiset().add(ys.to_multiset()));")


CONTRACTS = [
    F("sort", "A", CMP + ", xs: Seq<A>", "Seq<A>", ens=["r.to_multiset() == xs.to_multiset()", "ord(ordr) ==> sorted(ordr, r)"],
      post="if r.len() == 2 { assert(r =~= seq![r[0]].add(seq![r[1]])); } assert(r.to_multiset() =~= xs.to_multiset());",
      pre="if xs.len() > 0 { split1(xs); if xs.len() == 2 { assert(xs =~= seq![xs[0]].add(seq![xs[1]])); } } assert(all_ms(Seq::<Seq<A>>::empty()) =~= Multiset::empty());"),
    take("sort.merge.take"),
    F("sort.merge", "A", "xs: Seq<A>, ys: Seq<A>", "Seq<A>", cap=CMP,
      ens=["r.to_multiset() == xs.to_multiset().add(ys.to_multiset())", "ord(ordr) && sorted(ordr, xs) && sorted(ordr, ys) ==> sorted(ordr, r)"],
      pre="if xs.len() > 0 { split1(xs); }"),
    F("sort.mergepairs", "A", "l1: Seq<A>, ls: Seq<Seq<A>>, k: int", "Seq<Seq<A>>", cap=CMP,
      ens=["r.len() > 0", "k == 0 ==> r.len() == 1 && r[0].to_multiset() == l1.to_multiset().add(all_ms(ls))", "all_ms(r) == l1.to_multiset().add(all_ms(ls))",
           "ord(ordr) && sorted(ordr, l1) && all_sorted(ordr, ls) ==> all_sorted(ordr, r)"], dec="ls.len()",
      post="if r.len() == 1 { assert(r =~= seq![r[0]]); all_ms1(r[0], ls); assert(r[0].to_multiset() =~= l1.to_multiset().add(all_ms(ls))); }", pre="all_ms1(l1, ls); reveal_with_fuel(all_ms, 3); assert(Seq::<A>::empty().to_multiset() =~= Multiset::empty());"),
    F("sort.nextrun", "A", "run: Seq<A>, xs: Seq<A>", "(Seq<A>, Seq<A>)", cap=CMP, req="run.len() > 0",
      ens=["r.0.len() > 0", "r.1.len() <= xs.len()", "r.0.to_multiset().add(r.1.to_multiset()) == run.to_multiset().add(xs.to_multiset())",
           "ord(ordr) && sorted(ordr, run.reverse()) ==> sorted(ordr, r.0.reverse())"], dec="xs.len()",
      pre="if xs.len() > 0 { split1(xs); assert(seq![xs[0]].add(run).reverse() =~= run.reverse().push(xs[0])); rev_sorted(ordr, run, xs[0]); }"),
    F("sort.sorting", "A", "xs: Seq<A>, ls: Seq<Seq<A>>, r0: int", "Seq<A>", cap=CMP,
      ens=["r.to_multiset() == xs.to_multiset().add(all_ms(ls))", "ord(ordr) && all_sorted(ordr, ls) ==> sorted(ordr, r)"], dec="xs.len()",
      pre="if xs.len() > 0 { split1(xs); assert(seq![xs[0]].reverse() =~= seq![xs[0]]); }",
      post="if r.len() == 2 { assert(r =~= seq![r[0]].add(seq![r[1]])); } assert(r.to_multiset() =~= xs.to_multiset().add(all_ms(ls)));"),
    F("sorted", "A", CMP + ", ys: Seq<A>", "bool", ens="ord(ordr) ==> (r <==> sorted(ordr, ys))", pre="if ys.len() > 0 { split1(ys); }"),
    F("sorted.h", "A", "x0: A, xs: Seq<A>", "bool", cap=CMP, ens="ord(ordr) ==> (r <==> sorted(ordr, seq![x0].add(xs)))", dec="xs.len()",
      pre="if xs.len() > 0 { split1(xs); cons_sorted(ordr, x0, xs); cons_sorted(ordr, xs[0], xs.drop_first()); if ord(ordr) && ordr((x0, xs[0])) != Order::GREATER && sorted(ordr, xs) { take_lemma2(ordr, x0, xs); } } else { assert(seq![x0].add(xs).len() == 1); }"),
    F("merge", "A", CMP + ", (xs: Seq<A>, ys: Seq<A>)", "Seq<A>",
      ens=["r.to_multiset() == xs.to_multiset().add(ys.to_multiset())", "ord(ordr) && sorted(ordr, xs) && sorted(ordr, ys) ==> sorted(ordr, r)"],
      pre="if xs.len() > 0 { split1(xs); }", post="assert(r.to_multiset() =~= xs.to_multiset().add(ys.to_multiset()));"),
    take("merge.take"),
    F("mergeUniq", "A", CMP + ", (xs: Seq<A>, ys: Seq<A>)", "Seq<A>",
      ens=["ord(ordr) && strict(ordr, xs) && strict(ordr, ys) ==> strict(ordr, r) && union(ordr, xs, ys, r)"],
      pre="if xs.len() > 0 { split1(xs); }"),
    F("mergeUniq.take", "A", PARAM, "Seq<A>", cap=CMP, dec="xr.len() + ys.len()",
      ens=["r.len() > 0", "ord(ordr) && strict(ordr, seq![x1].add(xr)) && strict(ordr, ys) ==> r[0] == (if ys.len() > 0 && ordr((x1, ys[0])) == Order::GREATER { ys[0] } else { x1 })", "ord(ordr) && strict(ordr, seq![x1].add(xr)) && strict(ordr, ys) ==> strict(ordr, r)",
           "ord(ordr) && strict(ordr, seq![x1].add(xr)) && strict(ordr, ys) ==> union(ordr, seq![x1].add(xr), ys, r)"],
      pre="""has_cons(ordr, x1, xr); assert(seq![x1].add(xr).drop_first() =~= xr); if ys.len() > 0 { split1(ys); has_cons(ordr, ys[0], ys.drop_first()); }
if xr.len() > 0 { split1(xr); has_cons(ordr, xr[0], xr.drop_first()); assert(seq![x1].add(xr)[1] == xr[0]); }
if ord(ordr) && ys.len() > 0 && ordr((x1, ys[0])) == Order::EQUAL { eq_cong(ordr, x1, ys[0]); }""",
      post="if r.len() > 0 { split1(r); has_cons(ordr, r[0], r.drop_first()); }"),
    F("eqclasses", "A", CMP + ", xs: Seq<A>", "Seq<Seq<A>>",
      ens=["classes(ordr, r)", "cat(r).to_multiset() == xs.to_multiset()", "ord(ordr) ==> sorted(ordr, cat(r))"],
      pre="assert forall |s: Seq<A>| #![trigger s.drop_first()] s.len() > 0 implies s.to_multiset() == Multiset::singleton(s[0]).add(s.drop_first().to_multiset()) by { split1(s); } assert(cat(Seq::<Seq<A>>::empty()) =~= Seq::empty());",
      post="assert(cat(r).to_multiset() =~= xs.to_multiset());"),
    F("eqclasses.group", "A", "last: A, rest: Seq<A>, cs1: Seq<A>, css: Seq<Seq<A>>", "Seq<Seq<A>>", cap=CMP, dec="rest.len()",
      req=["eqs(ordr, cs1)", "cs1[0] == last", "classes(ordr, css)", "css.len() > 0 ==> ordr((cs1.last(), css[0][0])) != Order::EQUAL"],
      ens=["classes(ordr, r)", "cat(r) == rest.reverse().add(cs1).add(cat(css))", "cat(r).to_multiset() == rest.to_multiset().add(cs1.to_multiset()).add(cat(css).to_multiset())"],
      pre="classes_cons(ordr, cs1, css); if rest.len() > 0 { split1(rest); eqs_cons(ordr, rest[0], cs1); assert(rest.reverse() =~= rest.drop_first().reverse().add(seq![rest[0]])); }",
      post="assert(cat(r) =~= rest.reverse().add(cs1).add(cat(css)));"),
]
