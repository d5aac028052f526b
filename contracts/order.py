"""Shared specification text: orders given by a comparison function, sortedness, multisets"""
ORD = r"""
// the comparison function is a total preorder: compatible answers for swapped arguments, transitive
pub open spec fn ord<A>(cmp: spec_fn((A, A)) -> Order) -> bool {
    (forall |a: A, b: A| #![trigger cmp((a, b))] (cmp((a, b)) == Order::LESS <==> cmp((b, a)) == Order::GREATER))
    && (forall |a: A| #![trigger cmp((a, a))] cmp((a, a)) == Order::EQUAL)
    && (forall |a: A, b: A, c: A| #![trigger cmp((a, b)), cmp((b, c))] cmp((a, b)) != Order::GREATER && cmp((b, c)) != Order::GREATER ==> cmp((a, c)) != Order::GREATER)
}
"""
SORTED = ORD + r"""
pub open spec fn sorted<A>(cmp: spec_fn((A, A)) -> Order, s: Seq<A>) -> bool {
    forall |i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> cmp((s[i], s[j])) != Order::GREATER
}
pub open spec fn le_all<A>(cmp: spec_fn((A, A)) -> Order, a: A, s: Seq<A>) -> bool {
    forall |i: int| #![trigger s[i]] 0 <= i < s.len() ==> cmp((a, s[i])) != Order::GREATER
}
pub proof fn cons_sorted<A>(cmp: spec_fn((A, A)) -> Order, a: A, s: Seq<A>)
    ensures sorted(cmp, seq![a].add(s)) <==> (le_all(cmp, a, s) && sorted(cmp, s))
{
    let t = seq![a].add(s);
    if sorted(cmp, t) {
        assert forall |i: int| #![trigger s[i]] 0 <= i < s.len() implies cmp((a, s[i])) != Order::GREATER by { assert(t[0] == a && t[i + 1] == s[i]); };
        assert forall |i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies cmp((s[i], s[j])) != Order::GREATER by { assert(t[i + 1] == s[i] && t[j + 1] == s[j]); };
    }
    if le_all(cmp, a, s) && sorted(cmp, s) {
        assert forall |i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies cmp((t[i], t[j])) != Order::GREATER by { assert(t[j] == s[j - 1]); if i > 0 { assert(t[i] == s[i - 1]); } };
    }
}
pub mod mslib { use super::*; broadcast use vstd::seq_lib::group_seq_properties;
pub proof fn split1<A>(s: Seq<A>) requires s.len() > 0 ensures s == seq![s[0]].add(s.drop_first()) { assert(s =~= seq![s[0]].add(s.drop_first())); }
pub broadcast proof fn ms_add<A>(a: Seq<A>, b: Seq<A>) ensures #[trigger] a.add(b).to_multiset() == a.to_multiset().add(b.to_multiset())
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }
pub broadcast proof fn ms_single<A>(a: A) ensures #[trigger] seq![a].to_multiset() == Multiset::singleton(a)
{
    let e = Seq::<A>::empty();
    e.to_multiset_ensures();
    assert(e.to_multiset() =~= Multiset::empty()) by { assert(e.to_multiset().len() == 0); }
    assert(seq![a] =~= e.push(a));
    assert(e.push(a).to_multiset() =~= e.to_multiset().insert(a));
    assert(Multiset::empty().insert(a) =~= Multiset::singleton(a));
}
pub broadcast proof fn ms_empty<A>() ensures #[trigger] Seq::<A>::empty().to_multiset() == Multiset::<A>::empty()
{ let e = Seq::<A>::empty(); e.to_multiset_ensures(); assert(e.to_multiset() =~= Multiset::empty()) by { assert(e.to_multiset().len() == 0); } }
pub broadcast proof fn ms_rev<A>(s: Seq<A>) ensures #[trigger] s.reverse().to_multiset() == s.to_multiset() decreases s.len() {
    if s.len() == 0 { assert(s.reverse() =~= s); } else {
        split1(s); ms_rev(s.drop_first());
        assert(s.reverse() =~= s.drop_first().reverse().add(seq![s[0]]));
        ms_add(s.drop_first().reverse(), seq![s[0]]); ms_add(seq![s[0]], s.drop_first());
        assert(s.to_multiset() =~= s.reverse().to_multiset());
    }
}
}
pub use mslib::*;
broadcast use {ms_rev, ms_add, ms_single, ms_empty};
"""
