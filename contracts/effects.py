"""Shared specification text: the effect of applying a callback to the entries of a sequence, in order.
The callback is an arbitrary function of the world, which it may change, and may raise; the first exception ends the traversal."""


def text(G, E, farg, maps=None):
    """G: generics; E: entry type; farg: argument of a fold callback, from entry e and accumulator b, and its type.
    maps: list of (name, argument type, result entry type, argument expression, result entry expression): generics of the result are B"""
    g2 = (G + ", " if G else "")
    arg, argt = farg
    t = r"""
pub mod effects { use super::*;
pub open spec fn app_s<@GW>(f: spec_fn(W, @E) -> (Res<()>, W), s: Seq<@E>, w: W) -> (Res<()>, W) decreases s.len() {
    if s.len() == 0 { (Res::Ok(()), w) } else { let (r, w1) = f(w, s[0]); match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(_) => app_s(f, s.drop_first(), w1) } }
}
pub broadcast proof fn app_one<@GW>(f: spec_fn(W, @E) -> (Res<()>, W), e: @E, w: W) ensures #[trigger] app_s(f, seq![e], w) == f(w, e)
{ reveal_with_fuel(app_s, 3); assert(seq![e].drop_first() =~= Seq::empty()); match f(w, e).0 { Res::Ok(u) => { assert(u == ()); } _ => {} } }
pub broadcast proof fn app_none<@GW>(f: spec_fn(W, @E) -> (Res<()>, W), w: W) ensures #[trigger] app_s(f, Seq::<@E>::empty(), w) == (Res::Ok(()), w) { }
pub broadcast proof fn app_cat<@GW>(f: spec_fn(W, @E) -> (Res<()>, W), s: Seq<@E>, t: Seq<@E>, w: W)
    ensures #[trigger] app_s(f, s.add(t), w) == (match app_s(f, s, w).0 { Res::Exn(e) => app_s(f, s, w), Res::Ok(_) => app_s(f, t, app_s(f, s, w).1) }) decreases s.len()
{ if s.len() == 0 { assert(s.add(t) =~= t); } else { assert(s.add(t).drop_first() =~= s.drop_first().add(t)); app_cat(f, s.drop_first(), t, f(w, s[0]).1); } }
pub open spec fn fold_s<@GB, W>(f: spec_fn(W, @A) -> (Res<B>, W), s: Seq<@E>, b: B, w: W) -> (Res<B>, W) decreases s.len() {
    if s.len() == 0 { (Res::Ok(b), w) } else { let e = s[0]; let (r, w1) = f(w, @F); match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(c) => fold_s(f, s.drop_first(), c, w1) } }
}
pub broadcast proof fn fold_one<@GB, W>(f: spec_fn(W, @A) -> (Res<B>, W), e: @E, b: B, w: W) ensures #[trigger] fold_s(f, seq![e], b, w) == f(w, @F)
{ reveal_with_fuel(fold_s, 3); assert(seq![e].drop_first() =~= Seq::empty()); }
pub broadcast proof fn fold_none<@GB, W>(f: spec_fn(W, @A) -> (Res<B>, W), b: B, w: W) ensures #[trigger] fold_s(f, Seq::<@E>::empty(), b, w) == (Res::Ok(b), w) { }
pub broadcast proof fn fold_cat<@GB, W>(f: spec_fn(W, @A) -> (Res<B>, W), s: Seq<@E>, t: Seq<@E>, b: B, w: W)
    ensures #[trigger] fold_s(f, s.add(t), b, w) == (match fold_s(f, s, b, w).0 { Res::Exn(e) => fold_s(f, s, b, w), Res::Ok(c) => fold_s(f, t, c, fold_s(f, s, b, w).1) }) decreases s.len()
{ if s.len() == 0 { assert(s.add(t) =~= t); } else { assert(s.add(t).drop_first() =~= s.drop_first().add(t)); let e = s[0]; if f(w, @F).0 is Ok { fold_cat(f, s.drop_first(), t, f(w, @F).0->Ok_0, f(w, @F).1); } } }
pub broadcast proof fn rev_cat<E>(s: Seq<E>, t: Seq<E>) ensures #[trigger] s.add(t).reverse() == t.reverse().add(s.reverse()) { assert(s.add(t).reverse() =~= t.reverse().add(s.reverse())); }
pub broadcast proof fn rev_one<E>(e: E) ensures #[trigger] seq![e].reverse() == seq![e] { assert(seq![e].reverse() =~= seq![e]); }
pub broadcast proof fn rev_none<E>() ensures #[trigger] Seq::<E>::empty().reverse() == Seq::<E>::empty() { assert(Seq::<E>::empty().reverse() =~= Seq::<E>::empty()); }
"""
    names = ["app_one", "app_none", "app_cat", "fold_one", "fold_none", "fold_cat", "rev_cat", "rev_one", "rev_none"]
    for nm, at, rt, ae, re in maps or []:
        t += r"""
pub open spec fn @n<@GB, W>(f: spec_fn(W, @a) -> (Res<B>, W), s: Seq<@E>, w: W) -> (Res<Seq<@r>>, W) decreases s.len() {
    if s.len() == 0 { (Res::Ok(Seq::empty()), w) } else { let e = s[0]; let (r, w1) = f(w, @e); match r { Res::Exn(x) => (Res::Exn(x), w1), Res::Ok(b) =>
        match @n(f, s.drop_first(), w1).0 { Res::Exn(x) => (Res::Exn(x), @n(f, s.drop_first(), w1).1), Res::Ok(q) => (Res::Ok(seq![@R].add(q)), @n(f, s.drop_first(), w1).1) } } }
}
pub broadcast proof fn @n_one<@GB, W>(f: spec_fn(W, @a) -> (Res<B>, W), e: @E, w: W) ensures #[trigger] @n(f, seq![e], w) == (match f(w, @e).0 { Res::Exn(x) => (Res::Exn(x), f(w, @e).1), Res::Ok(b) => (Res::Ok(seq![@R]), f(w, @e).1) })
{ reveal_with_fuel(@n, 3); assert(seq![e].drop_first() =~= Seq::empty()); if f(w, @e).0 is Ok { let b = f(w, @e).0->Ok_0; assert(seq![@R].add(Seq::<@r>::empty()) =~= seq![@R]); } }
pub broadcast proof fn @n_none<@GB, W>(f: spec_fn(W, @a) -> (Res<B>, W), w: W) ensures #[trigger] @n(f, Seq::<@E>::empty(), w) == (Res::Ok(Seq::<@r>::empty()), w) { }
pub broadcast proof fn @n_cat<@GB, W>(f: spec_fn(W, @a) -> (Res<B>, W), s: Seq<@E>, t: Seq<@E>, w: W)
    ensures #[trigger] @n(f, s.add(t), w) == (match @n(f, s, w).0 { Res::Exn(e) => @n(f, s, w), Res::Ok(p) =>
        match @n(f, t, @n(f, s, w).1).0 { Res::Exn(e) => @n(f, t, @n(f, s, w).1), Res::Ok(q) => (Res::Ok(p.add(q)), @n(f, t, @n(f, s, w).1).1) } }) decreases s.len()
{ if s.len() == 0 { assert(s.add(t) =~= t); match @n(f, t, w).0 { Res::Ok(q) => { assert(Seq::<@r>::empty().add(q) =~= q); } _ => {} } }
  else { assert(s.add(t).drop_first() =~= s.drop_first().add(t)); let e = s[0]; let w1 = f(w, @e).1; @n_cat(f, s.drop_first(), t, w1);
    if f(w, @e).0 is Ok { let b = f(w, @e).0->Ok_0; let w2 = @n(f, s.drop_first(), w1).1;
      match @n(f, s.drop_first(), w1).0 { Res::Ok(p) => { match @n(f, t, w2).0 { Res::Ok(q) => { assert(seq![@R].add(p).add(q) =~= seq![@R].add(p.add(q))); } _ => {} } } _ => {} } } } }
""".replace("@n", nm).replace("@a", at).replace("@r", rt).replace("@e", ae).replace("@R", re)
        names += [nm + "_one", nm + "_none", nm + "_cat"]
    t += "}\npub use effects::*;\nbroadcast use {%s};\n" % ", ".join(names)
    return t.replace("@G", g2).replace("@E", E).replace("@A", argt).replace("@F", arg)
