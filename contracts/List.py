"""Contracts on mosmllib/List.sml"""
from smlv.trans import Contract as F

NAME = "List"
FN = "f: spec_fn(W, A) -> (Res<%s>, W)"

SPEC = r"""
pub open spec fn app_s<A, W>(f: spec_fn(W, A) -> (Res<()>, W), xs: Seq<A>, w: W) -> (Res<()>, W) decreases xs.len() {
    if xs.len() == 0 { (Res::Ok(()), w) } else { let (r, w1) = f(w, xs[0]); if r is Exn { (r, w1) } else { app_s(f, xs.drop_first(), w1) } }
}
pub open spec fn map_s<A, B, W>(f: spec_fn(W, A) -> (Res<B>, W), xs: Seq<A>, w: W) -> (Res<Seq<B>>, W) decreases xs.len() {
    if xs.len() == 0 { (Res::Ok(Seq::empty()), w) } else {
        let (r, w1) = f(w, xs[0]);
        match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(y) => {
            let (rs, w2) = map_s(f, xs.drop_first(), w1);
            match rs { Res::Exn(e) => (Res::Exn(e), w2), Res::Ok(ys) => (Res::Ok(seq![y].add(ys)), w2) } } }
    }
}
pub open spec fn mapPartial_s<A, B, W>(f: spec_fn(W, A) -> (Res<Option<B>>, W), xs: Seq<A>, w: W) -> (Res<Seq<B>>, W) decreases xs.len() {
    if xs.len() == 0 { (Res::Ok(Seq::empty()), w) } else {
        let (r, w1) = f(w, xs[0]);
        match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(o) => {
            let (rs, w2) = mapPartial_s(f, xs.drop_first(), w1);
            match rs { Res::Exn(e) => (Res::Exn(e), w2), Res::Ok(ys) => (Res::Ok(match o { None => ys, Some(y) => seq![y].add(ys) }), w2) } } }
    }
}
pub open spec fn find_s<A, W>(p: spec_fn(W, A) -> (Res<bool>, W), xs: Seq<A>, w: W) -> (Res<Option<A>>, W) decreases xs.len() {
    if xs.len() == 0 { (Res::Ok(None), w) } else {
        let (r, w1) = p(w, xs[0]);
        match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(b) => if b { (Res::Ok(Some(xs[0])), w1) } else { find_s(p, xs.drop_first(), w1) } }
    }
}
pub open spec fn exists_s<A, W>(p: spec_fn(W, A) -> (Res<bool>, W), xs: Seq<A>, w: W) -> (Res<bool>, W) decreases xs.len() {
    if xs.len() == 0 { (Res::Ok(false), w) } else {
        let (r, w1) = p(w, xs[0]);
        match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(b) => if b { (Res::Ok(true), w1) } else { exists_s(p, xs.drop_first(), w1) } }
    }
}
pub open spec fn all_s<A, W>(p: spec_fn(W, A) -> (Res<bool>, W), xs: Seq<A>, w: W) -> (Res<bool>, W) decreases xs.len() {
    if xs.len() == 0 { (Res::Ok(true), w) } else {
        let (r, w1) = p(w, xs[0]);
        match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(b) => if b { all_s(p, xs.drop_first(), w1) } else { (Res::Ok(false), w1) } }
    }
}
// the elements for which p answers true, and those for which it answers false, both in order; p applied left to right
pub open spec fn part_s<A, W>(p: spec_fn(W, A) -> (Res<bool>, W), xs: Seq<A>, w: W) -> (Res<(Seq<A>, Seq<A>)>, W) decreases xs.len() {
    if xs.len() == 0 { (Res::Ok((Seq::empty(), Seq::empty())), w) } else {
        let (r, w1) = p(w, xs[0]);
        match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(b) => {
            let (rs, w2) = part_s(p, xs.drop_first(), w1);
            match rs { Res::Exn(e) => (Res::Exn(e), w2),
                Res::Ok(ab) => (Res::Ok(if b { (seq![xs[0]].add(ab.0), ab.1) } else { (ab.0, seq![xs[0]].add(ab.1)) }), w2) } } }
    }
}
pub open spec fn foldl_s<A, B, W>(f: spec_fn(W, (A, B)) -> (Res<B>, W), e: B, xs: Seq<A>, w: W) -> (Res<B>, W) decreases xs.len() {
    if xs.len() == 0 { (Res::Ok(e), w) } else {
        let (r, w1) = f(w, (xs[0], e));
        match r { Res::Exn(x) => (Res::Exn(x), w1), Res::Ok(v) => foldl_s(f, v, xs.drop_first(), w1) }
    }
}
pub open spec fn foldr_s<A, B, W>(f: spec_fn(W, (A, B)) -> (Res<B>, W), e: B, xs: Seq<A>, w: W) -> (Res<B>, W) decreases xs.len() {
    if xs.len() == 0 { (Res::Ok(e), w) } else {
        let (r, w1) = foldr_s(f, e, xs.drop_first(), w);
        match r { Res::Exn(x) => (Res::Exn(x), w1), Res::Ok(v) => f(w1, (xs[0], v)) }
    }
}
pub open spec fn collate_s<A, W>(cmp: spec_fn(W, (A, A)) -> (Res<Order>, W), xs: Seq<A>, ys: Seq<A>, w: W) -> (Res<Order>, W) decreases xs.len() {
    if xs.len() == 0 { (Res::Ok(if ys.len() == 0 { Order::EQUAL } else { Order::LESS }), w) } else if ys.len() == 0 { (Res::Ok(Order::GREATER), w) } else {
        let (r, w1) = cmp(w, (xs[0], ys[0]));
        match r { Res::Exn(x) => (Res::Exn(x), w1), Res::Ok(o) => if o == Order::EQUAL { collate_s(cmp, xs.drop_first(), ys.drop_first(), w1) } else { (Res::Ok(o), w1) } }
    }
}
// f i, f (i+1), ..., f (n-1) in this order
pub open spec fn tab_s<A, W>(f: spec_fn(W, int) -> (Res<A>, W), i: int, n: int, w: W) -> (Res<Seq<A>>, W) decreases n - i {
    if i >= n { (Res::Ok(Seq::empty()), w) } else {
        let (r, w1) = f(w, i);
        match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(y) => {
            let (rs, w2) = tab_s(f, i + 1, n, w1);
            match rs { Res::Exn(e) => (Res::Exn(e), w2), Res::Ok(ys) => (Res::Ok(seq![y].add(ys)), w2) } } }
    }
}
"""




W = "w: W"
CONTRACTS = [
    F("null", "A", "xs: Seq<A>", "bool", ens="r <==> xs.len() == 0"),
    F("hd", "A", "xs: Seq<A>", "A", raises=True, ens=["xs.len() > 0 ==> r == Res::Ok(xs[0])", "xs.len() == 0 ==> r == Res::<A>::Exn(Exn::Empty)"]),
    F("tl", "A", "xs: Seq<A>", "Seq<A>", raises=True,
      ens=["xs.len() > 0 ==> r == Res::Ok(xs.drop_first())", "xs.len() == 0 ==> r == Res::<Seq<A>>::Exn(Exn::Empty)"]),
    F("last", "A", "xs: Seq<A>", "A", raises=True, ens=["xs.len() > 0 ==> r == Res::Ok(xs.last())", "xs.len() == 0 ==> r == Res::<A>::Exn(Exn::Empty)"],
      dec="xs.len()"),
    F("nth", "A", "(xs: Seq<A>, n: int)", "A", raises=True,
      ens=["0 <= n < xs.len() ==> r == Res::Ok(xs[n])", "!(0 <= n < xs.len()) ==> r == Res::<A>::Exn(Exn::Subscript)"]),
    F("nth.h", "A", "xs: Seq<A>, n: int", "A", raises=True, req="n >= 0",
      ens=["n < xs.len() ==> r == Res::Ok(xs[n])", "!(n < xs.len()) ==> r == Res::<A>::Exn(Exn::Subscript)"], dec="xs.len()"),
    F("drop", "A", "(xs: Seq<A>, n: int)", "Seq<A>", raises=True,
      ens=["0 <= n <= xs.len() ==> r == Res::Ok(xs.skip(n))", "!(0 <= n <= xs.len()) ==> r == Res::<Seq<A>>::Exn(Exn::Subscript)"]),
    F("drop.h", "A", "xs: Seq<A>, n: int", "Seq<A>", raises=True, req="n >= 0",
      ens=["n <= xs.len() ==> r is Ok && r->Ok_0 =~= xs.skip(n)", "!(n <= xs.len()) ==> r == Res::<Seq<A>>::Exn(Exn::Subscript)"], dec="xs.len()"),
    F("take", "A", "(xs: Seq<A>, n: int)", "Seq<A>", raises=True,
      ens=["0 <= n <= xs.len() ==> r == Res::Ok(xs.take(n))", "!(0 <= n <= xs.len()) ==> r == Res::<Seq<A>>::Exn(Exn::Subscript)"]),
    F("take.h", "A", "xs: Seq<A>, n: int", "Seq<A>", raises=True, req="n >= 0",
      ens=["n <= xs.len() ==> r is Ok && r->Ok_0 =~= xs.take(n)", "!(n <= xs.len()) ==> r == Res::<Seq<A>>::Exn(Exn::Subscript)"], dec="xs.len()"),
    F("length", "A", "xs: Seq<A>", "int", ens="r == xs.len()"),
    F("length.acc", "A", "xs: Seq<A>, k: int", "int", ens="r == k + xs.len()", dec="xs.len()"),
    F("revAcc", "A", "xs: Seq<A>, ys: Seq<A>", "Seq<A>", ens="r =~= xs.reverse().add(ys)", dec="xs.len()"),
    F("rev", "A", "xs: Seq<A>", "Seq<A>", ens="r =~= xs.reverse()"),
    F("revAppend", "A", "(xs: Seq<A>, ys: Seq<A>)", "Seq<A>", ens="r =~= xs.reverse().add(ys)"),
    F("append", "A", "xs: Seq<A>, ys: Seq<A>", "Seq<A>", ens="r =~= xs.add(ys)", dec="xs.len()"),
    F("@", "A", "(xs: Seq<A>, ys: Seq<A>)", "Seq<A>", ens="r =~= xs.add(ys)"),
    F("concat", "A", "xss: Seq<Seq<A>>", "Seq<A>", ens="r =~= xss.flatten()", dec="xss.len()"),
    F("app", "A,W", FN % "()" + ", xs: Seq<A>", "()", raises=True, inout=W, ens="(r, w_) == app_s(f, xs, w)", dec="xs.len()"),
    F("map", "A,B,W", FN % "B" + ", xs: Seq<A>", "Seq<B>", raises=True, inout=W,
      ens=["(r, w_) == map_s(f, xs, w)", "r is Ok ==> r->Ok_0.len() == xs.len()"], dec="xs.len()"),
    F("mapPartial", "A,B,W", FN % "Option<B>" + ", xs: Seq<A>", "Seq<B>", raises=True, inout=W, ens="(r, w_) == mapPartial_s(f, xs, w)", dec="xs.len()"),
    F("find", "A,W", FN % "bool" + ", xs: Seq<A>", "Option<A>", raises=True, inout=W, ens="(r, w_) == find_s(f, xs, w)", dec="xs.len()"),
    F("filter", "A,W", FN % "bool" + ", xs: Seq<A>", "Seq<A>", raises=True, inout=W,
      ens=["w_ == part_s(f, xs, w).1", "match part_s(f, xs, w).0 { Res::Ok(ab) => r == Res::Ok(ab.0), Res::Exn(e) => r == Res::<Seq<A>>::Exn(e) }"], dec="xs.len()"),
    F("partition", "A,W", FN % "bool" + ", xs: Seq<A>", "(Seq<A>, Seq<A>)", raises=True, inout=W,
      ens=["w_ == part_s(f, xs, w).1", "match part_s(f, xs, w).0 { Res::Ok(ab) => r is Ok && r->Ok_0.0 =~= ab.0 && r->Ok_0.1 =~= ab.1, Res::Exn(e) => r == Res::<(Seq<A>, Seq<A>)>::Exn(e) }"]),
    F("partition.h", "A,W", "xs: Seq<A>, a: Seq<A>, b: Seq<A>", "(Seq<A>, Seq<A>)", raises=True, cap="p: spec_fn(W, A) -> (Res<bool>, W)", inout=W,
      ens=["w_ == part_s(p, xs, w).1", "match part_s(p, xs, w).0 { Res::Ok(ab) => r is Ok && r->Ok_0.0 =~= a.reverse().add(ab.0) && r->Ok_0.1 =~= b.reverse().add(ab.1), Res::Exn(e) => r == Res::<(Seq<A>, Seq<A>)>::Exn(e) }"], dec="xs.len()"),
    F("foldr", "A,B,W", "f: spec_fn(W, (A, B)) -> (Res<B>, W), e: B, xs: Seq<A>", "B", raises=True, inout=W, ens="(r, w_) == foldr_s(f, e, xs, w)", dec="xs.len()"),
    F("foldl", "A,B,W", "f: spec_fn(W, (A, B)) -> (Res<B>, W), e: B, xs: Seq<A>", "B", raises=True, inout=W, ens="(r, w_) == foldl_s(f, e, xs, w)", dec="xs.len()"),
    F("exists", "A,W", FN % "bool" + ", xs: Seq<A>", "bool", raises=True, inout=W, ens="(r, w_) == exists_s(f, xs, w)", dec="xs.len()"),
    F("all", "A,W", FN % "bool" + ", xs: Seq<A>", "bool", raises=True, inout=W, ens="(r, w_) == all_s(f, xs, w)", dec="xs.len()"),
    F("collate", "A,W", "cmp: spec_fn(W, (A, A)) -> (Res<Order>, W), (xs: Seq<A>, ys: Seq<A>)", "Order", raises=True, inout=W, ens="(r, w_) == collate_s(cmp, xs, ys, w)"),
    F("collate.h", "A,W", "xs: Seq<A>, ys: Seq<A>", "Order", raises=True, cap="cmp: spec_fn(W, (A, A)) -> (Res<Order>, W)", inout=W, ens="(r, w_) == collate_s(cmp, xs, ys, w)", dec="xs.len()"),
    F("tabulate", "A,W", "(n: int, f: spec_fn(W, int) -> (Res<A>, W))", "Seq<A>", raises=True, inout=W,
      ens=["n < 0 ==> r == Res::<Seq<A>>::Exn(Exn::Size) && w_ == w", "n >= 0 ==> (r, w_) == tab_s(f, 0, n, w)"]),
    F("tabulate.h", "A,W", "i: int", "Seq<A>", raises=True, cap="n: int, f: spec_fn(W, int) -> (Res<A>, W)", inout=W, ens="(r, w_) == tab_s(f, i, n, w)", dec="n - i"),
    F("getItem", "A", "xs: Seq<A>", "Option<(A, Seq<A>)>", ens=["xs.len() == 0 ==> r is None", "xs.len() > 0 ==> r == Some((xs[0], xs.drop_first()))"]),
]
