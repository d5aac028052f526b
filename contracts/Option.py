"""Contracts on mosmllib/Option.sml"""
from smlv.trans import Contract as F

NAME = "Option"
W = "w: W"
SPEC = ""
FN = "f: spec_fn(W, A) -> (Res<%s>, W)"
CONTRACTS = [
    F("getOpt", "A", "(o: Option<A>, d: A)", "A", ens="r == (match o { Some(v) => v, None => d })"),
    F("isSome", "A", "o: Option<A>", "bool", ens="r <==> o is Some"),
    F("valOf", "A", "o: Option<A>", "A", raises=True, ens="r == (match o { Some(v) => Res::Ok(v), None => Res::<A>::Exn(Exn::OptionExn) })"),
    F("filter", "A,W", FN % "bool" + ", x: A", "Option<A>", raises=True, inout=W,
      ens=["w_ == f(w, x).1", "r == (match f(w, x).0 { Res::Ok(b) => Res::Ok(if b { Some(x) } else { None }), Res::Exn(e) => Res::Exn(e) })"]),
    F("map", "A,B,W", FN % "B" + ", o: Option<A>", "Option<B>", raises=True, inout=W,
      ens=["o is None ==> w_ == w && r == Res::Ok(None::<B>)",
           "o is Some ==> w_ == f(w, o->Some_0).1 && r == (match f(w, o->Some_0).0 { Res::Ok(y) => Res::Ok(Some(y)), Res::Exn(e) => Res::Exn(e) })"]),
    F("app", "A,W", FN % "()" + ", o: Option<A>", "()", raises=True, inout=W,
      ens=["o is None ==> w_ == w && r == Res::Ok(())", "o is Some ==> (r, w_) == f(w, o->Some_0)"]),
    F("join", "A", "o: Option<Option<A>>", "Option<A>", ens="r == (match o { Some(x) => x, None => None })"),
    F("mapPartial", "A,B,W", FN % "Option<B>" + ", o: Option<A>", "Option<B>", raises=True, inout=W,
      ens=["o is None ==> w_ == w && r == Res::Ok(None::<B>)", "o is Some ==> (r, w_) == f(w, o->Some_0)"]),
    F("compose", "A,B,C,W", "(f: spec_fn(W, B) -> (Res<C>, W), g: spec_fn(W, A) -> (Res<Option<B>>, W)), x: A", "Option<C>", raises=True, inout=W,
      ens=["g(w, x).0 is Exn ==> w_ == g(w, x).1 && r == Res::<Option<C>>::Exn(g(w, x).0->Exn_0)",
           "g(w, x).0 is Ok && g(w, x).0->Ok_0 is None ==> w_ == g(w, x).1 && r == Res::Ok(None::<C>)",
           "g(w, x).0 is Ok && g(w, x).0->Ok_0 is Some ==> w_ == f(g(w, x).1, g(w, x).0->Ok_0->Some_0).1 && r == (match f(g(w, x).1, g(w, x).0->Ok_0->Some_0).0 { Res::Ok(y) => Res::Ok(Some(y)), Res::Exn(e) => Res::Exn(e) })"]),
    F("composePartial", "A,B,C,W", "(f: spec_fn(W, B) -> (Res<Option<C>>, W), g: spec_fn(W, A) -> (Res<Option<B>>, W)), x: A", "Option<C>", raises=True, inout=W,
      ens=["g(w, x).0 is Exn ==> w_ == g(w, x).1 && r == Res::<Option<C>>::Exn(g(w, x).0->Exn_0)",
           "g(w, x).0 is Ok && g(w, x).0->Ok_0 is None ==> w_ == g(w, x).1 && r == Res::Ok(None::<C>)",
           "g(w, x).0 is Ok && g(w, x).0->Ok_0 is Some ==> (r, w_) == f(g(w, x).1, g(w, x).0->Ok_0->Some_0)"]),
]
