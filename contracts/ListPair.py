"""Contracts on mosmllib/ListPair.sml"""
from smlv.trans import Contract as F

NAME = "ListPair"
W = "w: W"
FP = "f: spec_fn(W, (A, B)) -> (Res<%s>, W)"
F3 = "f: spec_fn(W, (A, B, C)) -> (Res<C>, W)"

# eq selects the variant that demands lists of equal length
SPEC = r"""
pub open spec fn zip_s<A, B>(xs: Seq<A>, ys: Seq<B>) -> Seq<(A, B)> { Seq::new(if xs.len() <= ys.len() { xs.len() } else { ys.len() }, |i: int| (xs[i], ys[i])) }
pub open spec fn map_s<A, B, C, W>(eq: bool, f: spec_fn(W, (A, B)) -> (Res<C>, W), xs: Seq<A>, ys: Seq<B>, w: W) -> (Res<Seq<C>>, W) decreases xs.len() {
    if xs.len() > 0 && ys.len() > 0 {
        let (r, w1) = f(w, (xs[0], ys[0]));
        match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(y) => {
            let (rs, w2) = map_s(eq, f, xs.drop_first(), ys.drop_first(), w1);
            match rs { Res::Exn(e) => (Res::Exn(e), w2), Res::Ok(zs) => (Res::Ok(seq![y].add(zs)), w2) } } }
    } else if eq && xs.len() != ys.len() { (Res::Exn(Exn::UnequalLengths), w) } else { (Res::Ok(Seq::empty()), w) }
}
pub open spec fn app_s<A, B, W>(eq: bool, f: spec_fn(W, (A, B)) -> (Res<()>, W), xs: Seq<A>, ys: Seq<B>, w: W) -> (Res<()>, W) decreases xs.len() {
    if xs.len() > 0 && ys.len() > 0 {
        let (r, w1) = f(w, (xs[0], ys[0]));
        if r is Exn { (r, w1) } else { app_s(eq, f, xs.drop_first(), ys.drop_first(), w1) }
    } else if eq && xs.len() != ys.len() { (Res::Exn(Exn::UnequalLengths), w) } else { (Res::Ok(()), w) }
}
// stop: the answer of p that ends the search; last: the answer at the end of both lists, or of the shorter one; uneq: the answer there for unequal lengths
pub open spec fn quant_s<A, B, W>(stop: bool, last: bool, uneq: bool, f: spec_fn(W, (A, B)) -> (Res<bool>, W), xs: Seq<A>, ys: Seq<B>, w: W) -> (Res<bool>, W) decreases xs.len() {
    if xs.len() > 0 && ys.len() > 0 {
        let (r, w1) = f(w, (xs[0], ys[0]));
        match r { Res::Exn(e) => (Res::Exn(e), w1), Res::Ok(b) => if b == stop { (Res::Ok(b), w1) } else { quant_s(stop, last, uneq, f, xs.drop_first(), ys.drop_first(), w1) } }
    } else if xs.len() != ys.len() { (Res::Ok(uneq), w) } else { (Res::Ok(last), w) }
}
pub open spec fn foldl_s<A, B, C, W>(eq: bool, f: spec_fn(W, (A, B, C)) -> (Res<C>, W), e: C, xs: Seq<A>, ys: Seq<B>, w: W) -> (Res<C>, W) decreases xs.len() {
    if xs.len() > 0 && ys.len() > 0 {
        let (r, w1) = f(w, (xs[0], ys[0], e));
        match r { Res::Exn(x) => (Res::Exn(x), w1), Res::Ok(v) => foldl_s(eq, f, v, xs.drop_first(), ys.drop_first(), w1) }
    } else if eq && xs.len() != ys.len() { (Res::Exn(Exn::UnequalLengths), w) } else { (Res::Ok(e), w) }
}
pub open spec fn foldr_s<A, B, C, W>(eq: bool, f: spec_fn(W, (A, B, C)) -> (Res<C>, W), e: C, xs: Seq<A>, ys: Seq<B>, w: W) -> (Res<C>, W) decreases xs.len() {
    if xs.len() > 0 && ys.len() > 0 {
        let (r, w1) = foldr_s(eq, f, e, xs.drop_first(), ys.drop_first(), w);
        match r { Res::Exn(x) => (Res::Exn(x), w1), Res::Ok(v) => f(w1, (xs[0], ys[0], v)) }
    } else if eq && xs.len() != ys.len() { (Res::Exn(Exn::UnequalLengths), w) } else { (Res::Ok(e), w) }
}
"""


def family(suf, eq):
    XY = "(xs: Seq<A>, ys: Seq<B>)"
    if eq:
        zens = ["xs.len() == ys.len() ==> r is Ok && r->Ok_0 =~= %szip_s(xs, ys)%s", "xs.len() != ys.len() ==> r == Res::<Seq<(A, B)>>::Exn(Exn::UnequalLengths)"]
    else:
        zens = ["r =~= %szip_s(xs, ys)%s"]
    out = [
        F("zip" + suf, "A,B", XY, "Seq<(A, B)>", raises=eq, ens=[e % ("", "") if "%s" in e else e for e in zens]),
        F("zip" + suf + ".h", "A,B", "xs: Seq<A>, ys: Seq<B>, res: Seq<(A, B)>", "Seq<(A, B)>", raises=eq, dec="xs.len()",
          ens=[e % ("res.reverse().add(", ")") if "%s" in e else e for e in zens]),
        F("map" + suf, "A,B,C,W", FP % "C" + ", " + XY, "Seq<C>", raises=True, inout=W,
          ens=["w_ == map_s(%s, f, xs, ys, w).1" % eq, "match map_s(%s, f, xs, ys, w).0 { Res::Ok(zs) => r is Ok && r->Ok_0 =~= zs, Res::Exn(e) => r == Res::<Seq<C>>::Exn(e) }" % eq]),
        F("map" + suf + ".h", "A,B,C,W", "xs: Seq<A>, ys: Seq<B>, res: Seq<C>", "Seq<C>", raises=True, inout=W, cap=FP % "C", dec="xs.len()",
          ens=["w_ == map_s(%s, f, xs, ys, w).1" % eq,
               "match map_s(%s, f, xs, ys, w).0 { Res::Ok(zs) => r is Ok && r->Ok_0 =~= res.reverse().add(zs), Res::Exn(e) => r == Res::<Seq<C>>::Exn(e) }" % eq]),
        F("app" + suf, "A,B,W", FP % "()" + ", " + XY, "()", raises=True, inout=W, ens="(r, w_) == app_s(%s, f, xs, ys, w)" % eq),
        F("app" + suf + ".h", "A,B,W", "xs: Seq<A>, ys: Seq<B>", "()", raises=True, inout=W, cap=FP % "()", dec="xs.len()",
          ens="(r, w_) == app_s(%s, f, xs, ys, w)" % eq),
    ]
    for nm in ("foldr", "foldl"):
        e = "%s_s(%s, f, e, xs, ys, w)" % (nm, eq)
        out.append(F(nm + suf, "A,B,C,W", F3 + ", e: C, " + XY, "C", raises=True, inout=W, ens="(r, w_) == " + e))
        if nm == "foldr":
            out.append(F(nm + suf + ".h", "A,B,C,W", "xs: Seq<A>, ys: Seq<B>", "C", raises=True, inout=W, cap=F3 + ", e: C", dec="xs.len()", ens="(r, w_) == " + e))
        else:
            out.append(F(nm + suf + ".h", "A,B,C,W", "e: C, xs: Seq<A>, ys: Seq<B>", "C", raises=True, inout=W, cap=F3, dec="xs.len()", ens="(r, w_) == " + e))
    qs = [("allEq", "false, true, false")] if eq else [("all", "false, true, true"), ("exists", "true, false, false")]
    for nm, q in qs:
        P = (FP % "bool").replace("f:", "p:")
        out.append(F(nm, "A,B,W", P + ", " + XY, "bool", raises=True, inout=W, ens="(r, w_) == quant_s(%s, p, xs, ys, w)" % q))
        out.append(F(nm + ".h", "A,B,W", "xs: Seq<A>, ys: Seq<B>", "bool", raises=True, inout=W, cap=P, dec="xs.len()", ens="(r, w_) == quant_s(%s, p, xs, ys, w)" % q))
    return [c for c in out]


for_eq = {True: "true", False: "false"}


def fix(cs):
    for c in cs:
        c.ens = [e.replace("(True,", "(true,").replace("(False,", "(false,") for e in c.ens]
    return cs


CONTRACTS = fix(family("", False)) + [
    F("unzip", "A,B", "xys: Seq<(A, B)>", "(Seq<A>, Seq<B>)",
      ens=["r.0 =~= xys.map_values(|p: (A, B)| p.0)", "r.1 =~= xys.map_values(|p: (A, B)| p.1)"]),
    F("unzip.h", "A,B", "(xys: Seq<(A, B)>, xs: Seq<A>, ys: Seq<B>)", "(Seq<A>, Seq<B>)", dec="xys.len()",
      ens=["r.0 =~= xs.reverse().add(xys.map_values(|p: (A, B)| p.0))", "r.1 =~= ys.reverse().add(xys.map_values(|p: (A, B)| p.1))"]),
] + fix(family("Eq", True))
