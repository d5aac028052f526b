"""Meaning of the initial basis, of other library units (by their contracts) and of C primitives in the translation."""
from .trans import IR, Attach, Builtin, Con, Lam, Mut, Tup, ret, bind, Part, FunRef, Inline, Comp

MAXINT = "4611686018427387903int"
MININT = "(-4611686018427387904int)"


def arith(op, fmt):
    def f(m, ts, k):
        a, b = m.pair(ts[0])
        return ovf(m, fmt % (m.s(a), m.s(b)))
    return f


def ovf(m, t, k=ret):
    ints = m.cur.ints if m.cur else "math"
    if ints == "math":
        return ret(t)
    x = m.fresh("n")
    ok = "(%s <= %s && %s <= %s)" % (MININT, x, x, MAXINT)
    if ints == "assert":
        return IR("lets", [(x, t)], IR("assert", ok, ret(x)))
    return IR("lets", [(x, t)], IR("if", ok, ret(x), IR("raise", "Exn::Overflow")))


def pure2(fmt):
    def f(m, ts, k):
        a, b = m.pair(ts[0])
        return ret(fmt % (m.s(a), m.s(b)))
    return f


def pure1(fmt):
    def f(m, ts, k):
        return ret(fmt % m.s(ts[0]))
    return f


def eq(neg):
    def f(m, ts, k):
        a, b = m.pair(ts[0])
        if isinstance(a, Tup) and isinstance(b, Tup):
            t = "(" + " && ".join("%s == %s" % (m.s(x), m.s(y)) for x, y in zip(a.xs, b.xs)) + ")"
        else:
            t = "(%s == %s)" % (m.s(a), m.s(b))
        return ret("!" + t if neg else t)
    return f


def divmod_(fmt):
    def f(m, ts, k):
        a, b = m.pair(ts[0])
        b = m.s(b)
        import re
        if re.match(r"^\d+int$", b) and b != "0int":
            return ret("(%s %s %s)" % (m.s(a), "/" if fmt == "sml_div" else "%", b))
        return IR("if", "%s == 0" % b, IR("raise", "Exn::Div"), ret("%s(%s, %s)" % (fmt, m.s(a), b)))
    return f


def guarded(fmt, *conds):
    """pure term with raising conditions: (condition format, exception)"""
    def f(m, ts, k):
        s = [m.s(t) for t in ts]
        r = ret(fmt.format(*s))
        for c, x in reversed(conds):
            r = IR("if", c.format(*s), IR("raise", "Exn::" + x), r)
        return r
    return f


def guarded2(fmt, *conds):
    def f(m, ts, k):
        s = [m.s(t) for t in m.pair(ts[0])]
        r = ret(fmt.format(*s))
        for c, x in reversed(conds):
            r = IR("if", c.format(*s), IR("raise", "Exn::" + x), r)
        return r
    return f


def guarded3(fmt, *conds):
    def f(m, ts, k):
        t = ts[0]
        xs = t.xs if isinstance(t, Tup) else ["%s.%d" % (m.s(t), i) for i in range(3)]
        s = [m.s(t) for t in xs]
        r = ret(fmt.format(*s))
        for c, x in reversed(conds):
            r = IR("if", c.format(*s), IR("raise", "Exn::" + x), r)
        return r
    return f


def deref(m, ts, k):
    t = ts[0]
    if isinstance(t, Mut):
        return ret(t) if getattr(t, "arr", False) else ret(t.name)
    raise Attach("dereference")


def assign(m, ts, k):
    a, b = m.pair(ts[0])
    if isinstance(a, Mut):
        return IR("bind", m.fresh("u"), IR("set", a.name, b), ret(Tup([])))
    raise Attach("assignment")


def before(m, ts, k):
    a, b = m.pair(ts[0])
    return ret(a)


def compose(m, ts, k):
    f, g = m.pair(ts[0])
    return ret(Comp(f, g))


def builtins(m):
    B = lambda fn, n, name: Builtin(fn, n, name)
    d = {}

    def add(names, fn, n=1):
        for x in names.split():
            d[x] = B(fn, n, x)
    add("+ Int.+ op+", arith("+", "(%s + %s)"))
    add("- Int.-", arith("-", "(%s - %s)"))
    add("* Int.*", arith("*", "(%s * %s)"))
    add("div Int.div", divmod_("sml_div"))
    add("mod Int.mod", divmod_("sml_mod"))
    add("< Int.< Char.<", pure2("(%s < %s)"))
    add("<= Int.<= Char.<=", pure2("(%s <= %s)"))
    add("> Int.> Char.>", pure2("(%s > %s)"))
    add(">= Int.>= Char.>=", pure2("(%s >= %s)"))
    add("= ", eq(False))
    add("<>", eq(True))
    add("not Bool.not", pure1("!(%s)"))
    add("~ Int.~", lambda m, ts, k: ovf(m, "(-%s)" % m.s(ts[0])))
    add("abs Int.abs", lambda m, ts, k: ovf(m, "sml_abs(%s)" % m.s(ts[0])))
    add("Int.min", pure2("sml_min(%s, %s)"))
    add("Int.max", pure2("sml_max(%s, %s)"))
    add("Int.compare", pure2("int_cmp(%s, %s)"))
    add("Char.compare", pure2("int_cmp(%s, %s)"))
    add("ignore", lambda m, ts, k: ret(Tup([])))
    add("before", before)
    add("o", compose)
    add("! General.!", deref)
    add(":= General.:=", assign)
    add("ref", pure1("%s"))
    # lists
    add("@ List.@", pure2("%s.add(%s)"))
    add("length List.length", pure1("(%s.len() as int)"))
    add("rev List.rev", pure1("%s.reverse()"))
    add("null List.null", pure1("(%s.len() == 0)"))
    add("hd List.hd", guarded("{0}[0]", ("{0}.len() == 0", "Empty")))
    add("tl List.tl", guarded("{0}.drop_first()", ("{0}.len() == 0", "Empty")))
    add("List.revAppend", pure2("%s.reverse().add(%s)"))
    add("List.concat", pure1("%s.flatten()"))
    # options
    add("valOf Option.valOf", guarded("{0}->Some_0", ("({0} is None)", "Option")))
    add("isSome Option.isSome", pure1("(%s is Some)"))
    add("getOpt Option.getOpt", guarded2("(if ({0} is Some) {{ {0}->Some_0 }} else {{ {1} }})"))
    # strings and characters
    add("size String.size", pure1("(%s.len() as int)"))
    add("ord Char.ord", pure1("%s"))
    add("chr Char.chr", guarded("{0}", ("({0} < 0 || {0} > 255)", "Chr")))
    add("str String.str", pure1("seq![%s]"))
    add("^ String.^", pure2("%s.add(%s)"))
    add("explode String.explode", pure1("%s"))
    add("implode String.implode", pure1("%s"))
    add("String.sub CharVector.sub", guarded2("{0}[{1}]", ("({1} < 0 || {1} >= {0}.len())", "Subscript")))
    add("String.substring substring", guarded3("{0}.subrange({1}, {1} + {2})", ("!(0 <= {1} && 0 <= {2} && {1} + {2} <= {0}.len())", "Subscript")))
    add("Vector.length Vector.Vector.length Array.length Word8Vector.length CharVector.length Word8Array.length CharArray.length", pure1("(%s.len() as int)"))
    add("Vector.sub", guarded2("{0}[{1}]", ("({1} < 0 || {1} >= {0}.len())", "Subscript")))
    add("Array.sub Word8Array.sub", guarded2("{0}[{1}]", ("({1} < 0 || {1} >= {0}.len())", "Subscript")))
    add("Array.update Word8Array.update", arr_update)
    add("Array.array Word8Array.array", arr_new)
    add("Vector.fromList", pure1("%s"))
    d["Vector.maxLen"] = d["Array.maxLen"] = Builtin(lambda m, ts, k: k("maxlen()"), 0, "maxLen")
    for x in ("Word8Vector.maxLen", "Word8Array.maxLen", "CharVector.maxLen", "CharArray.maxLen", "String.maxSize"):
        d[x] = Builtin(lambda m, ts, k: k("maxbytes()"), 0, "maxLen")
    return d


def arr_update(m, ts, k):
    a, i, v = ts[0].xs
    if not isinstance(a, Mut):
        raise Attach("update of a value that is not a mutable variable")
    i = m.s(i)
    return IR("if", "0 <= %s && %s < %s.len()" % (i, i, a.name), IR("bind", m.fresh("u"), IR("set", a.name, "%s.update(%s, %s)" % (a.name, i, m.s(v))), ret(Tup([]))),
              IR("raise", "Exn::Subscript"))


def arr_new(m, ts, k):
    n, v = m.pair(ts[0])
    return IR("if", "(%s < 0 || %s > maxlen())" % (m.s(n), m.s(n)), IR("raise", "Exn::Size"), ret("Seq::new(%s as nat, |i_: int| %s)" % (m.s(n), m.s(v))))


# ---- primitives: memory safety is an obligation at each use
def p_get(m, ts, k):
    v, i = m.s(ts[0]), m.s(ts[1])
    x = m.fresh("e")
    return IR("assert", "0 <= %s && %s < %s.len()" % (i, i, v), ret("%s[%s]" % (v, i)) if not isinstance(ts[0], Mut) else IR("lets", [(x, "%s[%s]" % (v, i))], ret(x)))


def p_set(m, ts, k):
    v, i, x = ts
    if not isinstance(v, Mut):
        raise Attach("primitive update of a value that is not a mutable variable")
    i = m.s(i)
    return IR("assert", "0 <= %s && %s < %s.len()" % (i, i, v.name), IR("bind", m.fresh("u"), IR("set", v.name, "%s.update(%s, %s)" % (v.name, i, m.s(x))), ret(Tup([]))))


def p_len(m, ts, k):
    return ret("(%s.len() as int)" % m.s(ts[0]))


def p_make(m, ts, k):
    n = m.s(ts[0])
    x = ts[1] if len(ts) > 1 else None
    c = "0 <= %s && %s <= maxlen()" % (n, n)
    if x is None:
        return IR("assert", "0 <= %s && %s <= maxbytes()" % (n, n), IR("call", "fresh_seq(%s)" % n, (), (False, ())))
    if isinstance(x, Tup) and not x.xs:
        return IR("assert", c, IR("call", "fresh_seq(%s)" % n, (), (False, ())))
    return IR("assert", c, ret("Seq::new(%s as nat, |i_: int| %s)" % (n, m.s(x))))


def p_blit(m, ts, k):
    s, i, d, j, n = ts
    if not isinstance(d, Mut):
        raise Attach("blit into a value that is not a mutable variable")
    si, sj, sn = m.s(i), m.s(j), m.s(n)
    ok = "0 <= %s && 0 <= %s && 0 <= %s && %s + %s <= %s.len() && %s + %s <= %s.len()" % (si, sj, sn, si, sn, m.s(s), sj, sn, d.name)
    return IR("assert", ok, IR("bind", m.fresh("u"), IR("set", d.name, "blit(%s, %s, %s, %s, %s)" % (m.s(s), si, d.name, sj, sn)), ret(Tup([]))))


def p_fill(m, ts, k):
    d, j, n, x = ts
    if not isinstance(d, Mut):
        raise Attach("fill")
    sj, sn = m.s(j), m.s(n)
    ok = "0 <= %s && 0 <= %s && %s + %s <= %s.len()" % (sj, sn, sj, sn, d.name)
    return IR("assert", ok, IR("bind", m.fresh("u"), IR("set", d.name, "fill(%s, %s, %s, %s)" % (d.name, sj, sn, m.s(x))), ret(Tup([]))))


def p_ident(m, ts, k):
    return ret(ts[0])


def p_str_of_seq(m, ts, k):
    return ret(m.s(ts[0]))


PRIMS = {"get_vect_item": p_get, "set_vect_item": p_set, "vect_length": p_len, "make_vect": p_make, "get_nth_char": p_get, "set_nth_char": p_set,
         "string_length": p_len, "create_string": p_make, "blit_string": p_blit, "fill_string": p_fill, "identity": p_ident,
         "make_ref_vect": p_make, "static_alloc": p_make}
ALLOC = {"make_vect", "make_ref_vect", "create_string", "Array.array", "Word8Array.array", "ref", "static_alloc"}

PRELUDE = r"""
use vstd::prelude::*;
use vstd::seq_lib::*;
use vstd::multiset::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {

pub enum Order { LESS, EQUAL, GREATER }
pub enum Exn { %(exns)s }
pub enum Res<T> { Ok(T), Exn(Exn) }

pub open spec fn int_cmp(a: int, b: int) -> Order { if a < b { Order::LESS } else if a > b { Order::GREATER } else { Order::EQUAL } }
pub open spec fn sml_abs(a: int) -> int { if a < 0 { -a } else { a } }
pub open spec fn sml_min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn sml_max(a: int, b: int) -> int { if a > b { a } else { b } }
// floor division and modulus (Verus' / and %% are Euclidean)
pub open spec fn sml_div(a: int, b: int) -> int { if b > 0 { a / b } else { (-a) / (-b) } }
pub open spec fn sml_mod(a: int, b: int) -> int { if b > 0 { a %% b } else { -((-a) %% (-b)) } }
pub open spec fn maxlen() -> int { 18014398509481983 }
pub open spec fn maxbytes() -> int { 144115188075855863 }
pub open spec fn maxint() -> int { 4611686018427387903 }
pub open spec fn minint() -> int { -4611686018427387904 }
// a fresh object of the given length with unspecified contents
pub uninterp spec fn fresh_contents<A>(n: int) -> Seq<A>;
#[verifier::external_body]
pub proof fn fresh_seq<A>(n: int) -> (s: Seq<A>) ensures s.len() == n { unimplemented!() }
pub open spec fn blit<A>(s: Seq<A>, i: int, d: Seq<A>, j: int, n: int) -> Seq<A> {
    Seq::new(d.len(), |k: int| if j <= k < j + n { s[i + k - j] } else { d[k] })
}
pub open spec fn fill<A>(d: Seq<A>, j: int, n: int, x: A) -> Seq<A> {
    Seq::new(d.len(), |k: int| if j <= k < j + n { x } else { d[k] })
}

"""
