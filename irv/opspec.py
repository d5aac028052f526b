"""Contracts of the bytecode instructions: for every instruction, the machine state after it as a function of the state
before it.  The same functions are used by the verifier (symbolic state) and by the conformance/replay runs on the real
runtime (concrete state)."""
import z3

from .mem import bv

SPEC = {}       # name -> fn(S) -> [(cond, kind, M)]      kind: "next" | "stop" | exception index name
PRE = {}        # name -> fn(S) -> [formulas]   additional precondition
GROUP = {}      # name -> group
GEN = {}        # name -> generator hints for concrete states


def op(names, group, pre=None, gen=None):
    def deco(f):
        for n in (names.split() if isinstance(names, str) else names):
            SPEC[n] = (lambda S, n=n: f(S, n)) if f.__code__.co_argcount == 2 else f
            PRE[n] = pre
            GROUP[n] = group
            GEN[n] = gen or {}
        return f
    return deco


T = z3.BoolVal(True)
LOOP = {}       # name -> fn(S, m at the entry of the loop) -> [(address, count, value at a byte offset, traced)] candidates
MAX_YOUNG = 256


def val_long(x):
    return (x << 1) + 1


def long_val(x):
    return x >> 1


def val_int32(x):
    """Val_int of a C int"""
    return (z3.SignExt(32, x) << 1) + 1


def extra_val(x):
    return val_int32(x)


def low32(x):
    return z3.Extract(31, 0, x)


def isint(x):
    return z3.Extract(0, 0, x) == 1


def isblk(x):
    return z3.Extract(0, 0, x) == 0


def sx(x, n=128):
    return z3.SignExt(n - x.size(), x)


MINI, MAXI = -(1 << 62), (1 << 62) - 1


def fits(r):
    return z3.And(r >= MINI, r <= MAXI)


# ---------------------------------------------------------------- stack access
def nxt(m):
    return [(T, "next", m)]


@op("SWAP", "stack")
def _(S):
    m = S.m()
    m.accu, x = m.get(0), m.accu
    m.set(0, x)
    return nxt(m)


@op("PUSH PUSHACC0", "stack")
def _(S):
    m = S.m()
    m.push(m.accu)
    return nxt(m)


def _acc(i, push):
    def f(S):
        m = S.m()
        if push:
            m.push(m.accu)
        m.accu = m.get(i)
        return nxt(m)
    return f


for _i in range(8):
    op("ACC%d" % _i, "stack")(_acc(_i, False))
    if _i:
        op("PUSHACC%d" % _i, "stack")(_acc(_i, True))

IDX = {"operands": ["idx"]}


@op("ACCESS PUSHACC", "stack", gen=IDX)
def _(S, n):
    m = S.m()
    if n == "PUSHACC":
        m.push(m.accu)
    k = m.opnd()
    m.accu = m.get(k)
    return nxt(m)


@op("POP", "stack", gen=IDX)
def _(S):
    m = S.m()
    m.sp = m.sp + 8 * m.opnd()
    return nxt(m)


@op("ASSIGN", "stack", gen=IDX)
def _(S):
    m = S.m()
    m.set(m.opnd(), m.accu)
    m.accu = S.unit
    return nxt(m)


for _i in range(1, 8):
    def _mk(i):
        def f(S, n):
            m = S.m()
            if n.startswith("PUSH"):
                m.push(m.accu)
            m.accu = m.field(m.env, i)
            return nxt(m)
        return f
    op("ENV%d PUSHENV%d" % (_i, _i), "env", pre=lambda S: [S.heapobj(S.env)])(_mk(_i))


@op("ENVACC PUSHENVACC", "env", pre=lambda S: [S.heapobj(S.env)], gen=IDX)
def _(S, n):
    m = S.m()
    if n.startswith("PUSH"):
        m.push(m.accu)
    m.accu = m.field(m.env, m.opnd())
    return nxt(m)


# ---------------------------------------------------------------- application
def apply(S, m):
    """enter the closure in accu, with stack growth and pending signals handled"""
    m.pc = m.field(m.accu, 0)
    m.env = m.accu
    return S.poll_growth(m)


def frame(m, args, ret, extra_now):
    """args above a return frame (ret, env, extra)"""
    m.push(extra_val(m.extra))
    m.push(m.env)
    m.push(ret)
    for a in reversed(args):
        m.push(a)
    m.extra = bv(extra_now, 32)


def _push_apply(n, src):
    def f(S):
        m = S.m()
        args = [m.accu] + [m.get(i) for i in range(n - 1)]
        m.pop(n - 1)
        if src == "env":
            c = m.field(m.env, 1)
        else:
            c = S.globfield(m, m.opnd())
        frame(m, args, m.pc, n - 1)
        m.accu = c
        return apply(S, m)
    return f


def closure(S, v):
    """v is a closure: a heap block whose first field points into the code"""
    return [S.heapobj(v), S.codeptr(S.m().field(v, 0))]


def _pre_env1(S):
    return [S.heapobj(S.env)] + closure(S, S.m().field(S.env, 1))


def _pre_glob(k):
    return lambda S: closure(S, S.globfield(S.m(), S.opnd(k)))


def _pre_accu(S):
    return [S.heapobj(S.accu)]


def _pre_clos(S):
    return closure(S, S.accu)


for _i in range(1, 5):
    op("PUSH_ENV1_APPLY%d" % _i, "apply", pre=_pre_env1)(_push_apply(_i, "env"))
    op("PUSH_GETGLOBAL_APPLY%d" % _i, "apply", pre=_pre_glob(0), gen={"operands": ["glob"]})(_push_apply(_i, "glob"))


def _push_appterm(n, src):
    def f(S):
        m = S.m()
        args = [m.accu] + [m.get(i) for i in range(n - 1)]
        k = m.opnd()
        # the frame of k slots (counting the pushed argument) is replaced by the n arguments
        m.sp = m.sp - 8 + 8 * k
        for a in reversed(args):
            m.push(a)
        m.accu = m.field(m.env, 1) if src == "env" else S.globfield(m, m.opnd())
        m.extra = m.extra + (n - 1)
        m.pc = m.field(m.accu, 0)
        m.env = m.accu
        return S.poll(m)
    return f


for _i in range(1, 5):
    op("PUSH_ENV1_APPTERM%d" % _i, "apply",
       pre=lambda S, i=_i: _pre_env1(S) + [z3.UGE(S.opnd(0), bv(i))], gen={"operands": ["frame"]})(_push_appterm(_i, "env"))
    op("PUSH_GETGLOBAL_APPTERM%d" % _i, "apply",
       pre=lambda S, i=_i: _pre_glob(1)(S) + [z3.UGE(S.opnd(0), bv(i))], gen={"operands": ["frame", "glob"]})(_push_appterm(_i, "glob"))


@op("PUSH_RETADDR", "apply", gen={"operands": ["label"]})
def _(S):
    m = S.m()
    lab = m.opnd()
    m.push(extra_val(m.extra))
    m.push(m.env)
    m.push(lab)
    return nxt(m)


@op("APPLY", "apply", pre=lambda S: _pre_clos(S) + [z3.UGE(S.opnd(0), bv(1)), z3.ULE(S.opnd(0), bv(255))], gen={"operands": ["n"]})
def _(S):
    m = S.m()
    m.extra = low32(m.opnd() - 1)
    return apply(S, m)


for _i in range(1, 5):
    def _mk(n):
        def f(S):
            m = S.m()
            args = [m.get(i) for i in range(n)]
            m.pop(n)
            frame(m, args, m.pc, n - 1)
            return apply(S, m)
        return f
    op("APPLY%d" % _i, "apply", pre=_pre_clos)(_mk(_i))

    def _mk2(n):
        def f(S):
            m = S.m()
            args = [m.get(i) for i in range(n)]
            k = m.opnd()
            m.sp = m.sp + 8 * k
            for a in reversed(args):
                m.push(a)
            m.extra = m.extra + (n - 1)
            m.pc = m.field(m.accu, 0)
            m.env = m.accu
            return S.poll(m)
        return f
    op("APPTERM%d" % _i, "apply", pre=lambda S, i=_i: _pre_clos(S) + [z3.UGE(S.opnd(0), bv(i))],
       gen={"operands": ["frame"]})(_mk2(_i))


def ret(S, m):
    a = m.copy()
    a.extra = m.extra - 1
    a.pc = m.field(m.accu, 0)
    a.env = m.accu
    b = m.copy()
    b.pc, b.env, b.extra = m.get(0), m.get(1), low32(long_val(m.get(2)))
    b.pop(3)
    c1 = m.extra > 0
    return [(c1, "next", a)] + [(z3.And(z3.Not(c1), c), k, x) for c, k, x in S.poll(b)]


def _pre_ret(k):
    def f(S):
        m = S.m()
        n = S.opnd(0) if k is None else bv(k)
        return [z3.Or(S.extra == 0, z3.And(*closure(S, S.accu))),
                S.codeptr(m.rd(z3.simplify(S.sp + 8 * n)))]
    return f


@op("RETURN1", "apply", pre=_pre_ret(1))
@op("RETURN2", "apply", pre=_pre_ret(2))
def _(S, n):
    m = S.m()
    m.pop(int(n[-1]))
    return ret(S, m)


@op("RETURN", "apply", pre=_pre_ret(None), gen=IDX)
def _(S):
    m = S.m()
    m.sp = m.sp + 8 * m.opnd()
    return ret(S, m)


# ---------------------------------------------------------------- globals, atoms, constants
@op("GETGLOBAL PUSH_GETGLOBAL", "data", gen={"operands": ["glob"]})
def _(S, n):
    m = S.m()
    if n.startswith("PUSH"):
        m.push(m.accu)
    m.accu = S.globfield(m, m.opnd())
    return nxt(m)


@op("SETGLOBAL", "update", gen={"operands": ["glob"]})
def _(S):
    m = S.m()
    k = m.opnd()
    S.store_field(m, S.globaddr(m, k), m.accu)
    m.accu = S.unit
    return nxt(m)


for _i in range(10):
    def _mk(i):
        def f(S, n):
            m = S.m()
            if n.startswith("PUSH"):
                m.push(m.accu)
            m.accu = S.atom(i)
            return nxt(m)
        return f
    op("ATOM%d" % _i + (" PUSHATOM0" if _i == 0 else ""), "data")(_mk(_i))


@op("ATOM PUSHATOM", "data", pre=lambda S: [z3.ULE(S.opnd(0), bv(255))], gen={"operands": ["byte"]})
def _(S, n):
    m = S.m()
    if n.startswith("PUSH"):
        m.push(m.accu)
    m.accu = S.unit + 8 * m.opnd()
    return nxt(m)


for _i in range(4):
    def _mk(i):
        def f(S, n):
            m = S.m()
            if n.startswith("PUSH"):
                m.push(m.accu)
            m.accu = bv(2 * i + 1)
            return nxt(m)
        return f
    op("CONST%d PUSHCONST%d" % (_i, _i), "data")(_mk(_i))


@op("CONSTBYTE CONSTSHORT", "data", gen={"operands": ["word"]})
def _(S):
    m = S.m()
    m.accu = m.opnd()
    return nxt(m)


def _pre_s32(S):
    return [S.opnd(0) == z3.SignExt(32, z3.Extract(31, 0, S.opnd(0)))]


@op("CONSTINT PUSHCONSTINT", "data", pre=_pre_s32, gen={"operands": ["s32"]})
def _(S, n):
    m = S.m()
    if n.startswith("PUSH"):
        m.push(m.accu)
    m.accu = val_long(m.opnd())
    return nxt(m)


# ---------------------------------------------------------------- field access
def _gf(*path):
    def f(S):
        m = S.m()
        for i in path:
            m.accu = m.field(m.accu, i)
        return nxt(m)

    def pre(S):
        out, v = [], S.accu
        for i in path:
            out.append(S.heapobj(v))
            v = S.m().field(v, i)
        return out
    return f, pre


for _n, _p in [("GETFIELD0", (0,)), ("GETFIELD1", (1,)), ("GETFIELD2", (2,)), ("GETFIELD3", (3,)), ("GETFIELD0_0", (0, 0)),
               ("GETFIELD0_1", (0, 1)), ("GETFIELD1_0", (1, 0)), ("GETFIELD1_1", (1, 1))]:
    _f, _pr = _gf(*_p)
    op(_n, "data", pre=_pr, gen={"accu": "nest"})(_f)


@op("GETFIELD", "data", pre=_pre_accu, gen={"operands": ["small"], "accu": "nest"})
def _(S):
    m = S.m()
    m.accu = m.field(m.accu, m.opnd())
    return nxt(m)


@op("VECTLENGTH", "data", pre=_pre_accu, gen={"accu": "nest"})
def _(S):
    m = S.m()
    m.accu = val_long(z3.LShR(m.rd(m.accu - 8), 10))
    return nxt(m)


@op("TAGOF", "data", pre=_pre_accu, gen={"accu": "nest"})
def _(S):
    m = S.m()
    m.accu = val_long(m.rd(m.accu - 8) & 255)
    return nxt(m)


@op("GETVECTITEM", "data", pre=lambda S: [S.heapobj(S.stk(0)), isint(S.accu), z3.ULE(S.accu, bv(1 << 40))], gen={"accu": "smallint", "stack": ["nest"]})
def _(S):
    m = S.m()
    m.accu = m.rd(m.get(0) + 8 * long_val(m.accu))
    m.pop(1)
    return nxt(m)


@op("GETSTRINGCHAR", "data", pre=lambda S: [S.heapobj(S.stk(0)), isint(S.accu), z3.ULE(S.accu, bv(1 << 40))], gen={"accu": "smallint", "stack": ["str"]})
def _(S):
    m = S.m()
    m.accu = val_long(z3.ZeroExt(56, m.rd(m.get(0) + long_val(m.accu), 1)))
    m.pop(1)
    return nxt(m)


@op("SETSTRINGCHAR", "data", pre=lambda S: [S.heapobj(S.stk(1)), isint(S.stk(0)), z3.ULE(S.stk(0), bv(1 << 40)), isint(S.accu)],
    gen={"accu": "byteint", "stack": ["smallint", "str"]})
def _(S):
    m = S.m()
    m.write(m.get(1) + long_val(m.get(0)), z3.Extract(8, 1, m.accu))
    m.accu = S.unit
    m.pop(2)
    return nxt(m)


# ---------------------------------------------------------------- branches
def tagof(m, v):
    return m.rd(v - 8) & 255


def choice(c, a, b):
    return [(c, "next", a), (z3.Not(c), "next", b)]


@op("BRANCH", "branch", gen={"operands": ["label"]})
def _(S):
    m = S.m()
    m.pc = m.opnd()
    return nxt(m)


def branch_if(m, c):
    lab = m.opnd()
    a = m.copy()
    a.pc = lab
    return choice(c, a, m)


@op("BRANCHIF BRANCHIFNOT", "branch", pre=lambda S: [S.atomval(S.accu)], gen={"operands": ["label"], "accu": "atom"})
def _(S, n):
    m = S.m()
    c = tagof(m, m.accu) != 0
    return branch_if(m, c if n == "BRANCHIF" else z3.Not(c))


@op("POPBRANCHIFNOT", "branch", pre=lambda S: [S.atomval(S.accu)], gen={"operands": ["label"], "accu": "atom"})
def _(S):
    m = S.m()
    c = tagof(m, m.accu) == 0
    m.accu = m.get(0)
    m.pop(1)
    return branch_if(m, c)


@op("BRANCHIFNEQTAG", "branch", pre=lambda S: [S.anyobj(S.accu), z3.ULE(S.opnd(0), bv(255))],
    gen={"operands": ["byte3", "label"], "accu": "atom"})
def _(S):
    m = S.m()
    t = m.opnd()
    return branch_if(m, tagof(m, m.accu) != t)


@op("SWITCH", "branch", pre=lambda S: [isint(S.accu), z3.ULT(S.accu, bv(1 << 9)), z3.ULT(long_val(S.accu), S.opnd(0)),
                                        z3.ULE(S.opnd(0), bv(255))], gen={"operands": ["n4", "label", "label", "label", "label"], "accu": "switchint"})
def _(S):
    m = S.m()
    m.opnd()
    m.pc = m.rd(m.pc + 8 * long_val(m.accu))
    return nxt(m)


@op("BOOLNOT", "branch", pre=lambda S: [S.atomval(S.accu)], gen={"accu": "atom"})
def _(S):
    m = S.m()
    m.accu = S.boolval(tagof(m, m.accu) == 0)
    return nxt(m)


_cmp = {"EQ": lambda x, y: x == y, "NEQ": lambda x, y: x != y, "LT": lambda x, y: x < y, "GT": lambda x, y: x > y,
        "LE": lambda x, y: x <= y, "GE": lambda x, y: x >= y}
_ucmp = {"EQ": lambda x, y: x == y, "NEQ": lambda x, y: x != y, "LT": z3.ULT, "GT": z3.UGT, "LE": z3.ULE, "GE": z3.UGE}


def twoints(S):
    return [isint(S.accu), isint(S.stk(0))]


def oneint(S):
    return [isint(S.accu)]


for _c in _cmp:
    def _mk(c):
        def f(S):
            m = S.m()
            x, y = m.get(0), m.accu
            m.pop(1)
            m.accu = S.boolval(_cmp[c](long_val(x), long_val(y)) if c not in ("EQ", "NEQ") else _cmp[c](x, y))
            return nxt(m)

        def g(S):
            m = S.m()
            x, y = m.get(0), m.accu
            m.pop(1)
            return branch_if(m, _cmp[c](long_val(x), long_val(y)) if c not in ("EQ", "NEQ") else _cmp[c](x, y))

        def u(S):
            m = S.m()
            # words are compared as unsigned 63-bit numbers
            x, y = z3.LShR(m.get(0), 1), z3.LShR(m.accu, 1)
            m.pop(1)
            m.accu = S.boolval(_ucmp[c](x, y))
            return nxt(m)
        return f, g, u
    _f, _g, _u = _mk(_c)
    _p = None if _c in ("EQ", "NEQ") else twoints
    op(_c if _c in ("EQ", "NEQ") else _c + "INT", "intcmp", pre=_p, gen={"accu": "int", "stack": ["int"]})(_f)
    op("BRANCHIF" + _c, "intcmp", pre=_p, gen={"accu": "int", "stack": ["int"], "operands": ["label"]})(_g)
    op(_c + "UNSIGN", "word", pre=twoints, gen={"accu": "int", "stack": ["int"]})(_u)


@op("BRANCHINTERVAL", "branch", pre=lambda S: [isint(S.accu), isint(S.stk(0)), isint(S.stk(1))],
    gen={"accu": "int", "stack": ["int", "int"], "operands": ["label", "label"]})
def _(S):
    m = S.m()
    hi, lo, x = m.accu, m.get(0), m.get(1)
    m.pop(2)
    l1, l2 = m.opnd(), m.opnd()
    m.accu = x
    a, b, c = m.copy(), m.copy(), m.copy()
    a.pc, b.pc = l1, l2
    c.accu = x - lo + 1
    below = long_val(x) < long_val(lo)
    above = long_val(x) > long_val(hi)
    return [(below, "next", a), (z3.And(z3.Not(below), above), "next", b), (z3.Not(z3.Or(below, above)), "next", c)]


# ---------------------------------------------------------------- exceptions
@op("PUSHTRAP", "exn", gen={"operands": ["label"]})
def _(S):
    m = S.m()
    lab = m.opnd()
    m.push(extra_val(m.extra))
    m.push(m.env)
    m.push(S.glob(m, "trapsp"))
    m.push(lab)
    m.setglob("trapsp", m.sp)
    return nxt(m)


@op("POPTRAP", "exn", gen={"stack": ["int", "trap", "int", "int"]})
def _(S):
    m = S.m()
    m.setglob("trapsp", m.get(1))
    m.pop(4)
    return nxt(m)


@op("RAISE", "exn")
def _(S):
    return [(T, ("raise", S.accu), S.m())]


@op("CHECK_SIGNALS", "exn")
def _(S):
    return S.poll(S.m())


@op("STOP", "exn")
def _(S):
    m = S.m()
    return [(T, "halt", m)]


# ---------------------------------------------------------------- int arithmetic
def arith(S, m, r):
    ok = m.copy()
    ok.accu = val_long(z3.Extract(63, 0, r))
    f = fits(r)
    return [(f, "next", ok), (z3.Not(f), "EXN_OVERFLOW", m)]


II = {"accu": "int", "stack": ["int"]}


@op("SMLNEGINT SMLSUCCINT SMLPREDINT", "intarith", pre=oneint, gen={"accu": "int"})
def _(S, n):
    m = S.m()
    x = sx(long_val(m.accu))
    return arith(S, m, {"SMLNEGINT": -x, "SMLSUCCINT": x + 1, "SMLPREDINT": x - 1}[n])


@op("SMLADDINT SMLSUBINT SMLMULINT", "intarith", pre=twoints, gen=II)
def _(S, n):
    m = S.m()
    x, y = sx(long_val(m.get(0))), sx(long_val(m.accu))
    m.pop(1)
    return arith(S, m, {"SMLADDINT": x + y, "SMLSUBINT": x - y, "SMLMULINT": x * y}[n])


@op("SMLDIVINT SMLMODINT SMLQUOTINT SMLREMINT", "intarith", pre=twoints, gen=II)
def _(S, n):
    m = S.m()
    x, y = sx(long_val(m.get(0)), 66), sx(long_val(m.accu), 66)
    m.pop(1)
    q, r = x / y, z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    res = {"SMLDIVINT": z3.If(adj, q - 1, q), "SMLMODINT": z3.If(adj, r + y, r), "SMLQUOTINT": q, "SMLREMINT": r}[n]
    out = [(z3.And(y != 0, c), k, x_) for c, k, x_ in arith(S, m, res)]
    return out + [(y == 0, "EXN_DIV", m)]


# ---------------------------------------------------------------- words (63 bits, modulo)
@op("ADDINT SUBINT MULINT ANDINT ORINT XORINT", "word", pre=twoints, gen=II)
def _(S, n):
    m = S.m()
    x, y = z3.Extract(63, 1, m.get(0)), z3.Extract(63, 1, m.accu)
    m.pop(1)
    r = {"ADDINT": x + y, "SUBINT": x - y, "MULINT": x * y, "ANDINT": x & y, "ORINT": x | y, "XORINT": x ^ y}[n]
    m.accu = z3.Concat(r, bv(1, 1))
    return nxt(m)


@op("DIVINT MODINT", "word", pre=twoints, gen=II)
def _(S, n):
    m = S.m()
    x, y = z3.Extract(63, 1, m.get(0)), z3.Extract(63, 1, m.accu)
    m.pop(1)
    r = z3.UDiv(x, y) if n == "DIVINT" else z3.URem(x, y)
    m.accu = z3.Concat(r, bv(1, 1))
    return [(y != 0, "next", m), (y == 0, "EXN_DIV", m)]


def _shpre(S):
    return twoints(S) + [z3.ULT(S.accu, bv(126))]      # shift count 0 .. 62


@op("SHIFTLEFTINT SHIFTRIGHTINTSIGNED SHIFTRIGHTINTUNSIGNED", "word", pre=_shpre, gen={"accu": "shift", "stack": ["int"]})
def _(S, n):
    m = S.m()
    x, k = z3.Extract(63, 1, m.get(0)), z3.Extract(63, 1, m.accu)
    m.pop(1)
    r = {"SHIFTLEFTINT": x << k, "SHIFTRIGHTINTSIGNED": x >> k, "SHIFTRIGHTINTUNSIGNED": z3.LShR(x, k)}[n]
    m.accu = z3.Concat(r, bv(1, 1))
    return nxt(m)


# ---------------------------------------------------------------- reals
RNE = z3.RNE()
F64 = z3.Float64()
HALF_MAX = float.fromhex("0x1.fffffffffffffp+1022")


def newdouble(S, m, fp):
    # the runtime keeps a single zero: a negative zero is stored as +0.0
    fp = z3.If(z3.fpIsZero(fp), z3.FPVal(0.0, F64), fp)
    return S.alloc(m, 1, 253, [("bits", fp)], tag_sym="Double_tag")


def checked(S, m, fp):
    big = z3.Or(z3.fpGT(fp, z3.FPVal(HALF_MAX, F64)), z3.fpLT(fp, z3.FPVal(-HALF_MAX, F64)))
    return [(big, "EXN_OVERFLOW", m)] + [(z3.And(z3.Not(big), c), k, x) for c, k, x in newdouble(S, m, fp)]


def dbl(m, v):
    return z3.fpBVToFP(m.rd(v), F64)


def twodbl(S):
    return [S.heapobj(S.accu), S.heapobj(S.stk(0))]


DD = {"accu": "double", "stack": ["double"]}


@op("FLOATOFINT", "real", pre=oneint, gen={"accu": "int"})
def _(S):
    m = S.m()
    return newdouble(S, m, z3.fpSignedToFP(RNE, long_val(m.accu), F64))


@op("SMLNEGFLOAT", "real", pre=_pre_accu, gen={"accu": "double"})
def _(S):
    m = S.m()
    return checked(S, m, z3.fpNeg(dbl(m, m.accu)))


@op("SMLADDFLOAT SMLSUBFLOAT SMLMULFLOAT SMLDIVFLOAT", "real", pre=twodbl, gen=DD)
def _(S, n):
    m = S.m()
    x, y = dbl(m, m.get(0)), dbl(m, m.accu)
    m.pop(1)
    r = checked(S, m, S.fpop(n[3:6].lower(), x, y))
    if n == "SMLDIVFLOAT":
        z = z3.fpIsZero(y)
        r = [(z, "EXN_DIV", m)] + [(z3.And(z3.Not(z), c), k, x_) for c, k, x_ in r]
    return r


@op("INTOFFLOAT", "real", pre=lambda S: _pre_accu(S) + [z3.fpLT(z3.fpAbs(dbl(S.m(), S.accu)), z3.FPVal(2.0 ** 62, F64))],
    gen={"accu": "smalldouble"})
def _(S):
    m = S.m()
    m.accu = val_long(z3.fpToSBV(z3.RTZ(), dbl(m, m.accu), z3.BitVecSort(64)))
    return nxt(m)


_fcmp = {"EQ": z3.fpEQ, "NEQ": lambda x, y: z3.Not(z3.fpEQ(x, y)), "LT": z3.fpLT, "GT": z3.fpGT, "LE": z3.fpLEQ, "GE": z3.fpGEQ}
for _c in _fcmp:
    def _mk(c):
        def f(S):
            m = S.m()
            x, y = dbl(m, m.get(0)), dbl(m, m.accu)
            m.pop(1)
            m.accu = S.boolval(_fcmp[c](x, y))
            return nxt(m)

        def g(S):
            m = S.m()
            r = S.lexcmp(m.get(0), m.accu)
            m.pop(1)
            m.accu = S.boolval(_cmp[c](r, bv(0)))
            return nxt(m)
        return f, g
    _f, _g = _mk(_c)
    op(_c + "FLOAT", "real", pre=twodbl, gen=DD)(_f)
    op(_c + "STRING", "string", pre=twodbl, gen={"accu": "str", "stack": ["str"]})(_g)


def string(S, v):
    """v is a well-formed string: its last byte is the number of padding bytes, 0..7"""
    m = S.m()
    n = z3.LShR(m.rd(v - 8), 10)
    return [S.heapobj(v), z3.UGE(n, bv(1)), z3.ULE(n, bv(1 << 40)), z3.ULE(m.rd(v + 8 * n - 1, 1), bv(7, 8))]


@op("STRINGLENGTH", "string", pre=lambda S: string(S, S.accu), gen={"accu": "str"})
def _(S):
    m = S.m()
    n = z3.LShR(m.rd(m.accu - 8), 10) * 8
    m.accu = val_long(n - 1 - z3.ZeroExt(56, m.rd(m.accu + n - 1, 1)))
    return nxt(m)


# ---------------------------------------------------------------- allocation
@op("MAKEBLOCK1 MAKEBLOCK2 MAKEBLOCK3 MAKEBLOCK4", "alloc", pre=lambda S: [z3.ULE(S.opnd(0), bv(255))], gen={"operands": ["byte"]})
def _(S, n):
    k = int(n[-1])
    m = S.m()
    t = m.opnd()
    fields = [m.get(k - 2 - i) for i in range(k - 1)] + [m.accu]
    m.pop(k - 1)
    return S.alloc(m, k, t, fields, before=S)


def _pre_update(i):
    return lambda S: [S.heapobj(S.stk(0))]


def _setfield(S, n):
    m = S.m()
    k = bv(int(n[-1])) if n[-1].isdigit() else m.opnd()
    S.store_field(m, m.get(0) + 8 * k, m.accu)
    m.accu = S.unit
    m.pop(1)
    return nxt(m)


op("SETFIELD0 SETFIELD1 SETFIELD2 SETFIELD3", "update", pre=lambda S: [S.heapobj(S.stk(0))], gen={"stack": ["nest"]})(_setfield)
op("SETFIELD", "update", pre=lambda S: [S.heapobj(S.stk(0))], gen={"stack": ["nest"], "operands": ["small"]})(_setfield)


@op("SETVECTITEM", "update", pre=lambda S: [S.heapobj(S.stk(1)), isint(S.stk(0)), z3.ULE(S.stk(0), bv(1 << 40))],
    gen={"stack": ["smallint", "nest"]})
def _(S):
    m = S.m()
    S.store_field(m, m.get(1) + 8 * long_val(m.get(0)), m.accu)
    m.accu = S.unit
    m.pop(2)
    return nxt(m)


# ---------------------------------------------------------------- C calls
for _i in range(1, 6):
    def _mk(n):
        def f(S):
            m = S.m()
            p = m.opnd()
            args = [m.get(n - 2 - i) for i in range(n - 1)] + [m.accu]
            return S.ccall(m, p, args, n - 1)
        return f
    op("C_CALL%d" % _i, "ccall", pre=lambda S: [z3.ULT(S.opnd(0), bv(4096))])(_mk(_i))


# ---------------------------------------------------------------- instructions with loops over words
def cnt(x, n=32):
    """a word operand used as an int"""
    return z3.SignExt(64 - n, z3.Extract(n - 1, 0, x))


def ext32(x):
    return z3.SignExt(32, x)


def copied(s):
    return lambda rd, off: rd(z3.simplify(s + off))


def blk(S, m):
    """the block just allocated in the minor heap"""
    return (S.young_after if m.gced else S.glob(S.m(), "young_ptr")) + 8


@op("APPTERM", "apply", pre=lambda S: _pre_clos(S) + [z3.UGE(S.opnd(0), bv(1)), z3.ULE(S.opnd(0), bv(255)), z3.UGE(S.opnd(1), S.opnd(0)), z3.ULE(S.opnd(1), bv(65535))],
    gen={"operands": ["n4", "frame"]})
def _(S):
    m = S.m()
    k, size = m.opnd(), m.opnd()
    src = m.sp
    m.sp = z3.simplify(m.sp + 8 * (size - k))
    m.copyw(m.sp, src, k)
    m.extra = m.extra + low32(k) - 1
    m.pc = m.field(m.accu, 0)
    m.env = m.accu
    return S.poll(m)


LOOP["APPTERM"] = lambda S, m: [(S.sp + 8 * (S.opnd(1) - S.opnd(0)), S.opnd(0), copied(S.sp), False)]


def _nrest(S, m):
    return z3.LShR(m.rd(S.env - 8), 10) - 2


@op("RESTART", "apply", pre=lambda S: [S.heapobj(S.env), z3.UGE(_nrest(S, S.m()), bv(1)), z3.ULE(_nrest(S, S.m()), bv(4096))],
    gen={"env": "papp"})
def _(S):
    m = S.m()
    k = _nrest(S, m)
    m.sp = z3.simplify(m.sp - 8 * k)
    m.copyw(m.sp, z3.simplify(S.env + 16), k)
    m.env = m.field(S.env, 1)
    m.extra = m.extra + low32(k)
    return nxt(m)


LOOP["RESTART"] = lambda S, m: [(S.sp - 8 * _nrest(S, S.m()), _nrest(S, S.m()), copied(S.env + 16), False)]


@op("GRAB", "apply", pre=lambda S: [z3.UGE(S.opnd(0), bv(1)), z3.ULE(S.opnd(0), bv(255)), S.extra <= 300,
                                    z3.Or(S.extra >= low32(S.opnd(0)), S.codeptr(S.m().rd(z3.simplify(S.sp + 8 * ext32(S.extra) + 8))))], gen={"operands": ["grab"]})
def _(S):
    m = S.m()
    req = low32(m.opnd())
    full = m.extra >= req
    a = m.copy()
    a.extra = m.extra - req
    out = [(full, "next", a)]
    if not S.feasible(z3.Not(full)):
        return out
    k = z3.simplify(ext32(m.extra + 1))

    def tail(x, b):
        x.copyw(b + 16, x.sp, k)
        x.sp = z3.simplify(x.sp + 8 * k)
        x.pc, x.env, x.extra = x.get(0), x.get(1), low32(long_val(x.get(2)))
        x.pop(3)
    # the closure of a partial application: RESTART precedes this instruction
    return out + [(z3.And(z3.Not(full), c), kd, x) for c, kd, x in
                  S.alloc(m, z3.simplify(k + 2), 0, [z3.simplify(m.pc - 24), m.env], tag_sym="Closure_tag", raw=(0,), tail=tail)]


LOOP["GRAB"] = lambda S, m: [(blk(S, m) + 16, ext32(S.extra + 1), copied(S.sp), False)]


@op("CLOSURE CLOSREC", "alloc", pre=lambda S: [z3.ULE(S.opnd(0), bv(255))], gen={"operands": ["nvars", "label"]})
def _(S, n):
    r = 1 if n == "CLOSREC" else 0
    m = S.m()
    k = m.opnd()
    lab = m.opnd()
    out = []
    for some in (True, False):
        c = (k != 0) if some else (k == 0)
        if not S.feasible(c):
            continue
        a = m.copy()
        if some:
            a.push(a.accu)

        def tail(x, b):
            if r:
                x.write(b + 8, z3.simplify(b))
            if some:
                x.copyw(b + 8 + 8 * r, x.sp, k)
                x.sp = z3.simplify(x.sp + 8 * k)
        out += [(z3.And(c, c2), kd, x) for c2, kd, x in S.alloc(a, z3.simplify(k + 1 + r), 0, [lab], tag_sym="Closure_tag", raw=(0,), tail=tail)]
    return out


def _closloop(r):
    return lambda S, m: [(blk(S, m) + 8 + 8 * r, S.opnd(0), copied(S.sp - z3.If(S.opnd(0) == 0, bv(0), bv(8))), False)]


LOOP["CLOSURE"] = _closloop(0)
LOOP["CLOSREC"] = _closloop(1)


@op("DUMMY", "alloc", pre=lambda S: [z3.ULE(S.opnd(0), bv(255))], gen={"operands": ["nvars"]})
def _(S):
    m = S.m()
    k = m.opnd() + 1
    return S.alloc(m, z3.simplify(k), 0, [], tail=lambda x, b: x.mapw(b, k, lambda rd, off: bv(1)))


LOOP["DUMMY"] = lambda S, m: [(blk(S, m), S.opnd(0) + 1, lambda rd, off: bv(1), False)]


def _pre_upd(S):
    m = S.m()
    v = S.stk(0)
    n = z3.LShR(m.rd(v - 8), 10)
    return [S.heapobj(S.accu), S.heapobj(v), z3.ULE(n, bv(4096)),
            z3.Or(z3.ULE(v + 8 * n, S.accu - 8), z3.ULE(S.accu + 8 * n, v - 8))]


@op("UPDATE", "update", pre=_pre_upd, gen={"accu": "upd", "stack": ["upd"]})
def _(S):
    m = S.m()
    v = m.get(0)
    n = z3.LShR(m.rd(v - 8), 10)
    dst = m.accu
    m.write(dst - 8, z3.Extract(7, 0, m.rd(v - 8)))
    val = lambda rd, off: rd(z3.simplify(v + off))
    S.update_fields(m, dst, v, n)
    m.accu = S.unit
    m.pop(1)
    return nxt(m)


LOOP["UPDATE"] = lambda S, m: [(S.accu, z3.LShR(S.m().rd(S.stk(0) - 8), 10), copied(S.stk(0)), True)]


def _hdr(S):
    return S.opnd(0)


def _mbsize(S):
    return z3.LShR(_hdr(S), 10)


@op("MAKEBLOCK", "alloc", pre=lambda S: [z3.ULT(S.opnd(0), bv(1 << 22)), z3.UGE(_mbsize(S), bv(1))], gen={"operands": ["hdr"]})
def _(S):
    m = S.m()
    h = m.opnd()
    n, tag = z3.simplify(z3.LShR(h, 10)), z3.simplify(h & 255)
    small = z3.ULT(n, bv(MAX_YOUNG))
    out = []

    def fill(x, b, acc, traced=False):
        top = z3.simplify(x.sp + 8 * (n - 2))
        val = lambda rd, off: rd(z3.simplify(top - off))
        before = x.mem
        x.mapw(b, n - 1, val)
        x.write(z3.simplify(b + 8 * (n - 1)), acc)
        if traced:
            S.trace(x, b, n - 1, lambda rd, off: val(rd, off), acc, before)
        x.sp = z3.simplify(x.sp + 8 * (n - 1))
    if S.feasible(small):
        out += [(z3.And(small, c), k, x) for c, k, x in
                S.alloc(m, n, tag, [], tail=lambda x, b: fill(x, b, S.rho(m.accu) if x.gced else m.accu))]
    if S.feasible(z3.Not(small)):
        a = m.copy()
        acc = a.accu
        b = S.alloc_shr(a, n, tag)
        fill(a, b, acc, True)
        a.shadow = True
        a.accu = b
        out.append((z3.Not(small), "next", a))
    return out


def _mbloop(S, m):
    n = _mbsize(S)
    val = lambda rd, off: rd(z3.simplify(S.sp + 8 * (n - 2) - off))
    return [(S.shr, n - 1, val, True)] if m.major else [(blk(S, m), n - 1, val, False)]


LOOP["MAKEBLOCK"] = _mbloop


def isyoung(S, m, v):
    return z3.And(isblk(v), z3.UGT(v, S.glob(m, "young_start")), z3.ULT(v, S.glob(m, "young_end")))


@op("MAKEVECTOR MAKEREFVECTOR", "alloc", pre=lambda S: [isint(S.stk(0)), z3.ULE(S.stk(0), bv(1 << 30))], gen={"stack": ["veclen"]})
def _(S, nm):
    tag = bv(S.m_.tags["Reference_tag"] if nm == "MAKEREFVECTOR" else 0)
    m = S.m()
    n = z3.simplify(long_val(m.get(0)))
    init = m.accu
    m.set(0, init)
    out = []
    z, small = n == 0, z3.ULT(n, bv(MAX_YOUNG))
    if S.feasible(z):
        a = m.copy()
        a.accu = z3.simplify(S.m_.g("first_atoms") + 8 * (tag + 1))
        a.pop(1)
        out.append((z, "next", a))
    c0 = z3.And(z3.Not(z), small)
    if S.feasible(c0):
        def tail(x, b):
            v = x.get(0)
            x.mapw(b, n, lambda rd, off: v)
            x.pop(1)
        out += [(z3.And(c0, c), k, x) for c, k, x in S.alloc(m, n, tag, [], tail=tail)]
    if S.feasible(z3.Not(small)):
        yg = isyoung(S, m, init)
        for young in (True, False):
            c = z3.And(z3.Not(small), yg if young else z3.Not(yg))
            if not S.feasible(c):
                continue
            a = m.copy()
            if young:
                S.gc(a)
            b = S.alloc_shr(a, n, tag)
            v = a.get(0)
            a.mapw(b, n, lambda rd, off: v)
            a.accu = b
            a.pop(1)
            out.append((c, "next", a))
    return out


def _mvloop(S, m):
    n = long_val(S.stk(0))
    v = z3.simplify(m.rd(S.sp))
    val = lambda rd, off: v
    return [(S.shr, n, val, True), (S.shr, n, val, False)] if m.major else [(blk(S, m), n, val, False)]


LOOP["MAKEVECTOR"] = LOOP["MAKEREFVECTOR"] = _mvloop


@op("C_CALLN", "ccall", pre=lambda S: [z3.UGE(S.opnd(0), bv(1)), z3.ULE(S.opnd(0), bv(255)), z3.ULT(S.opnd(1), bv(4096))], gen={"operands": ["n", "prim"]})
def _(S):
    m = S.m()
    n, p = m.opnd(), m.opnd()
    m.push(m.accu)
    sp = m.sp
    mem = m.mem
    val = lambda rd, off: z3.If(off == 8 * (n - 1), S.accu, rd(z3.simplify(S.sp + 8 * (n - 2) - off)))
    [(c, k, a)] = S.ccall(m, p, [], n)
    a.calln = (a.call[0], n, val)
    a.call = None
    return [(c, k, a)]


LOOP["C_CALLN"] = lambda S, m: [(S.cbuf, S.opnd(0), lambda rd, off: rd(z3.simplify(S.sp - 16 + 8 * S.opnd(0) - off)), False)]
