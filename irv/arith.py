"""Multiplication and division instructions: the machine part of the contract is proved over bit-vectors, the numeric part
over mathematical integers (irv/intmode.py)."""
import time

import z3

from . import intmode, opspec
from .interp import Post, post_goal
from .mem import bv
from .pool import race, run_all
from .sem import AttachError, Obligation

LO, HI = -(1 << 62), (1 << 62) - 1


def floor_q(a, b, q):
    m = a - q * b
    return z3.Or(z3.And(0 <= m, m < b), z3.And(b < m, m <= 0))


def trunc_q(a, b, q):
    m = a - q * b
    ab = z3.If(b > 0, b, -b)
    return z3.If(a >= 0, z3.And(0 <= m, m < ab), z3.And(0 >= m, -m < ab))


# op -> (normal: fn(a,b,k,q) formula saying that k is the right result (q: an arbitrary witness quotient),
#        overflow: fn(a,b) formula saying that the result is out of range)
NUM = {
    "SMLMULINT": (lambda a, b, k: k == a * b, lambda a, b: z3.Or(a * b < LO, a * b > HI)),
    "SMLDIVINT": (lambda a, b, k: z3.And(b != 0, floor_q(a, b, k)), lambda a, b: z3.And(a == LO, b == -1)),
    "SMLQUOTINT": (lambda a, b, k: z3.And(b != 0, trunc_q(a, b, k)), lambda a, b: z3.And(a == LO, b == -1)),
}
# remainder: in range and congruent to a modulo b (the quotient is found from the program's own division)
REM = {
    "SMLMODINT": lambda a, b, k: z3.And(b != 0, z3.Or(z3.And(0 <= k, k < b), z3.And(b < k, k <= 0))),
    "SMLREMINT": lambda a, b, k: z3.And(b != 0, z3.If(a >= 0, z3.And(0 <= k, k < z3.If(b > 0, b, -b)),
                                                    z3.And(0 >= k, -k < z3.If(b > 0, b, -b)))),
}
UNS = {"MULINT", "DIVINT", "MODINT"}


def verify_arith(mach, op, timeout=20.0):
    eng = mach.engine()
    S, st = mach.start(eng, op)
    A63, B63 = z3.BitVec("A", 63), z3.BitVec("B", 63)
    S.accu = z3.Concat(A63, bv(1, 1))
    st.frames[-1].env[mach.roles["accu"]] = S.accu
    S.mem = st.mem = st.mem.write(S.sp, 8, z3.Concat(B63, bv(1, 1)))
    S.assume_pre(st)
    x, y = z3.SignExt(1, B63), z3.SignExt(1, A63)
    eng.witness = [("accu", S.accu), ("stack0", S.stk(0))]
    eng.reachable(st, op)
    eng.solver.set("timeout", 300)
    outs = mach.run(eng, S, st, op)
    if not outs:
        raise AttachError("no path")
    n0 = len(eng.obls)
    res = run_all([(i, (lambda i=i, o=o: outcome(eng, S, o, op, i, x, y, timeout)), 240) for i, o in enumerate(outs)], 8)
    for i, o in enumerate(outs):
        if res[i][0] == "ok":
            eng.obls += res[i][1]
        else:
            eng.obls.append(Obligation("%s, path %d" % (op, i + 1), "unknown", 0, "z3", None, {"why": str(res[i])[-600:]}))
    return eng


def outcome(eng, S, o, op, i, x, y, timeout):
    eng.obls = []
    nm = "%s, path %d" % (op, i + 1)
    S.ctx = o.st
    m0 = S.m()
    m0.pop(1)
    cls = None
    for kind in ("normal", "overflow", "div"):
        if kind == "normal":
            if o.kind != "stop":
                continue
            n = m0.copy()
            n.accu = None
            cases = [(opspec.T, "next", n)]
        else:
            if kind == "overflow" and op in UNS:
                continue
            cases = S.raise_cases(m0, S.exn(m0, {"overflow": "EXN_OVERFLOW", "div": "EXN_DIV"}[kind]))
        light = [f for f in o.st.pc if not uvars(f) <= {"A", "B"}]
        res = []
        sub = o.st.copy()
        sub.pc = light
        o2 = type(o)(o.kind, sub, o.val)
        goals = post_goal(S, o2, cases)
        for n, f in goals:
            r = eng.check(sub.pc, f, timeout=5)
            res.append((n, r))
            if r[0] != "proved":
                break
        if goals and all(r[0] == "proved" for n, r in res):
            cls = kind
            for n, r in res:
                eng.obls.append(Obligation("%s: %s" % (nm, n), "proved", 0, r[1]))
            break
    if cls is None:
        # neither a normal result nor one of the two exceptions
        feas = eng.check(o.st.pc, z3.BoolVal(False), timeout=timeout)
        eng.obls.append(Obligation(nm + ": machine state", feas[0], 0, feas[1]))
    else:
        numeric(eng, S, o, op, cls, nm, x, y, timeout)
    for q in eng.obls:
        q.raw_model = None
    return eng.obls


def uvars(t, memo={}):
    k = t.get_id()
    if k not in memo:
        r, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(x.decl().name())
            todo.extend(x.children())
        memo[k] = (r, t)
    return memo[k][0]


def find_ite(ts):
    seen = set()
    best = None
    todo = list(ts)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            if best is None or len(x.arg(0).sexpr()) < best[0]:
                best = (len(x.arg(0).sexpr()), x.arg(0))
        todo.extend(x.children())
    return best[1] if best else None


def atomic(c):
    """an atomic condition inside c to split on"""
    while z3.is_and(c) or z3.is_or(c) or z3.is_not(c) or z3.is_app_of(c, z3.Z3_OP_ITE):
        c = c.arg(0)
    return c


def split_cases(pc, terms, limit=64):
    """[(pc, terms)] without if-then-else, covering pc"""
    out, todo = [], [(list(pc), list(terms))]
    s = z3.Solver()
    s.set("timeout", 2000)
    while todo:
        p, ts = todo.pop()
        c = find_ite(p + ts)
        if c is None or len(out) + len(todo) >= limit:
            out.append((p, ts))
            continue
        c = atomic(c)
        for v in (True, False):
            f = c if v else z3.Not(c)
            p2 = [z3.simplify(z3.substitute(x, (c, z3.BoolVal(v)))) for x in p]
            if any(z3.is_false(x) for x in p2):
                continue
            small = [x for x in p2 if len(x.sexpr()) < 800] + [f]
            s.push()
            s.add(*small)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                continue
            flat = []
            for x in p2 + [f]:
                flat += x.children() if z3.is_and(x) else [] if z3.is_true(x) else [x]
            todo.append((flat, [z3.simplify(z3.substitute(x, (c, z3.BoolVal(v)))) for x in ts]))
    return out


C31 = 1 << 31


def lemmas(a, b):
    """instances of monotonicity of the product, valid for all integers"""
    out = []
    for sa in (1, -1):
        for sb in (1, -1):
            p, q, pq = sa * a, sb * b, sa * sb * (a * b)
            for c in (C31, C31 + 1):
                out.append(z3.Implies(z3.And(p >= c, q >= c), pq >= c * c))
                out.append(z3.Implies(z3.And(p >= 0, q >= 0, p <= c - 1, q <= c - 1), pq <= (c - 1) * (c - 1)))
    return out


class PO:
    pass


def numeric(eng, S, o, op, cls, nm, x, y, timeout):
    P = Post(S.m_, eng, o) if o.kind == "stop" else None
    accu = P.accu if P is not None else bv(1)
    pc = [f for f in o.st.pc if uvars(f) <= {"A", "B"}]
    t0 = time.time()
    nz = op != "SMLMULINT" and op != "MULINT"

    def goals(x, y, accu):
        """[(label, BV formula, int formula maker)]"""
        x63, y63 = z3.Extract(62, 0, x), z3.Extract(62, 0, y)
        un = op in UNS
        g = []
        if cls == "div":
            return [("Div only for a zero divisor", y63 == 0, lambda tr: (tr.us(y63) if un else tr.sg(y))[0] == 0)]

        def ab(tr):
            if un and op != "MULINT":
                return tr.us(x63)[0], tr.us(y63)[0]
            return tr.sg(x)[0], tr.sg(y)[0]
        X, Y = z3.SignExt(64, x), z3.SignExt(64, y)
        if un:
            r = {"MULINT": lambda: x63 * y63, "DIVINT": lambda: z3.UDiv(x63, y63), "MODINT": lambda: z3.URem(x63, y63)}[op]()
        else:
            q, r_ = X / Y, z3.SRem(X, Y)
            adj = z3.And(r_ != 0, (r_ < 0) != (Y < 0))
            r = {"SMLMULINT": lambda: X * Y, "SMLDIVINT": lambda: z3.If(adj, q - 1, q), "SMLMODINT": lambda: z3.If(adj, r_ + Y, r_),
                 "SMLQUOTINT": lambda: q, "SMLREMINT": lambda: r_}[op]()
        if cls == "overflow":
            def ov(tr):
                a, b = ab(tr)
                if op == "SMLMULINT":
                    tr.side += lemmas(a, b)
                return NUM[op][1](a, b) if op in NUM else z3.BoolVal(False)
            f = z3.Or(r < LO, r > HI)
            return [("Overflow only when out of range", z3.And(Y != 0, f) if nz else f, ov)]
        if nz:
            g.append(("no result for a zero divisor", y63 != 0, lambda tr: ab(tr)[1] != 0))
        g.append(("the result is an integer value", z3.Extract(0, 0, accu) == 1, None))
        if un:
            bvf = z3.Extract(63, 1, accu) == r
        else:
            bvf = z3.And(r >= LO, r <= HI, z3.Extract(62, 0, r) == z3.Extract(63, 1, accu))
        k = z3.Int("k")

        def exact(tr):
            if op == "MULINT":
                e = tr.tr(accu)[0]
                a, b = ab(tr)
                return z3.simplify(e - 2 * a * b - 1, som=True) % (1 << 64) == 0
            a, b = ab(tr)
            R = (tr.us(accu) if un else tr.sg(accu))[0]
            if op == "DIVINT":
                return z3.Implies(z3.And(b != 0, 2 * k + 1 == R), z3.And(0 <= a - k * b, a - k * b < b))
            if op == "MODINT":
                return z3.Implies(z3.And(b != 0, 2 * k + 1 == R), z3.And(0 <= k, k < b))
            f = NUM[op][0] if op in NUM else REM[op]
            return z3.Implies(z3.And(R == 2 * k + 1, b != 0 if nz else True), f(a, b, k))
        g.append(("exact result" if op not in ("MODINT", "SMLMODINT", "SMLREMINT") else "range and sign of the remainder",
                  bvf, exact))
        if op in ("MODINT", "SMLMODINT", "SMLREMINT"):
            def cong(i):
                def f(tr):
                    a, b = ab(tr)
                    R = (tr.us(accu) if un else tr.sg(accu))[0]
                    for h in tr.pc:
                        try:
                            tr.form(h)
                        except intmode.Unsupported:
                            pass
                    qs = [z3.IntVal(0)]
                    for q in tr.quots:
                        for d in (0, 1, -1):
                            qs += [q + d, -q + d]
                    if i >= len(qs):
                        raise intmode.Unsupported("no more witnesses")
                    return z3.Implies(z3.And(b != 0, R == 2 * k + 1), z3.simplify(a - qs[i] * b - k, som=True) == 0)
                return f
            g.append(("the remainder is congruent to the dividend", bvf, [cong(i) for i in range(14)]))
        return g

    labels = [l for l, _, _ in goals(x, y, accu)]
    cases = split_cases(pc, [accu, x, y])
    res = {l: ("proved", "simplify", None) for l in labels}
    tm = {l: 0 for l in labels}
    for p, (ac, xx, yy) in cases:
        for label, bvf, mk in goals(xx, yy, ac):
            if res[label][0] != "proved":
                continue
            t1 = time.time()

            def by_bv(bvf=bvf, p=p):
                r = eng.check(p, bvf, timeout=timeout)
                mo = None
                if r[2] is not None:
                    mo = {"accu": r[2].eval(S.accu, model_completion=True).as_long(),
                          "stack0": r[2].eval(z3.Concat(z3.Extract(62, 0, x), bv(1, 1)), model_completion=True).as_long()}
                return r[0], r[1], mo

            def by_int(mk, p=p):
                def f():
                    r = intmode.prove_int(p, mk, lambda f: eng.implied(p, f), timeout)
                    return ("maybe" if r[0] == "failed" else r[0]), "z3-int", None
                return f
            fs = [by_bv]
            if isinstance(mk, list):
                fs += [by_int(q) for q in mk]
            elif mk is not None:
                fs.append(by_int(mk))
            r = race(fs, timeout * 3, lambda v: v[0] in ("proved", "failed"))
            tm[label] += time.time() - t1
            res[label] = r[1] if r is not None else ("unknown", "z3", None)
    for l in labels:
        eng.obls.append(Obligation("%s: %s" % (nm, l), res[l][0], tm[l], res[l][1], res[l][2], {"cases": len(cases)}))
