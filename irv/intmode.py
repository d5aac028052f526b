"""Integer view of bit-vector path conditions: exact translation of BV terms to mathematical integers.

Every BV term t (width w) becomes an integer expression e together with bounds lo<=e<=hi such that e is congruent to t
modulo 2^w; where a signed/unsigned value is needed and the bounds do not show that no wrap-around happens, the wrap is
made explicit with a fresh multiple of 2^w.  Unsupported assumptions are dropped (sound); unsupported goals raise."""
import z3

from .mem import bv


class Unsupported(Exception):
    pass


class IntTr:
    def __init__(self, ask=None):
        self.side, self.memo, self.atoms = [], {}, {}
        self.ask = ask or (lambda f: False)
        self.nf = 0
        self.sub = []           # (var, expr) substitutions made for shifts
        self.bounds = {}        # term id -> signed bounds stated by the path condition
        self.keep = []
        self.quots = []         # quotients introduced for divisions by a variable

    def fresh(self, nm):
        self.nf += 1
        return z3.Int("%s!i%d" % (nm, self.nf))

    def atom(self, t, signed=True):
        k = t.get_id()
        if k not in self.atoms:
            self.keep.append(t)
            v = self.fresh("v")
            w = t.size()
            # tighten the bounds with the path condition
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if self.ask(t >= 0):
                lo = 0
                for b in (1, 8, 16, 30, 31, 32, 61, 62):
                    if b < w and self.ask(z3.ULE(t, bv(1 << b, w))):
                        hi = min(1 << b, hi)
                        break
            else:
                for b in (31, 61, 62):
                    if b < w - 1 and self.ask(z3.And(t >= bv(-(1 << b), w), t < bv(1 << b, w))):
                        lo, hi = -(1 << b), (1 << b) - 1
                        break
            self.side += [v >= lo, v <= hi]
            self.atoms[k] = (v, lo, hi)
        return self.atoms[k]

    def scan_bounds(self, pc):
        def put(t, lo, hi):
            l, h = self.bounds.get(t.get_id(), (-(1 << (t.size() - 1)), (1 << (t.size() - 1)) - 1))
            self.bounds[t.get_id()] = (max(l, lo), min(h, hi))
            self.keep.append(t)

        def one(f, pos):
            d, ch = f.decl().kind(), f.children()
            if d == z3.Z3_OP_NOT:
                return one(ch[0], not pos)
            if d == z3.Z3_OP_AND and pos or d == z3.Z3_OP_OR and not pos:
                for c in ch:
                    one(c, pos)
                return
            if d in (z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT):
                a, b = ch
                if d in (z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                    a, b = b, a
                strict = d in (z3.Z3_OP_SLT, z3.Z3_OP_SGT)
                if not pos:
                    a, b, strict = b, a, not strict
                # a <= b or a < b
                inf = 1 << 200
                if z3.is_bv_value(b) and not z3.is_bv_value(a):
                    put(a, -inf, b.as_signed_long() - (1 if strict else 0))
                if z3.is_bv_value(a) and not z3.is_bv_value(b):
                    put(b, a.as_signed_long() + (1 if strict else 0), inf)
        for f in pc:
            one(f, True)

    # (expr, lo, hi), expr == t mod 2^w
    def tr(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        e, lo, hi = r = self._tr(t)
        w = t.size()
        if k in self.bounds and lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            l2, h2 = self.bounds[k]
            r = (e, max(lo, l2), min(hi, h2))
        self.keep.append(t)
        self.memo[k] = r
        return r

    def _tr(self, t):
        w = t.size()
        d = t.decl().kind()
        ch = t.children()
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            return z3.IntVal(v), v, v
        if d == z3.Z3_OP_BADD:
            e, lo, hi = self.tr(ch[0])
            for c in ch[1:]:
                e2, l2, h2 = self.tr(c)
                e, lo, hi = e + e2, lo + l2, hi + h2
            return self.cap(t, e, lo, hi)
        if d == z3.Z3_OP_BSUB:
            e, lo, hi = self.tr(ch[0])
            e2, l2, h2 = self.tr(ch[1])
            return self.cap(t, e - e2, lo - h2, hi - l2)
        if d == z3.Z3_OP_BNEG:
            e, lo, hi = self.tr(ch[0])
            return -e, -hi, -lo
        if d == z3.Z3_OP_BMUL:
            e, lo, hi = self.tr(ch[0])
            for c in ch[1:]:
                e2, l2, h2 = self.tr(c)
                ps = [lo * l2, lo * h2, hi * l2, hi * h2]
                e, lo, hi = e * e2, min(ps), max(ps)
            return self.cap(t, e, lo, hi)
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            e, lo, hi = self.tr(ch[0])
            m = 1 << ch[1].as_long()
            return e * m, lo * m, hi * m
        if d == z3.Z3_OP_BASHR and z3.is_bv_value(ch[1]):
            e, lo, hi = self.sg(ch[0])
            return self.divpow(e, lo, hi, ch[1].as_long())[0]
        if d == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            e, lo, hi = self.us(ch[0])
            return self.divpow(e, lo, hi, ch[1].as_long())[0]
        if d == z3.Z3_OP_CONCAT:
            # (x, const 0)  -> shift ;  (const 0, x) -> zero extension ; tagging (x[..], 1)
            last = ch[-1]
            if z3.is_bv_value(last):
                rest = ch[:-1]
                hi_t = rest[0] if len(rest) == 1 else z3.Concat(*rest)
                e, lo, hi = self.tr(hi_t)
                m = 1 << last.size()
                c = last.as_long()
                return e * m + c, lo * m + c, hi * m + c
            if all(z3.is_bv_value(c) and c.as_long() == 0 for c in ch[:-1]):
                return self.us(last)
            # concatenation of extracts of one term with its sign replicated = sign extension of a prefix
            v = self.signext_form(t, ch)
            if v is not None:
                return v
            # general: hi part signed * 2^k + low part unsigned
            if self.all_select(t):
                return self.atom(t)
            e, lo, hi = self.tr(ch[0])
            for c in ch[1:]:
                e2, l2, h2 = self.us(c)
                m = 1 << c.size()
                e, lo, hi = e * m + e2, lo * m + l2, hi * m + h2
            return e, lo, hi
        if d == z3.Z3_OP_SIGN_EXT:
            return self.sg(ch[0])
        if d == z3.Z3_OP_ZERO_EXT:
            return self.us(ch[0])
        if d == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            x = ch[0]
            if l == 0:
                return self.tr(x)       # congruent modulo 2^w already
            if h == x.size() - 1:
                e, lo, hi = self.sg(x)
                return self.divpow(e, lo, hi, l)[0]
            e, lo, hi = self.sg(x)
            return self.divpow(e, lo, hi, l)[0]
        if d == z3.Z3_OP_ITE:
            c = self.form(ch[0])
            e1, l1, h1 = self.tr(ch[1])
            e2, l2, h2 = self.tr(ch[2])
            return z3.If(c, e1, e2), min(l1, l2), max(h1, h2)
        if d == z3.Z3_OP_BAND and len(ch) == 2:
            for a, b in (ch, ch[::-1]):
                if z3.is_bv_value(b):
                    m = b.as_long()
                    if (m + 1) & m == 0:      # low mask
                        e, lo, hi = self.us(a)
                        return self.divpow(e, lo, hi, m.bit_length())[1]
        if d in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            return self.sdiv(ch[0], ch[1], d in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I))
        if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            return self.udiv(ch[0], ch[1], d in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I))
        if d == z3.Z3_OP_BNOT:
            e, lo, hi = self.tr(ch[0])
            return -e - 1, -hi - 1, -lo - 1
        return self.atom(t)

    def all_select(self, t):
        return all(c.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) for c in t.children())

    def signext_form(self, t, ch):
        # Concat(Extract(63,63,x), Extract(63,1,x)) : arithmetic shift right produced by the simplifier
        last = ch[-1]
        if last.decl().kind() != z3.Z3_OP_EXTRACT:
            return None
        h, l = last.params()
        x = last.children()[0]
        if h != x.size() - 1:
            return None
        for c in ch[:-1]:
            if c.decl().kind() == z3.Z3_OP_EXTRACT and c.params() == [h, h] and z3.eq(c.children()[0], x):
                continue
            if c.decl().kind() == z3.Z3_OP_SIGN_EXT or c.decl().kind() == z3.Z3_OP_REPEAT:
                b = c.children()[0]
                if b.decl().kind() == z3.Z3_OP_EXTRACT and b.params() == [h, h] and z3.eq(b.children()[0], x):
                    continue
            return None
        e, lo, hi = self.sg(x)
        return self.divpow(e, lo, hi, l)[0]

    def cap(self, t, e, lo, hi):
        return e, lo, hi

    def refine(self, t, e, lo, hi):
        return e, lo, hi

    def sg(self, t):
        e, lo, hi = self.tr(t)
        w = t.size()
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return e, lo, hi
        return self.wrap(t, e, lo, hi, -(1 << (w - 1)), (1 << (w - 1)) - 1, "s")

    def us(self, t):
        e, lo, hi = self.tr(t)
        w = t.size()
        if lo >= 0 and hi < (1 << w):
            return e, lo, hi
        if self.ask(t >= 0):
            e, lo, hi = self.sg(t)
            if lo < 0:
                self.side.append(e >= 0)
            return e, max(lo, 0), hi
        return self.wrap(t, e, lo, hi, 0, (1 << w) - 1, "u")

    def wrap(self, t, e, lo, hi, l2, h2, tag):
        key = (t.get_id(), tag)
        if key in self.memo:
            return self.memo[key]
        w = t.size()
        if tag == "u":
            r = self.memo[key] = self.divpow(e, lo, hi, w)[1]
            self.keep.append(t)
            return r
        k = self.fresh("k")
        e2 = e - k * (1 << w)
        self.side += [e2 >= l2, e2 <= h2, k >= (lo - h2) // (1 << w) - 1, k <= (hi - l2) // (1 << w) + 1]
        self.memo[key] = (e2, l2, h2)
        self.keep.append(t)
        return self.memo[key]

    def divpow(self, e, lo, hi, n):
        """floor division of e by 2^n -> ((q,lo,hi),(r,0,2^n-1))"""
        m = 1 << n
        es = z3.simplify(e)
        key = ("dp", es.get_id(), n)
        if key in self.memo:
            return self.memo[key]
        self.keep.append(es)
        # e = m*x + c with a constant c: no new variables
        terms = es.children() if z3.is_add(es) else [es]
        qs, c, ok = [], 0, True
        for t in terms:
            if z3.is_int_value(t):
                c += t.as_long()
            elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % m == 0:
                rest = [t.arg(i) for i in range(1, t.num_args())]
                p = rest[0]
                for x in rest[1:]:
                    p = p * x
                qs.append(p * (t.arg(0).as_long() // m))
            else:
                ok = False
                break
        if ok:
            q = z3.IntVal(c // m)
            for x in qs:
                q = q + x
            res = ((z3.simplify(q), lo // m, hi // m), (z3.IntVal(c % m), c % m, c % m))
            self.memo[key] = res
            return res
        # e = 2^j*x + c with 0 <= c < 2^j: divide x by 2^(n-j)
        j, c, nt = n, 0, []
        for t in terms:
            if z3.is_int_value(t):
                c += t.as_long()
            elif z3.is_mul(t) and z3.is_int_value(t.arg(0)):
                v = t.arg(0).as_long()
                jj = 0
                while jj < j and v % 2 == 0:
                    v //= 2
                    jj += 1
                j = min(j, jj)
                nt.append(t)
            else:
                j = 0
        if 1 <= j < n:
            g = 1 << j
            x = z3.IntVal(c // g)
            for t in nt:
                p = z3.IntVal(t.arg(0).as_long() // g)
                for i in range(1, t.num_args()):
                    p = p * t.arg(i)
                x = x + p
            (q, ql, qh), (r, rl, rh) = self.divpow(z3.simplify(x), lo // g, hi // g, n - j)
            res = ((q, ql, qh), (z3.simplify(r * g + c % g), rl * g + c % g, rh * g + c % g))
            self.memo[key] = res
            return res
        q, r = self.fresh("q"), self.fresh("r")
        self.side += [es == q * m + r, r >= 0, r < m]
        self.sub.append((es, q * m + r))
        res = ((q, lo // m, hi // m), (r, 0, m - 1))
        self.side += [q >= lo // m, q <= hi // m]
        self.memo[key] = res
        return res

    def sdiv(self, a, b, rem):
        key = ("sd", a.get_id(), b.get_id())
        if key not in self.memo:
            self.keep += [a, b]
            ea, la, ha = self.sg(a)
            eb, lb, hb = self.sg(b)
            q, r = self.fresh("q"), self.fresh("r")
            M = max(abs(la), abs(ha))
            # C/SMT division truncates; b != 0 is a separate obligation
            self.side.append(z3.Implies(eb != 0, z3.And(
                ea == q * eb + r,
                z3.Implies(ea >= 0, z3.And(r >= 0, z3.If(eb > 0, r < eb, r < -eb))),
                z3.Implies(ea < 0, z3.And(r <= 0, z3.If(eb > 0, -r < eb, -r < -eb))),
                q <= M, q >= -M, r <= M, r >= -M)))
            self.quots.append(q)
            self.memo[key] = ((q, -M, M), (r, -M, M))
        return self.memo[key][1 if rem else 0]

    def udiv(self, a, b, rem):
        key = ("ud", a.get_id(), b.get_id())
        if key not in self.memo:
            self.keep += [a, b]
            ea, la, ha = self.us(a)
            eb, lb, hb = self.us(b)
            q, r = self.fresh("q"), self.fresh("r")
            self.side.append(z3.Implies(eb != 0, z3.And(ea == q * eb + r, r >= 0, r < eb, q >= 0, q <= ha)))
            self.quots.append(q)
            self.memo[key] = ((q, 0, ha), (r, 0, min(ha, hb)))
        return self.memo[key][1 if rem else 0]

    # formulas
    def form(self, f):
        d = f.decl().kind()
        ch = f.children()
        if z3.is_true(f) or z3.is_false(f):
            return f
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.form(ch[0]))
        if d == z3.Z3_OP_AND:
            return z3.And(*[self.form(c) for c in ch])
        if d == z3.Z3_OP_OR:
            return z3.Or(*[self.form(c) for c in ch])
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(ch[0]), self.form(ch[1]))
        if d == z3.Z3_OP_ITE:
            return z3.If(self.form(ch[0]), self.form(ch[1]), self.form(ch[2]))
        if d == z3.Z3_OP_XOR:
            return z3.Xor(self.form(ch[0]), self.form(ch[1]))
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if z3.is_bool(ch[0]):
                r = self.form(ch[0]) == self.form(ch[1])
            elif z3.is_bv(ch[0]):
                if ch[0].size() <= 8 and not self.simple(ch[0]):
                    pass
                r = self.sg(ch[0])[0] == self.sg(ch[1])[0]
            else:
                raise Unsupported()
            return r if d == z3.Z3_OP_EQ else z3.Not(r)
        m = {z3.Z3_OP_SLEQ: ("s", lambda a, b: a <= b), z3.Z3_OP_SGEQ: ("s", lambda a, b: a >= b),
             z3.Z3_OP_SLT: ("s", lambda a, b: a < b), z3.Z3_OP_SGT: ("s", lambda a, b: a > b),
             z3.Z3_OP_ULEQ: ("u", lambda a, b: a <= b), z3.Z3_OP_UGEQ: ("u", lambda a, b: a >= b),
             z3.Z3_OP_ULT: ("u", lambda a, b: a < b), z3.Z3_OP_UGT: ("u", lambda a, b: a > b)}
        if d in m:
            k, g = m[d]
            h = self.sg if k == "s" else self.us
            return g(h(ch[0])[0], h(ch[1])[0])
        raise Unsupported(str(f)[:80])

    def simple(self, t):
        return True


def consts(f, memo):
    k = f.get_id()
    if k in memo:
        return memo[k]
    if z3.is_const(f):
        r = frozenset([f.decl().name()]) if f.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
    else:
        r = frozenset().union(*[consts(c, memo) for c in f.children()])
    memo[k] = r
    return r


def relevant(fs, goal):
    """cone of influence of the goal (dropping assumptions is sound)"""
    memo = {}
    vs = set(consts(goal, memo))
    rest = [(f, consts(f, memo)) for f in fs if not z3.is_true(f)]
    out, ch = [], True
    if not vs:
        return [f for f, _ in rest] + [goal]
    while ch:
        ch = False
        nr = []
        for f, c in rest:
            if c & vs or not c:
                out.append(f)
                if not c <= vs:
                    vs |= c
                    ch = True
            else:
                nr.append((f, c))
        rest = nr
    return out + [goal]


def prove_int(pc, mkgoal, ask, timeout=20.0):
    """mkgoal(tr) -> Int formula.  -> (status, model|None)"""
    tr = IntTr(ask)
    tr.scan_bounds(pc)
    tr.pc = pc
    goal = mkgoal(tr)
    hyps = []
    for f in pc:
        n = len(tr.side)
        try:
            hyps.append(tr.form(f))
        except Unsupported:
            del tr.side[n:]
    side = list(tr.side)
    fs = hyps + side + [z3.Not(goal)]
    # eliminate variables split by shifts:  v = q*2^n + r  (v a variable or its negation)
    for es, qr in tr.sub:
        v, ex = None, None
        if z3.is_const(es) and es.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            v, ex = es, qr
        elif z3.is_app(es) and es.decl().kind() == z3.Z3_OP_MUL and es.num_args() == 2 and z3.is_int_value(es.arg(0)) \
                and es.arg(0).as_long() == -1 and z3.is_const(es.arg(1)):
            v, ex = es.arg(1), -qr
        if v is not None:
            fs = [z3.substitute(f, (v, ex)) for f in fs]
    fs = [z3.simplify(f, som=True) for f in fs]
    fs = relevant(fs[:-1], fs[-1])
    for cfg in ({}, {"smt.arith.solver": 2}):
        s = z3.Solver()
        s.set("timeout", int(timeout * 500))
        for k, v in cfg.items():
            s.set(k, v)
        for f in fs:
            s.add(f)
        r = s.check()
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            return "failed", s.model()
    return "unknown", None
