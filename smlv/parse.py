"""Parser for the core-language subset of Standard ML (Moscow ML dialect) used by mosmllib."""
import re


class ParseError(Exception):
    pass


KW = {"abstype", "and", "andalso", "as", "case", "datatype", "do", "else", "end", "eqtype", "exception", "fn", "fun", "handle", "if",
      "in", "infix", "infixr", "let", "local", "nonfix", "of", "op", "open", "orelse", "raise", "rec", "then", "type", "val", "with",
      "withtype", "while", "prim_val", "prim_type", "prim_EQtype", "prim_eqtype", "structure", "signature", "struct", "sig", "functor", "where"}
RES = {":", ":>", "|", "=", "=>", "->", "#"}
SYM = "!%&$#+-/:<=>?@\\~`^|*"
TOK = re.compile(r"""(?P<ws>\s+)|(?P<real>~?\d+(\.\d+)?([eE]~?\d+)|~?\d+\.\d+)|(?P<word>0wx[0-9a-fA-F]+|0w\d+)|(?P<int>~?0x[0-9a-fA-F]+|~?\d+)|(?P<chr>\#"(\\\^.|\\\d\d\d|\\u[0-9a-fA-F]{4}|\\.|[^"\\])")|(?P<str>"(\\\^.|\\\s+\\|\\.|[^"\\])*")|(?P<long>([A-Za-z][A-Za-z0-9_']*\.)+([A-Za-z][A-Za-z0-9_']*|[!%&$#+\-/:<=>?@\\~`^|*]+))|(?P<id>[A-Za-z][A-Za-z0-9_']*)|(?P<tyvar>'[A-Za-z0-9_']*)|(?P<dots>\.\.\.)|(?P<vec>\#\[)|(?P<sp>[()\[\]{},;_])|(?P<sym>[!%&$#+\-/:<=>?@\\~`^|*]+)""", re.X)


def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out.append(ord(c))
            i += 1
            continue
        d = s[i + 1]
        m = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "v": 11, "f": 12, "\\": 92, '"': 34}
        if d in m:
            out.append(m[d])
            i += 2
        elif d == "^":
            out.append(ord(s[i + 2]) - 64)
            i += 3
        elif d == "u":
            out.append(int(s[i + 2:i + 6], 16))
            i += 6
        elif d.isdigit():
            out.append(int(s[i + 1:i + 4]))
            i += 4
        else:
            j = s.index("\\", i + 1)
            i = j + 1
    return out


def lex(src):
    toks, i, line = [], 0, 1
    n = len(src)
    while i < n:
        if src.startswith("(*", i):
            d, j = 1, i + 2
            while d:
                a, b = src.find("(*", j), src.find("*)", j)
                if b < 0:
                    raise ParseError("comment")
                if 0 <= a < b:
                    d, j = d + 1, a + 2
                else:
                    d, j = d - 1, b + 2
            line += src.count("\n", i, j)
            i = j
            continue
        m = TOK.match(src, i)
        if not m:
            raise ParseError("line %d: lexical error at %r" % (line, src[i:i + 20]))
        k, t = m.lastgroup, m.group()
        # lastgroup may be an inner unnamed group's parent; find the named one
        for k2, v in m.groupdict().items():
            if v is not None:
                k = k2
                break
        if k != "ws":
            if k == "id" and t in KW:
                k = "kw"
            elif k == "sym" and t in RES:
                k = "sp"
            elif k in ("int", "real") and t[0] == "~":
                pass
            toks.append((k, t, line))
        line += t.count("\n")
        i = m.end()
    toks.append(("eof", "", line))
    return toks


INFIX = {}
for _l, _p in (("* / div mod quot rem", 7), ("+ - ^", 6), ("= <> < > <= >=", 4), (":= o", 3), ("before", 0)):
    for _o in _l.split():
        INFIX[_o] = (_p, "l")
for _o in ("::", "@"):
    INFIX[_o] = (5, "r")


class Parser:
    def __init__(self, src, cons=()):
        self.t, self.p = lex(src), 0
        self.infix = dict(INFIX)

    # token helpers
    def peek(self, k=0):
        return self.t[min(self.p + k, len(self.t) - 1)]

    def at(self, s):
        k, t, _ = self.peek()
        return t == s and k in ("kw", "sp", "sym", "dots", "vec")

    def next(self):
        r = self.t[self.p]
        self.p += 1
        return r

    def eat(self, s):
        if not self.at(s):
            raise ParseError("line %d: expected %s, found %r" % (self.peek()[2], s, self.peek()[1]))
        return self.next()

    def opt(self, s):
        if self.at(s):
            self.next()
            return True
        return False

    def err(self, what):
        raise ParseError("line %d: %s at %r" % (self.peek()[2], what, self.peek()[1]))

    # ------------------------------------------------------------ types
    def ty(self):
        a = self.tytuple()
        if self.opt("->"):
            return ("fun", a, self.ty())
        return a

    def tytuple(self):
        ts = [self.tyapp()]
        while self.peek()[1] == "*" and self.peek()[0] == "sym":
            self.next()
            ts.append(self.tyapp())
        return ts[0] if len(ts) == 1 else ("tup", ts)

    def tyapp(self):
        k, t, _ = self.peek()
        if k == "tyvar":
            self.next()
            args = [("var", t)]
        elif t == "(" and k == "sp":
            self.next()
            args = [self.ty()]
            while self.opt(","):
                args.append(self.ty())
            self.eat(")")
        elif t == "{":
            self.next()
            fs = []
            while not self.opt("}"):
                lab = self.next()[1]
                self.eat(":")
                fs.append((lab, self.ty()))
                self.opt(",")
            args = [("rec", fs)]
        elif k in ("id", "long"):
            self.next()
            args = [("con", t, [])]
        else:
            self.err("type")
        while self.peek()[0] in ("id", "long"):
            args = [("con", self.next()[1], args)]
        if len(args) != 1:
            self.err("type application")
        return args[0]

    # ------------------------------------------------------------ patterns
    def pat(self):
        p = self.pat_infix()
        while True:
            if self.opt(":"):
                p = ("ptyped", p, self.ty())
            elif self.at("as"):
                self.next()
                x = p
                while x[0] == "ptyped":
                    x = x[1]
                if x[0] != "pvar":
                    self.err("as-pattern")
                p = ("pas", x[1], self.pat())
            else:
                return p

    def is_infix(self):
        k, t, _ = self.peek()
        return (k in ("sym", "id") or t == "=") and t in self.infix

    def pat_infix(self):
        items = [self.pat_app()]
        while self.is_infix() and self.peek()[1] != "=":
            op = self.next()[1]
            items += [op, self.pat_app()]
        # only right-associative :: matters in practice
        def build(xs):
            if len(xs) == 1:
                return xs[0]
            return ("pcon", xs[1], ("ptuple", [xs[0], build(xs[2:])]))
        return build(items)

    def starts_atpat(self):
        k, t, _ = self.peek()
        if k in ("int", "word", "str", "chr", "real"):
            return True
        if k in ("id", "long", "sym"):
            return not (t in self.infix)
        return t in ("_", "(", "[", "{", "#[", "op")

    def pat_app(self):
        p = self.atpat()
        if p[0] in ("pvar",) and self.starts_atpat() and not p[-1] == "op!":
            a = self.atpat()
            return ("pcon", p[1], a)
        return p

    def atpat(self):
        k, t, ln = self.next()
        if t == "_" and k == "sp":
            return ("pwild",)
        if k == "int":
            return ("pint", num(t))
        if k == "word":
            return ("pword", num(t))
        if k == "real":
            return ("preal", t)
        if k == "str":
            return ("pstr", unescape(t[1:-1]))
        if k == "chr":
            return ("pint", unescape(t[2:-1])[0])
        if k in ("id", "long", "sym"):
            return ("pvar", t)
        if t == "op":
            return ("pvar", self.next()[1])
        if t == "(":
            ps = []
            if self.opt(")"):
                return ("ptuple", [])
            ps.append(self.pat())
            while self.opt(","):
                ps.append(self.pat())
            self.eat(")")
            return ps[0] if len(ps) == 1 else ("ptuple", ps)
        if t in ("[", "#["):
            ps = []
            if not self.opt("]"):
                ps.append(self.pat())
                while self.opt(","):
                    ps.append(self.pat())
                self.eat("]")
            return ("plist" if t == "[" else "pvec", ps)
        if t == "{":
            fs, flex = [], False
            while not self.opt("}"):
                if self.opt("..."):
                    flex = True
                else:
                    lab = self.next()[1]
                    if self.opt("="):
                        fs.append((lab, self.pat()))
                    else:
                        x = ("pvar", lab)
                        if self.opt(":"):
                            x = ("ptyped", x, self.ty())
                        if self.at("as"):
                            self.next()
                            x = ("pas", lab, self.pat())
                        fs.append((lab, x))
                self.opt(",")
            return ("prec", fs, flex)
        self.p -= 1
        self.err("pattern")

    # ------------------------------------------------------------ expressions
    def exp(self):
        k, t, ln = self.peek()
        if k == "kw":
            if t == "if":
                self.next()
                c = self.exp()
                self.eat("then")
                a = self.exp()
                self.eat("else")
                return self.tail(("if", c, a, self.exp()))
            if t == "case":
                self.next()
                e = self.exp()
                self.eat("of")
                return ("case", e, self.match())
            if t == "fn":
                self.next()
                return ("fn", self.match())
            if t == "raise":
                self.next()
                return ("raise", self.exp())
            if t == "while":
                self.next()
                c = self.exp()
                self.eat("do")
                return ("while", c, self.exp())
        return self.tail(self.exp_infix())

    def tail(self, e, level=0):
        """: ty, andalso, orelse, handle"""
        while True:
            if self.at(":"):
                self.next()
                e = ("typed", e, self.ty())
            elif self.at("andalso"):
                self.next()
                e = ("andalso", e, self.exp_and())
            elif self.at("orelse"):
                self.next()
                e = ("orelse", e, self.exp_or())
            elif self.at("handle"):
                self.next()
                e = ("handle", e, self.match())
            else:
                return e

    def exp_typed(self):
        k, t, _ = self.peek()
        if k == "kw" and t in ("if", "case", "fn", "raise", "while"):
            return self.exp()
        e = self.exp_infix()
        while self.opt(":"):
            e = ("typed", e, self.ty())
        return e

    def exp_and(self):
        return self.exp_typed()

    def exp_or(self):
        e = self.exp_typed()
        while self.opt("andalso"):
            e = ("andalso", e, self.exp_and())
        return e

    def match(self):
        cl = []
        self.opt("|")
        while True:
            p = self.pat()
            self.eat("=>")
            cl.append((p, self.exp()))
            if not self.opt("|"):
                return cl

    def exp_infix(self):
        items = [self.exp_app()]
        while self.is_infix():
            op = self.next()[1]
            k, t, _ = self.peek()
            if k == "kw" and t in ("if", "case", "fn", "raise", "while"):
                items += [op, self.exp()]
                break
            items += [op, self.exp_app()]
        return self.resolve(items)

    def resolve(self, items):
        out, ops = [items[0]], []

        def red():
            op = ops.pop()
            b, a = out.pop(), out.pop()
            out.append(("app", ("var", op), ("tuple", [a, b])))
        for i in range(1, len(items), 2):
            op = items[i]
            pr, as_ = self.infix[op]
            while ops and (self.infix[ops[-1]][0] > pr or (self.infix[ops[-1]][0] == pr and as_ == "l")):
                red()
            ops.append(op)
            out.append(items[i + 1])
        while ops:
            red()
        return out[0]

    def starts_atexp(self):
        k, t, _ = self.peek()
        if k in ("int", "word", "str", "chr", "real", "long"):
            return True
        if k in ("id", "sym"):
            return t not in self.infix
        return (k == "sp" and t in ("(", "[", "{", "#")) or (k == "kw" and t in ("let", "op")) or k == "vec"

    def exp_app(self):
        e = self.atexp()
        while self.starts_atexp():
            e = ("app", e, self.atexp())
        return e

    def atexp(self):
        k, t, ln = self.next()
        if k == "int":
            return ("int", num(t))
        if k == "word":
            return ("word", num(t))
        if k == "real":
            return ("real", t)
        if k == "str":
            return ("str", unescape(t[1:-1]))
        if k == "chr":
            return ("char", unescape(t[2:-1])[0])
        if k in ("id", "long", "sym"):
            return ("var", t)
        if t == "op" and k == "kw":
            return ("var", self.next()[1])
        if t == "#" and k == "sp":
            return ("sel", self.next()[1])
        if t == "let":
            ds = self.decs(("in",))
            self.eat("in")
            es = [self.exp()]
            while self.opt(";"):
                es.append(self.exp())
            self.eat("end")
            return ("let", ds, es[0] if len(es) == 1 else ("seq", es))
        if t == "(":
            if self.opt(")"):
                return ("tuple", [])
            es = [self.exp()]
            if self.at(";"):
                while self.opt(";"):
                    es.append(self.exp())
                self.eat(")")
                return ("seq", es)
            while self.opt(","):
                es.append(self.exp())
            self.eat(")")
            return es[0] if len(es) == 1 else ("tuple", es)
        if t in ("[", "#["):
            es = []
            if not self.opt("]"):
                es.append(self.exp())
                while self.opt(","):
                    es.append(self.exp())
                self.eat("]")
            return ("list" if t == "[" else "vec", es)
        if t == "{":
            fs = []
            while not self.opt("}"):
                lab = self.next()[1]
                self.eat("=")
                fs.append((lab, self.exp()))
                self.opt(",")
            return ("rec", fs)
        self.p -= 1
        self.err("expression")

    # ------------------------------------------------------------ declarations
    def decs(self, stop=("eof",)):
        ds = []
        while True:
            while self.opt(";"):
                pass
            k, t, ln = self.peek()
            if k == "eof" or t in stop:
                return ds
            ds.append(self.dec())

    def tyvars(self):
        vs = []
        if self.peek()[0] == "tyvar":
            vs = [self.next()[1]]
        elif self.at("(") and self.peek(1)[0] == "tyvar":
            self.next()
            while not self.opt(")"):
                vs.append(self.next()[1])
                self.opt(",")
        return vs

    def dec(self):
        k, t, ln = self.next()
        if t == "val":
            self.tyvars()
            rec = self.opt("rec")
            bs = []
            while True:
                p = self.pat()
                self.eat("=")
                bs.append((p, self.exp()))
                if not self.opt("and"):
                    break
                rec = self.opt("rec") or rec
            return ("val", rec, bs, ln)
        if t == "fun":
            self.tyvars()
            fs = []
            while True:
                fs.append(self.fundec())
                if not self.opt("and"):
                    break
            return ("fun", fs, ln)
        if t in ("type", "eqtype"):
            out = []
            while True:
                vs = self.tyvars()
                n = self.next()[1]
                ty = None
                if self.opt("="):
                    ty = self.ty()
                out.append((vs, n, ty))
                if not self.opt("and"):
                    break
            return ("type", out)
        if t in ("datatype", "abstype"):
            return self.datatype(t)
        if t in ("prim_type", "prim_EQtype", "prim_eqtype"):
            vs = self.tyvars()
            n = self.next()[1]
            while self.opt("and"):
                self.tyvars()
                self.next()
            return ("primtype", vs, n)
        if t == "prim_val":
            n = self.next()[1]
            if n == "op":
                n = self.next()[1]
            self.eat(":")
            ty = self.ty()
            self.eat("=")
            ar = num(self.next()[1])
            s = self.next()[1][1:-1]
            return ("prim", n, ty, ar, s)
        if t == "exception":
            out = []
            while True:
                self.opt("op")
                n = self.next()[1]
                ty = alias = None
                if self.opt("of"):
                    ty = self.ty()
                elif self.opt("="):
                    alias = self.next()[1]
                out.append((n, ty, alias))
                if not self.opt("and"):
                    break
            return ("exception", out)
        if t == "local":
            a = self.decs(("in",))
            self.eat("in")
            b = self.decs(("end",))
            self.eat("end")
            return ("local", a, b)
        if t == "open":
            ns = []
            while self.peek()[0] in ("id", "long"):
                ns.append(self.next()[1])
            return ("open", ns)
        if t in ("infix", "infixr", "nonfix"):
            pr = 0
            if self.peek()[0] == "int":
                pr = num(self.next()[1])
            while self.peek()[0] in ("id", "sym") or (self.at("=")):
                x = self.next()[1]
                if t == "nonfix":
                    self.infix.pop(x, None)
                else:
                    self.infix[x] = (pr, "l" if t == "infix" else "r")
            return ("infix",)
        if t == "structure":
            n = self.next()[1]
            if self.at(":") or self.at(":>"):
                self.next()
                if self.at("sig"):
                    d = 0
                    while True:
                        x = self.next()[1]
                        d += (x == "sig") - (x == "end")
                        if d == 0:
                            break
                else:
                    self.next()
            self.eat("=")
            if self.at("struct"):
                self.next()
                ds = self.decs(("end",))
                self.eat("end")
                return ("structure", n, ds)
            return ("structure", n, self.next()[1])
        self.p -= 1
        self.err("declaration")

    def datatype(self, kw):
        out, types = [], []
        while True:
            vs = self.tyvars()
            n = self.next()[1]
            self.eat("=")
            if self.at("datatype"):
                self.next()
                return ("datarepl", n, self.next()[1])
            cons = []
            self.opt("|")
            while True:
                self.opt("op")
                c = self.next()[1]
                ty = self.ty() if self.opt("of") else None
                cons.append((c, ty))
                if not self.opt("|"):
                    break
            out.append((vs, n, cons))
            if not self.opt("and"):
                break
        if self.opt("withtype"):
            while True:
                vs = self.tyvars()
                n = self.next()[1]
                self.eat("=")
                types.append((vs, n, self.ty()))
                if not self.opt("and"):
                    break
        if kw == "abstype":
            self.eat("with")
            ds = self.decs(("end",))
            self.eat("end")
            return ("abstype", out, types, ds)
        return ("datatype", out, types)

    def fundec(self):
        """-> (name, [ (patterns, body) ])"""
        clauses, name = [], None
        while True:
            # infix form:  pat op pat  |  (pat op pat) pats
            save = self.p
            nm, ps = None, []
            if self.at("(") and self.infix_clause_ahead(1):
                self.next()
                a = self.atpat_app()
                nm = self.next()[1]
                b = self.atpat_app()
                self.eat(")")
                ps = [("ptuple", [a, b])]
                while self.starts_atpat():
                    ps.append(self.atpat())
            elif self.infix_clause_ahead(0):
                a = self.atpat_app()
                nm = self.next()[1]
                b = self.atpat_app()
                ps = [("ptuple", [a, b])]
            else:
                self.opt("op")
                nm = self.next()[1]
                while self.starts_atpat():
                    ps.append(self.atpat())
            if self.opt(":"):
                self.ty()
            self.eat("=")
            e = self.exp()
            name = name or nm
            if nm != name:
                self.err("clause of another function (%s, %s)" % (nm, name))
            clauses.append((ps, e))
            if not self.opt("|"):
                return (name, clauses)

    def atpat_app(self):
        return self.atpat()

    def infix_clause_ahead(self, off):
        """is the next clause head of the form  atpat infixid atpat ?"""
        save = self.p
        self.p += off
        try:
            if self.at("op"):
                return False
            if not self.starts_atpat():
                return False
            self.atpat()
            return self.is_infix() and self.peek()[1] != "="
        except ParseError:
            return False
        finally:
            self.p = save


def num(t):
    s = 1
    if t[0] == "~":
        s, t = -1, t[1:]
    if t.startswith("0wx"):
        v = int(t[3:], 16)
    elif t.startswith("0w"):
        v = int(t[2:])
    elif t.startswith("0x"):
        v = int(t[2:], 16)
    else:
        v = int(t)
    return s * v


def parse(src):
    p = Parser(src)
    ds = p.decs(("eof",))
    if p.peek()[0] != "eof":
        p.err("end of file")
    return ds
