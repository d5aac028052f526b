"""Mechanical translation of Standard ML functions to Verus proof functions.

Every SML function with a contract becomes one `proof fn`: its parameters become ghost parameters, its result the (ghost)
result, an exception a Res::Exn value, a mutated local object or ref an in/out value, an effectful functional argument a
transition function on a ghost world w.  Calls are calls of the callee's proof fn, hence checked against its contract.
Dropped: types (given by the contract), evaluation of pure sub-expressions happens in the logic, stack and heap limits.
"""
import re

from . import parse


class Attach(Exception):
    """the source has a shape the translation or the contract cannot follow"""


RUSTKW = {"as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop",
          "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe",
          "use", "where", "while", "proof", "spec", "exec", "int", "nat", "by", "is", "assert", "assume", "forall", "exists", "final", "open",
          "closed", "tracked", "ghost", "via", "when", "requires", "ensures", "decreases", "r", "ret", "w", "box", "priv", "try", "choose",
          "abstract", "become", "do", "macro", "override", "typeof", "unsized", "virtual", "yield", "set", "old", "group", "arbitrary", "has"}
SYMNAMES = dict(zip("!%&$#+-/:<=>?@\\~`^|*", "bang pct amp dol hash plus minus slash colon lt eq gt qm at bs tld bq hat bar star".split()))


def rust(n):
    n = n.replace("'", "_p")
    if not re.match(r"[A-Za-z_]", n):
        n = "op_" + "_".join(SYMNAMES.get(c, "x") for c in n)
    return n + "_" if n in RUSTKW else n


class Tup:
    def __init__(self, xs):
        self.xs = list(xs)


class Rec:
    def __init__(self, d, con=None, base=None):
        self.d = dict(d)


class Lam:
    def __init__(self, clauses, env):
        self.clauses, self.env = clauses, env


class Con:
    def __init__(self, name, info):
        self.name, self.info = name, info


class Part:
    """partially applied function"""

    def __init__(self, head, args):
        self.head, self.args = head, args


class Var:
    def __init__(self, term, ty=None, mut=False):
        self.term, self.ty, self.mut = term, ty, mut


class Mut:
    """term denoting a mutable object held in a Rust variable"""

    def __init__(self, name):
        self.name = name


class FunRef:
    def __init__(self, info, caps):
        self.info, self.caps = info, caps


class Inline:
    def __init__(self, name, clauses, env, arity):
        self.name, self.clauses, self.env, self.arity = name, clauses, env, arity


class Builtin:
    def __init__(self, fn, arity, name):
        self.fn, self.arity, self.name = fn, arity, name


class Comp:
    """f o g"""

    def __init__(self, f, g):
        self.f, self.g = f, g


class CpsSome:
    """the success continuation of a function translated to return an option"""

    def __init__(self, n):
        self.n = n


class CpsNone:
    pass


class SpecFn:
    """a function about to be specialised to its first arguments; rec: inside its own body"""

    def __init__(self, c, name, fixed=None):
        self.c, self.name, self.fixed = c, name, fixed


class Delay:
    """a val binding whose term is produced when used (top-level constants)"""

    def __init__(self, e, env):
        self.e, self.env = e, env


# ---------------------------------------------------------------- IR
class IR:
    def __init__(self, k, *a):
        self.k, self.a, self._eff = k, a, None

    def eff(self):
        if self._eff is None:
            self._eff = self._compute()
        return self._eff

    def _compute(self):
        k, a = self.k, self.a
        if k in ("ret", "fail"):
            return (False, ())
        if k == "raise":
            return (True, ())
        if k == "set":
            return (False, (a[0],))
        if k == "bind":
            return join(a[1].eff(), a[2].eff())
        if k == "if":
            return join(a[1].eff(), a[2].eff())
        if k in ("lets", "assert"):
            return a[1].eff()
        if k == "call":
            return a[2]
        if k == "handle":
            r1, m1 = a[0].eff()
            r2, m2 = a[2].eff()
            return (r2, union(m1, m2))
        if k == "scope":      # a mutable variable introduced here disappears
            r, m = a[2].eff()
            r1, m1 = a[1].eff()
            return (r or r1, union(m1, tuple(x for x in m if x != a[0])))
        raise Attach("ir " + k)


def union(a, b):
    return tuple(list(a) + [x for x in b if x not in a])


def join(e1, e2):
    return (e1[0] or e2[0], union(e1[1], e2[1]))


def ret(t):
    return IR("ret", t)


# ---------------------------------------------------------------- contracts
class P:
    """parameter: a name with a type, or a tuple of parameters"""

    def __init__(self, name=None, ty=None, sub=None, inout=False):
        self.name, self.ty, self.sub, self.inout = name, ty, sub, inout

    def flat(self):
        return [self] if self.sub is None else [x for s in self.sub for x in s.flat()]


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def parse_params(s):
    out = []
    for x in split_top(s):
        if x.startswith("("):
            out.append(P(sub=parse_params(x[1:-1])))
        elif x == "()":
            out.append(P(sub=[]))
        else:
            n, t = x.split(":", 1)
            t = t.strip()
            io = t.startswith("&")
            out.append(P(n.strip(), t.lstrip("&").strip(), None, io))
    return out


class Contract:
    def __init__(self, key, gen, params, ret, req=(), ens=(), dec=None, raises=False, cap="", inout="", pre="", post="", ints="math",
                 matchfail=False, attrs="", pure=None, lemma="", hint=None, vals=None, cps=None, of=None, fix=1):
        self.cps, self.of, self.fix, self.fixed = cps, of, fix, None
        self.key, self.gen, self.ret, self.raises = key, gen, ret, raises
        self.req = [req] if isinstance(req, str) else list(req)
        self.ens = [ens] if isinstance(ens, str) else list(ens)
        self.dec, self.pre, self.post, self.ints, self.matchfail, self.attrs = dec, pre, post, ints, matchfail, attrs
        self.params = parse_params(params)
        self.cap = [(n.strip(), t.strip()) for n, t in (x.split(":", 1) for x in split_top(cap))]
        self.inout = [(n.strip(), t.strip()) for n, t in (x.split(":", 1) for x in split_top(inout))]
        for p in [q for x in self.params for q in x.flat()]:
            if p.inout:
                self.inout.append((p.name, p.ty))
        self.pure = pure
        self.rname = "f_" + re.sub(r"[^A-Za-z0-9_]", lambda m: "_%02x" % ord(m.group()) if m.group() not in ".'" else ("__" if m.group() == "." else "_p"), key)
        self.status = "pending"
        self.types = dict([(p.name, p.ty) for x in self.params for p in x.flat()] + self.cap + self.inout)


class Data:
    """a datatype: constructors -> (index, fields or None, shape)"""

    def __init__(self, name, tyvars, cons):
        self.name, self.tyvars, self.cons = name, tyvars, cons


class ConInfo:
    def __init__(self, name, data, shape, fields, boxed):
        # shape: "none" | "one" | "tup" | "rec"; fields: labels
        self.name, self.data, self.shape, self.fields, self.boxed = name, data, shape, fields, boxed
        self.rname = rust(name) if name[0].isalpha() else rust(name)

    def path(self):
        return "D_%s::%s" % (rust(self.data), self.rname)


STDCON = {"nil", "::", "true", "false", "SOME", "NONE", "LESS", "EQUAL", "GREATER", "ref"}
STDEXN = ["Subscript", "Size", "Empty", "Overflow", "Div", "Match", "Bind", "Domain", "Chr", "Option", "Fail", "Interrupt", "Out_of_memory", "Io", "Span"]


class Module:
    def __init__(self, name, src, contracts, tymap=None, builtins=None, opens=()):
        self.name = name
        self.decs = parse.parse(src)
        self.contracts = {c.key: c for c in contracts}
        self.order = [c.key for c in contracts]
        self.exns = list(STDEXN)
        self.datas = []
        self.synonyms = {}
        self.out = {}         # key -> rust text
        self.counter = 0
        self.used = set()
        self.tymap = tymap or {}
        from . import std
        self.env = {}
        for n, b in std.builtins(self).items():
            self.env[n] = b
        self.env.update(builtins(self) if builtins else {})
        self.cur = None
        self.depth = 0
        self.errors = {}      # key -> reason
        self.seen = set()
        self.notes = []
        self.sources = {}

    # ------------------------------------------------------------ declarations
    def run(self):
        self.env = self.topdecs(self.decs, self.env)
        for k in self.contracts:
            if k not in self.seen:
                self.errors.setdefault(k, "no function of this name in the source")

    def topdecs(self, ds, env):
        env = dict(env)
        for d in ds:
            try:
                env = self.topdec(d, env)
            except Attach as e:
                names = []
                if d[0] == "fun":
                    names = [f[0] for f in d[1]]
                for n in names:
                    self.fail(n, str(e))
        return env

    def fail(self, key, why):
        for k in self.contracts:
            if k == key or k.startswith(key + "."):
                self.errors.setdefault(k, why)
                self.seen.add(k)

    def topdec(self, d, env):
        k = d[0]
        if k == "fun":
            env, infos = self.fundef(d[1], env, "", {})
            return env
        if k == "val":
            _, rec, bs, _ = d
            if rec:
                fs = []
                for p, e in bs:
                    p, e = strip_p(p), strip_e(e)
                    if p[0] != "pvar" or e[0] != "fn":
                        return env
                    fs.append((p[1], [([q], b) for q, b in e[1]]))
                env, _ = self.fundef(fs, env, "", {})
                return env
            for p, e in bs:
                p, e = strip_p(p), strip_e(e)
                if p[0] == "pvar" and e[0] == "fn" and self.find_contract(p[1], "") is not None:
                    fs = [(p[1], curry(e))]
                    env, _ = self.fundef(fs, env, "", {})
                elif p[0] == "pvar":
                    env[p[1]] = Delay(e, dict(env))
                else:
                    for x in patvars(p, self.conset(env)):
                        env[x] = Delay(("bad", "top-level pattern binding"), env)
            return env
        if k == "local":
            e1 = self.topdecs(d[1], env)
            return self.topdecs(d[2], e1)
        if k in ("datatype", "abstype"):
            self.datatype(d, env)
            if k == "abstype":
                env = self.topdecs(d[3], env)
            return env
        if k == "type":
            for vs, n, ty in d[1]:
                if ty is not None:
                    self.synonyms[n] = (vs, ty)
            return env
        if k == "exception":
            for n, ty, alias in d[1]:
                if alias:
                    env[n] = env.get(alias, Con(alias, "exn"))
                else:
                    if n not in self.exns:
                        self.exns.append(n)
                    env[n] = Con(n, "exn")
            return env
        if k == "prim":
            from . import std
            _, n, ty, ar, c = d
            f = std.PRIMS.get(c)
            env[n] = Builtin(f, ar, c) if f else Delay(("bad", "primitive " + c), env)
            return env
        if k in ("infix", "datarepl", "primtype"):
            return env
        if k == "open":
            for s in d[1]:
                for x in list(env):
                    if x.startswith(s + "."):
                        env[x[len(s) + 1:]] = env[x]
            return env
        if k == "structure":
            if isinstance(d[2], list):
                e1 = self.topdecs(d[2], env)
                for x, v in e1.items():
                    if env.get(x) is not v and "." not in x:
                        env[d[1] + "." + x] = v
                if d[1] == self.name:
                    return e1
            return env
        return env

    def conset(self, env):
        return env

    # ------------------------------------------------------------ types
    def datatype(self, d, env):
        group = [n for _, n, _ in d[1]]
        for vs, n, ty in d[2]:
            self.synonyms[n] = (vs, ty)
        edges = {}
        for _, n, cons in d[1]:
            edges[n] = {g for g in group for _, ty in cons if ty is not None and self.mentions(ty, [g])}
        reach = {n: set(e) for n, e in edges.items()}
        for _ in group:
            for n in group:
                for m in list(reach[n]):
                    reach[n] |= reach.get(m, set())
        for vs, n, cons in d[1]:
            cyc = [m for m in group if n in reach[m] or m == n]
            data = Data(n, vs, [])
            variants = []
            for c, ty in cons:
                if ty is None:
                    ci = ConInfo(c, n, "none", [], [])
                    variants.append(ci.rname)
                else:
                    ty = self.expand(ty)
                    if ty[0] == "tup":
                        fs = [("f%d" % i, t) for i, t in enumerate(ty[1])]
                        shape = "tup"
                    elif ty[0] == "rec":
                        fs = sorted(ty[1])
                        shape = "rec"
                    else:
                        fs = [("f0", ty)]
                        shape = "one"
                    boxed = [self.mentions(t, cyc) for _, t in fs]
                    ci = ConInfo(c, n, shape, [l for l, _ in fs], boxed)
                    variants.append("%s { %s }" % (ci.rname, ", ".join("%s: %s" % (rust(l), ("Box<%s>" if b else "%s") % self.rty(t))
                                                                       for (l, t), b in zip(fs, boxed))))
                env[c] = Con(c, ci)
            g = ", ".join(self.tyvar(v) for v in vs)
            neg = sorted({self.tyvar(v) for _, ty in cons if ty is not None for v in self.funvars(ty)})
            self.datas.append("".join("#[verifier::reject_recursive_types(%s)]\n" % v for v in neg) + "pub enum D_%s%s { %s }" % (rust(n), "<%s>" % g if g else "", ", ".join(variants)))

    def funvars(self, t, inside=False):
        t = self.expand(t)
        if t[0] == "var":
            return [t[1]] if inside else []
        if t[0] == "fun":
            return self.funvars(t[1], True) + self.funvars(t[2], True)
        if t[0] == "tup":
            return [v for x in t[1] for v in self.funvars(x, inside)]
        if t[0] == "rec":
            return [v for _, x in t[1] for v in self.funvars(x, inside)]
        if t[0] == "con":
            return [v for x in t[2] for v in self.funvars(x, inside)]
        return []

    def tyvar(self, v):
        v = v.lstrip("'_")
        return {"a": "A", "b": "B", "c": "C", "key": "K", "_a": "A", "_key": "K"}.get(v, v.upper())

    def expand(self, t):
        if t[0] == "con" and t[1] in self.synonyms and t[1] not in self.tymap:
            vs, body = self.synonyms[t[1]]
            return self.expand(subst(body, dict(zip(vs, t[2]))))
        return t

    def mentions(self, t, group):
        t = self.expand(t)
        if t[0] == "con":
            return t[1] in group or any(self.mentions(x, group) for x in t[2])
        if t[0] == "tup":
            return any(self.mentions(x, group) for x in t[1])
        return False

    def rty(self, t):
        t = self.expand(t)
        if t[0] == "var":
            return self.tyvar(t[1])
        if t[0] == "tup":
            return "(%s)" % ", ".join(self.rty(x) for x in t[1])
        if t[0] == "fun":
            a = self.expand(t[1])
            return "spec_fn(%s) -> %s" % (self.rty(a), self.rty(t[2]))
        if t[0] == "con":
            n = t[1]
            if n in self.tymap:
                return self.tymap[n]
            std = {"int": "int", "bool": "bool", "unit": "()", "string": "Seq<int>", "char": "int", "order": "Order", "word": "int", "exn": "Exn",
                   "real": "int"}
            if n in std:
                return std[n]
            if n in ("list", "vector", "List.list", "Vector.vector", "array", "Array.array"):
                return "Seq<%s>" % self.rty(t[2][0])
            if n in ("option", "Option.option"):
                return "Option<%s>" % self.rty(t[2][0])
            a = ", ".join(self.rty(x) for x in t[2])
            return "D_%s%s" % (rust(n), "<%s>" % a if a else "")
        raise Attach("type %s" % (t,))

    # ------------------------------------------------------------ functions
    def find_contract(self, name, outer):
        key = outer + "." + name if outer else name
        c = self.contracts.get(key)
        if c is not None and key in self.seen:
            # a later definition of the same name: contract "name#2"
            i = 2
            while "%s#%d" % (key, i) in self.contracts and "%s#%d" % (key, i) in self.seen:
                i += 1
            return self.contracts.get("%s#%d" % (key, i))
        return c

    def fundef(self, fs, env, outer, scope):
        """fs: [(name, clauses)] mutually recursive -> env with references, [infos]"""
        env = dict(env)
        infos = []
        for name, clauses in fs:
            c = self.find_contract(name, outer)
            if c is not None and c.of:
                c = None
            if c is None and outer:
                c = self.rematch(name, clauses, outer, [f[0] for f in fs])
            infos.append(c)
        inner = dict(env)
        if not outer:
            for name, clauses in fs:
                self.sources[name] = (clauses, inner)
        for (name, clauses), c in zip(fs, infos):
            if c is None:
                v = Inline(name, clauses, None, len(clauses[0][0]))
                env[name] = inner[name] = v
            else:
                self.seen.add(c.key)
                caps = {}
                for n, t in c.cap + [x for x in c.inout if x[0] not in [p.name for q in c.params for p in q.flat()]]:
                    if n == "w" and t in ("W", "World"):
                        continue
                    if n not in env:
                        raise Attach("%s: captured variable %s not found" % (c.key, n))
                    caps[n] = n
                env[name] = FunRef(c, dict((n, env[n]) for n in caps))
                inner[name] = FunRef(c, None)
        for (name, clauses), c in zip(fs, infos):
            if c is None:
                env[name].env = dict(env)
                inner[name].env = dict(inner)
        for (name, clauses), c in zip(fs, infos):
            if c is not None:
                try:
                    self.function(c, clauses, inner, scope)
                except Attach as e:
                    self.errors.setdefault(c.key, str(e))
                except RecursionError:
                    self.errors.setdefault(c.key, "recursion limit of the translator")
        return env, infos

    def rematch(self, name, clauses, outer, names):
        cands = [c for k, c in self.contracts.items() if k.rpartition(".")[0] == outer and k not in self.seen and
                 k.rpartition(".")[2] not in self.localnames.get(outer, ())]
        n = len(clauses[0][0])
        cands = [c for c in cands if len(c.params) == n]
        if len(cands) == 1 and any(calls(b, name) for _, b in clauses):
            self.notes.append("contract %s attached to %s.%s" % (cands[0].key, outer, name))
            return cands[0]
        return None

    def function(self, c, clauses, env, scope):
        saved = (self.cur, self.used, self.counter)
        self.cur, self.used, self.counter = c, set(), 0
        self.localnames = getattr(self, "localnames", {})
        self.localnames[c.key] = set(localfuns(clauses))
        try:
            env = dict(env)
            # local variables of enclosing functions are only visible when captured
            for n in list(env):
                v = env[n]
                if isinstance(v, Var) and v.ty != "global":
                    del env[n]
            for n, t in c.cap:
                if not isinstance(env.get(n), Lam):
                    env[n] = Var(rust_p(n), t)
                self.used.add(rust_p(n))
            for n, t in c.inout:
                env[n] = Var(Mut(rust_p(n)), t, True)
                self.used.add(rust_p(n))
            # functions in scope whose captured variables are not available here
            for n, v in list(env.items()):
                if isinstance(v, FunRef) and v.caps is not None and v.caps:
                    if all(x in env and isinstance(env[x], Var) for x in v.caps):
                        env[n] = FunRef(v.info, dict((x, env[x]) for x in v.caps))
                elif isinstance(v, FunRef) and v.caps is None:
                    cs = [x for x, _ in v.info.cap] + [x for x, ty in v.info.inout if x not in [p.name for q in v.info.params for p in q.flat()] and
                                                      not (x == "w" and ty in ("W", "World"))]
                    if all(x in env for x in cs):
                        env[n] = FunRef(v.info, dict((x, env[x]) for x in cs))
            terms, ptypes = list(c.fixed or ()), {}
            for p in c.params:
                terms.append(self.pterm(p))
            if c.cps:
                terms += [CpsSome(c.cps), CpsNone()]
            for x in c.params:
                for p in x.flat():
                    self.used.add(rust_p(p.name))
                    ptypes[rust_p(p.name)] = p.ty
            self.ptypes = getattr(self, "ptypes", {})
            old = self.ptypes
            self.ptypes = dict(old)
            self.ptypes.update(ptypes)
            for n, t in c.cap:
                self.ptypes[rust_p(n)] = t
            self.scopekey = c.key
            n = len(clauses[0][0])
            if n > len(terms):
                raise Attach("arity")
            extra = terms[n:]
            cl = []
            for ps, b in clauses:
                cl.append((ps, b))
            body = self.match(cl, terms[:n], env, lambda b, e: self.evt_app(b, e, extra))
            self.out[c.key] = self.emit_function(c, body)
            self.ptypes = old
        finally:
            self.cur, self.used, self.counter = saved

    def pterm(self, p):
        if p.sub is not None:
            return Tup([self.pterm(x) for x in p.sub])
        return Mut(rust_p(p.name)) if p.inout else rust_p(p.name)

    # ------------------------------------------------------------ pattern matching
    def match(self, clauses, terms, env, body, otherwise=None):
        """clauses: [([pats], x)]; body(x, env) -> IR"""
        if not clauses:
            if otherwise is not None:
                return otherwise
            if self.cur is not None and self.cur.matchfail:
                return IR("raise", "Exn::Match")
            return IR("fail", "match")
        pats, x = clauses[0]
        if len(pats) != len(terms):
            raise Attach("clause arity")
        conds, binds = [], []
        e = dict(env)
        for p, t in zip(pats, terms):
            self.pmatch(p, t, e, conds, binds)
        b = body(x, e)
        for n, t in reversed(binds):
            b = IR("lets", [(n, t)], b)
        if not conds:
            return b
        rest = self.match(clauses[1:], terms, env, body, otherwise)
        if rest.k == "fail" and self.exhaustive(clauses[:1], terms):
            return b
        return IR("if", " && ".join(conds), b, rest)

    def exhaustive(self, clauses, terms):
        return False

    def fresh(self, base="t"):
        base = rust(base)
        n = base
        while n in self.used or n in RUSTKW:
            self.counter += 1
            n = "%s_%d" % (base, self.counter)
        self.used.add(n)
        return n

    def bindvar(self, x, t, env, binds):
        if isinstance(t, str) and not re.match(r"^[A-Za-z_][A-Za-z0-9_]*$|^\d+$", t):
            n = self.fresh(x)
            binds.append((n, t))
            t = n
        if isinstance(t, (FunRef, Inline, Lam, Builtin, Comp, Part, CpsSome, CpsNone, SpecFn)):
            env[x] = t
            return
        env[x] = Var(t, self.ptypes.get(t) if isinstance(t, str) else None, isinstance(t, Mut))

    def pmatch(self, p, t, env, conds, binds):
        k = p[0]
        if k == "ptyped":
            return self.pmatch(p[1], t, env, conds, binds)
        if k == "pwild":
            return
        if k == "pvar":
            c = env.get(p[1]) if (not isinstance(env.get(p[1]), Var)) else None
            if p[1] in STDCON or isinstance(c, Con):
                return self.pcon(p[1], None, t, env, conds, binds)
            return self.bindvar(p[1], t, env, binds)
        if k == "pas":
            self.bindvar(p[1], t, env, binds)
            t2 = env[p[1]].term
            if isinstance(t2, str) and t2 != t:
                # tests refer to the matched term, since the variable is bound only after them
                saved = (set(self.used), self.counter)
                self.pmatch(p[2], t, dict(env), conds, [])
                self.used, self.counter = saved
                return self.pmatch(p[2], t2, env, [], binds)
            return self.pmatch(p[2], t, env, conds, binds)
        if k in ("pint", "pword"):
            conds.append("%s == %s" % (self.s(t), lit(p[1])))
            return
        if k == "pstr":
            conds.append("%s == %s" % (self.s(t), strlit(p[1])))
            return
        if k == "ptuple":
            if isinstance(t, Tup):
                if len(t.xs) != len(p[1]):
                    raise Attach("tuple pattern")
                for q, x in zip(p[1], t.xs):
                    self.pmatch(q, x, env, conds, binds)
            else:
                for i, q in enumerate(p[1]):
                    self.pmatch(q, "%s.%d" % (self.s(t), i), env, conds, binds)
            return
        if k in ("plist", "pvec"):
            s = self.s(t)
            conds.append("%s.len() == %d" % (s, len(p[1])))
            for i, q in enumerate(p[1]):
                self.pmatch(q, "%s[%d]" % (s, i), env, conds, binds)
            return
        if k == "prec":
            if not isinstance(t, Rec):
                raise Attach("record pattern")
            for l, q in p[1]:
                if l not in t.d:
                    raise Attach("record label " + l)
                self.pmatch(q, t.d[l], env, conds, binds)
            return
        if k == "pcon":
            return self.pcon(p[1], p[2], t, env, conds, binds)
        raise Attach("pattern " + k)

    def pcon(self, c, arg, t, env, conds, binds):
        if c == "ref":
            raise Attach("ref pattern")
        s = self.s(t)
        if c == "nil":
            conds.append("%s.len() == 0" % s)
        elif c == "::":
            conds.append("%s.len() > 0" % s)
            self.pmatch(arg, Tup(["%s[0]" % s, "%s.drop_first()" % s]), env, conds, binds)
        elif c in ("true", "false"):
            conds.append(s if c == "true" else "!%s" % s)
        elif c == "NONE":
            conds.append("(%s is None)" % s)
        elif c == "SOME":
            conds.append("(%s is Some)" % s)
            self.pmatch(arg, "%s->Some_0" % s, env, conds, binds)
        elif c in ("LESS", "EQUAL", "GREATER"):
            conds.append("%s == Order::%s" % (s, c))
        else:
            v = env.get(c)
            if not isinstance(v, Con):
                raise Attach("constructor " + c)
            if v.info == "exn":
                conds.append("(%s is %s)" % (s, exname(v.name)))
                if arg is not None:
                    self.pmatch(arg, "%s->%s_0" % (s, exname(v.name)), env, conds, binds)
                return
            ci = v.info
            conds.append("(%s is %s)" % (s, ci.rname))
            if arg is None:
                return
            self.pmatch(arg, self.payload(ci, s), env, conds, binds)

    def payload(self, ci, s):
        fs = []
        for l, b in zip(ci.fields, ci.boxed):
            x = "%s->%s_%s" % (s, ci.rname, rust(l))
            fs.append("(*%s)" % x if b else x)
        if ci.shape == "one":
            return fs[0]
        if ci.shape == "tup":
            return Tup(fs)
        return Rec(dict(zip(ci.fields, fs)))

    def construct(self, ci, arg):
        if ci.shape == "none":
            return ci.path()
        if ci.shape == "one":
            xs = [arg]
        elif ci.shape == "tup":
            xs = arg.xs if isinstance(arg, Tup) else ["%s.%d" % (self.s(arg), i) for i in range(len(ci.fields))]
        else:
            if not isinstance(arg, Rec):
                raise Attach("record argument of " + ci.name)
            xs = [arg.d[l] for l in ci.fields]
        return "%s { %s }" % (ci.path(), ", ".join("%s: %s" % (rust(l), ("Box::new(%s)" if b else "%s") % self.s(x))
                                                   for l, b, x in zip(ci.fields, ci.boxed, xs)))

    # ------------------------------------------------------------ terms
    def s(self, t):
        if isinstance(t, str):
            return t
        if isinstance(t, Tup):
            if len(t.xs) == 0:
                return "()"
            return "(%s)" % ", ".join(self.s(x) for x in t.xs)
        if isinstance(t, Mut):
            return t.name
        if isinstance(t, CpsNone):
            return "None"
        if isinstance(t, Lam):
            return self.lam(t)
        if isinstance(t, Con):
            if t.info == "exn":
                return "Exn::%s" % exname(t.name)
            return self.construct(t.info, None)
        if isinstance(t, FunRef) and t.info.pure:
            return t.info.pure
        if isinstance(t, Part):
            raise Attach("partial application")
        raise Attach("value of kind %s" % type(t).__name__)

    def lam(self, l):
        """a lambda as a spec closure: the body must be pure"""
        if len(l.clauses) != 1:
            raise Attach("lambda with several clauses")
        p, b = l.clauses[0]
        p = strip_p(p)
        env = dict(l.env)
        x = self.fresh("x")
        conds, binds = [], []
        self.pmatch(p, x, env, conds, binds)
        if conds:
            raise Attach("refutable lambda")
        t = self.pure(b, env)
        if t is None:
            raise Attach("effectful lambda")
        t = self.s(t)
        for n, y in reversed(binds):
            t = "{ let %s = %s; %s }" % (n, self.s(y), t)
        return "|%s| %s" % (x, t)

    def pure(self, e, env, k=None):
        """term of an expression without effects, or None"""
        n = len(self.used)
        used, counter = set(self.used), self.counter
        try:
            ir = self.evt(e, env)
        except Attach:
            self.used, self.counter = used, counter
            raise
        t = self.ir_term(ir)
        return t

    def ir_term(self, ir):
        if ir.k == "ret":
            return ir.a[0]
        if ir.k == "if":
            a, b = self.ir_term(ir.a[1]), self.ir_term(ir.a[2])
            if a is None or b is None:
                return None
            return "(if %s { %s } else { %s })" % (ir.a[0], self.s(a), self.s(b))
        if ir.k == "lets":
            b = self.ir_term(ir.a[1])
            if b is None:
                return None
            return "({ %s %s })" % (" ".join("let %s = %s;" % (n, self.s(t)) for n, t in ir.a[0]), self.s(b))
        if ir.k == "bind":
            a, b = self.ir_term(ir.a[1]), self.ir_term(ir.a[2])
            if a is None or b is None:
                return None
            return "({ let %s = %s; %s })" % (ir.a[0], self.s(a), self.s(b))
        if ir.k == "fail":
            return "arbitrary()"
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, k):
        """evaluates e, continues with its term"""
        kd = e[0]
        if kd == "typed":
            return self.ev(e[1], env, k)
        if kd in ("int", "word", "char"):
            return k(lit(e[1]))
        if kd == "str":
            return k(strlit(e[1]))
        if kd == "tuple":
            if len(e[1]) == 0:
                return k(Tup([]))
            return self.evs(e[1], env, lambda ts: k(Tup(ts)))
        if kd == "rec":
            return self.evs([x for _, x in e[1]], env, lambda ts: k(Rec(dict(zip([l for l, _ in e[1]], ts)))))
        if kd == "var":
            return self.var(e[1], env, k)
        if kd == "fn":
            return k(Lam(e[1], env))
        if kd == "list":
            return self.evs(e[1], env, lambda ts: k("seq![%s]" % ", ".join(self.s(t) for t in ts) if ts else "Seq::empty()"))
        if kd == "sel":
            return k(Lam([(("pvar", "x"), ("selof", e[1], ("var", "x")))], env))
        if kd == "selof":
            return self.ev(e[2], env, lambda t: k(self.select(e[1], t)))
        ir = self.evt(e, env)
        if ir.k == "ret":
            return k(ir.a[0])
        x = self.fresh("t")
        return bind(x, ir, k(x), self)

    def select(self, lab, t):
        if isinstance(t, Rec):
            return t.d[lab]
        if lab.isdigit():
            if isinstance(t, Tup):
                return t.xs[int(lab) - 1]
            return "%s.%d" % (self.s(t), int(lab) - 1)
        raise Attach("record selection")

    def evs(self, es, env, k, acc=()):
        if not es:
            return k(list(acc))
        return self.ev(es[0], env, lambda t: self.evs(es[1:], env, k, list(acc) + [t]))

    def specialised(self, n):
        if self.cur is None:
            return None
        b = n.split(".")[-1]
        outer = self.cur.key
        while outer:
            c = self.contracts.get(outer + "." + b)
            if c is not None and c.of == n:
                return SpecFn(c, n)
            outer = outer.rpartition(".")[0]
        return None

    def spec_source(self, n):
        if n in self.sources:
            return self.sources[n]
        m, _, b = n.rpartition(".")
        if not m:
            raise Attach("no source of " + n)
        from . import run
        src, _ = run.source(m)
        mod = Module(m, src, [])
        mod.run()
        v = mod.env.get(b)
        if not isinstance(v, Inline):
            raise Attach("no source of " + n)
        self.sources[n] = (v.clauses, v.env)
        return self.sources[n]

    def same(self, a, b):
        if a is b or (isinstance(a, str) and a == b):
            return True
        if isinstance(a, FunRef) and isinstance(b, FunRef):
            return a.info is b.info
        if isinstance(a, (Lam,)) and isinstance(b, Lam):
            return a.clauses is b.clauses
        return type(a) is type(b) and isinstance(a, (Builtin, Inline)) and a.name == b.name

    def spec_call(self, f, ts):
        c = f.c
        if len(ts) < c.fix:
            return ret(Part(f, ts))
        if f.fixed is not None or c.fixed is not None:
            if not all(self.same(x, y) for x, y in zip(c.fixed, ts)):
                raise Attach("%s specialised to different arguments" % f.name)
        caps = {}
        for n, t in c.cap + [x for x in c.inout if x[0] not in [p.name for q in c.params for p in q.flat()] and not (x[0] == "w" and x[1] in ("W", "World"))]:
            io = n in [x for x, _ in c.inout]
            caps[n] = Var(Mut(rust_p(n)) if io else rust_p(n), t, io)
        if f.fixed is None and c.fixed is None:
            clauses, env = self.spec_source(f.name)
            c.fixed = list(ts[:c.fix])
            self.seen.add(c.key)
            env = dict(env)
            env[f.name.split(".")[-1]] = SpecFn(c, f.name, c.fixed)
            save = (self.cur, self.used, self.counter, self.ptypes)
            # captured variables of the fixed arguments keep the names they have here
            try:
                self.function(c, clauses, env, {})
            except Attach as e:
                self.errors.setdefault(c.key, str(e))
            finally:
                self.cur, self.used, self.counter, self.ptypes = save
        return self.applyt(FunRef(c, caps), ts[c.fix:]) if len(ts) > c.fix else ret(FunRef(c, caps))

    def var(self, n, env, k):
        v = self.specialised(n)
        if v is not None and not (isinstance(env.get(n), SpecFn)):
            return k(v)
        v = env.get(n)
        if v is None and n.startswith(self.name + "."):
            v = env.get(n[len(self.name) + 1:])
        if v is None and n.startswith("General."):
            v = env.get(n[8:])
        if isinstance(v, Var):
            return k(v.term)
        if isinstance(v, Delay):
            if v.e[0] == "bad":
                raise Attach(v.e[1])
            if self.depth > 40:
                raise Attach("recursive value")
            self.depth += 1
            try:
                return self.ev(v.e, v.env, k)
            finally:
                self.depth -= 1
        if isinstance(v, Builtin) and v.arity == 0:
            return v.fn(self, [], k)
        if v is not None:
            if isinstance(v, Con) and v.info != "exn" and v.info.shape == "none":
                return k(v.info.path())
            return k(v)
        if n == "nil":
            return k("Seq::empty()")
        if n in ("true", "false"):
            return k(n)
        if n == "NONE":
            return k("None")
        if n in ("LESS", "EQUAL", "GREATER"):
            return k("Order::" + n)
        if n in ("SOME", "::"):
            return k(Builtin(None, 1, n))
        b = n.split(".")[-1]
        if b in STDEXN:
            return k(Con(b, "exn"))
        raise Attach("unknown identifier " + n)

    def evt(self, e, env):
        """IR of e in tail position"""
        kd = e[0]
        if kd == "typed":
            return self.evt(e[1], env)
        if kd == "if":
            return self.ev(e[1], env, lambda c: self.mkif(self.s(c), lambda: self.evt(e[2], env), lambda: self.evt(e[3], env)))
        if kd == "andalso" or kd == "orelse":
            def k(a):
                b = self.evt(e[2], env)
                if b.k == "ret":
                    return ret("(%s %s %s)" % (self.s(a), "&&" if kd == "andalso" else "||", self.s(b.a[0])))
                if kd == "andalso":
                    return IR("if", self.s(a), b, ret("false"))
                return IR("if", self.s(a), ret("true"), b)
            return self.ev(e[1], env, k)
        if kd == "raise":
            return self.ev(e[1], env, lambda t: IR("raise", self.exn(t)))
        if kd == "case":
            def kc(t):
                return self.match([([p], b) for p, b in e[2]], [t], env, lambda b, en: self.evt(b, en))
            return self.ev(e[1], env, lambda t: self.named(t, kc))
        if kd == "seq":
            es = e[1]
            if len(es) == 1:
                return self.evt(es[0], env)
            return self.ev(es[0], env, lambda t: self.evt(("seq", es[1:]), env))
        if kd == "let":
            return self.lets(e[1], env, lambda en: self.evt(e[2], en))
        if kd == "handle":
            a = self.evt(e[1], env)
            x = self.fresh("ex")
            b = self.match([([p], h) for p, h in e[2]], [x], env, lambda h, en: self.evt(h, en), IR("raise", x))
            return IR("handle", a, x, b)
        if kd == "app":
            head, args = e, []
            while head[0] in ("app", "typed"):
                if head[0] == "app":
                    args.insert(0, head[2])
                head = head[1]
            return self.apply(head, args, env)
        if kd == "while":
            raise Attach("while loop")
        if kd == "bad":
            raise Attach(e[1])
        return self.ev(e, env, ret)

    def named(self, t, k):
        """gives a complex scrutinee a name"""
        if isinstance(t, str) and not re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", t):
            x = self.fresh("t")
            return IR("lets", [(x, t)], k(x))
        return k(t)

    def mkif(self, c, a, b):
        if c == "true":
            return a()
        if c == "false":
            return b()
        return IR("if", c, a(), b())

    def exn(self, t):
        if isinstance(t, Con) and t.info == "exn":
            return "Exn::%s" % exname(t.name) if t.name not in ("Fail", "Io") else "Exn::%s" % t.name
        return self.s(t)

    def apply(self, head, args, env):
        if head[0] == "sel" and len(args) == 1:
            return self.ev(args[0], env, lambda t: ret(self.select(head[1], t)))
        if head[0] in ("if", "case", "let", "seq", "raise"):
            # distribute the application
            return self.evs(args, env, lambda ts: self.evt_app(head, env, ts))
        if head[0] == "var" and head[1] == "!" and args[0][0] == "app":
            pass
        return self.ev(head, env, lambda f: self.evs(args, env, lambda ts: self.applyt(f, ts)))

    def evt_app(self, e, env, ts):
        """e applied to already evaluated arguments"""
        if not ts:
            return self.evt(e, env)
        if e[0] == "typed":
            return self.evt_app(e[1], env, ts)
        if e[0] == "if":
            return self.ev(e[1], env, lambda c: self.mkif(self.s(c), lambda: self.evt_app(e[2], env, ts), lambda: self.evt_app(e[3], env, ts)))
        if e[0] == "let":
            return self.lets(e[1], env, lambda en: self.evt_app(e[2], en, ts))
        if e[0] == "raise":
            return self.evt(e, env)
        if e[0] == "seq":
            if len(e[1]) == 1:
                return self.evt_app(e[1][0], env, ts)
            return self.ev(e[1][0], env, lambda t: self.evt_app(("seq", e[1][1:]), env, ts))
        if e[0] == "case":
            return self.ev(e[1], env, lambda t: self.named(t, lambda t: self.match([([p], b) for p, b in e[2]], [t], env, lambda b, en: self.evt_app(b, en, ts))))
        if e[0] == "fn":
            return self.applyt(Lam(e[1], env), ts)
        return self.ev(e, env, lambda f: self.applyt(f, ts))

    def applyt(self, f, ts):
        if not ts:
            return ret(f)
        if isinstance(f, Part):
            return self.applyt(f.head, f.args + ts)
        if isinstance(f, Con):
            if f.info == "exn":
                if f.name in ("Fail", "Io"):
                    return ret("Exn::%s" % f.name)
                return ret("Exn::%s(%s)" % (exname(f.name), self.s(ts[0])))
            return ret(self.construct(f.info, ts[0]))
        if isinstance(f, Builtin):
            if f.name == "SOME":
                return ret("Some(%s)" % self.s(ts[0]))
            if f.name == "::":
                a, b = self.pair(ts[0])
                if self.s(b) == "Seq::empty()":
                    return ret("seq![%s]" % self.s(a))
                return ret("seq![%s].add(%s)" % (self.s(a), self.s(b)))
            if f.fn is None:
                raise Attach("builtin " + f.name)
            if len(ts) < f.arity:
                return ret(Part(f, ts))
            r = f.fn(self, ts[:f.arity], ret)
            if len(ts) > f.arity:
                x = self.fresh("t")
                if r.k == "ret":
                    return self.applyt(r.a[0], ts[f.arity:])
                raise Attach("result of %s applied" % f.name)
            return r
        if isinstance(f, Comp):
            r = self.applyt(f.g, ts[:1])
            if r.k == "ret":
                return self.applyt(f.f, [r.a[0]] + ts[1:])
            x = self.fresh("t")
            return bind(x, r, self.applyt(f.f, [x] + ts[1:]), self)
        if isinstance(f, Lam):
            self.depth += 1
            if self.depth > 60:
                raise Attach("inlining too deep")
            try:
                return self.match([([p], b) for p, b in f.clauses], ts[:1], f.env, lambda b, en: self.evt_app(b, en, ts[1:]))
            finally:
                self.depth -= 1
        if isinstance(f, Inline):
            if len(ts) < f.arity:
                return ret(Part(f, ts))
            self.depth += 1
            if self.depth > 25:
                raise Attach("function %s has no contract and is recursive" % f.name)
            try:
                return self.match([(ps, b) for ps, b in f.clauses], ts[:f.arity], f.env, lambda b, en: self.evt_app(b, en, ts[f.arity:]))
            finally:
                self.depth -= 1
        if isinstance(f, SpecFn):
            return self.spec_call(f, ts)
        if isinstance(f, CpsSome):
            if len(ts) < f.n:
                return ret(Part(f, ts))
            if len(ts) > f.n:
                raise Attach("continuation applied to too many arguments")
            return ret("Some(%s)" % self.s(Tup(ts)) if len(ts) > 1 else "Some(%s)" % self.s(ts[0]))
        if isinstance(f, FunRef):
            return self.callf(f, ts)
        if isinstance(f, str):
            ty = self.ptypes.get(f)
            if ty is None and not re.match(r"^[A-Za-z_]\w*$", f):
                ty = "spec_fn"
            if ty is None:
                ty = "spec_fn"
            ty = self.tymap.get(ty, ty)
            if ty.startswith("spec_fn(W"):
                args = [self.s(ts[0])]
                raises = "Res<" in ty
                return IR("call", "%s(w, %s)" % (f, args[0]), ("w",), (raises, ("w",)))
            t = "%s(%s)" % (f, self.s(ts[0]))
            if len(ts) > 1:
                return self.applyt("(%s)" % t, ts[1:])
            return ret(t)
        raise Attach("application of %s" % type(f).__name__)

    def pair(self, t):
        if isinstance(t, Tup) and len(t.xs) == 2:
            return t.xs
        s = self.s(t)
        return ["%s.0" % s, "%s.1" % s]

    def callf(self, f, ts):
        c = f.info
        np = len(c.params)
        if c.cps:
            if len(ts) < np + 2:
                return ret(Part(f, ts))
            some, none, more = ts[np], ts[np + 1], ts[np + 2:]
            ts = ts[:np]
            if not (isinstance(some, CpsSome) and isinstance(none, CpsNone)):
                c2 = Contract.__new__(Contract)
                c2.__dict__ = dict(c.__dict__, cps=None)
                call = self.callf(FunRef(c2, f.caps), ts)
                x = self.fresh("opt")
                args = ["%s->Some_0.%d" % (x, i) for i in range(c.cps)] if c.cps > 1 else ["%s->Some_0" % x]
                b1 = self.applyt(some, args + more)
                b2 = self.applyt(none, more)
                return bind(x, call, IR("if", "(%s is Some)" % x, b1, b2), self)
        if len(ts) < np:
            return ret(Part(f, ts))
        if len(ts) > np:
            raise Attach("too many arguments of " + c.key)
        args, actual = [], {}
        caps = f.caps or {}
        for n, t in c.cap:
            v = caps.get(n)
            if v is None:
                raise Attach("captured variable %s of %s" % (n, c.key))
            if not hasattr(v, "term"):
                # inside a specialised function its own parameter may have the name of a variable captured by the fixed argument
                if self.cur is None or n not in [x for x, _ in self.cur.cap]:
                    raise Attach("captured variable %s of %s is not a value" % (n, c.key))
                args.append(rust_p(n))
                continue
            args.append(self.s(v.term))
        pn = [p.name for q in c.params for p in q.flat()]

        def put(p, t):
            if p.sub is None:
                if p.inout:
                    if not isinstance(t, Mut):
                        raise Attach("argument of %s is not a mutable variable" % c.key)
                    actual[p.name] = t.name
                else:
                    args.append(self.s(t))
            elif isinstance(t, Tup) and len(t.xs) == len(p.sub):
                for q, x in zip(p.sub, t.xs):
                    put(q, x)
            elif len(p.sub) == 0:
                pass
            elif isinstance(t, Tup):
                raise Attach("argument tuple of " + c.key)
            else:
                s = self.s(t)
                for i, q in enumerate(p.sub):
                    put(q, "%s.%d" % (s, i))
        for p, t in zip(c.params, ts):
            put(p, t)
        for n, t in c.inout:
            if n not in pn:
                if n == "w":
                    actual[n] = "w"
                    continue
                v = caps.get(n)
                if v is None or not isinstance(v.term, Mut):
                    raise Attach("captured mutable %s of %s" % (n, c.key))
                actual[n] = v.term.name
        mods = tuple(actual[n] for n, _ in c.inout)
        if len(set(mods)) != len(mods):
            raise Attach("aliased mutable arguments")
        args += list(mods)
        return IR("call", "%s(%s)" % (c.rname, ", ".join(args)), mods, (c.raises, mods))

    # ------------------------------------------------------------ declarations inside expressions
    def lets(self, ds, env, k):
        if not ds:
            return k(env)
        d, rest = ds[0], ds[1:]
        if d[0] == "fun":
            env, infos = self.localfun(d[1], env)
            return self.lets(rest, env, k)
        if d[0] == "val":
            _, rec, bs, _ = d
            if rec:
                fs = []
                for p, e in bs:
                    p, e = strip_p(p), strip_e(e)
                    if p[0] != "pvar" or e[0] != "fn":
                        raise Attach("val rec")
                    fs.append((p[1], [([q], b) for q, b in e[1]]))
                env, _ = self.localfun(fs, env)
                return self.lets(rest, env, k)
            if len(bs) > 1:
                ds2 = [("val", False, [b], d[3]) for b in bs]
                return self.lets(ds2 + list(rest), env, k)
            p, e = bs[0]
            p, e = strip_p(p), strip_e(e)
            if p[0] == "pvar" and self.allocates(e, env):
                a = self.evt(e, env)
                x = self.fresh(p[1])
                en = dict(env)
                en[p[1]] = Var(Mut(x), None, True)
                b = self.lets(rest, en, k)
                return IR("scope", x, a, b)
            if p[0] == "pvar" and e[0] == "fn":
                c = self.find_contract(p[1], self.cur.key)
                if c is not None:
                    env, _ = self.localfun([(p[1], curry(e))], env)
                    return self.lets(rest, env, k)

            def kk(t):
                if p[0] == "pvar" and not isinstance(t, str):
                    en = dict(env)
                    en[p[1]] = Var(t, None, isinstance(t, Mut)) if isinstance(t, (Tup, Rec, Mut)) else t
                    return self.lets(rest, en, k)

                def body(x, en):
                    return self.lets(rest, en, k)
                if isinstance(t, str) and not re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", t) and p[0] != "pvar":
                    return self.named(t, lambda t: self.match([([p], None)], [t], env, body))
                return self.match([([p], None)], [t], env, body)
            ir = None
            if p[0] == "pvar" and e[0] not in ("fn",):
                # keep the source name for the contract's hints
                a = self.evt(e, env)
                if a.k != "ret":
                    x = self.fresh(p[1])
                    en = dict(env)
                    en[p[1]] = Var(x)
                    return bind(x, a, self.lets(rest, en, k), self)
                return kk(a.a[0])
            return self.ev(e, env, kk)
        if d[0] == "local":
            return self.lets(list(d[1]) + list(d[2]) + list(rest), env, k)
        if d[0] == "open":
            return self.lets(rest, self.topdec(d, env), k)
        if d[0] == "exception":
            return self.lets(rest, self.topdec(d, dict(env)), k)
        if d[0] in ("infix", "type"):
            return self.lets(rest, env, k)
        raise Attach("local declaration " + d[0])

    def localfun(self, fs, env):
        save = (self.cur, self.used, self.counter, self.ptypes)
        cur = self.cur
        try:
            env, infos = self.fundef(fs, env, cur.key, {})
        finally:
            self.cur, self.used, self.counter, self.ptypes = save
        for c in infos:
            if c is not None and c.key in self.errors:
                pass
        return env, infos

    def allocates(self, e, env):
        """does e evaluate to a freshly allocated mutable object?"""
        k = e[0]
        if k == "typed":
            return self.allocates(e[1], env)
        if k == "if":
            return self.allocates(e[2], env) or self.allocates(e[3], env)
        if k == "let":
            return self.allocates(e[2], env)
        if k == "app":
            h = e
            while h[0] in ("app", "typed"):
                h = h[1]
            if h[0] == "var":
                v = env.get(h[1])
                from . import std
                if isinstance(v, Builtin) and v.name in std.ALLOC:
                    return True
                if isinstance(v, Inline):
                    return self.allocates(v.clauses[0][1], v.env or env)
                if h[1] == "ref":
                    return True
        return False

    # ------------------------------------------------------------ emission
    def emit_function(self, c, body):
        raises, mods = body.eff()
        io = [rust_p(n) for n, _ in c.inout]
        for m in mods:
            if m not in io:
                raise Attach("modifies %s, which its contract does not allow" % m)
        mode = (c.raises, tuple(io))
        txt = self.emit(body, mode, 2)
        ps = ["%s: %s" % (rust_p(n), t) for n, t in c.cap]
        ps += ["%s: %s" % (rust_p(p.name), p.ty) for q in c.params for p in q.flat() if not p.inout]
        ps += ["%s: %s" % (rust_p(n), t) for n, t in c.inout]
        rt = c.ret if not c.raises else "Res<%s>" % c.ret
        L = []
        if io:
            rty = "(%s)" % ", ".join([rt] + [t for _, t in c.inout])
            names = "(r, %s)" % ", ".join(x + "_" for x in io)
            wrap = lambda f: "({ let %s = ret; %s })" % (names, f)
            rn = "ret"
        else:
            rty, wrap, rn = rt, (lambda f: f), "r"
        gen = "<%s>" % c.gen if c.gen else ""
        L.append(("sig", "%spub proof fn %s%s(%s) -> (%s: %s)" % (c.attrs + " " if c.attrs else "", c.rname, gen, ", ".join(ps), rn, rty)))
        if c.req:
            L.append(("", "    requires"))
            L += [("req", "        %s," % oneline(q)) for q in c.req]
        L.append(("", "    ensures"))
        L += [("ens%d" % (i + 1), "        %s," % oneline(wrap(q))) for i, q in enumerate(c.ens)]
        if c.dec:
            L.append(("dec", "    decreases %s" % c.dec))
        L.append(("", "{"))
        for x in c.pre.strip().splitlines():
            L.append(("pre", "    " + x))
        if io:
            L.append(("body", "    let ret__ = {"))
            L += [("body", x) for x in txt.splitlines()]
            L.append(("body", "    };"))
            L.append(("body", "    let %s = ret__;" % names))
        else:
            L.append(("body", "    let r__: %s = {" % rty))
            L += [("body", x) for x in txt.splitlines()]
            L.append(("body", "    };"))
            if c.post:
                L.append(("body", "    let r = r__;"))
        for x in c.post.strip().splitlines():
            L.append(("post", "    " + x))
        L.append(("", "    %s" % ("ret__" if io else "r__")))
        L.append(("", "}"))
        return L

    def pack(self, v, mode):
        r, m = mode
        return "(%s)" % ", ".join([v] + list(m)) if m else v

    def emit(self, ir, mode, ind):
        raises, mods = mode
        pad = "    " * ind
        k, a = ir.k, ir.a
        if k == "ret":
            v = self.s(a[0])
            return pad + self.pack("Res::Ok(%s)" % v if raises else v, mode)
        if k == "raise":
            if not raises:
                return pad + "{ assert(false); /* raises %s */ arbitrary() }" % a[0]
            return pad + self.pack("Res::Exn(%s)" % a[0], mode)
        if k == "fail":
            return pad + "{ assert(false); /* match failure */ arbitrary() }"
        if k == "set":
            return pad + "{ let %s = %s; %s }" % (a[0], self.s(a[1]), self.pack("Res::Ok(())" if raises else "()", mode))
        if k == "lets":
            return "\n".join(pad + "let %s = %s;" % (n, self.s(t)) for n, t in a[0]) + "\n" + self.emit(a[1], mode, ind)
        if k == "assert":
            return pad + "assert(%s);\n" % a[0] + self.emit(a[1], mode, ind)
        if k == "if":
            return (pad + "if %s {\n" % a[0] + self.emit(a[1], mode, ind + 1) + "\n" + pad + "} else {\n" + self.emit(a[2], mode, ind + 1) +
                    "\n" + pad + "}")
        if k == "call":
            cr, cm = a[2]
            if cr == raises and tuple(cm) == tuple(mods):
                return pad + a[0]
            x = "t__"
            if cm:
                s = pad + "let (%s, %s) = %s;\n" % (x, ", ".join(cm), a[0])
            else:
                s = pad + "let %s = %s;\n" % (x, a[0])
            if cr and raises:
                s += pad + self.pack(x, mode)
            elif cr:
                s += pad + "match %s { Res::Exn(e__) => { assert(false); arbitrary() }, Res::Ok(v__) => %s }" % (x, self.pack("v__", mode))
            else:
                s += pad + self.pack("Res::Ok(%s)" % x if raises else x, mode)
            return s
        if k == "bind" or k == "scope":
            x, i1, i2 = a
            r1, m1 = i1.eff()
            if k == "bind" and i2.k == "ret" and isinstance(i2.a[0], str) and i2.a[0] == x:
                return self.emit(i1, mode, ind)
            sub = self.emit(i1, (r1, m1), ind + 1)
            lhs = x if not r1 else x + "_r"
            if m1:
                lhs = "(%s, %s)" % (lhs, ", ".join(m1))
            if i1.k == "call":
                s = pad + "let %s = %s;\n" % (lhs, i1.a[0])
            elif "\n" not in sub:
                s = pad + "let %s = { %s };\n" % (lhs, sub.strip())
            else:
                s = pad + "let %s = {\n%s\n%s};\n" % (lhs, sub, pad)
            if r1:
                s += pad + "match %s_r {\n" % x
                s += pad + "  Res::Exn(e__) => { %s },\n" % (self.pack("Res::Exn(e__)", mode) if raises else "assert(false); arbitrary()")
                s += pad + "  Res::Ok(%s) => {\n" % x + self.emit(i2, mode, ind + 1) + "\n" + pad + "  }\n" + pad + "}"
                return s
            return s + self.emit(i2, mode, ind)
        if k == "handle":
            i1, x, i2 = a
            r1, m1 = i1.eff()
            if not r1:
                return self.emit(i1, mode, ind)
            sub = self.emit(i1, (True, m1), ind + 1)
            lhs = "h__" if not m1 else "(h__, %s)" % ", ".join(m1)
            s = pad + "let %s = {\n%s\n%s};\n" % (lhs, sub, pad)
            s += pad + "match h__ {\n" + pad + "  Res::Ok(v__) => { %s },\n" % self.pack("Res::Ok(v__)" if raises else "v__", mode)
            s += pad + "  Res::Exn(%s) => {\n" % x + self.emit(i2, mode, ind + 1) + "\n" + pad + "  }\n" + pad + "}"
            return s
        raise Attach("emit " + k)


def bind(x, ir1, ir2, mod):
    return IR("bind", x, ir1, ir2)


def rust_p(n):
    """parameter names of contracts are Rust names already, except for SML names of captured variables"""
    n = n.replace("'", "_p")
    return n + "_" if n in RUSTKW - {"w"} else n


def exname(n):
    return {"Option": "OptionExn"}.get(n, rust(n))


def lit(n):
    return "%dint" % n if n >= 0 else "(-%dint)" % -n


def strlit(cs):
    return "seq![%s]" % ", ".join("%dint" % c for c in cs) if cs else "Seq::<int>::empty()"


def oneline(s):
    return " ".join(s.split())


def strip_p(p):
    while p[0] == "ptyped":
        p = p[1]
    return p


def strip_e(e):
    while e[0] == "typed":
        e = e[1]
    return e


def curry(e):
    """fn p1 => fn p2 => b   as clauses"""
    ps = []
    while e[0] == "fn" and len(e[1]) == 1:
        ps.append(e[1][0][0])
        e = strip_e(e[1][0][1])
    if e[0] == "fn":
        if ps:
            return [(ps, e)]
        return [([p], b) for p, b in e[1]]
    return [(ps, e)]


def patvars(p, env):
    return []


def subst(t, m):
    if t[0] == "var":
        return m.get(t[1], t)
    if t[0] == "tup":
        return ("tup", [subst(x, m) for x in t[1]])
    if t[0] == "rec":
        return ("rec", [(l, subst(x, m)) for l, x in t[1]])
    if t[0] == "fun":
        return ("fun", subst(t[1], m), subst(t[2], m))
    return ("con", t[1], [subst(x, m) for x in t[2]])


def walk(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            yield from walk(x)
    elif isinstance(e, list):
        for x in e:
            yield from walk(x)


def calls(e, name):
    return any(x == ("var", name) for x in walk(e))


def localfuns(clauses):
    out = []
    for x in walk([b for _, b in clauses]):
        if len(x) == 3 and x[0] == "fun" and isinstance(x[1], list):
            out += [f[0] for f in x[1]]
    return out
