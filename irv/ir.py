"""Parser for the textual LLVM-18 IR that clang produces for the C runtime of /repo.

Only the subset that occurs there is supported; anything else raises IRError, which the
checks treat as "cannot attach" (never as a violation)."""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "e", "name")

    def __init__(self, k, n=0, e=None, name=None):
        self.k, self.n, self.e, self.name = k, n, e, name

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.e)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.e))
        if self.k == "named":
            return self.name
        return self.k


VOID, PTR, DOUBLE, FLOAT = Ty("void"), Ty("ptr"), Ty("double"), Ty("float")
_ints = {}


def I(n):
    if n not in _ints:
        _ints[n] = Ty("i", n)
    return _ints[n]


# ---------------------------------------------------------------- lexer
TOK = re.compile(r"""
   \s+ | ;[^\n]*
 | (?P<str>c?"[^"]*")
 | (?P<loc>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>[-+]?\d+\.\d*(?:[eE][-+]?\d+)?)
 | (?P<int>-?\d+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
""", re.X)


def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError("lex: " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    out.append(("end", ""))
    return out


PARAM_ATTRS = {"noundef", "signext", "zeroext", "nocapture", "readonly", "writeonly", "nonnull", "noalias",
               "returned", "immarg", "readnone", "nofree", "dso_local", "allocptr", "inreg", "noreturn"}
FNATTR_SKIP = {"dso_local", "internal", "private", "external", "noalias", "signext", "zeroext", "noundef", "hidden",
               "unnamed_addr", "local_unnamed_addr", "weak", "linkonce_odr", "nonnull", "dllexport", "common",
               "thread_local", "fastcc", "ccc", "tail", "musttail", "notail", "constant", "global", "nofree"}


class P:
    """token stream"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, d=0):
        return self.t[min(self.i + d, len(self.t) - 1)]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] in ("p", "word"):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise IRError("expected %r got %r" % (v, self.t[self.i:self.i + 6]))

    # -- types
    def ty(self):
        k, v = self.next()
        if k == "word":
            if v == "ptr":
                t = PTR
            elif v == "void":
                t = VOID
            elif v == "double":
                t = DOUBLE
            elif v == "float":
                t = FLOAT
            elif v in ("label", "metadata", "x86_fp80"):
                t = Ty(v)
            elif re.fullmatch(r"i\d+", v):
                t = I(int(v[1:]))
            else:
                raise IRError("type " + v)
        elif k == "loc" and v[0] == "%":
            t = Ty("named", name=v)
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.ty()
            self.expect("]")
            t = Ty("arr", n, e)
        elif v == "{":
            es = []
            while not self.eat("}"):
                es.append(self.ty())
                self.eat(",")
            t = Ty("struct", e=es)
        elif v == "<":
            raise IRError("vector type")
        else:
            raise IRError("type %r" % (v,))
        if self.peek()[1] == "(" and self.peek()[0] == "p":  # function type
            d = 0
            while True:
                x = self.next()[1]
                if x == "(":
                    d += 1
                if x == ")":
                    d -= 1
                    if d == 0:
                        break
        return t

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in PARAM_ATTRS:
                self.next()
            elif k == "word" and v == "align":
                self.next()
                if not self.eat("("):
                    self.next()
                else:
                    self.next()
                    self.expect(")")
            elif k == "word" and v in ("dereferenceable", "dereferenceable_or_null", "byval", "sret", "allocsize",
                                       "memory", "captures"):
                self.next()
                d = 0
                while True:
                    x = self.next()[1]
                    if x == "(":
                        d += 1
                    if x == ")":
                        d -= 1
                        if d == 0:
                            break
            else:
                return

    # -- operands:  ('l',name) local, ('c',value const), ('g',name) global, ('e',op,...) constant expr
    def val(self, t):
        k, v = self.next()
        if k == "loc":
            return ("l", v) if v[0] == "%" else ("g", self.mod.gname(v))
        if k == "int":
            return ("c", int(v))
        if k == "flt":
            return ("f", float(v))
        if k == "hex":
            if v[2] in "KLMHR":
                raise IRError("exotic float")
            return ("fb", int(v, 16))
        if k == "str":
            return ("s", cstr(v))
        if k == "word":
            if v == "true":
                return ("c", 1)
            if v == "false":
                return ("c", 0)
            if v == "null":
                return ("c", 0)
            if v in ("undef", "poison"):
                return ("u",)
            if v == "zeroinitializer":
                return ("z",)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
                self.expect("(")
                st = self.ty()
                x = self.val(st)
                self.expect("to")
                dt = self.ty()
                self.expect(")")
                return ("e", v, st, x, dt)
            if v == "getelementptr":
                self.eat("inbounds")
                while self.peek()[1] in ("inrange", "nuw", "nusw"):
                    self.next()
                self.expect("(")
                bt = self.ty()
                ops = []
                while self.eat(","):
                    ot = self.ty()
                    ops.append((ot, self.val(ot)))
                self.expect(")")
                return ("e", "gep", bt, ops)
            if v in ("add", "sub", "mul", "and", "or", "xor", "shl"):
                while self.peek()[1] in ("nsw", "nuw"):
                    self.next()
                self.expect("(")
                t1 = self.ty()
                a = self.val(t1)
                self.expect(",")
                t2 = self.ty()
                b = self.val(t2)
                self.expect(")")
                return ("e", "bin", v, t1, a, b)
            if v == "blockaddress":
                self.expect("(")
                f = self.next()[1]
                self.expect(",")
                b = self.next()[1]
                self.expect(")")
                return ("ba", self.mod.gname(f), b)
            raise IRError("operand " + v)
        if v == "[":
            es = []
            while not self.eat("]"):
                et = self.ty()
                es.append((et, self.val(et)))
                self.eat(",")
            return ("arr", es)
        if v == "{":
            es = []
            while not self.eat("}"):
                et = self.ty()
                es.append((et, self.val(et)))
                self.eat(",")
            return ("st", es)
        raise IRError("operand %r" % (v,))

    def tval(self):
        t = self.ty()
        self.skip_attrs()
        return t, self.val(t)


def cstr(v):
    assert v[0] == "c"
    s, out, i = v[2:-1], bytearray(), 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1] == "\\":
            out.append(0x5c)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ("op", "res", "a", "text", "dbg")

    def __init__(self, op, res, a, text):
        self.op, self.res, self.a, self.text, self.dbg = op, res, a, text, None

    def __repr__(self):
        return self.text.strip()


class Block:
    def __init__(self, name):
        self.name, self.ins, self.phis = name, [], []
        self.preds = []

    def succs(self):
        t = self.ins[-1]
        if t.op == "br":
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == "switch":
            return [t.a[2]] + [b for _, b in t.a[3]]
        if t.op == "indirectbr":
            return list(t.a[1])
        return []


class Func:
    def __init__(self, name, ret, params, mod):
        self.name, self.ret, self.params, self.mod = name, ret, params, mod
        self.blocks, self.order = {}, []
        self.loops = None

    # natural loops: header -> set of block names
    def analyse(self):
        if self.loops is not None:
            return
        for b in self.blocks.values():
            b.preds = []
        for b in self.blocks.values():
            for s in dict.fromkeys(b.succs()):
                self.blocks[s].preds.append(b.name)
        entry = self.order[0]
        # reverse postorder
        seen, rpo = set(), []
        stack = [(entry, iter(self.blocks[entry].succs()))]
        seen.add(entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succs())))
                    break
            else:
                rpo.append(n)
                stack.pop()
        rpo.reverse()
        idx = {n: i for i, n in enumerate(rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                ps = [p for p in self.blocks[n].preds if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a, b = p, d
                    while a != b:
                        while idx[a] > idx[b]:
                            a = idom[a]
                        while idx[b] > idx[a]:
                            b = idom[b]
                    d = a
                if idom.get(n) != d:
                    idom[n] = d
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        self.loops, self.irreducible = {}, False
        for n in rpo:
            for s in self.blocks[n].succs():
                if idx[s] <= idx[n]:
                    if not dom(s, n):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, {s})
                    work = [n]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in self.blocks[x].preds if p in idx)
        self.rpo = rpo
        self.idom = idom


class Global:
    def __init__(self, name, ty, init, const, external):
        self.name, self.ty, self.init, self.const, self.external = name, ty, init, const, external
        self.addr = None


class Module:
    def __init__(self, tag=""):
        self.tag = tag
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}
        self.locals = set()

    def gname(self, v):
        v = v[1:].strip('"')
        if v in self.locals:
            return self.tag + ":" + v
        return v


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp", "fpext",
        "fptrunc", "addrspacecast"}


def parse_module(text, tag):
    m = Module(tag)
    lines = text.split("\n")
    for ln in lines:   # local symbols first
        mm = re.match(r'@("?[-a-zA-Z$._0-9]+"?) = (internal|private)', ln)
        if mm:
            m.locals.add(mm.group(1).strip('"'))
        mm = re.match(r'define internal .*?@("?[-a-zA-Z$._0-9]+"?)\(', ln)
        if mm:
            m.locals.add(mm.group(1).strip('"'))
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith("%") and " = type " in ln:
            nm, rest = ln.split(" = type ", 1)
            if rest.strip() == "opaque":
                m.types[nm.strip()] = None
            else:
                m.types[nm.strip()] = P(lex(rest), m).ty()
        elif ln.startswith("@"):
            parse_global(m, ln)
        elif ln.startswith("declare"):
            p = P(lex(ln[7:]), m)
            f = header(p, m)
            m.decls[f.name] = f
        elif ln.startswith("define"):
            body = []
            hd = ln[6:].rstrip()
            assert hd.endswith("{"), ln
            i += 1
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            p = P(lex(hd[:-1]), m)
            f = header(p, m)
            parse_body(f, body, m)
            m.funcs[f.name] = f
        i += 1
    return m


def parse_global(m, ln):
    p = P(lex(ln), m)
    name = m.gname(p.next()[1])
    p.expect("=")
    external = const = False
    while True:
        k, v = p.peek()
        if k == "word" and v in ("external", "extern_weak"):
            external = True
            p.next()
        elif k == "word" and v == "constant":
            const = True
            p.next()
            break
        elif k == "word" and v == "global":
            p.next()
            break
        elif k == "word":
            p.next()
        else:
            raise IRError("global " + ln[:80])
    t = p.ty()
    init = None if external else p.val(t)
    m.globals[name] = Global(name, t, init, const, external)


def header(p, m):
    while True:
        k, v = p.peek()
        if k == "word" and v in FNATTR_SKIP:
            p.next()
        elif k == "word" and v in ("align", "dereferenceable", "dereferenceable_or_null"):
            p.skip_attrs()
        else:
            break
    ret = p.ty()
    p.skip_attrs()
    name = m.gname(p.next()[1])
    p.expect("(")
    params, va = [], False
    cnt = 0
    while not p.eat(")"):
        if p.eat("..."):
            va = True
        else:
            t = p.ty()
            p.skip_attrs()
            if p.peek()[0] == "loc":
                params.append((t, p.next()[1]))
            else:
                params.append((t, "%%%d" % cnt))
            cnt += 1
        p.eat(",")
    f = Func(name, ret, params, m)
    f.va = va
    return f


def parse_body(f, body, m):
    blk = None
    first = True
    # join multi-line switches
    joined, i = [], 0
    while i < len(body):
        ln = body[i]
        if re.match(r"\s+switch ", ln) and "]" not in ln:
            while "]" not in body[i]:
                i += 1
                ln += " " + body[i]
        joined.append(ln)
        i += 1
    unnamed_entry = "%%%d" % len([1 for t, nm in f.params if re.fullmatch(r"%\d+", nm)])
    for ln in joined:
        if not ln.strip():
            continue
        mm = re.match(r'^("?[-a-zA-Z$._0-9]+"?):', ln)
        if mm:
            blk = Block("%" + mm.group(1).strip('"'))
            f.blocks[blk.name] = blk
            f.order.append(blk.name)
            first = False
            continue
        if first:
            blk = Block(unnamed_entry)
            f.blocks[blk.name] = blk
            f.order.append(blk.name)
            first = False
        if "@llvm.dbg" in ln or "@llvm.lifetime" in ln:
            continue
        ins = parse_ins(ln, m)
        if ins is None:
            continue
        if ins.op == "phi":
            blk.phis.append(ins)
        else:
            blk.ins.append(ins)


def parse_ins(ln, m):
    p = P(lex(ln), m)
    res = None
    if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
        res = p.next()[1]
        p.next()
    k, op = p.next()
    if op in ("tail", "musttail", "notail"):
        k, op = p.next()
    if op in BIN:
        while p.peek()[1] in ("nsw", "nuw", "exact", "disjoint"):
            p.next()
        t = p.ty()
        a = p.val(t)
        p.expect(",")
        b = p.val(t)
        return Ins("bin", res, (op, t, a, b), ln)
    if op in FBIN:
        while p.peek()[0] == "word" and p.peek()[1] not in ("double", "float"):
            p.next()
        t = p.ty()
        a = p.val(t)
        p.expect(",")
        b = p.val(t)
        return Ins("fbin", res, (op, t, a, b), ln)
    if op == "fneg":
        t = p.ty()
        return Ins("fneg", res, (t, p.val(t)), ln)
    if op in CAST:
        while p.peek()[1] in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.ty()
        a = p.val(t)
        p.expect("to")
        d = p.ty()
        return Ins("cast", res, (op, t, a, d), ln)
    if op in ("icmp", "fcmp"):
        while p.peek()[1] in ("nnan", "ninf", "nsz", "fast"):
            p.next()
        c = p.next()[1]
        t = p.ty()
        a = p.val(t)
        p.expect(",")
        b = p.val(t)
        return Ins(op, res, (c, t, a, b), ln)
    if op == "load":
        vol = p.eat("volatile")
        t = p.ty()
        p.expect(",")
        pt, a = p.tval()
        return Ins("load", res, (t, a, vol), ln)
    if op == "store":
        vol = p.eat("volatile")
        t, v = p.tval()
        p.expect(",")
        pt, a = p.tval()
        return Ins("store", None, (t, v, a, vol), ln)
    if op == "getelementptr":
        while p.peek()[1] in ("inbounds", "nuw", "nusw"):
            p.next()
        bt = p.ty()
        ops = []
        while p.eat(","):
            ops.append(p.tval())
        return Ins("gep", res, (bt, ops), ln)
    if op == "alloca":
        t = p.ty()
        cnt = None
        if p.eat(","):
            if p.peek()[1] != "align":
                cnt = p.tval()
        return Ins("alloca", res, (t, cnt), ln)
    if op == "phi":
        t = p.ty()
        inc = []
        while True:
            p.expect("[")
            v = p.val(t)
            p.expect(",")
            b = p.next()[1]
            p.expect("]")
            inc.append((v, b))
            if not p.eat(","):
                break
        return Ins("phi", res, (t, inc), ln)
    if op == "select":
        ct, c = p.tval()
        p.expect(",")
        t, a = p.tval()
        p.expect(",")
        t2, b = p.tval()
        return Ins("select", res, (c, t, a, b), ln)
    if op == "br":
        if p.eat("label"):
            return Ins("br", None, (p.next()[1],), ln)
        t, c = p.tval()
        p.expect(",")
        p.expect("label")
        a = p.next()[1]
        p.expect(",")
        p.expect("label")
        b = p.next()[1]
        return Ins("br", None, (c, a, b), ln)
    if op == "switch":
        t, v = p.tval()
        p.expect(",")
        p.expect("label")
        d = p.next()[1]
        p.expect("[")
        cs = []
        while not p.eat("]"):
            ct = p.ty()
            cv = p.val(ct)
            p.expect(",")
            p.expect("label")
            cs.append((cv[1], p.next()[1]))
        return Ins("switch", None, (t, v, d, cs), ln)
    if op == "indirectbr":
        t, v = p.tval()
        p.expect(",")
        p.expect("[")
        ls = []
        while not p.eat("]"):
            p.expect("label")
            ls.append(p.next()[1])
            p.eat(",")
        return Ins("indirectbr", None, (v, ls), ln)
    if op == "ret":
        if p.eat("void"):
            return Ins("ret", None, (VOID, None), ln)
        t, v = p.tval()
        return Ins("ret", None, (t, v), ln)
    if op == "unreachable":
        return Ins("unreachable", None, (), ln)
    if op == "freeze":
        t = p.ty()
        return Ins("freeze", res, (t, p.val(t)), ln)
    if op == "call":
        while p.peek()[0] == "word" and (p.peek()[1] in FNATTR_SKIP or p.peek()[1] in PARAM_ATTRS
                                         or p.peek()[1] in ("nnan", "ninf", "nsz", "fast")):
            p.next()
        p.skip_attrs()
        t = p.ty()
        k, v = p.next()
        if k == "loc":
            callee = ("l", v) if v[0] == "%" else ("g", m.gname(v))
        elif v == "asm":
            raise IRError("inline asm")
        else:
            raise IRError("call " + ln)
        p.expect("(")
        args = []
        while not p.eat(")"):
            if p.peek()[1] == "metadata":
                return None
            args.append(p.tval())
            p.eat(",")
        return Ins("call", res, (t, callee, args), ln)
    if op == "extractvalue":
        t, v = p.tval()
        p.expect(",")
        return Ins("extractvalue", res, (t, v, int(p.next()[1])), ln)
    raise IRError("instruction " + ln)
