"""Symbolic execution / verification-condition generation over the LLVM IR of the real C sources.

* every path of a function body is executed symbolically (all inputs);
* loops are cut with invariants: linear induction variables are recognised, the remaining facts are taken from
  candidate pools (Houdini: a candidate is kept only if it is proved inductive);
* a callee with a contract is replaced by that contract, a callee without one is executed in place;
* obligations are discharged by z3 (default engine, then bit-blasting, then cvc5)."""
import os
import re
import subprocess
import tempfile
import time

import z3

from . import ir
from .ir import IRError
from .mem import Mem, Reader, declare_interval, interval, low3, bv, const_of, fresh, sconst

GLOBAL_BASE = 0x100000000       # globals   4 GB ..
FUNC_BASE = 0x10000000          # functions
STACK_BASE = 0x7F0000000000     # allocas (grow upwards here)
HEAP_LO, HEAP_HI = 1 << 40, 1 << 46  # where specs place ML heap / malloc'ed objects

RNE = z3.RNE()
RTZ = z3.RTZ()
F64 = z3.Float64()
F32 = z3.Float32()


class AttachError(Exception):
    """the contract cannot be attached to this source (tool limit) -- never a violation"""


class Obligation:
    def __init__(self, name, status, t, engine, model=None, info=None):
        self.name, self.status, self.t, self.engine, self.model, self.info = name, status, t, engine, model, info


class Frame:
    __slots__ = ("fn", "env", "blk", "idx", "res", "prev", "sp0", "unroll")

    def __init__(self, fn):
        self.fn, self.env, self.blk, self.idx, self.res, self.prev = fn, {}, None, 0, None, None
        self.unroll = {}

    def copy(self):
        f = Frame(self.fn)
        f.env, f.blk, f.idx, f.res, f.prev = dict(self.env), self.blk, self.idx, self.res, self.prev
        f.unroll = dict(self.unroll)
        return f


class State:
    __slots__ = ("mem", "pc", "frames", "trace", "ghost", "sp", "loops", "pending", "backvals")

    def __init__(self):
        self.mem, self.pc, self.frames, self.trace, self.ghost = None, [], [], [], {}
        self.sp, self.loops, self.pending, self.backvals = STACK_BASE, [], None, None

    def copy(self):
        s = State()
        s.mem, s.pc, s.trace, s.ghost = self.mem, list(self.pc), list(self.trace), dict(self.ghost)
        s.frames = [f.copy() for f in self.frames]
        s.sp, s.loops, s.pending, s.backvals = self.sp, list(self.loops), self.pending, self.backvals
        return s


class Outcome:
    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val    # kind: ret | exit | stop


class Program:
    def __init__(self):
        self.funcs, self.decls, self.globals, self.mods = {}, {}, {}, []
        self.next = GLOBAL_BASE
        self.fnext = FUNC_BASE
        self.faddr = {}
        self.baddr = {}

    def add(self, mod):
        self.mods.append(mod)
        for n, f in mod.funcs.items():
            self.funcs[n] = f
        for n, d in mod.decls.items():
            self.decls.setdefault(n, d)
        for n, g in mod.globals.items():
            g.mod = mod
            old = self.globals.get(n)
            if old is None or (old.external and not g.external):
                if old is not None:
                    g.addr = old.addr
                self.globals[n] = g
        return mod

    def sizeof(self, t, mod):
        return self.layout(t, mod)[0]

    def layout(self, t, mod):
        if t.k == "i":
            n = max(1, (t.n + 7) // 8)
            if n > 4:
                n = 8 * ((n + 7) // 8)
            elif n == 3:
                n = 4
            return n, min(n, 16)
        if t.k in ("ptr", "double"):
            return 8, 8
        if t.k == "float":
            return 4, 4
        if t.k == "arr":
            s, a = self.layout(t.e, mod)
            return s * t.n, a
        if t.k == "named":
            return self.layout(mod.types[t.name], mod)
        if t.k == "struct":
            off, al = 0, 1
            for e in t.e:
                s, a = self.layout(e, mod)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if t.k == "x86_fp80":
            return 16, 16
        raise IRError("sizeof %r" % t)

    def field_off(self, t, i, mod):
        off = 0
        for j, e in enumerate(t.e):
            s, a = self.layout(e, mod)
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IRError("field")

    def gaddr(self, name):
        if name in self.globals:
            g = self.globals[name]
            if g.addr is None:
                try:
                    sz = self.sizeof(g.ty, g.mod)
                except Exception:
                    sz = 0
                sz = max(sz, 16) if not g.external else max(sz, 0x10000)
                g.addr = self.next
                self.next += (sz + 0xFFF) // 0x1000 * 0x1000 + 0x1000
            return g.addr
        if name in self.funcs or name in self.decls:
            if name not in self.faddr:
                self.faddr[name] = self.fnext
                self.fnext += 0x10000
            return self.faddr[name]
        raise IRError("unknown global " + name)

    def blockaddr(self, f, b):
        k = (f, b)
        if k not in self.baddr:
            base = self.gaddr(f)
            self.baddr[k] = base + 16 * (1 + len([1 for x in self.baddr if x[0] == f]))
        return self.baddr[k]


class Dbl:
    """a double: z3 FP term, keeps the bits it was loaded from"""
    __slots__ = ("fp", "bits", "con")

    def __init__(self, fp, bits=None):
        self.fp, self.bits, self.con = fp, bits, None


class Engine:
    def __init__(self, prog, contracts=None, loopspecs=None, timeout=20.0, unroll=64, name=""):
        self.prog, self.contracts, self.loopspecs = prog, contracts or {}, loopspecs or {}
        self.timeout, self.unroll = timeout, unroll
        self.obls = []
        self.name = name
        self.stops = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.stack = []
        self.lsolver = z3.Solver()
        self.lsolver.set("timeout", 300)
        self.lstack, self.sizes = [], {}
        self.cache = {}
        self.keep = []
        self.solver_s = 0.0
        self.nfeas = 0
        self.used_contracts = set()
        self.executed = set()
        self.quiet = 0
        self.witness = []          # (name, term) pairs evaluated in models
        self.maxpaths = 4000
        self.loopinfo = []
        self.auto_safety = True
        self.undef_count = 0
        self.gfacts = {}
        self.hooks = {}
        self.windows = []          # disjoint address ranges used for quick alias resolution
        self.wcache = {}
        self.fpcache = {}
        self.fp_opaque = False

    # ------------------------------------------------------------ queries
    def _sync(self, pc, solver=None, stack=None):
        if solver is None:
            solver, stack = self.solver, self.stack
        i = 0
        while i < len(stack) and i < len(pc) and stack[i] is pc[i]:
            i += 1
        if len(stack) > i:
            solver.pop(len(stack) - i)
            del stack[i:]
        for f in pc[i:]:
            solver.push()
            solver.add(f)
            stack.append(f)

    def sat(self, pc, extra=None):
        """False only if pc (and extra) is proved unsatisfiable"""
        t0 = time.time()
        self.nfeas += 1
        self._sync(pc)
        if extra is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(extra)
            r = self.solver.check()
            self.solver.pop()
        self.solver_s += time.time() - t0
        return r != z3.unsat

    def size(self, f):
        k = f.get_id()
        r = self.sizes.get(k)
        if r is None:
            seen, todo = set(), [f]
            while todo and len(seen) <= 200:
                x = todo.pop()
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    todo.extend(x.children())
            r = self.sizes[k] = len(seen)
            self.keep.append(f)
        return r

    def widened(self, st, v):
        """the sign extension of a 32-bit sum, as a 64-bit sum, when it does not wrap around"""
        v = z3.simplify(v)
        if not z3.is_bv(v) or v.size() != 32 or z3.is_bv_value(v):
            return None

        def wide(t):
            if z3.is_bv_value(t):
                return bv(t.as_signed_long())
            if z3.is_app_of(t, z3.Z3_OP_BADD):
                return sum((wide(t.arg(i)) for i in range(1, t.num_args())), wide(t.arg(0)))
            if z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
                return bv(t.arg(0).as_signed_long()) * wide(t.arg(1))
            if z3.is_app_of(t, z3.Z3_OP_EXTRACT) and t.params() == [31, 0] and t.arg(0).size() == 64:
                return t.arg(0)
            return z3.SignExt(32, t)
        w = z3.simplify(wide(v))
        plain = z3.simplify(z3.SignExt(32, v))
        if z3.eq(w, plain) or not self.implied(st.pc, w == plain):
            return None
        return w

    def implied(self, pc, f, light_only=False):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if not self.has_fp(f):
            pc = [x for x in pc if not self.has_fp(x)]
        ids = frozenset(x.get_id() for x in pc)
        ent = self.cache.get(f.get_id())
        if ent is None:
            ent = self.cache[f.get_id()] = ([], set())
            self.keep.append(f)
        for s in ent[0]:
            if s <= ids:
                return True
        if ids in ent[1]:
            return False
        self.keep.append(list(pc))
        light = [x for x in pc if self.size(x) <= 70]
        lids = frozenset(x.get_id() for x in light)
        r = False
        if lids not in ent[1]:
            t0 = time.time()
            self.nfeas += 1
            self._sync(light, self.lsolver, self.lstack)
            self.lsolver.push()
            self.lsolver.add(z3.Not(f))
            r = self.lsolver.check() == z3.unsat
            self.lsolver.pop()
            self.solver_s += time.time() - t0
            if r:
                ids = lids
            else:
                ent[1].add(lids)
        if not r and not light_only and len(light) < len(pc):
            r = not self.sat(pc, z3.Not(f))
        if r:
            ent[0].append(ids)
        else:
            ent[1].add(ids)
        return r

    def reader(self, st):
        if self.windows:
            return Reader(lambda f: self.implied(st.pc, f), lambda a, b: self.quick_disjoint(st.pc, a, b),
                          lambda a: self.window(st.pc, z3.simplify(a)))
        return Reader(lambda f: self.implied(st.pc, f))

    def window(self, pc, a):
        """the window an address lies in (with slack for constant offsets), or None"""
        iv = interval(a)
        if iv is not None:
            for i, (lo, hi) in enumerate(self.windows):
                if lo + 4096 <= iv[0] and iv[1] <= hi - 8192:
                    return i
        off = 0
        if z3.is_app_of(a, z3.Z3_OP_BADD) and z3.is_bv_value(a.arg(0)):
            off = a.arg(0).as_signed_long()
            if abs(off) > 4096:
                off = None
            else:
                rest = [a.arg(i) for i in range(1, a.num_args())]
                a = rest[0] if len(rest) == 1 else sum(rest[1:], rest[0])
        if off is None or z3.is_bv_value(a):
            c = const_of(a)
            if c is not None:
                for i, (lo, hi) in enumerate(self.windows):
                    if lo <= c < hi:
                        return i
                return -1 if c < self.windows[0][0] else None
            if off is None:
                pass
        k = a.get_id()
        ids = frozenset(x.get_id() for x in pc)
        ent = self.wcache.get(k)
        if ent is None:
            ent = self.wcache[k] = [None, (), set()]
            self.keep.append(a)
        if ent[0] is not None and ent[1] <= ids:
            return ent[0]
        if ids in ent[2]:
            return None
        self.keep.append(list(pc))
        for i, (lo, hi) in enumerate(self.windows):
            if self.implied(pc, z3.And(z3.UGE(a, bv(lo + 4096)), z3.ULE(a, bv(hi - 8192))), light_only=True):
                ent[0], ent[1] = i, ids
                return i
        ent[2].add(ids)
        return None

    def quick_disjoint(self, pc, a, b):
        w = self.window(pc, a)
        if w is None:
            return False
        v = self.window(pc, b)
        return v is not None and v != w

    def has_fp(self, f):
        k = f.get_id()
        r = self.fpcache.get(k)
        if r is None:
            r = False
            if z3.is_fp(f):
                r = True
            else:
                for c in f.children():
                    if self.has_fp(c):
                        r = True
                        break
            self.fpcache[k] = r
            self.keep.append(f)
        return r

    def fpop(self, name, x, y):
        if self.fp_opaque:
            return z3.Function("fp_" + name, F64, F64, F64)(x, y)
        return {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "div": z3.fpDiv}[name](RNE, x, y)

    def read(self, st, addr, size):
        if st.mem is None:
            raise AttachError("no memory")
        return self.reader(st).read(st.mem, addr, size)

    def assume(self, st, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(st, c)
            return
        st.pc.append(f)

    def check(self, pc, goal, timeout=None):
        """-> (status, engine, model)"""
        t0 = time.time()
        to = timeout or self.timeout
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return "proved", "simplify", None
        r, eng, mod = self._check(pc, goal, to)
        self.solver_s += time.time() - t0
        return r, eng, mod

    def _check(self, pc, goal, to):
        s = z3.Solver()
        s.set("timeout", int(min(to, 6) * 1000))
        for f in pc:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", None
        if r == z3.sat:
            return "failed", "z3", s.model()
        # bit-blasting
        try:
            t = z3.Then("simplify", "propagate-values", "solve-eqs", "simplify", "elim-uncnstr", "fpa2bv", "simplify",
                        "bvarray2uf", "ackermannize_bv", "simplify", "bit-blast", "sat").solver() if False else \
                z3.Tactic("qfaufbv").solver()
            t.set("timeout", int(to * 1000))
            for f in pc:
                t.add(f)
            t.add(z3.Not(goal))
            r = t.check()
            if r == z3.unsat:
                return "proved", "z3-qfaufbv", None
            if r == z3.sat:
                return "failed", "z3-qfaufbv", t.model()
        except z3.Z3Exception:
            pass
        r = cvc5_check(s, to)
        if r == "unsat":
            return "proved", "cvc5", None
        s.set("timeout", int(to * 1000))
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", None
        if r == z3.sat:
            return "failed", "z3", s.model()
        return "unknown", "z3,cvc5", None

    def prove(self, st, goal, name, info=None, pc=None):
        pc = st.pc if pc is None else pc
        t0 = time.time()
        status, eng, model = self.check(pc, goal)
        wit = None
        if model is not None:
            wit = {}
            for n, t in self.witness + list(st.ghost.get("witness", [])):
                try:
                    v = model.eval(t, model_completion=True)
                    wit[n] = v.as_long() if z3.is_bv_value(v) else str(v)
                except Exception as e:
                    wit[n] = "?" + str(e)
        o = Obligation(name, status, time.time() - t0, eng, wit, info)
        if not self.quiet:
            self.obls.append(o)
        o.raw_model = model
        return status == "proved"

    def reachable(self, st, name):
        """vacuity guard: the path condition must be satisfiable"""
        s = z3.Solver()
        s.set("timeout", 10000)
        for f in st.pc:
            s.add(f)
        r = s.check()
        self.obls.append(Obligation("cover:" + name, "proved" if r == z3.sat else
                                    ("vacuous" if r == z3.unsat else "cover-unknown"), 0, "z3"))
        return r == z3.sat

    # ------------------------------------------------------------ values
    def ty_bits(self, t):
        if t.k == "i":
            return t.n
        if t.k == "ptr":
            return 64
        raise IRError("bits of %r" % t)

    def const(self, t, c):
        if t.k == "i":
            if t.n == 1:
                return z3.BoolVal(bool(c & 1))
            return bv(c, t.n)
        if t.k == "ptr":
            return bv(c)
        if t.k == "double":
            return Dbl(z3.FPVal(float(c), F64))
        raise IRError("const %r" % t)

    def val(self, st, t, o):
        k = o[0]
        if k == "l":
            try:
                return st.frames[-1].env[o[1]]
            except KeyError:
                raise IRError("undefined " + o[1])
        if k == "c":
            return self.const(t, o[1])
        if k == "g":
            return bv(self.prog.gaddr(o[1]))
        if k == "f":
            return Dbl(z3.FPVal(o[1], F64 if t.k == "double" else F32))
        if k == "fb":
            if t.k == "float":
                import struct
                d = struct.unpack("<d", struct.pack("<Q", o[1]))[0]
                return Dbl(z3.FPVal(d, F32))
            return Dbl(z3.simplify(z3.fpBVToFP(bv(o[1]), F64)), bv(o[1]))
        if k == "u":
            self.undef_count += 1
            if t.k == "i" and t.n == 1:
                return fresh("undef", z3.BoolSort())
            if t.k in ("double", "float"):
                return Dbl(fresh("undef", F64 if t.k == "double" else F32))
            return fresh("undef", z3.BitVecSort(self.ty_bits(t)))
        if k == "z":
            return self.const(t, 0)
        if k == "ba":
            return bv(self.prog.blockaddr(o[1], o[2]))
        if k == "e":
            if o[1] in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
                return self.cast(o[1], o[2], self.val(st, o[2], o[3]), o[4])
            if o[1] == "gep":
                return self.gep(st, o[2], o[3])
            if o[1] == "bin":
                return self.binop(st, o[2], o[3], self.val(st, o[3], o[4]), self.val(st, o[3], o[5]))
        raise IRError("operand %r" % (o,))

    def gep(self, st, bt, ops):
        mod = st.frames[-1].fn.mod
        a = self.val(st, *ops[0])
        t = bt
        for j, (it, iv) in enumerate(ops[1:]):
            i = self.val(st, it, iv)
            if j == 0:
                sz = self.prog.sizeof(bt, mod)
                a = a + self.sx(i) * sz
                continue
            while t.k == "named":
                t = mod.types[t.name]
            if t.k == "arr":
                a = a + self.sx(i) * self.prog.sizeof(t.e, mod)
                t = t.e
            elif t.k == "struct":
                off, t = self.prog.field_off(t, const_of(i), mod)
                a = a + off
            else:
                raise IRError("gep into %r" % t)
        return z3.simplify(a)

    def sx(self, i):
        n = i.size()
        return i if n == 64 else z3.SignExt(64 - n, i) if n < 64 else z3.Extract(63, 0, i)

    def cast(self, op, st_, v, dt):
        if op in ("ptrtoint", "inttoptr", "bitcast", "zext", "trunc"):
            if isinstance(v, Dbl) or dt.k in ("double", "float"):
                if op == "bitcast" and isinstance(v, Dbl) and dt.k == "i":
                    return self.dbits(None, v)
                if op == "bitcast" and dt.k == "double":
                    return Dbl(z3.fpBVToFP(v, F64), v)
                raise IRError("cast")
            n = self.ty_bits(dt)
            if z3.is_bool(v):
                if n == 1:
                    return v
                return z3.If(v, bv(1, n), bv(0, n))
            if n == 1:
                return z3.simplify(z3.Extract(0, 0, v) == 1)
            m = v.size()
            if n > m:
                return z3.simplify(z3.ZeroExt(n - m, v))
            if n < m:
                return z3.simplify(z3.Extract(n - 1, 0, v))
            return v
        if op == "sext":
            n = self.ty_bits(dt)
            if z3.is_bool(v):
                return z3.If(v, bv(-1, n), bv(0, n))
            return z3.simplify(z3.SignExt(n - v.size(), v))
        if op == "fptosi":
            n = self.ty_bits(dt)
            f = v.fp
            lo = z3.FPVal(-float(1 << (n - 1)), F64)
            hi = z3.FPVal(float(1 << (n - 1)), F64)
            if n == 64:
                ok = z3.And(z3.fpGEQ(f, lo), z3.fpLT(f, hi))
            else:
                # x86 cvttsd2si r32: truncated value must be representable
                ok = z3.And(z3.fpGT(f, z3.FPVal(-float(1 << (n - 1)) - 1, F64)), z3.fpLT(f, hi))
            return z3.simplify(z3.If(ok, z3.fpToSBV(RTZ, f, z3.BitVecSort(n)), bv(1 << (n - 1), n)))
        if op == "fptoui":
            n = self.ty_bits(dt)
            return z3.fpToUBV(RTZ, v.fp, z3.BitVecSort(n))
        if op in ("sitofp", "uitofp"):
            srt = F64 if dt.k == "double" else F32
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 8), bv(0, 8)) if op == "uitofp" else z3.If(v, bv(-1, 8), bv(0, 8))
            return Dbl(z3.simplify(z3.fpSignedToFP(RNE, v, srt) if op == "sitofp" else z3.fpUnsignedToFP(RNE, v, srt)))
        if op == "fpext":
            return Dbl(z3.fpFPToFP(RNE, v.fp, F64))
        if op == "fptrunc":
            return Dbl(z3.fpFPToFP(RNE, v.fp, F32))
        raise IRError("cast " + op)

    def dbits(self, st, v):
        if v.bits is not None:
            if v.con is not None and st is not None:
                st.pc.append(v.con)
            return v.bits
        if z3.is_fp_value(v.fp) and not v.fp.isNaN():
            return z3.simplify(z3.fpToIEEEBV(v.fp))
        srt = v.fp.sort()
        b = fresh("dbits", z3.BitVecSort(srt.ebits() + srt.sbits()))
        # every NaN may be stored with any payload; otherwise the bits are determined
        if st is not None:
            v.con = z3.fpBVToFP(b, srt) == v.fp
            st.pc.append(v.con)
        else:
            raise IRError("dbits without state")
        v.bits = b
        return b

    def binop(self, st, op, t, a, b):
        if t.k == "i" and t.n == 1:
            if op == "and":
                return z3.simplify(z3.And(a, b))
            if op == "or":
                return z3.simplify(z3.Or(a, b))
            if op in ("xor", "add", "sub"):
                return z3.simplify(z3.Xor(a, b))
            raise IRError("i1 " + op)
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op in ("udiv", "sdiv", "urem", "srem"):
            if self.auto_safety and st is not None:
                n = a.size()
                g = b != 0
                if op in ("sdiv", "srem"):
                    g = z3.And(g, z3.Not(z3.And(a == bv(1 << (n - 1), n), b == bv(-1, n))))
                g = z3.simplify(g)
                if not z3.is_true(g) and not (self.quiet and False):
                    self.prove(st, g, "no division trap in %s" % st.frames[-1].fn.name)
            r = {"udiv": z3.UDiv, "sdiv": lambda x, y: x / y, "urem": z3.URem, "srem": z3.SRem}[op](a, b)
        elif op == "shl":
            r = a << b
        elif op == "lshr":
            r = z3.LShR(a, b)
        elif op == "ashr":
            r = a >> b
        elif op == "and":
            r = a & b
        elif op == "or":
            r = a | b
        elif op == "xor":
            r = a ^ b
        else:
            raise IRError(op)
        return z3.simplify(r)

    def icmp(self, c, a, b):
        if z3.is_bool(a):
            a = z3.If(a, bv(1, 1), bv(0, 1))
            b = z3.If(b, bv(1, 1), bv(0, 1))
        f = {"eq": lambda: a == b, "ne": lambda: a != b, "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b),
             "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "sgt": lambda: a > b, "sge": lambda: a >= b,
             "slt": lambda: a < b, "sle": lambda: a <= b}[c]
        return z3.simplify(f())

    def fcmp(self, c, a, b):
        a, b = a.fp, b.fp
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        o = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
        if c == "ord":
            return z3.Not(un)
        if c == "uno":
            return un
        if c == "one":
            return z3.simplify(z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b))))
        if c == "une":
            return z3.simplify(z3.Not(z3.fpEQ(a, b)))
        f = o[c[1:]](a, b)
        return z3.simplify(z3.Or(un, f) if c[0] == "u" else f)

    # ------------------------------------------------------------ memory access
    def load(self, st, t, a):
        if t.k == "i":
            n = (t.n + 7) // 8
            v = self.read(st, a, n)
            if t.n == 1:
                return z3.simplify(z3.Extract(0, 0, v) == 1)
            if t.n < 8 * n:
                v = z3.Extract(t.n - 1, 0, v)
            return v
        if t.k == "ptr":
            return self.read(st, a, 8)
        if t.k == "double":
            b = self.read(st, a, 8)
            return Dbl(z3.simplify(z3.fpBVToFP(b, F64)), b)
        if t.k == "float":
            b = self.read(st, a, 4)
            return Dbl(z3.simplify(z3.fpBVToFP(b, F32)), b)
        raise IRError("load %r" % t)

    def store(self, st, t, v, a):
        if t.k in ("double", "float"):
            st.mem = st.mem.write(a, 8 if t.k == "double" else 4, self.dbits(st, v))
            return
        if z3.is_bool(v):
            v = z3.If(v, bv(1, 8), bv(0, 8))
        n = v.size()
        if n % 8:
            raise IRError("store")
        h = self.hooks.get("store")
        if h:
            h(self, st, a, n // 8, v)
        st.mem = st.mem.write(a, n // 8, v)

    def const_global_bytes(self, name):
        g = self.prog.globals[name]
        out = bytearray()

        def emit(t, v):
            while t.k == "named":
                t = g.mod.types[t.name]
            if v[0] == "s":
                out.extend(v[1])
            elif v[0] == "z":
                out.extend(bytes(self.prog.sizeof(t, g.mod)))
            elif v[0] == "c":
                n = self.prog.sizeof(t, g.mod)
                out.extend((v[1] % (1 << 8 * n)).to_bytes(n, "little"))
            elif v[0] == "arr":
                for et, ev in v[1]:
                    emit(et, ev)
            elif v[0] == "st":
                base = len(out)
                for i, (et, ev) in enumerate(v[1]):
                    off, _ = self.prog.field_off(t, i, g.mod)
                    out.extend(bytes(base + off - len(out)))
                    emit(et, ev)
                out.extend(bytes(base + self.prog.sizeof(t, g.mod) - len(out)))
            elif v[0] == "f":
                import struct
                out.extend(struct.pack("<d", v[1]))
            elif v[0] == "fb":
                out.extend(v[1].to_bytes(8, "little"))
            elif v[0] == "ba":
                out.extend(self.prog.blockaddr(v[1], v[2]).to_bytes(8, "little"))
            elif v[0] == "g":
                out.extend(self.prog.gaddr(v[1]).to_bytes(8, "little"))
            elif v[0] == "e":
                class F:
                    fn = type("x", (), {"mod": g.mod})
                s = State()
                s.frames = [F]
                x = self.val(s, t, v)
                n = self.prog.sizeof(t, g.mod)
                out.extend((const_of(z3.simplify(x))).to_bytes(n, "little"))
            else:
                raise IRError("init %r" % (v,))
        emit(g.ty, g.init)
        return bytes(out)

    def with_globals(self, mem, names):
        """memory in which the (constant) globals hold their initialisers"""
        for n in names:
            b = self.const_global_bytes(n)
            a = self.prog.gaddr(n)
            mem = const_table(mem, a, b)
        return mem

    # ------------------------------------------------------------ execution
    def call_function(self, st, name, args):
        f = self.prog.funcs.get(name)
        if f is None:
            raise AttachError("function %s not defined" % name)
        self.push(st, f, args, None)
        return self.explore([st])

    def push(self, st, f, args, res):
        f.analyse()
        if f.irreducible:
            raise AttachError("irreducible control flow in " + f.name)
        if len(st.frames) > 40:
            raise AttachError("recursion without contract: " + f.name)
        self.executed.add(f.name)
        fr = Frame(f)
        fr.res = res
        fr.sp0 = st.sp
        if len(args) < len(f.params):
            raise AttachError("arity of " + f.name)
        for (t, n), v in zip(f.params, args):
            fr.env[n] = v
        st.frames.append(fr)
        st.pending = (f.order[0], None)

    def explore(self, states, region=None):
        """-> outcomes (region None)  or  (backs, parked, outcomes)"""
        backs, parked, outs = [], [], []
        work = list(states)
        while work:
            if len(outs) + len(work) > self.maxpaths:
                raise AttachError("too many paths")
            st = work.pop()
            if st.pending is not None:
                tgt, prev = st.pending
                st.pending = None
                fr = st.frames[-1]
                depth = len(st.frames)
                if region is not None and depth == region[0]:
                    if tgt == region[1] and prev is not None and prev in region[2] and not st.ghost.get("_enter"):
                        st.backvals = self.phivals(st, tgt, prev)
                        st.pending = (tgt, prev)
                        backs.append(st)
                        continue
                    if tgt not in region[2]:
                        st.pending = (tgt, prev)
                        parked.append(st)
                        continue
                key = (fr.fn.name, tgt)
                if key in self.stops and not st.ghost.pop("_start", False):
                    vals = self.phivals(st, tgt, prev)
                    outs.append(Outcome("stop", st, (tgt, vals)))
                    continue
                if tgt in fr.fn.loops and not st.ghost.pop("_enter", False):
                    r = self.loop(st, tgt, prev)
                    if r is not None:
                        more, o2 = r
                        work.extend(more)
                        outs.extend(o2)
                        continue
                    c = fr.unroll.get(tgt, 0) if prev in fr.fn.loops[tgt] else 0
                    if c >= self.unroll:
                        raise AttachError("loop without invariant in %s at %s" % (fr.fn.name, tgt))
                    fr.unroll[tgt] = c + 1
                if prev is not None:
                    vals = self.phivals(st, tgt, prev)
                    fr.env.update(vals)
                fr.prev, fr.blk, fr.idx = prev, tgt, 0
            r = self.run_block(st)
            for x in r:
                if isinstance(x, Outcome):
                    if region is not None and x.kind == "ret":
                        pass
                    outs.append(x)
                else:
                    # returned below the region's frame => left the loop
                    if region is not None and x.pending is None and len(x.frames) < region[0]:
                        parked.append(x)
                    else:
                        work.append(x)
        if region is None:
            return outs
        return backs, parked, outs

    def phivals(self, st, tgt, prev):
        fr = st.frames[-1]
        vals = {}
        for ph in fr.fn.blocks[tgt].phis:
            t, inc = ph.a
            for v, b in inc:
                if b == prev:
                    vals[ph.res] = self.val(st, t, v)
                    break
            else:
                raise IRError("phi without edge")
        return vals

    def branch(self, st, cond):
        """-> list of (bool, state)"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return [(True, st)]
        if z3.is_false(cond):
            return [(False, st)]
        t = self.sat(st.pc, cond)
        f = self.sat(st.pc, z3.Not(cond))
        if t and not f:
            return [(True, st)]
        if f and not t:
            return [(False, st)]
        if not t and not f:
            return []
        s2 = st.copy()
        self.assume(st, cond)
        self.assume(s2, z3.Not(cond))
        return [(True, st), (False, s2)]

    def run_block(self, st):
        """runs to the end of the block / to a call; returns successor states or outcomes"""
        fr = st.frames[-1]
        blk = fr.fn.blocks[fr.blk]
        while True:
            ins = blk.ins[fr.idx]
            fr.idx += 1
            op, a = ins.op, ins.a
            env = fr.env
            if op == "bin":
                x, y = self.val(st, a[1], a[2]), self.val(st, a[1], a[3])
                env[ins.res] = self.binop(st, a[0], a[1], x, y)
            elif op == "load":
                env[ins.res] = self.load(st, a[0], self.val(st, ir.PTR, a[1]))
            elif op == "store":
                self.store(st, a[0], self.val(st, a[0], a[1]), self.val(st, ir.PTR, a[2]))
            elif op == "gep":
                env[ins.res] = self.gep(st, a[0], a[1])
            elif op == "cast":
                v = self.val(st, a[1], a[2])
                w = self.widened(st, v) if a[0] == "sext" and self.loopspecs and a[3].k == "i" and a[3].n == 64 else None
                env[ins.res] = w if w is not None else self.cast(a[0], a[1], v, a[3])
            elif op == "icmp":
                env[ins.res] = self.icmp(a[0], self.val(st, a[1], a[2]), self.val(st, a[1], a[3]))
            elif op == "fcmp":
                env[ins.res] = self.fcmp(a[0], self.val(st, a[1], a[2]), self.val(st, a[1], a[3]))
            elif op == "fbin":
                x, y = self.val(st, a[1], a[2]).fp, self.val(st, a[1], a[3]).fp
                if a[0] == "frem":
                    raise AttachError("frem")
                if x.sort() == F64:
                    env[ins.res] = Dbl(z3.simplify(self.fpop(a[0][1:], x, y)))
                else:
                    g = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[a[0]]
                    env[ins.res] = Dbl(z3.simplify(g(RNE, x, y)))
            elif op == "fneg":
                v = self.val(st, a[0], a[1])
                env[ins.res] = Dbl(z3.simplify(z3.fpNeg(v.fp)),
                                   None if v.bits is None else z3.simplify(v.bits ^ bv(1 << (v.bits.size() - 1), v.bits.size())))
            elif op == "select":
                c = self.val(st, ir.I(1), a[0])
                x, y = self.val(st, a[1], a[2]), self.val(st, a[1], a[3])
                if isinstance(x, Dbl):
                    if z3.is_true(c) or z3.is_false(c):
                        env[ins.res] = x if z3.is_true(c) else y
                    else:
                        bits = z3.If(c, x.bits, y.bits) if x.bits is not None and y.bits is not None else None
                        env[ins.res] = Dbl(z3.If(c, x.fp, y.fp), bits)
                else:
                    env[ins.res] = z3.simplify(z3.If(c, x, y))
            elif op == "freeze":
                env[ins.res] = self.val(st, a[0], a[1])
            elif op == "alloca":
                t, cnt = a
                sz = self.prog.sizeof(t, fr.fn.mod)
                if cnt is not None:
                    c = const_of(z3.simplify(self.val(st, *cnt)))
                    if c is None:
                        raise AttachError("variable-length alloca")
                    sz *= c
                env[ins.res] = bv(st.sp)
                st.sp += (sz + 15) // 16 * 16 + 64
            elif op == "call":
                return self.do_call(st, ins)
            elif op == "br":
                if len(a) == 1:
                    st.pending = (a[0], fr.blk)
                    return [st]
                c = self.val(st, ir.I(1), a[0])
                out = []
                cur = fr.blk
                for b, s in self.branch(st, c):
                    s.pending = (a[1] if b else a[2], cur)
                    out.append(s)
                return out
            elif op == "switch":
                v = self.val(st, a[0], a[1])
                cur = fr.blk
                groups = {}
                for c, b in a[3]:
                    groups.setdefault(b, []).append(c)
                conds = [(b, z3.simplify(z3.Or(*[v == c for c in cs]))) for b, cs in groups.items()]
                allc = z3.simplify(z3.And(*[v != c for c, _ in a[3]])) if a[3] else z3.BoolVal(True)
                conds.append((a[2], allc))
                live = [(b, c) for b, c in conds if not z3.is_false(c) and (z3.is_true(c) or self.sat(st.pc, c))]
                out = []
                for b, c in live:
                    s = st.copy() if len(live) > 1 else st
                    self.assume(s, c)
                    s.pending = (b, cur)
                    out.append(s)
                return out
            elif op == "indirectbr":
                v = z3.simplify(self.val(st, ir.PTR, a[0]))
                c = const_of(v)
                if c is None:
                    return [Outcome("stop", st, ("indirect", v))]
                for b in a[1]:
                    if self.prog.blockaddr(fr.fn.name, b) == c:
                        st.pending = (b, fr.blk)
                        return [st]
                raise AttachError("indirectbr to unknown")
            elif op == "ret":
                v = None if a[1] is None else self.val(st, a[0], a[1])
                return self.do_ret(st, v)
            elif op == "unreachable":
                return [Outcome("exit", st, ("unreachable",))]
            else:
                raise AttachError("instruction " + op)

    def do_ret(self, st, v):
        fr = st.frames.pop()
        if not st.frames:
            return [Outcome("ret", st, v)]
        if fr.res is not None:
            st.frames[-1].env[fr.res] = v
        return [st]

    def do_call(self, st, ins):
        t, callee, cargs = ins.a
        args = [self.val(st, at, av) for at, av in cargs]
        fr = st.frames[-1]
        if callee[0] == "l":
            target = z3.simplify(fr.env[callee[1]])
            c = const_of(target)
            name = None
            if c is not None:
                for n, ad in self.prog.faddr.items():
                    if ad == c:
                        name = n
            if name is None:
                if "*indirect" in self.contracts:
                    return self.apply(st, ins, "*indirect", [target] + args)
                raise AttachError("indirect call in " + fr.fn.name)
        else:
            name = callee[1]
        if name in self.contracts:
            return self.apply(st, ins, name, args)
        h = getattr(self, "i_" + re.sub(r"[^a-zA-Z0-9_]", "_", name.split(".")[1] if name.startswith("llvm.") else ""),
                    None)
        if h is not None:
            r = h(st, args, name)
            if ins.res is not None:
                fr.env[ins.res] = r
            return [st]
        if name in ("memmove", "memcpy", "bcopy"):
            self.memcpy(st, args[0], args[1], args[2])
            if ins.res is not None:
                fr.env[ins.res] = args[0]
            return [st]
        f = self.prog.funcs.get(name)
        if f is None:
            raise AttachError("call of %s: no contract and no definition" % name)
        self.push(st, f, args, ins.res)
        return [st]

    def apply(self, st, ins, name, args):
        self.used_contracts.add(name)
        fr_depth = len(st.frames)
        res = []
        for r in self.contracts[name](self, st, args):
            kind, s, v = r
            if kind == "ret":
                if ins.res is not None:
                    s.frames[-1].env[ins.res] = v
                res.append(s)
            else:
                res.append(Outcome("exit", s, v))
        return res

    # intrinsics
    def i_memmove(self, st, args, name):
        self.memcpy(st, args[0], args[1], args[2])

    i_memcpy = i_memmove

    def i_memset(self, st, args, name):
        d, b, n = args[0], args[1], args[2]
        st.mem = fill_mem(st.mem, d, n, b)

    def i_fabs(self, st, args, name):
        return Dbl(z3.fpAbs(args[0].fp))

    def i_floor(self, st, args, name):
        return Dbl(z3.fpRoundToIntegral(z3.RTN(), args[0].fp))

    def i_ceil(self, st, args, name):
        return Dbl(z3.fpRoundToIntegral(z3.RTP(), args[0].fp))

    def i_rint(self, st, args, name):
        return Dbl(z3.fpRoundToIntegral(RNE, args[0].fp))

    i_nearbyint = i_rint

    def i_trunc(self, st, args, name):
        return Dbl(z3.fpRoundToIntegral(RTZ, args[0].fp))

    def i_sqrt(self, st, args, name):
        return Dbl(z3.fpSqrt(RNE, args[0].fp))

    def i_stacksave(self, st, args, name):
        return bv(0)

    def i_stackrestore(self, st, args, name):
        return None

    def memcpy(self, st, d, s, n):
        if z3.is_bv_value(z3.simplify(n)):
            c = z3.simplify(n).as_long()
            if c <= 32:
                vals = [self.read(st, s + i, 1) for i in range(c)]
                if c in (8, 16, 24, 32):
                    ws = [self.read(st, s + 8 * i, 8) for i in range(c // 8)]
                    for i, w in enumerate(ws):
                        st.mem = st.mem.write(d + 8 * i, 8, w)
                    return
                for i, v in enumerate(vals):
                    st.mem = st.mem.write(d + i, 1, v)
                return
        st.mem = copy_mem(st.mem, d, s, n)

    # ------------------------------------------------------------ loops
    def find_spec(self, st, tgt):
        for fr in reversed(st.frames):
            if fr.fn.name in self.loopspecs:
                return self.loopspecs[fr.fn.name]
        return None

    def loop(self, st, tgt, prev):
        """None: treat as an ordinary block (unroll).  Otherwise (states after the loop, outcomes)"""
        fr = st.frames[-1]
        spec = self.find_spec(st, tgt)
        if spec is None:
            return None
        if prev in fr.fn.loops[tgt]:
            # re-entry while unrolling
            if fr.unroll.get(tgt, 0):
                return None
        init = self.phivals(st, tgt, prev)
        ctx = LoopCtx(self, st, fr.fn, tgt, init)
        alts = spec(ctx)
        if alts is None:
            return None
        return self.cut(st, tgt, prev, ctx, alts)

    def cut(self, st, tgt, prev, ctx, alts):
        fr = st.frames[-1]
        body = fr.fn.loops[tgt]
        region = (len(st.frames), tgt, body)
        phis = fr.fn.blocks[tgt].phis
        # --- exploratory run: which phis are linear?
        lin = self.find_linear(st, tgt, prev, region, phis, ctx)
        errs = []
        for ai, alt in enumerate(alts):
            r = self.try_alt(st, tgt, prev, region, phis, ctx, lin, alt, errs)
            if r is not None:
                return r
        name = "loop invariant in %s" % ctx.fname
        # an invariant that no longer fits says nothing about the result: the unit falls back to the bounded runs
        self.obls.append(Obligation(name, "unknown", 0, "z3", {},
                                    {"why": errs}))
        raise InvariantFailed(name + ": " + "; ".join(errs)[:500])

    def havoc_phis(self, phis, init, lin, n):
        vals = {}
        for ph in phis:
            t = ph.a[0]
            if ph.res in lin:
                vals[ph.res] = z3.simplify(init[ph.res] + z3.simplify(lin[ph.res]) * ext(n, init[ph.res].size()))
            elif t.k == "i" and t.n == 1:
                vals[ph.res] = fresh("phi", z3.BoolSort())
            elif t.k == "double":
                vals[ph.res] = Dbl(fresh("phi", F64))
            else:
                vals[ph.res] = fresh("phi", z3.BitVecSort(self.ty_bits(t)))
        return vals

    def enter(self, st, tgt, prev, vals):
        fr = st.frames[-1]
        fr.env.update(vals)
        fr.prev, fr.blk, fr.idx = prev, tgt, 0
        st.pending = None

    def find_linear(self, st, tgt, prev, region, phis, ctx):
        lin = {}
        s = st.copy()
        n = fresh("n", z3.BitVecSort(64))
        vals = self.havoc_phis(phis, ctx.init, {}, n)
        s.mem = Mem.base("explore")
        self.enter(s, tgt, prev, vals)
        self.quiet += 1
        saved = self.loopspecs
        self.loopspecs = _Havoc(self, saved)
        try:
            backs, parked, outs = self.explore([s], region)
        except (AttachError, InvariantFailed, IRError):
            # fall back on the syntactic recognition
            backs = None
        finally:
            self.quiet -= 1
            self.loopspecs = saved
        syms = set()
        for v in vals.values():
            x = v.fp if isinstance(v, Dbl) else v
            syms.add(x.get_id())
        if backs is None:
            return syntactic_linear(self, st, tgt, region, phis, ctx)
        for ph in phis:
            if ph.a[0].k not in ("i", "ptr") or (ph.a[0].k == "i" and ph.a[0].n == 1):
                continue
            ds = set()
            ok = True
            step = None
            for b in backs:
                d = z3.simplify(b.backvals[ph.res] - vals[ph.res])
                if not z3.is_bv_value(d):
                    ok = False
                    break
                ds.add(d.as_long())
                step = d
            if ok and len(ds) == 1:
                lin[ph.res] = step
        return lin

    def try_alt(self, st, tgt, prev, region, phis, ctx, lin, alt, errs):
        n = fresh("n", z3.BitVecSort(64))
        if alt.get("nmax") is not None:      # guaranteed by the invariant rounds<=count
            declare_interval(n, 0, alt["nmax"])
        entry_mem = st.mem
        memf = alt.get("mem")
        lctx = LoopCtx(self, st, ctx.fn, tgt, ctx.init)
        lctx.lin = lin

        def mem_at(k):
            if memf is None:
                return entry_mem
            return memf(lctx, k)

        def facts(vals, k, mem, s):
            lctx.vals, lctx.n, lctx.mem, lctx.cur = vals, k, mem, s
            return alt["cands"](lctx) if alt.get("cands") else []

        # skolem address for memory equality
        def mem_equal(s, m1, m2, nm, kk):
            if m1 is m2:
                return True
            s2 = s.copy()
            if alt.get("words"):     # equal at every aligned word is equal everywhere
                a = z3.simplify(z3.Concat(fresh("w", z3.BitVecSort(61)), bv(0, 3)))
            else:
                a = fresh("a", z3.BitVecSort(64))
            extra = alt.get("memskip")
            if extra is not None:
                s2.pc.append(z3.Not(extra(lctx, a)))
            # never compare the engine's own stack
            sz = 8 if alt.get("words") else 1
            # the address is one of the words named by the parts, or none of them
            parts = alt["split"](lctx, kk) if alt.get("split") else []
            conds = []
            for lo, cnt in parts:
                if cnt is None:
                    conds.append((z3.simplify(lo), [], a == lo))
                else:
                    j = fresh("j", z3.BitVecSort(64))
                    iv = interval(z3.simplify(cnt))
                    if iv is not None:
                        declare_interval(j, 0, max(iv[1], 0))
                    conds.append((z3.simplify(lo + 8 * j), [z3.ULT(j, cnt)], z3.ULT(a - lo, 8 * cnt)))
            if parts:       # the rest, relative to the first part (aligned like it)
                a2 = z3.simplify(parts[0][0] + a)
                w = lambda p: z3.simplify(a + parts[0][0] - p)
                outs = [z3.Not(w(lo) == 0) if cnt is None else z3.Not(z3.ULT(w(lo), z3.simplify(8 * cnt))) for lo, cnt in parts]
            else:
                a2, outs = a, []
            if alt.get("nostack", True):
                outs.append(z3.ULT(a2, bv(STACK_BASE)))
            for ad, cs in [(x, y) for x, y, _ in conds] + [(a2, outs)]:
                s3 = s2.copy()
                for c in cs:
                    self.assume(s3, c)
                rd = self.reader(s3)
                r = self.check(s3.pc, rd.read(m1, ad, sz) == rd.read(m2, ad, sz))
                if r[0] != "proved":
                    errs.append("%s: %s" % (nm, r[0]))
                    return False
                self.note("loop memory %s (%s)" % (nm, ctx.fname), r)
            return True

        init_lin_vals = ctx.init
        zero = bv(0)
        s0 = st.copy()
        if memf is not None:
            self.quiet += 1
            ok = mem_equal(s0, st.mem, mem_at(zero), "entry", zero)
            self.quiet -= 1
            if not ok:
                return None
        # --- candidates at entry
        c0 = facts(init_lin_vals, zero, st.mem, s0)
        keep = []
        for i, (lab, f) in enumerate(c0):
            r = self.check(s0.pc, f, timeout=alt.get("timeout", 6))
            keep.append(r[0] == "proved")
        must = alt.get("must", ())
        # --- Houdini
        rounds = 0
        while True:
            rounds += 1
            s = st.copy()
            vals = self.havoc_phis(phis, ctx.init, lin, n)
            m = mem_at(n)
            s.mem = m
            fs = facts(vals, n, m, s)
            for (lab, f), k in zip(fs, keep):
                if k:
                    self.assume(s, f)
            self.enter(s, tgt, prev, vals)
            s.ghost["n"] = n
            self.quiet += 1
            try:
                backs, parked, outs = self.explore([s.copy()], region)
            finally:
                self.quiet -= 1
            changed = False
            for b in backs:
                nb = facts(b.backvals, z3.simplify(n + 1), b.mem, b)
                for i, (lab, f) in enumerate(nb):
                    if keep[i]:
                        r = self.check(b.pc, f, timeout=alt.get("timeout", 6))
                        if r[0] != "proved":
                            keep[i] = False
                            changed = True
            if not changed:
                break
            if rounds > 12:
                errs.append("attach: no fixpoint")
                return None
        labs = [lab for (lab, f), k in zip(fs, keep) if k]
        for mlab in must:
            if mlab not in labs:
                errs.append("invariant %s not inductive" % mlab)
                return None
        # --- memory preserved
        for b in backs:
            lctx.cur = b
            if not mem_equal(b, b.mem, mem_at(z3.simplify(n + 1)), "step", n):
                return None
        # --- final, recorded run
        self.loopinfo.append({"function": ctx.fname, "linear": len(lin), "facts": labs})
        if not self.quiet:
            for lab in labs:
                self.obls.append(Obligation("invariant %s of loop in %s" % (lab, ctx.fname), "proved", 0, "z3"))
            if memf is not None:
                self.obls.append(Obligation("memory invariant of loop in %s" % ctx.fname, "proved", 0, "z3"))
        backs, parked, outs = self.explore([s], region)
        for b in backs:
            h = alt.get("atback")
            if h:
                h(lctx, b)
        return parked, outs

    def note(self, name, r):
        pass


class InvariantFailed(Exception):
    pass


def ext(n, w):
    return n if w == 64 else z3.Extract(w - 1, 0, n)


def syntactic_linear(eng, st, tgt, region, phis, ctx):
    fn = ctx.fn
    defs = {}
    for b in region[2]:
        for i in fn.blocks[b].ins:
            if i.res:
                defs[i.res] = i
    lin = {}
    for ph in phis:
        steps = set()
        for v, b in ph.a[1]:
            if b not in region[2]:
                continue
            off, cur, ok = 0, v, False
            for _ in range(8):
                if cur == ("l", ph.res):
                    ok = True
                    break
                d = defs.get(cur[1]) if cur[0] == "l" else None
                if d is None:
                    break
                if d.op == "bin" and d.a[0] in ("add", "sub") and d.a[3][0] == "c":
                    off += d.a[3][1] if d.a[0] == "add" else -d.a[3][1]
                    cur = d.a[2]
                elif d.op == "gep" and len(d.a[1]) == 2 and d.a[1][1][1][0] == "c":
                    off += d.a[1][1][1][1] * eng.prog.sizeof(d.a[0], fn.mod)
                    cur = d.a[1][0][1]
                else:
                    break
            steps.add(off if ok else None)
        if len(steps) == 1 and None not in steps and ph.a[0].k in ("i", "ptr") and not (ph.a[0].k == "i" and ph.a[0].n == 1):
            lin[ph.res] = bv(steps.pop(), eng.ty_bits(ph.a[0]))
    return lin


class _Havoc(dict):
    """loop specs used during exploratory runs: every inner loop is havocked"""

    def __init__(self, eng, saved):
        super().__init__()
        self.saved = saved

    def __contains__(self, k):
        return k in self.saved

    def __getitem__(self, k):
        inner = self.saved[k]

        def spec(ctx):
            if inner(ctx) is None:
                return None
            return [{"mem": lambda c, k: Mem.base("hv"), "explore": True, "memskip": lambda c, a: z3.BoolVal(True)}]
        return spec


class LoopCtx:
    def __init__(self, eng, st, fn, header, init):
        self.eng, self.entry, self.fn, self.header, self.init = eng, st, fn, header, init
        self.fname = fn.name
        self.vals, self.n, self.mem, self.lin, self.cur = None, None, st.mem, {}, st

    @property
    def frames(self):
        return [f.fn.name for f in self.entry.frames]

    def width(self, r):
        v = self.init[r]
        return 0 if isinstance(v, Dbl) or z3.is_bool(v) else v.size()

    def nonlinear(self, w=None):
        return [r for r in self.init if r not in self.lin and (w is None or self.width(r) == w)]

    def linear(self):
        return [r for r in self.init if r in self.lin]

    def read(self, a, size, mem=None, st=None):
        st = st or self.cur
        return self.eng.reader(st).read(mem or self.mem, a, size)


# ------------------------------------------------------------ memory builders
def fill_mem(mem, d, n, b):
    d, n = z3.simplify(d), z3.simplify(n)

    def fn(rd, par, a):
        off = z3.simplify(a - d)
        inside = z3.ULT(off, n)
        if rd.ask(z3.Not(inside)):
            return rd._read(par, a, 1)
        if rd.ask(inside):
            return b
        return z3.If(inside, b, rd._read(par, a, 1))

    def fnw(rd, par, a, size):
        off = z3.simplify(a - d)
        # disjoint cell?
        if rd.ask(z3.And(z3.UGE(off, n), z3.UGE(z3.simplify(off + (size - 1)), n), z3.Or(n == 0, z3.UGE(z3.simplify(d - a), bv(size))))):
            return rd._read(par, a, size)
        return None
    return mem.lam(fn, fnw)


def map_words(mem, d, k, val):
    """the k words from address d on are val(reader, parent memory, byte offset); d is 8-aligned"""
    d, k = z3.simplify(d), z3.simplify(k)
    n = z3.simplify(8 * k)

    def fnw(rd, par, a, size):
        w, wd = rd.win(a), rd.win(d)
        if w is not None and wd is not None and w != wd:
            return rd._read(par, a, size)
        off = z3.simplify(a - d)
        iv = interval(off)
        if iv is not None and iv[1] <= -size:
            return rd._read(par, a, size)
        if size == 8 and low3(a) == 0:
            inside = z3.simplify(z3.ULT(off, n))
            if z3.is_false(inside) or rd.ask(z3.Not(inside)):
                return rd._read(par, a, 8)
            v = z3.simplify(val(rd, par, off))
            if z3.is_true(inside) or rd.ask(inside):
                return v
            return z3.If(inside, v, rd._read(par, a, 8))
        if rd.ask(z3.And(z3.UGE(off, n), z3.UGE(z3.simplify(off + (size - 1)), n))):
            return rd._read(par, a, size)
        return None

    def fn(rd, par, a):
        off = z3.simplify(a - d)
        inside = z3.simplify(z3.ULT(off, n))
        if z3.is_false(inside) or rd.ask(z3.Not(inside)):
            return rd._read(par, a, 1)
        sh = z3.ZeroExt(61, z3.Extract(2, 0, off)) << 3
        v = z3.Extract(7, 0, z3.LShR(val(rd, par, z3.simplify(off & bv(~7 & ((1 << 64) - 1)))), sh))
        if z3.is_true(inside) or rd.ask(inside):
            return v
        return z3.If(inside, v, rd._read(par, a, 1))
    r = mem.lam(fn, fnw)
    r.region = (d, k)
    return r


def copy_mem(mem, d, s, n, src_mem=None):
    """memmove semantics: the bytes are those of the memory before the copy"""
    d, s, n = z3.simplify(d), z3.simplify(s), z3.simplify(n)

    def fn(rd, par, a):
        off = z3.simplify(a - d)
        inside = z3.ULT(off, n)
        if rd.ask(z3.Not(inside)):
            return rd._read(par, a, 1)
        src = rd._read(src_mem or par, z3.simplify(s + off), 1)
        if rd.ask(inside):
            return src
        return z3.If(inside, src, rd._read(par, a, 1))

    def fnw(rd, par, a, size):
        off = z3.simplify(a - d)
        if rd.ask(z3.And(z3.UGE(off, n), z3.UGE(z3.simplify(off + (size - 1)), n), z3.Or(n == 0, z3.UGE(z3.simplify(d - a), bv(size))))):
            return rd._read(par, a, size)
        if size > 1 and rd.ask(z3.And(z3.ULT(off, n), z3.ULE(bv(size), n), z3.ULE(off, n - size))):
            return rd._read(src_mem or par, z3.simplify(s + off), size)
        return None
    return mem.lam(fn, fnw)


def const_table(mem, addr, data):
    """a constant byte table at a concrete address"""
    def look(off):      # off: BV64 in range
        r = bv(data[-1], 8)
        # group equal neighbours
        i = len(data) - 2
        while i >= 0:
            if data[i] != data[i + 1]:
                r = z3.If(z3.ULE(off, bv(i)), bv(data[i], 8), r)
            i -= 1
        return r

    def fn(rd, par, a):
        off = z3.simplify(a - addr)
        c = const_of(off)
        if c is not None:
            return bv(data[c], 8) if c < len(data) else rd._read(par, a, 1)
        inside = z3.ULT(off, bv(len(data)))
        if rd.ask(z3.Not(inside)):
            return rd._read(par, a, 1)
        if rd.ask(inside):
            return look(off)
        return z3.If(inside, look(off), rd._read(par, a, 1))

    def fnw(rd, par, a, size):
        off = z3.simplify(a - addr)
        c = const_of(off)
        if c is not None:
            if c + size <= len(data):
                return bv(int.from_bytes(data[c:c + size], "little"), 8 * size)
            return None
        if rd.ask(z3.And(z3.UGE(off, bv(len(data))), z3.UGE(z3.simplify(addr - a), bv(size)))):
            return rd._read(par, a, size)
        return None
    return mem.lam(fn, fnw)


def cvc5_check(s, to):
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + txt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(to * 1000), f.name], capture_output=True, text=True,
                           timeout=to + 10)
        return r.stdout.strip().split("\n")[0]
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)
