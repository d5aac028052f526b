"""Harness for contracts on single bytecode instructions of interprete() (runtime/interp.c).

The verified text is the production variant (threaded code, computed goto): the contract of instruction X is checked on
every path from the label of X in the jump table to the next dispatch, for every machine state."""
import re
import struct

import z3

from . import build, ir, opspec, sem
from .mem import Mem, bv, const_of, declare_aligned, declare_interval, fresh, interval, low3
from .sem import AttachError, Engine, Outcome, Program, State, map_words

# address windows (assumption: code, stack, ML heap and malloc'ed memory are disjoint)
CODE = (1 << 40, 1 << 41)
STK = (1 << 41, 1 << 42)
HEAP = (1 << 42, 1 << 45)
CHEAP = (1 << 45, 1 << 46)

RHO = z3.Function("relocated", z3.BitVecSort(64), z3.BitVecSort(64))


def inwin(a, w, size=8):
    return z3.And(z3.UGE(a, bv(w[0])), z3.ULE(a, bv(w[1] - size)))


def aligned(a):
    return z3.Extract(2, 0, a) == 0


def enum_values(hdr, name):
    m = re.search(r"enum\s+%s\s*\{(.*?)\}" % name, re.sub(r"/\*.*?\*/", "", hdr, flags=re.S), re.S)
    out, v = {}, 0
    for item in m.group(1).split(","):
        item = item.strip()
        if not item:
            continue
        if "=" in item:
            item, val = [x.strip() for x in item.split("=")]
            v = int(val, 0)
        out[item] = v
        v += 1
    return out


def defines(hdr):
    out = {}
    for m in re.finditer(r"^#define\s+(\w+)\s+(\d+)\b", hdr, re.M):
        out[m.group(1)] = int(m.group(2))
    return out


class Machine:
    """the IR of interprete() with its dispatch point and register roles"""

    def __init__(self, files=("interp.c", "str.c", "floats.c"), contracts=None, loopspecs=None, timeout=20.0, own_contracts=True):
        self.prog = Program()
        for f in files:
            self.prog.add(ir.parse_module(build.ir_of(f), f))
        d = build.src_copy() + "/runtime/"
        self.ops = enum_values(open(d + "instruct.h").read(), "instructions")
        self.gl = defines(open(d + "globals.h").read())
        self.tags = build.constants()
        self.cprim_ptr = False
        fn = self.fn = self.prog.funcs.get("interprete")
        if fn is None:
            raise AttachError("interprete() not found")
        fn.analyse()
        fn.irreducible = False      # label-to-label gotos; every loop is cut at the dispatch
        ind = [b for b in fn.blocks.values() if b.ins[-1].op == "indirectbr"]
        if len(ind) != 1:
            raise AttachError("%d dispatch points" % len(ind))
        self.disp = ind[0].name
        # everything else than real inner loops is not a natural loop
        fn.loops = {h: b for h, b in fn.loops.items() if self.disp not in b}
        self.contracts = dict(machine_contracts(self)) if own_contracts else {}
        self.contracts.update(contracts or {})
        self.loopspecs = loopspecs or {}
        self.timeout = timeout
        jt = [g for n, g in self.prog.globals.items() if n.endswith("jumptable")]
        if len(jt) != 1:
            raise AttachError("jump table")
        self.labels = []
        for et, ev in jt[0].init[1]:
            if ev[0] != "ba":
                raise AttachError("jump table entry")
            self.labels.append(ev[2])
        self.init_state()

    def engine(self, contracts=None):
        c = dict(self.contracts)
        c.update(contracts or {})
        e = Engine(self.prog, c, self.loopspecs, timeout=self.timeout)
        e.executed.add("interprete")
        e.windows = [(sem.GLOBAL_BASE, sem.GLOBAL_BASE + (1 << 32)), CODE, STK, HEAP, CHEAP, (sem.STACK_BASE, sem.STACK_BASE + (1 << 40)), SHADOW_W]
        e.fp_opaque = True
        return e

    def g(self, name):
        return bv(self.prog.gaddr(name))

    def init_state(self):
        def setjmp(ex, st, args):
            return [("ret", st, bv(0, 32))]

        def expand(ex, st, args):
            return [("ret", st, fresh("code", z3.BitVecSort(64)))]
        eng = self.engine({"setjmp": setjmp, "_setjmp": setjmp, "__sigsetjmp": setjmp, "expandcode": expand})
        eng.stops[("interprete", self.disp)] = True
        st = State()
        st.mem = Mem.base("mem0")
        rprog = bv(CHEAP[0] + 64)
        outs = eng.call_function(st, "interprete", [bv(2, 32), bv(0), bv(0, 32), rprog])
        stops = [o for o in outs if o.kind == "stop"]
        if len(stops) != 1:
            raise AttachError("entry of interprete(): %d dispatches" % len(stops))
        o = stops[0]
        tgt, vals = o.val
        st0 = o.st
        code = eng.read_mem0 = None
        rd = eng.reader(st0)
        self.roles = {}
        pcw = rd.read(st0.mem, rprog, 8)
        spw = rd.read(st0.mem, self.g("extern_sp"), 8)
        first_op = rd.read(st0.mem, pcw, 8)
        unit = z3.simplify(self.g("first_atoms") + 8)
        phis = self.fn.blocks[self.disp].phis
        for ph in phis:
            v = vals[ph.res]
            if isinstance(v, sem.Dbl):
                continue
            v = z3.simplify(v)
            if v.size() == 32:
                self.roles.setdefault("extra", ph.res)
                assert const_of(v) == 0
            elif z3.eq(v, spw) or eng.implied(st0.pc, v == spw):
                self.roles["sp"] = ph.res
            elif z3.eq(v, z3.simplify(pcw + 8)) or eng.implied(st0.pc, v == pcw + 8):
                self.roles["pc"] = ph.res
            elif const_of(v) == 1:
                self.roles["accu"] = ph.res
            elif z3.eq(v, unit):
                self.roles["env"] = ph.res
            elif z3.eq(v, first_op) or eng.implied(st0.pc, v == first_op):
                self.roles["target"] = ph.res
            else:
                raise AttachError("unknown machine register %s = %s" % (ph.res, v))
        need = {"extra", "sp", "pc", "accu", "env"}
        if not need <= set(self.roles):
            raise AttachError("machine registers %s" % (need - set(self.roles)))
        self.entry = st0
        self.entry.pc = []

    def gsize(self, name):
        g = self.prog.globals[name]
        return self.prog.sizeof(g.ty, g.mod)

    def start(self, eng, op, mem=None):
        """state about to execute instruction `op`"""
        st = self.entry.copy()
        fr = st.frames[-1]
        S = SymS(self, eng, op)
        fr.env[self.roles["accu"]] = S.accu
        fr.env[self.roles["sp"]] = S.sp
        fr.env[self.roles["pc"]] = S.pc
        fr.env[self.roles["env"]] = S.env
        fr.env[self.roles["extra"]] = S.extra
        if "target" in self.roles:
            fr.env[self.roles["target"]] = fresh("target", z3.BitVecSort(64))
        st.mem = mem if mem is not None else S.mem
        S.mem = st.mem
        st.pc = []
        S.st0 = st
        return S, st

    def run(self, eng, S, st, op):
        lbl = self.labels[self.ops[op]]
        eng.stops[("interprete", self.disp)] = True
        # phis of the label block with respect to the dispatch edge
        st.pending = (lbl, self.disp)
        st.frames[-1].blk = self.disp
        return eng.explore([st])



class M:
    """machine registers and memory, as an instruction contract manipulates them"""
    __slots__ = ("S", "accu", "sp", "pc", "env", "extra", "mem", "dbls", "barrier", "call", "gced", "free", "shadow", "calln", "major", "tracked")

    def __init__(self, S):
        self.S = S
        self.dbls, self.barrier, self.call, self.gced, self.free = [], None, None, False, []
        self.shadow, self.calln, self.major, self.tracked = False, None, None, None

    def copy(self):
        m = M(self.S)
        for k in ("accu", "sp", "pc", "env", "extra", "mem", "barrier", "call", "gced", "shadow", "calln", "major", "tracked"):
            setattr(m, k, getattr(self, k))
        m.dbls, m.free = list(self.dbls), list(self.free)
        return m

    def rd(self, a, size=8):
        return self.S.rdm(self.mem, a, size)

    def write(self, a, v):
        self.mem = self.mem.write(z3.simplify(a), v.size() // 8, v)

    def get(self, i):
        return self.rd(self.sp + 8 * i)

    def set(self, i, v):
        self.write(self.sp + 8 * i, v)

    def push(self, v):
        self.sp = z3.simplify(self.sp - 8)
        self.write(self.sp, v)

    def pop(self, n):
        self.sp = z3.simplify(self.sp + 8 * n)

    def opnd(self):
        v = self.S.rdm(self.S.mem, self.pc, 8)
        self.pc = z3.simplify(self.pc + 8)
        return v

    def field(self, v, i):
        return self.rd(v + 8 * i)

    def setglob(self, name, v):
        self.write(self.S.m_.g(name), v)

    def mapw(self, d, k, val):
        """the k words from d on become val(reader of the memory before, byte offset)"""
        self.mem = self.S.mapw(self.mem, d, k, val)

    def copyw(self, d, s, k):
        self.mapw(d, k, lambda rd, off: rd(z3.simplify(s + off)))


class BaseS:
    """what instruction contracts may use"""

    def m(self):
        m = M(self)
        m.accu, m.sp, m.pc, m.env, m.extra, m.mem = self.accu, self.sp, self.pc, self.env, self.extra, self.mem
        return m

    @property
    def unit(self):
        return self.atom(0)

    def atom(self, i):
        return z3.simplify(self.m_.g("first_atoms") + 8 * (i + 1))

    def boolval(self, c):
        return z3.simplify(z3.If(c, self.atom(1), self.atom(0)))

    def stk(self, i):
        return self.rdm(self.mem, self.sp + 8 * i, 8)

    def opnd(self, i):
        return self.rdm(self.mem, self.pc + 8 * i, 8)

    def glob(self, m, name):
        return self.rdm(m.mem, self.m_.g(name), self.m_.gsize(name))

    def globaddr(self, m, k):
        return self.glob(m, "global_data") + 8 * k

    def globfield(self, m, k):
        return m.rd(self.globaddr(m, k))

    def exn(self, m, name):
        return self.globfield(m, self.m_.gl[name])

    # pending signals and forced collections, polled at applications and returns
    def poll(self, m):
        todo = self.glob(m, "something_to_do")
        z = bv(0, todo.size())
        out = [(todo == z, "next", m)]
        if not self.feasible(todo != z):
            return out
        fm = self.glob(m, "force_minor_flag")
        for gc in (False, True):
            for sig in (False, True):
                a = m.copy()
                a.setglob("something_to_do", z)
                c = [todo != z, (fm != 0) if gc else (fm == 0)]
                if not self.feasible(z3.And(*c)):
                    continue
                if gc:
                    a.setglob("force_minor_flag", bv(0, fm.size()))
                    self.gc(a)
                sg = self.glob(a, "signal_is_pending")
                a.setglob("signal_is_pending", bv(0, sg.size()))
                c.append((sg != 0) if sig else (sg == 0))
                if not self.feasible(z3.And(*c)):
                    continue
                if sig:
                    s64 = sg if sg.size() == 64 else z3.SignExt(64 - sg.size(), sg)
                    for v in (opspec.extra_val(a.extra), a.env, a.pc, (s64 << 1) + 1):
                        a.push(v)
                    a.env = self.atom(0)
                    a.pc = self.glob(a, "signal_handler")
                    a.extra = bv(0, 32)
                out.append((z3.And(*c), "next", a))
        return out

    def poll_growth(self, m):
        low = z3.ULT(m.sp, self.glob(m, "stack_threshold"))
        out = []
        if self.feasible(z3.Not(low)):
            out = [(z3.And(z3.Not(low), c), k, x) for c, k, x in self.poll(m)]
        if not self.feasible(low):
            return out
        g = m.copy()
        self.grow(g)
        return out + [(z3.And(low, c), k, x) for c, k, x in self.poll(g)]

    def alloc(self, m, n, tag, fields, before=None, tag_sym=None, res="accu", raw=(), tail=None):
        """a fresh block; `fields` are values (relocated if a collection intervenes) or ("bits", fp); raw: first fields that are
        no values; tail(m, block): further writes after the allocation"""
        tag = tag if z3.is_bv(tag) else bv(self.m_.tags.get(tag_sym, tag))
        n = n if z3.is_bv(n) else bv(n)
        yp, ye = self.glob(m, "young_ptr"), self.glob(m, "young_end")
        new = z3.simplify(yp + 8 * (n + 1))
        ok = z3.ULE(new, ye)
        out = []
        for gc in (False, True):
            if not self.feasible(z3.Not(ok) if gc else ok):
                continue
            a = m.copy()
            fs = fields
            if gc:
                self.gc(a)
                yp = self.glob(a, "young_ptr")
                fs = [f if isinstance(f, tuple) or i in raw else self.rho(f) for i, f in enumerate(fields)]
            a.setglob("young_ptr", z3.simplify(yp + 8 * (n + 1)))
            a.write(yp, (n << 10) + 0x300 + tag)
            for i, f in enumerate(fs):
                ad = z3.simplify(yp + 8 * (i + 1))
                if isinstance(f, tuple):
                    a.dbls.append((ad, f[1]))
                else:
                    a.write(ad, f)
            setattr(a, res, z3.simplify(yp + 8))
            if tail:
                tail(a, z3.simplify(yp + 8))
            out.append((ok if not gc else z3.Not(ok), "next", a))
        return out

    def store_field(self, m, addr, v):
        old = m.rd(addr)
        m.write(addr, v)
        m.barrier = (addr, old, v)

    def ccall(self, m, p, args, npop):
        a = m.copy()
        a.call = (self.rdm(m.mem, self.m_.g("cprim") + 8 * p, 8) if not self.m_.cprim_ptr
                  else self.rdm(m.mem, self.glob(m, "cprim") + 8 * p, 8), args)
        self.gc(a, heap="heap_after_c_call", grow=True)
        a.accu = self.cres()
        a.pop(npop)
        return [(z3.BoolVal(True), "next", a)]

    def raise_cases(self, m, v):
        tr = self.glob(m, "trapsp")
        lim = self.glob(m, "stack_high") - 8 * z3.SignExt(32, self.sp_offset())
        un = z3.UGE(tr, lim)
        a = m.copy()
        a.accu = v
        a.sp = tr
        a.pc, link, a.env, ex = a.get(0), a.get(1), a.get(2), a.get(3)
        a.extra = opspec.low32(ex >> 1)
        a.setglob("trapsp", link)
        a.pop(4)
        b = m.copy()
        b.accu = v
        return [(z3.Not(un), "next", a), (un, "longjmp", b)]

    def cases(self):
        out = []
        for c, k, m in opspec.SPEC[self.op](self):
            if k in ("next", "halt"):
                out.append((c, k, m))
            else:
                v = k[1] if isinstance(k, tuple) else self.exn(m, k)
                out += [(z3.And(c, c2), k2, m2) for c2, k2, m2 in self.raise_cases(m, v)]
        return out


W_GLOB, W_CODE, W_STK, W_HEAP, W_CHEAP, W_ESTK = range(6)


def gc_mem(eng, mem, lo, hi, heapname, mach, shift=None):
    """memory after a minor collection: live stack words relocated, young/old heap rearranged, the rest unchanged"""
    base = z3.Array(heapname, z3.BitVecSort(64), z3.BitVecSort(8))
    lo = z3.simplify(lo)

    def heap(rd, a, size):
        bs = [z3.Select(base, z3.simplify(a + i)) for i in range(size)]
        return z3.Concat(*reversed(bs)) if size > 1 else bs[0]

    def instack(a, size):
        return z3.And(z3.UGE(a, lo), z3.ULE(a, z3.simplify(hi - size)))

    def inheap(a):
        return z3.And(z3.UGE(a, bv(HEAP[0])), z3.ULT(a, bv(HEAP[1])))

    def outside(a, size):
        return z3.And(z3.Or(z3.ULE(a, z3.simplify(lo - size)), z3.UGE(a, hi)),
                      z3.Or(z3.ULE(a, bv(HEAP[0] - size)), z3.UGE(a, bv(HEAP[1]))))

    def fnw(rd, par, a, size):
        w = rd.win(a)
        if w is not None and w not in (W_STK, W_HEAP):
            return rd._read(par, a, size)
        if w == W_HEAP:
            return heap(rd, a, size)
        if w is None and rd.ask(outside(a, size)):
            return rd._read(par, a, size)
        iv = interval(z3.simplify(a - lo)) if w == W_STK else None
        if iv is not None and iv[1] <= -size:
            return rd._read(par, a, size)
        if size == 8 and (low3(a) == 0 or rd.ask(z3.Extract(2, 0, a) == 0)) and ((iv is not None and iv[0] >= 0) or rd.ask(instack(a, 8))):
            return rho_term(rd._read(par, a, 8))
        if rd.ask(z3.And(inheap(a), inheap(a + (size - 1)))):
            return heap(rd, a, size)
        return None

    def fn(rd, par, a):
        if rd.ask(outside(a, 1)):
            return rd._read(par, a, 1)
        if rd.ask(inheap(a)):
            return heap(rd, a, 1)
        w = z3.simplify(a & bv(~7 & ((1 << 64) - 1)))
        sh = z3.ZeroExt(61, z3.Extract(2, 0, a)) << 3
        inb = z3.Extract(7, 0, z3.LShR(rho_term(rd._read(par, w, 8)), sh))
        if rd.ask(instack(a, 1)):
            return inb
        return z3.If(instack(a, 1), inb, z3.If(inheap(a), heap(rd, a, 1), rd._read(par, a, 1)))
    return mem.lam(fn, fnw)


def rho_term(w):
    """relocation by the copying collection: immediate integers are not moved"""
    if z3.is_bv_value(w) and w.as_long() & 1:
        return w
    return z3.If(z3.Extract(0, 0, w) == 1, w, RHO(w))


STK_HI = bv(STK[1])
STKSZ = 1 << 38         # bound on the size of the stack (assumption)


class SymS(BaseS):
    """symbolic machine state before an instruction"""

    def __init__(self, m, eng, op):
        B = z3.BitVecSort(64)
        self.m_, self.eng, self.op = m, eng, op
        self.accu, self.sp, self.pc, self.env = [z3.Const(n, B) for n in ("accu", "sp", "pc", "env")]
        self.extra = z3.Const("extra_args", z3.BitVecSort(32))
        self.mem = Mem.base("mem")
        self.ctx = None

    def rdm(self, mem, a, size):
        return self.eng.reader(self.ctx).read(mem, a, size)

    def feasible(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        return not z3.is_false(c) and self.eng.sat(self.ctx.pc, c)

    def fpop(self, name, x, y):
        return self.eng.fpop(name, x, y)

    def sp_offset(self):
        e = self.m_.entry
        rd = self.eng.reader(self.ctx)
        hi = rd.read(e.mem, self.m_.g("stack_high"), 8)
        sp = rd.read(e.mem, self.m_.g("extern_sp"), 8)
        return z3.Extract(31, 0, (hi - sp) >> 3)

    def rho(self, w):
        return rho_term(z3.simplify(w))

    def cres(self):
        return z3.BitVec("c_result", 64)

    def mapw(self, mem, d, k, val):
        return map_words(mem, d, k, lambda rd, par, off: val(lambda a: rd._read(par, z3.simplify(a), 8), off))

    young_after = z3.BitVec("young_ptr_after", 64)

    @property
    def shr(self):
        return SHR

    @property
    def cbuf(self):
        return C_BUF

    def trace(self, m, b, k, val, last, before):
        """all fields were stored through initialize"""
        f = lambda rd, par, off: val(lambda a: rd._read(before, z3.simplify(a), 8), off)
        m.mem = map_words(m.mem, z3.simplify(b + SHADOW), k, f)
        m.write(z3.simplify(b + SHADOW + 8 * k), last)

    def update_fields(self, m, dst, src, n):
        """every field of src is assigned to the same field of dst, with the barrier"""
        before = m.mem
        f = lambda rd, par, off: rd._read(before, z3.simplify(src + off), 8)
        m.mem = map_words(m.mem, dst, n, f)
        m.mem = map_words(m.mem, z3.simplify(dst + SHADOW), n, f)
        m.shadow = True

    def alloc_shr(self, m, n, tag):
        """a fresh block in the major heap, its fields still to be set (the same for code and contract)"""
        m.write(SHR - 8, shr_header(n, tag))
        m.major = (n, tag)
        return SHR

    def gc(self, m, heap="heap_after_gc", grow=False):
        m.accu, m.env = self.rho(m.accu), self.rho(m.env)
        m.mem = gc_mem(self.eng, m.mem, m.sp, STK_HI, heap, self.m_)
        m.setglob("young_ptr", z3.BitVec("young_ptr_after", 64))
        m.gced = True

    def grow(self, m):
        """the stack is moved to a larger block; the live part keeps its contents"""
        m.mem, m.sp = grown(self.eng, m.mem, m.sp)

    def heapobj(self, v):
        return z3.And(aligned(v), z3.UGE(v, bv(HEAP[0] + 4096)), z3.ULE(v, bv(HEAP[1] - (1 << 43))))

    def codeptr(self, v):
        return z3.And(aligned(v), inwin(v, (CODE[0] + 65536, CODE[1] - 65536)))

    def anyobj(self, v):
        return aligned(v)

    def atomval(self, v):
        return aligned(v)

    def lexcmp(self, a, b):
        return LEXCMP(a, b)

    def assume_pre(self, st, depth=16, operands=6):
        self.ctx = st
        A = self.eng.assume
        e = self.m_.entry
        rd0 = self.eng.reader(st)
        hi0 = rd0.read(e.mem, self.m_.g("stack_high"), 8)
        sp0 = rd0.read(e.mem, self.m_.g("extern_sp"), 8)
        A(st, z3.And(aligned(hi0), aligned(sp0), z3.ULE(hi0 - sp0, bv(1 << 32))))
        hi1 = self.rdm(self.mem, self.m_.g("stack_high"), 8)
        declare_interval(hi1, STK[0], STK[0] + 2 * STKSZ)
        A(st, z3.And(z3.ULE(hi1, bv(STK[0] + 2 * STKSZ)), aligned(hi1), z3.UGE(hi1, bv(STK[0])), z3.ULE(hi1, bv(STK[1] - 16384))))
        A(st, aligned(self.sp))
        for t in (self.sp, self.pc, GROW, z3.BitVec("young_ptr_after", 64), SHR, C_BUF):
            declare_aligned(t)
        A(st, z3.And(aligned(SHR), z3.UGE(SHR, bv(HEAP[0] + 65536)), z3.ULE(SHR, bv(HEAP[1] - (1 << 43)))))
        declare_interval(SHR, HEAP[0] + 65536, HEAP[1] - (1 << 43))
        A(st, z3.And(aligned(C_BUF), z3.UGE(C_BUF, bv(CHEAP[0] + 65536)), z3.ULE(C_BUF, bv(CHEAP[1] - (1 << 20)))))
        declare_interval(C_BUF, CHEAP[0] + 65536, CHEAP[1] - (1 << 20))
        A(st, z3.UGE(self.sp, bv(STK[0] + 65536)))
        A(st, z3.ULE(self.sp, bv(STK[0] + STKSZ)))
        declare_interval(self.sp, STK[0] + 65536, STK[0] + STKSZ)
        declare_interval(GROW, 0, STKSZ)
        declare_interval(self.pc, CODE[0] + 65536, CODE[1] - (1 << 16))
        declare_interval(z3.BitVec("young_ptr_after", 64), HEAP[0] + 65536, HEAP[1] - (1 << 20))
        A(st, aligned(self.pc))
        A(st, z3.UGE(self.pc, bv(CODE[0] + 65536)))
        A(st, z3.ULE(self.pc, bv(CODE[1] - (1 << 16))))
        A(st, z3.And(self.extra >= 0, self.extra < 1 << 20))
        g = lambda n: self.rdm(self.mem, self.m_.g(n), 8)
        for n in ("global_data", "young_ptr", "young_end", "trapsp", "ref_table_ptr", "stack_high"):
            declare_aligned(g(n))
        A(st, self.heapobj(g("global_data")))
        declare_interval(g("global_data"), HEAP[0] + 4096, HEAP[1] - (1 << 43))
        for n in ("young_ptr", "young_end"):
            A(st, z3.And(aligned(g(n)), z3.UGE(g(n), bv(HEAP[0] + 65536)), z3.ULE(g(n), bv(HEAP[1] - (1 << 20)))))
            declare_interval(g(n), HEAP[0] + 65536, HEAP[1] - (1 << 20))
        tr = g("trapsp")
        A(st, z3.And(aligned(tr), z3.UGE(tr, z3.simplify(self.sp)), z3.ULE(tr, bv(STK[0] + 2 * STKSZ))))
        declare_interval(tr, STK[0] + 65536, STK[0] + 2 * STKSZ)
        A(st, self.rdm(self.mem, self.m_.g("maxdouble"), 8) == bv(struct.unpack("<Q", struct.pack("<d", opspec.HALF_MAX))[0]))
        A(st, z3.And(aligned(GROW), z3.ULE(GROW, bv(STKSZ))))
        rt = g("ref_table_ptr")
        A(st, z3.And(aligned(rt), z3.UGE(rt, bv(CHEAP[0] + 65536)), z3.ULE(rt, bv(CHEAP[1] - 65536))))
        declare_interval(rt, CHEAP[0] + 65536, CHEAP[1] - 65536)
        yp2 = z3.BitVec("young_ptr_after", 64)
        A(st, z3.And(aligned(yp2), z3.UGE(yp2, bv(HEAP[0] + 4096)), z3.ULE(yp2, bv(HEAP[1] - (1 << 20))), z3.UGE(yp2, bv(HEAP[0] + 65536))))
        A(st, self.codeptr(g("signal_handler")))
        A(st, z3.Or(z3.UGE(tr, hi1 - 8 * z3.SignExt(32, self.sp_offset())), self.codeptr(self.rdm(self.mem, tr, 8))))
        declare_aligned(g("signal_handler"))
        declare_interval(g("signal_handler"), CODE[0] + 65536, CODE[1] - 65536)
        kinds = opspec.GEN.get(self.op, {}).get("operands", [])
        for i, k in enumerate(kinds):
            if k in ("idx", "frame", "small"):
                A(st, z3.ULT(self.opnd(i), bv(1 << 16)))
            elif k == "glob":
                A(st, z3.ULT(self.opnd(i), bv(1 << 31)))
            elif k == "label":
                A(st, z3.And(aligned(self.opnd(i)), inwin(self.opnd(i), CODE, 4096)))
        p = opspec.PRE.get(self.op)
        if p:
            for f in p(self):
                A(st, f)


C_BUF = z3.BitVec("malloced", 64)
SHR = z3.BitVec("block_in_major_heap", 64)
SHADOW = 1 << 46            # where `initialize` and `modify` leave a trace of the fields they were applied to
SHADOW_W = (1 << 46, 1 << 47)


def shr_header(n, tag):
    return (n << 10) + (z3.ZeroExt(62, z3.BitVec("colour", 2)) << 8) + tag


LEXCMP = z3.Function("lexicographic_order", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
GROW = z3.BitVec("stack_shift", 64)


def grown(eng, mem, sp):
    """stack reallocation: the live stack is found GROW bytes further up"""
    new = z3.simplify(sp + GROW)

    def fnw(rd, par, a, size):
        w = rd.win(a)
        if w is not None and w != W_STK:
            return rd._read(par, a, size)
        iv = interval(z3.simplify(a - new)) if w == W_STK else None
        if (iv is not None and iv[0] >= 0) or rd.ask(z3.And(z3.UGE(a, new), z3.ULT(a, STK_HI))):
            return rd._read(par, z3.simplify(a - GROW), size)
        if rd.ask(z3.Or(z3.ULE(a, bv(STK[0] - size)), z3.UGE(a, STK_HI))):
            return rd._read(par, a, size)
        return None

    def fn(rd, par, a):
        ins = z3.And(z3.UGE(a, new), z3.ULT(a, STK_HI))
        if rd.ask(ins):
            return rd._read(par, z3.simplify(a - GROW), 1)
        return z3.If(ins, rd._read(par, z3.simplify(a - GROW), 1), rd._read(par, a, 1))
    return mem.lam(fn, fnw), new


# ---------------------------------------------------------------- contracts of the callees
def c_longjmp(ex, st, args):
    return [("exit", st, ("longjmp",))]


def machine_contracts(mach):
    g = mach.g

    def minor(ex, st, args):
        sp = ex.read(st, g("extern_sp"), 8)
        ex.prove(st, z3.And(aligned(sp), z3.UGE(sp, bv(STK[0])), z3.ULT(sp, STK_HI)), "minor_collection: stack pointer published")
        st.mem = gc_mem(ex, st.mem, sp, STK_HI, "heap_after_gc", mach)
        st.mem = st.mem.write(g("young_ptr"), 8, z3.BitVec("young_ptr_after", 64))
        st.ghost["gcs"] = st.ghost.get("gcs", 0) + 1
        return [("ret", st, None)]

    def realloc_stack(ex, st, args):
        sp = ex.read(st, g("extern_sp"), 8)
        st.mem, new = grown(ex, st.mem, sp)
        st.mem = st.mem.write(g("extern_sp"), 8, new)
        return [("ret", st, None)]

    def ccall(ex, st, args):
        st.ghost["call"] = (args[0], list(args[1:]))
        st.ghost["callmem"] = st.mem
        sp = ex.read(st, g("extern_sp"), 8)
        st.mem = gc_mem(ex, st.mem, sp, STK_HI, "heap_after_c_call", mach)
        st.mem = st.mem.write(g("young_ptr"), 8, z3.BitVec("young_ptr_after", 64))
        return [("ret", st, z3.BitVec("c_result", 64))]

    def modify(ex, st, args):
        fp, v = args
        st.ghost["modify"] = (fp, ex.read(st, fp, 8), v)
        st.mem = st.mem.write(z3.simplify(fp), 8, v)
        st.mem = st.mem.write(z3.simplify(fp + SHADOW), 8, v)
        return [("ret", st, None)]

    def initialize(ex, st, args):
        fp, v = args
        st.mem = st.mem.write(z3.simplify(fp), 8, v)
        st.mem = st.mem.write(z3.simplify(fp + SHADOW), 8, v)
        return [("ret", st, None)]

    def alloc_shr(ex, st, args):
        n, tag = args
        t = z3.ZeroExt(64 - tag.size(), tag) if tag.size() < 64 else tag
        st.mem = st.mem.write(z3.simplify(SHR - 8), 8, z3.simplify(shr_header(n, t & 255)))
        st.ghost["alloc_shr"] = st.ghost.get("alloc_shr", 0) + 1
        return [("ret", st, SHR)]

    def malloc(ex, st, args):
        st.ghost["malloc"] = st.ghost.get("malloc", ()) + (args[0],)
        return [("ret", st, C_BUF)]

    def free(ex, st, args):
        st.ghost["freed"] = st.ghost.get("freed", ()) + (args[0],)
        return [("ret", st, None)]

    def in_heap(ex, st, args):
        return [("ret", st, INHEAP(args[0]))]

    def darken(ex, st, args):
        st.ghost["darken"] = st.ghost.get("darken", ()) + (args[0],)
        return [("ret", st, None)]

    def realloc_ref(ex, st, args):
        st.ghost["realloc_ref"] = st.ghost.get("realloc_ref", 0) + 1
        return [("ret", st, None)]

    def cmpstr(ex, st, args):
        r = LEXCMP(args[0], args[1])
        # Val_long of -1, 0 or 1 ... only the sign matters
        return [("ret", st, z3.If(r < 0, bv(-1), z3.If(r > 0, bv(3), bv(1))))]
    return {"longjmp": c_longjmp, "_longjmp": c_longjmp, "siglongjmp": c_longjmp,
            "fatal_error": lambda ex, st, a: [("exit", st, ("fatal",))],
            "minor_collection": minor, "realloc_stack": realloc_stack, "*indirect": ccall,
            "initialize": initialize, "alloc_shr": alloc_shr, "malloc": malloc, "free": free,
            "p_table_in_heap": in_heap, "darken": darken, "realloc_ref_table": realloc_ref, "compare_strings": cmpstr, "modify": modify}


INHEAP = z3.Function("in_major_heap", z3.BitVecSort(64), z3.BitVecSort(8))


class Post:
    """machine state at the next dispatch"""

    def __init__(self, m, eng, o):
        self.m, self.eng, self.o, self.st = m, eng, o, o.st
        tgt, vals = o.val
        for r in ("accu", "sp", "pc", "env", "extra", "target"):
            if r in m.roles:
                setattr(self, r, z3.simplify(vals[m.roles[r]]))
        self.mem = o.st.mem


def post_goal(S, o, cases=None):
    """the contract of S.op as a formula about outcome o: [(part name, formula)]"""
    mach, eng = S.m_, S.eng
    S.ctx = o.st
    rd = eng.reader(o.st)
    parts = {}

    def add(name, c, f):
        parts.setdefault(name, []).append(z3.Implies(c, f))
    a = z3.BitVec("any_address", 64)
    P = Post(mach, eng, o) if o.kind == "stop" else None
    for c, k, m in (cases or S.cases()):
        c = z3.simplify(c)
        if z3.is_false(c) or not eng.sat(o.st.pc, c):
            continue
        if P is None:
            if k == "longjmp" and o.kind == "exit" and o.val == ("longjmp",):
                add("uncaught exception packet", c, rd.read(o.st.mem, mach.g("exn_bucket"), 8) == m.accu)
            elif k == "halt" and o.kind == "ret":
                add("result", c, o.val == m.accu)
                add("stack pointer", c, rd.read(o.st.mem, mach.g("extern_sp"), 8) == m.sp)
            else:
                add("continues where it should", c, z3.BoolVal(False))
            continue
        if k != "next":
            add("continues where it should", c, z3.BoolVal(False))
            continue
        if m.accu is not None:
            add("accumulator", c, P.accu == m.accu)
        add("stack pointer", c, P.sp == m.sp)
        add("environment", c, P.env == m.env)
        add("argument count", c, P.extra == m.extra)
        add("program counter", c, P.pc == m.pc + 8)
        emem = m.mem
        st2 = o.st.copy()
        eng.assume(st2, c)
        if hasattr(P, "target"):
            st3 = st2.copy()
            k = S.codeptr(m.pc)
            eng.assume(st3, k)
            add("dispatch target", z3.And(c, k), P.target == eng.reader(st3).read(S.mem, m.pc, 8))
        rd2 = eng.reader(st2)
        for ad, fp in m.dbls:
            w = rd2.read(P.mem, ad, 8)
            add("real result", c, z3.fpBVToFP(w, z3.Float64()) == fp)
            emem = emem.write(ad, 8, w)
        if m.call is not None:
            call = o.st.ghost.get("call")
            if call is None or len(call[1]) != len(m.call[1]):
                add("C call", c, z3.BoolVal(False))
            else:
                add("C primitive called", c, call[0] == m.call[0])
                for i, (x, y) in enumerate(zip(call[1], m.call[1])):
                    add("C argument %d" % (i + 1), c, x == y)
        if m.calln is not None:
            p, n, val = m.calln
            call, cm = o.st.ghost.get("call"), o.st.ghost.get("callmem")
            if call is None or len(call[1]) != 2:
                add("C call", c, z3.BoolVal(False))
            else:
                add("C primitive called", c, call[0] == p)
                add("number of C arguments", c, opspec.low32(call[1][1]) == opspec.low32(n) if call[1][1].size() > 32 else call[1][1] == opspec.low32(n))
                add("room for the C arguments", c, z3.And(*[z3.UGE(x, n * 8) for x in o.st.ghost.get("malloc", ())] or [z3.BoolVal(False)]))
                i = z3.simplify(z3.Concat(z3.BitVec("any_argument", 61), bv(0, 3)))
                st4 = st2.copy()
                eng.assume(st4, z3.ULT(i, n * 8))
                eng.assume(st4, z3.ULE(i, bv(4096)))
                rd4 = eng.reader(st4)
                add("C arguments", z3.And(c, z3.ULT(i, n * 8), z3.ULE(i, bv(4096))),
                    rd4.read(cm, z3.simplify(call[1][0] + i), 8) == val(lambda a: rd4.read(S.mem, a, 8), i))
                fr = o.st.ghost.get("freed", ())
                add("argument vector released once", c, z3.BoolVal(len(fr) == 1) if len(fr) != 1 else fr[0] == call[1][0])
        free = []
        gl = mach.g
        ranges = [(gl("extern_sp"), 8)]
        if m.barrier is not None:
            ad, old, v = m.barrier
        if m.barrier is not None and "modify" in o.st.ghost:
            x = o.st.ghost["modify"]
            add("assigned through modify", c, z3.And(x[0] == ad, x[1] == old, x[2] == v))
        elif m.barrier is not None:
            g8 = lambda n, sz=8: S.rdm(S.mem, gl(n), sz)
            inh = z3.And(z3.UGE(ad, g8("heap_start")), z3.ULT(ad, g8("heap_end")), INHEAP(ad) == 1)
            ph = S.glob(S.m(), "gc_phase")
            young = lambda x: z3.And(opspec.isblk(x), z3.UGT(x, g8("young_start")), z3.ULT(x, g8("young_end")))
            dk = o.st.ghost.get("darken", ())
            mark = z3.And(inh, ph == 0)
            add("deletion barrier", c, z3.Implies(mark, z3.Or(*[x == old for x in dk]) if dk else z3.BoolVal(False)))
            need = z3.And(inh, young(v), z3.Not(young(old)))
            rp0, rp1 = g8("ref_table_ptr"), rd2.read(P.mem, gl("ref_table_ptr"), 8)
            add("write barrier records the field", c, z3.Implies(need, z3.And(rp1 == rp0 + 8, rd2.read(P.mem, rp0, 8) == ad)))
            add("write barrier leaves the table alone", c, z3.Implies(z3.Not(need), z3.Or(rp1 == rp0, z3.And(
                rp1 == rp0 + 8, rd2.read(P.mem, rp0, 8) == ad))))
            add("remembered set is enlarged when full", c,
                z3.Implies(z3.And(need, z3.UGE(rp1, g8("ref_table_limit"))), z3.BoolVal(o.st.ghost.get("realloc_ref", 0) > 0)))
            ranges.append((gl("ref_table_ptr"), 8))
            free.append(lambda a: z3.And(z3.UGE(a, rp0), z3.ULT(a, rp0 + 8)))
        if P.mem is not emem:
            mem_goals(S, o, c, m, P.mem, emem, ranges, free, add)
    return [(n, z3.And(*fs)) for n, fs in parts.items()]


def tower(m):
    while m is not None:
        yield m
        m = m.parent


def mem_goals(S, o, c, m, pmem, emem, ranges, free, add):
    """the memories pmem (code) and emem (contract) agree on everything that is live"""
    eng = S.eng
    base = o.st.copy()
    eng.assume(base, c)
    # 1. C globals: written at constant addresses only (lambda nodes leave them alone)
    cells = set()
    for mm in (pmem, emem):
        for nd in tower(mm):
            if nd.kind == "write":
                ca = const_of(nd.addr)
                if ca is not None:
                    cells.add((ca, nd.size))
    rd = eng.reader(base)
    for ca, n in sorted(cells):
        if any(lo <= ca and ca + n <= lo + k for lo, k in ((const_of(r), k) for r, k in ranges)) or ca >= sem.STACK_BASE:
            continue
        add("memory: globals", c, rd.read(pmem, bv(ca), n) == rd.read(emem, bv(ca), n))
    # 2. the stack, slot by slot from the new stack pointer
    R = 0
    for mm in (pmem, emem):
        for nd in tower(mm):
            if nd.kind == "write" and const_of(nd.addr) is None:
                d = z3.simplify(nd.addr - m.sp)
                dc = const_of(d)
                if dc is not None and 0 <= dc < 1 << 12:
                    R = max(R, dc // 8 + 1)
    for i in range(R):
        ad = z3.simplify(m.sp + 8 * i)
        add("memory: stack slots", c, rd.read(pmem, ad, 8) == rd.read(emem, ad, 8))

    regions = []
    for mm in (emem,):
        for nd in tower(mm):
            if nd.kind == "lam" and nd.region is not None:
                regions.append(nd.region)

    def generic(name, conds, ad, n):
        """for every address of a class; the words of the mapped regions separately"""
        outside = []
        for i, (d, k) in enumerate(regions):
            if n != 8:
                break
            bound_atoms(eng, base, k)
            bound_atoms(eng, base, d)
            j = z3.BitVec("any_index%d" % i, 64)
            iv = interval(z3.simplify(k))
            if iv is not None:
                declare_interval(j, 0, max(iv[1], 0))
            x = z3.simplify(d + 8 * j)
            inn = z3.ULT(ad - d, 8 * k)
            wd = rd.win(d)
            if wd is not None and wd != {"memory: rest of the stack": W_STK, "memory: heap": W_HEAP}.get(name, 6):
                continue
            generic1(name, [z3.ULT(j, k)] + ([z3.Not(f(x)) for f in free] if name != "memory: rest of the stack" else []), x, n)
            outside.append(z3.Not(inn))
        generic1(name, conds + outside, ad, n)

    def generic1(name, conds, ad, n):
        st3 = base.copy()
        for f in conds:
            eng.assume(st3, f)
        rd3 = eng.reader(st3)
        add(name, z3.And(c, *conds), rd3.read(pmem, ad, n) == rd3.read(emem, ad, n))
    K = z3.simplify(z3.Concat(bv(0, 20), z3.BitVec("any_slot", 41), bv(0, 3)))
    declare_interval(K, 0, STKSZ)
    ad = z3.simplify(m.sp + 8 * R + K)
    generic("memory: rest of the stack", [z3.ULE(K, bv(STKSZ))], ad, 8)
    # 3. heap words, 4. everything else
    a = z3.BitVec("any_word", 64)
    declare_aligned(a)
    bytewise = any(nd.kind == "write" and nd.size != 8 and const_of(nd.addr) is None for nd in tower(pmem))
    hp = [z3.UGE(a, bv(HEAP[0] + 4096)), z3.ULE(a, bv(HEAP[1] - 8192))]
    if bytewise:
        a = z3.BitVec("any_address", 64)
        hp = [z3.UGE(a, bv(HEAP[0] + 4096)), z3.ULE(a, bv(HEAP[1] - 8192))]
    else:
        hp.append(aligned(a))
    generic("memory: heap", hp + [z3.Not(f(a)) for f in free], a, 1 if bytewise else 8)
    if m.shadow:
        a = z3.simplify(z3.Concat(z3.BitVec("any_shadow", 61), bv(0, 3)))
        generic("fields stored through initialize/modify", [z3.UGE(a, bv(HEAP[0] + SHADOW + 4096)), z3.ULE(a, bv(HEAP[1] + SHADOW - 8192))], a, 8)
    a = z3.BitVec("any_address", 64)
    if m.calln is not None:      # the argument vector is no longer live
        free = free + [lambda a: z3.And(z3.UGE(a, C_BUF), z3.ULT(a, C_BUF + 8 * m.calln[1]))]
    for nm, w in (("code", CODE), ("C heap", CHEAP)):
        generic("memory: " + nm, [z3.UGE(a, bv(w[0] + 4096)), z3.ULE(a, bv(w[1] - 8192))] + [z3.Not(f(a)) for f in free], a, 1)


def linear_atoms(t):
    if z3.is_app_of(t, z3.Z3_OP_BADD):
        return [y for i in range(t.num_args()) for y in linear_atoms(t.arg(i))]
    if z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
        return linear_atoms(t.arg(1))
    return [] if z3.is_bv_value(t) else [t]


def bound_atoms(eng, st, t):
    """records bounds of the terms that t is a sum of, as far as they follow from the path condition"""
    for x in linear_atoms(z3.simplify(t)):
        if interval(x) is None:
            for b in (1 << 12, 1 << 31):
                if eng.implied(st.pc, z3.ULE(x, bv(b))):
                    declare_interval(x, 0, b)
                    break


def loop_alts(S, op, ctx):
    """invariants of a loop that fills `count` words from address d on, upwards or downwards: after n rounds n of them are set"""
    S.ctx = ctx.entry
    m = S.m()
    m.mem = ctx.entry.mem
    m.gced = ctx.entry.ghost.get("gcs", 0) > 0
    m.major = ctx.entry.ghost.get("alloc_shr", 0) > 0
    base = ctx.entry.mem
    alts = []

    def make(d, count, val, traced):
        f0 = lambda rd, par, off: val(lambda a: rd._read(base, z3.simplify(a), 8), off)

        def mem(lo, k, s):
            f = lambda rd, par, off: f0(rd, par, z3.simplify(off + s))
            mm = map_words(base, z3.simplify(lo), k, f)
            return map_words(mm, z3.simplify(lo + SHADOW), k, f) if traced else mm
        sh = (0, SHADOW) if traced else (0,)
        iv = interval(count)
        com = {"cands": lambda lc: [("rounds<=count", z3.ULE(lc.n, count)), ("rounds<count", z3.ULT(lc.n, count))], "words": True,
               "must": ("rounds<=count",), "nmax": iv[1] if iv else None}
        up = dict(com, mem=lambda lc, k: mem(d, k, bv(0)),
                  split=lambda lc, k: [p for x in sh for p in ((d + x, k), (d + 8 * k + x, None))])
        down = dict(com, mem=lambda lc, k: mem(d + 8 * (count - k), k, z3.simplify(8 * (count - k))),
                    split=lambda lc, k: [p for x in sh for p in ((d + 8 * (count - k) + x, k), (d + 8 * (count - k) - 8 + x, None))])
        return [up, down]
    for d, count, val, traced in opspec.LOOP[op](S, m):
        d, count = z3.simplify(d), z3.simplify(count)
        bound_atoms(S.eng, ctx.entry, count)
        bound_atoms(S.eng, ctx.entry, d)
        alts += make(d, count, val, traced)
    return alts


def verify_op(mach, op, contracts=None, timeout=None):
    """all paths of one instruction against its contract -> Engine with obligations"""
    eng = mach.engine(contracts)
    if timeout:
        eng.timeout = timeout
    S, st = mach.start(eng, op)
    S.assume_pre(st)
    eng.witness = [("accu", S.accu), ("sp", S.sp), ("pc", S.pc), ("env", S.env), ("extra", S.extra)] + \
        [("stack%d" % i, S.stk(i)) for i in range(6)] + [("operand%d" % i, S.opnd(i)) for i in range(3)] + \
        [("[accu]", S.rdm(S.mem, S.accu, 8)), ("[stack0]", S.rdm(S.mem, S.stk(0), 8))]
    if op in opspec.LOOP:
        eng.loopspecs = {"interprete": lambda ctx: loop_alts(S, op, ctx)}
    eng.reachable(st, op)
    outs = mach.run(eng, S, st, op)
    for i, o in enumerate(outs):
        for name, f in post_goal(S, o):
            eng.prove(o.st, f, "%s, path %d: %s" % (op, i + 1, name))
    if not outs:
        raise AttachError("no path")
    return eng
