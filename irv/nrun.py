"""Runs single bytecode instructions on the real interprete() (native build of the working tree) from a chosen machine
state and compares the state after it with the contract of irv/opspec.py, evaluated on concrete values."""
import ctypes as C
import random
import struct

import z3

from . import build, interp, native, opspec
from .interp import BaseS
from .mem import bv

U = (1 << 64) - 1


def val(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e.as_long()


val_ = val
FAKE = 1 << 52


class CMem:
    def __init__(self, rt, over=None):
        self.rt, self.over = rt, over or {}

    def write(self, a, n, v):
        o = dict(self.over)
        a, v = val(a), val(v)
        for i in range(n):
            o[a + i] = (v >> (8 * i)) & 255
        return CMem(self.rt, o)

    def read(self, a, n):
        r = 0
        for i in range(n):
            b = self.over.get(a + i)
            if b is None:
                b = self.rt.peek(a + i, 1)
            r |= b << (8 * i)
        return r


class CMach:
    """the concrete machine: the loaded library"""

    def __init__(self, rt):
        self.rt = rt
        d = build.src_copy() + "/runtime/"
        self.gl = interp.defines(open(d + "globals.h").read())
        self.ops = interp.enum_values(open(d + "instruct.h").read(), "instructions")
        self.tags = build.constants()
        self.syms = native.local_symbols()
        base = rt.symaddr("interprete") - self.syms["interprete"][0]
        jt = [k for k in self.syms if k.split(".")[0] == "jumptable"]
        if len(jt) != 1:
            raise build.BuildError("jump table symbol")
        ja = base + self.syms[jt[0]][0]
        self.label = {n: rt.peek(ja + 8 * v) for n, v in self.ops.items()}
        self.cprim_ptr = False

    def g(self, name):
        return bv(self.rt.symaddr(name))

    def gsize(self, name):
        return self.syms[name][1]


class ConcS(BaseS):
    def __init__(self, mach, op, accu, sp, pc, env, extra, isobj):
        self.m_, self.op = mach, op
        self.accu, self.sp, self.pc, self.env = bv(accu), bv(sp), bv(pc), bv(env)
        self.extra = bv(extra, 32)
        self.mem = CMem(mach.rt)
        self.isobj = isobj
        self.unknown = False

    def rdm(self, mem, a, size):
        return bv(mem.read(val(a), size), 8 * size)

    def feasible(self, c):
        return bool(val(c))

    def fpop(self, name, x, y):
        f = {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "div": z3.fpDiv}[name]
        return z3.simplify(f(z3.RNE(), x, y))

    def sp_offset(self):
        hi = self.m_.rt.sym("stack_high")
        return bv((hi - self.entry_sp) >> 3, 32)

    def rho(self, w):
        return w

    def cres(self):
        return bv(self.m_.rt.sym("vf_res"))

    def gc(self, m, heap=None, grow=False):
        if not grow:
            m.setglob("young_ptr", bv(self.m_.rt.sym("young_start")))
        m.gced = True

    def grow(self, m):
        self.unknown = True

    def mapw(self, mem, d, k, val):
        new = mem
        for i in range(val_(k)):
            new = new.write(bv(val_(d) + 8 * i), 8, val(lambda a: bv(mem.read(val_(a), 8)), bv(8 * i)))
        return new

    def trace(self, m, b, k, val, last, before):
        pass

    def update_fields(self, m, dst, src, n):
        m.mem = self.mapw(m.mem, dst, n, lambda rd, off: rd(z3.simplify(src + off)))
        m.tracked = [val_(dst) + 8 * i for i in range(val_(n))]

    def alloc_shr(self, m, n, tag):
        """the block is found through the accumulator afterwards; its contents are checked at a stand-in address"""
        m.major = (val_(n), val_(tag))
        return bv(FAKE)

    def heapobj(self, v):
        return z3.BoolVal(self.isobj(val(v)))

    anyobj = atomval = lambda self, v: z3.BoolVal(val(v) & 7 == 0 and val(v) != 0)

    def codeptr(self, v):
        return z3.BoolVal(val(v) & 7 == 0 and val(v) != 0)

    def lexcmp(self, a, b):
        x, y = self.m_.rt.strval(val(a)), self.m_.rt.strval(val(b))
        return bv((x > y) - (x < y))


# ---------------------------------------------------------------- building values
EDGE = [0, 1, -1, 2, -2, 3, -3, 7, -7, 10, -10, 255, 256, 65535, 1 << 30, (1 << 30) - 1, -(1 << 30), (1 << 31) - 1, 1 << 31, (1 << 31) + 1,
        -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, 3037000499, 3037000500, -3037000500, (1 << 53) + 1, (1 << 61) - 1, 1 << 61,
        -(1 << 61), (1 << 62) - 1, (1 << 62) - 2, -(1 << 62), -(1 << 62) + 1, -(1 << 61) - 1, 1000003, 1234567890123, -987654321098]
DEDGE = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 1e300, -1e300, 1e308, -1e308, 8.98846567431158e307, -8.98846567431158e307,
         8.988465674311579e307, 4.4942328371557893e307, 5e-324, -5e-324, 2.2250738585072014e-308, 4611686018427387904.0, -4611686018427387904.0,
         4611686018427387391.0, 9007199254740993.0, 1e-300, 3.141592653589793, -1e16, 1e154, 1.3407807929942596e154]


class Builder:
    def __init__(self, rt, mach):
        self.rt, self.m, self.objs = rt, mach, {}
        self.obs = []

    def obj(self, v):
        n = (self.rt.peek(v - 8) >> 10) * 8
        self.objs[v] = n
        return v

    def observer(self):
        """code that makes the machine registers visible: pushes extra_args, env and its own identity, then stops"""
        n = len(self.obs)
        a = self.alloc_code([self.m.label["PUSH_RETADDR"], 0x1000 + 16 * n, self.m.label["STOP"]])
        self.obs.append(a)
        return a

    def alloc_code(self, words):
        p = self.code
        for w in words:
            self.rt.poke(self.code, w)
            self.code += 8
        return p

    def make(self, d):
        """descriptor -> value"""
        k = d[0]
        rt = self.rt
        if k == "int":
            return (2 * d[1] + 1) & U
        if k == "raw":
            return d[1] & U
        if k == "dbl":
            return self.obj(rt.double(float.fromhex(d[1]) if isinstance(d[1], str) else d[1]))
        if k == "dblbits":
            return self.obj(rt.double_bits(d[1]))
        if k == "str":
            return self.obj(rt.string(bytes(d[1])))
        if k == "blk":
            return self.obj(rt.block(d[1], [self.make(x) for x in d[2]]))
        if k == "young":
            v = rt.c("alloc", len(d[2]), d[1])
            for i, x in enumerate(d[2]):
                rt.poke(v + 8 * i, self.make(x))
            return self.obj(v)
        if k == "clos":
            return self.obj(rt.block(self.m.tags["Closure_tag"], [self.observer()] + [self.make(x) for x in d[1]]))
        if k == "atom":
            return rt.symaddr("first_atoms") + 8 * (d[1] + 1)
        if k == "youngint":      # an integer whose bit pattern looks like a pointer into the minor heap
            return (self.rt.sym("young_start") + 8 * d[1]) | 1
        if k == "traplink":
            return 1
        if k == "obs":
            return self.observer()
        raise ValueError(d)


EXN_SLOT = {}


def make_runner(own=False):
    rt = native.RT(minor=1 << 16, own=own)
    mach = CMach(rt)
    libc = C.CDLL(None)
    libc.malloc.restype = C.c_long
    cbuf = libc.malloc(C.c_long(1 << 16))
    # exception packets used by the interpreter itself
    gd = rt.sym("global_data")
    unit = rt.symaddr("first_atoms") + 8
    # primitives 0..6 are recorders
    cp = rt.symaddr("cprim")
    state = {"n": 0}
    prims = [rt.symaddr("vf_p0"), rt.symaddr("vf_p1")]
    hi0 = rt.sym("stack_high")

    def run(case):
        state["n"] += 1
        if state["n"] % 50 == 0:
            rt.c("minor_collection")
        b = Builder(rt, mach)
        b.code = cbuf
        op = case["op"]
        stack = [b.make(x) for x in case["stack"]]
        accu, env = b.make(case["accu"]), b.make(case["env"])
        extra = case.get("extra", 0)
        for i, x in case.get("globals", []):
            rt.call("modify", gd + 8 * i, b.make(x))
        rt.setsym("vf_res", (2 * 424242 + 1))
        for i in range(8):
            rt.poke(cp + 8 * i, prims[i & 1] if op != "C_CALLN" else rt.symaddr("vf_pn"))
        opnds, labels = [], {}
        for k, x in case.get("operands", []):
            if k == "label":
                opnds.append(b.observer())
            else:
                opnds.append(x & U)
        # code: prefix that loads the registers, the instruction, its operands, then an observer
        pc_op = b.alloc_code([mach.label[op]] + opnds + [mach.label["PUSH_RETADDR"], 0x1000 + 16 * len(b.obs), mach.label["STOP"]])
        after = pc_op + 8 + 8 * len(opnds)
        b.obs.append(after)
        hi = rt.sym("stack_high")
        size = case.get("depth", 64)
        sp = hi - 8 * (len(stack) + size)
        for i in range(size):
            rt.poke(hi - 8 * (i + 1), 2 * (7000 + i) + 1)
        for i, v in enumerate(stack):
            rt.poke(sp + 8 * i, v)
        trap_at = case.get("trap")
        if trap_at is not None:      # a handler frame in the caller part of the stack
            t = hi - 8 * (size - trap_at)
            frame = [b.observer(), rt.sym("stack_high"), b.make(("blk", 0, [("int", 5)])), (2 * case.get("trap_extra", 3) + 1)]
            for i, v in enumerate(frame):
                rt.poke(t + 8 * i, v)
            rt.setsym("trapsp", t)
        else:
            rt.setsym("trapsp", hi)
        for i, x in enumerate(case["stack"]):
            if x[0] == "traplink":
                rt.poke(sp + 8 * i, hi)
        esp = sp - 32
        for i, v in enumerate([accu, pc_op, env, (2 * extra + 1) & U]):
            rt.poke(esp + 8 * i, v)
        # the code is entered above the prepared part of the stack unless the handlers shall belong to an outer execution
        entry = esp if case.get("outer") else hi - 8
        start = b.alloc_code([mach.label["POP"], (-((entry - esp) // 8)) & U, mach.label["ACC0"], mach.label["RETURN"], 1])
        rt.setsym("extern_sp", entry)
        if case.get("full"):         # no room in the minor heap: the allocation must collect first
            rt.setsym("young_ptr", rt.sym("young_end") - 8 * (case["full"] - 1))
        if case.get("major"):
            rt.setsym("gc_phase", case["major"] - 1, 4)
        S = ConcS(mach, op, accu, sp, pc_op + 8, env, extra, lambda v: v in b.objs)
        S.entry_sp = entry
        pre = opspec.PRE.get(op)
        if pre and not all(val(f) for f in pre(S)):
            raise ValueError("case outside the precondition: %s" % (case,))
        exp = [(k, m) for c, k, m in S.cases() if val(c)]
        if len(exp) != 1 or S.unknown:
            raise ValueError("%d expected outcomes: %s" % (len(exp), case))
        kind, m = exp[0]
        ref0 = rt.sym("ref_table_ptr")
        yold = rt.sym("young_end"), rt.sym("young_start")
        # the memory that must not change elsewhere
        zones = [(min(val(m.sp), sp) if kind == "next" else sp, hi)] + [(o - 8, o + n) for o, n in b.objs.items()] + [(gd, gd + 8 * 256)]
        snap = {z: rt.bytes(z[0], z[1] - z[0]) for z in zones}
        rt.setsym("vf_nargs", 99)
        mem0 = CMem(rt, {})
        if m.calln is not None:
            words = {}
            for i in range(260):
                for j in range(8):
                    words[sp + 8 * i + j] = rt.peek(sp + 8 * i + j, 1)
            mem0 = CMem(rt, words)
        oldf = {ad: rt.peek(ad) for ad in (getattr(m, "tracked", None) or ())}
        fwd = {}
        if case.get("full") or case.get("move"):      # young objects are moved: their new addresses are found through roots
            for o in b.objs:
                if yold[1] < o < yold[0]:
                    fwd[o] = rt.keep(o)
        exited, res = rt.exec(start)
        bad = []
        fwd = {o: rt.root(i) for o, i in fwd.items()}
        rt.used_roots = 0
        same = lambda x, e: x == fwd.get(e, e)
        if kind == "longjmp":
            if not exited:
                return "%s: no exception leaves the code" % op
            if not same(res, val(m.accu)):
                return "%s: exception packet %#x instead of %#x" % (op, res, val(m.accu))
            return None
        if exited:
            return "%s: unexpected exception %s" % (op, rt.decode_exn(res))
        spx = rt.sym("extern_sp")
        if kind == "halt":
            if res != val(m.accu) or spx != val(m.sp):
                return "%s: halts with %#x, sp %#x instead of %#x, %#x" % (op, res, spx, val(m.accu), val(m.sp))
            return None
        marker, envx, exx = rt.peek(spx), rt.peek(spx + 8), rt.peek(spx + 16)
        spx += 24
        got = b.obs[(marker - 0x1000) // 16] if 0 <= marker - 0x1000 < 16 * len(b.obs) else marker
        if m.major:
            n, t = m.major
            h = rt.peek(res - 8)
            if res & 7 or (h >> 10, h & 255) != (n, t):
                bad.append("a block of %d words with tag %d instead of %d, %d" % (h >> 10, h & 255, n, t))
            else:
                want = [m.mem.read(FAKE + 8 * i, 8) for i in range(n)]
                got_ = [rt.peek(res + 8 * i) for i in range(n)]
                for i in range(n):
                    if not same(got_[i], want[i]):
                        bad.append("field %d is %#x instead of %#x" % (i, got_[i], want[i]))
                        break
                tab = set(rt.peek(x) for x in range(rt.sym("ref_table_ptr") - 8 * 4096, rt.sym("ref_table_ptr"), 8))
                for i in range(n):
                    if got_[i] & 1 == 0 and rt.sym("young_start") < got_[i] < rt.sym("young_ptr") and res + 8 * i not in tab:
                        bad.append("field %d of a major block is young but not in the remembered set" % i)
                        break
        elif m.accu is not None and res != val(m.accu) and not same(res, val(m.accu)):
            bad.append("accumulator %#x instead of %#x (%s)" % (res, val(m.accu), show(rt, res, val(m.accu))))
        if spx != val(m.sp):
            bad.append("stack depth differs by %d words" % ((native.s64(val(m.sp) - spx)) // 8))
        if got != val(m.pc):
            bad.append("continues at target %s instead of %s" % (where(b, got, after), where(b, val(m.pc), after)))
        if not same(envx, val(m.env)):
            bad.append("environment %#x instead of %#x" % (envx, val(m.env)))
        if exx != (2 * native.s64(val(z3.SignExt(32, m.extra))) + 1) & U:
            bad.append("argument count %d instead of %d" % (native.s64(exx) >> 1, val(m.extra)))
        over = dict(m.mem.over)
        for ad, fp in m.dbls:
            w = val(z3.fpToIEEEBV(z3.simplify(fp))) if not z3.is_true(z3.simplify(z3.fpIsNaN(fp))) else None
            x = rt.peek(val(ad))
            if w is None:
                if (x >> 52) & 2047 != 2047 or x & ((1 << 52) - 1) == 0:
                    bad.append("real result is not NaN")
            elif w != x:
                bad.append("real result %r instead of %r" % (unp(x), unp(w)))
        mine = set(a - (a % 8) for a in over)
        skip = (rt.symaddr("extern_sp"), rt.symaddr("ref_table_ptr"))
        for a, v in over.items():
            if any(s <= a < s + 8 for s in skip) or a >= FAKE - 8:
                continue
            if val(m.sp) - 4096 < a < val(m.sp):
                continue     # dead stack
            if op == "CLOSREC" and m.mem.read(a & ~7, 8) == rt.peek(a & ~7) == res:
                continue     # the block's pointer to itself; its address may have been that of a moved object
            if (rt.peek(a, 1) != v or (m.mem.read(a & ~7, 8) in fwd and yold[1] <= a < yold[0])) and not same(rt.peek(a & ~7), m.mem.read(a & ~7, 8)):
                bad.append("memory at %s" % (place(a, hi, sp, b)))
                break
        for z, old in snap.items():
            new = rt.bytes(z[0], z[1] - z[0])
            if new == old:
                continue
            for i in range(len(old)):
                a = z[0] + i
                if new[i] != old[i] and over.get(a) != new[i] and not (z[1] == hi and a < val(m.sp)):
                    if (m.gced or case.get("major")) and any(a - 7 <= o - 8 <= a for o in b.objs):
                        continue     # colours may change
                    if fwd and (any(o - 8 <= z[0] < o + 8 for o in fwd) or
                                same(int.from_bytes(new[i & ~7:(i & ~7) + 8], "little"), int.from_bytes(old[i & ~7:(i & ~7) + 8], "little"))):
                        continue
                    bad.append("memory at %s changed" % place(a, hi, sp, b))
                    break
        if m.calln is not None:
            p, n, v = m.calln
            n = val(n)
            if rt.sym("vf_nargs") != n:
                bad.append("%d C arguments instead of %d" % (rt.sym("vf_nargs"), n))
            for i in range(min(n, 256)):
                x = val(v(lambda a: bv(mem0.read(val(a), 8)), bv(8 * i)))
                if rt.peek(rt.symaddr("vf_args") + 8 * i) != x:
                    bad.append("C argument %d" % (i + 1))
        for ad in getattr(m, "tracked", None) or ():
            v = rt.peek(ad)
            young = lambda x: x & 1 == 0 and yold[1] < x < yold[0]
            if not young(ad) and young(v) and not young(oldf[ad]):
                r1 = rt.sym("ref_table_ptr")
                if ad not in [rt.peek(x) for x in range(ref0, r1, 8)]:
                    bad.append("the store of a young value into an old block is not recorded")
        if m.call is not None:
            p, args = m.call
            if rt.sym("vf_nargs") != prims.index(val(p)):
                bad.append("C primitive called: %d" % rt.sym("vf_nargs"))
            for i, x in enumerate(args):
                if rt.peek(rt.symaddr("vf_args") + 8 * i) != val(x):
                    bad.append("C argument %d" % (i + 1))
        if m.barrier is not None:
            ad, old, v = [val(x) for x in m.barrier]
            young = lambda x: x & 1 == 0 and yold[1] < x < yold[0]
            inheap = not young(ad)
            need = inheap and young(v) and not young(old)
            r1 = rt.sym("ref_table_ptr")
            if need and not (r1 == ref0 + 8 and rt.peek(ref0) == ad):
                bad.append("the store of a young value into an old block is not recorded")
            if not need and r1 != ref0 and not (r1 == ref0 + 8 and rt.peek(ref0) == ad):
                bad.append("the remembered set is disturbed")
        rt.setsym("extern_sp", hi)
        rt.setsym("trapsp", hi)
        return "%s: %s" % (op, "; ".join(bad)) if bad else None

    def unp(x):
        return struct.unpack("<d", struct.pack("<Q", x))[0]

    def where(b, a, after):
        return "next instruction" if a == after else ("target %d" % b.obs.index(a) if a in b.obs else hex(a))

    def place(a, hi, sp, b):
        if sp - 4096 <= a < hi:
            return "stack word %d" % ((a - sp) // 8)
        for o, n in b.objs.items():
            if o - 8 <= a < o + n:
                return "object word %d" % ((a - o) // 8)
        return hex(a)

    def show(rt, x, y):
        return "%d / %d" % (native.s64(x) >> 1, native.s64(y) >> 1) if x & 1 and y & 1 else "pointer"
    return run


# ---------------------------------------------------------------- case generation
def gen_value(kind, rnd, i=0):
    if kind == "int":
        c = rnd.random()
        if c < .5:
            return ("int", rnd.choice(EDGE))
        if c < .75:
            return ("int", rnd.randrange(-(1 << 62), 1 << 62) >> rnd.randrange(0, 62))
        return ("int", max(-(1 << 62), min((1 << 62) - 1, rnd.choice(EDGE) + rnd.randrange(-3, 4))))
    if kind == "double" or kind == "smalldouble":
        while True:
            c = rnd.random()
            d = rnd.choice(DEDGE) if c < .6 else (rnd.uniform(-1e6, 1e6) if c < .8 else rnd.uniform(-1, 1) * 2.0 ** rnd.randrange(-1060, 1022))
            if kind == "double" or abs(d) < 2.0 ** 62:
                return ("dbl", d.hex())
    if kind == "str":
        al = rnd.choice([b"ab", b"\x00\xff\x7f\x80a", bytes(range(256))])
        return ("str", [rnd.choice(al) for _ in range(rnd.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 23, rnd.randrange(40)]))])
    if kind == "nest":
        leaf = lambda: rnd.choice([("int", rnd.randrange(1000)), ("youngint", rnd.randrange(10, 4000)), ("young", 3, [("int", 4)]), ("youngint", rnd.randrange(10, 4000)), ("young", 3, [("int", 4)]), ("blk", rnd.randrange(0, 200), [("int", rnd.randrange(1000)) for _ in range(4)])])
        return (rnd.choice(["blk", "young"]), rnd.randrange(0, 200),
                [("blk", j, [("int", 100 + 10 * j + k) for k in range(4)]) if j < 2 else leaf() for j in range(8)])
    if kind == "papp":       # the closure of a partial application
        return ("clos", [("clos", [("int", 5)])] + [gen_value("any", rnd) for _ in range(rnd.choice([1, 2, 3, 6]))])
    if kind == "upd":
        n = 5
        return ("blk", rnd.randrange(0, 200), [gen_value("any", rnd) for _ in range(n)])
    if kind == "veclen":
        return ("int", rnd.choice([0, 1, 2, 3, 7, 100, 254, 255, 256, 257, 300, 1000]))
    if kind == "atom":
        return ("atom", rnd.randrange(0, 4))
    if kind == "smallint":
        return ("int", rnd.randrange(0, 8))
    if kind == "switchint":
        return ("int", rnd.randrange(0, 4))
    if kind == "byteint":
        return ("int", rnd.randrange(0, 256))
    if kind == "shift":
        return ("int", rnd.randrange(0, 63))
    if kind == "trap":
        return ("traplink",)
    if kind == "any":
        return rnd.choice([("int", rnd.randrange(10000)), ("blk", 3, [("int", rnd.randrange(100))]), ("atom", rnd.randrange(5)),
                           ("young", 2, [("int", 9), ("int", 8)])])
    if kind == "clos":
        return ("clos", [gen_value("any", rnd) for _ in range(9)])
    raise ValueError(kind)


def gen_operand(kind, rnd):
    if kind == "label":
        return ("label", 0)
    r = {"idx": rnd.randrange(0, 8), "small": rnd.randrange(0, 8), "glob": rnd.randrange(60, 64), "frame": rnd.randrange(4, 9),
         "n": rnd.randrange(1, 9), "byte": rnd.randrange(0, 240), "byte3": rnd.randrange(0, 4), "n4": 4,
         "s32": rnd.choice([0, 1, -1, (1 << 31) - 1, -(1 << 31), rnd.randrange(-(1 << 31), 1 << 31)]),
         "grab": rnd.randrange(1, 8), "nvars": rnd.randrange(0, 8), "slot": rnd.randrange(4, 10),
         "hdr": (rnd.choice([1, 2, 3, 5, 9, 12]) << 10) + 0x300 + rnd.randrange(0, 240), "word": 2 * rnd.randrange(0, 1 << 16) + 1, "prim": rnd.randrange(0, 6)}[kind]
    return ("n", r)


def gen_case(op, rnd):
    g = opspec.GEN.get(op, {})
    grp = opspec.GROUP[op]
    stack = [gen_value(k, rnd) for k in g.get("stack", [])]
    stack += [gen_value("any", rnd) for _ in range(12 - len(stack))]
    c = {"op": op, "stack": stack, "accu": gen_value(g.get("accu", "any"), rnd),
         "env": ("blk", 0, [gen_value("any", rnd) for _ in range(10)]),
         "extra": rnd.choice([0, 0, 1, 2, 5]), "operands": [gen_operand(k, rnd) for k in g.get("operands", [])]}
    wide = rnd.choice([0, 0, 0, 17, 33, 100, 255])
    if wide and op in ("C_CALLN", "APPTERM", "GRAB", "CLOSURE", "CLOSREC"):
        c["stack"] = [gen_value("any", rnd) for _ in range(wide + 8)]
    if op == "RESTART":
        c["env"] = gen_value("papp", rnd)
        if wide:
            c["env"][1].extend(gen_value("any", rnd) for _ in range(wide - len(c["env"][1]) + 2))
    if op == "APPTERM" and wide:
        c["operands"] = [("n", rnd.randrange(1, wide + 1)), ("n", wide + rnd.randrange(0, 5))]
    if op in ("CLOSURE", "CLOSREC", "DUMMY") and wide:
        c["operands"] = [("n", rnd.choice([wide, rnd.randrange(0, wide)]))] + c["operands"][1:]
    if op == "UPDATE" and wide:
        for d in (c["accu"], c["stack"][0]):
            d[2].extend(gen_value("any", rnd) for _ in range(wide - len(d[2])))
    if op == "C_CALLN":
        c["operands"] = [("n", rnd.choice([wide, rnd.randrange(1, 1 + wide)]) if wide else rnd.randrange(1, 9)), ("n", rnd.randrange(0, 6))]
        return c
    if op == "GRAB" and wide:
        c["extra"] = rnd.choice([wide - 1, wide, rnd.randrange(0, wide)])
        c["operands"] = [("n", min(255, max(1, c["extra"] + rnd.randrange(-1, 3))))]
        k = c["extra"] + 1
        c["stack"][k:k + 3] = [("obs",), gen_value("any", rnd), ("int", rnd.randrange(0, 6))]
        return c
    if op == "GRAB":
        k = c["extra"] + 1
        if k < 10:
            c["stack"][k] = ("obs",)
            c["stack"][k + 1] = gen_value("any", rnd)
            c["stack"][k + 2] = ("int", rnd.randrange(0, 6))
    if op in ("MAKEVECTOR", "MAKEREFVECTOR") and rnd.random() < .5:
        c["accu"] = ("young", 2, [("int", 9), ("int", 8)])
    if op == "MAKEBLOCK" and rnd.random() < .3:
        n = rnd.choice([200, 255, 256, 257, 300])
        c["operands"] = [("n", (n << 10) + 0x300 + rnd.randrange(0, 240))]
        c["stack"] = [rnd.choice([("int", i), ("int", i), ("young", 1, [("int", i)])]) for i in range(n + 3)]
    if grp == "apply":
        if "ENV1" in op:
            c["env"] = ("clos", [gen_value("clos", rnd)] + [gen_value("any", rnd) for _ in range(8)])
        if op.startswith(("APPLY", "APPTERM", "RETURN")):
            c["accu"] = gen_value("clos", rnd)
        if op.startswith("RETURN"):
            k = {"RETURN1": 1, "RETURN2": 2}.get(op)
            if k is None:
                k = c["operands"][0][1]
            c["stack"][k] = ("obs",)
            c["stack"][k + 1] = gen_value("any", rnd)
            c["stack"][k + 2] = ("int", rnd.randrange(0, 6))
    if any(k == "glob" for k in g.get("operands", [])):
        c["globals"] = [(i, gen_value("clos", rnd)) for i in range(60, 64)]
    if grp in ("update",):
        if op != "UPDATE":
            c["accu"] = rnd.choice([("young", 2, [("int", 9), ("int", 8)]), gen_value("any", rnd), ("youngint", rnd.randrange(10, 4000))])
        c["major"] = rnd.choice([0, 0, 1])
    if grp == "ccall":
        c["operands"] = [("n", rnd.randrange(0, 6))]
    if grp in ("exn", "intarith", "word", "real") and rnd.random() < .5:
        c["trap"] = rnd.randrange(0, 50)
        c["trap_extra"] = rnd.randrange(0, 6)
        c["outer"] = rnd.random() < .2
    if op in ("GRAB", "CLOSURE", "CLOSREC", "MAKEBLOCK") and len(c["stack"]) < 50 and rnd.random() < .4:
        c["full"] = rnd.randrange(1, 3)
        c["stack"] = [flat(x) for x in c["stack"]]
        c["accu"], c["env"] = flat(c["accu"]), noyoung(c["env"])
    elif op in ("MAKEVECTOR", "MAKEREFVECTOR"):
        c["move"] = True
        c["stack"] = [flat(x) for x in c["stack"]]
        c["accu"], c["env"] = flat(c["accu"]), noyoung(c["env"])
    elif op.startswith("MAKEBLOCK") and rnd.random() < .4 and len(c["stack"]) < 50:
        c["full"] = rnd.randrange(1, 3)
        c["stack"] = [flat(x) for x in c["stack"]]
        c["accu"], c["env"] = flat(c["accu"]), noyoung(c["env"])
    return c


def flat(d):
    return d if d[0] == "young" and all(x[0] == "int" for x in d[2]) else noyoung(d)


def noyoung(d):
    if d[0] in ("young", "blk"):
        return ("blk", d[1], [noyoung(x) for x in d[2]])
    if d[0] == "clos":
        return ("clos", [noyoung(x) for x in d[1]])
    return d


def gen_cases(ops, n, seed):
    out = []
    for op in ops:
        rnd = random.Random("%s/%s" % (op, seed))
        out += [gen_case(op, rnd) for _ in range(n)]
    return out


def pair_cases(ops, seed):
    """all pairs of edge values"""
    out = []
    for op in ops:
        rnd = random.Random("pairs/%s/%s" % (op, seed))
        for x in EDGE:
            for y in EDGE[:: 1]:
                c = gen_case(op, rnd)
                c["stack"] = [("int", x), ("int", 5), ("int", 6)]
                c["accu"] = ("int", y)
                out.append(c)
    return out
