"""Runtime functions below the interpreter: contracts on the C functions, and (bounded) histories of
allocation, assignment and collection replayed on the real code against a model graph."""
import random
import struct

import z3

from . import build, check, mem, native, nrun, sem
from .cfun import CMachine
from .interp import CHEAP, HEAP, aligned, inwin
from .mem import bv, fresh
U = nrun.U


# ------------------------------------------------------------------ histories on the real code
class Node:
    __slots__ = ("tag", "n", "fields", "data", "addr")

    def __init__(self, tag, n, fields=None, data=None):
        self.tag, self.n, self.fields, self.data, self.addr = tag, n, fields, data, None


def heap_history(rt, case):
    """random history; after every collection the reachable graph must be the model's"""
    rnd = random.Random(case["seed"])
    K, D = 12, 20
    hi = rt.sym("stack_high")
    sp = hi - 8 * D
    rt.setsym("extern_sp", sp)
    rt.setsym("trapsp", hi)
    first = rt.used_roots = 0
    slots = [rt.rootaddr + 8 * i for i in range(K)] + [sp + 8 * i for i in range(D)]
    for s in slots:
        rt.poke(s, 1)
    roots = [1] * len(slots)
    live = []

    def word(x):
        return x.addr if isinstance(x, Node) else x

    def walk(why):
        """compares the graph reachable from the roots with the model; refreshes the addresses"""
        seen, back = {}, {}
        todo = []

        def pair(x, w, where):
            if isinstance(x, Node):
                if id(x) in seen:
                    return None if seen[id(x)] == w else "%s: %s leads to another block than before" % (why, where)
                if w & 7 or w in back:
                    return "%s: %s is %#x, not the block it was" % (why, where, w)
                seen[id(x)], back[w] = w, x
                todo.append((x, w))
                return None
            return None if x == w else "%s: %s is %#x instead of %#x" % (why, where, w, x)
        for i, s in enumerate(slots):
            e = pair(roots[i], rt.peek(s), "root %d" % i)
            if e:
                return e
        while todo:
            x, w = todo.pop()
            h = rt.peek(w - 8)
            if (h >> 10, h & 255) != (x.n, x.tag):
                return "%s: a live block has size %d, tag %d instead of %d, %d" % (why, h >> 10, h & 255, x.n, x.tag)
            if x.data is not None:
                if rt.bytes(w, 8 * x.n) != x.data:
                    return "%s: the contents of a live string or real changed" % why
                continue
            ws = struct.unpack("<%dQ" % x.n, rt.bytes(w, 8 * x.n))
            for i, y in enumerate(x.fields):
                if ws[i] == 1 and y == 1:
                    continue
                e = pair(y, ws[i], "field %d of a live block" % i)
                if e:
                    return e
        live[:] = list(back.values())
        for x in live:
            x.addr = seen[id(x)]
        return None

    def young(a):
        return rt.sym("young_start") < a < rt.sym("young_end")

    def reach():
        """a block found from the roots, as a program would"""
        x = rnd.choice(roots)
        for _ in range(rnd.randrange(6)):
            ns = [y for y in (x.fields or ()) if isinstance(y, Node)][:8] if isinstance(x, Node) else None
            if not ns:
                break
            x = rnd.choice(ns)
        return x

    def value():
        x = reach()
        return x if isinstance(x, Node) and rnd.random() < .85 else rnd.choice([1, 2 * rnd.randrange(1 << 40) + 1, (rt.sym("young_start") + 8 * rnd.randrange(64)) | 1])

    def setroot(x):
        i = rnd.randrange(len(slots))
        roots[i] = x
        rt.poke(slots[i], word(x))

    def remembered():
        p = rt.sym("ref_table_ptr")
        return p, rt.peek(p - 8)

    for step in range(case["steps"]):
        c = rnd.random()
        why = None
        gcs = rt.sym("stat_minor_collections")
        if c < .30:            # a young block
            n = rnd.choice([1, 2, 3, 3, 5, 8, rnd.randrange(1, 60)])
            tag = rnd.choice([0, 0, 1, 7, 100, 249, 250])
            if rt.sym("young_ptr") + 8 * (n + 1) > rt.sym("young_end"):
                rt.c("minor_collection")
                why = walk("after a minor collection forced by an allocation")
                if why:
                    return why
            fs = [value() for _ in range(n)]
            v = rt.sym("young_ptr") + 8
            rt.setsym("young_ptr", v + 8 * n)
            rt.poke(v - 8, (n << 10) + 0x300 + tag)
            for i, x in enumerate(fs):
                rt.poke(v + 8 * i, word(x))
            x = Node(tag, n, fs)
            x.addr = v
            live.append(x)
            setroot(x)
        elif c < .42:          # a block in the major heap
            n = rnd.choice([1, 2, 3, 8, rnd.randrange(1, 40), 257, 300]) if rnd.random() < .9 else rnd.choice([rnd.randrange(500, 9000), 940])
            tag = rnd.choice([0, 1, 7, 249, 250])
            v = rt.c("alloc_shr", n, tag)
            h = rt.peek(v - 8)
            if v & 7 or h >> 10 != n or h & 255 != tag:
                return "alloc_shr: header %#x" % h
            for x in live:
                if x.addr - 8 < v + 8 * n and v - 8 < x.addr + 8 * x.n:
                    return "alloc_shr returned memory that overlaps a live block"
            fs = [value() if i < 20 else 1 for i in range(n)]
            ys = [y for y in fs if isinstance(y, Node) and young(y.addr)]
            if ys and n >= 940:       # more remembered cells than the table has room for
                fs = fs[:20] + [rnd.choice(ys) for _ in range(900)] + [1] * (n - 920)
            for i, x in enumerate(fs):
                p0 = rt.sym("ref_table_ptr")
                rt.c("initialize", v + 8 * i, word(x))
                if isinstance(x, Node) and young(x.addr) and remembered()[1] != v + 8 * i:
                    return "initialize: a young value in a major block is not recorded"
            x = Node(tag, n, fs)
            x.addr = v
            live.append(x)
            setroot(x)
        elif c < .50:          # a string or a real
            if rnd.random() < .6:
                s = bytes(rnd.randrange(256) for _ in range(rnd.choice([0, 1, 7, 8, 9, 40, 3000])))
                v = rt.string(s)
                if rt.strval(v) != s:
                    return "alloc_string: wrong length"
            else:
                v = rt.double(rnd.uniform(-9, 9))
            h = rt.peek(v - 8)
            x = Node(h & 255, h >> 10, None, rt.bytes(v, 8 * (h >> 10)))
            x.addr = v
            if rt.sym("stat_minor_collections") != gcs:
                why = walk("after a collection in alloc_string or copy_double")
                if why:
                    return why
            live.append(x)
            setroot(x)
        elif c < .74:          # assignment
            x = reach()
            if isinstance(x, Node) and x.fields is not None:
                i = rnd.randrange(min(x.n, 30))
                y = value()
                old = x.fields[i]
                rt.c("modify", x.addr + 8 * i, word(y))
                x.fields[i] = y
                if rt.peek(x.addr + 8 * i) != word(y):
                    return "modify: the cell does not hold the value"
                if not young(x.addr) and isinstance(y, Node) and young(y.addr) and \
                        not (isinstance(old, Node) and young(old.addr)) and remembered()[1] != x.addr + 8 * i:
                    return "modify: a young value in a major block is not recorded"
        elif c < .86:          # a root is overwritten
            setroot(value())
        elif c < .93:          # the only reference to a block moves from a cell to a root
            x = reach()
            if isinstance(x, Node) and x.fields is not None:
                ks = [i for i, y in enumerate(x.fields[:30]) if isinstance(y, Node)]
                if ks:
                    i = rnd.choice(ks)
                    setroot(x.fields[i])
                    x.fields[i] = y = rnd.choice([1, 2 * rnd.randrange(99) + 1, value()])
                    rt.c("modify", x.addr + 8 * i, word(y))
        elif c < .993:
            if rnd.random() < case.get("gc", .4):
                rt.c("minor_collection")
                why = walk("after a minor collection")
        else:
            rt.c("minor_collection")
            rt.c("finish_major_cycle")
            why = walk("after a complete collection")
        if why:
            return why
        if len(live) > 600:       # reachable ones only
            why = walk("between collections")
            if why:
                return why
    for s in slots:
        rt.poke(s, 1)
    rt.setsym("extern_sp", hi)
    return None


def stack_history(rt, case):
    """realloc_stack: the live stack, the handler chain and the handler register move together"""
    rnd = random.Random(case["seed"])
    size0 = rt.sym("stack_high") - rt.sym("stack_low")
    if size0 >= 8 * 262144:
        rt.c("init_stack")
    lo, hi = rt.sym("stack_low"), rt.sym("stack_high")
    n = rnd.randrange(1, (hi - lo) // 8 - 300)
    sp = hi - 8 * n
    words = [2 * rnd.randrange(1 << 40) + 1 for _ in range(n)]
    traps = sorted(rnd.sample(range(0, max(1, n // 4)), min(max(0, n // 4), rnd.choice([0, 1, 2, 3, 10, 40]))))
    traps = [4 * t for t in traps if 4 * t + 4 <= n]
    for i, t in enumerate(traps):
        words[t + 1] = ("link", traps[i + 1] if i + 1 < len(traps) else n)
    for i, w in enumerate(words):
        rt.poke(sp + 8 * i, sp + 8 * w[1] if isinstance(w, tuple) else w)
    rt.setsym("extern_sp", sp)
    rt.setsym("trapsp", sp + 8 * traps[0] if traps else hi)
    r = rt.call("realloc_stack")
    lo2, hi2 = rt.sym("stack_low"), rt.sym("stack_high")
    bad = None
    sp2 = rt.sym("extern_sp")
    if hi2 - lo2 < 2 * (hi - lo):
        bad = "the stack does not grow"
    elif sp2 != hi2 - 8 * n:
        bad = "stack depth %d instead of %d" % ((hi2 - sp2) // 8, n)
    elif rt.sym("trapsp") != (sp2 + 8 * traps[0] if traps else hi2):
        bad = "the handler register does not point at the innermost handler"
    elif rt.sym("stack_threshold") < lo2 or rt.sym("stack_threshold") > sp2:
        bad = "the stack limit is outside the free part"
    else:
        for i, w in enumerate(words):
            x = rt.peek(sp2 + 8 * i)
            if x != (sp2 + 8 * w[1] if isinstance(w, tuple) else w):
                bad = "stack word %d is %#x" % (i, x)
                break
    rt.setsym("extern_sp", hi2)
    rt.setsym("trapsp", hi2)
    return "realloc_stack: " + bad if bad else None


def cmp_case(rt, case):
    a, b = [bytes(x) for x in case["strings"]]
    x = rt.string(a)
    k = rt.keep(x)
    y = rt.string(b)
    x = rt.root(k)
    rt.used_roots = 0
    r = native.untag(rt.c("compare_strings", x, y))
    want = (a > b) - (a < b)
    if (r > 0) - (r < 0) != want:
        return "compare_strings: %d for %r, %r" % (r, a[:60], b[:60])
    n = rt.c("string_length", x)
    if n != len(a):
        return "string_length: %d for a string of %d bytes" % (n, len(a))
    return None


KINDS = {"heap": heap_history, "stack": stack_history, "strings": cmp_case}


def make_runner():
    """one process plays runtime histories, another kind of process instruction cases"""
    st = {}

    def run(case):
        k = case.get("rt")
        if k is None:
            if "n" not in st:
                st["n"] = nrun.make_runner(own="r" in st)
            return st["n"](case)
        if "r" not in st:
            # instruction cases and histories do not share a runtime
            st["r"] = native.RT(minor=1 << 14 if k == "heap" else 1 << 15, own="n" in st)
        return KINDS[k](st["r"], case)
    return run


def heap_cases(tier, seed, models, deep, n=30):
    n = 20 * n if tier == "thorough" else (3 * n if deep else n)
    return [{"rt": "heap", "seed": seed * 10000 + i, "steps": 1500, "gc": [.2, .5, 1][i % 3]} for i in range(n)]


def stack_cases(tier, seed, models, deep):
    return [{"rt": "stack", "seed": seed * 1000 + i} for i in range(400 if tier == "thorough" else 60)]


def string_cases(tier, seed, models, deep):
    rnd = random.Random(seed)
    out = []
    for _ in range(4000 if tier == "thorough" else 400):
        p = [rnd.choice([0, 97, 127, 128, 255]) for _ in range(rnd.choice([0, 1, 7, 8, 15, 16, 31, 64, 255, 256, 257, rnd.randrange(600)]))]
        q = list(p)
        c = rnd.random()
        if c < .35 and q:
            i = rnd.choice([0, len(q) - 1, rnd.randrange(len(q)), len(q) & ~7, (len(q) & ~7) - 1])
            q[min(max(i, 0), len(q) - 1)] ^= rnd.choice([1, 128, 255])
        elif c < .7:
            q += [rnd.choice([0, 0, 255, 97]) for _ in range(rnd.choice([1, 1, 2, 8, 256]))]
        if rnd.random() < .5:
            p, q = q, p
        out.append({"rt": "strings", "strings": [p, q]})
    return out


# ------------------------------------------------------------------ contracts on the C functions
# IN_HEAP and friends, as in mlvalues.h / gc.h / major_gc.h
IN_HEAP = z3.Function("in_major_heap", z3.BitVecSort(64), z3.BitVecSort(8))
B64 = z3.BitVecSort(64)
WHITE, BLUE, GRAY = 0, 2, 1


class U_:
    """one function, its entry state and the post-state reader"""

    def __init__(self, files, fn, contracts=None, loop=None, timeout=20.0):
        self.m = CMachine(files, loopspecs={fn: loop} if loop else None, timeout=timeout)
        self.files = files
        contracts = dict(contracts or {})
        for k in list(contracts):
            contracts.update({"%s:%s" % (x, k): contracts[k] for x in files})
        self.fn = self.name(fn)
        for x in (fn, self.fn):
            contracts.pop(x, None)
        if loop:
            self.m.loopspecs[self.fn] = loop
        self.eng = self.m.engine(contracts)
        self.st = self.m.state()
        self.wit = []

    def name(self, nm):
        p = self.m.prog
        for x in [nm] + ["%s:%s" % (f, nm) for f in self.files]:
            if x in p.globals and not p.globals[x].external or x in p.funcs:
                return x
        return nm

    def ga(self, nm):
        return self.m.g(self.name(nm))

    def A(self, f):
        self.eng.assume(self.st, f)

    def var(self, nm, w=64):
        v = fresh(nm, z3.BitVecSort(w))
        self.wit.append((nm, v))
        return v

    def obj(self, nm, win=HEAP, span=1 << 36, lo=0):
        v = self.var(nm)
        self.A(z3.And(aligned(v), z3.UGE(v, bv(win[0] + 65536)), z3.ULE(v, bv(win[1] - span))))
        mem.declare_aligned(v)
        mem.declare_interval(v, win[0] + 65536, win[1] - span)
        return v

    def g(self, nm, st=None):
        return self.m.glob(self.eng, st or self.st, self.name(nm))

    def gptr(self, nm, win):
        """a global that holds an aligned address of the window"""
        v = self.g(nm)
        self.A(z3.And(aligned(v), z3.UGE(v, bv(win[0] + 65536)), z3.ULE(v, bv(win[1] - 65536))))
        return v

    def rd0(self, a, n=8):
        return self.eng.reader(self.st).read(self.st.mem, a, n)

    def call(self, args):
        self.eng.witness = self.wit
        self.mem0 = self.st.mem
        self.eng.reachable(self.st, self.fn)
        return self.eng.call_function(self.st, self.fn, args)

    def memory(self, o, changes, name):
        """the final memory is the initial one with the given guarded word writes [(cond, addr, value, bytes)]"""
        names = []
        for c, a, v, n in changes:
            w = self.eng.reader(o.st).read(o.st.mem, a, n)
            ow = self.eng.reader(o.st).read(self.mem0, a, n)
            # a later change of the same cell wins; the cells of one contract are disjoint by assumption
            self.eng.prove(o.st, z3.If(c, w == v, w == ow), "%s: %s" % (name, "cell %d" % len(names)))
            names.append(a)
        x = fresh("word", B64)
        s = o.st.copy()
        self.eng.assume(s, z3.And(aligned(x), z3.Or(*[z3.And(z3.UGE(x, bv(w[0])), z3.ULE(x, bv(w[1] - 8))) for w in (HEAP, CHEAP, (sem.GLOBAL_BASE, sem.GLOBAL_BASE + (1 << 32)))])))
        for c, a, v, n in changes:
            self.eng.assume(s, x != (a & ~bv(7)))
        r = self.eng.reader(s)
        self.eng.prove(s, r.read(o.st.mem, x, 8) == r.read(self.mem0, x, 8), "%s: every other word unchanged" % name)

    def result(self):
        return check.engine_result(self.eng)


def isblock(v):
    return v & 1 == 0


def ghosts(**extra):
    """callees that only leave a trace"""
    def rec(nm):
        def f(ex, st, args):
            st.ghost[nm] = st.ghost.get(nm, ()) + (tuple(args),)
            return [("ret", st, None)]
        return f
    c = {"p_table_in_heap": lambda ex, st, args: [("ret", st, IN_HEAP(args[0]))],
         "darken": rec("darken"), "realloc_ref_table": rec("realloc_ref_table"), "realloc_gray_vals": rec("realloc_gray_vals"),
         "force_minor_gc": rec("force_minor_gc"), "gc_message": lambda ex, st, args: [("ret", st, None)]}
    c.update(extra)
    return c


def inheap(u, a):
    lo, hi = u.g("heap_start"), u.g("heap_end")
    return z3.And(z3.UGE(a, lo), z3.ULT(a, hi), IN_HEAP(a) == u.m.tags.get("In_heap", 1))


def young(u, v):
    return z3.And(isblock(v), z3.UGT(v, u.g("young_start")), z3.ULT(v, u.g("young_end")))


def job_store(fn):
    """modify / initialize"""
    def f():
        u = U_(["memory.c", "minor_gc.c", "major_gc.c"], fn, ghosts())
        fp, v = u.obj("fp"), u.var("value")
        rt = u.gptr("ref_table_ptr", CHEAP)
        lim = u.g("ref_table_limit")
        old = u.rd0(fp)
        phase = u.g("gc_phase")
        outs = u.call([fp, v])
        if fn == "modify":
            push = z3.And(inheap(u, fp), young(u, v), z3.Not(young(u, old)))
            dark = z3.And(inheap(u, fp), phase == u.m.tags.get("Phase_mark", 0))
        else:
            push, dark = young(u, v), z3.BoolVal(False)
        for i, o in enumerate(outs):
            nm = "%s, path %d" % (fn, i + 1)
            if o.kind != "ret":
                u.eng.prove(o.st, z3.BoolVal(False), nm + ": unexpected exit")
                continue
            u.memory(o, [(z3.BoolVal(True), fp, v, 8), (push, rt, fp, 8), (push, u.ga("ref_table_ptr"), rt + 8, 8)], nm)
            d = o.st.ghost.get("darken", ())
            # (marking an immediate or young value has no effect, see the contract of darken)
            if d:
                u.eng.prove(o.st, z3.And(z3.BoolVal(len(d) == 1), d[0][0] == old, dark), nm + ": only the overwritten value is marked, while marking")
            else:
                u.eng.prove(o.st, z3.Or(z3.Not(dark), z3.Not(isblock(old)), z3.Not(inheap(u, old))), nm + ": the overwritten value is marked while marking")
            r = o.st.ghost.get("realloc_ref_table", ())
            u.eng.prove(o.st, z3.And(push, z3.UGE(rt + 8, lim)) == z3.BoolVal(len(r) > 0), nm + ": the remembered set grows exactly when it is full")
        return u.result()
    return f


def job_darken():
    u = U_(["major_gc.c"], "darken", {k: v for k, v in ghosts().items() if k != "darken"})
    v = u.obj("value")
    w = u.var("low")
    u.A(z3.ULT(w, bv(8)))
    v = z3.simplify(v + w)
    cur, end = u.gptr("gray_vals_cur", CHEAP), u.g("gray_vals_end")
    h = u.rd0((v & ~bv(7)) - 8)
    u.A(z3.Implies(isblock(v), w == 0))
    dark = z3.And(isblock(v), inheap(u, v), z3.Extract(9, 8, h) == WHITE)
    base = v & ~bv(7)
    for i, o in enumerate(u.call([v])):
        nm = "darken, path %d" % (i + 1)
        u.memory(o, [(dark, base - 8, (h & ~bv(0x300)) | (GRAY << 8), 8), (dark, cur, v, 8), (dark, u.ga("gray_vals_cur"), cur + 8, 8)], nm)
        r = o.st.ghost.get("realloc_gray_vals", ())
        u.eng.prove(o.st, z3.And(dark, z3.UGE(cur + 8, end)) == z3.BoolVal(len(r) > 0), nm + ": the mark stack grows exactly when it is full")
    return u.result()


def job_realloc_ref_table():
    NEW = z3.BitVec("grown_table", 64)

    def realloc(ex, st, args):
        st.ghost["realloc"] = st.ghost.get("realloc", ()) + (tuple(args),)
        st2 = st.copy()
        return [("ret", st, NEW), ("ret", st2, bv(0))]
    u = U_(["minor_gc.c"], "realloc_ref_table", ghosts(realloc=realloc))
    tab, ptr, lim = u.gptr("ref_table", CHEAP), u.gptr("ref_table_ptr", CHEAP), u.gptr("ref_table_limit", CHEAP)
    thr, end = u.gptr("ref_table_threshold", CHEAP), u.gptr("ref_table_end", CHEAP)
    size, res = u.g("ref_table_size"), u.g("ref_table_reserve")
    u.A(z3.And(z3.ULT(size, bv(1 << 30)), z3.ULT(res, bv(1 << 30)), thr == tab + 8 * size, end == thr + 8 * res, ptr == lim,
               z3.Or(lim == thr, lim == end), z3.UGT(res, bv(0)), aligned(NEW), z3.UGE(NEW, bv(CHEAP[0] + 65536)), z3.ULE(NEW, bv(CHEAP[1] - (1 << 40)))))
    for i, o in enumerate(u.call([])):
        nm = "realloc_ref_table, path %d" % (i + 1)
        r = o.st.ghost.get("realloc", ())
        if o.kind == "exit":
            u.eng.prove(o.st, z3.And(z3.BoolVal(o.val[0] == "fatal"), lim != thr), nm + ": gives up only when the larger table cannot be had")
            continue
        G = lambda n: u.g(n, o.st)
        if not r:
            u.memory(o, [(z3.BoolVal(True), u.ga("ref_table_limit"), end, 8)], nm)
            u.eng.prove(o.st, z3.And(lim == thr, z3.UGT(G("ref_table_limit"), G("ref_table_ptr"))), nm + ": the reserve is opened")
            u.eng.prove(o.st, z3.BoolVal(len(o.st.ghost.get("force_minor_gc", ())) == 1), nm + ": a minor collection is requested")
        else:
            u.eng.prove(o.st, z3.And(lim != thr, r[0][0] == tab), nm + ": the table itself is reallocated")
            used = z3.UDiv(ptr - tab, bv(8))
            u.eng.prove(o.st, z3.And(G("ref_table") == NEW, G("ref_table_ptr") == NEW + 8 * used), nm + ": the recorded cells are kept")
            u.eng.prove(o.st, z3.And(z3.ULT(G("ref_table_ptr"), G("ref_table_limit")), z3.ULE(G("ref_table_limit"), NEW + r[0][1])),
                        nm + ": there is room, inside the allocated table")
    return u.result()


def job_compare_strings():
    K = fresh("k", B64)
    g = {}

    def spec(ctx):
        def cands(l):
            return [("rounds<=shorter length", z3.ULE(l.n, g["min"])),
                    ("the bytes before agree", z3.Implies(z3.ULT(K, l.n), l.read(g["s1"] + K, 1) == l.read(g["s2"] + K, 1)))]
        return [{"cands": cands, "must": ["the bytes before agree"], "nmax": 1 << 40}]
    u = U_(["str.c"], "compare_strings", loop=spec)
    s1, L1 = mlstring(u, "s1")
    s2, L2 = mlstring(u, "s2")
    mn = z3.If(z3.ULE(L1, L2), L1, L2)
    g.update(s1=s1, s2=s2, min=mn)
    for i, o in enumerate(u.call([s1, s2])):
        nm = "compare_strings, path %d" % (i + 1)
        n = o.st.ghost.get("n", bv(0))
        rd = u.eng.reader(o.st)
        b = lambda s, j: rd.read(u.mem0, s + j, 1)
        less = z3.Or(z3.And(z3.ULT(n, mn), z3.ULT(b(s1, n), b(s2, n))), z3.And(n == mn, z3.ULT(L1, L2)))
        more = z3.Or(z3.And(z3.ULT(n, mn), z3.UGT(b(s1, n), b(s2, n))), z3.And(n == mn, z3.ULT(L2, L1)))
        same = z3.And(n == mn, L1 == L2)
        u.eng.prove(o.st, z3.Implies(z3.ULT(K, n), b(s1, K) == b(s2, K)), nm + ": the strings agree before the deciding position (any index k)")
        u.eng.prove(o.st, z3.And(o.val & 1 == 1, z3.If((o.val >> 1) < 0, less, z3.If((o.val >> 1) > 0, more, same))),
                    nm + ": the sign is decided by the first difference, then by the lengths")
        u.memory(o, [], nm)
    return u.result()


def mlstring(u, nm):
    v = u.obj(nm)
    L = u.var("length_" + nm)
    w = z3.LShR(u.rd0(v - 8), 10)
    u.A(z3.And(z3.ULT(L, bv(1 << 35)), w == z3.UDiv(L, bv(8)) + 1))
    u.A(z3.ZeroExt(56, u.rd0(v + 8 * w - 1, 1)) == 8 * w - 1 - L)
    return v, L


def job_string_length():
    u = U_(["str.c"], "string_length")
    s, L = mlstring(u, "s")
    for i, o in enumerate(u.call([s])):
        u.eng.prove(o.st, o.val == L, "string_length, path %d: the number of bytes" % (i + 1))
        u.memory(o, [], "string_length, path %d" % (i + 1))
    return u.result()


def jobs_heap(tier):
    return [check.Job("oldify", job_oldify, 400), check.Job("alloc_shr", job_alloc_shr, 120)] + jobs_store(tier)


def jobs_strings(tier):
    return [check.Job("compare_strings", job_compare_strings, 120), check.Job("string_length", job_string_length, 60)]


def jobs_store(tier):
    return [check.Job("modify", job_store("modify"), 120), check.Job("initialize", job_store("initialize"), 120),
            check.Job("darken", job_darken, 120), check.Job("realloc_ref_table", job_realloc_ref_table, 120)]


class Stop(Exception):
    pass


FWD = z3.Function("new_location", B64, B64)
RES = z3.BitVec("allocated", 64)


def job_alloc_shr():
    HP = z3.BitVec("free_block", 64)

    def fl(ex, st, args):
        st.ghost["asked"] = st.ghost.get("asked", ()) + (args[0],)
        s2 = st.copy()
        return [("ret", st, HP), ("ret", s2, bv(0))]

    def expand(ex, st, args):
        s2 = st.copy()
        return [("ret", st, z3.BitVec("new_chunk", 64)), ("ret", s2, bv(0))]
    u = U_(["memory.c", "major_gc.c", "minor_gc.c"], "alloc_shr", ghosts(fl_allocate=fl, expand_heap=expand, fl_add_block=lambda ex, st, a: [("ret", st, None)],
           raise_out_of_memory=lambda ex, st, a: [("exit", st, ("raise", bv(0), None))]))
    n, t = u.var("wosize"), u.var("tag", 8 * 4)
    u.A(z3.And(z3.ULT(n, bv(1 << 40)), z3.ULT(t, bv(256, 32)), aligned(HP), z3.UGE(HP, bv(HEAP[0] + 65536)), z3.ULE(HP, bv(HEAP[1] - (1 << 44)))))
    mem.declare_aligned(HP)
    sweep, phase, words = u.g("gc_sweep_hp"), u.g("gc_phase"), u.g("allocated_words")
    for i, o in enumerate(u.call([n, t])):
        nm = "alloc_shr, path %d" % (i + 1)
        if o.kind == "exit":
            u.eng.prove(o.st, z3.BoolVal(len(o.st.ghost.get("asked", ())) >= 1), nm + ": gives up only after asking for memory")
            continue
        keep = z3.Or(phase == u.m.tags.get("Phase_mark", 0), z3.UGE(HP, sweep))
        hd = (n << 10) + z3.If(keep, bv(0x300), bv(0)) + z3.ZeroExt(32, t)
        u.eng.prove(o.st, o.val == HP + 8, nm + ": the block follows its header")
        for a in o.st.ghost.get("asked", ()):
            u.eng.prove(o.st, a == n, nm + ": the requested size is allocated")
        x = u.eng.reader(o.st).read(o.st.mem, HP, 8)
        u.eng.prove(o.st, (x | bv(0x300)) == (hd | bv(0x300)), nm + ": size and tag")
        # while marking, and where the sweeper still comes by, only a black block survives the current cycle
        u.eng.prove(o.st, z3.Implies(keep, x & bv(0x300) == bv(0x300)), nm + ": not freed by the current cycle")
        # behind the sweeper a black block would be kept for a cycle: allowed, but not gray or blue
        u.eng.prove(o.st, z3.Or(x & bv(0x300) == bv(0x300), x & bv(0x300) == bv(0)), nm + ": black or white")
        u.memory(o, [(z3.BoolVal(True), HP, x, 8), (z3.BoolVal(True), u.ga("allocated_words"), words + n + 1, 8)], nm)
    return u.result()


def job_oldify():
    """one step of oldify(p, v), from an arbitrary state to its return or to the tail call"""
    back = {}
    FN = "oldify"

    def rec(ex, st, args):
        p, v = args
        st.mem = st.mem.write(z3.simplify(p), 8, FWD(v))
        return [("ret", st, None)]

    def alloc(ex, st, args):
        n, t = args
        st.ghost["alloc"] = st.ghost.get("alloc", ()) + ((n, t),)
        st.mem = st.mem.write(RES - 8, 8, (n << 10) + (z3.ZeroExt(62, z3.BitVec("colour", 2)) << 8) + (z3.ZeroExt(32, t) & 255))
        return [("ret", st, RES)]

    def copied(ex, st, args):
        st.ghost["bcopy"] = st.ghost.get("bcopy", ()) + (tuple(args[:3]),)
        st.mem = sem.map_words(st.mem, args[1], z3.UDiv(args[2], bv(8)), lambda rd, par, off: rd._read(par, z3.simplify(args[0] + off), 8))
        return [("ret", st, None)]

    def copied2(ex, st, args):
        return copied(ex, st, [args[1], args[0], args[2]])

    def spec(ctx):
        e = ctx.eng
        if "outer" not in back:
            back["outer"] = True
            s = ctx.entry.copy()
            e.enter(s, ctx.header, None, ctx.init)
            backs, parked, outs = e.explore([s], (len(s.frames), ctx.header, ctx.fn.loops[ctx.header]))
            outs = outs + (e.explore(parked) if parked else [])
            raise Stop(backs, outs, ctx)
        base = ctx.entry.mem
        val = lambda rd, par, off: FWD(rd._read(base, z3.simplify(back["v"] + 8 + off), 8))
        d, cnt = z3.simplify(RES + 8), z3.simplify(back["sz"] - 2)
        return [{"cands": lambda lc: [("rounds<=count", z3.ULE(lc.n, cnt)), ("rounds<count", z3.ULT(lc.n, cnt))], "words": True,
                 "must": ("rounds<=count",), "nmax": 1 << 30,
                 "mem": lambda lc, k: sem.map_words(base, d, k, val),
                 "split": lambda lc, k: [(d, k), (z3.simplify(d + 8 * k), None)]}]
    u = U_(["minor_gc.c"], "oldify", ghosts(alloc_shr=alloc, bcopy=copied, memmove=copied2, memcpy=copied2), loop=spec)
    u.eng.contracts.update({"oldify": rec, "minor_gc.c:oldify": rec})
    span = 1 << 43
    mid = HEAP[0] + (1 << 44)
    # young blocks, the copy and the cell lie in disjoint parts of the memory
    p, v = u.obj("p", win=CHEAP), u.obj("v", win=(HEAP[0], mid), span=1 << 32)
    low = u.var("low")
    u.A(z3.ULT(low, bv(8)))
    w = z3.simplify(v + low)
    u.A(z3.Implies(isblock(w), low == 0))
    h = u.rd0(v - 8)
    sz, tg = z3.LShR(h, 10), h & 255
    back.update(v=v, sz=sz)
    mem.declare_aligned(RES)
    mem.declare_interval(RES, mid + 65536, HEAP[1] - span)
    yo = young(u, w)
    u.A(z3.And(aligned(RES), z3.UGE(RES, bv(mid + 65536)), z3.ULE(RES, bv(HEAP[1] - span))))
    u.A(z3.And(z3.UGE(sz, bv(1)), z3.ULT(sz, bv(1 << 20))))
    mem.declare_interval(sz, 1, 1 << 20)
    f0 = u.rd0(v)
    ns = u.m.tags["No_scan_tag"]
    blue = z3.Extract(9, 8, h) == BLUE
    J = z3.BitVec("any_field", 64)
    u.eng.witness = u.wit
    u.mem0 = u.st.mem
    u.eng.reachable(u.st, "oldify")
    try:
        outs, backs = u.eng.call_function(u.st, u.fn, [p, w]), []
    except Stop as e:
        backs, outs, ctx = e.args
    T = z3.BoolVal(True)
    fresh_hd = (sz << 10) + (z3.ZeroExt(62, z3.BitVec("colour", 2)) << 8) + tg
    blued = (h & ~bv(0x300)) | (BLUE << 8)
    for i, o in enumerate(outs):
        nm = "oldify, return %d" % (i + 1)
        st = o.st
        al = st.ghost.get("alloc", ())
        if not al:
            u.eng.prove(st, z3.Or(z3.Not(yo), blue), nm + ": a young block not yet forwarded is copied")
            u.memory(o, [(T, p, z3.If(z3.And(yo, blue), f0, w), 8)], nm)
            continue
        u.eng.prove(st, z3.And(yo, z3.Not(blue), z3.UGE(tg, bv(ns)), z3.BoolVal(len(al) == 1)), nm + ": one copy of an unscanned block")
        _copied(u, st, nm, v, sz, p, fresh_hd, blued, J, lambda a: u.rd0(a), sz)
    for i, b in enumerate(backs):
        nm = "oldify, tail call %d" % (i + 1)
        al = b.ghost.get("alloc", ())
        u.eng.prove(b, z3.And(yo, z3.Not(blue), z3.ULT(tg, bv(ns)), z3.BoolVal(len(al) == 1)), nm + ": one copy of a scanned block")
        ph = {}
        for r, x in ctx.init.items():
            if z3.is_bv(x) and x.size() == 64 and r in b.backvals:
                if x.eq(p):
                    ph["p"] = b.backvals[r]
                elif x.eq(w):
                    ph["v"] = b.backvals[r]
        if len(ph) < 2:
            raise sem.AttachError("the tail call of oldify is not recognised")
        last = u.eng.reader(b).read(u.mem0, z3.simplify(v + 8 * (sz - 1)), 8)
        u.eng.prove(b, z3.And(ph["p"] == RES + 8 * (sz - 1), ph["v"] == last), nm + ": goes on with the last field")
        _copied(u, b, nm, v, sz, p, fresh_hd, blued, J, lambda a: FWD(u.eng.reader(b).read(u.mem0, a, 8)), sz - 1)
    return u.result()


def _copied(u, st, nm, v, sz, p, fresh_hd, blued, J, val, cnt):
    rd = lambda s, a: u.eng.reader(s).read(s.mem, z3.simplify(a), 8)
    u.eng.prove(st, rd(st, p) == RES, nm + ": the cell points to the copy")
    u.eng.prove(st, rd(st, RES - 8) == fresh_hd, nm + ": the copy has the size and tag of the block")
    u.eng.prove(st, rd(st, v - 8) == blued, nm + ": the block is marked as forwarded")
    u.eng.prove(st, rd(st, v) == RES, nm + ": the first field leads to the copy")
    s = st.copy()
    u.eng.assume(s, z3.ULT(J, cnt))
    mem.declare_interval(J, 0, 1 << 20)
    u.eng.prove(s, rd(s, RES + 8 * J) == val(z3.simplify(v + 8 * J)), nm + ": any field j of the copy")
    s = st.copy()
    x = fresh("word", B64)
    n8 = 8 * sz
    u.eng.assume(s, z3.And(aligned(x), z3.Or(*[z3.And(z3.UGE(x, bv(w[0])), z3.ULE(x, bv(w[1] - 8))) for w in (HEAP, CHEAP)]),
                           x != p, x != v, x != v - 8, z3.Not(z3.ULT(x - (RES - 8), n8 + 8))))
    r = u.eng.reader(s)
    u.eng.prove(s, r.read(s.mem, x, 8) == r.read(u.mem0, x, 8), nm + ": every other word unchanged")
