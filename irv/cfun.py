"""Contracts on single C functions of the runtime (outside the interpreter loop)."""
import z3

from . import build, ir, sem
from .interp import CHEAP, HEAP, STK, defines, inwin, aligned
from .mem import Mem, bv, fresh
from .sem import AttachError, Dbl, Engine, F64, Program, State

RNE = z3.RNE()


class CMachine:
    def __init__(self, files, contracts=None, loopspecs=None, timeout=30.0):
        self.prog = Program()
        for f in files:
            self.prog.add(ir.parse_module(build.ir_of(f), f))
        d = build.src_copy() + "/runtime/"
        self.gl = defines(open(d + "globals.h").read())
        self.tags = build.constants()
        self.contracts = dict(base_contracts(self))
        self.contracts.update(contracts or {})
        self.loopspecs = loopspecs or {}
        self.timeout = timeout

    def engine(self, contracts=None):
        c = dict(self.contracts)
        c.update(contracts or {})
        e = Engine(self.prog, c, self.loopspecs, timeout=self.timeout)
        e.windows = [(sem.GLOBAL_BASE, sem.GLOBAL_BASE + (1 << 32)), STK, HEAP, CHEAP, (sem.STACK_BASE, sem.STACK_BASE + (1 << 40))]
        return e

    def g(self, name):
        return bv(self.prog.gaddr(name))

    def gsize(self, name):
        g = self.prog.globals[name]
        return self.prog.sizeof(g.ty, g.mod)

    def atom(self, i):
        return z3.simplify(self.g("first_atoms") + 8 * (i + 1))

    def state(self, consts=()):
        st = State()
        st.mem = Mem.base("mem0")
        return st

    def glob(self, eng, st, name, mem=None):
        return eng.reader(st).read(mem if mem is not None else st.mem, self.g(name), self.gsize(name))


def base_contracts(mach):
    def raise0(ex, st, args):
        return [("exit", st, ("raise", args[0], bv(1)))]

    def raise1(ex, st, args):
        return [("exit", st, ("raise", args[0], args[1]))]

    def mlraise(ex, st, args):
        return [("exit", st, ("mlraise", args[0]))]

    def copy_double(ex, st, args):
        v = fresh("newdouble", z3.BitVecSort(64))
        st.ghost["dbl"] = dict(st.ghost.get("dbl", {}))
        st.ghost["dbl"][v.get_id()] = args[0]
        st.ghost.setdefault("keep", []).append(v)
        return [("ret", st, v)]
    return {"raiseprimitive0": raise0, "raiseprimitive1": raise1, "mlraise": mlraise, "copy_double": copy_double,
            "fatal_error": lambda ex, st, a: [("exit", st, ("fatal",))]}
