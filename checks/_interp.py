"""Shared by the checks on groups of bytecode instructions."""
import random

from irv import arith, build, check, interp, native, nrun, opspec

HARD = {"SMLMULINT", "SMLDIVINT", "SMLQUOTINT", "SMLMODINT", "SMLREMINT", "MULINT", "DIVINT", "MODINT"}
ASSUMPTIONS = [
    "the instruction operands and the values on the stack are well-formed in the sense of each contract's precondition (established by the compiler's typing)",
    "code, stack, ML heap and malloc'ed memory are disjoint regions; the stack is below 2^38 bytes and has room for the instruction's pushes",
    "assumed callee contracts: minor_collection and C primitives relocate live values and publish young_ptr, realloc_stack moves the live stack, setjmp/longjmp transfer control",
]
TRUSTED = ["dispatch: every threaded-code word is the label of its opcode (expand.c)", "clang -O0 + mem2reg, sroa, simplifycfg; -fwrapv semantics of signed overflow"]


def install(g, prop, ops, per_op=60, extra_jobs=None, explanation="", extra_cases=None, runner=None, prepare=None, more_assumptions=()):
    st = {}

    def prep(tier):
        if prepare:
            prepare(tier)
        native.so()
        native.local_symbols()
        build.constants()
        try:
            st["m"] = interp.Machine()
        except Exception as e:       # the shape of interprete() is unknown: only the conformance runs remain
            st["err"] = e

    def one(op):
        def f():
            if "err" in st:
                raise st["err"]
            e = arith.verify_arith(st["m"], op) if op in HARD else interp.verify_op(st["m"], op, timeout=15)
            for o in e.obls:
                o.raw_model = None
            return check.engine_result(e)
        return f

    def jobs(tier):
        names = sorted(ops, key=lambda o: o not in HARD and o not in opspec.LOOP)
        js = [check.Job(o, one(o), 360 if o in HARD else (330 if o in opspec.LOOP else 150), hint=o) for o in names]
        return (extra_jobs(tier) if extra_jobs else []) + js

    def cases(tier, seed, models, deep):
        n = per_op * (10 if tier == "thorough" else 1)
        cs = nrun.gen_cases(ops, n, seed)
        bad = []
        for m in models:
            if m["hint"] in ops and m["hint"] not in bad:
                bad.append(m["hint"])
        rnd = random.Random(seed)
        for m in models:
            if m["hint"] in ops and m["model"]:
                c = from_model(m["hint"], m["model"], rnd)
                if c:
                    cs.append(c)
        if bad:
            cs += nrun.gen_cases(bad, 1500, seed + 1)
        if extra_cases:
            cs += extra_cases(tier, seed, models, deep)
        return cs

    g.update(PROP=prop, prepare=prep, jobs=jobs, cases=cases, runner=runner or nrun.make_runner,
             ASSUMPTIONS=ASSUMPTIONS + list(more_assumptions), TRUSTED=TRUSTED, EXPLANATION=explanation, LEVEL="proof")


def sg(v):
    v &= nrun.U
    return v - (1 << 64) if v >> 63 else v


def from_model(op, mo, rnd):
    """a concrete case with the immediate values of the verifier's counterexample"""
    c = nrun.gen_case(op, rnd)
    g = opspec.GEN.get(op, {})

    def put(k, v):
        v = int(v) & nrun.U
        if k in ("int", "smallint", "byteint", "shift") and v & 1:
            n = sg(v) >> 1
            if k == "int" or 0 <= n < {"smallint": 8, "byteint": 256, "shift": 63}[k]:
                return ("int", n)
        return None
    x = put(g.get("accu"), mo["accu"]) if "accu" in mo else None
    if x:
        c["accu"] = x
    for i, k in enumerate(g.get("stack", [])):
        x = put(k, mo["stack%d" % i]) if "stack%d" % i in mo else None
        if x:
            c["stack"][i] = x
    if g.get("accu") in ("double", "smalldouble") and "[accu]" in mo:
        c["accu"] = ("dblbits", int(mo["[accu]"]) & nrun.U)
        if g.get("stack") and "[stack0]" in mo:
            c["stack"][0] = ("dblbits", int(mo["[stack0]"]) & nrun.U)
    return c


def by_group(*groups):
    return [o for o in opspec.SPEC if opspec.GROUP[o] in groups]
