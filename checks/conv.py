"""C04: conversions between real and int, absolute values, and the checked real functions (mosml.c)."""
import math
import random
import struct

import z3

from irv import build, check, native
from irv.cfun import CMachine
from irv.interp import HEAP, aligned, inwin
from irv.mem import bv, fresh
from irv.sem import F64, Dbl

PROP = "C04"
LEVEL = "proof"
ASSUMPTIONS = [
    "conversion of an unrepresentable double to long yields 0x8000000000000000 (x86-64 cvttsd2si; undefined in C)",
    "the rounding mode is round-to-nearest-even; libm's floor/rint/sqrt are correctly rounded; other libm functions (sin, exp, ...) are uninterpreted",
    "a collection inside copy_double returns a fresh block holding the double (C03, C09)"]
TRUSTED = ["raiseprimitive0 and copy_double: assumed contracts here"]
EXPLANATION = "every path of the conversion functions of mosml.c against exact IEEE semantics, for all 2^64 arguments"
st_ = {}

MODES = {"sml_floor": z3.RTN(), "sml_ceil": z3.RTP(), "sml_round": z3.RNE(), "sml_trunc": z3.RTZ()}
UNARY = {}


def prepare(tier):
    native.so()
    build.constants()
    try:
        st_["m"] = CMachine(["mosml.c", "fail.c"])
    except Exception as e:
        st_["err"] = e


def setup(extra=None):
    if "err" in st_:
        raise st_["err"]
    m = st_["m"]

    def dfun(md):
        return lambda ex, st, args: [("ret", st, Dbl(z3.fpRoundToIntegral(md, args[0].fp)))]
    c = {"rint": dfun(z3.RNE()), "nearbyint": dfun(z3.RNE()), "floor": dfun(z3.RTN()), "ceil": dfun(z3.RTP()), "trunc": dfun(z3.RTZ())}
    c.update(extra or {})
    eng = m.engine(c)
    eng.fp_opaque = False
    st = m.state()
    return m, eng, st


def conv(fn):
    def f():
        m, eng, st = setup()
        v = fresh("f", z3.BitVecSort(64))
        eng.assume(st, inwin(v, HEAP, 8))
        eng.assume(st, aligned(v))
        bits = eng.read(st, v, 8)
        b0 = fresh("bits", z3.BitVecSort(64))
        eng.assume(st, b0 == bits)
        d = z3.fpBVToFP(bits, F64)
        R = z3.fpRoundToIntegral(MODES[fn], d)
        lo, hi = z3.FPVal(-2.0 ** 62, F64), z3.FPVal(2.0 ** 62, F64)
        fits = z3.And(z3.fpGEQ(R, lo), z3.fpLT(R, hi))
        eng.witness = [("bits", b0)]
        eng.reachable(st, fn)
        outs = eng.call_function(st, fn, [v])
        for i, o in enumerate(outs):
            if o.kind == "exit" and o.val[0] == "raise":
                eng.prove(o.st, z3.Not(fits), "%s, path %d: raises only when the result does not fit an int" % (fn, i + 1))
                eng.prove(o.st, o.val[1] == m.gl["SYS__EXN_OVERFLOW"], "%s, path %d: the exception is Overflow" % (fn, i + 1))
            elif o.kind == "ret":
                eng.prove(o.st, fits, "%s, path %d: returns only when the rounded value fits an int" % (fn, i + 1))
                k = z3.fpToSBV(z3.RTZ(), R, z3.BitVecSort(64))
                eng.prove(o.st, z3.Implies(fits, o.val == (k << 1) + 1), "%s, path %d: the result is the rounded value" % (fn, i + 1))
            else:
                eng.prove(o.st, z3.BoolVal(False), "%s, path %d: unexpected exit %s" % (fn, i + 1, o.val))
        return check.engine_result(eng)
    return f


def absint():
    m, eng, st = setup()
    x = fresh("x", z3.BitVecSort(64))
    eng.assume(st, x & 1 == 1)
    eng.witness = [("x", x)]
    outs = eng.call_function(st, "sml_abs_int", [x])
    n = z3.SignExt(4, x) >> 1
    r = z3.If(n < 0, -n, n)
    fits = r < (1 << 62)
    for i, o in enumerate(outs):
        if o.kind == "exit" and o.val[0] == "raise":
            eng.prove(o.st, z3.And(z3.Not(fits), o.val[1] == m.gl["SYS__EXN_OVERFLOW"]), "abs int, path %d: Overflow only when |x| does not fit" % (i + 1))
        else:
            eng.prove(o.st, z3.And(fits, z3.SignExt(4, o.val) == 2 * r + 1), "abs int, path %d: result is |x|" % (i + 1))
    return check.engine_result(eng)


def realfn(fn, spec, n):
    """a checked real function: spec(args, lib) -> ([(condition, exception)...] in order, result)"""
    def f():
        lf = fn[4:] if fn != "sml_ln" else "log"
        U = z3.Function("libm_" + lf, *([F64] * (n + 1)))
        lib = {lf: lambda ex, st, args: [("ret", st, Dbl(U(*[a.fp for a in args])))]}
        lib["sqrt"] = lambda ex, st, args: [("ret", st, Dbl(z3.fpSqrt(z3.RNE(), args[0].fp)))]
        lib["fabs"] = lambda ex, st, args: [("ret", st, Dbl(z3.fpAbs(args[0].fp)))]
        m, eng, st = setup(lib)
        lib["failwith"] = lambda ex, st, args: [("exit", st, ("raise", bv(m.gl["SYS__EXN_FAIL"], 32), None))]
        eng.contracts["failwith"] = lib["failwith"]
        vs, ds = [], []
        wit = []
        for k in range(n):
            v = fresh("f", z3.BitVecSort(64))
            eng.assume(st, inwin(v, HEAP, 8))
            eng.assume(st, aligned(v))
            bits = eng.read(st, v, 8)
            b0 = fresh("bits", z3.BitVecSort(64))
            eng.assume(st, b0 == bits)
            vs.append(v)
            ds.append(z3.fpBVToFP(bits, F64))
            wit.append(("bits%d" % k if k else "bits", b0))
        mb = eng.read(st, m.g("maxdouble"), 8)
        eng.assume(st, mb == bv(struct.unpack("<Q", struct.pack("<d", MAXD))[0]))
        errs, r = spec(ds, U)
        eng.witness = wit
        eng.reachable(st, fn)
        outs = eng.call_function(st, fn, vs)
        noerr = z3.Not(z3.Or(*[c for c, _ in errs])) if errs else z3.BoolVal(True)
        for i, o in enumerate(outs):
            if o.kind == "exit" and o.val[0] == "raise":
                eng.prove(o.st, z3.Not(noerr), "%s, path %d: raises only where the specification says so" % (fn, i + 1))
                want = bv(0, 32)
                for c, x in reversed(errs):
                    want = z3.If(c, bv(m.gl[x], 32), want)
                eng.prove(o.st, z3.Or(noerr, o.val[1] == want), "%s, path %d: the exception is the specified one" % (fn, i + 1))
            elif o.kind == "ret":
                x = o.st.ghost.get("dbl", {}).get(o.val.get_id())
                eng.prove(o.st, noerr, "%s, path %d: no result where the specification raises" % (fn, i + 1))
                same = lambda a, b: z3.Or(a == b, z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))
                if x is not None:
                    eng.prove(o.st, z3.Implies(noerr, same(x.fp, r)), "%s, path %d: result" % (fn, i + 1))
                else:
                    eng.prove(o.st, z3.And(o.val == vs[0], z3.Implies(noerr, z3.fpEQ(ds[0], r))), "%s, path %d: the argument itself is the result" % (fn, i + 1))
            else:
                eng.prove(o.st, z3.BoolVal(False), "%s, path %d: unexpected exit %s" % (fn, i + 1, o.val))
        return check.engine_result(eng)
    return f


MAXD = 1.7976931348623157e308 / 2
OV, DOM, FAIL = "SYS__EXN_OVERFLOW", "SYS__EXN_DOMAIN", "SYS__EXN_FAIL"


def K(x):
    return z3.FPVal(x, F64)


def big(r):
    return z3.Or(z3.fpGT(r, K(MAXD)), z3.fpLT(r, K(-MAXD)))


def integral(d):
    return z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), d), d)


def roundtrip(y):
    """y == (double)(long)y; equivalent to integral(y) for |y| <= 2^62 (lemma below)"""
    return z3.fpEQ(y, z3.fpSignedToFP(z3.RNE(), z3.fpToSBV(z3.RTZ(), y, z3.BitVecSort(64)), F64))


def lemma():
    m, eng, st = setup()
    y = z3.fpBVToFP(fresh("y", z3.BitVecSort(64)), F64)
    eng.assume(st, z3.fpLEQ(z3.fpAbs(y), K(2.0 ** 62)))
    eng.prove(st, z3.fpEQ(z3.fpSignedToFP(z3.RNE(), z3.fpToSBV(z3.RTZ(), y, z3.BitVecSort(64)), F64), z3.fpRoundToIntegral(z3.RTZ(), y)),
              "lemma: (double)(long)y is y rounded towards zero for |y| <= 2^62")
    return check.engine_result(eng)


def s_trig(a, U):
    r = U(a[0])
    return [(z3.Or(z3.fpIsNaN(r), z3.fpGT(r, K(1.0)), z3.fpLT(r, K(-1.0))), FAIL)], r


def s_arc(a, U):
    r = U(a[0])
    return [(z3.Or(z3.fpLT(a[0], K(-1.0)), z3.fpGT(a[0], K(1.0)), z3.fpIsNaN(r)), DOM)], r


def s_ov(x):
    def f(a, U):
        r = U(a[0])
        return [(big(r), x)], r
    return f


def s_ln(a, U):
    r = U(a[0])
    return [(z3.fpLEQ(a[0], K(0.0)), DOM), (big(r), DOM)], r


def s_sqrt(a, U):
    r = z3.fpSqrt(z3.RNE(), a[0])
    return [(z3.fpLT(a[0], K(0.0)), DOM), (big(r), DOM)], r


def s_abs(a, U):
    r = z3.fpAbs(a[0])
    return [(z3.And(z3.Not(z3.fpGEQ(a[0], K(0.0))), big(r)), OV)], r


def s_atan2(a, U):
    z = z3.And(z3.fpIsZero(a[0]), z3.fpIsZero(a[1]))
    r = z3.If(z, K(0.0), U(*a))
    return [(z3.Or(big(r), z3.fpIsNaN(r)), DOM)], r


def s_pow(a, U):
    x, y = a
    z = z3.And(z3.fpIsZero(x), z3.fpIsZero(y))
    r = z3.If(z, K(1.0), U(x, y))
    neg = z3.And(z3.fpLT(x, K(0.0)), z3.Or(z3.fpGT(z3.fpAbs(y), K(2.0 ** 62)), z3.Not(roundtrip(y))))
    bad = z3.And(z3.Not(z), z3.Or(z3.And(z3.fpIsZero(x), z3.fpLT(y, K(0.0))), neg))
    return [(bad, DOM), (big(r), OV), (z3.fpIsNaN(r), DOM)], r


REALS = {"sml_abs_real": (s_abs, 1), "sml_sqrt": (s_sqrt, 1), "sml_sin": (s_trig, 1), "sml_cos": (s_trig, 1), "sml_exp": (s_ov(OV), 1),
         "sml_ln": (s_ln, 1), "sml_asin": (s_arc, 1), "sml_acos": (s_arc, 1), "sml_atan2": (s_atan2, 2), "sml_pow": (s_pow, 2),
         "sml_sinh": (s_ov(OV), 1), "sml_cosh": (s_ov(OV), 1), "sml_tanh": (s_ov(DOM), 1)}


def jobs(tier):
    js = [check.Job(fn, conv(fn), 200, hint=fn) for fn in MODES]
    js.append(check.Job("sml_abs_int", absint, 60, hint="sml_abs_int"))
    js.append(check.Job("lemma", lemma, 150, hint="sml_pow"))
    js += [check.Job(fn, realfn(fn, *REALS[fn]), 150, hint=fn) for fn in REALS]
    return js


# ------------------------------------------------------------------ conformance runs on the real code
def b2d(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def d2b(d):
    return struct.unpack("<Q", struct.pack("<d", d))[0]


SPECIAL = [0.0, -0.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.49999999999999994, 1.0, -1.0, 1.0000000000000002, 3.7, -3.7,
           2.0 ** 52 + 0.5, 2.0 ** 52 - 0.5, -2.0 ** 52 + 0.5, 2.0 ** 53 + 2, 2.0 ** 61, 2.0 ** 62, 2.0 ** 62 - 512, -2.0 ** 62, -2.0 ** 62 - 1024,
           -2.0 ** 62 + 512, 2.0 ** 63, -2.0 ** 63, 2.0 ** 63 - 1024, 2.0 ** 64, 1e300, -1e300, MAXD, -MAXD, MAXD * 1.0000001, -MAXD * 1.0000001, 1.79e308,
           float("inf"), float("-inf"), float("nan"), 5e-324, -5e-324, 2.2e-308, 709.0, 710.0, -745.0, 4.0, 100.0, 1e16]


def cases(tier, seed, models, deep):
    rnd = random.Random(seed)
    n = 120 * (8 if tier == "thorough" else 1) * (3 if deep else 1)

    def rd():
        k = rnd.randrange(6)
        if k == 0:
            return d2b(rnd.choice(SPECIAL))
        if k == 1:
            return rnd.getrandbits(64)
        if k == 2:
            return d2b(rnd.uniform(-4, 4))
        if k == 3:
            return d2b(rnd.randrange(-2 ** 62 - 4096, 2 ** 62 + 4096) / 2.0 ** rnd.randrange(0, 62))
        if k == 4:
            return d2b(float(rnd.randrange(-40, 40)) / 2)
        return (d2b(rnd.choice(SPECIAL)) + rnd.choice([-1, 1])) & ((1 << 64) - 1)
    cs = []
    for m in models:
        mo = m["model"] or {}
        if m["hint"] in MODES and "bits" in mo:
            cs.append([m["hint"], [int(mo["bits"])]])
        if m["hint"] in REALS and "bits" in mo:
            cs.append([m["hint"], [int(mo["bits"])] + ([int(mo["bits1"])] if "bits1" in mo else [])])
    for fn in list(MODES) + list(REALS):
        k = REALS[fn][1] if fn in REALS else 1
        if k == 1:
            cs += [[fn, [d2b(x)]] for x in SPECIAL]
        else:
            cs += [[fn, [d2b(x), d2b(y)]] for x in SPECIAL[::2] for y in SPECIAL[1::3]]
        cs += [[fn, [rd() for _ in range(k)]] for _ in range(n)]
    for x in [0, 1, -1, 2 ** 62 - 1, -2 ** 62, -2 ** 62 + 1] + [rnd.randrange(-2 ** 62, 2 ** 62) for _ in range(n)]:
        cs.append(["sml_abs_int", [x]])
    return cs


def expected(fn, a, lm):
    """('int', n) | ('dbl', bits) | ('exn', name)"""
    if fn == "sml_abs_int":
        r = abs(a[0])
        return ("int", r) if r < 2 ** 62 else ("exn", OV)
    x = [b2d(b) for b in a]
    if fn in MODES:
        if math.isnan(x[0]) or math.isinf(x[0]):
            return ("exn", OV)
        r = {"sml_floor": math.floor, "sml_ceil": math.ceil, "sml_trunc": math.trunc, "sml_round": round}[fn](x[0])
        return ("int", r) if -2 ** 62 <= r < 2 ** 62 else ("exn", OV)
    bigf = lambda r: r > MAXD or r < -MAXD
    nan = math.isnan
    y = lm(fn, x)
    if fn == "sml_abs_real":
        r = abs(x[0])
        return ("exn", OV) if not x[0] >= 0 and bigf(r) else ("dbl", r)
    if fn in ("sml_sin", "sml_cos"):
        return ("exn", FAIL) if nan(y) or abs(y) > 1 else ("dbl", y)
    if fn in ("sml_exp", "sml_sinh", "sml_cosh", "sml_tanh"):
        return ("exn", DOM if fn == "sml_tanh" else OV) if bigf(y) else ("dbl", y)
    if fn == "sml_ln":
        return ("exn", DOM) if x[0] <= 0 or bigf(y) else ("dbl", y)
    if fn == "sml_sqrt":
        return ("exn", DOM) if x[0] < 0 or bigf(y) else ("dbl", y)
    if fn in ("sml_asin", "sml_acos"):
        return ("exn", DOM) if x[0] < -1 or x[0] > 1 or nan(y) else ("dbl", y)
    if fn == "sml_atan2":
        if x[0] == 0 and x[1] == 0:
            return ("dbl", 0.0)
        return ("exn", DOM) if nan(y) or bigf(y) else ("dbl", y)
    if fn == "sml_pow":
        if x[0] == 0 and x[1] == 0:
            return ("dbl", 1.0)
        integral = (not math.isinf(x[1]) and not nan(x[1]) and x[1] == math.trunc(x[1]))
        if (x[0] == 0 and x[1] < 0) or (x[0] < 0 and (not integral or abs(x[1]) > 2.0 ** 62)):
            return ("exn", DOM)
        if bigf(y):
            return ("exn", OV)
        return ("exn", DOM) if nan(y) else ("dbl", y)


def runner():
    import ctypes
    import ctypes.util
    lib = ctypes.CDLL(ctypes.util.find_library("m") or "libm.so.6")

    def lm(fn, x):
        n = {"sml_ln": "log", "sml_abs_real": "fabs"}.get(fn, fn[4:])
        f = getattr(lib, n)
        f.restype = ctypes.c_double
        f.argtypes = [ctypes.c_double] * len(x)
        return f(*x)
    rt = native.RT()
    names = exn_names()

    def run(c):
        fn, a = c
        rt.used_roots = 0
        if fn != "sml_abs_int":
            a = [0 if b == 1 << 63 else b for b in a]       # Store_double_val boxes -0.0 as +0.0: no SML value is -0.0
        if fn == "sml_abs_int":
            args = [native.tag(a[0])]
        else:
            vs = [rt.keep(rt.double_bits(b)) for b in a]
            args = [rt.root(v) for v in vs]
        r = rt.call(fn, *args)
        want = expected(fn, a, lm)
        if r[0] == "ok":
            v = r[1]
            if v & 1:
                got = ("int", native.untag(v))
            else:
                d = rt.dblval(v)
                got = ("dbl", d)
                if want[0] == "dbl" and (d2b(d) == d2b(want[1]) or d != d and want[1] != want[1] or d == want[1] == 0 or fn == "sml_abs_real" and d == want[1]):
                    return None
        else:
            got = ("exn", names.get(r[1], r[1]))
        return None if got == want else "%s%s gives %s, specified %s" % (fn, [b2d(b) if fn != "sml_abs_int" else b for b in a], got, want)
    return run


def exn_names():
    from irv.interp import defines
    gl = defines(open(build.src_copy() + "/runtime/globals.h").read())
    return {v: k for k, v in gl.items() if k.startswith("SYS__EXN")}
