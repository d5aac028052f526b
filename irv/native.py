"""The real runtime of /repo's working tree, compiled as a shared library and driven through ctypes (replays and
contract-conformance runs).  Only used inside forked children: a crash of the code under test is a result."""
import ctypes as C
import os
import shutil
import struct
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import build

SHIM = r'''
#include <setjmp.h>
#include <string.h>
#include <stdlib.h>
#include "mlvalues.h"
#include "fail.h"
#include "memory.h"
#include "alloc.h"
#include "stacks.h"
#include "interp.h"
/* the caller's values are kept as roots: a permanent last element of the chain of C roots */
static value *vf_r;
value *vf_setroots(long n) {
  long i;
  vf_r = malloc((n + 2) * sizeof(value));
  for (i = 0; i < n; i++) vf_r[i] = Val_long(0);
  vf_r[n] = (value) n;
  vf_r[n + 1] = (value) c_roots_head;
  c_roots_head = &vf_r[n];
  return vf_r;
}
/* call with exceptions caught: returns 0 ok, 1 exception (packet in *res) */
long vf_call(value (*f)(), long n, value *a, value *res) {
  struct longjmp_buffer buf, *old = external_raise;
  long sp = stack_high - extern_sp;
  value *loc = c_roots_head;
  if (setjmp(buf.buf) == 0) {
    external_raise = &buf;
    switch (n) {
    case 0: *res = f(); break;
    case 1: *res = f(a[0]); break;
    case 2: *res = f(a[0], a[1]); break;
    case 3: *res = f(a[0], a[1], a[2]); break;
    case 4: *res = f(a[0], a[1], a[2], a[3]); break;
    case 5: *res = f(a[0], a[1], a[2], a[3], a[4]); break;
    case 6: *res = f(a[0], a[1], a[2], a[3], a[4], a[5]); break;
    }
    external_raise = old;
    return 0;
  }
  external_raise = old; extern_sp = stack_high - sp; c_roots_head = loc;
  *res = exn_bucket;
  return 1;
}
/* run threaded code from the current extern_sp; 1: an exception left the code */
long vf_exec(CODE code, value *res) {
  struct longjmp_buffer buf, *old = external_raise;
  value *loc = c_roots_head;
  CODE c = code;
  if (setjmp(buf.buf) == 0) {
    external_raise = &buf;
    *res = interprete(2, NULL, 0, &c);
    external_raise = old;
    return 0;
  }
  external_raise = old; c_roots_head = loc;
  *res = exn_bucket;
  return 1;
}
/* recorders standing in for C primitives */
long vf_args[256]; long vf_nargs; value vf_res; long vf_sp;
value vf_p0(a, b, c, d, e) value a, b, c, d, e; {
  vf_args[0] = a; vf_args[1] = b; vf_args[2] = c; vf_args[3] = d; vf_args[4] = e; vf_nargs = 0; vf_sp = (long) extern_sp; return vf_res; }
value vf_p1(a, b, c, d, e) value a, b, c, d, e; {
  vf_args[0] = a; vf_args[1] = b; vf_args[2] = c; vf_args[3] = d; vf_args[4] = e; vf_nargs = 1; vf_sp = (long) extern_sp; return vf_res; }
value vf_pn(value *p, int n) {
  long i; for (i = 0; i < n && i < 256; i++) vf_args[i] = p[i]; vf_nargs = n; vf_sp = (long) extern_sp; return vf_res; }
'''


def so():
    """builds (once per run) and returns the path of the shared library"""
    d = build.src_copy() + "/runtime"
    out = os.path.join(build.scratch(), "librt.so")
    if os.path.exists(out):
        return out
    import re
    mk = open(d + "/Makefile").read().replace("\\\n", " ")
    m = re.search(r"^BASEOBJS=(.*)$", mk, re.M)
    objs = m.group(1).split()
    m = re.search(r"^[ \t]*ADDOBJS=(.*)$", open(d + "/../Makefile.inc").read(), re.M)
    objs += [o for o in (m.group(1).split() if m else []) if os.path.exists(os.path.join(d, o.replace(".o", ".c")))]
    od = os.path.join(build.scratch(), "pic")
    os.makedirs(od, exist_ok=True)
    open(d + "/vf_shim.c", "w").write(SHIM)
    opts = ["-O3", "-fPIC", "-Dunix", "-DTHREADED", "-w", "-Dmain=mosml_main"]
    jobs = []
    for o in objs + ["prims.o", "vf_shim.o"]:
        c = o.replace(".o", ".c")
        jobs.append(["gcc"] + opts + ["-c", c, "-o", os.path.join(od, o)])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: build.run(c, cwd=d), jobs))
    build.run(["gcc", "-shared", "-Wl,-Bsymbolic", "-o", out] + [os.path.join(od, o) for o in objs + ["prims.o", "vf_shim.o"]] + ["-lm", "-ldl"])
    return out


U = (1 << 64) - 1


def s64(v):
    v &= U
    return v - (1 << 64) if v >> 63 else v


class RT:
    """one initialised runtime (use in a forked child only)"""

    def __init__(self, minor=32768, chunk=64 * 1024, percent=80, nroots=64, own=False):
        path = so()
        if own:          # an instance of the runtime with variables of its own
            path = os.path.join(build.scratch(), "librt-%d.so" % os.getpid())
            if not os.path.exists(path):
                shutil.copy(so(), path)
        self.lib = C.CDLL(path, mode=os.RTLD_NOW | os.RTLD_LOCAL | 0x8)   # RTLD_DEEPBIND
        L = self.lib
        os.environ.setdefault("LC_ALL", "C")
        self.sym_cache = {}
        L.init_gc(C.c_ulong(minor), C.c_ulong(chunk), C.c_int(percent), C.c_int(0))
        L.init_stack()
        fa = self.symaddr("first_atoms")
        for i in range(256):
            self.poke(fa + 8 * i, i)       # Make_header(0, i, White)
        f = L.vf_setroots
        f.restype = C.c_long
        self.rootaddr, self.nroots = f(C.c_long(nroots)) & U, nroots
        self.used_roots = 0
        # a global data table with 64 distinguishable exception names
        gd = self.c("alloc_shr", 256, 0)
        for i in range(256):
            self.poke(gd + 8 * i, 1)
        self.setsym("global_data", gd)
        for i in range(64):
            r = self.c("alloc_shr", 1, 0)
            self.poke(r, 2 * (1000 + i) + 1)
            self.poke(gd + 8 * i, r)
        self.gd = gd
        self.interp_ready = False

    # raw access
    def fn(self, name, restype=C.c_long):
        f = getattr(self.lib, name)
        f.restype = restype
        return f

    def c(self, name, *args):
        """unguarded call, long arguments"""
        return self.fn(name)(*[C.c_long(s64(a)) for a in args]) & U

    def sym(self, name, size=8):
        return int.from_bytes(C.string_at(self.symaddr(name), size), "little")

    def symaddr(self, name):
        a = self.sym_cache.get(name)
        if a is None:
            a = self.sym_cache[name] = C.addressof(C.c_char.in_dll(self.lib, name))
        return a

    def setsym(self, name, v, size=8):
        C.memmove(self.symaddr(name), (v & ((1 << 8 * size) - 1)).to_bytes(size, "little"), size)

    def peek(self, a, n=8):
        return int.from_bytes(C.string_at(a, n), "little")

    def bytes(self, a, n):
        return C.string_at(a, n)

    def poke(self, a, v, n=8):
        C.memmove(a, (v & ((1 << 8 * n) - 1)).to_bytes(n, "little"), n)

    def pokes(self, a, b):
        C.memmove(a, bytes(b), len(b))

    # guarded call
    def call(self, name, *args):
        """-> ("ok", value) | ("exn", index|None, argument)"""
        return self.callp(getattr(self.lib, name), *args)

    def callp(self, f, *args):
        a = (C.c_long * max(1, len(args)))(*[s64(x) for x in args])
        res = C.c_long()
        k = self.lib.vf_call(f, C.c_long(len(args)), a, C.byref(res))
        if k == 0:
            return ("ok", res.value & U)
        return self.decode_exn(res.value & U)

    def decode_exn(self, b):
        nm = self.peek(b)
        idx = None
        for i in range(64):
            if self.peek(self.gd + 8 * i) == nm:
                idx = i
        return ("exn", idx, self.peek(b + 8))

    # ML values
    def hdr(self, v):
        return self.peek(v - 8)

    def string(self, b):
        v = self.c("alloc_string", len(b))
        self.pokes(v, b)
        return v

    def strval(self, v):
        h = self.hdr(v)
        n = (h >> 10) * 8
        return self.bytes(v, n - 1 - self.bytes(v + n - 1, 1)[0])

    def double(self, d):
        bits = struct.unpack("<Q", struct.pack("<d", d))[0]
        return self.double_bits(bits)

    def double_bits(self, bits):
        f = self.fn("copy_double")
        return f(C.c_double(struct.unpack("<d", struct.pack("<Q", bits))[0])) & U

    def keep(self, v):
        """registers v as a root; returns its index"""
        i = self.used_roots
        self.poke(self.rootaddr + 8 * i, v)
        self.used_roots += 1
        return i

    def root(self, i):
        return self.peek(self.rootaddr + 8 * i)

    def dblval(self, v):
        return struct.unpack("<d", self.bytes(v, 8))[0]

    def block(self, tag, fields):
        n = len(fields)
        v = self.c("alloc_shr", n, tag)
        for i, x in enumerate(fields):
            self.c("initialize", v + 8 * i, x)
        return v

    def exec(self, code):
        """runs threaded code at address `code`: (0|1, value)"""
        res = C.c_long()
        k = self.lib.vf_exec(C.c_void_p(code), C.byref(res))
        return k, res.value & U


def local_symbols():
    """name -> (offset, size) of every symbol of the library, local ones included"""
    r = build.run(["nm", "-S", so()])
    out = {}
    for l in r.stdout.decode().splitlines():
        p = l.split()
        if len(p) == 4:
            out[p[3]] = (int(p[0], 16), int(p[1], 16))
    return out


def tag(i):
    return (2 * i + 1) & U


def untag(v):
    return s64(v) >> 1
