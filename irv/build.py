"""Compiles the C sources of /repo's current working tree: to LLVM IR for the verifier, and natively for replays."""
import atexit
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
_tmp = None

CLANG_FLAGS = ["-std=gnu89", "-w", "-Dunix", "-DTHREADED", "-fPIC", "-O0", "-Xclang", "-disable-O0-optnone", "-fwrapv",
               "-fno-strict-aliasing", "-fno-builtin-malloc", "-S", "-emit-llvm"]
OPT_PASSES = "function(mem2reg,sroa,simplifycfg)"


class BuildError(Exception):
    pass


def scratch():
    global _tmp
    if _tmp is None:
        base = "/verif/.work" if os.access("/verif", os.W_OK) else tempfile.gettempdir()
        os.makedirs(base, exist_ok=True)
        _tmp = tempfile.mkdtemp(prefix="w", dir=base)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(clean)
    return _tmp


def run(cmd, cwd=None, timeout=600, env=None, check=True, stdin=subprocess.DEVNULL):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env,
                       stdin=stdin)
    if check and r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), (r.stdout + r.stderr).decode("latin1")[-3000:]))
    return r


def src_copy():
    """a private copy of /repo/src with the generated headers of src/config and src/runtime"""
    d = os.path.join(scratch(), "src")
    if os.path.isdir(d):
        return d
    shutil.copytree(os.path.join(REPO, "src"), d, symlinks=True,
                    ignore=shutil.ignore_patterns("*.o", "*.ui", "*.uo", "test"))
    for root, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            if not os.path.islink(p):
                os.utime(p, (1600000000, 1600000000))
    env = dict(os.environ, LC_ALL="C")
    for k in ("MAKEFLAGS", "MFLAGS", "MAKELEVEL"):
        env.pop(k, None)
    run(["make", "-C", d + "/config", "all", "CC=gcc", "PREFIX=/nonexistent"], env=env)
    run(["make", "-C", d + "/runtime", "jumptbl.h", "opnames.h", "prims.c", "CC=gcc", "PREFIX=/nonexistent"], env=env)
    return d


def ir_of(name, subdir="runtime", extra=()):
    """textual IR of one C file, after mem2reg/sroa/simplifycfg"""
    d = src_copy()
    cdir = os.path.join(d, subdir)
    out = os.path.join(scratch(), "%s_%s" % (subdir.replace("/", "_"), name.replace(".c", "")))
    if not os.path.exists(out + ".opt.ll"):
        run([LLVM + "/clang"] + CLANG_FLAGS + list(extra) + [name, "-o", out + ".ll"], cwd=cdir)
        run([LLVM + "/opt", "-S", "-passes=" + OPT_PASSES, out + ".ll", "-o", out + ".opt.ll"])
    return open(out + ".opt.ll").read()


def native_runtime():
    """directory with the runtime objects built by the project's own Makefile (gcc -O3, as shipped)"""
    d = src_copy()
    if not os.path.exists(d + "/runtime/camlrunm"):
        env = dict(os.environ, LC_ALL="C")
        for k in ("MAKEFLAGS", "MFLAGS", "MAKELEVEL"):
            env.pop(k, None)
        run(["make", "-j8", "-C", d + "/runtime", "all", "CC=gcc", "PREFIX=/nonexistent"], env=env, timeout=800)
    return d + "/runtime"


_consts = None


def constants():
    """the values of the ML representation constants, from the headers of the current tree"""
    global _consts
    if _consts is None:
        names = ["No_scan_tag", "Closure_tag", "Reference_tag", "Double_tag", "String_tag", "Abstract_tag", "Final_tag",
                 "Double_wosize", "Max_young_wosize", "Max_wosize", "Page_size", "Page_log", "White", "Gray", "Blue", "Black",
                 "Weak_tag", "Arraylike_tag", "Infix_tag", "Phase_mark", "Phase_weak", "Phase_sweep", "In_heap"]
        d = src_copy() + "/runtime"
        src = '#include "mlvalues.h"\n#include "config.h"\n#include "gc.h"\n#include "misc.h"\n#include "major_gc.h"\n'
        for n in names:
            src += '#ifdef %s\nlong vf_%s = (long)(%s);\n#endif\n' % (n, n, n)
        f = os.path.join(scratch(), "consts.c")
        open(f, "w").write(src)
        r = run([LLVM + "/clang", "-w", "-Dunix", "-DTHREADED", "-I", d, "-S", "-emit-llvm", f, "-o", "-"])
        import re
        _consts = {m.group(1): int(m.group(2)) for m in re.finditer(r"@vf_(\w+) =.*? i64 (-?\d+)", r.stdout.decode())}
    return _consts
