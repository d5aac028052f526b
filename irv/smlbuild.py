"""The library and compiler of the current tree, built privately; conformance drivers in Standard ML."""
import os
import re
import shutil
import subprocess

from . import build

CONF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "conf")


def _env():
    env = dict(os.environ, LC_ALL="C")
    for k in ("MAKEFLAGS", "MFLAGS", "MAKELEVEL"):
        env.pop(k, None)
    return env


def library():
    """directory of the source copy, with runtime and library units built by the project's Makefiles and bootstrap compiler"""
    rt = build.native_runtime()
    d = build.src_copy()
    if not os.path.exists(d + "/.lib_done"):
        shutil.copy(rt + "/camlrunm", d + "/camlrunm")
        build.run(["make", "-j8", "-C", d + "/mosmllib", "all", "CC=gcc"], env=_env(), timeout=600)
        open(d + "/.lib_done", "w").close()
    return d


def driver(name, units=(), prefix=True):
    """compiles conf/NAME.sml -> path of the bytecode file"""
    d = library()
    w = os.path.join(build.scratch(), "drv_" + name)
    out = os.path.join(w, "drv")
    if os.path.exists(out):
        return out
    os.makedirs(w, exist_ok=True)
    txt = open(os.path.join(CONF, name + ".sml")).read()
    if prefix:
        txt = open(os.path.join(CONF, "Lib.sml")).read() + txt
    open(os.path.join(w, "drv.sml"), "w").write(txt)
    cmd = [d + "/camlrunm", d + "/mosmlcmp", "-stdlib", d + "/mosmllib", "-P", "default", "-I", d + "/mosmllib"]
    build.run(cmd + ["drv.sml"], cwd=w, env=_env())
    build.run([d + "/camlrunm", d + "/mosmllnk", "-stdlib", d + "/mosmllib", "-P", "default", "-noheader", "drv.uo", "-o", "drv"], cwd=w, env=_env())
    return out


def names(name):
    txt = open(os.path.join(CONF, name + ".sml")).read()
    return re.findall(r"\(\*T\*\)\s*\(\"([^\"]+)\"", txt)


def run_driver(path, test, seed, timeout=60):
    d = build.src_copy()
    try:
        r = subprocess.run([d + "/camlrunm", path, test, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                           timeout=timeout, env=_env(), cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired as e:
        return "does not terminate within %d s; output so far: %s" % (timeout, (e.stdout or b"").decode("latin1")[-300:]), 0
    out = r.stdout.decode("latin1")
    fails = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
    m = re.search(r"^DONE (\d+)", out, re.M)
    if fails:
        return "; ".join(fails)[:1500], int(m.group(1)) if m else 0
    if not m:
        return "the program stops with status %d: %s" % (r.returncode, (out + r.stderr.decode("latin1"))[-400:]), 0
    return None, int(m.group(1))
