"""Runs Verus on the translation of one library unit."""
import json
import os
import re
import subprocess
import time

from irv import build

from . import std
from .trans import Contract, Module, exname

VERUS = "verus"
CPP = ["cpp", "-P", "-traditional", "-Dunix", "-Umsdos", "-Wno-invalid-pp-token"]


def source(name):
    d = build.src_copy() + "/mosmllib/"
    if os.path.exists(d + name + ".mlp"):
        r = build.run(CPP + [name + ".mlp"], cwd=d)
        return r.stdout.decode("latin1"), name + ".mlp"
    return open(d + name + ".sml", encoding="latin1").read(), name + ".sml"


class VFile:
    def __init__(self, mod, spec, group=True):
        self.lines, self.map = [], {}      # line number -> (key, part)
        P = std.PRELUDE % {"exns": ", ".join(exname(x) + ("(int)" if x in () else "") for x in mod.exns)}
        names = ["vstd::seq_lib::group_seq_properties"] if group else []
        for m in re.finditer(r"^broadcast use \{(.*?)\};\n", spec, re.M):
            names += [x.strip() for x in m.group(1).split(",") if x.strip()]
        spec = re.sub(r"^broadcast use \{(.*?)\};\n", "", spec, flags=re.M)
        self.put(P, None)
        for d in mod.datas:
            self.put(d, None)
        self.put("pub mod unit { use super::*;\nbroadcast use {%s};\n" % ", ".join(names), None)
        self.put(spec, ("<spec>", "spec"))
        for key in mod.order:
            c = mod.contracts[key]
            if key in mod.errors:
                self.stub(mod, c)
                continue
            L = mod.out.get(key)
            if L is None:
                mod.errors.setdefault(key, "not translated")
                self.stub(mod, c)
                continue
            for part, txt in L:
                self.put(txt, (key, part))
        self.put("}\npub use unit::*;\nfn main() {}\n} // verus!", None)

    def put(self, txt, tag):
        for l in txt.split("\n"):
            self.lines.append(l)
            if tag:
                self.map[len(self.lines)] = tag

    def stub(self, mod, c):
        """a function that could not be translated: its contract is assumed for the callers"""
        from .trans import IR
        try:
            L = mod.emit_function(c, IR("fail", "stub"))
        except Exception:
            return
        self.put("#[verifier::external_body]", None)
        body = False
        for part, txt in L:
            if part in ("body", "pre", "post") or txt.strip() in ("ret__", "r__"):
                continue
            self.put(txt + (" unimplemented!()" if txt.strip() == "{" else ""), ("<stub>" + c.key, part))

    def text(self):
        return "\n".join(self.lines)


def verus(vf, path, rlimit=30, threads=4, timeout=800):
    open(path, "w").write(vf.text())
    t0 = time.time()
    p = subprocess.run([VERUS, os.path.basename(path), "--output-json", "--multiple-errors", "10", "--rlimit", str(rlimit), "--num-threads", str(threads), "--time",
                        "--", "--error-format=json"], cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    errs = []
    for l in p.stderr.decode("utf8", "replace").splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error" and d.get("spans"):
                errs.append(d)
            elif d.get("level") == "error":
                errs.append(d)
    try:
        out = json.loads(p.stdout.decode())
    except Exception:
        out = {}
    return p.returncode, out, errs, time.time() - t0, p.stderr.decode("utf8", "replace")


REJECT = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied", "decreases not satisfied",
          "could not prove termination", "split assertion failure", "unable to prove", "requires not satisfied", "split precondition failure",
          "split postcondition failure", "recommendation not met")


def locate(vf, d):
    """(key, part, line) of the primary and the most specific span"""
    prim, sec = None, None
    for s in d.get("spans", []):
        ln = s["line_start"]
        tag = vf.map.get(ln)
        if tag is None:
            continue
        if s.get("is_primary"):
            prim = prim or (tag[0], tag[1], ln)
        else:
            sec = sec or (tag[0], tag[1], ln)
    return prim, sec


def verify(name, contracts, spec, opts=None, keep=None, rlimit=30, threads=4, builtins=None, tymap=None, lemmas=(), group=True):
    """-> dict for check.py: obligations per contract clause"""
    opts = opts or {}
    src, fname = source(name)
    mod = Module(name, src, contracts, tymap=tymap, builtins=builtins)
    mod.run()
    dirs = os.path.join(build.scratch(), "verus")
    os.makedirs(dirs, exist_ok=True)
    path = keep or os.path.join(dirs, re.sub(r"\W", "_", name) + "_%d.rs" % os.getpid())
    total = 0.0
    for attempt in range(6):
        vf = VFile(mod, spec, group)
        rc, out, errs, dt, raw = verus(vf, path, rlimit, threads)
        total += dt
        vr = out.get("verification-results") or {}
        if vr.get("encountered-vir-error") or "verified" not in vr or (rc and not vr.get("errors")):
            # a Rust/VIR level error: the function it is in no longer fits its contract
            bad = set()
            for d in errs:
                prim, sec = locate(vf, d)
                for t in (prim, sec):
                    if t and not t[0].startswith("<"):
                        bad.add((t[0], d.get("message", "")[:150]))
                        break
            if not bad:
                raise RuntimeError("verus failed on %s: %s" % (name, "\n".join("%s | %s" % (d.get("message", "")[:200], " <- ".join(vf.lines[x["line_start"] - 1].strip()[:250] for x in d.get("spans", [])[:3])) for d in errs[:6]) or raw[-600:]))
            for k, why in bad:
                mod.errors[k] = "the translation does not fit the contract: " + why
            continue
        break
    else:
        raise RuntimeError("verus failed on " + name)
    fails = {}
    for d in errs:
        msg = d.get("message", "")
        if not d.get("spans"):
            continue
        prim, sec = locate(vf, d)
        t = prim or sec
        if t is None:
            continue
        fails.setdefault(t[0], []).append((msg, prim, sec, d))
    obls = []
    for key in mod.order:
        c = mod.contracts[key]
        if key in mod.errors:
            continue
        fs = fails.get(key, [])
        parts = ["ens%d" % (i + 1) for i in range(len(c.ens))] + ["body"] + (["dec"] if c.dec else [])
        hit = {}
        for msg, prim, sec, d in fs:
            unk = not any(x in msg for x in REJECT)
            part = "body"
            for x in (prim, sec):
                if x and x[0] == key and x[1].startswith("ens"):
                    part = x[1]
            if "decreases" in msg or "termination" in msg:
                part = "dec" if c.dec else "body"
            lines = [vf.lines[s["line_start"] - 1].strip()[:160] for s in d.get("spans", [])]
            hit.setdefault(part, []).append(("unknown" if unk else "failed", msg, lines))
        for p in parts:
            nm = "%s.%s: %s" % (name, key, {"body": "calls, accesses, matches", "dec": "termination"}.get(p, "ensures " + oneline(c.ens[int(p[3:]) - 1])[:120] if p.startswith("ens") else p))
            if p in hit:
                st = "failed" if any(h[0] == "failed" for h in hit[p]) else "unknown"
                obls.append((nm, st, 0, "verus/z3", None, "; ".join("%s at %s" % (h[1], " <- ".join(h[2])) for h in hit[p])[:600]))
            else:
                obls.append((nm, "proved", 0, "verus/z3", None, None))
    nspec = len(fails.get("<spec>", []))
    for msg, prim, sec, d in fails.get("<spec>", []):
        obls.append(("%s lemma at line %d" % (name, prim[2] if prim else 0), "unknown", 0, "verus/z3", None, "%s: %s" % (msg, vf.lines[prim[2] - 1].strip() if prim else "")))
    smt = ((out.get("times-ms") or {}).get("smt") or {})
    return {"obls": obls, "functions": ["%s.%s" % (name, k) for k in mod.order if k not in mod.errors], "contracts": [], "solver_s": smt.get("total", 0) / 1000.0,
            "loops": [], "unattached": dict(mod.errors), "verified": vr.get("verified"), "errors": vr.get("errors"), "notes": mod.notes, "wall": round(total, 1), "rs": path}


def oneline(s):
    return " ".join(s.split())


def verify_unit(u, keep=None, threads=4):
    return verify(u.NAME, u.CONTRACTS, u.SPEC, keep=keep, rlimit=getattr(u, "RLIMIT", 30), threads=threads,
                  builtins=getattr(u, "BUILTINS", None), tymap=getattr(u, "TYMAP", None), group=getattr(u, "GROUP", True))
