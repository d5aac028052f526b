"""Check driver: verifier jobs -> verdict, evidence, replay."""
import importlib
import json
import mmap
import os
import signal
import struct
import sys
import time
import traceback

from . import build, pool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "KNOWN-FINDINGS.txt")


class Job:
    """one verification task: fn() -> dict(obls=[...], functions=[...], contracts=[...], ...)"""

    def __init__(self, name, fn, limit=120, hint=None):
        self.name, self.fn, self.limit, self.hint = name, fn, limit, hint


def engine_result(eng, extra=None):
    out = {"obls": [(o.name, o.status, round(o.t, 3), o.engine, o.model, o.info) for o in eng.obls],
           "functions": sorted(eng.executed), "contracts": sorted(eng.used_contracts), "solver_s": eng.solver_s,
           "loops": eng.loopinfo}
    if extra:
        out.update(extra)
    return out


def merge_results(rs):
    out = {"obls": [], "functions": [], "contracts": [], "solver_s": 0, "loops": []}
    for r in rs:
        for k in ("obls", "functions", "contracts", "loops"):
            out[k] += r.get(k, [])
        out["solver_s"] += r.get("solver_s", 0)
    return out


# ------------------------------------------------------------------ concrete cases
def run_cases(make_runner, cases, limit=120, per_case=20, nproc=6):
    """runs the cases on the real code in forked children.
    make_runner() -> f(case) -> None (ok) or a description of the failure.  A crash is a failure."""
    chunks = [[] for _ in range(max(1, min(nproc, (len(cases) + 39) // 40)))]
    for i, c in enumerate(cases):
        chunks[i % len(chunks)].append(c)
    t_end = time.time() + limit

    def worker(chunk):
        fails, done, pos, skipped = [], 0, 0, 0
        while pos < len(chunk) and time.time() < t_end:
            mm = mmap.mmap(-1, 16)
            rest = chunk[pos:]

            def child():
                f = make_runner()
                bad = []
                for i, c in enumerate(rest):
                    if time.time() > t_end:
                        return bad, i
                    mm[0:8] = struct.pack("<q", i + 1)
                    mm[8:16] = struct.pack("<d", time.time())
                    signal.alarm(per_case)
                    r = f(c)
                    signal.alarm(0)
                    if r is not None:
                        bad.append((c, r))
                        if len(bad) > 40:
                            return bad, i + 1
                return bad, len(rest)
            p = pool._P(child, 1e9)
            buf = b""
            while True:
                d = os.read(p.fd, 1 << 20)
                if not d:
                    break
                buf += d
            st = p.reap()
            import pickle
            try:
                r = pickle.loads(buf)
            except Exception:
                r = None
            if r is not None and r[0] == "ok":
                bad, n = r[1]
                fails += bad
                done += n
                pos += n
                if n < len(rest):
                    break
            else:
                at = struct.unpack("<q", mm[0:8])[0]
                if at == 0:
                    return fails, done, ("runner", r[1:] if r else st)
                c = rest[at - 1]
                if r is not None:
                    return fails, done, ("runner", r[1:])
                sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
                what = "does not terminate within %d s" % per_case if sig == signal.SIGALRM else \
                    "the process dies (%s)" % ("signal %d" % sig if sig else "exit %d" % os.WEXITSTATUS(st))
                fails.append((c, what))
                done += at
                pos += at
                if len(fails) > 60:
                    break
        return fails, done, None
    rs = pool.run_all([(i, (lambda ch=ch: worker(ch)), limit + 60) for i, ch in enumerate(chunks)], nproc)
    fails, done, err = [], 0, None
    for i in range(len(chunks)):
        r = rs[i]
        if r[0] == "ok":
            fails += r[1][0]
            done += r[1][1]
            err = err or r[1][2]
        else:
            err = err or r
    return fails, done, err


def known_findings(prop):
    """[(key, text)]: the case keys recorded as known defects"""
    out = []
    try:
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                _, _, key, text = l.split(" ", 3)
                if key.startswith("case="):
                    out.append((key[5:], text))
    except OSError:
        pass
    return out


def case_key(c):
    return json.dumps(c, separators=(",", ":"), sort_keys=True).replace(" ", "_") if not isinstance(c, str) else c.replace(" ", "_")


def run_check(modname, tier, only=None):
    t0 = time.time()
    mod = importlib.import_module("checks." + modname)
    prop = mod.PROP
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rc = _run(mod, prop, tier, seed, t0, only)
    except Exception as e:
        traceback.print_exc()
        # the machinery itself failed (for instance the tree does not compile): no verdict is possible
        write_evidence(prop, tier, seed, {"explanation": "the check could not run: %s" % e, "obligations": 0,
                                          "discharged": 0, "checker_cmd": "-", "trusted_base": []}, t0, 0,
                       getattr(mod, "ASSUMPTIONS", []), "other")
        print("CHECK-NOTE property=%s the check could not be carried out: %s" % (prop, str(e)[:300]))
        rc = 2
    return rc


def write_evidence(prop, tier, seed, cov, t0, viol, assumptions, level):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": viol}
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % prop))


def _run(mod, prop, tier, seed, t0, only):
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    jobs = mod.jobs(tier)
    if only:
        jobs = [j for j in jobs if only in j.name]
    verbose = bool(os.environ.get("VERBOSE"))
    results = {}

    def done(tag, r, dt):
        if verbose:
            s = r[0] if r[0] != "ok" else "%d obligations" % len(r[1]["obls"])
            bad = [] if r[0] != "ok" else [o for o in r[1]["obls"] if o[1] != "proved"]
            print("  job %-40s %6.1fs %s%s" % (tag, dt, s, "".join("\n      %s: %s %s %s" % (o[0], o[1], o[4], str(o[5])[:400])
                                                              for o in bad)))
            if r[0] == "exc":
                print(r[3] if verbose and os.environ["VERBOSE"] == "2" else "      %s: %s" % (r[1], r[2]))
            sys.stdout.flush()
    # the concrete conformance cases run beside the verifier
    results = pool.run_all([(j.name, j.fn, j.limit) for j in jobs], int(os.environ.get("NPROC", "8")), done)
    obls, functions, contracts, loops, solver_s = [], set(), set(), [], 0.0
    bounded, failed, vac, unknown = [], [], [], []
    backends = {}
    samples = []
    assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    extras = {}
    for j in jobs:
        r = results[j.name]
        if r[0] != "ok":
            why = {"timeout": "job limit of %ss reached" % j.limit}.get(r[0], "%s" % (" ".join(str(x) for x in r[1:3])))
            bounded.append({"unit": j.name, "reason": why[:300]})
            unknown.append(((j.name, "unknown", 0, "-", None, None), j))
            continue
        r = r[1]
        functions |= set(r.get("functions", []))
        contracts |= set(r.get("contracts", []))
        loops += r.get("loops", [])
        solver_s += r.get("solver_s", 0)
        for k, v in r.get("extra", {}).items():
            extras.setdefault(k, []).append(v)
        for o in r["obls"]:
            o = (j.name + ": " + o[0],) + tuple(o[1:])
            obls.append(o)
            if o[1] == "proved":
                backends[o[3]] = backends.get(o[3], 0) + 1
            elif o[1] == "failed":
                failed.append((o, j))
            elif o[1] == "vacuous":
                vac.append(o[0])
                bounded.append({"unit": o[0], "reason": "the precondition became unsatisfiable (vacuous)"})
            else:
                unknown.append((o, j))
                bounded.append({"unit": o[0], "reason": "solver gave no answer (%s)" % o[1]})
        if not r["obls"]:
            bounded.append({"unit": j.name, "reason": "no obligation was generated"})
    # ---- concrete conformance / counterexample replay on the real code
    models = []
    for o, j in failed + unknown:
        models.append({"job": j.name, "hint": j.hint, "obligation": o[0], "model": o[4], "info": o[5]})
    tc = time.time()
    cfails, ndone, cerr, ncases = [], 0, None, 0
    sample_cases = []
    if hasattr(mod, "cases") and not only:
        cs = mod.cases(tier, seed, models, bool(failed or bounded))
        ncases = len(cs)
        sample_cases = [json.dumps(c, default=str)[:400] for c in cs[:: max(1, len(cs) // 5)][:5]]
        cfails, ndone, cerr = run_cases(mod.runner, cs, limit=getattr(mod, "CASE_LIMIT", 100 if tier == "quick" else 400))
        if cerr:
            bounded.append({"unit": "concrete conformance runs", "reason": str(cerr)[:600]})
    known = known_findings(prop)
    kf = set()
    new = []
    for c, why in cfails:
        k = mod.key(c) if hasattr(mod, "key") else case_key(c)
        hit = [t for kk, t in known if kk == k]
        if hit:
            kf.add(hit[0])
        else:
            new.append((c, why))
    for t in sorted(kf):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    # obligations covered by a known finding are excluded by the contract itself (see DESIGN.md)
    nproved = sum(1 for o in obls if o[1] == "proved")
    viol = 0
    lines = []
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    if new:
        viol = len(new)
        path = os.path.join(VERIF, "replay", "%s.json" % prop)
        json.dump({"property": prop, "module": mod.__name__.split(".")[-1], "cases": [c for c, _ in new[:20]],
                   "observed": [w for _, w in new[:20]],
                   "failed_obligations": [{"name": o[0], "model": o[4], "engine": o[3], "info": o[5]} for o, _ in failed[:20]],
                   "how_to_replay": "python3-vt run.py --replay %s" % path}, open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        for c, w in new[:5]:
            print("  failing input %s: %s" % (json.dumps(c, default=str)[:300], str(w)[:500]))
    elif failed:
        viol = len(failed)
        path = os.path.join(VERIF, "replay", "%s.json" % prop)
        json.dump({"property": prop, "module": mod.__name__.split(".")[-1], "cases": [],
                   "failed_obligations": [{"name": o[0], "model": o[4], "engine": o[3], "info": o[5]} for o, _ in failed[:50]],
                   "note": "the verifier rejects the listed obligations; no input of the real code was found that shows it"},
                  open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    for o, _ in failed[:8]:
        print("  failed obligation: %s  counterexample %s" % (o[0], json.dumps(o[4], default=str)[:300]))
    for b in bounded[:12]:
        print("  not discharged (bounded stand-in applies): %s -- %s" % (b["unit"], b["reason"]))
    level = getattr(mod, "LEVEL", "proof")
    step = max(1, len(obls) // 6)
    cov = {"obligations": len(obls), "discharged": nproved,
           "checker_cmd": "python3-vt run.py %s --tier %s" % (mod.__name__.split(".")[-1], tier),
           "trusted_base": list(getattr(mod, "TRUSTED", [])) + ["irv: LLVM-IR semantics (irv/sem.py), z3 %s" % _z3ver(),
                                                               "clang 18 -O0 + mem2reg/sroa/simplifycfg"]
           if not getattr(mod, "TRUSTED_ONLY", False) else list(getattr(mod, "TRUSTED", [])),
           "functions_under_contract": sorted(functions), "callee_contracts_used": sorted(contracts),
           "discharged_by": backends, "solver_s": round(solver_s, 1), "loops": loops[:60],
           "bounded_stand_ins": bounded[:100], "vacuity_covers": sum(1 for o in obls if "cover:" in o[0]),
           "conformance_runs_on_the_real_code": {"bounded": True, "cases": ncases, "executed": ndone,
                                                 "failures": len(cfails), "seconds": round(time.time() - tc, 1),
                                                 "samples": sample_cases},
           "evaluations": ndone, "samples": [{"obligation": o[0], "status": o[1], "seconds": o[2], "backend": o[3]}
                                             for o in obls[::step][:8]],
           "explanation": getattr(mod, "EXPLANATION", ""),
           "known_findings_seen": sorted(kf)}
    for k, v in extras.items():
        cov[k] = v[:50]
    write_evidence(prop, tier, seed, cov, t0, viol, assumptions, level)
    print("%s: %d/%d obligations discharged, %d bounded stand-ins, %d/%d conformance cases, %.1fs"
          % (prop, nproved, len(obls), len(bounded), ndone, ncases, time.time() - t0))
    for l in lines:
        print(l)
    return 1 if lines else 0


def _z3ver():
    import z3
    return z3.get_version_string()


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module("checks." + d["module"])
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    if not d["cases"]:
        print("no concrete input; failed obligations:")
        print(json.dumps(d["failed_obligations"], indent=1))
        return 0
    fails, done, err = run_cases(mod.runner, d["cases"])
    for c, w in fails:
        print("fails: %s\n   %s" % (json.dumps(c), w))
    print("%d of %d cases fail %s" % (len(fails), len(d["cases"]), err or ""))
    return 1 if fails else 0
