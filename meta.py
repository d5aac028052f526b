#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run `python3 meta.py` after editing."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
RT = "src/runtime/"
P = []       # properties
NA = []      # not applicable


def prop(id, module, title, statement, over, quant, why, files, mech, state=(), observe=(), level="proof", note="", technique=None):
    P.append(dict(id=id, module=module, level=level, note=note,
                  technique=technique or "contracts on the real code, weakest-precondition style VCs over its LLVM IR, discharged by z3",
                  p={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
                     "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                 "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe)}}))


def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, None, title, statement, over, quant, why, files, mech)
    NA.append({"property": id, "reason": reason})


IRNOTE = ("Every path of every listed instruction/function is symbolically executed from LLVM IR compiled from the working tree on each run, against a "
          "contract; all inputs, no bound. Trusted: the IR semantics in irv/, z3, clang -O0; assumed contracts of callees and the "
          "memory layout assumptions are listed in the evidence file. A concrete conformance run of the same contracts on the native build "
          "supplies failing inputs; it is bounded and not counted as proof.")

exec(open(os.path.join(V, "meta_props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["p"]) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "VERIF_HOOKS (not used: no instrumentation was needed)", "enable": "nothing to enable", "source_commits": []},
       "checks": [{"property": p["id"], "quick_cmd": "python3-vt run.py %s --tier quick" % p["module"],
                   "thorough_cmd": "python3-vt run.py %s --tier thorough" % p["module"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
                   "level_note": p["note"]} for p in P if p["module"]],
       "not_applicable": NA,
       "notes": "properties.jsonl and MANIFEST.json are generated by meta.py from meta_props.py"}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
