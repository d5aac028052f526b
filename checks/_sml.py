"""Checks on library units: contracts on the Standard ML source, verified by Verus, and conformance runs of the compiled units."""
import importlib
import json
import os

from irv import smlbuild
from irv.check import Job
from smlv import run as smlrun

COMMON = ["smlv: the mechanical translation of Standard ML functions to Verus proof functions (smlv/trans.py; see DESIGN.md for what it drops), "
          "including the meaning it gives to the initial basis and C primitives (smlv/std.py)",
          "Verus 0.2026.09.13 and z3, with vstd's sequence and multiset lemmas"]
ASSUME = ["integers of the SML code are mathematical in these contracts unless stated: an Overflow exception needs lists, strings or counters of more than 2^62 elements",
          "stack and heap are large enough; Interrupt does not arrive during the call",
          "the compiler translates the library source correctly (the conformance runs use the real compiler)"]


def setup(g, prop, units, drivers, title, assumptions=(), explanation="", limit=400, threads=4, seeds=3):
    g["PROP"] = prop
    g["LEVEL"] = "proof"
    g["TRUSTED_ONLY"] = True
    g["TRUSTED"] = COMMON
    g["ASSUMPTIONS"] = list(assumptions) + ASSUME
    g["EXPLANATION"] = explanation or ("Every function listed under functions_under_contract carries a contract; its SML source text in the current tree is translated to a Verus "
                                       "proof function and Verus discharges each ensures clause, each callee precondition, absence of match failure and of undeclared exceptions, "
                                       "memory safety of primitive accesses, and termination, for all inputs. Conformance runs of the compiled units against naive references are "
                                       "bounded, look for failing inputs, and are not counted as proof.")

    def job(u):
        def f():
            m = importlib.import_module("contracts." + u)
            r = smlrun.verify_unit(m, threads=threads)
            for k, why in r["unattached"].items():
                r["obls"].append(("%s.%s: contract attached" % (m.NAME, k), "unknown", 0, "-", None, why))
            r["extra"] = {"verus": {"unit": m.NAME, "verified": r["verified"], "errors": r["errors"], "seconds": r["wall"], "notes": r["notes"]}}
            return r
        return Job(u, f, limit)
    g["jobs"] = lambda tier: [job(u) for u in units]

    def prepare(tier):
        from irv import build
        build.src_copy()
        smlbuild.library()
        for d in drivers:
            smlbuild.driver(d)
    g["prepare"] = prepare

    def cases(tier, seed, models, deep):
        n = seeds if tier == "quick" else 12 * seeds
        if deep:
            n *= 3
        out = []
        for d in drivers:
            for t in smlbuild.names(d):
                for s in range(n if not t.endswith("!") else 1):
                    out.append({"driver": d, "test": t, "seed": seed * 1000 + s})
        return out
    g["cases"] = cases
    g["key"] = lambda c: "%s:%s" % (c["driver"], c["test"])
    g["CASE_LIMIT"] = 150

    def runner():
        def f(c):
            return smlbuild.run_driver(smlbuild.driver(c["driver"]), c["test"], c["seed"], timeout=18)[0]
        return f
    g["runner"] = runner
