"""developer tool: writes /tmp/UNIT.rs for contracts/UNIT.py without running the verifier"""
import importlib
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from smlv import run
u = importlib.import_module("contracts." + sys.argv[1])
m = run.Module(u.NAME, run.source(u.NAME)[0], u.CONTRACTS, tymap=getattr(u, "TYMAP", None), builtins=getattr(u, "BUILTINS", None))
m.run()
if m.errors:
    print(m.errors)
open("/tmp/%s.rs" % sys.argv[1], "w").write(run.VFile(m, u.SPEC, getattr(u, "GROUP", True)).text())
