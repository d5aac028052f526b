"""developer tool: verifies one unit of contracts/, prints what is not proved"""
import importlib
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from smlv import run
name = sys.argv[1]
u = importlib.import_module("contracts." + name)
r = run.verify_unit(u, keep="/tmp/%s.rs" % name)
bad = [o for o in r["obls"] if o[1] != "proved"]
for o in bad[:int(sys.argv[2]) if len(sys.argv) > 2 else 12]:
    print(o[1], o[0], "\n     ", o[5])
print("unattached", r["unattached"])
print("%d/%d obligations, verus %s verified %s errors, %ss" % (len(r["obls"]) - len(bad), len(r["obls"]), r["verified"], r["errors"], r["wall"]), r["notes"])
