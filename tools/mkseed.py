#!/usr/bin/env python3
"""mkseed.py < spec: writes /verif/seeded/<id>/ from a python dict literal on stdin:
{id, property, edits: [(file, old, new)], sml: demo text (prints OK on success) | sh: demo script, needs, what}"""
import ast, os, subprocess, sys, shutil, json
d = ast.literal_eval(sys.stdin.read())
out = "/verif/seeded/" + d["id"]
os.makedirs(out, exist_ok=True)
tmp = "/tmp/verif-mkseed"
shutil.rmtree("/tmp/verif-mkseed", ignore_errors=True)
os.makedirs(tmp)
subprocess.check_call("git -C /repo archive HEAD | tar x -C /tmp/verif-mkseed && cd /tmp/verif-mkseed && git init -q && git add -Af . && git -c user.name=x -c user.email=x@x commit -qm x", shell=True)
for f, a, b in d["edits"]:
    p = os.path.join(tmp, f)
    s = open(p, encoding="latin1").read()
    assert s.count(a) == 1, (f, a, s.count(a))
    open(p, "w", encoding="latin1").write(s.replace(a, b))
df = subprocess.check_output(["git", "-C", tmp, "diff"])
open(out + "/patch.diff", "wb").write(df)
shutil.rmtree("/tmp/verif-mkseed")
if "sml" in d:
    open(out + "/demo.sml", "w").write(d["sml"])
    open(out + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 iff the program prints OK
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) && cp "$here/demo.sml" "$t/" && cd "$t" || exit 2
/repo/_build/inst/bin/mosmlc -o demo.exe demo.sml >compile.log 2>&1 || { cat compile.log; exit 3; }
timeout 120 ./demo.exe >out.log 2>&1; tail -3 out.log
[ "$(tail -1 out.log)" = OK ]; r=$?
cd / && find "$t" -mindepth 1 -delete && rmdir "$t"
exit $r
''')
else:
    open(out + "/demo.sh", "w").write(d["sh"])
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]}, open(out + "/meta.json", "w"), indent=1)
print(out, len(df))
