#!/usr/bin/env python3
"""mkseed.py SPEC.py [--notest]: build and confirm one seeded change.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO
(python source of demo.py).  The change is applied to /repo, confirmed, and
undone again."""
import sys, os, json, subprocess, runpy, textwrap
S = runpy.run_path(sys.argv[1])
d = "/verif/seeded/" + S["ID"]
os.makedirs(d, exist_ok=True)
R = "/repo"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty"
open(d + "/demo.py", "w").write(textwrap.dedent(S["DEMO"]).lstrip())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the property holds on the demonstrated input, 1 otherwise
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/data/POSYDON_data"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD:$(cd "$(dirname "$0")" && pwd)"
export PATH_TO_POSYDON="$PWD/" PATH_TO_POSYDON_DATA="$D/data" SCRATCH="$D"
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$D" && /opt/venv/bin/python -W ignore "$HERE/demo.py"
''')
import shutil
for f in S.get("FILES", []):
    shutil.copy(f, d)
json.dump({"property": S["PROPERTY"], "needs": S["NEEDS"],
           "what_it_breaks": S["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
r0 = sh("bash %s/demo.sh" % d, cwd=R)
print("demo clean rc", r0.returncode, r0.stdout[-300:], r0.stderr[-300:])
try:
    for f, o, n in S["EDITS"]:
        p = os.path.join(R, f); t = open(p).read()
        assert t.count(o) == 1, (f, o, t.count(o))
        open(p, "w").write(t.replace(o, n))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    b = sh("bash /opt/vp/build.sh"); print("build rc", b.returncode)
    r1 = sh("bash %s/demo.sh" % d, cwd=R)
    print("demo patched rc", r1.returncode, r1.stdout[-300:], r1.stderr[-300:])
    if "--notest" not in sys.argv:
        sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open("/tmp/seedtest.json"))
        bl = base.get("stable") or base.get("passed") or base.get("pass") or base.get("tests")
        ok = set(res.get("passed") or res.get("pass"))
        bad = [t for t in bl if t not in ok]
        print("stable tests failing:", len(bad), bad[:3])
    if "--nocheck" not in sys.argv:
        c = sh("bash run.sh %s" % S["PROPERTY"], cwd="/verif")
        print("check rc", c.returncode, c.stdout[:1200])
finally:
    sh("git -C /repo checkout -- .")
print("clean:", sh("git -C /repo status --porcelain").stdout == "")
