"""fixed.py PID 'subject prefix' 'what failed' : record a repaired defect
(known_findings.json); fixed.py --rehash : refresh the commit hashes."""
import json
import subprocess
import sys
P = "/verif/known_findings.json"
k = json.load(open(P))
log = [l.split(" ", 1) for l in subprocess.check_output(
    ["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]


def find(subj):
    m = [h for h, s in log if s.startswith("fix: " + subj)]
    assert len(m) == 1, (subj, m)
    return m[0]


if sys.argv[1] == "--rehash":
    for e in k:
        if e["status"] == "fixed" and e.get("subject"):
            h = find(e["subject"])
            e["what"] = e["what"].replace(e["commit"], h)
            e["commit"] = h
    bad = [e["commit"] for e in k if e["status"] == "fixed"
           and not any(e["commit"].startswith(h) or h.startswith(e["commit"])
                       for h, s in log)]
    print("unknown commits:", bad)
else:
    pid, subj, what = sys.argv[1:4]
    h = find(subj)
    k = [e for e in k if e.get("subject") != subj]
    k.append({"property": pid, "status": "fixed", "commit": h, "key": "",
              "subject": subj,
              "what": "fixed: property=%s %s %s" % (pid, h, what)})
json.dump(k, open(P, "w"), indent=1)
