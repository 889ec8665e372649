#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        for m in p["files"]:
            assert os.path.exists(os.path.join("/repo", m)), m
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b}
                                      for a, b in p["mech"]],
                        "observe_at": p["observe"],
                        "hook_needed": None}}) + "\n")
na = {p for p, _ in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    assert os.path.exists(os.path.join(root, "checks", p["id"] + ".py"))
    checks.append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick ./run.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "VERIF_HOOKS",
                     "enable": "no hooks are compiled into the repository: "
                     "the monitors attach from /verif to public entry points "
                     "(the variable is reserved and read by nothing)",
                     "source_commits": []},
           "checks": checks,
           "not_applicable": [{"property": a, "reason": b}
                              for a, b in NOT_APPLICABLE],
           "notes": "Pure-Python target: monitors, reference-model oracles, "
           "fault injection and offline checkers over the real code; see "
           "DESIGN.md."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
