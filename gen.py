#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/*.py (development aid;
no check runs it)."""
import glob
import json
import os
import runpy

HERE = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(HERE, "meta", "[A-Z]*.py"))):
    m = runpy.run_path(f)
    pid = os.path.basename(f)[:-3]
    assert len(m["TITLE"]) <= 80, (pid, len(m["TITLE"]))
    props.append({
        "id": pid, "title": m["TITLE"], "statement": " ".join(m["STATEMENT"].split()),
        "quantifier": {"over": m["OVER"], "text": " ".join(m["QUANT"].split())},
        "why_tests_cant": " ".join(m["WHY"].split()),
        "anchors": {"files": m["FILES"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in m.get("STATE", [])],
                    "mechanism": [dict(zip(("name", "where"), s)) for s in m["MECH"]],
                    "observe_at": m.get("OBSERVE", []), "hook_needed": None}})
    if m.get("NA"):
        na.append({"property": pid, "reason": " ".join(m["NA"].split())})
    else:
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": m["TECH"], "level": "other",
                       "level_note": " ".join(m["NOTE"].split())})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "sh tool/setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks only read the sources", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "All checks are static analyses of the sources in /repo; see DESIGN.md. Known findings: KNOWN_FINDINGS.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props), "properties", len(checks), "checks")
