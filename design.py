#!/usr/bin/env python3
"""Writes DESIGN.md from docs/, meta/ and the last evidence (development aid; no check runs it)."""
import glob
import json
import os
import re
import runpy

HERE = os.path.dirname(os.path.abspath(__file__))
D = lambda *a: os.path.join(HERE, *a)
flat = lambda s: " ".join(s.split())
notes = runpy.run_path(D("docs", "notes.py"))
out = [open(D("docs", "head.md")).read().rstrip(), "", "## Properties", "",
       "For each: what is stated, how it is decided, the rules with the number of instances found in the present program, what is assumed and left out.", ""]
na = []
for f in sorted(glob.glob(D("meta", "[A-Z]*.py"))):
    m, pid = runpy.run_path(f), os.path.basename(f)[:-3]
    if m.get("NA"):
        na.append("- **%s %s.** %s" % (pid, m["TITLE"], flat(m["NA"])))
        continue
    ev = json.load(open(D("evidence", pid + ".json")))
    c = ev["coverage"]
    out += ["### %s %s" % (pid, m["TITLE"]), "", flat(m["STATEMENT"]), "",
            "*Ranges over:* %s. *Decided by:* %s. *Why tests cannot:* %s" % (flat(m["QUANT"]), flat(m["TECH"]), flat(m["WHY"])), "",
            "| rule | what has to hold | instances |", "|---|---|---|"]
    out += ["| %s | %s | %d |" % (k, r["text"].replace("|", "/"), r["instances"]) for k, r in c["rules"].items()]
    out += ["", "*Bounds:* %s%s" % (flat(m["NOTE"]), " " + notes["SCOPE"][pid] if pid in notes["SCOPE"] and notes["SCOPE"][pid] not in flat(m["NOTE"]) else "")]
    if ev.get("assumptions"):
        out += ["", "*Assumes:* " + "; ".join(flat(a) for a in ev["assumptions"]) + "."]
    if pid in notes["ALARMS"]:
        out += ["", "*Corrected after false alarms:* " + notes["ALARMS"][pid]]
    out.append("")
tail = open(D("docs", "tail.md")).read()
fixed = []
for l in open(D("KNOWN_FINDINGS.txt")):
    x = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if x:
        fixed.append("- %s `%s` %s" % x.groups())
seeds = []
for d in sorted(glob.glob(D("seeded", "*", "meta.json"))):
    j = json.load(open(d))
    seeds.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["property"], "check of " + j["property"], flat(j["what_it_breaks"]).replace("|", "/")))
tail = tail.replace("@FIXED@", "\n".join(fixed)).replace("@SEEDED@", "\n".join(seeds)).replace("@NA@", "\n".join(na))
open(D("DESIGN.md"), "w").write("\n".join(out) + "\n" + tail)
