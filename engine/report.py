"""Obligations, known findings, evidence and exit codes."""
import json
import os
import re
import sys
import time

from ir import AnalysisError, Program, VERIF

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Ctx:
    """One run of one property's rules.

    ob(rule, instance, ok, loc, msg) records one obligation.  The instance
    string names the construct (function, field, call) without line numbers,
    so that known findings can be identified by it."""

    def __init__(self, prop, prog, tier, shared=None):
        self.prop = prop
        self.prog = prog
        self.tier = tier
        self.obs = []
        self.rules = {}
        self.notes = []
        self.shared = shared if shared is not None else {}
        self.functions = set()

    def rule(self, rid, text, floor=1):
        """declare a rule with the least number of instances it must find"""
        self.rules[rid] = (text, floor)

    def ob(self, rid, instance, ok, loc="", msg="", funcs=()):
        if rid not in self.rules:
            raise AnalysisError("undeclared rule " + rid)
        self.obs.append((rid, instance, bool(ok), loc, msg))

    def analysed(self, *fs):
        for f in fs:
            self.functions.add(f if isinstance(f, str) else f.short)

    @property
    def locks(self):
        if "locks" not in self.shared:
            from locks import Locks
            self.shared["locks"] = Locks(self.prog)
        return self.shared["locks"]


def known_findings(prop):
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def failures(ctx):
    """obligations not met, other than known findings"""
    known = set(k for k, d in known_findings(ctx.prop))
    return [o for o in ctx.obs if not o[2] and "%s|%s" % (o[0], o[1]) not in known]


def run(prop, mod, prog, tier, shared=None, out=sys.stdout):
    t0 = time.time()
    ctx = Ctx(prop, prog, tier, shared)
    err = None
    try:
        mod.check(ctx)
    except AnalysisError as e:
        if not failures(ctx):
            raise
        err = e     # a violation was found before the analysis lost its footing
    # floors: a rule finds no fewer instances than a working server has.  If most
    # rules find theirs, a step is missing; otherwise the analysis is broken.
    counts = {}
    for rid, inst, ok, loc, msg in ctx.obs:
        counts[rid] = counts.get(rid, 0) + 1
    for rid, (text, floor) in ctx.rules.items():
        if counts.get(rid, 0) < floor and err is None and not failures(ctx):
            short = [r for r, (t, fl) in ctx.rules.items() if counts.get(r, 0) < fl]
            msg = "rule %s of %s found %d instances, expected at least %d" % (rid, prop, counts.get(rid, 0), floor)
            if 2 * len(short) > len(ctx.rules) or (len(ctx.rules) < 3 and not counts.get(rid)):
                raise AnalysisError(msg)
            locs = [o[3] for o in ctx.obs if o[0] == rid and o[3]] or [o[3] for o in ctx.obs if o[3]]
            ctx.obs.append((rid, "a step is missing", False, locs[0] if locs else "", "only %d of at least %d places are left where it holds that %s" % (counts.get(rid, 0), floor, text)))
    known = known_findings(prop)
    bad = []
    seen_known = {}
    uniq = set()
    for rid, inst, ok, loc, msg in ctx.obs:
        if ok:
            continue
        key = "%s|%s" % (rid, inst)
        hit = [d for k, d in known if k == key]
        if hit:
            seen_known[key] = hit[0]
            continue
        if (key, loc) in uniq:
            continue
        uniq.add((key, loc))
        bad.append((rid, inst, loc, msg))
    for key, d in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, d), file=out)
    edir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    rpath = os.path.join(edir, prop + ".violation.txt")
    if bad:
        with open(rpath, "w") as f:
            for rid, inst, loc, msg in bad:
                f.write("%s: [%s %s] %s\n    instance: %s\n    rule: %s\n" % (loc, prop, rid, msg, inst, ctx.rules[rid][0]))
        for rid, inst, loc, msg in bad:
            print("%s: [%s %s] %s (instance: %s)" % (loc, prop, rid, msg, inst), file=out)
        print("VIOLATION property=%s replay=%s" % (prop, rpath), file=out)
    elif os.path.exists(rpath):
        os.remove(rpath)
    nob = len(ctx.obs)
    samples = []
    seenr = set()
    for rid, inst, ok, loc, msg in ctx.obs:
        if rid in seenr:
            continue
        seenr.add(rid)
        samples.append("%s: %s @ %s -> %s" % (rid, inst, loc, "ok" if ok else "NOT MET"))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of every translation unit in /repo/src as compiled; each obligation is one construct "
                           "(call site, access, path or table row) the rule applies to, decided on the control-flow graph.",
            "obligations": nob,
            "discharged": sum(1 for o in ctx.obs if o[2]),
            "known_findings_matched": len(seen_known),
            "translation_units": len(prog.srcs),
            "functions_in_program": len(prog.funcs),
            "functions_touched_by_rules": len(ctx.functions),
            "rules": {rid: {"text": t, "instances": counts.get(rid, 0), "floor": fl} for rid, (t, fl) in ctx.rules.items()},
            "samples": samples[:40],
            "notes": ctx.notes,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d known, %d violations, %.1fs" % (prop, nob, ev["coverage"]["discharged"], len(seen_known), len(bad), time.time() - t0), file=out)
    return 1 if bad else 0
