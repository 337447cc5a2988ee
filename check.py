#!/usr/bin/env python3
"""usage: check.py PROPERTY...   (or: check.py all)

Decides properties of the program in /repo by static analysis.  Exit 0: every
obligation is met (known findings are printed).  Exit 1: a VIOLATION line was
printed.  Exit 2: the analysis could not answer."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from ir import AnalysisError, Program  # noqa: E402
import report  # noqa: E402


def main():
    props = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if props == ["all"]:
        props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "rules")) if f[0] == "p" and f[1:-3].isdigit() and f.endswith(".py"))
    rc = 0
    try:
        prog = Program()
    except AnalysisError as e:
        print("ANALYSIS ERROR: %s" % e)
        return 2
    shared = {}
    for p in props:
        try:
            mod = importlib.import_module(p.lower())
            r = report.run(p, mod, prog, tier, shared)
        except AnalysisError as e:
            print("ANALYSIS ERROR in %s: %s" % (p, e))
            r = 2
        except Exception:
            traceback.print_exc(file=sys.stdout)
            print("ANALYSIS ERROR in %s" % p)
            r = 2
        rc = max(rc, r)
    return rc


sys.exit(main())
