#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]: decides one property on /repo's current tree."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import common
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    known = json.load(open(os.path.join(common.VERIF, "known-findings.json")))["findings"]
    try: ctx = common.Ctx(pid, tier)
    except common.AnalysisBroken as e:
        # the tree cannot be read at all (it does not type-check): no answer
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e)); sys.exit(2)
    try: importlib.import_module("p_" + pid.lower()).check(ctx)
    except Exception as e:
        # part of the code has a shape no rule applies to: those obligations are undecided, the others count
        if os.environ.get("SDDX_STRICT"): raise
        ctx.ob("analysable", "whole check", None, "not decided: %s: %s" % (type(e).__name__, e))
    rc = common.finish(ctx, known)
    sys.exit(rc)
main()
