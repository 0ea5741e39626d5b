#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property from /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from hv import facts, report

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("hv." + pid.lower())
    c = report.Check(pid, tier)
    try:
        return mod.check(c)
    except facts.AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 3
    except Exception:
        # The analysis met something it does not understand: what it found before that stands, the rest is undecided.
        traceback.print_exc()
        if os.environ.get("HV_DEBUG"):
            return 4
        c.undecided("the rest of the check", "internal error: " + traceback.format_exc().strip().split("\n")[-1][:200])
        return c.finish(getattr(mod, "EXPLANATION", "Static analysis of the current source; it ended early, see undecided."))

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
