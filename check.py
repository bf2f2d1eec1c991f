#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /repo's current tree (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, checks

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = core.Check(pid, tier, seed)
    try:
        checks.CHECKS[pid](c)
    except core.CheckError as e:
        print("check %s could not run: %s" % (pid, e), file=sys.stderr)
        return 2
    except Exception:  # anything else is no verdict either
        traceback.print_exc()
        return 2
    return c.finish()

if __name__ == "__main__":
    sys.exit(main())
