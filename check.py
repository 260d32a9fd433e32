#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vplib, checks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(vplib.BUILD, exist_ok=True)
    try:
        spec = checks.CHECKS[pid]
        return spec["run"](pid, spec["units"], tier, seed, spec.get("assume", []))
    except vplib.CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e), flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
