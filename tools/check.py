#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   |   check.py --replay FILE"""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import plans


def main():
    if sys.argv[1] == "--replay":
        return plans.replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    run = Run(prop, tier, seed)
    try:
        try:
            plans.PLANS[prop](run)
        except CheckError:
            # a divergence of the real code that was already observed is the verdict; otherwise there is none
            if not run.failures:
                raise
        return run.finish()
    except CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


sys.exit(main())
