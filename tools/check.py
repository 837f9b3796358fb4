#!/usr/bin/env python3
"""tools/check.py <property> [quick|thorough]   |   tools/check.py setup"""
import importlib, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc, specs


def main():
    if sys.argv[1] == "setup":
        return specs.setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    try:
        spec = specs.SPECS[prop]
        jobs, extra, assumptions = spec(tier)
        r = mc.run_jobs(prop, tier, jobs)
        return mc.conclude(prop, tier, "model_checking", t0, *r, extra_cov=extra, assumptions=assumptions)
    except mc.CheckError as e:
        print("ERROR", e)
        return 2


sys.exit(main())
