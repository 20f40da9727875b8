#!/usr/bin/env python3
"""check.py <property id>      run one check (tier from VERIF_TIER, seed from VERIF_SEED)
check.py --replay <file>      run the shard recorded in a replay file again
check.py --setup              build both flavours"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import vlib  # noqa: E402


def main():
    if sys.argv[1] == "--setup":
        for fl in vlib.FLAVOURS:
            try:
                print(fl, vlib.build(fl))
            except vlib.Inconclusive as e:
                print(e)
                return 2
        return 0
    if sys.argv[1] == "--replay":
        return vlib.replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    m = importlib.import_module("plan_" + prop)
    p = m.plan(tier == "thorough")
    return vlib.run_check(prop, p.get("level", "exploration"), p["rule"], p["shards"], p["min_events"],
                          p.get("assumptions", ()), tier=tier, jobs=p.get("jobs", 8))


sys.exit(main())
