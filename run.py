#!/usr/bin/env python3-vt
"""run.py P01 [--tier quick|thorough] [--seed N] [--replay FILE] [--build-only]"""
import argparse, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core, build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        prop = core.load(a.id)
        m = core.replay_once(prop, core.build_for(prop), json.load(open(a.replay))["case"])
        print(m or "the property holds for this case")
        return 1 if m else 0
    return core.run_property(a.id, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
