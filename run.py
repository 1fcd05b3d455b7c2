#!/usr/bin/env python3
"""run.py <property> [quick|thorough]  -- decide one property for /repo's working tree
   run.py setup | replay <file>"""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import common as C
from vp import registry


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    what = sys.argv[1]
    if what == "setup":
        return registry.setup()
    if what == "replay":
        j = json.load(open(sys.argv[2]))["replay"]
        if "line" not in j:
            from vp import cli
            return cli.replay(j)
        exe = C.build(j["driver"])
        print(json.dumps(C.run_driver(exe, [j["line"]], [C.ROOT + "/data"]), indent=1))
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["VERIF_TIER"] = tier
    chk = C.Check(what, tier, seed)
    try:
        registry.CHECKS[what](chk)
    except C.Broken as e:
        C.log(f"[{what}] check could not run: {e}")
        return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
