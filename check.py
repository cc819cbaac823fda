#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]  -- decide one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        viol = mod.check(ctx)
        return ctx.finish(viol)
    except core.CheckError as e:
        print("ERROR of the check:", e)
    except Exception:
        traceback.print_exc()
    ctx.cleanup()
    return 2


if __name__ == "__main__":
    sys.exit(main())
