#!/usr/bin/env python3
"""python3 vf/run.py <property id> : runs the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vf import core  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(prop, tier, seed)
    mod = importlib.import_module(f"vf.props.{prop}")
    try:
        rc = mod.run(ctx)
    except Exception:
        traceback.print_exc()
        print(f"ERROR: the check of {prop} could not decide", flush=True)
        # violations that were already established stand
        if ctx.violations:
            ctx.finish()
            return 1
        return 2
    return rc


if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    os._exit(code)
