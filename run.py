#!/usr/bin/env python3
"""run.py <property-id> [quick|thorough]: run one check. Exit 0 held, 1 violated, 2 error of the check."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = vlib.Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(ctx)
        rc = vlib.finish(ctx, getattr(mod, "LEVEL", "model_checking"), mod.NOTE)
    except vlib.CheckError as e:
        print("ERROR of the check %s: %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
