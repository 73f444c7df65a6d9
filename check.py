#!/usr/bin/env python3
"""check.py <property-id> [quick|thorough]: decides one property (see DESIGN.md)."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import vp  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vp.Ctx(pid, tier, seed)
    try:
        importlib.import_module(pid.lower()).run(ctx)
        rc = ctx.finish()
    except vp.CheckError as e:
        # Already confirmed violations outrank a later failure of the machinery.
        print("ERROR in check %s: %s" % (pid, e), file=sys.stderr)
        rc = ctx.finish() if ctx.violations else 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
