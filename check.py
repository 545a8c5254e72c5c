#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's working tree."""
import os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import *


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import checks

    fn, level = checks.CHECKS[prop]
    ctx = Ctx(prop, tier, seed, level)
    try:
        fn(ctx)
    except ToolError as e:
        if not ctx.violations:
            die(str(e))
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            die("unexpected error")
    sys.exit(ctx.finish())


main()
