#!/usr/bin/env python3
"""check.py <ID>: decides one property; see DESIGN.md"""

import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))

import core       # noqa: E402
import props      # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = core.Check(pid, tier, seed)
    try:
        c.build()
        try:
            props.CHECKS[pid](c)
        except Exception:
            if not c.violations:
                raise
            traceback.print_exc()
        return c.finish()
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s: the check itself failed" % pid)
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
