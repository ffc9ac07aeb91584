#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decides one property of /repo's working tree. See DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import checks
from vlib import Ctx, Broken, log


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        checks.CHECKS[prop](c)
        return c.finish()
    except Broken as e:
        log(f"{prop}: no answer: {e}")
        return 2
    except Exception:
        import traceback; traceback.print_exc()
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
