#!/usr/bin/env python3
"""check.py ID quick|thorough: decides one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core, props


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    c = core.Check(pid, tier)
    try:
        props.CHECKS[pid](c)
        rc = c.finish()
    except Exception:
        traceback.print_exc()
        rc = 1 if c.violations else 2
        c.finish()
    finally:
        c.cleanup()
    print(f'{pid} {tier}: {"ok" if rc == 0 else "violated" if rc == 1 else "error"} in {core.time.time() - c.t0:.0f}s')
    sys.exit(rc)


main()
