#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decides one property of the code in /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from vlib import *
import registry


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    fn, level = registry.CHECKS[prop]
    for attempt in (1, 2):
        c = Check(prop, tier, level)
        try:
            fn(c)
            c.finish()
        except MachineryError as e:
            # e.g. the machine ran out of memory: once more, then give up (neither holds nor violated)
            print("error of the machinery:", str(e)[-3000:])
            if c.bad:
                c.finish()
        except Exception:
            traceback.print_exc()
            if c.bad:
                c.finish()
    sys.exit(2)


main()
