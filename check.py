#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]   runs the check of one property (quick or thorough by VERIF_TIER)"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
import registry


def main():
    prop = sys.argv[1]
    if "--replay" in sys.argv:
        return registry.replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    vlib.build()
    c = vlib.Check(prop)
    registry.CHECKS[prop](c)
    return c.finish()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.ToolError as e:
        print("ERROR: " + str(e))
        sys.exit(2)
