#!/usr/bin/env python3
"""check.py <PROPERTY> : decides one property on /repo's current tree (tier from VERIF_TIER)."""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from vlib.props import PROPS
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        from vlib.replay import replay
        return replay(args[1], args[2])
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    spec = PROPS[prop]
    if spec.get("python"):
        from vlib.pydriver import PyCheck
        return PyCheck(prop, spec, tier, seed).go()
    from vlib.driver import Check
    return Check(prop, spec, tier, seed).go()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
