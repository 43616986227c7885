#!/usr/bin/env python3-vt
"check.py <ID> [--tier quick|thorough] [--replay FILE] [--seed N]"
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    from vlib import driver

    os.chdir(HERE)
    sys.path.insert(0, driver.REPO)
    try:
        if a.replay:
            return driver.replay(a.prop, a.replay, a.tier)
        seed = a.seed
        if seed is None:
            try:
                seed = int(os.environ.get("VERIF_SEED", "1"))
            except ValueError:
                seed = 1
        from vlib.metaload import load

        return driver.run_check(a.prop, a.tier, seed, load(a.prop))
    except driver.HarnessError as ex:
        print(f"harness error: {ex}", file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
