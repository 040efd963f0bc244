"""Runs the sub-checks of one property in several worker processes."""
import argparse
import importlib
import json
import os
import sys
import time

from vlib import harness


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--only")
    parser.add_argument("--scale", default="1")
    parser.add_argument("--jobs", type=int, default=8)
    args = parser.parse_args()
    harness.check_imports()
    prop = importlib.import_module("vlib.props." + args.property.lower())
    if args.replay:
        return harness.replay(prop, args.property, args.replay)
    return harness.run_property(
        prop,
        args.property,
        tier=os.environ.get("VERIF_TIER", "quick"),
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        jobs=args.jobs,
        only=args.only,
        scale=float(args.scale),
    )


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
