"""Entry point of every check: run.py <property id> [--replay FILE] [--only PART ...]"""

import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vendor"))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    args = ap.parse_args()
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1

    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import gggears

    if not os.path.realpath(gggears.__file__).startswith("/repo/src/"):
        print("gggears is not imported from /repo/src", file=sys.stderr)
        return 2
    from lib import harness

    module = importlib.import_module("props." + args.prop.lower())
    if args.replay:
        return harness.replay(args.prop, module, args.replay)
    return harness.run_property(
        args.prop, module, tier, seed, workers=args.workers, only=args.only
    )


if __name__ == "__main__":
    sys.exit(main())
