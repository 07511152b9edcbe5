"""Entry point: python -m mc.run <PROPERTY> [--tier T] [--replay FILE]"""

import importlib
import os
import sys

from . import core


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        elif argv[i] == "--replay":
            rep = os.path.abspath(argv[i + 1])
            i += 2
        else:
            print("unknown argument", argv[i])
            return 3
    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    if rep:
        return core.replay(prop, mod, rep)
    return core.explore(prop, mod, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
