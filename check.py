#!/usr/bin/env python3-vt
"""python3-vt check.py C07 [--tier quick|thorough]: decide one property on /repo's current tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    mod = importlib.import_module("specs." + prop.lower())
    return mod.run(tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
