#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import importlib, traceback
from common import Check
import ws

MODULES = {
    "vm": ["C02", "C03", "C04"],
    "soundness": ["C05", "C06", "C07", "C08", "C09"],
    "alg": ["C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24"],
    "field": ["C10", "C11", "C12"],
    "irprog": ["C01", "C25", "C26", "C27"],
}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = [m for m, ps in MODULES.items() if prop in ps][0]
    c = Check(prop, tier)
    try:
        importlib.import_module(mod).check(c)
    except ws.BuildError as e:
        print("BUILD ERROR (no verdict)\n" + str(e)[-1500:])
        c.finish("no verdict")
        return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
