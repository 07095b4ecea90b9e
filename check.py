#!/usr/bin/env python3
"""check.py <ID>: run the check of one property (VERIF_SEED, VERIF_TIER)."""
import importlib
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import vlib  # noqa: E402

prop = sys.argv[1]
if prop == "setup":  # warm the content-addressed builds (every check also builds for itself)
    for f in ("san", "plain", "memcheck"):
        vlib.build(f)
    sys.exit(0)
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
mod = importlib.import_module(prop.lower())
vlib.main(prop, mod.check, getattr(mod, "LEVEL", "exploration"))
