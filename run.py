import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--replay")
ap.add_argument("--lib", help="prebuilt extensions (development only)")
ap.add_argument("--only")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
tier = os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1"))
mod = importlib.import_module("checks." + a.property.lower())
sys.exit(core.main(a.property, mod, tier, seed, replay=a.replay, lib=a.lib, verbose=a.v, only=a.only))
