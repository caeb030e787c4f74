#!/usr/bin/env python3
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import core
ap = argparse.ArgumentParser()
ap.add_argument("id", nargs="*")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("-v", action="store_true")
ap.add_argument("--only")
a = ap.parse_args()
core.load_props()
ids = a.id or sorted(core.REG)
rc = 0
P = None
if len(ids) > 1:
    P = core.Program()
for i in ids:
    rc = max(rc, core.check(i, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed, P, a.v, a.only))
sys.exit(rc)
