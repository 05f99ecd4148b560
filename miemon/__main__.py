import argparse
import json
import sys

from miemon import core

ap = argparse.ArgumentParser(prog="miemon")
ap.add_argument("what", help="property id (C01) or 'replay'")
ap.add_argument("file", nargs="?")
ap.add_argument("--tier", choices=["quick", "thorough"])
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
if a.what == "replay":
    d = json.load(open(a.file))
    sys.exit(core.main(d["module"], replay=a.file))
sys.exit(core.main(f"miemon.checks.{a.what.lower()}", tier=a.tier, verbose=a.v))
